//! Cost of saving, opening, iterating, searching and looking up as databases grow; memory that is kept.
use crate::ctx::*;
use crate::gen;
use crate::mem;
use crate::model::*;
use crate::refkdbx::Enc;
use crate::rng::Rng;
use crate::util::*;
use kpdb::*;
use std::result::Result;
use secstr::SecStr;

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "A case is one shape of database (many of one thing, or one large thing) at one size and at eight times that size; the CPU \
               time of each operation on it is measured by the thread's clock and its peak of memory by a counting allocator, and an \
               operation whose cost grows far more than the content does (confirmed by the best of further measurements) breaks the \
               property; or one history of uses after which the memory in use must be what it was before; distinct by shape, size and \
               operation, or by history.",
        sections: vec![
            Section { name: "grown", quick: 2 * SHAPES.len(), thorough: 12 * SHAPES.len(), f: grown },
            Section { name: "trees", quick: 2 * TREES, thorough: 10 * TREES, f: trees },
            Section { name: "retained", quick: 1500, thorough: 15_000, f: retained },
        ],
        need: &[
            ("operations measured at two sizes", 500),
            ("shapes", 60),
            ("peaks of memory compared", 400),
            ("cycles after which nothing was retained", 40_000),
        ],
        assumptions: &["the thread's CPU clock is not off by more than a factor of two between two runs of one operation, in the best of five"],
        vmem_kib: 0,
    }
}
#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Nanoseconds of CPU this thread has used.
fn cpu() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
type Shape = (&'static str, usize, fn(&mut Rng, usize) -> Content);
/// What is measured: a database, and for documents of other programs the file.
struct Content {
    db: Database,
    file: Option<Vec<u8>>,
}
const K: &str = "scale";
fn key() -> CompositeKey {
    CompositeKey::from_password(K)
}
fn base() -> Database {
    let mut d = Database::new(&key());
    d.transform_rounds = TransformRounds(1);
    d
}
fn of(db: Database) -> Content {
    Content { db, file: None }
}
fn named(i: usize) -> Entry {
    let mut e = Entry::new();
    e.set_title(format!("entry {}", i));
    e
}
fn one(mut f: impl FnMut(&mut Entry)) -> Content {
    let mut d = base();
    let mut e = named(0);
    f(&mut e);
    d.root_group.add_entry(e);
    of(d)
}
fn xml(r: &mut Rng, s: String) -> Content {
    let f = Enc { rounds: 1, ..Enc::random(r) }.file(&gen::KeySpec::pw(K).comp(), s.as_bytes());
    Content { db: base(), file: Some(f) }
}
fn doc(inner: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"utf-8\"?><KeePassFile><Meta><DatabaseName>x</DatabaseName></Meta><Root><Group><UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID>{}</Group></Root></KeePassFile>", inner)
}
const CHAIN: &str = "a chain of groups";
const NEST: &str = "a foreign document of unknown elements in each other";
const SHAPES: &[Shape] = &[
    ("entries in one group", 1500, |_, n| {
        let mut d = base();
        for i in 0..n {
            d.root_group.add_entry(named(i));
        }
        of(d)
    }),
    ("groups in one group", 2000, |_, n| {
        let mut d = base();
        for i in 0..n {
            d.root_group.add_group(Group::new(format!("group {}", i)));
        }
        of(d)
    }),
    ("a binary tree of groups", 2000, |_, n| {
        let mut v: Vec<Group> = (0..n).map(|i| Group::new(format!("group {}", i))).collect();
        for i in (1..n).rev() {
            let g = v.pop().unwrap();
            v[(i - 1) / 2].groups.insert(0, g);
        }
        let mut d = base();
        d.root_group.add_group(v.pop().unwrap());
        of(d)
    }),
    ("groups of groups with entries", 1200, |_, n| {
        let mut d = base();
        let w = (n as f64).sqrt() as usize;
        for i in 0..w {
            let mut g = Group::new(format!("outer {}", i));
            for j in 0..w {
                let mut h = Group::new(format!("inner {}", j));
                h.add_entry(named(j));
                g.add_group(h);
            }
            d.root_group.add_group(g);
        }
        of(d)
    }),
    (CHAIN, 12, |_, n| {
        let mut g = Group::new("last");
        for i in 0..n {
            let mut p = Group::new(format!("level {}", i));
            for j in 0..40 {
                p.add_group(Group::new(format!("side {}", j)));
            }
            p.add_group(g);
            g = p;
        }
        let mut d = base();
        d.root_group.add_group(g);
        of(d)
    }),
    ("fields of one entry", 5000, |_, n| {
        one(|e| {
            for i in 0..n {
                e.set_other(StringKey::Other(format!("field {}", i)), "value");
            }
        })
    }),
    ("protected fields of one entry", 5000, |_, n| {
        one(|e| {
            for i in 0..n {
                e.strings.insert(StringKey::Other(format!("field {}", i)), StringValue::new(format!("secret {}", i), true));
            }
        })
    }),
    ("history of one entry", 1500, |_, n| {
        one(|e| {
            for i in 0..n {
                e.history.push(named(i));
            }
        })
    }),
    ("attachments of one entry", 4000, |_, n| {
        one(|e| {
            for i in 0..n {
                let v = if i % 2 == 0 {
                    BinaryValue::Plain(vec![i as u8; 40])
                } else {
                    BinaryValue::Protected(SecStr::new(vec![i as u8; 40]))
                };
                e.binaries.insert(BinaryKey(format!("file {}", i)), v);
            }
        })
    }),
    ("references to the pool", 4000, |_, n| {
        let mut c = one(|e| {
            for i in 0..n {
                e.binaries.insert(BinaryKey(format!("file {}", i)), BinaryValue::Ref(BinaryId(i.to_string())));
            }
        });
        for i in 0..n {
            c.db.binaries.insert(BinaryId(i.to_string()), vec![i as u8; 40]);
        }
        c
    }),
    ("the pool of attachments", 2000, |_, n| {
        let mut d = base();
        for i in 0..n {
            d.binaries.insert(BinaryId(i.to_string()), vec![i as u8; 60]);
        }
        of(d)
    }),
    ("custom data", 10_000, |_, n| {
        let mut d = base();
        for i in 0..n {
            d.custom_data.insert(format!("name {}", i), format!("value {}", i));
        }
        of(d)
    }),
    ("custom icons", 8000, |r, n| {
        let mut d = base();
        for _ in 0..n {
            d.custom_icons.insert(CustomIconUuid(uuid::Uuid::from_bytes(r.arr())), r.bytes(60));
        }
        of(d)
    }),
    ("associations of one entry", 10_000, |_, n| {
        one(|e| {
            for i in 0..n {
                e.associations.push(Association { window: format!("window {}", i), keystroke_sequence: "{ENTER}".into() });
            }
        })
    }),
    ("one long text", 1_000_000, |_, n| {
        one(|e| {
            e.set_notes("just some plain text. ".repeat(n / 22));
        })
    }),
    ("one long text of special characters", 300_000, |_, n| {
        one(|e| {
            e.set_notes("<&>\"'\r\n\t \u{e9}\u{4e2d}\u{1f600}]]>".repeat(n / 24));
        })
    }),
    ("one long protected text", 1_000_000, |_, n| {
        one(|e| {
            e.set_password("protected <&> \u{e9} text. ".repeat(n / 24));
        })
    }),
    ("a long name", 400_000, |_, n| {
        let mut d = base();
        d.root_group.name = "Name Of A Group ".repeat(n / 16);
        d.name = "n".repeat(n);
        of(d)
    }),
    ("a long field name", 400_000, |_, n| {
        one(|e| e.set_other(StringKey::Other("field ".repeat(n / 6)), "v"))
    }),
    ("one large attachment", 1_000_000, |r, n| {
        let v = r.bytes(n);
        one(|e| drop(e.binaries.insert(BinaryKey("a".into()), BinaryValue::Plain(v.clone()))))
    }),
    ("one large protected attachment", 1_000_000, |r, n| {
        let v = r.bytes(n);
        one(|e| drop(e.binaries.insert(BinaryKey("a".into()), BinaryValue::Protected(SecStr::new(v.clone())))))
    }),
    ("one large pool item", 1_000_000, |r, n| {
        let mut d = base();
        d.binaries.insert(BinaryId("0".into()), r.bytes(n));
        d.compression = if r.bool() { Compression::GZip } else { Compression::None };
        of(d)
    }),
    ("a foreign document of unknown elements", 20_000, |r, n| {
        let s: String = (0..n).map(|i| format!("<Unknown{}><X>y</X></Unknown{}>", i % 7, i % 7)).collect();
        xml(r, doc(&s))
    }),
    (NEST, 60, |r, n| {
        let s = format!("{}{}", "<A><B/>".repeat(n), "</A>".repeat(n));
        xml(r, doc(&s.repeat(50)))
    }),
    ("a foreign document with text in many pieces", 20_000, |r, n| {
        let s: String = (0..n).map(|i| format!("a{}&amp;<!-- c --><![CDATA[<x>]]>", i % 10)).collect();
        xml(r, doc(&format!("<Name>{}</Name>", s)))
    }),
    ("a foreign document with comments and blanks", 20_000, |r, n| {
        xml(r, doc(&" \n <!-- comment -->\n<?pi x?>\t".repeat(n)))
    }),
    ("a foreign document with many attributes", 4000, |r, n| {
        let s: String = (0..n).map(|i| format!("<Name a{}=\"1\" b=\"2\">x</Name>", i % 5)).collect();
        xml(r, doc(&s))
    }),
    ("a foreign file of many small blocks", 6000, |r, n| {
        let mut c = xml(r, String::new());
        let s = doc(&"<Name>small</Name>".repeat(n));
        let e = Enc { rounds: 1, gzip: false, block_sizes: vec![16], ..Enc::random(r) };
        c.file = Some(e.file(&gen::KeySpec::pw(K).comp(), s.as_bytes()));
        c
    }),
];
const GROWTH: usize = 8;
type Watch<'a> = dyn FnMut(&'static str, u64, u64) + 'a;
fn timed(f: &mut Watch, what: &'static str, g: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    let m = mem::start();
    let a = cpu();
    let x = g();
    let t = cpu() - a;
    f(what, t, mem::peak(m));
    x
}
fn look(c: &Content, r: &mut Rng, f: &mut Watch) -> Result<(), String> {
    let mut time = |what: &'static str, g: &mut dyn FnMut() -> Result<(), String>| timed(f, what, g);
    let k = key();
    let mut d = c.db.clone();
    let mut file = c.file.clone();
    if file.is_none() {
        time("save", &mut || {
            file = Some(must_save(&d)?);
            Ok(())
        })?;
    }
    let file = file.unwrap();
    let mut o = None;
    time("open", &mut || {
        o = Some(must_open(&file, &k)?);
        Ok(())
    })?;
    if c.file.is_some() {
        d = o.take().unwrap();
        time("save what was opened", &mut || must_save(&d).map(|_| ()))?;
    }
    inside(&mut d, r, f)
}
/// Operations in memory.
fn inside(d: &mut Database, r: &mut Rng, f: &mut Watch) -> Result<(), String> {
    let mut time = |what: &'static str, g: &mut dyn FnMut() -> Result<(), String>| timed(f, what, g);
    let mut n = 0;
    time("iterate", &mut || {
        n = d.root_group.iter().count();
        Ok(())
    })?;
    time("iterate mutably", &mut || {
        d.root_group.iter_mut().for_each(|g| g.is_expanded = !g.is_expanded);
        Ok(())
    })?;
    time("search entries", &mut || {
        d.find_entries("nothing of the kind");
        Ok(())
    })?;
    time("search entries that all match", &mut || {
        d.find_entries("e");
        Ok(())
    })?;
    let long = format!("{}!", "just some plain text. ".repeat(4000));
    time("search for a long text", &mut || {
        d.find_entries(&long);
        d.find_groups(&long);
        Ok(())
    })?;
    time("search groups", &mut || {
        d.find_groups("nothing of the kind");
        Ok(())
    })?;
    let (e, g) = (EntryUuid(uuid::Uuid::from_bytes(r.arr())), GroupUuid(uuid::Uuid::from_bytes(r.arr())));
    time("look up what is absent", &mut || {
        if d.get_entry(e).is_some() || d.get_group(g).is_some() || d.get_entry_mut(e).is_some() || d.get_group_mut(g).is_some() {
            return Err("an absent identifier is found".into());
        }
        Ok(())
    })?;
    time("copy and compare", &mut || {
        if d.clone() != *d {
            return Err("a copy is different".into());
        }
        Ok(())
    })?;
    Ok(())
}
type Row = (&'static str, u64, u64);
fn note(out: &mut Vec<Row>, w: &'static str, t: u64, m: u64) {
    match out.iter_mut().find(|o| o.0 == w) {
        Some(o) => {
            o.1 = o.1.min(t);
            o.2 = o.2.min(m);
        }
        None => out.push((w, t, m)),
    }
}
type Measure<'a> = dyn FnMut(&mut Rng, usize, usize) -> Result<Vec<Row>, String> + 'a;
fn compare(c: &mut Ctx, r: &mut Rng, name: &str, n: usize, measure: &mut Measure) {
    let big = GROWTH * n;
    c.n("shapes");
    c.seen_bytes(format!("{} {}", name, n).as_bytes());
    c.sample(|| format!("{}: {} and {}", name, n, big));
    // the same choices at both sizes
    let seed = r.u64();
    let mut at = |n: usize, times: usize| measure(&mut Rng::new(seed), n, times);
    let (a, b) = match (at(n, 2), at(big, 1)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return c.fail(format!("{}: {}", name, e)),
    };
    let odd = |a: &[Row], b: &[Row], limit: u64, n: usize, big: usize| -> Vec<String> {
        let mut v = vec![];
        for (x, y) in a.iter().zip(b) {
            if y.1 > LEAST && y.1 > x.1.max(FLOOR) * limit {
                v.push(format!("{}: {:.4} s for {}, {:.4} s for {}", x.0, x.1 as f64 / 1e9, n, y.1 as f64 / 1e9, big));
            }
            if y.2 > LEAST_MEM && y.2 > x.2.max(FLOOR_MEM) * limit {
                v.push(format!("{}: a peak of {} bytes for {}, {} for {}", x.0, x.2, n, y.2, big));
            }
        }
        v
    };
    c.add("operations measured at two sizes", a.len() as u64);
    c.add("peaks of memory compared", a.len() as u64);
    for (x, y) in a.iter().zip(&b) {
        c.eval();
        c.seen_bytes(format!("{} {} {}", name, n, x.0).as_bytes());
        if std::env::var("KMON_TIMES").is_ok() {
            let q = |a: u64, b: u64| b as f64 / a.max(1) as f64;
            eprintln!(
                "{:55} {:30} {:9.3} ms {:9.3} ms {:6.1}   {:9} {:9} {:6.1}",
                name, x.0, x.1 as f64 / 1e6, y.1 as f64 / 1e6, q(x.1, y.1), x.2, y.2, q(x.2, y.2)
            );
        }
    }
    if odd(&a, &b, SUSPECT, n, big).is_empty() {
        return;
    }
    // once more: the small one is allowed its worst, of the big one the best counts
    let join = |v: &[Row], w: &[Row], f: fn(u64, u64) -> u64| -> Vec<Row> {
        v.iter().zip(w).map(|(x, y)| (x.0, f(x.1, y.1), f(x.2, y.2))).collect()
    };
    let (a, b) = match (at(n, 2), at(big, 2)) {
        (Ok(a2), Ok(b2)) => (join(&a, &a2, u64::max), join(&b, &b2, u64::min)),
        _ => return,
    };
    let o = odd(&a, &b, LIMIT, n, big);
    if !o.is_empty() {
        return c.fail(format!("{}, {} times as many: {}", name, GROWTH, o.join("; ")));
    }
    // each line of a file is indented by its depth, so a chain's file grows faster than the chain
    if odd(&a, &b, SUSPECT, n, big).is_empty() || name == CHAIN || name == NEST {
        return;
    }
    // more than in proportion, but not by much: four times as many again tells what part of it grows
    c.n("measured at a third size");
    let more = 4 * big;
    let d = match at(more, 1) {
        Ok(d) => d,
        Err(e) => return c.fail(format!("{}: {}", name, e)),
    };
    let o = odd(&b, &d, LIMIT4, big, more);
    if !o.is_empty() {
        if let Ok(d2) = at(more, 1) {
            let o = odd(&b, &join(&d, &d2, u64::min), LIMIT4, big, more);
            if !o.is_empty() {
                c.fail(format!("{}, 4 times as many again: {}", name, o.join("; ")));
            }
        }
    }
}
fn grown(c: &mut Ctx) {
    let mut r = c.rng();
    let (name, n0, make) = &SHAPES[c.index % SHAPES.len()];
    // not always the same size
    let n = n0 + r.below(n0 / 4 + 1);
    compare(c, &mut r, name, n, &mut |r, n, times| {
        let x = make(r, n);
        let mut out = vec![];
        for _ in 0..times {
            look(&x, r, &mut |w, t, m| note(&mut out, w, t, m))?;
        }
        Ok(out)
    });
}
const TREES: usize = 5;
/// Large trees that are never saved.
fn tree(kind: usize, n: usize) -> Group {
    let mut root = Group::new("root");
    match kind {
        0 => (0..n).for_each(|i| root.add_group(Group::new(format!("group {}", i)))),
        1 => (0..n / 2).for_each(|i| root.add_entry(named(i))),
        2 => {
            // two below each
            let mut v: Vec<Group> = (0..n).map(|i| Group::new(format!("group {}", i))).collect();
            for i in (1..n).rev() {
                let g = v.pop().unwrap();
                v[(i - 1) / 2].groups.push(g);
            }
            root.add_group(v.pop().unwrap());
        }
        3 => {
            // many narrow families
            for i in 0..n / 8 {
                let mut g = Group::new(format!("family {}", i));
                for j in 0..3 {
                    let mut h = Group::new(format!("member {}", j));
                    h.add_entry(named(j));
                    g.add_group(h);
                }
                root.add_group(g);
            }
        }
        _ => {
            // a comb: many below each of a hundred levels
            let mut g = Group::new("last");
            for i in 0..100 {
                let mut p = Group::new(format!("level {}", i));
                for j in 0..n / 100 {
                    p.add_group(Group::new(format!("side {}", j)));
                }
                p.add_group(g);
                g = p;
            }
            root.add_group(g);
        }
    }
    root
}
fn trees(c: &mut Ctx) {
    let mut r = c.rng();
    let kind = c.index % TREES;
    let n = 15_000 + r.below(4000);
    let name = ["groups in one group", "entries in one group", "a binary tree of groups", "families", "a comb of groups"][kind];
    compare(c, &mut r, &format!("{} in memory", name), n, &mut |r, n, times| {
        let mut out = vec![];
        for _ in 0..times {
            let mut d = base();
            timed(&mut |w, t, m| note(&mut out, w, t, m), "build", &mut || {
                d.root_group = tree(kind, n);
                Ok(())
            })?;
            inside(&mut d, r, &mut |w, t, m| note(&mut out, w, t, m))?;
        }
        Ok(out)
    });
}
/// Other texts, names, identifiers and dates for each round.
fn differ(m: &mut MDb, n: u64) {
    fn text(s: &mut String, n: u64) {
        s.push_str(&format!(" {}", n));
    }
    fn id(i: &mut Id, n: u64) {
        for (x, y) in i.iter_mut().zip(n.to_le_bytes()) {
            *x ^= y;
        }
    }
    fn entry(e: &mut MEntry, n: u64) {
        id(&mut e.uuid, n);
        text(&mut e.tags, n);
        text(&mut e.url, n);
        e.strings = std::mem::take(&mut e.strings)
            .into_iter()
            .map(|(mut k, mut v)| {
                if canon(&k) == k {
                    text(&mut k, n);
                }
                match &mut v {
                    MStr::Plain(s) => text(s, n),
                    MStr::Prot(b) => b.extend(format!("{}", n).bytes()),
                }
                (k, v)
            })
            .collect();
        e.strings.insert(format!("field {}", n), MStr::Plain("x".into()));
        e.bins.insert(format!("file {}", n), MBin::Plain(n.to_le_bytes().to_vec()));
        e.assoc.push((format!("window {}", n), "{ENTER}".into()));
        e.times.usage = e.times.usage.wrapping_add(n as i32);
        e.history.iter_mut().for_each(|h| entry(h, n));
    }
    fn group(g: &mut MGroup, n: u64) {
        id(&mut g.uuid, n);
        text(&mut g.name, n);
        text(&mut g.notes, n);
        g.entries.iter_mut().for_each(|e| entry(e, n));
        g.groups.iter_mut().for_each(|g| group(g, n));
    }
    text(&mut m.name, n);
    m.custom_data.insert(format!("data {}", n), format!("value {}", n));
    m.binaries.insert(format!("{}", 1000 + n), n.to_le_bytes().to_vec());
    let mut i = [7; 16];
    id(&mut i, n);
    m.icons.insert(i, n.to_le_bytes().to_vec());
    group(&mut m.root, n);
}
/// After any use and the end of what it made, the memory in use is what it was before.
fn retained(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    c.seen_bytes(format!("{:?}", m).as_bytes());
    let mut seq: Vec<usize> = (0..3 + r.below(8)).map(|_| r.below(11)).collect();
    seq.push(0);
    // half of the time every round has content of its own
    let vary = r.bool();
    let mut round = 0;
    let mut cycle = || {
        round += 1;
        let (key, mut d) = if vary {
            let mut m = m.clone();
            differ(&mut m, round);
            let key = CompositeKey::from_password(format!("round {}", round));
            let d = to_db(&m, &key);
            (key, d)
        } else {
            (k.key(), to_db(&m, &k.key()))
        };
        let mut f = save(&d).ok().and_then(|x| x.ok()).unwrap_or_default();
        for s in &seq {
            match s {
                0 => {
                    if let Ok(Ok(o)) = open(&f, &key) {
                        d = o;
                    }
                }
                1 => drop(open(&f, &CompositeKey::from_password("not it"))),
                2 => drop(open(&f[..f.len() / 2], &key)),
                3 => {
                    let mut g = f.clone();
                    if let Some(x) = g.last_mut() {
                        *x ^= 1;
                    }
                    drop(open(&g, &key));
                }
                4 => {
                    d.name.push('n');
                    if let Ok(Ok(g)) = save(&d) {
                        f = g;
                    }
                }
                5 => drop((d.find_entries("a").len(), d.find_groups("e").len())),
                6 => {
                    // children added are visited too, so not to the end
                    for g in d.root_group.iter_mut().take(3) {
                        g.add_group(Group::new("added"));
                        g.add_entry(Entry::new());
                    }
                }
                7 => {
                    if let Some(g) = d.root_group.groups.first().map(|g| g.uuid) {
                        drop(d.root_group.remove_group(g));
                    }
                    if let Some(e) = d.root_group.entries.first().map(|e| e.uuid) {
                        drop(d.root_group.remove_entry(e));
                    }
                }
                8 => drop(d.clone() == d),
                9 => drop(format!("{:?}", d)),
                _ => {
                    if let Ok(x) = KeyFile::new() {
                        let mut v = vec![];
                        let _ = x.save(&mut v);
                        drop(KeyFile::open(&mut &v[..]).map(CompositeKey::from_key_file));
                        v.truncate(20);
                        drop(KeyFile::open(&mut &v[..]));
                    }
                }
            }
        }
    };
    // what is set up once
    cycle();
    cycle();
    let held = || {
        let n = |d: &str| std::fs::read_dir(d).map_or(0, |x| x.count());
        (n("/proc/self/fd"), n("/proc/self/task"))
    };
    let before = held();
    let mut kept = vec![];
    for _ in 0..3 {
        let a = mem::live();
        for _ in 0..10 {
            cycle();
        }
        kept.push(mem::live() - a);
        c.eval();
    }
    if kept.iter().all(|k| *k > 64) {
        return c.fail(format!("ten rounds of the same use (steps {:?}) leave {:?} bytes in use each time", seq, kept));
    }
    let after = held();
    if after.0 > before.0 || after.1 > before.1 {
        return c.fail(format!("thirty rounds of the same use (steps {:?}): open files and threads went from {:?} to {:?}", seq, before, after));
    }
    c.add("cycles after which nothing was retained", 30);
    if kept.iter().any(|k| *k != 0) {
        c.n("uneven rounds");
    }
}
/// Times below this are not judged.
const LEAST: u64 = 250_000_000;
const LEAST_MEM: u64 = 64 << 20;
const FLOOR_MEM: u64 = 256 << 10;
/// The smaller time counts as at least this.
const FLOOR: u64 = 500_000;
const LIMIT: u64 = 24;
/// Eight times the content at more than this times the cost is looked at again with still more.
const SUSPECT: u64 = 12;
/// The same for four times the content.
const LIMIT4: u64 = 7;
