//! Canaries in every place of a database, searched for in what save writes.
use crate::ctx::*;
use crate::faults::*;
use crate::gen::{self, KeySpec};
use crate::model::*;
use crate::needles::Needles;
use crate::refcrypto as rc;
use crate::refkdbx::{self, Enc};
use crate::refxml::{El, Style};
use crate::rng::Rng;
use crate::util::*;
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "A case is one database with an unguessable canary in every text and attachment, a canary password and key file, \
               saved (completely, or until the destination fails); the written bytes, the clear header and the decrypted \
               document are searched for every canary in every encoding; distinct by file hash.",
        sections: vec![
            Section { name: "files", quick: 1500, thorough: 20_000, f: files },
            Section { name: "cycles", quick: 300, thorough: 4000, f: cycles },
            Section { name: "failing", quick: 600, thorough: 8000, f: failing },
            Section { name: "blocks", quick: 60, thorough: 400, f: blocks },
            Section { name: "keyfiles", quick: 100, thorough: 1000, f: keys },
            Section { name: "short", quick: 600, thorough: 8000, f: short },
        ],
        need: &[
            ("patterns searched", 500_000),
            ("protected values searched", 8_000),
            ("values still protected", 8_000),
            ("values enciphered in the document", 8_000),
            ("short values enciphered", 3_000),
            ("partial files searched", 200),
        ],
        assumptions: &[
            "canaries are at least 14 random characters, so a pattern does not occur by chance",
            "the header comment is stored in clear by the format, the inner stream key too; attachments of the shared pool have no \
             protection of their own in this library",
        ],
        vmem_kib: 0,
    }
}

pub fn token(r: &mut Rng) -> String {
    (0..14).map(|_| *r.pick(b"abcdefghijkmnpqrstuvwxyz23456789") as char).collect()
}
pub struct Canaries {
    /// everything there is
    pub all: Vec<(String, Vec<u8>)>,
    /// contents of protected values
    pub prot: Vec<(String, Vec<u8>)>,
}
/// Puts a canary into every text and binary of the model.
pub fn plant(r: &mut Rng, m: &mut MDb) -> Canaries {
    let mut c = Canaries { all: vec![], prot: vec![] };
    fn t(r: &mut Rng, c: &mut Canaries, what: &str, s: &mut String) {
        let k = token(r);
        c.all.push((what.into(), k.clone().into_bytes()));
        let at = if s.is_char_boundary(s.len() / 2) { s.len() / 2 } else { 0 };
        s.insert_str(at, &k);
    }
    fn b(r: &mut Rng, c: &mut Canaries, what: &str, v: &mut Vec<u8>) {
        let k = if r.bool() { token(r).into_bytes() } else { r.bytes(16) };
        c.all.push((what.into(), k.clone()));
        let at = v.len() / 2;
        v.splice(at..at, k);
    }
    fn entry(r: &mut Rng, c: &mut Canaries, e: &mut MEntry, w: &str) {
        t(r, c, &format!("{} override url", w), &mut e.url);
        t(r, c, &format!("{} tags", w), &mut e.tags);
        t(r, c, &format!("{} auto-type sequence", w), &mut e.at_seq);
        for a in e.assoc.iter_mut() {
            t(r, c, &format!("{} association", w), &mut a.0);
            t(r, c, &format!("{} association", w), &mut a.1);
        }
        for (k, v) in e.strings.iter_mut() {
            match v {
                MStr::Plain(s) => t(r, c, &format!("{} string {}", w, k), s),
                MStr::Prot(x) => {
                    let k2 = token(r).into_bytes();
                    let mut s = String::from_utf8(x.clone()).unwrap();
                    s.insert_str(0, std::str::from_utf8(&k2).unwrap());
                    *x = s.into_bytes();
                    c.all.push((format!("{} protected string {}", w, k), k2.clone()));
                    c.prot.push((format!("{} protected string {}", w, k), k2));
                }
            }
        }
        for (k, v) in e.bins.iter_mut() {
            match v {
                MBin::Plain(x) => b(r, c, &format!("{} attachment {}", w, k), x),
                MBin::Prot(x) => {
                    b(r, c, &format!("{} protected attachment {}", w, k), x);
                    let l = c.all.last().unwrap().clone();
                    c.prot.push(l);
                }
                MBin::Ref(_) => {}
            }
        }
        for h in e.history.iter_mut() {
            entry(r, c, h, "history");
        }
    }
    fn group(r: &mut Rng, c: &mut Canaries, g: &mut MGroup) {
        t(r, c, "group name", &mut g.name);
        t(r, c, "group notes", &mut g.notes);
        t(r, c, "group auto-type", &mut g.at_seq);
        for e in g.entries.iter_mut() {
            entry(r, c, e, "entry");
        }
        for s in g.groups.iter_mut() {
            group(r, c, s);
        }
    }
    t(r, &mut c, "database name", &mut m.name);
    t(r, &mut c, "description", &mut m.descr);
    t(r, &mut c, "default user name", &mut m.def_user);
    let cd: Vec<(String, String)> = std::mem::take(&mut m.custom_data).into_iter().collect();
    for (mut k, mut v) in cd {
        t(r, &mut c, "custom data key", &mut k);
        t(r, &mut c, "custom data", &mut v);
        m.custom_data.insert(k, v);
    }
    for v in m.binaries.values_mut() {
        b(r, &mut c, "pool attachment", v);
    }
    for v in m.icons.values_mut() {
        b(r, &mut c, "custom icon", v);
    }
    group(r, &mut c, &mut m.root);
    c
}
/// A key made of canaries, with everything derived from it that depends on the password and key file only.
pub fn canary_key(r: &mut Rng, c: &mut Canaries) -> KeySpec {
    let pw = format!("{}{}", token(r), ["", " x", "é"][r.below(3)]);
    let kf = r.arr::<32>().to_vec();
    let k = match r.below(3) {
        0 => KeySpec { pw: Some(pw.clone()), kf: None },
        1 => KeySpec { pw: None, kf: Some(kf.clone()) },
        _ => KeySpec { pw: Some(pw.clone()), kf: Some(kf.clone()) },
    };
    if k.pw.is_some() {
        c.all.push(("the password".into(), pw.as_bytes()[..14].to_vec()));
        let h = rc::sha256(pw.as_bytes());
        c.all.push(("the hash of the password".into(), h.to_vec()));
        c.all.push(("the double hash of the password".into(), rc::sha256(&h).to_vec()));
    }
    if k.kf.is_some() {
        c.all.push(("the key file bytes".into(), kf.clone()));
        c.all.push(("the hash of the key file".into(), rc::sha256(&kf).to_vec()));
    }
    c.all.push(("the composite key".into(), k.comp().to_vec()));
    k
}

fn model(r: &mut Rng) -> MDb {
    let mut m = if r.chance(1, 8) { gen::db(r, &gen::SMALL) } else { gen::db(r, &gen::TINY) };
    m.rounds = r.below(4) as u64;
    if m.root.entries.is_empty() {
        let e = gen::entry(r, &gen::TINY, &[], 1);
        m.root.entries.push(e);
    }
    m
}

/// Searches one complete saved file. True if nothing was found.
fn search(c: &mut Ctx, f: &[u8], k: &KeySpec, can: &Canaries, m: &MDb) -> bool {
    c.eval();
    c.seen_bytes(f);
    c.attach("kdbx", f);
    let (_, _, head, hl) = match refkdbx::parse_header(f) {
        Ok(h) => h,
        Err(e) => {
            c.fail(format!("header: {}", e));
            return false;
        }
    };
    let fld = |id: u8| head.iter().find(|h| h.0 == id).map(|h| h.1.clone()).unwrap_or_default();
    let mut n = Needles::default();
    for (w, b) in &can.all {
        n.all(w, b);
    }
    if let (Ok(ms), Ok(ts)) = (<[u8; 32]>::try_from(fld(4)), <[u8; 32]>::try_from(fld(5))) {
        let t = rc::transform(&k.comp(), &ts, m.rounds);
        n.all("the transformed key", &t);
        n.all("the master key", &rc::master(&ms, &t));
    }
    c.add("patterns searched", n.count as u64);
    if let Some((w, at)) = n.find(f) {
        c.fail(format!("{} at offset {} of the file (header ends at {})", w, at, hl));
        return false;
    }
    // no field of the header is a function of the secrets alone
    for (id, d) in &head {
        if d.len() >= 16 && *id != 1 {
            for (w, b) in &can.all {
                let h = rc::sha256(b);
                if contains(&h, &d[..16]) || rc::sha256(&h)[..] == d[..] {
                    c.fail(format!("header field {} is a hash of {}", id, w));
                    return false;
                }
            }
        }
    }
    let (got, cont, _) = match decode_file(f, &k.comp()) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("cannot decode: {}", e));
            return false;
        }
    };
    let mut n = Needles::default();
    for (w, b) in &can.prot {
        n.all(w, b);
    }
    n.all("the composite key", &k.comp());
    c.add("protected values searched", can.prot.len() as u64);
    if let Some((w, at)) = n.find(&cont.xml) {
        c.attach("xml", &cont.xml);
        c.fail(format!("{} in clear at offset {} of the decrypted document", w, at));
        return false;
    }
    // the same canaries are there enciphered, as protected values
    let mut d = vec![];
    classes(&m.root, &got.root, &mut d, c);
    if !d.is_empty() {
        c.fail(d.iter().take(4).cloned().collect::<Vec<_>>().join("; "));
        return false;
    }
    if let Err(e) = marks(&m.root, &cont.xml, c) {
        c.attach("xml", &cont.xml);
        c.fail(e);
        return false;
    }
    true
}

/// Every protected value of the model, however short, is written enciphered (Protected="True") in the document itself.
fn marks(m: &MGroup, xml: &[u8], c: &mut Ctx) -> Result<(), String> {
    fn fields(e: &El, tag: &str) -> Vec<(String, bool, usize)> {
        e.els()
            .filter(|x| x.name == tag)
            .map(|x| {
                let key = x.child("Key").and_then(|k| k.content().ok()).unwrap_or_default();
                let val = x.child("Value");
                let on = val.and_then(|v| v.get_attr("Protected")).map_or(false, |v| v.eq_ignore_ascii_case("true"));
                (key, on, val.and_then(|v| v.content().ok()).unwrap_or_default().len())
            })
            .collect()
    }
    fn entry(a: &MEntry, e: &El, c: &mut Ctx) -> Result<(), String> {
        for (tag, prot) in [
            ("String", a.strings.iter().filter_map(|(k, v)| if let MStr::Prot(x) = v { Some((k, x)) } else { None }).collect::<Vec<_>>()),
            ("Binary", a.bins.iter().filter_map(|(k, v)| if let MBin::Prot(x) = v { Some((k, x)) } else { None }).collect()),
        ] {
            let f = fields(e, tag);
            for (k, x) in prot {
                match f.iter().find(|t| t.0 == *k) {
                    Some((_, true, _)) => {
                        c.n("values enciphered in the document");
                        if x.len() < 12 {
                            c.n("short values enciphered");
                        }
                    }
                    Some(_) => return Err(format!("protected {} {:?} of {} bytes is not enciphered in the document", tag, k, x.len())),
                    None => return Err(format!("protected {} {:?} is not in the document", tag, k)),
                }
            }
        }
        let h: Vec<&El> = e.child("History").map_or(vec![], |h| h.els().filter(|x| x.name == "Entry").collect());
        if h.len() != a.history.len() {
            return Err("other history in the document".into());
        }
        for (x, y) in a.history.iter().zip(h) {
            entry(x, y, c)?;
        }
        Ok(())
    }
    fn group(a: &MGroup, g: &El, c: &mut Ctx) -> Result<(), String> {
        let es: Vec<&El> = g.els().filter(|x| x.name == "Entry").collect();
        let gs: Vec<&El> = g.els().filter(|x| x.name == "Group").collect();
        if es.len() != a.entries.len() || gs.len() != a.groups.len() {
            return Err("other tree in the document".into());
        }
        for (x, y) in a.entries.iter().zip(es) {
            entry(x, y, c)?;
        }
        for (x, y) in a.groups.iter().zip(gs) {
            group(x, y, c)?;
        }
        Ok(())
    }
    let t = crate::refxml::parse(xml)?;
    let root = t.child("Root").and_then(|r| r.child("Group")).ok_or("no root group")?;
    group(m, root, c)
}

/// What people keep protected is often short: pins, dates, words, single characters.
fn short_value(r: &mut Rng) -> String {
    let n = 1 + r.below(11);
    let from = |r: &mut Rng, a: &[u8]| (0..n).map(|_| *r.pick(a) as char).collect::<String>();
    match r.below(12) {
        0 => String::new(),
        1..=3 => from(r, b"0123456789"),
        4 => from(r, b"0123456789abcdef"),
        5 => from(r, b"0123456789ABCDEF-"),
        6 => from(r, b"ab"),
        7 => from(r, b" \t"),
        8 => from(r, b"abcdefghijklmnopqrstuvwxyz"),
        9 => (*r.pick(&["true", "false", "null", "none", "N/A", "-", "*", "****", "0", "1", "2016-01-01", "http://a.b/c", "{REF:P@I:00}", "password", "test"])).to_string(),
        10 => (*r.pick(&["é", "√", "密码", "\u{1f511}", "ß", "À1"])).to_string(),
        _ => from(r, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="),
    }
}

fn short(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    fn fill(r: &mut Rng, e: &mut MEntry) {
        for k in ["Password", "PIN", "Title", "UserName", "URL", "Notes", "otp", "x"] {
            if r.chance(1, 2) {
                let v = short_value(r);
                e.strings.insert(k.into(), if r.chance(3, 4) { MStr::Prot(v.into_bytes()) } else { MStr::Plain(v) });
            }
        }
        for k in ["a", "pin.txt"] {
            if r.chance(1, 3) {
                let v = short_value(r).into_bytes();
                e.bins.insert(k.into(), if r.chance(3, 4) { MBin::Prot(v) } else { MBin::Plain(v) });
            }
        }
        for h in e.history.iter_mut() {
            fill(r, h);
        }
    }
    fn all(r: &mut Rng, g: &mut MGroup) {
        for e in g.entries.iter_mut() {
            fill(r, e);
        }
        for s in g.groups.iter_mut() {
            all(r, s);
        }
    }
    all(&mut r, &mut m.root);
    clear_nested(&mut m);
    let mut can = Canaries { all: vec![], prot: vec![] };
    let k = canary_key(&mut r, &mut can);
    let mut db = to_db(&m, &k.key());
    for i in 0..1 + r.below(3) {
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        if !search(c, &f, &k, &can, &m) {
            return;
        }
        db = match must_open(&f, &k.key()) {
            Ok(d) => d,
            Err(e) => return c.fail(format!("after {} saves: {}", i + 1, e)),
        };
    }
}

fn classes(a: &MGroup, b: &MGroup, d: &mut Vec<String>, c: &mut Ctx) {
    fn entry(a: &MEntry, b: &MEntry, d: &mut Vec<String>, c: &mut Ctx) {
        for (k, v) in &a.strings {
            if let MStr::Prot(x) = v {
                match b.strings.get(k) {
                    Some(MStr::Prot(y)) if x == y => c.n("values still protected"),
                    Some(MStr::Plain(_)) => d.push(format!("protected string {:?} became plain", k)),
                    o => d.push(format!("protected string {:?} became {:?}", k, o)),
                }
            }
        }
        for (k, v) in &a.bins {
            if let MBin::Prot(x) = v {
                match b.bins.get(k) {
                    Some(MBin::Prot(y)) if x == y => c.n("values still protected"),
                    Some(MBin::Plain(_)) => d.push(format!("protected attachment {:?} became plain", k)),
                    o => d.push(format!("protected attachment {:?} became {:?}", k, o)),
                }
            }
        }
        if a.history.len() != b.history.len() {
            d.push(format!("history of {} items became {}", a.history.len(), b.history.len()));
        }
        for (x, y) in a.history.iter().zip(&b.history) {
            entry(x, y, d, c);
        }
    }
    if a.entries.len() != b.entries.len() || a.groups.len() != b.groups.len() {
        d.push("other tree".into());
        return;
    }
    for (x, y) in a.entries.iter().zip(&b.entries) {
        entry(x, y, d, c);
    }
    for (x, y) in a.groups.iter().zip(&b.groups) {
        classes(x, y, d, c);
    }
}

fn clear_nested(m: &mut MDb) {
    fix_links(&mut m.root, NIL);
}

fn files(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    clear_nested(&mut m);
    let mut can = plant(&mut r, &mut m);
    let k = canary_key(&mut r, &mut can);
    c.sample(|| format!("{} canaries, {} of them protected", can.all.len(), can.prot.len()));
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    search(c, &f, &k, &can, &m);
}

/// Open, edit, save again and again: protection is never lost on the way.
fn cycles(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    clear_nested(&mut m);
    let mut can = plant(&mut r, &mut m);
    let k = canary_key(&mut r, &mut can);
    let mut f = if r.bool() {
        match must_save(&to_db(&m, &k.key())) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        }
    } else {
        let mut o = plain_opts();
        o.pim = r.bool();
        o.unknown = r.bool();
        let e = Enc::random(&mut r);
        let st = Style::random(&mut r);
        let x = foreign(&mut r, &m, &k, e, o, &st, true);
        m = x.x;
        x.file
    };
    for i in 0..4 {
        let mut db = match must_open(&f, &k.key()) {
            Ok(d) => d,
            Err(e) => return c.fail(e),
        };
        let mut now = from_db(&db);
        let mut d = vec![];
        classes(&m.root, &now.root, &mut d, c);
        if !d.is_empty() {
            c.attach("kdbx", &f);
            return c.fail(format!("opened ({} saves): {}", i, d[0]));
        }
        // edits through the setters
        if let Some(e) = db.root_group.entries.first_mut() {
            let t = token(&mut r);
            match r.below(4) {
                0 => {
                    e.set_password(t.clone());
                    can.prot.push(("a password set later".into(), t.clone().into_bytes()));
                }
                1 => e.set_title(t.clone()),
                2 => {
                    let h = e.clone();
                    let mut h = h;
                    h.history.clear();
                    e.history.push(h);
                }
                _ => {
                    e.strings.insert(kpdb::StringKey::Other("late".into()), kpdb::StringValue::new(t.clone(), true));
                    can.prot.push(("a protected field added later".into(), t.clone().into_bytes()));
                }
            }
            can.all.push(("a text set later".into(), t.into_bytes()));
        }
        // passwords set before are no longer there, all else is
        now = from_db(&db);
        f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        if !search(c, &f, &k, &can, &now) {
            return;
        }
        m = now;
        clear_nested(&mut m);
    }
}

/// What reaches the destination before a failure is no more than a complete file would show.
fn failing(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    clear_nested(&mut m);
    let mut can = plant(&mut r, &mut m);
    let k = canary_key(&mut r, &mut can);
    let bad = r.bool();
    if bad {
        // content the format cannot carry
        match r.below(3) {
            0 => m.root.name.push('\u{1}'),
            1 => m.comment = Some(vec![b'x'; 70_000]),
            _ => {
                let e = m.root.entries.first_mut().unwrap();
                e.strings.insert("Bad".into(), MStr::Prot(vec![0xff, 0xfe]));
            }
        }
    }
    let db = to_db(&m, &k.key());
    let len = r.below(3000);
    let mut w = SWriter::new(vec![], false);
    if !bad {
        w.fail_at = Some((len, Step::Fail(std::io::ErrorKind::Other)));
    }
    let o = guard(|| db.save(&mut w));
    let got = w.got.clone();
    match o {
        Err(p) => return c.fail(format!("save: {}", p)),
        Ok(Ok(())) if bad => return c.fail("content the format cannot carry was saved"),
        Ok(Ok(())) => c.n("complete"),
        Ok(Err(e)) => {
            let mut n = Needles::default();
            for (w, b) in &can.all {
                n.all(w, b);
                n.lists(w, b);
            }
            if let Some((w, _)) = n.find(format!("{} {:?}", e, e).as_bytes()) {
                return c.fail(format!("the error of a failed save shows {}: {:?}", w, e));
            }
        }
    }
    c.eval();
    c.seen_bytes(&got);
    let mut n = Needles::default();
    for (w, b) in &can.all {
        n.all(w, b);
    }
    c.add("patterns searched", n.count as u64);
    if let Some((w, at)) = n.find(&got) {
        c.attach("part", &got);
        return c.fail(format!("{} at offset {} of the {} bytes written by a failed save", w, at, got.len()));
    }
    c.n("partial files searched");
}

/// Repetition in the content does not show in the file.
fn blocks(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 1;
    m.gzip = false;
    m.root.notes = "0123456789abcdef".repeat(3000);
    m.binaries.insert("zeros".into(), vec![0; 20_000]);
    let mut e = gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0);
    for i in 0..20 {
        e.strings.insert(format!("same{}", i), MStr::Prot(b"one and the same protected text".to_vec()));
    }
    m.root.entries.push(e);
    let k = gen::key(&mut r);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.eval();
    c.seen_bytes(&f);
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    let mut seen: HashSet<&[u8]> = HashSet::new();
    for b in f[h..].chunks(16) {
        if !seen.insert(b) {
            return c.fail("two cipher blocks of one file are equal");
        }
    }
    c.add("cipher blocks", seen.len() as u64);
    // equal protected values have different enciphered texts
    match decode_file(&f, &k.comp()) {
        Ok((_, cont, _)) => {
            let t = crate::refxml::parse(&cont.xml).unwrap();
            let mut vals: Vec<String> = vec![];
            fn walk(e: &crate::refxml::El, out: &mut Vec<String>) {
                if e.get_attr("Protected").is_some() {
                    out.push(e.content().unwrap_or_default());
                }
                for x in e.els() {
                    walk(x, out);
                }
            }
            walk(&t, &mut vals);
            vals.retain(|v| v.len() >= 12);
            let n = vals.len();
            vals.sort();
            vals.dedup();
            if vals.len() != n {
                c.fail("two protected values are enciphered to the same text");
            }
        }
        Err(e) => c.fail(e),
    }
}

/// Files saved under canary keys of all kinds: only the key is secret here.
fn keys(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::Cfg { groups: 0, entries: 1, ..gen::TINY });
    m.rounds = r.below(200) as u64;
    let mut can = Canaries { all: vec![], prot: vec![] };
    let k = canary_key(&mut r, &mut can);
    clear_nested(&mut m);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    search(c, &f, &k, &can, &m);
}
