//! Saved files against an independent strict decoder of the published format.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refkdbx::{self, Enc, Container};
use crate::refxml::{self, El, Style};
use crate::rng::Rng;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "A case is one database (generated, edited after opening, or opened from an independently written file) saved and \
               decoded by the independent strict decoder: container layout, XML, inner stream, element by element; distinct by \
               the model that was saved.",
        sections: vec![
            Section { name: "random", quick: 4000, thorough: 60_000, f: random },
            Section { name: "resaved", quick: 1500, thorough: 20_000, f: resaved },
            Section { name: "bulk", quick: 48, thorough: 480, f: bulk },
            Section { name: "large", quick: 24, thorough: 200, f: large },
            Section { name: "rounds", quick: 200, thorough: 1500, f: rounds },
            Section { name: "tabs", quick: 40, thorough: 200, f: tabs },
        ],
        need: &[
            ("decoded to the same content", 4_000),
            ("protected values", 5_000),
            ("XML seen by expat", 20),
            ("gzip", 1_000),
            ("no compression", 1_000),
        ],
        assumptions: &[
            "the independent decoder (written from the published format, checked on published test vectors and the repository's \
             KeePass sample files) stands for other programs",
        ],
        vmem_kib: 0,
    }
}

/// Everything of the container the format fixes.
fn container(f: &[u8], c: &Container, m: &MDb) -> Vec<String> {
    let mut v = vec![];
    for id in [2u8, 3, 4, 5, 6, 7, 8, 9, 10, 0] {
        let n = c.header.iter().filter(|h| h.0 == id).count();
        if n != 1 {
            v.push(format!("header field {} present {} times", id, n));
        }
    }
    let n = c.header.iter().filter(|h| h.0 == 1).count();
    if n != m.comment.is_some() as usize {
        v.push(format!("comment present {} times", n));
    }
    if c.header.last().map(|h| h.0) != Some(0) {
        v.push("the end field is not the last".into());
    }
    if (c.major, c.minor) != m.version {
        v.push(format!("version {}.{} for {:?}", c.major, c.minor, m.version));
    }
    if c.rounds != m.rounds || c.gzip != m.gzip || c.comment != m.comment {
        v.push(format!("rounds {} gzip {} for {} {}", c.rounds, c.gzip, m.rounds, m.gzip));
    }
    if (f.len() - c.header_len) % 16 != 0 {
        v.push("payload is not whole cipher blocks".into());
    }
    if c.blocks.iter().any(|b| b.is_empty()) {
        v.push("empty block before the final block".into());
    }
    v
}
/// Spelling of attributes: KeePass compares these exactly.
fn attrs(e: &El, v: &mut Vec<String>) {
    for (k, x) in &e.attrs {
        let ok = match (e.name.as_str(), k.as_str()) {
            ("Value", "Protected") => x == "True" || x == "False",
            ("Value", "Ref") => true,
            ("Binary", "ID") => true,
            ("Value", "Compressed") | ("Binary", "Compressed") | ("Binary", "Protected") => x == "True" || x == "False",
            _ => false,
        };
        if !ok {
            v.push(format!("attribute {}={:?} on <{}>", k, x, e.name));
        }
    }
    for x in e.els() {
        attrs(x, v);
    }
}
fn protected(g: &MGroup) -> usize {
    fn e(x: &MEntry, top: bool) -> usize {
        x.strings.values().filter(|v| matches!(v, MStr::Prot(_))).count()
            + x.bins.values().filter(|v| matches!(v, MBin::Prot(_))).count()
            + if top { x.history.iter().map(|h| e(h, false)).sum() } else { 0 }
    }
    g.entries.iter().map(|x| e(x, true)).sum::<usize>() + g.groups.iter().map(protected).sum::<usize>()
}

/// `m` is what was in the database when it was saved.
fn judge(c: &mut Ctx, f: &[u8], comp: &[u8; 32], m: &MDb) -> bool {
    c.eval();
    c.attach("kdbx", f);
    refxml::ATTR_TABS.with(|t| t.set(0));
    let (got, cont, n) = match decode_file(f, comp) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("the independent decoder: {}", e));
            return false;
        }
    };
    let tabs = refxml::ATTR_TABS.with(|t| t.get());
    if tabs > 0 {
        c.add("known:attr-tab", tabs as u64);
    }
    let mut v = container(f, &cont, m);
    let t = refxml::parse(&cont.xml).expect("parsed before");
    attrs(&t, &mut v);
    let want = protected(&m.root);
    let pool = t
        .child("Meta")
        .and_then(|m| m.child("Binaries"))
        .map_or(0, |b| b.els().filter(|x| x.get_attr("Protected") == Some("True")).count());
    if n != want + pool {
        v.push(format!("{} enciphered values for {} protected ones", n, want));
    }
    c.add("protected values", n as u64);
    c.add("blocks", cont.blocks.len() as u64);
    c.n(if cont.gzip { "gzip" } else { "no compression" });
    let x = expect_after_save(m);
    v.extend(diff(&x, &got));
    if !v.is_empty() {
        c.fail(v.iter().take(4).cloned().collect::<Vec<_>>().join("; "));
        return false;
    }
    c.n("decoded to the same content");
    if c.index % 97 == 0 {
        if let Ok(d) = std::env::var("KMON_TMP") {
            let _ = std::fs::write(format!("{}/x-{}-{}.xml", d, c.section, c.index), &cont.xml);
        }
    }
    true
}

fn random(c: &mut Ctx) {
    let mut r = c.rng();
    let m = if r.chance(1, 10) { gen::any_db(&mut r) } else { gen::db(&mut r, &gen::TINY) };
    let k = gen::key(&mut r);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.seen_bytes(format!("{:?}", m.root).as_bytes());
    c.sample(|| {
        let (g, e) = count(&m.root);
        format!("{} groups, {} entries, {} bytes", g, e, f.len())
    });
    judge(c, &f, &k.comp(), &m);
}

fn resaved(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut o = plain_opts();
    o.unknown = r.bool();
    o.pim = r.bool();
    o.prot_pool = r.bool();
    o.shuffle = r.bool();
    let st = Style::random(&mut r);
    let e = Enc::random(&mut r);
    let f = foreign(&mut r, &m, &k, e, o, &st, true);
    let mut db = match must_open(&f.file, &k.key()) {
        Ok(d) => d,
        // C12's business
        Err(_) => return c.n("not opened"),
    };
    if r.bool() {
        let mut b = 4;
        db.root_group.add_group(to_group(&gen::group(&mut r, &gen::TINY, 1, &[], &mut b)));
    }
    if r.bool() {
        let g = gen::entry(&mut r, &gen::TINY, &[], 1);
        db.root_group.add_entry(to_entry(&g));
    }
    for round in 0..2 {
        let m = from_db(&db);
        c.seen_bytes(format!("{:?}", m.root).as_bytes());
        let s = match must_save(&db) {
            Ok(s) => s,
            Err(e) => return c.fail(format!("saving what was opened: {}", e)),
        };
        if !judge(c, &s, &k.comp(), &m) {
            return;
        }
        if round == 0 {
            db = match must_open(&s, &k.key()) {
                Ok(d) => d,
                Err(e) => return c.fail(e),
            };
        }
    }
}

fn large(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 2;
    m.gzip = c.index % 2 == 0;
    let n = *r.pick(&[200_000usize, 1 << 20, (1 << 20) + 1, 3_000_000]);
    m.binaries.insert("big".into(), r.bytes(n));
    m.root.notes = "line\n".repeat(n / 50);
    let k = gen::key(&mut r);
    match must_save(&to_db(&m, &k.key())) {
        Ok(f) => {
            c.seen_bytes(&f);
            judge(c, &f, &k.comp(), &m);
        }
        Err(e) => c.fail(e),
    }
}

fn rounds(c: &mut Ctx) {
    let mut r: Rng = c.rng();
    let mut m = gen::db(&mut r, &gen::Cfg { groups: 0, entries: 1, ..gen::TINY });
    m.rounds = *r.pick(&[0u64, 1, 2, 63, 64, 65, 100, 255, 256, 257, 999, 1000, 6000, 10_000]);
    let k = gen::key(&mut r);
    match must_save(&to_db(&m, &k.key())) {
        Ok(f) => {
            c.seen_bytes(format!("{}/{:?}", m.rounds, k).as_bytes());
            judge(c, &f, &k.comp(), &m);
            let _ = refkdbx::parse_header(&f);
        }
        Err(e) => c.fail(e),
    }
}

/// Attachment identifiers hold any text, in attributes.
fn tabs(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    let id = (*r.pick(&["a\tb", "\t", "x\ny", "q\"'<>&", " lead", "\r", "é\u{2028}", "a\r\nb", "\u{85}"])).to_string();
    m.binaries.insert(id.clone(), vec![1, 2, 3]);
    let mut e = gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0);
    e.bins.insert("f".into(), MBin::Ref(id.clone()));
    m.root.entries.push(e);
    let k = gen::key(&mut r);
    match must_save(&to_db(&m, &k.key())) {
        Ok(f) => {
            c.seen_bytes(id.as_bytes());
            judge(c, &f, &k.comp(), &m);
        }
        Err(e) => c.fail(e),
    }
}

/// Values of many megabytes in every place.
fn bulk(c: &mut Ctx) {
    let mut r = c.rng();
    let n = gen::bulk_size(&mut r, if c.thorough { 1 << 26 } else { 1 << 23 });
    let mut m = gen::bulk(&mut r, c.index, n);
    m.gzip = c.index / gen::BULKS % 2 == 0;
    let k = gen::key(&mut r);
    match must_save(&to_db(&m, &k.key())) {
        Ok(f) => {
            c.seen_bytes(&f);
            c.add("megabytes in one place", (n >> 20) as u64);
            judge(c, &f, &k.comp(), &m);
        }
        Err(e) => c.fail(e),
    }
}
