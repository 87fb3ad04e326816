//! Search against a direct reading of its definition.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use kpdb::{Database, Entry, Group};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "A case is one tree (with near texts, protected values, field names, group names and history full of the searched \
               text) and many queries; the references each of the four searches returns are compared, by address and order, with \
               a direct reading of the definition, then every found item is edited in place; distinct by tree and query.",
        sections: vec![
            Section { name: "search", quick: 4000, thorough: 50_000, f: search },
            Section { name: "letters", quick: 600, thorough: 6000, f: letters },
            Section { name: "edit", quick: 3000, thorough: 40_000, f: edit },
            Section { name: "wide", quick: 60, thorough: 600, f: wide },
            Section { name: "reopened", quick: 300, thorough: 4000, f: reopened },
        ],
        need: &[
            ("queries", 50_000),
            ("entries found", 30_000),
            ("groups found", 30_000),
            ("queries that find nothing", 2000),
            ("own substrings found", 20_000),
            ("found items edited", 10_000),
        ],
        assumptions: &[
            "ignoring case means equal after Unicode lower-casing, with the two lower-case sigmas taken as one letter",
        ],
        vmem_kib: 0,
    }
}

fn fold(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| c.to_lowercase()).map(|c| if c == 'ς' { 'σ' } else { c }).collect()
}
fn has(s: &str, q: &[char]) -> bool {
    let s = fold(s);
    q.is_empty() || s.windows(q.len()).any(|w| w == q)
}
fn matches(e: &MEntry, q: &[char]) -> bool {
    e.strings.values().any(|v| matches!(v, MStr::Plain(t) if has(t, q)))
}
type At = Vec<(Vec<usize>, usize)>;
fn want_entries(m: &MGroup, q: &[char]) -> At {
    let mut o = vec![];
    for p in bfs_paths(m) {
        for (i, e) in at(m, &p).entries.iter().enumerate() {
            if matches(e, q) {
                o.push((p.clone(), i));
            }
        }
    }
    o
}
fn want_groups(m: &MGroup, q: &[char]) -> Vec<Vec<usize>> {
    bfs_paths(m).into_iter().filter(|p| has(&at(m, p).name, q)).collect()
}

fn one(c: &mut Ctx, m: &MDb, db: &mut Database, q: &str) -> bool {
    c.eval();
    c.n("queries");
    let f = fold(q);
    let we = want_entries(&m.root, &f);
    let wg = want_groups(&m.root, &f);
    if we.is_empty() && wg.is_empty() {
        c.n("queries that find nothing");
    }
    c.add("entries found", we.len() as u64);
    c.add("groups found", wg.len() as u64);
    let pe: Vec<*const Entry> = we.iter().map(|(p, i)| &lib_at(&db.root_group, p).entries[*i] as *const Entry).collect();
    let pg: Vec<*const Group> = wg.iter().map(|p| lib_at(&db.root_group, p) as *const Group).collect();
    let ge: Vec<*const Entry> = db.find_entries(q).into_iter().map(|e| e as *const Entry).collect();
    let gg: Vec<*const Group> = db.find_groups(q).into_iter().map(|e| e as *const Group).collect();
    let me: Vec<*const Entry> = db.find_entries_mut(q).into_iter().map(|e| e as *const Entry).collect();
    let mg: Vec<*const Group> = db.find_groups_mut(q.to_string()).into_iter().map(|e| e as *const Group).collect();
    let again: Vec<*const Entry> = db.find_entries(q.to_string()).into_iter().map(|e| e as *const Entry).collect();
    for (what, got, want) in [("find_entries", &ge, &pe), ("find_entries_mut", &me, &pe), ("find_entries again", &again, &pe)] {
        if got != want {
            let miss = we.iter().zip(&pe).find(|(_, p)| !got.contains(p));
            let extra = got.iter().find(|p| !want.contains(p)).map(|p| unsafe { from_entry(&**p) });
            c.fail(format!(
                "{}({:?}) gives {} entries instead of {}; missing {:?}; extra {:?}",
                what,
                q,
                got.len(),
                want.len(),
                miss.map(|(w, _)| &at(&m.root, &w.0).entries[w.1].strings),
                extra.map(|e| e.strings)
            ));
            return false;
        }
    }
    for (what, got, want) in [("find_groups", &gg, &pg), ("find_groups_mut", &mg, &pg)] {
        if got != want {
            let miss = wg.iter().zip(&pg).find(|(_, p)| !got.contains(p));
            let extra = got.iter().find(|p| !want.contains(p)).map(|p| unsafe { (**p).name.clone() });
            c.fail(format!(
                "{}({:?}) gives {} groups instead of {}; missing {:?}; extra {:?}",
                what,
                q,
                got.len(),
                want.len(),
                miss.map(|(w, _)| &at(&m.root, w).name),
                extra
            ));
            return false;
        }
    }
    true
}

const POOL: &[&str] = &[
    "mail", "MAIL", "Mail", "MaiL", "email", "mai", "ail", "ma il", "proton", "ProtonMail", "straße", "STRASSE", "STRAẞE", "ΟΔΟΣ",
    "οδος", "οδοσ", "Οδος", "ΣΣ", "σς", "İstanbul", "istanbul", "i̇stanbul", "ıstanbul", "ISTANBUL", "ÉCOLE", "école", "e\u{301}cole",
    "E\u{301}COLE", "Ǆ", "ǅ", "ǆ", "ﬁ", "FI", "K", "k", "Å", "å", "ж", "Ж", "ЖУК", "жук", "a\nb", "A\nB", "a b", "a  b", "", " ", "*", ".*",
    "m*l", "?", "%", "[a-z]", "\\", "(", "mail\0", "ⅷ", "Ⅷ", "ⓐ", "Ⓐ", "𐐀", "𐐨", "ǰ", "J\u{30c}", "ß", "ss", "SS", "ſ", "s", "ΐ", "Ϊ\u{301}",
];
fn piece(r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!("{}{}", r.pick(POOL), r.pick(POOL)),
        1 => format!("{} {}", gen::word(r), r.pick(POOL)),
        2 => gen::text(r, false),
        _ => r.pick(POOL).to_string(),
    }
}
/// A tree whose texts come from a small pool, so that queries hit some of them.
fn fill(r: &mut Rng, m: &mut MDb) {
    fn entry(r: &mut Rng, e: &mut MEntry) {
        let n = r.below(5);
        e.strings.clear();
        for _ in 0..n {
            let k = match r.below(8) {
                0 => "Notes".to_string(),
                1 => "Password".to_string(),
                2 => "Title".to_string(),
                3 => "URL".to_string(),
                4 => "UserName".to_string(),
                // field names hold searched texts as well
                _ => format!("{}{}", r.pick(POOL), r.below(3)),
            };
            let p = piece(r);
            e.strings.insert(k, if r.chance(1, 3) { MStr::Prot(p.into_bytes()) } else { MStr::Plain(p) });
        }
        // places that are not searched
        if r.chance(1, 3) {
            e.tags = piece(r);
            e.url = piece(r);
            e.at_seq = piece(r);
            e.assoc = vec![(piece(r), piece(r))];
            e.bins.insert(piece(r), MBin::Plain(piece(r).into_bytes()));
        }
        for h in e.history.iter_mut() {
            entry(r, h);
        }
    }
    fn group(r: &mut Rng, g: &mut MGroup) {
        g.name = piece(r);
        if r.chance(1, 3) {
            g.notes = piece(r);
        }
        for e in g.entries.iter_mut() {
            entry(r, e);
        }
        for s in g.groups.iter_mut() {
            group(r, s);
        }
    }
    m.name = piece(r);
    m.descr = piece(r);
    group(r, &mut m.root);
}
fn sub(r: &mut Rng, t: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return String::new();
    }
    let a = r.below(c.len());
    let b = a + 1 + r.below(c.len() - a);
    c[a..b].iter().collect()
}
fn query(r: &mut Rng, m: &MDb) -> String {
    let mut texts: Vec<String> = vec![];
    for p in bfs_paths(&m.root) {
        let g = at(&m.root, &p);
        texts.push(g.name.clone());
        for e in &g.entries {
            for v in e.strings.values() {
                texts.push(match v {
                    MStr::Plain(t) => t.clone(),
                    MStr::Prot(b) => String::from_utf8_lossy(b).to_string(),
                });
            }
        }
    }
    match r.below(8) {
        0 => String::new(),
        1 => gen::text(r, false),
        2 | 3 => r.pick(POOL).to_string(),
        k => {
            let t = r.pick(&texts).clone();
            let s = if r.bool() { sub(r, &t) } else { t };
            match k {
                4 => s.to_uppercase(),
                5 => s.to_lowercase(),
                _ => s,
            }
        }
    }
}
fn model(r: &mut Rng) -> MDb {
    let cfg = *r.pick(&[gen::TINY, gen::SMALL, gen::Cfg { depth: 6, groups: 2, entries: 2, history: 1, fields: 2, long: false, nested_history: false }]);
    let mut m = gen::db(r, &cfg);
    fill(r, &mut m);
    m
}
/// Every text of the tree matches its own verbatim substrings (said without the oracle's folding).
fn own(c: &mut Ctx, r: &mut Rng, m: &MDb, db: &Database) -> bool {
    for p in bfs_paths(&m.root) {
        let g = at(&m.root, &p);
        let q = sub(r, &g.name);
        let ga = lib_at(&db.root_group, &p) as *const Group;
        if !db.find_groups(q.clone()).into_iter().any(|x| x as *const Group == ga) {
            c.fail(format!("group {:?} is not found by {:?}", g.name, q));
            return false;
        }
        c.n("own substrings found");
        for (i, e) in g.entries.iter().enumerate() {
            for v in e.strings.values() {
                if let MStr::Plain(t) = v {
                    let q = sub(r, t);
                    let ea = &lib_at(&db.root_group, &p).entries[i] as *const Entry;
                    if !db.find_entries(q.clone()).into_iter().any(|x| x as *const Entry == ea) {
                        c.fail(format!("an entry with text {:?} is not found by {:?}", t, q));
                        return false;
                    }
                    c.n("own substrings found");
                }
            }
        }
    }
    true
}

fn search(c: &mut Ctx) {
    let mut r = c.rng();
    let m = model(&mut r);
    let mut db = to_db(&m, &gen::KeySpec::pw("x").key());
    for _ in 0..25 {
        let q = query(&mut r, &m);
        c.seen(hash_bytes(q.as_bytes()) ^ c.index as u64);
        if !one(c, &m, &mut db, &q) {
            return;
        }
        c.sample(|| format!("{:?} finds {} entries and {} groups", q, want_entries(&m.root, &fold(&q)).len(), want_groups(&m.root, &fold(&q)).len()));
    }
    if !own(c, &mut r, &m, &db) {
        return;
    }
    if let Some(d) = differences(&m, &from_db(&db)) {
        c.fail(format!("searching changed the database: {}", d));
    }
}

/// Every character, alone and between others, in its case variants.
fn letters(c: &mut Ctx) {
    let total = if c.thorough { 6000 } else { 600 };
    let per = 0x110000 / total + 1;
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::Cfg { depth: 0, groups: 0, entries: 0, history: 0, fields: 0, long: false, nested_history: false });
    let lo = c.index * per;
    // in the quick run a part of the plane, chosen anew, but all letters with case every time
    let chars: Vec<char> = (lo..lo + per)
        .filter_map(|i| char::from_u32(i as u32))
        .filter(|x| c.thorough || x.to_lowercase().next() != Some(*x) || x.to_uppercase().next() != Some(*x) || r.chance(1, 50))
        .collect();
    for ch in chars {
        let t = format!("x{}y", ch);
        let mut e = gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0);
        e.strings.clear();
        e.bins.clear();
        e.strings.insert("Title".into(), MStr::Plain(t.clone()));
        m.root.entries = vec![e];
        m.root.name = t.clone();
        let mut db = to_db(&m, &gen::KeySpec::pw("x").key());
        c.seen(ch as u64);
        for q in [t.clone(), t.to_uppercase(), t.to_lowercase(), ch.to_string(), ch.to_lowercase().collect(), ch.to_uppercase().collect(), format!("{}Y", ch), "x".into(), "xy".into()] {
            if !one(c, &m, &mut db, &q) {
                return;
            }
        }
        // said without the oracle: itself and its simple lower case are found
        for q in [t.clone(), ch.to_string(), ch.to_lowercase().collect()] {
            if db.find_entries(q.clone()).len() != 1 || db.find_groups(q.clone()).len() != 1 {
                return c.fail(format!("{:?} is not found by {:?}", t, q));
            }
        }
    }
    c.n("ranges of characters");
}

/// Items found for change are the ones that change.
fn edit(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    let mut db = to_db(&m, &gen::KeySpec::pw("x").key());
    for step in 0..6 {
        let q = query(&mut r, &m);
        let f = fold(&q);
        c.eval();
        if r.bool() {
            let w = want_entries(&m.root, &f);
            let found = db.find_entries_mut(q.as_str());
            if found.len() != w.len() {
                return c.fail(format!("find_entries_mut({:?}) gives {} instead of {}", q, found.len(), w.len()));
            }
            let how = r.below(3);
            // last to first as well: all of them are alive at once
            let order: Vec<usize> = if r.bool() { (0..w.len()).collect() } else { (0..w.len()).rev().collect() };
            let mut found: Vec<Option<&mut Entry>> = found.into_iter().map(Some).collect();
            for i in order {
                let e = found[i].take().unwrap();
                let x = &mut at_mut(&mut m.root, &w[i].0).entries[w[i].1];
                let t = format!("{} {} {}", r.pick(POOL), step, i);
                match how {
                    0 => {
                        e.set_title(t.clone());
                        x.strings.insert("Title".into(), MStr::Plain(t));
                    }
                    1 => {
                        e.tags.push_str(&t);
                        x.tags.push_str(&t);
                    }
                    _ => {
                        e.set_password(t.clone());
                        x.strings.insert("Password".into(), MStr::Prot(t.into_bytes()));
                        e.history.clear();
                        x.history.clear();
                    }
                }
                c.n("found items edited");
            }
        } else {
            let w = want_groups(&m.root, &f);
            for (i, p) in w.iter().enumerate() {
                // one at a time: each search anew
                let found = db.find_groups_mut(q.as_str());
                if found.len() != w.len() {
                    return c.fail(format!("find_groups_mut({:?}) gives {} instead of {}", q, found.len(), w.len()));
                }
                let g = found.into_iter().nth(i).unwrap();
                let t = format!("{}{}", g.notes, i);
                g.notes = t.clone();
                at_mut(&mut m.root, p).notes = t;
                c.n("found items edited");
            }
        }
        c.seen(hash_bytes(q.as_bytes()) ^ (c.index as u64) << 3);
        if let Some(d) = differences(&m, &from_db(&db)) {
            return c.fail(format!("after editing what {:?} found: {}", q, d));
        }
    }
}

fn wide(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = if r.bool() { gen::db(&mut r, &gen::WIDE) } else { gen::db(&mut r, &gen::TINY) };
    if r.bool() {
        m.root.groups.push(gen::chain(&mut r, 300));
    }
    fill(&mut r, &mut m);
    let mut db = to_db(&m, &gen::KeySpec::pw("x").key());
    for _ in 0..8 {
        let q = query(&mut r, &m);
        c.seen(hash_bytes(q.as_bytes()) ^ c.index as u64);
        if !one(c, &m, &mut db, &q) {
            return;
        }
    }
}

/// The same on a database that was saved and opened.
fn reopened(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    m.rounds = 0;
    let k = gen::key(&mut r);
    fn clean(g: &mut MGroup) {
        let ok = |s: &mut String| s.retain(crate::refxml::is_xml_char);
        ok(&mut g.name);
        ok(&mut g.notes);
        for e in g.entries.iter_mut() {
            ce(e);
        }
        for s in g.groups.iter_mut() {
            clean(s);
        }
        fn ce(e: &mut MEntry) {
            let ok = |s: &mut String| s.retain(crate::refxml::is_xml_char);
            for s in [&mut e.tags, &mut e.url, &mut e.at_seq] {
                ok(s);
            }
            for a in e.assoc.iter_mut() {
                ok(&mut a.0);
                ok(&mut a.1);
            }
            let v = std::mem::take(&mut e.strings);
            for (mut k, v) in v {
                ok(&mut k);
                let v = match v {
                    MStr::Plain(mut t) => {
                        ok(&mut t);
                        MStr::Plain(t)
                    }
                    x => x,
                };
                e.strings.insert(k, v);
            }
            let v = std::mem::take(&mut e.bins);
            for (mut k, v) in v {
                ok(&mut k);
                e.bins.insert(k, v);
            }
            for h in e.history.iter_mut() {
                ce(h);
            }
        }
    }
    clean(&mut m.root);
    m.name.retain(crate::refxml::is_xml_char);
    m.descr.retain(crate::refxml::is_xml_char);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    let mut db = match must_open(&f, &k.key()) {
        Ok(d) => d,
        Err(e) => return c.fail(e),
    };
    let now = from_db(&db);
    for _ in 0..10 {
        let q = query(&mut r, &m);
        c.seen(hash_bytes(q.as_bytes()) ^ c.index as u64);
        let f = fold(&q);
        if want_entries(&m.root, &f) != want_entries(&now.root, &f) {
            return c.fail("other texts after opening");
        }
        if !one(c, &m, &mut db, &q) {
            return;
        }
    }
}
