//! Parent links after opening.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::refxml::{El, Node, Style};
use crate::refkdbx::Enc;
use kpdb::{Entry, Group};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "A case is one file (written by the independent encoder with identifiers anywhere in their group, by the library from \
               databases with arbitrary links, or after editing an opened database); after opening, every group, entry and history \
               item is visited and its link compared with the identifier of the group it is in; distinct by tree shape and \
               identifier positions.",
        sections: vec![
            Section { name: "foreign", quick: 6000, thorough: 80_000, f: foreign_files },
            Section { name: "placed", quick: 2000, thorough: 20_000, f: placed },
            Section { name: "library", quick: 3000, thorough: 40_000, f: library },
            Section { name: "edited", quick: 1500, thorough: 20_000, f: edited },
            Section { name: "samples", quick: 6, thorough: 6, f: samples },
        ],
        need: &[
            ("entries seen", 20_000),
            ("subgroups seen", 5_000),
            ("history items seen", 10_000),
            ("groups whose identifier comes after their content", 1_000),
            ("groups without an identifier", 300),
            ("trees with other links before saving", 1_000),
            ("edits", 3_000),
            ("levels below 5", 200),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
struct Seen {
    entries: u64,
    groups: u64,
    hist: u64,
    deep: u64,
    bad: Option<String>,
    h: u64,
}
fn history(s: &mut Seen, e: &Entry, at: &str) {
    for (i, h) in e.history.iter().enumerate() {
        s.hist += 1;
        if !h.parent.0.is_nil() && s.bad.is_none() {
            s.bad = Some(format!("{} history {} has the parent {}", at, i, h.parent.0));
        }
        history(s, h, at);
    }
}
fn walk(s: &mut Seen, g: &Group, depth: usize, at: &str) {
    s.h = mix(s.h ^ ((g.entries.len() as u64) << 32 | g.groups.len() as u64));
    if depth > 5 {
        s.deep += 1;
    }
    for (i, e) in g.entries.iter().enumerate() {
        s.entries += 1;
        let here = format!("{}/entry {}", at, i);
        if e.parent != g.uuid && s.bad.is_none() {
            s.bad = Some(format!("{} has the parent {} in the group {}", here, e.parent.0, g.uuid.0));
        }
        history(s, e, &here);
    }
    for (i, x) in g.groups.iter().enumerate() {
        s.groups += 1;
        let here = format!("{}/group {}", at, i);
        if x.parent != g.uuid && s.bad.is_none() {
            s.bad = Some(format!("{} has the parent {} in the group {}", here, x.parent.0, g.uuid.0));
        }
        walk(s, x, depth + 1, &here);
    }
}
fn judge(c: &mut Ctx, root: &Group, salt: u64) -> bool {
    c.eval();
    let mut s = Seen { entries: 0, groups: 0, hist: 0, deep: 0, bad: None, h: salt };
    if !root.parent.0.is_nil() {
        s.bad = Some(format!("the root group has the parent {}", root.parent.0));
    }
    walk(&mut s, root, 0, "root");
    c.add("entries seen", s.entries);
    c.add("subgroups seen", s.groups);
    c.add("history items seen", s.hist);
    c.add("levels below 5", s.deep);
    c.seen(s.h);
    c.sample(|| format!("{} groups below the root, {} entries, {} history items, {} groups deeper than 5", s.groups, s.entries, s.hist, s.deep));
    match s.bad {
        Some(b) => {
            c.fail(b);
            false
        }
        None => true,
    }
}
/// Trees with history, some nested; identifiers repeated or nil in some.
fn tree(r: &mut Rng) -> MDb {
    let d = r.below(5);
    let mut m = gen::db(
        r,
        &gen::Cfg { depth: d, groups: 3, entries: 3, history: 2, fields: 1, long: false, nested_history: true },
    );
    if r.chance(1, 10) {
        let d = 2 + r.below(30);
        m.root = gen::chain(r, d);
    }
    if r.chance(1, 3) {
        let ids = [r.arr::<16>(), r.arr::<16>(), NIL];
        fn set(r: &mut Rng, g: &mut MGroup, ids: &[Id]) {
            if r.bool() {
                g.uuid = *r.pick(ids);
            }
            for e in g.entries.iter_mut() {
                if r.bool() {
                    e.uuid = *r.pick(ids);
                }
            }
            for s in g.groups.iter_mut() {
                set(r, s, ids);
            }
        }
        set(r, &mut m.root, &ids);
    }
    m
}
fn foreign_files(c: &mut Ctx) {
    let mut r = c.rng();
    let m = tree(&mut r);
    let k = gen::KeySpec::pw("x");
    let mut enc = Enc::random(&mut r);
    enc.rounds = 1;
    let o = XOpts { shuffle: true, unknown: r.bool(), omit: false, ..plain_opts() };
    let st = Style::random(&mut r);
    let f = foreign(&mut r, &m, &k, enc, o, &st, true);
    c.attach("xml", &f.xml);
    match must_open(&f.file, &k.key()) {
        Ok(d) => {
            if judge(c, &d.root_group, 1) {
                let fx = count(&f.x.root);
                let got = count(&from_db(&d).root);
                if fx != got {
                    c.fail(format!("{:?} groups and entries instead of {:?}", got, fx));
                }
            }
        }
        Err(e) => c.fail(e),
    }
}
/// Identifiers moved to a chosen place of each group element, or left out.
fn placed(c: &mut Ctx) {
    let mut r = c.rng();
    let m = tree(&mut r);
    let k = gen::KeySpec::pw("x");
    let enc = Enc { rounds: 1, ..Enc::random(&mut r) };
    let mut m2 = m.clone();
    sane_dates(&mut m2, true);
    let o = XOpts { header_hash: None, ..plain_opts() };
    let mut root = XmlWriter { r: &mut r, o }.doc(&mut m2);
    let (mut late, mut none, mut salt) = (0u64, 0u64, 2u64);
    let mode = r.below(4);
    fn place(g: &mut El, r: &mut Rng, mode: usize, late: &mut u64, none: &mut u64, salt: &mut u64) {
        if g.name == "Group" {
            let at = g.kids.iter().position(|n| matches!(n, Node::El(e) if e.name == "UUID"));
            if let Some(i) = at {
                let id = g.kids.remove(i);
                let how = if mode == 3 { r.below(4) } else { mode };
                match how {
                    0 => {
                        g.kids.push(id);
                        *late += 1;
                    }
                    1 => {
                        let firsts = g.kids.iter().position(|n| matches!(n, Node::El(e) if e.name == "Entry" || e.name == "Group"));
                        let j = firsts.map_or(g.kids.len(), |f| f + 1 + r.below(g.kids.len() - f));
                        g.kids.insert(j, id);
                        *late += firsts.is_some() as u64;
                    }
                    2 => {
                        // no identifier at all
                        *none += 1;
                    }
                    _ => g.kids.insert(r.below(g.kids.len() + 1), id),
                }
                *salt = mix(*salt ^ how as u64);
            }
        }
        if g.name != "History" {
            for n in g.kids.iter_mut() {
                if let Node::El(e) = n {
                    place(e, r, mode, late, none, salt);
                }
            }
        }
    }
    place(&mut root, &mut r, mode, &mut late, &mut none, &mut salt);
    c.add("groups whose identifier comes after their content", late);
    c.add("groups without an identifier", none);
    let xml = xml_of(&root, &enc, &plain_style());
    c.attach("xml", &xml);
    let f = enc.file(&k.comp(), &xml);
    match must_open(&f, &k.key()) {
        Ok(d) => {
            judge(c, &d.root_group, salt);
        }
        Err(e) => c.fail(e),
    }
}
fn any_links(r: &mut Rng, g: &mut Group, ids: &[kpdb::GroupUuid]) {
    g.parent = *r.pick(ids);
    fn ent(r: &mut Rng, e: &mut Entry, ids: &[kpdb::GroupUuid]) {
        e.parent = *r.pick(ids);
        for h in e.history.iter_mut() {
            ent(r, h, ids);
        }
    }
    for e in g.entries.iter_mut() {
        ent(r, e, ids);
    }
    for s in g.groups.iter_mut() {
        any_links(r, s, ids);
    }
}
fn links(r: &mut Rng, g: &mut Group) {
    let mut ids: Vec<kpdb::GroupUuid> = g.iter().map(|g| g.uuid).collect();
    ids.truncate(6);
    ids.push(kpdb::GroupUuid::new_random());
    ids.push(kpdb::GroupUuid::nil());
    any_links(r, g, &ids)
}
fn library(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = tree(&mut r);
    m.rounds = 1;
    let key = gen::KeySpec::pw("x").key();
    let mut db = to_db(&m, &key);
    if r.chance(3, 4) {
        links(&mut r, &mut db.root_group);
        c.n("trees with other links before saving");
    }
    match must_save(&db).and_then(|f| must_open(&f, &key)) {
        Ok(d) => {
            judge(c, &d.root_group, 3);
        }
        Err(e) => c.fail(e),
    }
}
/// Opened, edited, saved and opened again, several times.
fn edited(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = tree(&mut r);
    m.rounds = 1;
    let key = gen::KeySpec::pw("x").key();
    let mut db = to_db(&m, &key);
    for round in 0..1 + r.below(3) {
        for _ in 0..r.below(6) {
            let m = from_db(&db);
            let paths = bfs_paths(&m.root);
            let p = r.pick(&paths).clone();
            c.n("edits");
            match r.below(8) {
                0 => {
                    let mut e = to_entry(&gen::entry(&mut r, &gen::TINY, &[], 2));
                    e.parent = kpdb::GroupUuid::new_random();
                    lib_at_mut(&mut db.root_group, &p).add_entry(e)
                }
                1 => {
                    let mut b = 5;
                    let mut g = to_group(&gen::group(&mut r, &gen::SMALL, 2, &[], &mut b));
                    links(&mut r, &mut g);
                    lib_at_mut(&mut db.root_group, &p).add_group(g)
                }
                2 => lib_at_mut(&mut db.root_group, &p).uuid = kpdb::GroupUuid::new_random(),
                3 => {
                    // a moved subtree
                    let g = lib_at_mut(&mut db.root_group, &p);
                    if let Some(x) = g.groups.pop() {
                        let m = from_db(&db);
                        let q = r.pick(&bfs_paths(&m.root)).clone();
                        lib_at_mut(&mut db.root_group, &q).groups.insert(0, x);
                    }
                }
                4 => {
                    let g = lib_at_mut(&mut db.root_group, &p);
                    if let Some(x) = g.entries.pop() {
                        let q = r.pick(&paths).clone();
                        lib_at_mut(&mut db.root_group, &q).entries.insert(0, x);
                    }
                }
                5 => {
                    // an active entry becomes history, with its link
                    let g = lib_at_mut(&mut db.root_group, &p);
                    for e in g.entries.iter_mut() {
                        let old = e.clone();
                        e.history.push(old);
                    }
                }
                6 => {
                    // and the other way round
                    let g = lib_at_mut(&mut db.root_group, &p);
                    let back: Vec<Entry> = g.entries.iter_mut().filter_map(|e| e.history.pop()).collect();
                    g.entries.extend(back);
                }
                _ => {
                    let g = lib_at_mut(&mut db.root_group, &p);
                    let id = g.groups.first().map(|x| x.uuid);
                    if let Some(id) = id {
                        g.uuid = id;
                    }
                }
            }
        }
        if r.chance(1, 3) {
            links(&mut r, &mut db.root_group);
        }
        db = match must_save(&db).and_then(|f| must_open(&f, &key)) {
            Ok(d) => d,
            Err(e) => return c.fail(e),
        };
        if !judge(c, &db.root_group, 4 + round as u64) {
            return;
        }
    }
}
fn samples(c: &mut Ctx) {
    let n = ["db-password.kdbx", "db-both.kdbx", "db-key-file.kdbx"][c.index % 3];
    let f = data(n);
    let key = match n {
        "db-password.kdbx" => kpdb::CompositeKey::from_password("test"),
        n => {
            let kf = data(&n.replace(".kdbx", ".key"));
            let kf = kpdb::KeyFile::open(&mut std::io::Cursor::new(kf)).expect("sample key file");
            match n {
                "db-both.kdbx" => kpdb::CompositeKey::from_both("test", kf),
                _ => kpdb::CompositeKey::from_key_file(kf),
            }
        }
    };
    match must_open(&f, &key) {
        Ok(d) => {
            if judge(c, &d.root_group, 9) && c.index >= 3 {
                match must_save(&d).and_then(|f| must_open(&f, &key)) {
                    Ok(d) => {
                        judge(c, &d.root_group, 10);
                    }
                    Err(e) => c.fail(e),
                }
            }
        }
        Err(e) => c.fail(e),
    }
}
