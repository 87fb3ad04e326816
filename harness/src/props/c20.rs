//! Adding and removing entries and groups, against a model.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use kpdb::{EntryUuid, GroupUuid};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "A case is one sequence of additions and removals on the groups of a tree, with few identifiers so that many repeat; \
               after every step what the call returned and the whole tree are compared with a model; distinct by sequence.",
        sections: vec![
            Section { name: "sequence", quick: 6000, thorough: 100_000, f: sequence },
            Section { name: "flat", quick: 1500, thorough: 20_000, f: flat },
            Section { name: "move", quick: 1500, thorough: 20_000, f: moves },
        ],
        need: &[
            ("additions", 10_000),
            ("removals of an item", 8_000),
            ("removals with several candidates", 2_000),
            ("removals of absent identifiers", 5_000),
            ("removals of an identifier held elsewhere in the tree", 500),
            ("moves between groups", 1_000),
            ("additions of exact copies", 2_000),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
fn eid(i: &Id) -> EntryUuid {
    EntryUuid(uuid::Uuid::from_bytes(*i))
}
fn gid(i: &Id) -> GroupUuid {
    GroupUuid(uuid::Uuid::from_bytes(*i))
}
fn new_entry(r: &mut Rng, ids: &[Id]) -> MEntry {
    let mut e = gen::entry(r, &gen::TINY, &[], 1);
    e.uuid = *r.pick(ids);
    for h in e.history.iter_mut() {
        h.uuid = *r.pick(ids);
    }
    e
}
fn new_group(r: &mut Rng, ids: &[Id]) -> MGroup {
    let mut b = 4;
    let mut g = gen::group(r, &gen::TINY, 1, &[], &mut b);
    fn f(r: &mut Rng, g: &mut MGroup, ids: &[Id]) {
        g.uuid = *r.pick(ids);
        for e in g.entries.iter_mut() {
            e.uuid = *r.pick(ids);
        }
        for s in g.groups.iter_mut() {
            f(r, s, ids);
        }
    }
    f(r, &mut g, ids);
    g
}
fn held(g: &MGroup, a: &Id) -> bool {
    g.uuid == *a
        || g.entries.iter().any(|e| e.uuid == *a || e.history.iter().any(|h| h.uuid == *a))
        || g.groups.iter().any(|s| held(s, a))
}
fn ids(r: &mut Rng) -> Vec<Id> {
    let n = r.range(1, 12);
    let mut v: Vec<Id> = (0..n).map(|_| r.arr()).collect();
    if r.chance(1, 3) {
        v.push(NIL);
    }
    if r.bool() {
        // differing in one bit only
        let mut a = v[0];
        a[r.below(16)] ^= 1 << r.below(8);
        v.push(a);
    }
    v
}

/// One step on the group at `p`; what it did.
fn step(c: &mut Ctx, r: &mut Rng, db: &mut kpdb::Database, m: &mut MDb, p: &[usize], ids: &[Id]) -> Result<String, String> {
    let g = match r.chance(1, 3) {
        // through a lookup, when that finds this very group
        true => {
            let u = at(&m.root, p).uuid;
            let want = lib_at(&db.root_group, p) as *const kpdb::Group;
            match db.get_group(gid(&u)).map(|x| x as *const kpdb::Group) == Some(want) {
                true => db.get_group_mut(gid(&u)).unwrap(),
                false => lib_at_mut(&mut db.root_group, p),
            }
        }
        false => lib_at_mut(&mut db.root_group, p),
    };
    let x = at_mut(&mut m.root, p);
    c.eval();
    let op = r.below(10);
    Ok(match op {
        // exact copies of what is there already
        8 if !x.entries.is_empty() => {
            let i = r.below(x.entries.len());
            let e = g.entries[i].clone();
            g.add_entry(e);
            let e = x.entries[i].clone();
            x.entries.push(e);
            c.n("additions of exact copies");
            "add a copy of an entry".into()
        }
        9 if !x.groups.is_empty() => {
            let i = r.below(x.groups.len());
            if gen::size_of(&x.groups[i]) > 20 {
                return Ok("too large to copy".into());
            }
            let e = g.groups[i].clone();
            g.add_group(e);
            let e = x.groups[i].clone();
            x.groups.push(e);
            c.n("additions of exact copies");
            "add a copy of a group".into()
        }
        0 | 1 => {
            let e = new_entry(r, ids);
            g.add_entry(to_entry(&e));
            x.entries.push(e);
            c.n("additions");
            "add entry".into()
        }
        2 => {
            let s = new_group(r, ids);
            g.add_group(to_group(&s));
            x.groups.push(s);
            c.n("additions");
            "add group".into()
        }
        3..=5 => {
            let a = *r.pick(ids);
            let n = x.entries.iter().filter(|e| e.uuid == a).count();
            let want = x.entries.iter().position(|e| e.uuid == a).map(|i| x.entries.remove(i));
            let got = g.remove_entry(eid(&a)).map(|e| {
                let mut d = from_entry(&e);
                d.parent = *e.parent.0.as_bytes();
                d
            });
            if got != want {
                return Err(format!("remove_entry returned {:?} instead of {:?}", got.map(|e| e.strings), want.map(|e| e.strings)));
            }
            removal(c, n, want.is_some());
            format!("remove entry {} of {}", want.is_some() as u8, n)
        }
        _ => {
            let a = *r.pick(ids);
            let n = x.groups.iter().filter(|e| e.uuid == a).count();
            let want = x.groups.iter().position(|e| e.uuid == a).map(|i| x.groups.remove(i));
            let got = g.remove_group(gid(&a)).map(|g| from_group(&g));
            if got != want {
                return Err(format!("remove_group returned {:?} instead of {:?}", got.map(|e| e.name), want.map(|e| e.name)));
            }
            if want.is_none() && held(&m.root, &a) {
                c.n("removals of an identifier held elsewhere in the tree");
            }
            removal(c, n, want.is_some());
            format!("remove group {} of {}", want.is_some() as u8, n)
        }
    })
}
fn removal(c: &mut Ctx, n: usize, found: bool) {
    if n > 1 {
        c.n("removals with several candidates");
    }
    c.n(if found { "removals of an item" } else { "removals of absent identifiers" });
}

fn sequence(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::SMALL);
    let ids = ids(&mut r);
    fn set(r: &mut Rng, g: &mut MGroup, ids: &[Id]) {
        g.uuid = *r.pick(ids);
        for e in g.entries.iter_mut() {
            e.uuid = *r.pick(ids);
        }
        for s in g.groups.iter_mut() {
            set(r, s, ids);
        }
    }
    set(&mut r, &mut m.root, &ids);
    let mut db = to_db(&m, &gen::KeySpec::pw("x").key());
    let n = r.range(3, 25);
    let mut log = vec![];
    for k in 0..n {
        let paths = bfs_paths(&m.root);
        let p = r.pick(&paths).clone();
        match step(c, &mut r, &mut db, &mut m, &p, &ids) {
            Ok(s) => log.push(format!("{:?} {}", p, s)),
            Err(e) => return c.fail(format!("step {}: {}; after {:?}", k, e, log)),
        }
        if let Some(d) = differences(&m, &from_db(&db)) {
            return c.fail(format!("step {} changed something else: {}; after {:?}", k, d, log));
        }
    }
    c.sample(|| log.join("; "));
    c.seen_bytes(log.join(";").as_bytes());
}

/// Long lists in one group.
fn flat(c: &mut Ctx) {
    let mut r = c.rng();
    let mut g = kpdb::Group::new("g");
    let ids: Vec<Id> = (0..r.range(2, 400)).map(|_| r.arr()).collect();
    let mut es: Vec<(Id, String)> = vec![];
    let mut gs: Vec<(Id, String)> = vec![];
    let n = r.range(10, 600);
    let mut h = 0;
    for k in 0..n {
        c.eval();
        let a = *r.pick(&ids);
        let t = format!("n{}", k);
        let op = r.below(5);
        h = crate::rng::mix(h ^ hash_bytes(&a) ^ op as u64);
        match op {
            0 | 1 => {
                let mut e = kpdb::Entry::new();
                e.uuid = eid(&a);
                e.set_title(t.clone());
                g.add_entry(e);
                es.push((a, t));
                c.n("additions");
            }
            2 => {
                let mut e = kpdb::Group::new(t.clone());
                e.uuid = gid(&a);
                g.add_group(e);
                gs.push((a, t));
                c.n("additions");
            }
            3 => {
                let c0 = es.iter().filter(|e| e.0 == a).count();
                let w = es.iter().position(|e| e.0 == a).map(|i| es.remove(i));
                let got = g.remove_entry(eid(&a)).map(|e| (*e.uuid.0.as_bytes(), e.title().unwrap_or("?").to_string()));
                if got != w {
                    return c.fail(format!("remove_entry gives {:?} instead of {:?}", got, w));
                }
                removal(c, c0, w.is_some());
            }
            _ => {
                let c0 = gs.iter().filter(|e| e.0 == a).count();
                let w = gs.iter().position(|e| e.0 == a).map(|i| gs.remove(i));
                let got = g.remove_group(gid(&a)).map(|e| (*e.uuid.0.as_bytes(), e.name.clone()));
                if got != w {
                    return c.fail(format!("remove_group gives {:?} instead of {:?}", got, w));
                }
                removal(c, c0, w.is_some());
            }
        }
        let ok = g.entries.len() == es.len()
            && g.groups.len() == gs.len()
            && g.entries.iter().zip(&es).all(|(x, y)| *x.uuid.0.as_bytes() == y.0 && x.title() == Some(&y.1))
            && g.groups.iter().zip(&gs).all(|(x, y)| *x.uuid.0.as_bytes() == y.0 && x.name == y.1);
        if !ok {
            return c.fail(format!("after step {} the lists are not what they should be", k));
        }
    }
    c.seen(h);
}

/// Taking an item out of one group and adding it to another, then saving and opening.
fn moves(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::SMALL);
    m.rounds = 1 + r.below(3) as u64;
    let key = gen::KeySpec::pw("x").key();
    let mut db = to_db(&m, &key);
    let mut moved = 0;
    for _ in 0..6 {
        let paths = bfs_paths(&m.root);
        let p = r.pick(&paths).clone();
        let q = r.pick(&paths).clone();
        c.eval();
        if r.bool() && !at(&m.root, &p).entries.is_empty() {
            let u = r.pick(&at(&m.root, &p).entries).uuid;
            let x = at_mut(&mut m.root, &p);
            let i = x.entries.iter().position(|e| e.uuid == u).unwrap();
            let e = x.entries.remove(i);
            at_mut(&mut m.root, &q).entries.push(e);
            let e = match lib_at_mut(&mut db.root_group, &p).remove_entry(eid(&u)) {
                Some(e) => e,
                None => return c.fail("remove_entry finds nothing although the entry is there"),
            };
            lib_at_mut(&mut db.root_group, &q).add_entry(e);
            moved += 1;
        } else if !at(&m.root, &p).groups.is_empty() {
            let u = r.pick(&at(&m.root, &p).groups).uuid;
            let x = at_mut(&mut m.root, &p);
            let i = x.groups.iter().position(|e| e.uuid == u).unwrap();
            let e = x.groups.remove(i);
            let paths = bfs_paths(&m.root);
            let q = r.pick(&paths).clone();
            at_mut(&mut m.root, &q).groups.push(e);
            let e = match lib_at_mut(&mut db.root_group, &p).remove_group(gid(&u)) {
                Some(e) => e,
                None => return c.fail("remove_group finds nothing although the group is there"),
            };
            lib_at_mut(&mut db.root_group, &q).add_group(e);
            moved += 1;
        }
        if let Some(d) = differences(&m, &from_db(&db)) {
            return c.fail(format!("a move changed something else: {}", d));
        }
    }
    c.add("moves between groups", moved);
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.seen_bytes(&[moved as u8, r.byte(), r.byte()]);
    match must_open(&f, &key) {
        Ok(d) => {
            if let Some(x) = differences(&expect_after_save(&m), &from_db(&d)) {
                c.fail(format!("after moves, saving and opening: {}", x));
            }
        }
        Err(e) => c.fail(e),
    }
}
