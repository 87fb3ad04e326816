//! Iteration and lookup against a breadth-first walk of a model.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{Database, Entry, EntryUuid, Group, GroupUuid};
use std::collections::VecDeque;

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "A case is one tree; the references given by iter, iter_mut, get_entry, get_group and their mutable forms are \
               compared, by address and order, with a breadth-first walk, iter_mut also while the visited groups gain, lose and \
               exchange children; after every edit the whole tree is compared with the model; distinct by tree shape.",
        sections: vec![
            Section { name: "iterate", quick: 6000, thorough: 80_000, f: iterate },
            Section { name: "shapes", quick: 400, thorough: 4000, f: shapes },
            Section { name: "growing", quick: 5000, thorough: 60_000, f: growing },
            Section { name: "lookup", quick: 5000, thorough: 60_000, f: lookup },
            Section { name: "partial", quick: 2000, thorough: 20_000, f: partial },
            Section { name: "adaptors", quick: 2500, thorough: 30_000, f: adaptors },
        ],
        need: &[
            ("groups visited", 100_000),
            ("groups visited mutably", 100_000),
            ("children added or removed while visiting", 10_000),
            ("lookups", 100_000),
            ("lookups among duplicates", 5_000),
            ("lookups of absent or history identifiers", 5_000),
            ("edits through lookups", 10_000),
            ("steps of mixed walks", 20_000),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}

fn shape(g: &MGroup) -> u64 {
    let mut h = g.entries.len() as u64 + 7;
    for s in &g.groups {
        h = crate::rng::mix(h.wrapping_mul(31) ^ shape(s));
    }
    h
}
fn key() -> kpdb::CompositeKey {
    gen::KeySpec::pw("x").key()
}
fn small_cfg(r: &mut Rng) -> gen::Cfg {
    let d = r.below(6);
    let g = 1 + r.below(5);
    gen::Cfg { depth: d, groups: g, entries: r.below(4), history: 1, fields: 1, long: false, nested_history: true }
}

fn check_iter(c: &mut Ctx, root: &mut Group, from: &[usize]) -> bool {
    let m = from_group(root);
    let paths = bfs_paths(at(&m, from));
    let want: Vec<*const Group> = {
        let g = lib_at(root, from);
        paths.iter().map(|p| lib_at(g, p) as *const Group).collect()
    };
    c.eval();
    c.seen(shape(at(&m, from)));
    let got: Vec<*const Group> = lib_at(root, from).iter().map(|g| g as *const Group).collect();
    if got != want {
        c.fail(format!("iter gives {} groups instead of {}, or another order", got.len(), want.len()));
        return false;
    }
    c.add("groups visited", got.len() as u64);
    let got: Vec<*const Group> = lib_at_mut(root, from).iter_mut().map(|g| g as *const Group).collect();
    if got != want {
        c.fail(format!("iter_mut gives {} groups instead of {}, or another order", got.len(), want.len()));
        return false;
    }
    c.add("groups visited mutably", got.len() as u64);
    // visiting with a change to each
    let mut n = 0;
    for g in lib_at_mut(root, from).iter_mut() {
        g.notes = format!("visited {}", n);
        g.usage_count = n;
        n += 1;
    }
    let mut m2 = m.clone();
    for (i, p) in paths.iter().enumerate() {
        let g = at_mut(at_mut(&mut m2, from), p);
        g.notes = format!("visited {}", i);
        g.usage_count_set(i as i32);
    }
    if from_group(root) != m2 {
        c.fail("visiting mutably changed other groups, or some twice");
        return false;
    }
    true
}
trait U {
    fn usage_count_set(&mut self, n: i32);
}
impl U for MGroup {
    fn usage_count_set(&mut self, n: i32) {
        self.times.usage = n;
    }
}

fn iterate(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = small_cfg(&mut r);
    let m = gen::db(&mut r, &cfg);
    let mut db = to_db(&m, &key());
    let paths = bfs_paths(&m.root);
    c.sample(|| format!("{} groups", paths.len()));
    if !check_iter(c, &mut db.root_group, &[]) {
        return;
    }
    for _ in 0..2 {
        let p = r.pick(&paths).clone();
        if !check_iter(c, &mut db.root_group, &p) {
            return;
        }
    }
}

/// Wide, deep and lopsided trees.
fn shapes(c: &mut Ctx) {
    let mut r = c.rng();
    let mut g = Group::new("root");
    let mut left = match r.below(5) {
        0 => 1000 + r.below(3000),
        _ => 20 + r.below(300),
    };
    let kind = r.below(4);
    // built bottom up, so that nothing recursive is needed
    let mut level: Vec<Group> = vec![];
    while left > 0 {
        match kind {
            0 => {
                // one long chain with side branches
                let mut n = Group::new("n");
                for x in level.drain(..) {
                    n.groups.push(x);
                }
                if r.chance(1, 4) {
                    n.groups.insert(0, Group::new("side"));
                }
                level.push(n);
            }
            1 => level.push(Group::new("flat")),
            _ => {
                let k = r.below(4).min(level.len());
                let mut n = Group::new("n");
                for _ in 0..k {
                    let i = r.below(level.len());
                    let x = level.swap_remove(i);
                    n.groups.push(x);
                }
                level.push(n);
            }
        }
        left -= 1;
    }
    g.groups = level;
    check_iter(c, &mut g, &[]);
    c.n("large shapes");
}

/// Children that come and go while the tree is visited.
fn growing(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = small_cfg(&mut r);
    let mut m = gen::db(&mut r, &cfg).root;
    let mut g = to_group(&m);
    let mut budget = 40;
    let mut visited = 0;
    // the model walks with its own queue of paths; children are looked at when their parent has been visited and changed
    let mut todo: VecDeque<Vec<usize>> = VecDeque::new();
    todo.push_back(vec![]);
    let mut order: Vec<String> = vec![];
    let mut ops: Vec<(usize, MGroup, usize)> = vec![];
    while let Some(p) = todo.pop_front() {
        let x = at_mut(&mut m, &p);
        x.name = format!("v{}", visited);
        visited += 1;
        order.push(x.name.clone());
        let mut op = (0, gen_group(&mut r), 0);
        if budget > 0 && r.chance(1, 2) {
            budget -= 1;
            op.0 = 1 + r.below(7);
        }
        op.2 = r.below(x.groups.len().max(1));
        apply_m(x, &op);
        let n = x.groups.len();
        ops.push(op);
        for i in 0..n {
            let mut q = p.clone();
            q.push(i);
            todo.push_back(q);
        }
    }
    let mut i = 0;
    let mut got: Vec<String> = vec![];
    c.eval();
    c.seen(shape(&m));
    for x in g.iter_mut() {
        if i >= ops.len() {
            return c.fail(format!("iter_mut visits more than {} groups", ops.len()));
        }
        x.name = format!("v{}", i);
        got.push(x.name.clone());
        if ops[i].0 > 0 {
            c.n("children added or removed while visiting");
        }
        apply_g(x, &ops[i]);
        i += 1;
    }
    c.add("groups visited mutably", i as u64);
    if got != order {
        return c.fail(format!("iter_mut visits {} groups instead of {}", got.len(), order.len()));
    }
    if from_group(&g) != m {
        return c.fail("after changing the tree while visiting it, it is not what it should be");
    }
    check_iter(c, &mut g, &[]);
}
fn gen_group(r: &mut Rng) -> MGroup {
    let mut b = 3;
    gen::group(r, &gen::Cfg { groups: 2, entries: 1, history: 0, fields: 0, ..gen::TINY }, 1, &[], &mut b)
}
fn apply_m(x: &mut MGroup, op: &(usize, MGroup, usize)) {
    match op.0 {
        1 => x.groups.push(op.1.clone()),
        2 => x.groups.insert(op.2.min(x.groups.len()), op.1.clone()),
        3 if !x.groups.is_empty() => {
            x.groups.remove(op.2);
        }
        4 => x.groups.clear(),
        5 => x.groups.reverse(),
        6 => {
            for _ in 0..20 {
                x.groups.push(op.1.clone());
            }
            x.groups.truncate(6);
        }
        7 => x.entries.clear(),
        _ => {}
    }
}
fn apply_g(x: &mut Group, op: &(usize, MGroup, usize)) {
    match op.0 {
        1 => x.add_group(to_group(&op.1)),
        2 => x.groups.insert(op.2.min(x.groups.len()), to_group(&op.1)),
        3 if !x.groups.is_empty() => {
            x.groups.remove(op.2);
        }
        4 => x.groups.clear(),
        5 => x.groups.reverse(),
        6 => {
            for _ in 0..20 {
                x.add_group(to_group(&op.1));
            }
            x.groups.truncate(6);
            x.groups.shrink_to_fit();
        }
        7 => x.entries.clear(),
        _ => {}
    }
}

fn eid(i: &Id) -> EntryUuid {
    EntryUuid(uuid::Uuid::from_bytes(*i))
}
fn gid(i: &Id) -> GroupUuid {
    GroupUuid(uuid::Uuid::from_bytes(*i))
}
fn lookup(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = small_cfg(&mut r);
    let mut m = gen::db(&mut r, &cfg);
    // few identifiers, so that some repeat; history shares them
    let ids: Vec<Id> = (0..r.range(1, 30)).map(|_| gen::id(&mut r)).collect();
    if r.chance(2, 3) {
        fn entry(r: &mut Rng, e: &mut MEntry, ids: &[Id]) {
            e.uuid = *r.pick(ids);
            for h in e.history.iter_mut() {
                entry(r, h, ids);
            }
        }
        fn group(r: &mut Rng, g: &mut MGroup, ids: &[Id]) {
            g.uuid = *r.pick(ids);
            for e in g.entries.iter_mut() {
                entry(r, e, ids);
            }
            for s in g.groups.iter_mut() {
                group(r, s, ids);
            }
        }
        group(&mut r, &mut m.root, &ids);
    }
    let mut db: Database = to_db(&m, &key());
    let mut asked: Vec<Id> = ids.clone();
    fn all(g: &MGroup, out: &mut Vec<Id>) {
        out.push(g.uuid);
        for e in &g.entries {
            out.push(e.uuid);
            out.extend(e.history.iter().map(|h| h.uuid));
        }
        g.groups.iter().for_each(|s| all(s, out));
    }
    all(&m.root, &mut asked);
    asked.push(NIL);
    asked.push(r.arr());
    asked.push([0xff; 16]);
    for _ in 0..3 {
        // nearly right
        let mut a = *r.pick(&asked);
        a[r.below(16)] ^= 1 << r.below(8);
        asked.push(a);
    }
    r.shuffle(&mut asked);
    asked.truncate(40);
    c.seen(shape(&m.root));
    for a in asked {
        c.eval();
        c.add("lookups", 4);
        let paths = bfs_paths(&m.root);
        let es: Vec<(Vec<usize>, usize)> = paths
            .iter()
            .flat_map(|p| at(&m.root, p).entries.iter().enumerate().filter(|(_, e)| e.uuid == a).map(|(i, _)| (p.clone(), i)).collect::<Vec<_>>())
            .collect();
        let gs: Vec<Vec<usize>> = paths.iter().filter(|p| at(&m.root, p).uuid == a).cloned().collect();
        if es.len() > 1 || gs.len() > 1 {
            c.n("lookups among duplicates");
        }
        if es.is_empty() || gs.is_empty() {
            c.n("lookups of absent or history identifiers");
        }
        let pe = es.first().map(|(p, i)| &lib_at(&db.root_group, p).entries[*i] as *const Entry);
        let pg = gs.first().map(|p| lib_at(&db.root_group, p) as *const Group);
        let got = [
            ("get_entry", db.get_entry(eid(&a)).map(|e| e as *const Entry) == pe),
            ("get_group", db.get_group(gid(&a)).map(|e| e as *const Group) == pg),
            ("get_entry_mut", db.get_entry_mut(eid(&a)).map(|e| e as *const Entry) == pe),
            ("get_group_mut", db.get_group_mut(gid(&a)).map(|e| e as *const Group) == pg),
        ];
        if let Some(x) = got.iter().find(|x| !x.1) {
            return c.fail(format!("{}({}) gives another item than the first of {} entries and {} groups", x.0, crate::refcrypto::hex(&a), es.len(), gs.len()));
        }
        if let Some((p, i)) = es.first() {
            let e = db.get_entry_mut(eid(&a)).unwrap();
            let x = &mut at_mut(&mut m.root, p).entries[*i];
            match r.below(3) {
                0 => {
                    e.set_title("edited");
                    x.strings.insert("Title".into(), MStr::Plain("edited".into()));
                }
                1 => {
                    let n = r.arr();
                    e.uuid = eid(&n);
                    x.uuid = n;
                }
                _ => {
                    e.tags.push('!');
                    x.tags.push('!');
                }
            }
            c.n("edits through lookups");
        }
        if let Some(p) = gs.first() {
            let g = db.get_group_mut(gid(&a)).unwrap();
            let x = at_mut(&mut m.root, p);
            match r.below(4) {
                0 => {
                    g.name.push('!');
                    x.name.push('!');
                }
                1 => {
                    let n = gen_group(&mut r);
                    g.add_group(to_group(&n));
                    x.groups.push(n);
                }
                2 => {
                    g.entries.clear();
                    x.entries.clear();
                }
                _ => {
                    let n = r.arr();
                    g.uuid = gid(&n);
                    x.uuid = n;
                }
            }
            c.n("edits through lookups");
        }
        if let Some(d) = differences(&m, &from_db(&db)) {
            return c.fail(format!("an edit through a lookup changed something else: {}", d));
        }
    }
}

/// Walks that stop, several at once, and adaptors.
fn partial(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = small_cfg(&mut r);
    let m = gen::db(&mut r, &cfg);
    let mut g = to_group(&m.root);
    let want: Vec<*const Group> = bfs_paths(&m.root).iter().map(|p| lib_at(&g, p) as *const Group).collect();
    c.eval();
    c.seen(shape(&m.root) ^ 5);
    let n = r.below(want.len() + 2);
    let p = |x: &Group| x as *const Group;
    {
        // two walks side by side
        let (mut a, mut b) = (g.iter(), g.iter());
        for i in 0..want.len() + 2 {
            let x = a.next().map(p);
            if r.bool() {
                let mut d = g.iter();
                let y = d.nth(i).map(p);
                if y != want.get(i).copied() {
                    return c.fail(format!("nth({})", i));
                }
            }
            let y = b.next().map(p);
            if x != want.get(i).copied() || y != x {
                return c.fail(format!("walks side by side differ at {}", i));
            }
        }
    }
    let k: Vec<_> = g.iter().take(n).map(p).collect();
    let l: Vec<_> = g.iter().skip(n).map(p).collect();
    if k[..] != want[..n.min(want.len())] || l[..] != want[n.min(want.len())..] {
        return c.fail("take and skip");
    }
    if g.iter().count() != want.len() || g.iter().last().map(p) != want.last().copied() {
        return c.fail("count and last");
    }
    let l: Vec<_> = g.iter_mut().skip(n).map(|x| x as *const Group).collect();
    if l[..] != want[n.min(want.len())..] {
        return c.fail("skip, mutably");
    }
    let mut it = g.iter_mut();
    for i in 0..want.len() {
        if it.next().map(|x| x as *const Group) != Some(want[i]) {
            return c.fail(format!("mutable walk at {}", i));
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return c.fail("a finished walk goes on");
        }
    }
    // stopping half-way leaves all as it was
    drop(it);
    for (i, x) in g.iter_mut().enumerate() {
        if i >= n {
            break;
        }
        x.is_expanded = !x.is_expanded;
    }
    let mut m2 = m.root.clone();
    for q in bfs_paths(&m.root).iter().take(n) {
        let x = at_mut(&mut m2, q);
        x.expanded = !x.expanded;
    }
    if from_group(&g) != m2 {
        return c.fail("a walk that stopped changed other groups");
    }
    c.add("groups visited", want.len() as u64 * 6);
}

/// A walk advanced by any mixture of the iterator methods, with its size hint, agrees with the breadth-first order.
fn walk<'a, T, I: Iterator<Item = T> + 'a>(r: &mut Rng, mut it: I, want: &[*const Group], p: &dyn Fn(T) -> *const Group) -> Result<usize, String> {
    let l = want.len();
    let mut at = 0usize;
    let mut steps = 0;
    let hint = |it: &I, at: usize| -> Result<(), String> {
        let (lo, hi) = it.size_hint();
        let left = l - at.min(l);
        if lo > left || hi.map_or(false, |h| h < left) {
            return Err(format!("size hint {:?} with {} of {} left", (lo, hi), left, l));
        }
        Ok(())
    };
    let same = |got: Vec<*const Group>, from: usize, what: &str| -> Result<(), String> {
        let from = from.min(l);
        if got[..] != want[from..] {
            return Err(format!("{} from {} of {}: {} groups or another order", what, from, l, got.len()));
        }
        Ok(())
    };
    for _ in 0..r.below(6) {
        hint(&it, at)?;
        steps += 1;
        match r.below(5) {
            0 => {
                let got = it.next().map(p);
                if got != want.get(at).copied() {
                    return Err(format!("next() at {} of {}", at, l));
                }
                at += 1;
            }
            1 | 2 => {
                let n = r.below(l / 2 + 3);
                let got = it.nth(n).map(p);
                if got != want.get(at + n).copied() {
                    return Err(format!("nth({}) at {} of {}", n, at, l));
                }
                at += n + 1;
            }
            3 => {
                let n = r.below(l / 2 + 2);
                let got: Vec<_> = it.by_ref().take(n).map(p).collect();
                if got[..] != want[at.min(l)..(at + n).min(l)] {
                    return Err(format!("take({}) at {} of {}", n, at, l));
                }
                at += n;
            }
            _ => {
                // to a group chosen by its address
                if at < l {
                    let t = want[at + r.below(l - at)];
                    if it.by_ref().map(p).find(|x| *x == t) != Some(t) {
                        return Err(format!("find() at {} of {}", at, l));
                    }
                    at = want.iter().position(|x| *x == t).unwrap() + 1;
                }
            }
        }
    }
    hint(&it, at)?;
    let left = l - at.min(l);
    match r.below(10) {
        0 => same(it.map(p).collect(), at, "collect()")?,
        1 => {
            let n = r.below(left + 2);
            same(it.skip(n).map(p).collect(), at + n, "skip()")?
        }
        2 => {
            let k = 1 + r.below(4);
            let got: Vec<_> = it.step_by(k).map(p).collect();
            let x: Vec<_> = want[at.min(l)..].iter().step_by(k).copied().collect();
            if got != x {
                return Err(format!("step_by({}) from {} of {}", k, at, l));
            }
        }
        3 => {
            if it.count() != left {
                return Err(format!("count() from {} of {}", at, l));
            }
        }
        4 => {
            if it.last().map(p) != want[at.min(l)..].last().copied() {
                return Err(format!("last() from {} of {}", at, l));
            }
        }
        5 => {
            let mut v = vec![];
            it.for_each(|x| v.push(p(x)));
            same(v, at, "for_each()")?
        }
        6 => same(
            it.fold(vec![], |mut v, x| {
                v.push(p(x));
                v
            }),
            at,
            "fold()",
        )?,
        7 => {
            let n = r.below(left + 2);
            let mut v = vec![];
            it.skip(n).fold((), |_, x| v.push(p(x)));
            same(v, at + n, "skip() and fold()")?
        }
        8 => {
            let (mut a, mut b) = (it.map(p).peekable(), vec![]);
            while a.peek().is_some() {
                b.push(a.next().unwrap());
            }
            same(b, at, "peekable()")?
        }
        _ => {
            let n = r.below(left + 2);
            let mut it = it;
            let mut i = 0;
            let some = it.any(|_| {
                i += 1;
                i > n
            });
            if some != (n < left) {
                return Err(format!("any() from {} of {}", at, l));
            }
            same(it.map(p).collect(), (at + n + 1).min(l), "any() and the rest")?
        }
    }
    Ok(steps)
}
fn adaptors(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = small_cfg(&mut r);
    let m = gen::db(&mut r, &cfg);
    let mut g = to_group(&m.root);
    let paths = bfs_paths(&m.root);
    let from = if r.bool() { vec![] } else { r.pick(&paths).clone() };
    let want: Vec<*const Group> = {
        let g = lib_at(&g, &from);
        bfs_paths(at(&m.root, &from)).iter().map(|p| lib_at(g, p) as *const Group).collect()
    };
    c.seen(shape(&m.root) ^ 9);
    c.sample(|| format!("{} groups from {:?}", want.len(), from));
    for _ in 0..4 {
        c.eval();
        match walk(&mut r, lib_at(&g, &from).iter(), &want, &|x: &Group| x as *const Group) {
            Ok(n) => c.add("steps of mixed walks", n as u64),
            Err(e) => return c.fail(format!("iter: {}", e)),
        }
        match walk(&mut r, lib_at_mut(&mut g, &from).iter_mut(), &want, &|x: &mut Group| x as *const Group) {
            Ok(n) => c.add("steps of mixed walks", n as u64),
            Err(e) => return c.fail(format!("iter_mut: {}", e)),
        }
    }
    if from_group(&g) != m.root {
        c.fail("walking changed the tree");
    }
}
