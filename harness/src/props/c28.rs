//! The `Times` trait of entries and groups, against a record of what was set last.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use chrono::{DateTime, Utc};
use kpdb::{Entry, Group, Times};

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "A case is one sequence of calls of the setters of `Times` (called on the type, on a generic and on a trait object) and \
               direct assignments on entries, history items and groups that may hold anything before; after every call all getters, \
               all fields and everything else of the item are compared with a record of what was set last; distinct by sequence.",
        sections: vec![
            Section { name: "entry", quick: 60_000, thorough: 200_000, f: entry },
            Section { name: "group", quick: 32000, thorough: 100_000, f: group },
            Section { name: "tree", quick: 6000, thorough: 20_000, f: tree },
            Section { name: "saved", quick: 6000, thorough: 20_000, f: saved },
        ],
        need: &[
            ("setter calls", 300_000),
            ("getters compared", 2_100_000),
            ("through a trait object", 60_000),
            ("same value in every field", 1_500),
            ("dates before 1970", 30_000),
            ("items of a tree", 15_000),
            ("items read after saving and opening", 9_000),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
/// Dates over the whole range of the type.
fn date(r: &mut Rng) -> DateTime<Utc> {
    match r.below(12) {
        0 => DateTime::<Utc>::MIN_UTC,
        1 => DateTime::<Utc>::MAX_UTC,
        _ => dt(gen::date(r)),
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Date(usize, DateTime<Utc>),
    Flag(bool),
    Count(i32),
}
const DATES: [&str; 5] = ["creation", "expiry", "last accessed", "last modified", "location changed"];
fn op(r: &mut Rng) -> Op {
    match r.below(7) {
        0 => Op::Flag(r.bool()),
        1 => Op::Count(match r.below(6) {
            0 => i32::MIN,
            1 => i32::MAX,
            2 => -1,
            3 => 0,
            _ => r.u64() as i32,
        }),
        i => Op::Date(i - 2, date(r)),
    }
}
fn on_model(m: &mut MTimes, o: &Op) {
    match *o {
        Op::Flag(b) => m.expires = b,
        Op::Count(n) => m.usage = n,
        Op::Date(i, d) => *[&mut m.creation, &mut m.expiry, &mut m.access, &mut m.modif, &mut m.loc][i] = tm(d),
    }
}
fn apply<T: Times + ?Sized>(t: &mut T, o: &Op) {
    match *o {
        Op::Flag(b) => t.set_expires(b),
        Op::Count(n) => t.set_usage_count(n),
        Op::Date(0, d) => t.set_creation_time(d),
        Op::Date(1, d) => t.set_expiry_time(d),
        Op::Date(2, d) => t.set_last_accessed(d),
        Op::Date(3, d) => t.set_last_modified(d),
        Op::Date(_, d) => t.set_location_changed(d),
    }
}
fn read<T: Times + ?Sized>(t: &T) -> MTimes {
    MTimes {
        creation: tm(t.creation_time()),
        expiry: tm(t.expiry_time()),
        expires: t.expires(),
        access: tm(t.last_accessed()),
        modif: tm(t.last_modified()),
        loc: tm(t.location_changed()),
        usage: t.usage_count(),
    }
}
macro_rules! assign {
    ($x:expr, $o:expr) => {
        match *$o {
            Op::Flag(b) => $x.expires = b,
            Op::Count(n) => $x.usage_count = n,
            Op::Date(0, d) => $x.creation_time = d,
            Op::Date(1, d) => $x.expiry_time = d,
            Op::Date(2, d) => $x.last_accessed = d,
            Op::Date(3, d) => $x.last_modified = d,
            Op::Date(_, d) => $x.location_changed = d,
        }
    };
}
fn name(o: &Op) -> String {
    match o {
        Op::Date(i, d) => format!("{} := {:?}", DATES[*i], d),
        o => format!("{:?}", o),
    }
}
fn ops(c: &mut Ctx, r: &mut Rng) -> Vec<Op> {
    let top = if r.chance(1, 50) { 200 } else { 14 };
    let n = 1 + r.below(top);
    let mut v: Vec<Op> = (0..n).map(|_| op(r)).collect();
    if r.chance(1, 8) {
        // the same date everywhere, then one of them changed
        let d = date(r);
        let k = r.below(5);
        v.extend((0..5).map(|i| Op::Date((i + k) % 5, d)));
        v.push(op(r));
        c.n("same value in every field");
    }
    if r.chance(1, 6) {
        // one field set again and again
        let k = r.below(5);
        for _ in 0..4 {
            v.push(Op::Date(k, date(r)));
        }
    }
    for o in &v {
        if let Op::Date(_, d) = o {
            if d.timestamp() < 0 {
                c.n("dates before 1970");
            }
        }
    }
    c.seen_bytes(format!("{:?}", v).as_bytes());
    c.sample(|| v.iter().map(name).collect::<Vec<_>>().join(", "));
    v
}
fn judge(c: &mut Ctx, what: &str, o: &Op, want: &MTimes, got: &MTimes) -> bool {
    c.add("getters compared", 7);
    if want != got {
        c.fail(format!("{} after {}: expected {:?}, the getters give {:?}", what, name(o), want, got));
        return false;
    }
    true
}
macro_rules! lockstep {
    ($c:expr, $r:expr, $x:expr, $m:expr, $from:ident, $what:expr) => {{
        for o in ops($c, $r) {
            $c.eval();
            match $r.below(5) {
                0 => {
                    let t: &mut dyn Times = &mut $x;
                    apply(t, &o);
                    $c.n("through a trait object");
                }
                1 => assign!($x, &o),
                2 => {
                    let mut b: Box<dyn Times> = Box::new($x.clone());
                    // the copy is thrown away: the item itself is set below
                    apply(&mut *b, &o);
                    let mut n = $m.times.clone();
                    on_model(&mut n, &o);
                    if !judge($c, "a boxed copy", &o, &n, &read(&*b)) {
                        return;
                    }
                    if !judge($c, "the original of a copy", &o, &$m.times, &read(&$x)) {
                        return;
                    }
                    apply(&mut $x, &o);
                }
                _ => apply(&mut $x, &o),
            }
            $c.n("setter calls");
            on_model(&mut $m.times, &o);
            if !judge($c, $what, &o, &$m.times, &read(&$x)) {
                return;
            }
            // nothing but the one field
            let now = $from(&$x);
            if now != $m {
                return $c.fail(format!("{} after {}: fields are {:?}, expected {:?}", $what, name(&o), now.times, $m.times));
            }
        }
    }};
}
fn entry(c: &mut Ctx) {
    let mut r = c.rng();
    let mut e = match r.below(4) {
        0 => Entry::new(),
        1 => Entry::default(),
        _ => to_entry(&gen::entry(&mut r, &gen::TINY, &[], 1)),
    };
    let mut m = from_entry(&e);
    lockstep!(c, &mut r, e, m, from_entry, "an entry");
}
fn group(c: &mut Ctx) {
    let mut r = c.rng();
    let mut g = match r.below(4) {
        0 => Group::new("g"),
        1 => Group::default(),
        _ => {
            let mut b = 3;
            to_group(&gen::group(&mut r, &gen::TINY, 1, &[], &mut b))
        }
    };
    let mut m = from_group(&g);
    lockstep!(c, &mut r, g, m, from_group, "a group");
}
/// All items of a tree, addressed at random: one is set, the rest stays.
fn tree(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = 14;
    let mut m = gen::group(&mut r, &gen::SMALL, 3, &[], &mut b);
    let mut g = to_group(&m);
    let paths = bfs_paths(&m);
    let v = ops(c, &mut r);
    for o in v {
        c.eval();
        c.n("setter calls");
        c.n("items of a tree");
        let p = r.pick(&paths).clone();
        let n = at(&m, &p).entries.len();
        let got = if n > 0 && r.chance(2, 3) {
            let i = r.below(n);
            let me = &mut at_mut(&mut m, &p).entries[i];
            let e = &mut lib_at_mut(&mut g, &p).entries[i];
            if !me.history.is_empty() && r.bool() {
                let k = r.below(me.history.len());
                on_model(&mut me.history[k].times, &o);
                apply(&mut e.history[k], &o);
                (me.history[k].times.clone(), read(&e.history[k]))
            } else {
                on_model(&mut me.times, &o);
                apply(e, &o);
                (me.times.clone(), read(e))
            }
        } else {
            let mg = at_mut(&mut m, &p);
            on_model(&mut mg.times, &o);
            // by address or while iterating
            let i = paths.iter().position(|q| *q == p).unwrap();
            let x = if r.bool() { g.iter_mut().nth(i) } else { Some(lib_at_mut(&mut g, &p)) };
            let x = match x {
                Some(x) => x,
                None => return c.fail(format!("iteration ends before group {}", i)),
            };
            apply(x, &o);
            (mg.times.clone(), read(x))
        };
        if !judge(c, "an item of a tree", &o, &got.0, &got.1) {
            return;
        }
    }
    let mut d = Diff { out: vec![], now: (0, 0) };
    d.group("root", &m, &from_group(&g));
    if !d.out.is_empty() {
        c.fail(format!("setters changed more than one item: {}", d.out.iter().take(4).cloned().collect::<Vec<_>>().join("; ")));
    }
}
/// The getters of an opened database give what the setters were given before saving.
fn saved(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut db = to_db(&m, &k.key());
    let paths = bfs_paths(&m.root);
    for p in &paths {
        let mut set = |t: &mut dyn Times, m: &mut MTimes, r: &mut Rng| {
            for i in 0..5 {
                let o = Op::Date(i, dt(gen::date(r)));
                apply(t, &o);
                on_model(m, &o);
            }
            for o in [Op::Flag(r.bool()), Op::Count(r.u64() as i32)] {
                apply(t, &o);
                on_model(m, &o);
            }
            c.add("setter calls", 7);
        };
        let g = lib_at_mut(&mut db.root_group, p);
        let mg = at_mut(&mut m.root, p);
        set(g, &mut mg.times, &mut r);
        for (e, me) in g.entries.iter_mut().zip(mg.entries.iter_mut()) {
            set(e, &mut me.times, &mut r);
            for (h, mh) in e.history.iter_mut().zip(me.history.iter_mut()) {
                set(h, &mut mh.times, &mut r);
            }
        }
    }
    c.eval();
    c.seen_bytes(format!("{:?}", m.root).as_bytes());
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.attach("file", &f);
    let o = match must_open(&f, &k.key()) {
        Ok(o) => o,
        Err(e) => return c.fail(e),
    };
    for p in &paths {
        let (g, mg) = (lib_at(&o.root_group, p), at(&m.root, p));
        let mut v: Vec<(&dyn Times, &MTimes)> = vec![(g, &mg.times)];
        for (e, me) in g.entries.iter().zip(&mg.entries) {
            v.push((e, &me.times));
            v.extend(e.history.iter().zip(&me.history).map(|(h, mh)| (h as &dyn Times, &mh.times)));
        }
        for (t, want) in v {
            c.n("items read after saving and opening");
            c.add("getters compared", 7);
            let got = read(t);
            if got != *want {
                return c.fail(format!("after saving and opening the getters give {:?}, set were {:?}", got, want));
            }
        }
    }
}
