//! Equality, copies, order and hashes of the library's values, against their content.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::*;
use secstr::SecStr;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "A case is one pair of values (databases, groups, entries, keys, key files, texts, names, identifiers) built separately \
               from the same plain data, or from data that differ in one place of random kind and depth; `==` and `!=` in both \
               directions must say what the plain data say. Copies are compared, edited and dropped beside their original; the order \
               and hashes of names and identifiers are checked against each other; distinct by pair.",
        sections: vec![
            Section { name: "database", quick: 24000, thorough: 100_000, f: database },
            Section { name: "entry", quick: 45_000, thorough: 200_000, f: entry },
            Section { name: "group", quick: 24000, thorough: 100_000, f: group },
            Section { name: "values", quick: 24000, thorough: 100_000, f: values },
            Section { name: "keys", quick: 12000, thorough: 40_000, f: keys },
            Section { name: "copies", quick: 12000, thorough: 40_000, f: copies },
            Section { name: "order", quick: 9000, thorough: 40_000, f: order },
            Section { name: "opened", quick: 2400, thorough: 8000, f: opened },
        ],
        need: &[
            ("equal pairs", 40_000),
            ("pairs that differ in one place", 50_000),
            ("kinds of difference in a database", 400),
            ("kinds of difference in an entry", 250),
            ("kinds of difference in a group", 400),
            ("copies edited beside their original", 6_000),
            ("names found again in maps", 60_000),
            ("ordered triples", 40_000),
            ("databases opened twice", 1_400),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
// ---------- one change in one place ----------

fn other_text(r: &mut Rng, s: &mut String) -> &'static str {
    match r.below(7) {
        0 if !s.is_empty() => {
            s.pop();
            "shorter"
        }
        1 => {
            let mut v: Vec<char> = s.chars().collect();
            if let Some(c) = v.iter_mut().rev().find(|c| c.is_ascii_alphabetic()) {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                *s = v.into_iter().collect();
                "case"
            } else {
                s.push('x');
                "longer"
            }
        }
        2 => {
            s.push(*r.pick(&[' ', '\0', '\n', '\u{301}', '\u{200b}']));
            "invisible"
        }
        3 => {
            s.insert(0, *r.pick(&[' ', '\t', 'x']));
            "prefix"
        }
        4 if s.chars().count() > 1 => {
            let mut v: Vec<char> = s.chars().collect();
            let i = r.below(v.len() - 1);
            if v[i] != v[i + 1] {
                v.swap(i, i + 1);
                *s = v.into_iter().collect();
                "swapped"
            } else {
                s.push('y');
                "longer"
            }
        }
        5 if !s.is_empty() => {
            s.clear();
            "empty"
        }
        _ => {
            s.push(*r.pick(&['x', 'é', '\u{1f600}']));
            "longer"
        }
    }
}
fn other_bytes(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(4) {
        0 if !b.is_empty() => {
            let i = *r.pick(&[0, b.len() - 1, b.len() / 2]);
            b[i] ^= 1 << r.below(8);
        }
        1 if !b.is_empty() => {
            b.pop();
        }
        2 => b.insert(0, 0),
        _ => b.push(0),
    }
}
fn other_date(r: &mut Rng, t: &mut Tm) {
    if t.n >= 1_000_000_000 {
        // within a leap second: the second before it
        t.n -= 1_000_000_000;
        return;
    }
    match r.below(4) {
        0 => t.s += 1,
        1 => t.n = if t.n == 0 { 1 } else { t.n - 1 },
        2 => t.s -= 86400,
        _ => *t = Tm { s: t.s ^ 1, n: 5 },
    }
}
fn other_id(r: &mut Rng, i: &mut Id) {
    i[r.below(16)] ^= 1 << r.below(8);
}
fn other_int(r: &mut Rng, i: &mut i32) {
    *i = match r.below(3) {
        0 => i.wrapping_add(1),
        1 => i.wrapping_neg().wrapping_sub(1),
        _ => *i ^ (1 << r.below(32)),
    };
}
fn other_colour(r: &mut Rng, c: &mut Option<[u8; 3]>) {
    match c {
        None => *c = Some([0, 0, 0]),
        Some(x) => {
            if r.bool() {
                x[r.below(3)] ^= 1 << r.below(8);
            } else {
                *c = None;
            }
        }
    }
}
fn other_opt_id(r: &mut Rng, o: &mut Option<Id>) {
    match o {
        None => *o = Some(NIL),
        Some(i) => {
            if r.bool() {
                other_id(r, i)
            } else {
                *o = None
            }
        }
    }
}
fn other_tri(r: &mut Rng, t: &mut Option<bool>) {
    let v: Vec<Option<bool>> = [None, Some(true), Some(false)].iter().cloned().filter(|x| x != t).collect();
    *t = *r.pick(&v);
}
fn other_times(r: &mut Rng, t: &mut MTimes) -> &'static str {
    match r.below(7) {
        0 => {
            other_date(r, &mut t.creation);
            "creation"
        }
        1 => {
            other_date(r, &mut t.expiry);
            "expiry"
        }
        2 => {
            t.expires = !t.expires;
            "expires"
        }
        3 => {
            other_date(r, &mut t.access);
            "access"
        }
        4 => {
            other_date(r, &mut t.modif);
            "modification"
        }
        5 => {
            other_date(r, &mut t.loc);
            "location"
        }
        _ => {
            other_int(r, &mut t.usage);
            "usage"
        }
    }
}
fn some_key<V>(r: &mut Rng, m: &BTreeMap<String, V>) -> Option<String> {
    if m.is_empty() {
        None
    } else {
        m.keys().nth(r.below(m.len())).cloned()
    }
}
fn other_entry(r: &mut Rng, e: &mut MEntry) -> String {
    let k = r.below(26);
    let s = match k {
        0 => {
            other_id(r, &mut e.uuid);
            "uuid".into()
        }
        1 => {
            other_id(r, &mut e.parent);
            "parent".into()
        }
        2 => {
            e.assoc.push((String::new(), String::new()));
            "association added".into()
        }
        3 if !e.assoc.is_empty() => {
            let i = r.below(e.assoc.len());
            if r.bool() {
                other_text(r, &mut e.assoc[i].0);
                "window".into()
            } else {
                other_text(r, &mut e.assoc[i].1);
                "sequence".into()
            }
        }
        4 if e.assoc.len() > 1 => {
            let n = e.assoc.len();
            e.assoc.swap(0, n - 1);
            "associations swapped".into()
        }
        5 => {
            other_text(r, &mut e.at_seq);
            "auto-type sequence".into()
        }
        6 => {
            e.at_enabled = !e.at_enabled;
            "auto-type".into()
        }
        7 => {
            e.at_obf = 1 - e.at_obf;
            "obfuscation".into()
        }
        8 => {
            other_colour(r, &mut e.bg);
            "background".into()
        }
        9 => {
            other_colour(r, &mut e.fg);
            "foreground".into()
        }
        10 => match some_key(r, &e.bins) {
            Some(k) => {
                let v = e.bins.remove(&k).unwrap();
                let (v, s) = match (v, r.below(4)) {
                    (MBin::Plain(b), 0) => (Some(MBin::Prot(b)), "attachment class"),
                    (MBin::Prot(b), 0) => (Some(MBin::Plain(b)), "attachment class"),
                    (MBin::Plain(mut b), 1) => {
                        other_bytes(r, &mut b);
                        (Some(MBin::Plain(b)), "attachment")
                    }
                    (MBin::Prot(mut b), 1) => {
                        other_bytes(r, &mut b);
                        (Some(MBin::Prot(b)), "protected attachment")
                    }
                    (MBin::Ref(mut t), 0) | (MBin::Ref(mut t), 1) => {
                        other_text(r, &mut t);
                        (Some(MBin::Ref(t)), "reference")
                    }
                    (v, 2) => {
                        let mut k = k.clone();
                        other_text(r, &mut k);
                        e.bins.insert(k, v);
                        (None, "attachment name")
                    }
                    _ => (None, "attachment removed"),
                };
                if let Some(v) = v {
                    e.bins.insert(k, v);
                }
                s.into()
            }
            None => {
                e.bins.insert(String::new(), MBin::Plain(vec![]));
                "attachment added".into()
            }
        },
        11 => {
            e.icon = (e.icon + 1 + r.below(68) as i32) % 69;
            "icon".into()
        }
        12 => {
            other_opt_id(r, &mut e.cicon);
            "custom icon".into()
        }
        13 => {
            other_text(r, &mut e.url);
            "override url".into()
        }
        14 => {
            other_text(r, &mut e.tags);
            "tags".into()
        }
        15 | 16 | 17 => match some_key(r, &e.strings) {
            Some(k) => {
                let v = e.strings.remove(&k).unwrap();
                let (v, s): (Option<MStr>, String) = match (v, r.below(4)) {
                    (MStr::Plain(t), 0) => (Some(MStr::Prot(t.into_bytes())), "text made protected".into()),
                    (MStr::Prot(b), 0) => match String::from_utf8(b) {
                        Ok(t) => (Some(MStr::Plain(t)), "text made plain".into()),
                        Err(_) => (None, "text removed".into()),
                    },
                    (MStr::Plain(mut t), 1) => {
                        let s = other_text(r, &mut t);
                        (Some(MStr::Plain(t)), format!("text {}", s))
                    }
                    (MStr::Prot(mut b), 1) => {
                        other_bytes(r, &mut b);
                        (Some(MStr::Prot(b)), "protected text".into())
                    }
                    (v, 2) => {
                        let mut k = k.clone();
                        other_text(r, &mut k);
                        e.strings.insert(canon(&k), v);
                        (None, "field name".into())
                    }
                    _ => (None, "text removed".into()),
                };
                if let Some(v) = v {
                    e.strings.insert(k, v);
                }
                s
            }
            None => {
                e.strings.insert("Title".into(), MStr::Plain(String::new()));
                "empty text added".into()
            }
        },
        18 => {
            let n = format!("extra {}", r.below(100));
            e.strings.insert(n, MStr::Plain(String::new()));
            "empty field added".into()
        }
        19 => {
            let h = e.history.last().cloned().unwrap_or(MEntry { history: vec![], ..e.clone() });
            e.history.push(h);
            "history item added".into()
        }
        20 if !e.history.is_empty() => {
            let i = r.below(e.history.len());
            e.history.remove(i);
            "history item removed".into()
        }
        21 | 22 | 23 if !e.history.is_empty() => {
            let i = r.below(e.history.len());
            other_entry(r, &mut e.history[i]);
            "in a history item".into()
        }
        24 if e.history.len() > 1 => {
            let n = e.history.len();
            e.history.swap(0, n - 1);
            "history swapped".into()
        }
        _ => other_times(r, &mut e.times).into(),
    };
    s
}
fn other_group(r: &mut Rng, g: &mut MGroup) -> String {
    // deeper half of the time
    if r.bool() {
        if !g.groups.is_empty() && r.bool() {
            let i = r.below(g.groups.len());
            return format!("subgroup: {}", other_group(r, &mut g.groups[i]).replace("subgroup: ", ""));
        }
        if !g.entries.is_empty() {
            let i = r.below(g.entries.len());
            return format!("entry: {}", other_entry(r, &mut g.entries[i]));
        }
    }
    match r.below(20) {
        0 => {
            other_id(r, &mut g.uuid);
            "uuid".into()
        }
        1 => {
            other_id(r, &mut g.parent);
            "parent".into()
        }
        2 => {
            other_opt_id(r, &mut g.cicon);
            "custom icon".into()
        }
        3 => {
            other_text(r, &mut g.at_seq);
            "auto-type sequence".into()
        }
        4 => {
            other_tri(r, &mut g.en_at);
            "auto-type".into()
        }
        5 => {
            other_tri(r, &mut g.en_search);
            "searching".into()
        }
        6 => {
            g.icon = (g.icon + 1 + r.below(68) as i32) % 69;
            "icon".into()
        }
        7 => {
            g.expanded = !g.expanded;
            "expanded".into()
        }
        8 => {
            other_id(r, &mut g.top);
            "last top entry".into()
        }
        9 | 10 => format!("name {}", other_text(r, &mut g.name)),
        11 => format!("notes {}", other_text(r, &mut g.notes)),
        12 => {
            let e = g.entries.last().cloned().unwrap_or_else(|| from_entry(&Entry::default()));
            g.entries.push(e);
            "entry added".into()
        }
        13 if !g.entries.is_empty() => {
            g.entries.pop();
            "entry removed".into()
        }
        14 if g.entries.len() > 1 => {
            let n = g.entries.len();
            g.entries.swap(0, n - 1);
            "entries swapped".into()
        }
        15 => {
            let x = g.groups.last().cloned().unwrap_or_else(|| from_group(&Group::default()));
            g.groups.push(x);
            "group added".into()
        }
        16 if !g.groups.is_empty() => {
            g.groups.pop();
            "group removed".into()
        }
        17 if g.groups.len() > 1 => {
            let n = g.groups.len();
            g.groups.swap(0, n - 1);
            "groups swapped".into()
        }
        _ => other_times(r, &mut g.times).into(),
    }
}
fn other_db(r: &mut Rng, m: &mut MDb) -> String {
    match r.below(46) {
        0 => {
            m.comment = match m.comment.take() {
                None => Some(vec![]),
                Some(mut b) => {
                    if r.bool() {
                        other_bytes(r, &mut b);
                        Some(b)
                    } else {
                        None
                    }
                }
            };
            "comment".into()
        }
        1 => {
            m.gzip = !m.gzip;
            "compression".into()
        }
        2 => {
            m.rounds ^= 1 << r.below(64);
            "rounds".into()
        }
        3 => {
            if r.bool() {
                m.version.0 ^= 1 << r.below(16)
            } else {
                m.version.1 ^= 1 << r.below(16)
            }
            "version".into()
        }
        4 | 5 => match some_key(r, &m.binaries) {
            Some(k) => {
                let mut v = m.binaries.remove(&k).unwrap();
                match r.below(3) {
                    0 => {
                        other_bytes(r, &mut v);
                        m.binaries.insert(k, v);
                        "pool value".into()
                    }
                    1 => {
                        let mut k = k;
                        other_text(r, &mut k);
                        m.binaries.insert(k, v);
                        "pool id".into()
                    }
                    _ => "pool item removed".into(),
                }
            }
            None => {
                m.binaries.insert("0".into(), vec![]);
                "pool item added".into()
            }
        },
        6 => {
            other_colour(r, &mut m.color);
            "colour".into()
        }
        7 | 8 => match some_key(r, &m.custom_data) {
            Some(k) => {
                let mut v = m.custom_data.remove(&k).unwrap();
                match r.below(3) {
                    0 => {
                        other_text(r, &mut v);
                        m.custom_data.insert(k, v);
                        "custom value".into()
                    }
                    1 => {
                        let mut k = k;
                        other_text(r, &mut k);
                        m.custom_data.insert(k, v);
                        "custom name".into()
                    }
                    _ => "custom item removed".into(),
                }
            }
            None => {
                m.custom_data.insert(String::new(), String::new());
                "custom item added".into()
            }
        },
        9 | 10 => {
            let k = m.icons.keys().next().cloned();
            match k {
                Some(k) => {
                    let mut v = m.icons.remove(&k).unwrap();
                    match r.below(3) {
                        0 => {
                            other_bytes(r, &mut v);
                            m.icons.insert(k, v);
                            "icon data".into()
                        }
                        1 => {
                            let mut k = k;
                            other_id(r, &mut k);
                            m.icons.insert(k, v);
                            "icon id".into()
                        }
                        _ => "icon removed".into(),
                    }
                }
                None => {
                    m.icons.insert(NIL, vec![]);
                    "icon added".into()
                }
            }
        }
        11 => format!("user {}", other_text(r, &mut m.def_user)),
        12 => {
            other_date(r, &mut m.def_user_ch);
            "user date".into()
        }
        13 => format!("description {}", other_text(r, &mut m.descr)),
        14 => {
            other_date(r, &mut m.descr_ch);
            "description date".into()
        }
        15 => {
            other_date(r, &mut m.tmpl_ch);
            "template date".into()
        }
        16 => {
            other_id(r, &mut m.tmpl);
            "template".into()
        }
        17 => format!("generator {}", other_text(r, &mut m.generator)),
        18 => {
            other_int(r, &mut m.hist_items);
            "history items".into()
        }
        19 => {
            other_int(r, &mut m.hist_size);
            "history size".into()
        }
        20 => {
            other_id(r, &mut m.last_sel);
            "selected group".into()
        }
        21 => {
            other_id(r, &mut m.last_top);
            "top group".into()
        }
        22 => {
            other_int(r, &mut m.maint);
            "maintenance".into()
        }
        23 => {
            other_int(r, &mut m.mk_force);
            "key change forced".into()
        }
        24 => {
            other_int(r, &mut m.mk_rec);
            "key change recommended".into()
        }
        25 => {
            other_date(r, &mut m.mk_ch);
            "key date".into()
        }
        26 => format!("name {}", other_text(r, &mut m.name)),
        27 => {
            other_date(r, &mut m.name_ch);
            "name date".into()
        }
        28 => {
            m.p_notes = !m.p_notes;
            "protect notes".into()
        }
        29 => {
            m.p_pass = !m.p_pass;
            "protect password".into()
        }
        30 => {
            m.p_title = !m.p_title;
            "protect title".into()
        }
        31 => {
            m.p_url = !m.p_url;
            "protect url".into()
        }
        32 => {
            m.p_user = !m.p_user;
            "protect user".into()
        }
        33 => {
            other_date(r, &mut m.rb_ch);
            "bin date".into()
        }
        34 => {
            m.rb_en = !m.rb_en;
            "bin enabled".into()
        }
        35 => {
            other_id(r, &mut m.rb);
            "bin".into()
        }
        _ => format!("root: {}", other_group(r, &mut m.root)),
    }
}
// ---------- judging ----------

fn judge<T: PartialEq>(c: &mut Ctx, a: &T, b: &T, want: bool, what: &str) -> bool {
    c.eval();
    let got = [a == b, b == a, !(a != b), !(b != a)];
    if got.iter().any(|g| *g != want) {
        c.fail(format!("{}: the contents are {}, but ==, == (swapped), !=, != (swapped) say {:?}", what, if want { "equal" } else { "different" }, got));
        return false;
    }
    let own = [a == a, b == b];
    if own != [true, true] {
        c.fail(format!("{}: not equal to itself", what));
        return false;
    }
    c.n(if want { "equal pairs" } else { "pairs that differ in one place" });
    true
}
fn kind(c: &mut Ctx, of: &str, what: &str) {
    // counted once per kind and worker
    let k = format!("{} {}", of, what);
    let h = crate::rng::hash_bytes(k.as_bytes());
    if !c.hashes.contains(&h) {
        c.n(&format!("kinds of difference in {}", of));
    }
    c.seen(h);
}
fn database(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = gen::Cfg { nested_history: r.chance(1, 3), ..if r.chance(1, 20) { gen::SMALL } else { gen::TINY } };
    let m = gen::db(&mut r, &cfg);
    let k = gen::key(&mut r).key();
    let a = to_db(&m, &k);
    let mut b = to_db(&m, &k);
    c.seen_bytes(format!("{:?}", m).as_bytes());
    if !judge(c, &a, &b, true, "two databases of the same content") || !judge(c, &a.clone(), &b, true, "a copy of a database") {
        return;
    }
    for _ in 0..4 {
        let mut n = m.clone();
        let what = other_db(&mut r, &mut n);
        if n == m {
            continue;
        }
        c.sample(|| what.clone());
        kind(c, "a database", &what);
        let x = to_db(&n, &k);
        if !judge(c, &a, &x, false, &what) {
            return;
        }
    }
    // what the plain data do not hold
    let what = match r.below(2) {
        0 => {
            b.db_type = DbType::Kdb1;
            "type"
        }
        _ => {
            b.composite_key = loop {
                let n = gen::key(&mut r).key();
                if n.unsecure() != k.unsecure() {
                    break n;
                }
            };
            "key"
        }
    };
    kind(c, "a database", what);
    judge(c, &a, &b, false, what);
}
fn entry(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = gen::Cfg { nested_history: r.chance(1, 4), fields: 3, ..gen::TINY };
    let m = gen::entry(&mut r, &cfg, &["0".into(), "1".into()], 2);
    let a = to_entry(&m);
    c.seen_bytes(format!("{:?}", m).as_bytes());
    if !judge(c, &a, &to_entry(&m), true, "two entries of the same content") || !judge(c, &a.clone(), &a, true, "a copy of an entry") {
        return;
    }
    for _ in 0..3 {
        let mut n = m.clone();
        let what = other_entry(&mut r, &mut n);
        if n == m {
            continue;
        }
        kind(c, "an entry", &what);
        if !judge(c, &a, &to_entry(&n), false, &what) {
            return;
        }
    }
}
fn group(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = 10;
    let cfg = gen::Cfg { nested_history: r.chance(1, 3), ..gen::TINY };
    let m = gen::group(&mut r, &cfg, 2, &[], &mut b);
    let a = to_group(&m);
    c.seen_bytes(format!("{:?}", m).as_bytes());
    if !judge(c, &a, &to_group(&m), true, "two groups of the same content") || !judge(c, &a.clone(), &a, true, "a copy of a group") {
        return;
    }
    for _ in 0..4 {
        let mut n = m.clone();
        let what = other_group(&mut r, &mut n);
        if n == m {
            continue;
        }
        kind(c, "a group", &what);
        if !judge(c, &a, &to_group(&n), false, &what) {
            return;
        }
    }
}
fn values(c: &mut Ctx) {
    let mut r = c.rng();
    let s = gen::text(&mut r, false);
    let mut t = s.clone();
    other_text(&mut r, &mut t);
    let b = gen::blob(&mut r, false);
    let mut d = b.clone();
    other_bytes(&mut r, &mut d);
    c.seen_bytes(s.as_bytes());
    let pl = |x: &str| StringValue::new(x, false);
    let pr = |x: &str| StringValue::new(x, true);
    let sec = |x: &[u8]| SecStr::new(x.to_vec());
    let ok = judge(c, &pl(&s), &StringValue::Plain(s.clone()), true, "plain text")
        && judge(c, &pr(&s), &StringValue::Protected(sec(s.as_bytes())), true, "protected text")
        && judge(c, &pl(&s), &pr(&s), false, "plain and protected text")
        && judge(c, &pl(&s), &pl(&t), s == t, "plain texts")
        && judge(c, &pr(&s), &pr(&t), s == t, "protected texts")
        && judge(c, &BinaryValue::Plain(b.clone()), &BinaryValue::Plain(d.clone()), b == d, "attachments")
        && judge(c, &BinaryValue::Protected(sec(&b)), &BinaryValue::Protected(sec(&d)), b == d, "protected attachments")
        && judge(c, &BinaryValue::Protected(sec(&b)), &BinaryValue::Protected(sec(&b)), true, "protected attachments")
        && judge(c, &BinaryValue::Plain(b.clone()), &BinaryValue::Protected(sec(&b)), false, "plain and protected attachment")
        && judge(c, &BinaryValue::Ref(BinaryId(s.clone())), &BinaryValue::Ref(BinaryId(t.clone())), s == t, "references")
        && judge(c, &BinaryValue::Ref(BinaryId(s.clone())), &BinaryValue::Plain(s.clone().into_bytes()), false, "reference and value")
        && judge(c, &Comment(b.clone()), &Comment(d.clone()), b == d, "comments")
        && judge(c, &TransformRounds(5), &TransformRounds(5 ^ (1 << r.below(64))), false, "rounds");
    if !ok {
        return;
    }
    let v = (r.u64() as u16, r.u64() as u16);
    let w = if r.bool() { v } else { (v.0 ^ (r.bool() as u16), v.1 ^ (1 << r.below(16))) };
    let ver = |x: (u16, u16)| Version { major: x.0, minor: x.1 };
    judge(c, &ver(v), &ver(w), v == w, "versions");
}
fn keys(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    c.seen_bytes(&k.comp());
    if !judge(c, &k.key(), &k.key(), true, "keys of the same parts") {
        return;
    }
    let o = gen::key(&mut r);
    if !judge(c, &k.key(), &o.key(), k.comp() == o.comp(), "keys of other parts") {
        return;
    }
    let s = gen::text(&mut r, false);
    let mut t = s.clone();
    other_text(&mut r, &mut t);
    if !judge(c, &CompositeKey::from_password(s.as_str()), &CompositeKey::from_password(t.as_str()), s == t, "keys of similar passwords") {
        return;
    }
    let types = [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml];
    let b: [u8; 32] = r.arr();
    let mut d = b.to_vec();
    other_bytes(&mut r, &mut d);
    let kf = |b: &[u8], t: &KeyFileType| KeyFile { key: SecStr::new(b.to_vec()), file_type: t.clone() };
    for x in &types {
        for y in &types {
            if !judge(c, &kf(&b, x), &kf(&b, y), x == y, "key files of the same key")
                || !judge(c, &kf(&b, x), &kf(&d, y), false, "key files of other keys")
            {
                return;
            }
        }
    }
    let n = KeyFile::new_binary().unwrap();
    let m = KeyFile::new_binary().unwrap();
    judge(c, &n, &m, n.key.unsecure() == m.key.unsecure(), "new key files");
}
/// A copy is equal to its original and neither sees what happens to the other.
fn copies(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = gen::Cfg { nested_history: r.chance(1, 3), ..if r.chance(1, 10) { gen::SMALL } else { gen::TINY } };
    let m = gen::db(&mut r, &cfg);
    let k = gen::key(&mut r).key();
    let mut a = to_db(&m, &k);
    let mut b = a.clone();
    c.seen_bytes(format!("{:?}", m).as_bytes());
    if !judge(c, &a, &b, true, "a database and its copy") {
        return;
    }
    if let Some(e) = differences(&m, &from_db(&b)) {
        return c.fail(format!("a copy: {}", e));
    }
    if b.composite_key.unsecure() != k.unsecure() {
        return c.fail("a copy has another key");
    }
    let orig = r.bool();
    let mut n = m.clone();
    let mut g = 0;
    let mut what = String::new();
    {
        let x = if orig { &mut a } else { &mut b };
        // edits in place, at any depth
        let paths = bfs_paths(&n.root);
        for _ in 0..1 + r.below(6) {
            let p = r.pick(&paths).clone();
            let (lg, mg) = (lib_at_mut(&mut x.root_group, &p), at_mut(&mut n.root, &p));
            let i = r.below(mg.entries.len().max(1));
            match r.below(9) {
                0 => {
                    lg.name.push('!');
                    mg.name.push('!');
                }
                1 if i < mg.entries.len() => {
                    lg.entries[i].set_password("edited");
                    mg.entries[i].strings.insert("Password".into(), MStr::Prot(b"edited".to_vec()));
                }
                2 if i < mg.entries.len() => {
                    lg.entries[i].strings.clear();
                    mg.entries[i].strings.clear();
                }
                3 if i < mg.entries.len() => {
                    for (_, v) in lg.entries[i].strings.iter_mut() {
                        *v = match v {
                            StringValue::Plain(s) => StringValue::Plain(format!("{}+", s)),
                            StringValue::Protected(s) => {
                                let mut b = s.unsecure().to_vec();
                                b.push(b'+');
                                StringValue::Protected(SecStr::new(b))
                            }
                        };
                    }
                    for (_, v) in mg.entries[i].strings.iter_mut() {
                        match v {
                            MStr::Plain(s) => s.push('+'),
                            MStr::Prot(b) => b.push(b'+'),
                        }
                    }
                }
                4 if i < mg.entries.len() && !mg.entries[i].history.is_empty() => {
                    let h = &mut lg.entries[i].history[0];
                    h.tags.push('h');
                    mg.entries[i].history[0].tags.push('h');
                }
                5 if i < mg.entries.len() => {
                    // protected bytes changed where they lie
                    for (_, v) in lg.entries[i].binaries.iter_mut() {
                        match v {
                            BinaryValue::Plain(b) => b.iter_mut().for_each(|x| *x ^= 0xff),
                            BinaryValue::Protected(s) => s.unsecure_mut().iter_mut().for_each(|x| *x ^= 0xff),
                            BinaryValue::Ref(i) => i.0.push('r'),
                        }
                    }
                    for (_, v) in mg.entries[i].bins.iter_mut() {
                        match v {
                            MBin::Plain(b) | MBin::Prot(b) => b.iter_mut().for_each(|x| *x ^= 0xff),
                            MBin::Ref(i) => i.push('r'),
                        }
                    }
                }
                6 if i < mg.entries.len() => {
                    lg.entries.remove(i);
                    mg.entries.remove(i);
                }
                7 => {
                    for (_, v) in x.binaries.iter_mut() {
                        v.push(7);
                    }
                    for (_, v) in n.binaries.iter_mut() {
                        v.push(7);
                    }
                }
                _ => {
                    x.name.push('?');
                    n.name.push('?');
                }
            }
            g += 1;
        }
        // sometimes saved, which must not be seen by the other either
        if r.chance(1, 4) {
            let _ = save(x);
            what = " and a save".into();
        }
    }
    c.n("copies edited beside their original");
    let (e, o) = if orig { (&a, &b) } else { (&b, &a) };
    let who = if orig { "the original" } else { "the copy" };
    if let Some(d) = differences(&m, &from_db(o)) {
        return c.fail(format!("{} edits{} of {} changed the other: {}", g, what, who, d));
    }
    if let Some(d) = differences(&n, &from_db(e)) {
        return c.fail(format!("{} after {} edits: {}", who, g, d));
    }
    if !judge(c, e, o, n == m, "an edited copy and the other") {
        return;
    }
    // one of them goes away
    if r.bool() {
        drop(a);
        if let Some(d) = differences(if orig { &m } else { &n }, &from_db(&b)) {
            c.fail(format!("the copy after the original was dropped: {}", d));
        }
    } else {
        drop(b);
        if let Some(d) = differences(if orig { &n } else { &m }, &from_db(&a)) {
            c.fail(format!("the original after the copy was dropped: {}", d));
        }
    }
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ordered<T: Ord + Debug>(c: &mut Ctx, v: &[T], same: &dyn Fn(usize, usize) -> bool) -> bool {
    for i in 0..v.len() {
        for j in 0..v.len() {
            let o = v[i].cmp(&v[j]);
            let eq = v[i] == v[j];
            if eq != same(i, j) || (o == Ordering::Equal) != eq || v[j].cmp(&v[i]) != o.reverse() || v[i].partial_cmp(&v[j]) != Some(o) {
                c.fail(format!("{:?} and {:?}: ==: {}, cmp: {:?}, reversed: {:?}", v[i], v[j], eq, o, v[j].cmp(&v[i])));
                return false;
            }
            let k = (i * 7 + j * 3) % v.len();
            c.n("ordered triples");
            if o != Ordering::Greater && v[j] <= v[k] && v[i] > v[k] {
                c.fail(format!("order is not transitive: {:?} {:?} {:?}", v[i], v[j], v[k]));
                return false;
            }
        }
    }
    true
}
fn mapped<T: Ord + Hash + Clone + Debug>(c: &mut Ctx, v: &[T], same: &dyn Fn(usize, usize) -> bool) -> bool {
    if !ordered(c, v, same) {
        return false;
    }
    let mut h: HashMap<T, usize> = HashMap::new();
    let mut b: BTreeMap<T, usize> = BTreeMap::new();
    for (i, x) in v.iter().enumerate() {
        h.insert(x.clone(), i);
        b.insert(x.clone(), i);
    }
    for (i, x) in v.iter().enumerate() {
        let want = (0..v.len()).rev().find(|&j| same(i, j));
        for j in 0..v.len() {
            if same(i, j) && hash(x) != hash(&v[j]) {
                c.fail(format!("{:?} and {:?} are equal but hash differently", x, v[j]));
                return false;
            }
        }
        if h.get(x).cloned() != want || b.get(x).cloned() != want {
            c.fail(format!("{:?} is not found again in a map ({:?}, {:?}, expected {:?})", x, h.get(x), b.get(x), want));
            return false;
        }
        c.n("names found again in maps");
    }
    let n = (0..v.len()).filter(|&i| (0..i).all(|j| !same(i, j))).count();
    let hs: HashSet<T> = v.iter().cloned().collect();
    let bs: BTreeSet<T> = v.iter().cloned().collect();
    if hs.len() != n || bs.len() != n {
        c.fail(format!("{} different names make sets of {} and {}", n, hs.len(), bs.len()));
        return false;
    }
    true
}
fn order(c: &mut Ctx) {
    let mut r = c.rng();
    c.eval();
    let mut names: Vec<String> = (0..5 + r.below(12)).map(|_| gen::field_name(&mut r, false)).collect();
    let extra: Vec<String> = names.iter().take(4).cloned().collect();
    for mut x in extra {
        if r.bool() {
            other_text(&mut r, &mut x);
        }
        names.push(x);
    }
    names.extend(["Title", "Notes", "URL", "UserName", "Password"].iter().map(|s| s.to_string()));
    r.shuffle(&mut names);
    c.seen_bytes(format!("{:?}", names).as_bytes());
    let n2 = names.clone();
    let same = |i: usize, j: usize| n2[i] == n2[j];
    let kn: Vec<String> = names.iter().map(|n| canon(n)).collect();
    let ksame = |i: usize, j: usize| kn[i] == kn[j];
    let v: Vec<StringKey> = names.iter().map(|n| StringKey::from_string(n)).collect();
    if !mapped(c, &v, &ksame) {
        return;
    }
    // names made without `from_string`, also ones that read like a standard field
    let mut raw: Vec<(bool, String)> = names.iter().map(|n| (true, n.clone())).collect();
    let std = [StringKey::Notes, StringKey::Password, StringKey::Title, StringKey::Url, StringKey::Username];
    raw.extend(std.iter().map(|k| (false, k.to_string())));
    let v: Vec<StringKey> = raw
        .iter()
        .map(|(o, n)| if *o { StringKey::Other(n.clone()) } else { std.iter().find(|k| k.to_string() == *n).unwrap().clone() })
        .collect();
    if !mapped(c, &v, &|i, j| raw[i] == raw[j]) {
        return;
    }
    let v: Vec<BinaryKey> = names.iter().map(|n| BinaryKey(n.clone())).collect();
    if !mapped(c, &v, &same) {
        return;
    }
    let v: Vec<BinaryId> = names.iter().map(|n| BinaryId(n.clone())).collect();
    if !mapped(c, &v, &same) {
        return;
    }
    let mut ids: Vec<Id> = (0..8).map(|_| gen::id(&mut r)).collect();
    for i in 0..4 {
        let mut x = ids[i];
        if r.bool() {
            other_id(&mut r, &mut x);
        }
        ids.push(x);
    }
    let u = |i: &Id| uuid::Uuid::from_bytes(*i);
    let isame = |i: usize, j: usize| ids[i] == ids[j];
    let v: Vec<EntryUuid> = ids.iter().map(|i| EntryUuid(u(i))).collect();
    if !mapped(c, &v, &isame) {
        return;
    }
    let v: Vec<GroupUuid> = ids.iter().map(|i| GroupUuid(u(i))).collect();
    if !mapped(c, &v, &isame) {
        return;
    }
    for i in 0..ids.len() {
        for j in 0..ids.len() {
            let (a, b) = (CustomIconUuid(u(&ids[i])), CustomIconUuid(u(&ids[j])));
            if (a == b) != isame(i, j) || (a == b && hash(&a) != hash(&b)) {
                return c.fail(format!("icon identifiers {:?} {:?}", a, b));
            }
        }
    }
    let codes: Vec<i32> = (0..12).map(|_| r.below(69) as i32).collect();
    let v: Vec<Icon> = codes.iter().map(|i| Icon::from_i32(*i).unwrap()).collect();
    if !mapped(c, &v, &|i, j| codes[i] == codes[j]) {
        return;
    }
    let v = [Obfuscation::None, Obfuscation::UseClipboard, Obfuscation::None];
    if !mapped(c, &v, &|i, j| (i == 1) == (j == 1)) {
        return;
    }
    let cols: Vec<[u8; 3]> = (0..8).map(|_| [r.below(3) as u8, r.below(3) as u8, r.below(3) as u8]).collect();
    let v: Vec<Color> = cols.iter().map(|x| Color { red: x[0], green: x[1], blue: x[2] }).collect();
    if !ordered(c, &v, &|i, j| cols[i] == cols[j]) {
        return;
    }
    let pairs: Vec<(String, String)> = (0..8).map(|_| (r.pick(&names).clone(), r.pick(&names).clone())).collect();
    let v: Vec<Association> =
        pairs.iter().map(|p| Association { window: p.0.clone(), keystroke_sequence: p.1.clone() }).collect();
    if !ordered(c, &v, &|i, j| pairs[i] == pairs[j]) {
        return;
    }
    let vs: Vec<(u16, u16)> = (0..8).map(|_| (r.below(4) as u16, r.below(300) as u16)).collect();
    let v: Vec<Version> = vs.iter().map(|x| Version { major: x.0, minor: x.1 }).collect();
    ordered(c, &v, &|i, j| vs[i] == vs[j]);
}
/// One file opened twice gives equal databases; opened databases compare like built ones.
fn opened(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let db = to_db(&m, &k.key());
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.seen_bytes(&f);
    let (a, b) = match (must_open(&f, &k.key()), must_open(&f, &k.key())) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return c.fail(e),
    };
    if !judge(c, &a, &b, true, "a file opened twice") {
        return;
    }
    c.n("databases opened twice");
    // a database built from the same data is the opened one
    let x = from_db(&a);
    if !judge(c, &a, &to_db(&x, &k.key()), true, "an opened database and one built alike") {
        return;
    }
    let g = a.root_group.clone();
    if !judge(c, &g, &b.root_group, true, "root groups") {
        return;
    }
    let mut y = x.clone();
    let what = other_db(&mut r, &mut y);
    if y != x {
        judge(c, &a, &to_db(&y, &k.key()), false, &what);
    }
}
