//! Save never reports success for a file that cannot be opened.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "A case is one database with content at or over the limits of the format (every place that holds text x every \
               non-XML character class, comment lengths, non-UTF-8 protected strings, extreme dates and numbers); distinct by place and text.",
        sections: vec![
            Section { name: "places", quick: 2400, thorough: 12000, f: places },
            Section { name: "legal", quick: 1200, thorough: 6000, f: legal },
            Section { name: "comment", quick: 60, thorough: 300, f: comment },
            Section { name: "random", quick: 1500, thorough: 20000, f: random },
            Section { name: "extreme", quick: 200, thorough: 1500, f: extreme },
            Section { name: "names", quick: 1500, thorough: 15000, f: names },
            Section { name: "bulk", quick: 64, thorough: 480, f: bulk },
        ],
        need: &[("evaluations", 2000), ("refused", 800), ("accepted", 600), ("megabytes in one place", 60)],
        assumptions: &["the generator field is rewritten by save, so hostile text in it is not judged"],
        vmem_kib: 0,
    }
}

pub const PLACES: usize = 26;
/// Puts `t` into one text place of the model; false if the place is enciphered (so anything is allowed).
pub fn put(m: &mut MDb, place: usize, t: &str) -> bool {
    let t = t.to_string();
    let mut r = Rng::new(7);
    while m.root.entries.is_empty() {
        m.root.entries.push(gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0));
    }
    if m.root.groups.is_empty() {
        m.root.groups.push(gen::group(&mut r, &gen::Cfg { groups: 0, entries: 0, ..gen::TINY }, 0, &[], &mut 1));
    }
    if m.root.groups[0].entries.is_empty() {
        m.root.groups[0].entries.push(gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0));
    }
    if place >= 20 && m.root.entries[0].history.is_empty() {
        m.root.entries[0].history.push(gen::entry(&mut r, &gen::Cfg { history: 0, ..gen::TINY }, &[], 0));
    }
    let e = &mut m.root.entries[0];
    match place {
        0 => m.name = t,
        1 => m.descr = t,
        2 => m.def_user = t,
        3 => {
            m.custom_data.insert(format!("k{}", t), "v".into());
        }
        4 => {
            m.custom_data.insert("k".into(), t);
        }
        5 => {
            m.binaries.insert(t, vec![1, 2, 3]);
        }
        6 => m.root.name = t,
        7 => m.root.notes = t,
        8 => m.root.at_seq = t,
        9 => m.root.groups[0].name = t,
        10 => e.url = t,
        11 => e.tags = t,
        12 => e.at_seq = t,
        13 => e.assoc.push((t, "k".into())),
        14 => e.assoc.push(("w".into(), t)),
        15 => {
            e.strings.insert("Title".into(), MStr::Plain(t));
        }
        16 => {
            e.strings.insert(format!("x{}", t), MStr::Plain("v".into()));
        }
        17 => {
            e.strings.insert(format!("x{}", t), MStr::Prot(b"v".to_vec()));
        }
        18 => {
            e.bins.insert(t, MBin::Plain(vec![1]));
        }
        19 => {
            e.bins.insert("b".into(), MBin::Ref(t));
        }
        20 => e.history[0].url = t,
        21 => {
            e.history[0].strings.insert("Custom".into(), MStr::Plain(t));
        }
        22 => {
            m.root.groups[0].entries[0].strings.insert("Notes".into(), MStr::Plain(t));
        }
        23 => {
            e.bins.insert(t, MBin::Prot(vec![1]));
        }
        24 => {
            e.strings.insert("Password".into(), MStr::Prot(t.into_bytes()));
            return false;
        }
        _ => {
            e.history[0].strings.insert("Secret".into(), MStr::Prot(t.into_bytes()));
            return false;
        }
    }
    true
}

fn bad_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..32).map(|b| b as char).filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    v.push('\u{fffe}');
    v.push('\u{ffff}');
    v
}

/// The judgement: success means it opens to the same content.
pub fn judge(c: &mut Ctx, m: &MDb, k: &gen::KeySpec, must: Option<bool>) -> bool {
    let key = k.key();
    let db = to_db(m, &key);
    c.eval();
    let f = match save(&db) {
        Err(p) => {
            c.fail(format!("save: {}", p));
            return false;
        }
        Ok(Err(e)) => {
            c.n("refused");
            if must == Some(true) {
                c.fail(format!("save refused content the format can carry: {:?}", e));
            }
            return false;
        }
        Ok(Ok(f)) => f,
    };
    c.n("accepted");
    c.attach("kdbx", &f);
    let o = match must_open(&f, &key) {
        Ok(o) => o,
        Err(e) => {
            c.fail(format!("save reported success, but {}", e));
            return true;
        }
    };
    if let Some(d) = differences(&expect_after_save(m), &from_db(&o)) {
        c.fail(format!("save reported success, but {}", d));
        return true;
    }
    if must == Some(false) {
        c.fail("save accepted content the format cannot carry");
    }
    true
}

fn base(r: &mut Rng) -> MDb {
    gen::db(r, &gen::TINY)
}

fn places(c: &mut Ctx) {
    let mut r = c.rng();
    let bad = bad_chars();
    let place = c.index % PLACES;
    let ch = bad[(c.index / PLACES) % bad.len()];
    let round = c.index / PLACES / bad.len();
    let t = match (round + c.index) % 5 {
        0 => ch.to_string(),
        1 => format!("ab{}cd", ch),
        2 => format!("{}tail", ch),
        3 => format!("head{}", ch),
        _ => {
            let a = gen::text(&mut r, false);
            let b = gen::text(&mut r, false);
            format!("{}\r{}{}", a, ch, b)
        }
    };
    let mut m = base(&mut r);
    let plain = put(&mut m, place, &t);
    let k = gen::key(&mut r);
    judge(c, &m, &k, Some(!plain));
    c.seen_bytes(format!("{}:{:?}", place, t).as_bytes());
    c.sample(|| format!("place {} text {:?}", place, t));
}

/// Characters next to the forbidden ranges have to be carried.
fn legal(c: &mut Ctx) {
    let mut r = c.rng();
    const OK: &[char] = &[
        '\t', '\n', '\r', ' ', '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{2028}', '\u{d7ff}', '\u{e000}',
        '\u{fffd}', '\u{10000}', '\u{1fffe}', '\u{1ffff}', '\u{10ffff}', '\u{feff}', '<', '&', ']', '"', '\'',
    ];
    let place = c.index % PLACES;
    let ch = OK[(c.index / PLACES) % OK.len()];
    let t = match r.below(5) {
        0 => ch.to_string(),
        1 => format!("{}{}", ch, ch),
        2 => format!("a{}", ch),
        3 => format!("{}b", ch),
        _ => format!("{}{}{}", gen::text(&mut r, false), ch, gen::text(&mut r, false)),
    };
    let mut m = base(&mut r);
    put(&mut m, place, &t);
    let k = gen::key(&mut r);
    judge(c, &m, &k, Some(true));
    c.seen_bytes(format!("ok{}:{:?}", place, t).as_bytes());
}

fn comment(c: &mut Ctx) {
    let mut r = c.rng();
    let lens = [
        0usize, 1, 255, 256, 257, 65534, 65535, 65536, 65537, 65538, 65551, 66000, 70000, 131071, 131072, 131073, 131088,
        200000, 1 << 20,
    ];
    let n = if c.index < lens.len() { lens[c.index] } else { r.below(140000) };
    let mut m = base(&mut r);
    m.comment = Some(if r.bool() { r.bytes(n) } else { vec![r.byte(); n] });
    let k = gen::key(&mut r);
    judge(c, &m, &k, Some(n <= 65535));
    c.seen(n as u64);
    c.sample(|| format!("comment of {} bytes", n));
}

fn random(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::any_db(&mut r);
    let mut ok = true;
    for _ in 0..r.below(4) {
        let place = r.below(PLACES);
        match r.below(4) {
            0 => {
                let ch = *r.pick(&bad_chars());
                let t = format!("{}{}{}", gen::text(&mut r, true), ch, gen::text(&mut r, true));
                if put(&mut m, place, &t) {
                    ok = false;
                }
            }
            1 => {
                // protected bytes that are not UTF-8
                put(&mut m, 0, "x");
                let mut b = gen::text(&mut r, false).into_bytes();
                let x: &[u8] = *r.pick(&[&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf5, 0x80], &[0x80]]);
                let at = r.below(b.len() + 1);
                for (i, y) in x.iter().enumerate() {
                    b.insert(at + i, *y);
                }
                let bad = std::str::from_utf8(&b).is_err();
                m.root.entries[0].strings.insert(format!("Pin{}", r.below(3)), MStr::Prot(b));
                // later insertions may replace this one, so only look at the end
                let _ = bad;
            }
            2 => {
                let n = 65530 + r.below(12);
                m.comment = Some(r.bytes(n));
            }
            _ => {
                let t = gen::text(&mut r, true);
                put(&mut m, place, &t);
            }
        }
    }
    let must = if ok && carriable(&m) { Some(true) } else if !carriable(&m) { Some(false) } else { None };
    let k = gen::key(&mut r);
    judge(c, &m, &k, must);
    c.seen_bytes(format!("{:?}", m).as_bytes());
}
fn xml_ok(s: &str) -> bool {
    s.chars().all(crate::refxml::is_xml_char)
}
fn entry_ok(e: &MEntry, hist: bool) -> bool {
    e.assoc.iter().all(|a| xml_ok(&a.0) && xml_ok(&a.1))
        && xml_ok(&e.at_seq)
        && xml_ok(&e.url)
        && xml_ok(&e.tags)
        && e.strings.iter().all(|(k, v)| {
            xml_ok(k)
                && match v {
                    MStr::Plain(s) => xml_ok(s),
                    MStr::Prot(b) => std::str::from_utf8(b).is_ok(),
                }
        })
        && e.bins.iter().all(|(k, v)| {
            xml_ok(k)
                && match v {
                    MBin::Ref(r) => xml_ok(r),
                    _ => true,
                }
        })
        && (hist || e.history.iter().all(|h| entry_ok(h, true)))
}
fn group_ok(g: &MGroup) -> bool {
    xml_ok(&g.name)
        && xml_ok(&g.notes)
        && xml_ok(&g.at_seq)
        && g.entries.iter().all(|e| entry_ok(e, false))
        && g.groups.iter().all(group_ok)
}
/// Whether KDBX 3.1 can carry everything in the model.
pub fn carriable(m: &MDb) -> bool {
    m.comment.as_ref().map_or(true, |c| c.len() <= 65535)
        && xml_ok(&m.name)
        && xml_ok(&m.descr)
        && xml_ok(&m.def_user)
        && m.custom_data.iter().all(|(k, v)| xml_ok(k) && xml_ok(v))
        && m.binaries.keys().all(|k| xml_ok(k))
        && group_ok(&m.root)
}

/// Dates at the ends of what the type holds, extreme numbers and sizes.
fn extreme(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = base(&mut r);
    put(&mut m, 20, "u");
    let min = chrono::DateTime::<chrono::Utc>::MIN_UTC;
    let max = chrono::DateTime::<chrono::Utc>::MAX_UTC;
    let mut ds = vec![tm(min), tm(max), Tm { s: -62135596801, n: 5 }, Tm { s: -62167219200, n: 0 }, Tm { s: -62167219201, n: 0 }];
    ds.push(Tm { s: 253402300800, n: 0 });
    ds.push(Tm { s: 1_483_228_799, n: 1_999_999_999 });
    ds.push(Tm { s: -377705116800, n: 0 });
    ds.push(Tm { s: -377705116801, n: 0 });
    let d = if c.index < ds.len() * 8 {
        ds[c.index % ds.len()]
    } else {
        let span = (max.timestamp() / 2 - min.timestamp() / 2) as u64;
        Tm { s: min.timestamp() + (r.u64() % span) as i64 * 2, n: r.below(1_000_000_000) as u32 }
    };
    let e = &mut m.root.entries[0];
    match (c.index / 9) % 8 {
        0 => m.name_ch = d,
        1 => m.rb_ch = d,
        2 => m.mk_ch = d,
        3 => m.root.times.creation = d,
        4 => e.times.expiry = d,
        5 => e.times.loc = d,
        6 => e.history[0].times.modif = d,
        _ => m.tmpl_ch = d,
    }
    let e = &mut m.root.entries[0];
    e.times.usage = *r.pick(&[i32::MIN, i32::MAX, 0, -1]);
    m.hist_size = *r.pick(&[i32::MIN, i32::MAX]);
    let k = gen::key(&mut r);
    judge(c, &m, &k, Some(true));
    c.seen_bytes(format!("{:?}", d).as_bytes());
    c.sample(|| format!("date {} {}", d.s, d.n));
}

/// Values of many megabytes in every place that holds data, and very many items.
fn bulk(c: &mut Ctx) {
    let mut r = c.rng();
    let n = gen::bulk_size(&mut r, if c.thorough { 1 << 26 } else { 1 << 24 });
    let kind = c.index;
    let mut m = gen::bulk(&mut r, kind, n);
    m.gzip = c.index / gen::BULKS % 2 == 0;
    let k = gen::key(&mut r);
    judge(c, &m, &k, Some(true));
    c.seen_bytes(format!("bulk {} {} {}", kind % gen::BULKS, n, m.gzip).as_bytes());
    c.add("megabytes in one place", (n >> 20) as u64);
    c.sample(|| format!("{} bytes in place {}, gzip {}", n, kind % gen::BULKS, m.gzip));
}

/// Fields whose names are the same, or the same but for their case: all of them come back, or save refuses.
fn names(c: &mut Ctx) {
    use kpdb::{StringKey, StringValue};
    let mut r = c.rng();
    let m = base(&mut r);
    let k = gen::key(&mut r);
    let mut db = to_db(&m, &k.key());
    let mut e = kpdb::Entry::new();
    let std = ["Notes", "Password", "Title", "URL", "UserName"];
    let w = *r.pick(&std);
    let mut twice = false;
    let has = r.chance(3, 4);
    let val = |r: &mut Rng, i: usize| StringValue::new(format!("value {} {}", i, gen::text(r, false)), r.bool());
    if has {
        let v = val(&mut r, 0);
        e.strings.insert(skey(w), v);
    }
    for i in 1..2 + r.below(3) {
        let n = match r.below(4) {
            0 => w.to_string(),
            _ => gen::other_case(&mut r, w),
        };
        twice |= n == w && has;
        let v = val(&mut r, i);
        e.strings.insert(StringKey::Other(n), v);
    }
    if r.bool() {
        let h = e.clone();
        e.history.push(h);
        if r.bool() {
            e.strings.clear();
        }
    }
    let of = |e: &kpdb::Entry| -> Vec<(String, StringValue)> {
        let mut v: Vec<(String, StringValue)> = e.strings.iter().map(|(k, v)| (k.to_string().to_lowercase(), v.clone())).collect();
        v.sort_by_key(|x| format!("{:?} {}", x.0, match &x.1 {
            StringValue::Plain(s) => s.clone(),
            StringValue::Protected(b) => String::from_utf8_lossy(b.unsecure()).to_string(),
        }));
        v
    };
    db.root_group.entries.push(e.clone());
    c.eval();
    c.seen_bytes(format!("{:?}", e.strings.keys().map(|k| format!("{:?}", k)).collect::<std::collections::BTreeSet<_>>()).as_bytes());
    c.sample(|| format!("{:?}", e.strings.keys().collect::<Vec<_>>()));
    let f = match save(&db) {
        Err(p) => return c.fail(format!("save: {}", p)),
        Ok(Err(_)) if twice => return c.n("refused"),
        Ok(Err(x)) => return c.fail(format!("fields {:?} were refused: {}", e.strings.keys().collect::<Vec<_>>(), x)),
        Ok(Ok(f)) => f,
    };
    c.attach("kdbx", &f);
    let o = match must_open(&f, &k.key()) {
        Ok(o) => o,
        Err(x) => return c.fail(x),
    };
    let g = o.root_group.entries.last().unwrap();
    let all = |e: &kpdb::Entry| -> Vec<Vec<(String, StringValue)>> { std::iter::once(e).chain(&e.history).map(|e| of(e)).collect() };
    if all(&e) != all(g) {
        return c.fail(format!("fields {:?} came back as {:?}", e.strings.keys().collect::<Vec<_>>(), g.strings.keys().collect::<Vec<_>>()));
    }
    if has && std::iter::once(&e).chain(&e.history).zip(std::iter::once(g).chain(&g.history)).any(|(a, b)| a.strings.get(&skey(w)) != b.strings.get(&skey(w))) {
        return c.fail(format!("{} is another field's value", w));
    }
    c.n("accepted");
}
