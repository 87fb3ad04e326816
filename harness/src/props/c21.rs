//! Setters and getters of entries, against a map.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{Entry, StringKey, StringValue};
use secstr::SecStr;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "A case is one sequence of setter calls and direct insertions on an entry that may hold anything before; after every \
               call all getters, the class of the values set and everything else of the entry are compared with a map of what was \
               set last; field names are checked for their identity separately; distinct by sequence or name.",
        sections: vec![
            Section { name: "sequence", quick: 20_000, thorough: 300_000, f: sequence },
            Section { name: "names", quick: 20_000, thorough: 300_000, f: names },
            Section { name: "cases", quick: 1, thorough: 1, f: cases },
            Section { name: "unicode", quick: 1, thorough: 1, f: unicode },
            Section { name: "saved", quick: 1500, thorough: 20_000, f: saved },
        ],
        need: &[
            ("setter calls", 50_000),
            ("values read back", 300_000),
            ("overwritten values", 5_000),
            ("protected values read", 20_000),
            ("names of well-known fields in other case", 500),
            ("names close to well-known ones", 2_000),
            ("names that differ in one look-alike letter", 600),
            ("entries read after saving and opening", 1_000),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
const WELL: [&str; 5] = ["Notes", "Password", "Title", "URL", "UserName"];
fn key_of(name: &str) -> StringKey {
    skey(name)
}
/// Names for custom fields; some nearly well-known.
fn other_name(r: &mut Rng) -> String {
    match r.below(3) {
        0 => near(r),
        _ => gen::field_name(r, false),
    }
}
fn near(r: &mut Rng) -> String {
    loop {
        let w = *r.pick(&WELL);
        let mut v: Vec<char> = w.chars().collect();
        match r.below(8) {
            0 => v.push(' '),
            1 => v.insert(0, ' '),
            2 => {
                v.pop();
            }
            3 => {
                let i = r.below(v.len());
                v.remove(i);
            }
            4 => {
                let i = r.below(v.len());
                v.insert(i, *r.pick(&['x', '\u{301}', '\u{200b}', '_', '\t', '2']));
            }
            5 => {
                let i = r.below(v.len());
                v[i] = *r.pick(&['x', 'é', '0', '\u{ff55}', 'ü']);
            }
            6 => {
                let v2 = v.clone();
                v.extend(v2);
            }
            _ => v = format!("{}{}", r.pick(&WELL), r.pick(&WELL)).chars().collect(),
        }
        let s: String = v.into_iter().collect();
        if !WELL.iter().any(|k| s.eq_ignore_ascii_case(k)) {
            return s;
        }
    }
}
/// Texts, NUL and non-XML characters included: the setters take any string.
fn any_text(r: &mut Rng) -> String {
    let mut t = gen::text(r, true);
    if r.chance(1, 10) {
        t.push(*r.pick(&['\0', '\u{1}', '\u{ffff}', '\u{b}']));
    }
    t
}
fn getters(e: &Entry) -> [Option<&str>; 5] {
    [e.notes(), e.password(), e.title(), e.url(), e.username()]
}
fn check(c: &mut Ctx, e: &Entry, m: &MEntry) -> Result<(), String> {
    let text = |k: &str| -> Option<&str> {
        match m.strings.get(k) {
            Some(MStr::Plain(s)) => Some(s),
            Some(MStr::Prot(b)) => std::str::from_utf8(b).ok(),
            None => None,
        }
    };
    for (k, got) in WELL.iter().zip(getters(e)) {
        if got != text(k) {
            return Err(format!("the getter of {} gives {:?} instead of {:?}", k, got, text(k)));
        }
        if e.other(key_of(k)) != text(k) {
            return Err(format!("other({}) gives {:?} instead of {:?}", k, e.other(key_of(k)), text(k)));
        }
        c.add("values read back", 2);
    }
    for (k, v) in &m.strings {
        if e.other(key_of(k)) != text(k) {
            return Err(format!("other({:?}) gives {:?} instead of {:?}", k, e.other(key_of(k)), text(k)));
        }
        c.n("values read back");
        if let MStr::Prot(_) = v {
            c.n("protected values read");
        }
    }
    if e.strings.len() != m.strings.len() {
        return Err(format!("the entry has {} fields instead of {}", e.strings.len(), m.strings.len()));
    }
    if from_entry(e) != *m {
        let d = from_entry(e);
        for (k, v) in &m.strings {
            if d.strings.get(k) != Some(v) {
                return Err(format!("field {:?} is {:?} instead of {:?}", k, d.strings.get(k), v));
            }
        }
        return Err("something other than the field set has changed".into());
    }
    Ok(())
}
fn absent(e: &Entry, m: &MEntry, n: &str) -> Result<(), String> {
    if !m.strings.contains_key(n) && e.other(key_of(n)).is_some() {
        return Err(format!("other({:?}) gives {:?} though it was never set", n, e.other(key_of(n))));
    }
    Ok(())
}
/// Applies one setter to both; what it did.
fn set(c: &mut Ctx, r: &mut Rng, e: &mut Entry, m: &mut MEntry, xml: bool) -> String {
    let t = if xml { gen::text(r, true) } else { any_text(r) };
    let op = r.below(12);
    let (name, v): (String, MStr) = match op {
        0 => ("Notes".into(), MStr::Plain(t.clone())),
        1 | 2 => ("Password".into(), MStr::Prot(t.clone().into_bytes())),
        3 => ("Title".into(), MStr::Plain(t.clone())),
        4 => ("URL".into(), MStr::Plain(t.clone())),
        5 => ("UserName".into(), MStr::Plain(t.clone())),
        6..=8 => {
            let n = match r.chance(1, 4) {
                true => (*r.pick(&["Notes", "Title", "URL", "UserName"])).to_string(),
                false if !m.strings.is_empty() && r.chance(1, 3) => {
                    let v: Vec<String> = m.strings.keys().filter(|k| *k != "Password").cloned().collect();
                    if v.is_empty() {
                        "a".into()
                    } else {
                        r.pick(&v).clone()
                    }
                }
                false => other_name(r),
            };
            (n, MStr::Plain(t.clone()))
        }
        _ => {
            let n = match r.bool() {
                true => (*r.pick(&WELL)).to_string(),
                false => other_name(r),
            };
            let v = match r.below(3) {
                0 => MStr::Plain(t.clone()),
                _ => MStr::Prot(t.clone().into_bytes()),
            };
            (n, v)
        }
    };
    c.n("setter calls");
    if m.strings.contains_key(&name) {
        c.n("overwritten values");
    }
    match op {
        0 => e.set_notes(t.as_str()),
        1 | 2 => {
            if r.bool() {
                e.set_password(t)
            } else {
                e.set_password(t.as_str())
            }
        }
        3 => e.set_title(t),
        4 => e.set_url(t),
        5 => e.set_username(t.as_str()),
        6..=8 => e.set_other(
            match r.bool() {
                true => StringKey::from_string(&name),
                false => key_of(&name),
            },
            t,
        ),
        _ => {
            e.strings.insert(
                key_of(&name),
                match &v {
                    MStr::Plain(s) => match r.bool() {
                        true => StringValue::new(s.clone(), false),
                        false => StringValue::Plain(s.clone()),
                    },
                    MStr::Prot(b) => match r.bool() {
                        true => StringValue::new(String::from_utf8(b.clone()).unwrap(), true),
                        false => StringValue::Protected(SecStr::new(b.clone())),
                    },
                },
            );
        }
    }
    m.strings.insert(name.clone(), v);
    format!("{} {}", op, name)
}
fn start(r: &mut Rng) -> (Entry, MEntry) {
    match r.below(3) {
        0 => {
            let e = Entry::new();
            let m = from_entry(&e);
            (e, m)
        }
        1 => {
            let mut m = gen::entry(r, &gen::TINY, &[], 1);
            m.strings.clear();
            (to_entry(&m), m)
        }
        _ => {
            let m = gen::entry(r, &gen::SMALL, &[], 2);
            (to_entry(&m), m)
        }
    }
}
fn sequence(c: &mut Ctx) {
    let mut r = c.rng();
    let (mut e, mut m) = start(&mut r);
    let n = r.range(1, 12);
    let mut log = vec![];
    for k in 0..n {
        c.eval();
        log.push(set(c, &mut r, &mut e, &mut m, false));
        let a = other_name(&mut r);
        if let Err(x) = check(c, &e, &m).and_then(|_| absent(&e, &m, &a)) {
            return c.fail(format!("after call {} of {:?}: {}", k, log, x));
        }
        if r.chance(1, 8) {
            // a copy is independent
            let keep = e.clone();
            let km = m.clone();
            set(c, &mut r, &mut e, &mut m, false);
            if let Err(x) = check(c, &keep, &km) {
                return c.fail(format!("setting a field of a copy: {}", x));
            }
        }
    }
    c.sample(|| format!("{:?}", log));
    c.seen_bytes(format!("{:?}", log).as_bytes());
}
fn ident(c: &mut Ctx, s: &str) {
    c.eval();
    c.seen_bytes(s.as_bytes());
    let k = StringKey::from_string(s);
    let well = WELL.iter().find(|w| s.eq_ignore_ascii_case(w));
    let want = match well {
        Some(w) => key_of(w),
        None => StringKey::Other(s.to_string()),
    };
    if k != want {
        return c.fail(format!("from_string({:?}) gives {:?}", s, k));
    }
    let back = k.to_string();
    let std = well.map_or(s, |w| *w);
    if back != std {
        return c.fail(format!("{:?} becomes {:?} and back {:?}", s, k, back));
    }
    if StringKey::from_string(&back) != k {
        return c.fail(format!("{:?} is not kept by a second conversion", s));
    }
    match well {
        Some(w) if *w != s => c.n("names of well-known fields in other case"),
        Some(_) => {}
        None => c.n("names of other fields"),
    }
    // and as a field of an entry
    let mut e = Entry::new();
    e.set_other(StringKey::from_string(s), "v");
    let got = getters(&e).iter().filter(|g| g.is_some()).count();
    if got != well.is_some() as usize || e.other(want) != Some("v") || e.strings.len() != 1 {
        c.fail(format!("set_other({:?}) sets another field", s));
    }
}
fn names(c: &mut Ctx) {
    let mut r = c.rng();
    match r.below(4) {
        0 => {
            // any mix of case
            let w = *r.pick(&WELL);
            let s: String = w.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect();
            ident(c, &s);
        }
        1 | 2 => {
            let s = near(&mut r);
            c.n("names close to well-known ones");
            ident(c, &s);
        }
        _ => {
            let s = gen::field_name(&mut r, true);
            ident(c, &s);
        }
    }
}
/// Every mix of upper and lower case of every well-known name.
fn cases(c: &mut Ctx) {
    for w in WELL {
        for mask in 0..1u32 << w.len() {
            let s: String = w
                .chars()
                .enumerate()
                .map(|(i, x)| if mask >> i & 1 == 1 { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() })
                .collect();
            ident(c, &s);
        }
    }
    for s in ["", " ", "Name", "User", "Pass", "User Name", "Url ", "note", "titel", "KPRPC JSON", "otp", "HmacOtp-Secret", "username\0"] {
        ident(c, s);
    }
}
/// Every character whose upper-case, lower-case or compatibility form is an ASCII letter, in the place of that letter:
/// these are other names.
fn unicode(c: &mut Ctx) {
    let mut like: Vec<(char, char)> = vec![];
    for x in (0x80..0x3_0000u32).filter_map(char::from_u32) {
        for m in x.to_uppercase().chain(x.to_lowercase()).chain(x.to_uppercase().flat_map(|y| y.to_lowercase())) {
            if m.is_ascii_alphabetic() {
                like.push((x, m.to_ascii_lowercase()));
            }
        }
    }
    for l in 'a'..='z' {
        let i = l as u32 - 'a' as u32;
        // full-width, circled, mathematical and small-capital letters
        for base in [0xff21u32, 0xff41, 0x24b6, 0x24d0, 0x1d400, 0x1d41a, 0x1f130] {
            like.push((char::from_u32(base + i).unwrap(), l));
        }
    }
    for (x, l) in [('\u{e0}', 'a'), ('\u{e9}', 'e'), ('\u{ee}', 'i'), ('\u{f1}', 'n'), ('\u{f3}', 'o'), ('\u{fc}', 'u'), ('\u{430}', 'a'), ('\u{435}', 'e'), ('\u{43e}', 'o'), ('\u{440}', 'p'), ('\u{455}', 's'), ('\u{456}', 'i')] {
        like.push((x, l));
    }
    like.sort();
    like.dedup();
    for (x, l) in like {
        for w in WELL {
            for (i, y) in w.char_indices() {
                if y.to_ascii_lowercase() != l {
                    continue;
                }
                for v in [w.to_string(), w.to_lowercase(), w.to_uppercase()] {
                    let s = format!("{}{}{}", &v[..i], x, &v[i + 1..]);
                    // the library folds with the lower-case mapping of Unicode; what is the same under it is not judged
                    if WELL.iter().any(|k| k.to_lowercase() == s.to_lowercase()) {
                        continue;
                    }
                    c.n("names that differ in one look-alike letter");
                    ident(c, &s);
                }
            }
        }
    }
}
/// Fields set through the setters, read through the getters after saving and opening.
fn saved(c: &mut Ctx) {
    let mut r = c.rng();
    let key = gen::KeySpec::pw("x").key();
    let mut db = kpdb::Database::new(&key);
    db.transform_rounds.0 = 1;
    let mut ms = vec![];
    for _ in 0..r.range(1, 5) {
        let (mut e, mut m) = (Entry::new(), MEntry { ..from_entry(&Entry::new()) });
        m.uuid = *e.uuid.0.as_bytes();
        m = MEntry { strings: m.strings, ..from_entry(&e) };
        for _ in 0..r.range(1, 8) {
            set(c, &mut r, &mut e, &mut m, true);
        }
        db.root_group.add_entry(e);
        ms.push(m);
    }
    c.eval();
    let u = *db.root_group.uuid.0.as_bytes();
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.seen_bytes(format!("{:?}", ms.iter().map(|m| &m.strings).collect::<Vec<_>>()).as_bytes());
    let d = match must_open(&f, &key) {
        Ok(d) => d,
        Err(e) => return c.fail(e),
    };
    if d.root_group.entries.len() != ms.len() {
        return c.fail("entries are missing");
    }
    for (e, m) in d.root_group.entries.iter().zip(ms.iter_mut()) {
        m.parent = u;
        c.n("entries read after saving and opening");
        if let Err(x) = check(c, e, m) {
            return c.fail(format!("after saving and opening: {}", x));
        }
    }
}
