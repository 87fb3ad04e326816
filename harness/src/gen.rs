//! Seeded generation of database models, texts, keys and edits.
use crate::model::*;
use crate::refcrypto as rc;
use crate::rng::Rng;
use kpdb::{CompositeKey, KeyFile, KeyFileType};
use secstr::SecStr;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    pub groups: usize,
    pub entries: usize,
    pub history: usize,
    pub fields: usize,
    pub long: bool,
    pub nested_history: bool,
}
pub const SMALL: Cfg =
    Cfg { depth: 3, groups: 3, entries: 3, history: 2, fields: 4, long: false, nested_history: false };
pub const TINY: Cfg =
    Cfg { depth: 1, groups: 2, entries: 2, history: 1, fields: 3, long: false, nested_history: false };
pub const MEDIUM: Cfg =
    Cfg { depth: 5, groups: 6, entries: 8, history: 4, fields: 6, long: true, nested_history: true };
pub const WIDE: Cfg =
    Cfg { depth: 2, groups: 40, entries: 60, history: 1, fields: 3, long: false, nested_history: false };

const UNI: &[char] = &[
    'é', 'ß', 'Σ', 'ς', 'İ', 'ı', 'Ж', '中', '日', 'ﬁ', '\u{301}', '\u{200d}', '\u{202e}', '\u{85}', '\u{a0}',
    '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '😀', '𝒳', '\u{7f}',
    '\u{80}', '\u{9f}', 'K', 'Å',
];
const SPECIALS: &[&str] = &[
    "<b>&amp;</b>", "]]>", "<![CDATA[x]]>", "\"quoted\" 'single'", "&#13;", "&lt;", "<!-- c -->", "<?pi?>", "true",
    "false", "null", "True", "0", "-1", "{USERNAME}{TAB}{PASSWORD}{ENTER}", "a&b", "1<2>0", "\\n", "%00", "../../etc",
    "http://example.com/?a=b&c=d#e", "C:\\x", "c3RyaW5n", "AAAA", "====", "#ff0000", "2020-01-01T00:00:00Z",
    "Notes", "Password", "]]", "&", "<", ">", "'", "\"", "&quot;&apos;", "4711", "0000", "12345678", "007", "+49 30 1234-5",
    "{REF:P@I:00112233445566778899AABBCCDDEEFF}", "otpauth://totp/x?secret=JBSWY3DPEHPK3PXP&period=30", "KP2A_URL", "otp",
    "TOTP Seed", "HmacOtp-Secret", "_etm_template", "AutoOpen", "Recycle Bin", "Backup", "Templates", "a;b,c", "me@example.com",
    "cmd://echo 1", "file:///tmp/x", "{\"a\": [1, null]}", "-----BEGIN KEY-----", "1,000", "0x1F", "1e9", "NaN", "yes", "no",
    "00112233-4455-6677-8899-aabbccddeeff", "2020-01-01 00:00:00 UTC", "a\u{301}", "\u{e1}", "***SECRET***", "Protected",
];
const WS: &[&str] =
    &[" ", "\t", "\n", "\r", "\r\n", "  ", " \n ", "\n\n", "\t\t", "\r\r", "\n\r", " \u{a0} ", "\u{2003}", "\u{3000}"];

fn ascii(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect()
}
fn uni(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| {
            if r.chance(1, 3) {
                (97 + r.below(26)) as u8 as char
            } else if r.bool() {
                *r.pick(UNI)
            } else {
                loop {
                    let c = char::from_u32(r.below(0x110000) as u32);
                    if let Some(c) = c {
                        if crate::refxml::is_xml_char(c) {
                            break c;
                        }
                    }
                }
            }
        })
        .collect()
}
/// Now and then a length around a power of two, the longer the rarer.
fn odd_len(r: &mut Rng) -> Option<usize> {
    if !r.chance(1, 60) {
        return None;
    }
    let k = 5 + r.below(12).min(r.below(12));
    Some((1usize << k) + r.below(3) - 1 + if r.chance(1, 4) { r.below(1 << k) } else { 0 })
}
/// Text that XML can carry.
pub fn text(r: &mut Rng, long: bool) -> String {
    if let Some(n) = odd_len(r) {
        return match r.below(4) {
            0 => uni(r, n / 3 + 1),
            1 => {
                let c = (97 + r.below(26)) as u8 as char;
                c.to_string().repeat(n)
            }
            _ => ascii(r, n),
        };
    }
    match r.below(24) {
        0..=3 => String::new(),
        4..=9 => {
            let n = 1 + r.below(16);
            ascii(r, n)
        }
        10..=12 => {
            let n = 1 + r.below(10);
            uni(r, n)
        }
        13 | 14 => (*r.pick(WS)).to_string(),
        15 => (*r.pick(SPECIALS)).to_string(),
        16 => match r.below(4) {
            // one alphabet only
            0 => (0..1 + r.below(10)).map(|_| (48 + r.below(10)) as u8 as char).collect(),
            1 => (0..1 + r.below(40)).map(|_| *r.pick(b"0123456789abcdef") as char).collect(),
            2 => (0..1 + r.below(24)).map(|_| *r.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567") as char).collect(),
            _ => (*r.pick(SPECIALS)).to_string(),
        },
        17 => format!("{}{}{}", r.pick(WS), ascii(r, 3), r.pick(WS)),
        18 => format!("{}{}{}", r.pick(SPECIALS), r.pick(WS), r.pick(SPECIALS)),
        19 => format!("line 1{}line 2{}{}", r.pick(WS), r.pick(WS), uni(r, 3)),
        20 => {
            let c = *r.pick(UNI);
            c.to_string()
        }
        21 if long => {
            let n = *r.pick(&[255usize, 256, 1000, 4095, 4096, 8192, 20000]);
            ascii(r, n)
        }
        22 if long => {
            let n = *r.pick(&[300usize, 2000, 5000]);
            uni(r, n)
        }
        _ => {
            let n = 1 + r.below(40);
            ascii(r, n)
        }
    }
}
pub fn word(r: &mut Rng) -> String {
    let n = 1 + r.below(8);
    (0..n).map(|_| (97 + r.below(26)) as u8 as char).collect()
}
pub fn blob(r: &mut Rng, long: bool) -> Vec<u8> {
    if let Some(n) = odd_len(r) {
        return if r.bool() { r.bytes(n) } else { vec![r.byte(); n] };
    }
    match r.below(8) {
        0 => vec![],
        1 => vec![r.byte()],
        2 => vec![0; r.below(50)],
        3 if long => {
            let n = *r.pick(&[1000usize, 4096, 65535, 65536, 70000]);
            if r.bool() {
                r.bytes(n)
            } else {
                (0..n).map(|i| (i / 7) as u8).collect()
            }
        }
        4 => ascii(r, 20).into_bytes(),
        _ => {
            let n = r.below(70);
            r.bytes(n)
        }
    }
}
pub fn date(r: &mut Rng) -> Tm {
    match r.below(12) {
        0 => Tm { s: 0, n: 0 },
        1 => Tm { s: -1 - r.below(2_000_000_000) as i64, n: r.below(1_000_000_000) as u32 },
        2 => Tm { s: 253402300799, n: 999_999_999 },
        3 => Tm { s: -62135596800, n: 0 },
        4 => Tm { s: 1_400_000_000 + r.below(400_000_000) as i64, n: 0 },
        5 => Tm { s: 1_400_000_000 + r.below(400_000_000) as i64, n: r.below(1000) as u32 * 1_000_000 },
        6 => Tm { s: 1_400_000_000 + r.below(400_000_000) as i64, n: r.below(1_000_000) as u32 * 1000 },
        7 => Tm { s: 1_400_000_000 + r.below(400_000_000) as i64, n: *r.pick(&[1, 10, 999_999_999, 100_000_000]) },
        // leap second
        8 => Tm { s: 1_483_228_799, n: 1_000_000_000 + *r.pick(&[0u32, 1, 500_000_000, 999_999_999]) },
        9 => Tm { s: 253402300800 + r.below(3_000_000_000) as i64, n: r.below(1_000_000_000) as u32 },
        _ => Tm { s: r.below(4_000_000_000) as i64, n: r.below(1_000_000_000) as u32 },
    }
}
/// Date as other programs write it: whole seconds, years 1 to 9999.
pub fn sdate(r: &mut Rng) -> Tm {
    let d = date(r);
    Tm { s: d.s.clamp(-62135596800, 253402300799), n: 0 }
}
pub fn id(r: &mut Rng) -> Id {
    match r.below(20) {
        0 => NIL,
        1 => [0xff; 16],
        2 => {
            let mut a = [0; 16];
            a[r.below(16)] = r.byte();
            a
        }
        _ => r.arr(),
    }
}
fn i32v(r: &mut Rng) -> i32 {
    match r.below(8) {
        0 => 0,
        1 => -1,
        2 => i32::MAX,
        3 => i32::MIN,
        4 => r.u64() as i32,
        _ => r.below(100000) as i32,
    }
}
fn colour(r: &mut Rng) -> Option<[u8; 3]> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some([0, 0, 0]),
        3 => Some([255, 255, 255]),
        4 => Some([r.below(16) as u8, r.below(16) as u8, r.below(16) as u8]),
        _ => Some(r.arr()),
    }
}
fn tri(r: &mut Rng) -> Option<bool> {
    *r.pick(&[None, Some(true), Some(false)])
}
pub fn times(r: &mut Rng) -> MTimes {
    MTimes {
        creation: date(r),
        expiry: date(r),
        expires: r.bool(),
        access: date(r),
        modif: date(r),
        loc: date(r),
        usage: i32v(r),
    }
}
pub fn field_name(r: &mut Rng, long: bool) -> String {
    loop {
        let s = match r.below(4) {
            0 => format!("Field {}", r.below(5)),
            1 => word(r),
            _ => {
                let l = long && r.chance(1, 10);
                text(r, l)
            }
        };
        if !["Notes", "Password", "Title", "URL", "UserName"].iter().any(|k| s.eq_ignore_ascii_case(k)) {
            return s;
        }
    }
}
/// Another spelling of a name, in letter case only.
pub fn other_case(r: &mut Rng, name: &str) -> String {
    loop {
        let s: String = match r.below(3) {
            0 => name.to_ascii_lowercase(),
            1 => name.to_ascii_uppercase(),
            _ => name.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
        };
        if s != name {
            return s;
        }
    }
}
/// Custom fields named like the well-known field beside them, in another case.
pub fn variants(r: &mut Rng, g: &mut MGroup) {
    fn entry(r: &mut Rng, e: &mut MEntry) {
        for k in ["Notes", "Password", "Title", "URL", "UserName"] {
            if e.strings.contains_key(k) && r.bool() {
                for _ in 0..1 + r.below(2) {
                    let n = other_case(r, k);
                    let p = r.bool();
                    let v = strval(r, p, false);
                    e.strings.insert(n, v);
                }
            }
        }
        for h in e.history.iter_mut() {
            entry(r, h);
        }
    }
    for e in g.entries.iter_mut() {
        entry(r, e);
    }
    for s in g.groups.iter_mut() {
        variants(r, s);
    }
}
pub fn strval(r: &mut Rng, prot: bool, long: bool) -> MStr {
    let t = text(r, long);
    if prot {
        if r.chance(1, 6) {
            // enciphered text may hold characters XML could not carry
            let mut t = t;
            t.push(*r.pick(&['\0', '\u{1}', '\u{fffe}', '\u{ffff}', '\u{b}']));
            return MStr::Prot(t.into_bytes());
        }
        MStr::Prot(t.into_bytes())
    } else {
        MStr::Plain(t)
    }
}
/// A number below `n`, once in `rare` cases a larger one.
fn many(r: &mut Rng, n: usize, rare: usize, big: usize) -> usize {
    if r.chance(1, rare) {
        r.below(big)
    } else {
        r.below(n)
    }
}
pub fn entry(r: &mut Rng, c: &Cfg, pool: &[String], hist: usize) -> MEntry {
    let mut strings = BTreeMap::new();
    for k in ["Notes", "Password", "Title", "URL", "UserName"] {
        if r.chance(2, 3) {
            let p = if k == "Password" { r.chance(4, 5) } else { r.chance(1, 4) };
            strings.insert(k.to_string(), strval(r, p, c.long));
        }
    }
    let nf = many(r, c.fields + 1, 80, 60);
    for _ in 0..nf {
        let p = r.chance(1, 3);
        strings.insert(field_name(r, c.long), strval(r, p, c.long));
    }
    let mut bins = BTreeMap::new();
    if r.chance(1, 2) {
        let nb = many(r, c.fields, 80, 40);
        for _ in 0..nb {
            let k = match r.below(3) {
                0 => text(r, false),
                _ => format!("{}.{}", word(r), word(r)),
            };
            let v = match r.below(3) {
                0 => MBin::Plain(blob(r, c.long)),
                1 => MBin::Prot(blob(r, c.long)),
                _ if !pool.is_empty() => MBin::Ref(r.pick(pool).clone()),
                _ => MBin::Ref(r.below(10).to_string()),
            };
            bins.insert(k, v);
        }
    }
    let mut history = vec![];
    if hist > 0 {
        let nh = if c.history > 0 { many(r, c.history + 1, 60, 40) } else { 0 };
        for _ in 0..nh {
            let h = if c.nested_history && r.chance(1, 4) { hist - 1 } else { 0 };
            history.push(entry(r, c, pool, h));
        }
    }
    let na = if r.chance(1, 3) { many(r, 4, 40, 40) } else { 0 };
    MEntry {
        uuid: id(r),
        parent: if r.chance(1, 3) { id(r) } else { NIL },
        assoc: (0..na).map(|_| (text(r, false), text(r, false))).collect(),
        at_seq: text(r, false),
        at_enabled: r.bool(),
        at_obf: r.below(2) as i32,
        bg: colour(r),
        fg: colour(r),
        bins,
        icon: r.below(69) as i32,
        cicon: if r.chance(1, 3) { Some(id(r)) } else { None },
        history,
        url: text(r, false),
        strings,
        tags: text(r, false),
        times: times(r),
    }
}
pub fn group(r: &mut Rng, c: &Cfg, depth: usize, pool: &[String], budget: &mut usize) -> MGroup {
    let ne = r.below(c.entries + 1);
    let ng = if depth > 0 { r.below(c.groups + 1) } else { 0 };
    let mut entries = vec![];
    for _ in 0..ne {
        if *budget > 0 {
            *budget -= 1;
            entries.push(entry(r, c, pool, 2));
        }
    }
    let mut groups = vec![];
    for _ in 0..ng {
        if *budget > 0 {
            *budget -= 1;
            groups.push(group(r, c, depth - 1, pool, budget));
        }
    }
    MGroup {
        uuid: id(r),
        parent: if r.chance(1, 3) { id(r) } else { NIL },
        cicon: if r.chance(1, 3) { Some(id(r)) } else { None },
        at_seq: text(r, false),
        en_at: tri(r),
        en_search: tri(r),
        entries,
        groups,
        icon: r.below(69) as i32,
        expanded: r.bool(),
        top: id(r),
        name: text(r, c.long),
        notes: text(r, c.long),
        times: times(r),
    }
}
/// What fits into the header field.
pub fn comment(mut b: Vec<u8>) -> Vec<u8> {
    b.truncate(65535);
    b
}
/// A text like the one given, but another one.
pub fn near(r: &mut Rng, s: &str) -> String {
    let flip = |s: &str, up: bool| if up { s.to_uppercase() } else { s.to_lowercase() };
    let mut t = match r.below(8) {
        0 => format!("{} ", s),
        1 => format!(" {}", s),
        2 => flip(s, true),
        3 => flip(s, false),
        4 => format!("{}1", s),
        5 => format!("{}\u{301}", s),
        6 => {
            let mut t = s.to_string();
            t.pop();
            t
        }
        _ => format!("{}{}", s, s),
    };
    if t == s {
        t.push('_');
    }
    t
}
fn known(name: &str) -> bool {
    ["Notes", "Password", "Title", "URL", "UserName"].iter().any(|k| k.to_lowercase() == name.to_lowercase())
}
fn groups_of(g: &MGroup, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(p.clone());
    for (i, s) in g.groups.iter().enumerate() {
        p.push(i);
        groups_of(s, p, out);
        p.pop();
    }
}
pub fn size_of(g: &MGroup) -> usize {
    1 + g.entries.len() + g.groups.iter().map(size_of).sum::<usize>()
}
/// Coincidences: items, texts and values that equal or resemble each other, links to what is there.
pub fn echo(r: &mut Rng, m: &mut MDb) {
    fn ids(g: &MGroup, gs: &mut Vec<Id>, es: &mut Vec<Id>) {
        gs.push(g.uuid);
        es.extend(g.entries.iter().map(|e| e.uuid));
        g.groups.iter().for_each(|s| ids(s, gs, es));
    }
    let (mut gids, mut eids) = (vec![], vec![]);
    ids(&m.root, &mut gids, &mut eids);
    for _ in 0..1 + r.below(5) {
        let mut paths = vec![];
        groups_of(&m.root, &mut vec![], &mut paths);
        let p = r.pick(&paths).clone();
        let p2 = r.pick(&paths).clone();
        let (mut g, mut other) = (&mut m.root, None);
        let kind = r.below(22);
        if kind == 3 {
            // a copy of a whole subtree somewhere else
            let mut s = &*g;
            for &i in &p2 {
                s = &s.groups[i];
            }
            if size_of(s) < 12 {
                other = Some(s.clone());
            }
        }
        for &i in &p {
            g = &mut g.groups[i];
        }
        if let Some(o) = other {
            if p.len() < 20 {
                g.groups.push(o);
            }
            continue;
        }
        match kind {
            0 | 1 if !g.entries.is_empty() => {
                let i = r.below(g.entries.len());
                let e = g.entries[i].clone();
                let at = if kind == 0 { i + 1 } else { g.entries.len() };
                g.entries.insert(at, e);
            }
            2 if !g.groups.is_empty() => {
                let i = r.below(g.groups.len());
                if size_of(&g.groups[i]) < 12 {
                    let s = g.groups[i].clone();
                    let at = if r.bool() { i + 1 } else { g.groups.len() };
                    g.groups.insert(at, s);
                }
            }
            4 => g.uuid = *r.pick(&gids),
            5 if !g.entries.is_empty() => {
                let i = r.below(g.entries.len());
                g.entries[i].uuid = if r.bool() && !eids.is_empty() { *r.pick(&eids) } else { g.uuid };
            }
            6 => g.top = if eids.is_empty() { NIL } else { *r.pick(&eids) },
            7 => {
                m.rb = *r.pick(&gids);
                m.rb_en = r.bool();
            }
            8 => m.tmpl = *r.pick(&gids),
            9 => {
                m.last_sel = *r.pick(&gids);
                m.last_top = *r.pick(&gids);
            }
            10 => {
                let t = m.name.clone();
                match r.below(3) {
                    0 => m.descr = t,
                    1 => m.def_user = t,
                    _ => g.name = t,
                }
            }
            11 => {
                let k: Vec<String> = m.custom_data.keys().cloned().collect();
                if !k.is_empty() {
                    let (k, v) = (near(r, &k[0]), m.custom_data[&k[0]].clone());
                    m.custom_data.insert(k, v);
                }
            }
            12 => {
                let k: Vec<String> = m.binaries.keys().cloned().collect();
                if !k.is_empty() {
                    let (k, v) = (near(r, &k[0]), m.binaries[&k[0]].clone());
                    m.binaries.insert(k, v);
                }
            }
            13 => {
                let d = m.name_ch;
                g.times = MTimes { creation: d, expiry: d, access: d, modif: d, loc: d, ..g.times.clone() };
            }
            14 => {
                g.notes = g.name.clone();
                g.at_seq = g.name.clone();
            }
            _ if !g.entries.is_empty() => {
                let i = r.below(g.entries.len());
                let e = &mut g.entries[i];
                match kind {
                    15 => e.fg = e.bg,
                    16 => {
                        let a = e.times.clone();
                        e.times = MTimes { creation: a.modif, expiry: a.modif, access: a.modif, loc: a.modif, ..a };
                    }
                    17 if !e.assoc.is_empty() => {
                        let a = r.pick(&e.assoc).clone();
                        let at = r.below(e.assoc.len() + 1);
                        e.assoc.insert(at, a);
                    }
                    18 => {
                        let h = MEntry { history: vec![], ..e.clone() };
                        for _ in 0..1 + r.below(2) {
                            e.history.push(h.clone());
                        }
                    }
                    19 => {
                        // one text everywhere
                        let t = text(r, false);
                        for v in e.strings.values_mut() {
                            *v = match v {
                                MStr::Plain(_) => MStr::Plain(t.clone()),
                                MStr::Prot(_) => MStr::Prot(t.clone().into_bytes()),
                            };
                        }
                        e.url = t.clone();
                        e.tags = t;
                    }
                    20 => {
                        let k: Vec<String> = e.strings.keys().filter(|k| !known(k)).cloned().collect();
                        if !k.is_empty() {
                            let (n, v) = (near(r, &k[0]), e.strings[&k[0]].clone());
                            if !known(&n) {
                                e.strings.insert(n, v);
                            }
                        }
                    }
                    _ => {
                        let k: Vec<String> = e.bins.keys().cloned().collect();
                        if !k.is_empty() {
                            let (n, v) = (near(r, &k[0]), e.bins[&k[0]].clone());
                            e.bins.insert(n, v);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
pub fn db(r: &mut Rng, c: &Cfg) -> MDb {
    let mut m = plain_db(r, c);
    if r.bool() {
        echo(r, &mut m);
    }
    m
}
fn plain_db(r: &mut Rng, c: &Cfg) -> MDb {
    let mut binaries = BTreeMap::new();
    if r.chance(1, 2) {
        let n = many(r, 5, 50, 300);
        for i in 0..n {
            let k = match r.below(4) {
                0 => text(r, false),
                _ => i.to_string(),
            };
            binaries.insert(k, blob(r, c.long));
        }
    }
    let pool: Vec<String> = binaries.keys().cloned().collect();
    let mut custom_data = BTreeMap::new();
    let mut icons = BTreeMap::new();
    if r.bool() {
        let n = many(r, 4, 50, 100);
        for _ in 0..n {
            custom_data.insert(text(r, false), text(r, c.long));
        }
        for _ in 0..r.below(4) {
            icons.insert(id(r), blob(r, c.long));
        }
    }
    let mut budget = if c.long { 60 } else { 120 };
    MDb {
        comment: match r.below(5) {
            0 => Some(comment(blob(r, false))),
            1 => Some(comment(text(r, false).into_bytes())),
            2 if c.long => {
                let n = *r.pick(&[65535usize, 65534, 256, 255]);
                Some(r.bytes(n))
            }
            _ => None,
        },
        gzip: r.bool(),
        rounds: *r.pick(&[0u64, 1, 2, 3, 5, 8, 33]),
        version: *r.pick(&[(3u16, 1u16), (3, 1), (3, 1), (3, 0), (2, 20)]),
        binaries,
        color: colour(r),
        custom_data,
        icons,
        def_user: text(r, c.long),
        def_user_ch: date(r),
        descr: text(r, c.long),
        descr_ch: date(r),
        tmpl_ch: date(r),
        tmpl: id(r),
        generator: text(r, false),
        hist_items: i32v(r),
        hist_size: i32v(r),
        last_sel: id(r),
        last_top: id(r),
        maint: i32v(r),
        mk_force: i32v(r),
        mk_rec: i32v(r),
        mk_ch: date(r),
        name: text(r, c.long),
        name_ch: date(r),
        p_notes: r.bool(),
        p_pass: r.bool(),
        p_title: r.bool(),
        p_url: r.bool(),
        p_user: r.bool(),
        rb_ch: date(r),
        rb_en: r.bool(),
        rb: id(r),
        root: group(r, c, c.depth, &pool, &mut budget),
    }
}
/// A model of mixed size.
pub fn any_db(r: &mut Rng) -> MDb {
    let c = match r.below(12) {
        0 => MEDIUM,
        1 => WIDE,
        2..=5 => SMALL,
        _ => TINY,
    };
    db(r, &c)
}
/// Sizes around the powers of two and the round numbers buffers and limits are made of.
pub fn bulk_size(r: &mut Rng, top: usize) -> usize {
    let b = *r.pick(&[1usize << 16, 1 << 18, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1_000_000, 10_000_000, 1 << 25, 1 << 26]);
    (b.min(top) + r.below(9)).saturating_sub(4)
}
pub const BULKS: usize = 16;
/// A small database with about `n` bytes in one place.
pub fn bulk(r: &mut Rng, kind: usize, n: usize) -> MDb {
    let mut m = db(r, &Cfg { history: 1, ..TINY });
    m.rounds = 1;
    let mut e = entry(r, &Cfg { history: 0, ..TINY }, &[], 1);
    e.history.push(entry(r, &Cfg { history: 0, ..TINY }, &[], 0));
    let chunk = r.bytes(4096 + r.clone().below(777));
    let style = r.below(3);
    let bytes = |r: &mut Rng| -> Vec<u8> {
        match style {
            0 => r.bytes(n),
            1 => vec![b'x'; n],
            _ => chunk.iter().cycle().take(n).cloned().collect(),
        }
    };
    let text = |r: &mut Rng| -> String {
        let mut s = String::with_capacity(n + 8);
        let al: Vec<char> = match style {
            0 => "abcdefghijklmnopqrstuvwxyz0123456789 \n<&>\"'\r\t\u{e9}\u{4e2d}\u{1f600}".chars().collect(),
            1 => vec!['x'],
            _ => (0..64).map(|i| (b'0' + i) as char).collect(),
        };
        let mut i = 0;
        while s.len() < n {
            s.push(if style == 0 { *r.pick(&al) } else { al[(i + i / 997) % al.len()] });
            i += 1;
        }
        s
    };
    match kind % BULKS {
        0 => drop(m.binaries.insert("bulk".into(), bytes(r))),
        1 => drop(e.bins.insert("bulk".into(), MBin::Plain(bytes(r)))),
        2 => drop(e.bins.insert("bulk".into(), MBin::Prot(bytes(r)))),
        3 => drop(e.strings.insert("Notes".into(), MStr::Plain(text(r)))),
        4 => drop(e.strings.insert("Password".into(), MStr::Prot(text(r).into_bytes()))),
        5 => drop(m.icons.insert(id(r), bytes(r))),
        6 => m.root.notes = text(r),
        7 => m.descr = text(r),
        8 => drop(m.custom_data.insert("bulk".into(), text(r))),
        9 => e.tags = text(r),
        10 => drop(e.history[0].bins.insert("bulk".into(), MBin::Prot(bytes(r)))),
        11 => drop(e.history[0].strings.insert("Notes".into(), MStr::Plain(text(r)))),
        12 => {
            // one entry of many fields
            for i in 0..(n / 300).min(20_000) {
                let p = r.chance(1, 3);
                e.strings.insert(format!("field {}", i), strval(r, p, false));
            }
        }
        13 => {
            for i in 0..(n / 4000).min(4000) {
                let mut x = entry(r, &Cfg { history: 0, fields: 2, ..TINY }, &[], 0);
                x.strings.insert("Title".into(), MStr::Plain(format!("entry {}", i)));
                m.root.entries.push(x);
            }
        }
        14 => {
            for _ in 0..(n / 4000).min(2000) {
                let h = entry(r, &Cfg { history: 0, fields: 2, ..TINY }, &[], 0);
                e.history.push(h);
            }
        }
        _ => {
            for i in 0..(n / 400).min(8000) {
                let k = r.below(200);
                m.binaries.insert(format!("pool {}", i), r.bytes(k));
            }
        }
    }
    m.root.entries.push(e);
    // something after the big part
    m.root.entries.push(entry(r, &Cfg { history: 0, ..TINY }, &[], 1));
    m
}
/// Chain of groups `depth` deep with an entry at every level.
pub fn chain(r: &mut Rng, depth: usize) -> MGroup {
    let mut g: Option<MGroup> = None;
    for _ in 0..depth {
        let mut b = 2;
        let mut p = group(r, &Cfg { groups: 0, entries: 1, fields: 1, history: 0, ..TINY }, 0, &[], &mut b);
        if let Some(c) = g {
            p.groups.push(c);
        }
        g = Some(p);
    }
    g.unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct KeySpec {
    pub pw: Option<String>,
    pub kf: Option<Vec<u8>>,
}
impl KeySpec {
    pub fn pw(s: &str) -> KeySpec {
        KeySpec { pw: Some(s.into()), kf: None }
    }
    pub fn key(&self) -> CompositeKey {
        let kf = self.kf.as_ref().map(|k| KeyFile { key: SecStr::new(k.clone()), file_type: KeyFileType::Binary });
        match (&self.pw, kf) {
            (Some(p), Some(k)) => CompositeKey::from_both(p.clone(), k),
            (Some(p), None) => CompositeKey::from_password(p.clone()),
            (None, Some(k)) => CompositeKey::from_key_file(k),
            (None, None) => CompositeKey::from_password(""),
        }
    }
    /// Composite key bytes by the independent implementation.
    pub fn comp(&self) -> [u8; 32] {
        let p = if self.pw.is_none() && self.kf.is_none() { Some("") } else { self.pw.as_deref() };
        rc::composite(p.map(|p| p.as_bytes()), self.kf.as_deref())
    }
}
pub fn key(r: &mut Rng) -> KeySpec {
    let pw = text(r, true);
    let kf = r.arr::<32>().to_vec();
    match r.below(4) {
        0 => KeySpec { pw: None, kf: Some(kf) },
        1 => KeySpec { pw: Some(pw), kf: Some(kf) },
        _ => KeySpec { pw: Some(pw), kf: None },
    }
}
