//! Conversions of colours and of icon and obfuscation codes, exhaustively where possible.
use crate::ctx::*;
use crate::rng::Rng;
use kpdb::{Color, ColorError, Icon, Obfuscation};

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "Every one of the 2^24 colours is printed and parsed (in lower, upper and mixed case), every one of the 2^32 integers \
               is given to both code conversions, and damaged colour strings are judged by an independent reading of the format; \
               distinct by block of values or string.",
        sections: vec![
            Section { name: "colours", quick: 256, thorough: 256, f: colours },
            Section { name: "integers", quick: 512, thorough: 512, f: integers },
            Section { name: "codes", quick: 1, thorough: 1, f: codes },
            Section { name: "strings", quick: 20_000, thorough: 400_000, f: strings },
            Section { name: "chars", quick: 0x1100, thorough: 0x1100, f: chars },
        ],
        need: &[
            ("colours round trip", 1 << 24),
            ("integers given to both conversions", 1 << 32),
            ("strings refused", 100_000),
            ("strings accepted", 20_000),
            ("strings with multi-byte characters", 50_000),
            ("icon codes round trip", 69),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}
fn hexd(n: u8) -> char {
    b"0123456789abcdef"[n as usize] as char
}
fn print(red: u8, green: u8, blue: u8) -> String {
    let mut s = String::from("#");
    for v in [red, green, blue] {
        s.push(hexd(v >> 4));
        s.push(hexd(v & 15));
    }
    s
}
fn colours(c: &mut Ctx) {
    let red = c.index as u8;
    c.seen(red as u64);
    let mut r = c.rng();
    let mix = r.u64() as u32;
    let got = guard(|| {
        for gb in 0..=0xffffu32 {
            let (green, blue) = ((gb >> 8) as u8, gb as u8);
            let x = Color { red, green, blue };
            let want = print(red, green, blue);
            let s = x.to_hex_string();
            if s != want {
                return Some(format!("{:?} prints as {:?}", x, s));
            }
            let up = want.to_ascii_uppercase();
            let mixed: String = want
                .chars()
                .enumerate()
                .map(|(i, ch)| if (mix ^ gb) >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch })
                .collect();
            for t in [&want, &up, &mixed] {
                match Color::from_hex_string(t) {
                    Ok(ref y) if *y == x => {}
                    y => return Some(format!("{:?} parses as {:?}", t, y)),
                }
            }
        }
        None
    });
    c.add("evaluations", 3 << 16);
    c.add("colours round trip", 1 << 16);
    match got {
        Ok(None) => {}
        Ok(Some(m)) => c.fail(m),
        Err(p) => c.fail(p),
    }
}
fn integers(c: &mut Ctx) {
    let base = (c.index as u32) << 23;
    c.seen(base as u64 ^ 0xff00_0000_0000);
    let got = guard(|| {
        for k in 0..1u32 << 23 {
            let n = (base | k) as i32;
            let icon = Icon::from_i32(n).is_ok();
            let obf = Obfuscation::from_i32(n).is_ok();
            if icon != (0..=68).contains(&n) {
                return Some(format!("icon code {} accepted: {}", n, icon));
            }
            if obf != (0..=1).contains(&n) {
                return Some(format!("obfuscation code {} accepted: {}", n, obf));
            }
        }
        None
    });
    c.add("evaluations", 2 << 23);
    c.add("integers given to both conversions", 1 << 23);
    match got {
        Ok(None) => {}
        Ok(Some(m)) => c.fail(m),
        Err(p) => c.fail(p),
    }
}
fn codes(c: &mut Ctx) {
    let mut names = std::collections::BTreeSet::new();
    for n in 0..=68 {
        c.eval();
        match Icon::from_i32(n) {
            Ok(i) => {
                if i.to_i32() != n {
                    c.fail(format!("icon code {} becomes {:?} and back {}", n, i, i.to_i32()));
                }
                if !names.insert(format!("{:?}", i)) {
                    c.fail(format!("two codes give the icon {:?}", i));
                }
                c.n("icon codes round trip");
            }
            Err(e) => c.fail(format!("icon code {} refused: {:?}", n, e)),
        }
        for k in 0..n {
            if Icon::from_i32(k) == Icon::from_i32(n) {
                c.fail(format!("icon codes {} and {} are equal", k, n));
            }
        }
    }
    for (n, want) in [(0, Obfuscation::None), (1, Obfuscation::UseClipboard)] {
        c.eval();
        match Obfuscation::from_i32(n) {
            Ok(o) => {
                if o != want || o.to_i32() != n {
                    c.fail(format!("obfuscation code {} becomes {:?} and back {}", n, o, o.to_i32()));
                }
            }
            Err(e) => c.fail(format!("obfuscation code {} refused: {:?}", n, e)),
        }
    }
}
fn val(a: char, b: char) -> Option<u8> {
    let d = |ch: char| match ch {
        '0'..='9' => Some(ch as u8 - b'0'),
        'a'..='f' => Some(ch as u8 - b'a' + 10),
        'A'..='F' => Some(ch as u8 - b'A' + 10),
        _ => None,
    };
    Some(d(a)? * 16 + d(b)?)
}
/// The colour of a string, or the errors that name one of its defects.
fn reading(s: &str) -> Result<Color, Vec<ColorError>> {
    let v: Vec<char> = s.chars().collect();
    let mut bad = vec![];
    if v.len() < 7 {
        bad.push(ColorError::HexStringTooShort);
    }
    if v.len() > 7 {
        bad.push(ColorError::HexStringTooLong);
    }
    if v.first() != Some(&'#') {
        bad.push(ColorError::HexStringNoHashSign);
    }
    if v.len() != 7 {
        return Err(bad);
    }
    let (r, g, b) = (val(v[1], v[2]), val(v[3], v[4]), val(v[5], v[6]));
    if r.is_none() {
        bad.push(ColorError::InvalidRedValue);
    }
    if g.is_none() {
        bad.push(ColorError::InvalidGreenValue);
    }
    if b.is_none() {
        bad.push(ColorError::InvalidBlueValue);
    }
    match (r, g, b) {
        (Some(red), Some(green), Some(blue)) if bad.is_empty() => Ok(Color { red, green, blue }),
        _ => Err(bad),
    }
}
fn judge(c: &mut Ctx, s: &str) {
    c.eval();
    let want = reading(s);
    if !s.is_ascii() {
        c.n("strings with multi-byte characters");
    }
    match guard(|| Color::from_hex_string(s)) {
        Err(p) => c.fail(format!("{:?}: {}", s, p)),
        Ok(Ok(x)) => match want {
            Ok(w) if w == x => c.n("strings accepted"),
            w => c.fail(format!("{:?} parses as {:?} instead of {:?}", s, x, w)),
        },
        Ok(Err(e)) => match want {
            Err(w) if w.contains(&e) => {
                c.n("strings refused");
                let shown = guard(|| (format!("{}", e), format!("{:?}", e)));
                if shown.map_or(true, |x| x.0.is_empty()) {
                    c.fail(format!("{:?} cannot be displayed", e));
                }
            }
            w => c.fail(format!("{:?} is refused as {:?} instead of {:?}", s, e, w)),
        },
    }
}
const ODD: &[char] = &[
    '+', '-', ' ', '#', 'g', 'G', 'x', 'X', '_', '.', '\0', '\n', '/', ':', '@', '`', 'é', 'ß', '０', '１', 'ａ', '٣', '中', '😀',
    '\u{10ffff}', '\u{301}', '\u{feff}', '\u{a0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '＃',
];
fn one(r: &mut Rng) -> char {
    match r.below(4) {
        0 => (32 + r.below(95)) as u8 as char,
        1 => {
            let n = r.byte() & 15;
            hexd(n)
        }
        2 => *r.pick(ODD),
        _ => loop {
            if let Some(x) = char::from_u32(r.below(0x110000) as u32) {
                break x;
            }
        },
    }
}
fn strings(c: &mut Ctx) {
    let mut r = c.rng();
    for _ in 0..24 {
        let mut v: Vec<char> = print(r.byte(), r.byte(), r.byte()).chars().collect();
        match r.below(10) {
            0 => {
                let n = r.below(12);
                v = (0..n).map(|_| one(&mut r)).collect();
            }
            1 => {
                v[0] = one(&mut r);
            }
            2 => {
                // as many bytes as a colour has, in fewer characters
                let mut s = String::from("#");
                while s.len() < 7 {
                    let ch = one(&mut r);
                    if s.len() + ch.len_utf8() <= 7 {
                        s.push(ch);
                    }
                }
                v = s.chars().collect();
            }
            k => {
                for _ in 0..k % 4 {
                    let i = r.below(v.len().max(1));
                    match r.below(6) {
                        0 if i < v.len() => {
                            v.remove(i);
                        }
                        1 => v.insert(i, one(&mut r)),
                        2 if i < v.len() => v[i] = v[i].to_ascii_uppercase(),
                        3 => {
                            let j = r.below(v.len().max(1));
                            if i < v.len() && j < v.len() {
                                v.swap(i, j);
                            }
                        }
                        _ if i < v.len() => v[i] = one(&mut r),
                        _ => {}
                    }
                }
            }
        }
        let s: String = v.into_iter().collect();
        c.seen_bytes(s.as_bytes());
        c.sample(|| format!("{:?} -> {:?}", s, reading(&s)));
        judge(c, &s);
    }
}
/// Every character at some positions of a colour.
fn chars(c: &mut Ctx) {
    let mut r = c.rng();
    let i0 = r.below(7);
    c.seen(c.index as u64 ^ 0xabc0_0000);
    for low in 0..256u32 {
        if let Some(ch) = char::from_u32((c.index as u32) << 8 | low) {
            let i = (i0 + low as usize) % 7;
            let mut v: Vec<char> = "#12abEF".chars().collect();
            v[i] = ch;
            let s: String = v.into_iter().collect();
            judge(c, &s);
        }
    }
}
