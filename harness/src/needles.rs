//! Search for many secrets, in many encodings, in one pass.
use crate::refcrypto as rc;
use std::collections::HashMap;

#[derive(Default)]
pub struct Needles {
    map: HashMap<u64, Vec<(String, Vec<u8>)>>,
    pub count: usize,
    short: Vec<(String, Vec<u8>)>,
}
fn head(b: &[u8]) -> u64 {
    u64::from_le_bytes(b[..8].try_into().unwrap())
}
impl Needles {
    /// A pattern shorter than 8 bytes is not searched for.
    pub fn raw(&mut self, what: &str, b: &[u8]) {
        if b.len() >= 8 {
            self.count += 1;
            self.map.entry(head(b)).or_default().push((what.to_string(), b.to_vec()));
        }
    }
    /// The bytes themselves and what encoders make of them, whatever stands before and after.
    pub fn all(&mut self, what: &str, b: &[u8]) {
        self.raw(what, b);
        self.encoded(what, b);
    }
    pub fn encoded(&mut self, what: &str, b: &[u8]) {
        let h = rc::hex(b);
        self.raw(&format!("{} (hex)", what), h.as_bytes());
        self.raw(&format!("{} (HEX)", what), h.to_uppercase().as_bytes());
        for o in 0..3 {
            let mut v = vec![0u8; o];
            v.extend_from_slice(b);
            let s = rc::b64(&v);
            let from = (o * 8 + 5) / 6;
            let to = v.len() * 8 / 6;
            if to > from {
                self.raw(&format!("{} (base64+{})", what, o), s[from..to].as_bytes());
                let u = s[from..to].replace('+', "-").replace('/', "_");
                if u != s[from..to] {
                    self.raw(&format!("{} (base64url+{})", what, o), u.as_bytes());
                }
            }
        }
        if let Ok(s) = std::str::from_utf8(b) {
            let w: Vec<u8> = s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
            self.raw(&format!("{} (UTF-16)", what), &w);
            let r: String = s.chars().rev().collect();
            if r.len() >= 8 && r != s {
                self.raw(&format!("{} (reversed)", what), r.as_bytes());
            }
        }
    }
    /// What debug formatting makes of a byte list.
    pub fn lists(&mut self, what: &str, b: &[u8]) {
        if b.len() < 4 {
            return;
        }
        let f = |s: &dyn Fn(&u8) -> String, sep: &str| b.iter().map(s).collect::<Vec<_>>().join(sep);
        for sep in [", ", ",", " ", ",\n    ", ",\n        ", ",\n            ", ",\n                "] {
            self.raw(&format!("{} (decimal list)", what), f(&|x| format!("{}", x), sep).as_bytes());
            self.raw(&format!("{} (hex list)", what), f(&|x| format!("{:x}", x), sep).as_bytes());
            self.raw(&format!("{} (0x list)", what), f(&|x| format!("0x{:02x}", x), sep).as_bytes());
        }
        for sep in [" ", ":", "-"] {
            self.raw(&format!("{} (hex bytes)", what), f(&|x| format!("{:02x}", x), sep).as_bytes());
            self.raw(&format!("{} (HEX bytes)", what), f(&|x| format!("{:02X}", x), sep).as_bytes());
        }
        self.raw(&format!("{} (escapes)", what), f(&|x| format!("\\x{:02x}", x), "").as_bytes());
        let esc: String = b.iter().flat_map(|x| std::ascii::escape_default(*x)).map(|x| x as char).collect();
        if esc.as_bytes() != b {
            self.raw(&format!("{} (escaped)", what), esc.as_bytes());
        }
        if let Ok(s) = std::str::from_utf8(b) {
            let d = format!("{:?}", s);
            let d = &d[1..d.len() - 1];
            if d.as_bytes() != b {
                self.raw(&format!("{} (debug text)", what), d.as_bytes());
            }
        }
    }
    /// A pattern of any length, as it is: only for texts that no message has by chance.
    pub fn short(&mut self, what: &str, b: &[u8]) {
        self.count += 1;
        self.short.push((what.to_string(), b.to_vec()));
    }
    pub fn find(&self, hay: &[u8]) -> Option<(String, usize)> {
        for (w, n) in &self.short {
            if let Some(i) = hay.windows(n.len()).position(|x| x == &n[..]) {
                return Some((w.clone(), i));
            }
        }
        if hay.len() < 8 || self.map.is_empty() {
            return None;
        }
        for i in 0..=hay.len() - 8 {
            if let Some(v) = self.map.get(&head(&hay[i..])) {
                for (w, n) in v {
                    if hay[i..].starts_with(n) {
                        return Some((w.clone(), i));
                    }
                }
            }
        }
        None
    }
}
