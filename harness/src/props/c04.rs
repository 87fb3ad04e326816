//! Only the right key opens a database.
use crate::ctx::*;
use crate::gen::{self, KeySpec};
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, KeyFile, KeyFileType};
use secstr::SecStr;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "A case is one (saved database, right key, wrong key) triple; the wrong keys are derived from the right one (prefix, \
               extension, case, whitespace, NUL, normalisation, byte flips, dropped, swapped or added parts) and judged wrong by the \
               independent composite-key computation. Distinct by both keys.",
        sections: vec![
            Section { name: "variants", quick: 1200, thorough: 12000, f: variants },
            Section { name: "flips", quick: 64, thorough: 400, f: flips },
            Section { name: "replace", quick: 500, thorough: 5000, f: replace },
        ],
        need: &[("evaluations", 8000), ("wrong keys refused", 8000), ("right keys accepted", 1000)],
        assumptions: &["SHA-256 collisions are not tried"],
        vmem_kib: 0,
    }
}

fn variants_of(r: &mut Rng, k: &KeySpec) -> Vec<KeySpec> {
    let mut v = vec![];
    let mut pws: Vec<Option<String>> = vec![None, Some(String::new())];
    let p = k.pw.clone().unwrap_or_default();
    let ch: Vec<char> = p.chars().collect();
    if !ch.is_empty() {
        pws.push(Some(ch[..ch.len() - 1].iter().collect()));
        pws.push(Some(ch[1..].iter().collect()));
        pws.push(Some(ch[..ch.len() / 2].iter().collect()));
        pws.push(Some(ch.iter().rev().collect()));
        let i = r.below(ch.len());
        let mut x = ch.clone();
        x[i] = if x[i] == 'q' { 'w' } else { 'q' };
        pws.push(Some(x.iter().collect()));
        let mut x = ch.clone();
        let j = r.below(ch.len());
        x.swap(i, j);
        pws.push(Some(x.iter().collect()));
        let mut x = ch.clone();
        x.remove(i);
        pws.push(Some(x.iter().collect()));
        for n in [8usize, 16, 32, 55, 56, 64, 72, 127, 128, 255, 256] {
            if ch.len() > n {
                pws.push(Some(ch[..n].iter().collect()));
            }
        }
        let mut x = ch.clone();
        let l = x.len() - 1;
        x[l] = if x[l] == 'a' { 'b' } else { 'a' };
        pws.push(Some(x.iter().collect()));
    }
    for s in [" ", "\0", "\n", "\r\n", "\t", "x", "\u{feff}", "\u{301}", "\u{a0}"] {
        pws.push(Some(format!("{}{}", p, s)));
        pws.push(Some(format!("{}{}", s, p)));
    }
    pws.push(Some(p.to_lowercase()));
    pws.push(Some(p.to_uppercase()));
    pws.push(Some(p.trim().to_string()));
    pws.push(Some(p.trim_end().to_string()));
    pws.push(Some(format!("{}{}", p, p)));
    pws.push(Some(p.replace('\u{e9}', "e\u{301}")));
    pws.push(Some(p.replace("e\u{301}", "\u{e9}")));
    pws.push(Some(p.replace('\r', "")));
    pws.push(Some(p.chars().filter(|c| c.is_ascii()).collect()));
    pws.push(Some(crate::refcrypto::hex(&crate::refcrypto::sha256(p.as_bytes()))));
    for q in pws {
        v.push(KeySpec { pw: q, kf: k.kf.clone() });
    }
    if let Some(kf) = &k.kf {
        v.push(KeySpec { pw: k.pw.clone(), kf: None });
        let mut z = kf.clone();
        z.reverse();
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(z) });
        if !kf.is_empty() {
            v.push(KeySpec { pw: k.pw.clone(), kf: Some(kf[..kf.len() - 1].to_vec()) });
        }
        let mut z = kf.clone();
        z.push(0);
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(z) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(crate::refcrypto::sha256(kf).to_vec()) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(crate::refcrypto::hex(kf).into_bytes()) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(vec![0; 32]) });
        for _ in 0..if kf.is_empty() { 0 } else { 4 } {
            let mut z = kf.clone();
            let i = r.below(z.len());
            z[i] ^= 1 << r.below(8);
            v.push(KeySpec { pw: k.pw.clone(), kf: Some(z) });
        }
        v.push(KeySpec { pw: None, kf: Some(kf.clone()) });
    } else {
        // password hash as key file, key file added
        v.push(KeySpec { pw: None, kf: Some(crate::refcrypto::sha256(p.as_bytes()).to_vec()) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(r.bytes(32)) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(vec![0; 32]) });
        v.push(KeySpec { pw: k.pw.clone(), kf: Some(vec![]) });
    }
    v.push(KeySpec { pw: Some(gen::text(r, true)), kf: k.kf.clone() });
    v
}

fn try_key(c: &mut Ctx, f: &[u8], right: &KeySpec, k: &KeySpec, x: &MDb) {
    let same = right.comp() == k.comp();
    c.eval();
    c.seen_bytes(format!("{:?}{:?}", right, k).as_bytes());
    match open(f, &k.key()) {
        Err(p) => c.fail(format!("opening with {:?}: {}", k, p)),
        Ok(Ok(o)) if same => {
            c.n("right keys accepted");
            if let Some(d) = differences(x, &from_db(&o)) {
                c.fail(d);
            }
        }
        Ok(Ok(_)) => c.fail(format!("saved with {:?}, opened with {:?}", right, k)),
        Ok(Err(e)) if same => c.fail(format!("right key {:?} (same composite as {:?}) refused: {:?}", k, right, e)),
        Ok(Err(_)) => c.n("wrong keys refused"),
    }
}

fn pick_key(r: &mut Rng) -> KeySpec {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[31usize, 32, 33, 55, 56, 57, 63, 64, 65, 72, 73, 119, 120, 128, 200, 1000]);
            let s: String = (0..n).map(|_| (33 + r.below(90)) as u8 as char).collect();
            let kf = if r.chance(1, 3) { Some(r.bytes(32)) } else { None };
            KeySpec { pw: Some(s), kf }
        }
        1 => {
            let s = *r.pick(&["", " ", "\u{e9}t\u{e9}", "e\u{301}", "Straße", "пароль", "パスワード", "a\0b", "\0", "PassWord", "pass word "]);
            let kf = if r.chance(1, 3) { Some(r.bytes(32)) } else { None };
            KeySpec { pw: Some(s.into()), kf }
        }
        2 => {
            // XML key files may hold any number of key bytes
            let n = *r.pick(&[1usize, 16, 31, 33, 64]);
            KeySpec { pw: if r.bool() { Some(gen::word(r)) } else { None }, kf: Some(r.bytes(n)) }
        }
        _ => gen::key(r),
    }
}

fn variants(c: &mut Ctx) {
    let mut r = c.rng();
    let k = pick_key(&mut r);
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = r.below(4) as u64;
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.attach("kdbx", &f);
    let x = expect_after_save(&m);
    try_key(c, &f, &k, &k, &x);
    for w in variants_of(&mut r, &k) {
        if c.failed_here() {
            return;
        }
        try_key(c, &f, &k, &w, &x);
    }
    c.sample(|| format!("right key {:?}", k));
}

/// Every bit of the key file, every character of the password.
fn flips(c: &mut Ctx) {
    let mut r = c.rng();
    let k = KeySpec { pw: Some(format!("{}{}", gen::word(&mut r), gen::text(&mut r, false))), kf: Some(r.bytes(32)) };
    let mut m = gen::db(&mut r, &gen::Cfg { groups: 0, entries: 1, ..gen::TINY });
    m.rounds = 1;
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    let x = expect_after_save(&m);
    let kf = k.kf.clone().unwrap();
    for bit in 0..256 {
        let mut z = kf.clone();
        z[bit / 8] ^= 1 << (bit % 8);
        let t = if bit % 3 == 0 { KeyFileType::Hex } else { KeyFileType::Xml };
        let w = KeySpec { pw: k.pw.clone(), kf: Some(z.clone()) };
        try_key(c, &f, &k, &w, &x);
        // the same through a key file of another type
        let ck = CompositeKey::from_both(k.pw.clone().unwrap(), KeyFile { key: SecStr::new(z), file_type: t });
        c.eval();
        match open(&f, &ck) {
            Ok(Err(_)) => c.n("wrong keys refused"),
            Ok(Ok(_)) => c.fail(format!("opened with key-file bit {} flipped", bit)),
            Err(p) => c.fail(p),
        }
        if c.failed_here() {
            return;
        }
    }
    let ch: Vec<char> = k.pw.clone().unwrap().chars().collect();
    for i in 0..ch.len() {
        for n in ['\0', ' ', 'Z', '\u{e9}'] {
            let mut z = ch.clone();
            z[i] = n;
            try_key(c, &f, &k, &KeySpec { pw: Some(z.iter().collect()), kf: k.kf.clone() }, &x);
        }
    }
}

fn replace(c: &mut Ctx) {
    let mut r = c.rng();
    let mut keys = vec![pick_key(&mut r)];
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = r.below(4) as u64;
    let mut db = to_db(&m, &keys[0].key());
    let mut files: Vec<Vec<u8>> = vec![];
    let mut x = m.clone();
    for step in 0..3 {
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        x = expect_after_save(&x);
        for (i, k) in keys.clone().iter().enumerate() {
            let cur = keys.last().unwrap().clone();
            try_key(c, &f, &cur, k, &x);
            // earlier files still need the earlier key
            if i < files.len() {
                let fi = files[i].clone();
                try_key(c, &fi, k, &cur, &x);
            }
        }
        if c.failed_here() {
            return;
        }
        if r.bool() {
            match must_open(&f, &keys.last().unwrap().key()) {
                Ok(o) => db = o,
                Err(e) => return c.fail(e),
            }
        }
        files.push(f);
        let vs = variants_of(&mut r, keys.last().unwrap());
        let n = if r.bool() { pick_key(&mut r) } else { r.pick(&vs).clone() };
        db.composite_key = n.key();
        keys.push(n);
        c.add("key replacements", (step < 2) as u64);
    }
}
