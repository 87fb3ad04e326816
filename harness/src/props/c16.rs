//! Key derivation against an independent implementation.
use crate::ctx::*;
use crate::gen::{self, KeySpec};
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::Enc;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, KeyFile, KeyFileType};
use secstr::SecStr;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "A case is one password, key file or both; the key made of it is compared with the independent derivation, with the \
               keys of all near inputs, and used to open files written (and to write files read) by the independent \
               implementation with many round counts and seeds; distinct by composite key.",
        sections: vec![
            Section { name: "composite", quick: 20_000, thorough: 300_000, f: composite },
            Section { name: "near", quick: 1500, thorough: 20_000, f: near },
            Section { name: "filetypes", quick: 3000, thorough: 40_000, f: filetypes },
            Section { name: "rounds", quick: 1500, thorough: 12_000, f: rounds },
            Section { name: "bigrounds", quick: 56, thorough: 400, f: bigrounds },
            Section { name: "huge", quick: 8, thorough: 12, f: huge },
        ],
        need: &[
            ("keys compared", 15_000),
            ("pairs of different keys compared", 20_000),
            ("files of the independent writer opened", 1000),
            ("files of the library decoded", 1000),
            ("key files of several types compared", 2500),
            ("files with more than a million rounds", 3),
            ("calls with more rounds than can be done in time", 8),
        ],
        assumptions: &["the independent SHA-256 and AES of the harness pass their published test vectors at start-up"],
        vmem_kib: 0,
    }
}

fn kf(b: &[u8]) -> KeyFile {
    KeyFile { key: SecStr::new(b.to_vec()), file_type: KeyFileType::Binary }
}
fn password(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => "\0".repeat(r.below(70)),
        2 => {
            // around the block size of the hash
            let n = *r.pick(&[54usize, 55, 56, 57, 63, 64, 65, 119, 120, 128, 1000, 4096]);
            (0..n).map(|_| (32 + r.below(95)) as u8 as char).collect()
        }
        3 => (0..r.range(1, 12)).map(|_| char::from_u32(r.below(0xd800) as u32).unwrap_or('x')).collect(),
        4 => format!("{}\u{301}", gen::word(r)),
        5 => format!(" {}\n", gen::word(r)),
        _ => gen::text(r, true),
    }
}
fn filekey(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => vec![r.byte(); 32],
        1 => {
            let n = *r.pick(&[2usize, 16, 31, 33, 55, 56, 63, 64, 65, 200]);
            r.bytes(n)
        }
        2 => {
            let mut v = r.bytes(32);
            v[0] = 0;
            v[31] = 0;
            v
        }
        _ => r.bytes(32),
    }
}

fn composite(c: &mut Ctx) {
    let mut r = c.rng();
    let p = password(&mut r);
    let k = filekey(&mut r);
    c.sample(|| format!("password {:?}, key file {}", p, rc::hex(&k)));
    let t = r.pick(&[KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml]).clone();
    let f = KeyFile { key: SecStr::new(k.clone()), file_type: t.clone() };
    for (what, got, want) in [
        ("from_password", guard(|| CompositeKey::from_password(p.clone()).unsecure()), rc::composite(Some(p.as_bytes()), None)),
        ("from_password(&str)", guard(|| CompositeKey::from_password(p.as_str()).unsecure()), rc::composite(Some(p.as_bytes()), None)),
        ("from_key_file", guard(|| CompositeKey::from_key_file(f.clone()).unsecure()), rc::composite(None, Some(&k))),
        ("from_both", guard(|| CompositeKey::from_both(p.clone(), f.clone()).unsecure()), rc::composite(Some(p.as_bytes()), Some(&k))),
        ("clone", guard(|| CompositeKey::from_both(p.clone(), f.clone()).clone().unsecure()), rc::composite(Some(p.as_bytes()), Some(&k))),
    ] {
        c.eval();
        match got {
            Err(e) => return c.fail(format!("{}: {}", what, e)),
            Ok(g) if g != want => {
                return c.fail(format!(
                    "{} with password {:?} and key file {} is {} instead of {}",
                    what,
                    p,
                    rc::hex(&k),
                    rc::hex(&g),
                    rc::hex(&want)
                ))
            }
            Ok(g) => {
                c.n("keys compared");
                c.seen_bytes(&g);
            }
        }
    }
}

/// Near inputs give different keys, the same input the same key.
fn near(c: &mut Ctx) {
    let mut r = c.rng();
    let p = password(&mut r);
    let k = filekey(&mut r);
    let mut pws: Vec<String> = vec![
        p.clone(),
        format!("{} ", p),
        format!(" {}", p),
        format!("{}\0", p),
        format!("{}\n", p),
        p.to_uppercase(),
        p.to_lowercase(),
        p.trim().to_string(),
        p.chars().rev().collect(),
        format!("{}{}", p, p),
        rc::hex(&rc::sha256(p.as_bytes())),
        String::new(),
        String::from_utf8_lossy(&k).to_string(),
        rc::hex(&k),
    ];
    let mut q = p.clone();
    q.pop();
    pws.push(q);
    for n in [8usize, 16, 32, 64, 128, 255, 256] {
        if p.len() > n && p.is_char_boundary(n) {
            pws.push(p[..n].to_string());
        }
    }
    pws.sort();
    pws.dedup();
    let mut ks: Vec<Vec<u8>> = vec![
        k.clone(),
        [&k[..], &[0]].concat(),
        k.iter().rev().cloned().collect(),
        rc::hex(&k).into_bytes(),
        rc::sha256(&k).to_vec(),
        rc::sha256(p.as_bytes()).to_vec(),
    ];
    for _ in 0..3 {
        let mut x = k.clone();
        let i = r.below(x.len());
        x[i] ^= 1 << r.below(8);
        ks.push(x);
    }
    ks.push(k[..k.len() - 1].to_vec());
    ks.sort();
    ks.dedup();
    let mut all: Vec<(String, CompositeKey)> = vec![];
    for p in &pws {
        all.push((format!("password {:?}", p), CompositeKey::from_password(p.clone())));
    }
    for k in &ks {
        // the key file made of a password's hash is that password by definition of the format
        if pws.iter().any(|p| rc::sha256(p.as_bytes())[..] == k[..]) {
            continue;
        }
        all.push((format!("key file {}", rc::hex(k)), CompositeKey::from_key_file(kf(k))));
    }
    for p in pws.iter().take(4) {
        for k in ks.iter().take(6) {
            all.push((format!("password {:?} and key file {}", p, rc::hex(k)), CompositeKey::from_both(p.clone(), kf(k))));
        }
    }
    c.eval();
    c.seen_bytes(&rc::composite(Some(p.as_bytes()), Some(&k)));
    for i in 0..all.len() {
        if all[i].1 != all[i].1.clone() {
            return c.fail(format!("the key of {} does not equal itself", all[i].0));
        }
        for j in 0..i {
            c.n("pairs of different keys compared");
            if all[i].1 == all[j].1 || all[i].1.unsecure() == all[j].1.unsecure() {
                return c.fail(format!("{} and {} give the same key", all[j].0, all[i].0));
            }
        }
    }
    if CompositeKey::from_both(p.clone(), kf(&k)) != CompositeKey::from_both(p.as_str(), kf(&k)) {
        c.fail("equal inputs give different keys");
    }
}

fn xml_key(r: &mut Rng, k: &[u8]) -> Vec<u8> {
    let nl = *r.pick(&["\n", "\r\n", ""]);
    let ind = *r.pick(&["", "\t", "  "]);
    let d = rc::b64(k);
    format!(
        "{}<KeyFile>{nl}{ind}<Meta>{nl}{ind}{ind}<Version>1.00</Version>{nl}{ind}</Meta>{nl}{ind}<Key>{nl}{ind}{ind}<Data>{}</Data>{nl}{ind}</Key>{nl}</KeyFile>{}",
        r.pick(&["<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", ""]),
        d,
        r.pick(&["\n", ""])
    )
    .into_bytes()
}

/// The same bytes in every kind of key file, opened, give the same key; and it opens a file made for it.
fn filetypes(c: &mut Ctx) {
    let mut r = c.rng();
    let k = r.arr::<32>().to_vec();
    let p = password(&mut r);
    let hex = rc::hex(&k);
    let mixed: String = hex.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x }).collect();
    let files = vec![k.clone(), hex.clone().into_bytes(), hex.to_uppercase().into_bytes(), mixed.into_bytes(), xml_key(&mut r, &k)];
    let both = rc::composite(Some(p.as_bytes()), Some(&k));
    let alone = rc::composite(None, Some(&k));
    c.seen_bytes(&both);
    for f in &files {
        c.eval();
        let o = match guard(|| KeyFile::open(&mut &f[..])) {
            Ok(Ok(o)) => o,
            o => return c.fail(format!("key file of {} bytes: {:?}", f.len(), o)),
        };
        if CompositeKey::from_key_file(o.clone()).unsecure() != alone || CompositeKey::from_both(p.clone(), o.clone()).unsecure() != both {
            return c.fail(format!("key file {} gives another key", String::from_utf8_lossy(f)));
        }
        // and once more after the library saved it in each form
        for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
            let mut x = o.clone();
            x.file_type = t;
            let mut v = vec![];
            match guard(|| x.save(&mut v)) {
                Ok(Ok(())) => {}
                o => return c.fail(format!("key file save: {:?}", o)),
            }
            match guard(|| KeyFile::open(&mut &v[..])) {
                Ok(Ok(y)) => {
                    if CompositeKey::from_key_file(y).unsecure() != alone {
                        return c.fail(format!("a saved key file gives another key: {}", String::from_utf8_lossy(&v)));
                    }
                }
                o => return c.fail(format!("saved key file: {:?}", o)),
            }
            c.n("key files of several types compared");
        }
    }
    if r.chance(1, 10) {
        let spec = KeySpec { pw: if r.bool() { Some(p) } else { None }, kf: Some(k) };
        let m = small(&mut r, 2);
        let x = foreign_plain(&mut r, &m, &spec);
        let f = r.pick(&files).clone();
        let o = KeyFile::open(&mut &f[..]).unwrap();
        let key = match &spec.pw {
            Some(p) => CompositeKey::from_both(p.clone(), o),
            None => CompositeKey::from_key_file(o),
        };
        opens(c, &x, &key);
    }
}

fn small(r: &mut Rng, rounds: u64) -> MDb {
    let mut m = gen::db(r, &gen::Cfg { groups: 0, entries: 1, history: 0, fields: 2, depth: 0, long: false, nested_history: false });
    m.rounds = rounds;
    m
}
fn opens(c: &mut Ctx, x: &Foreign, key: &CompositeKey) {
    c.eval();
    c.attach("kdbx", &x.file);
    match must_open(&x.file, key) {
        Ok(d) => {
            c.n("files of the independent writer opened");
            if let Some(e) = differences(&x.x, &from_db(&d)) {
                c.fail(e);
            }
        }
        Err(e) => c.fail(format!("{} rounds: {}", x.enc.rounds, e)),
    }
}

fn both_ways(c: &mut Ctx, r: &mut Rng, n: u64) {
    let p = password(r);
    let k = match r.below(3) {
        0 => KeySpec { pw: Some(p), kf: None },
        1 => KeySpec { pw: None, kf: Some(filekey(r)) },
        _ => KeySpec { pw: Some(p), kf: Some(filekey(r)) },
    };
    let m = small(r, n);
    let mut e = Enc::random(r);
    e.rounds = n;
    if r.chance(1, 6) {
        // seeds with structure
        e.transform_seed = [*r.pick(&[0u8, 0xff, 1]); 32];
        e.master_seed = [*r.pick(&[0u8, 0xff, 7]); 32];
    }
    c.seen_bytes(&rc::transform(&k.comp(), &e.transform_seed, 0));
    c.sample(|| format!("{} rounds, seed {}", n, rc::hex(&e.transform_seed)));
    let x = foreign(r, &m, &k, e, plain_opts(), &plain_style(), true);
    opens(c, &x, &k.key());
    if c.failed_here() {
        return;
    }
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.eval();
    match decode_file(&f, &k.comp()) {
        Ok((_, cont, _)) => {
            if cont.rounds != n {
                return c.fail(format!("{} rounds became {}", n, cont.rounds));
            }
            c.n("files of the library decoded");
        }
        Err(e) => c.fail(format!("{} rounds: {}", n, e)),
    }
}

fn rounds(c: &mut Ctx) {
    let mut r = c.rng();
    let n = if c.index < 520 {
        c.index as u64
    } else {
        match r.below(5) {
            0 => 1 << r.below(12),
            1 => (1 << r.below(12)) - 1,
            2 => (1 << r.below(12)) + 1,
            _ => r.below(5000) as u64,
        }
    };
    both_ways(c, &mut r, n);
}

fn bigrounds(c: &mut Ctx) {
    let mut r = c.rng();
    // the slow ones first: a worker that gets one has the longest run
    let fixed = [3_000_001u64, 2_097_153, 1_048_577, 1_048_576, 1_048_575, 524_289, 500_000, 262_145, 1_000_000, 5999, 6000, 6001, 8191, 8192, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 99_999, 100_000, 100_001, 131_072];
    let n = if c.index < fixed.len() { fixed[c.index] } else { r.range(5000, 150_000) as u64 };
    both_ways(c, &mut r, n);
    c.n("files with more than 5000 rounds");
    if n >= 1_000_000 {
        c.n("files with more than a million rounds");
    }
}

/// Round counts that no computer finishes within the test: a reader or writer that does has not done them.
fn huge(c: &mut Ctx) {
    use std::sync::mpsc;
    use std::time::Duration;
    let mut r = c.rng();
    let ns = [1u64 << 32, (1 << 32) + 1, (1 << 32) + 6000, 1 << 40, (1 << 48) + 7, 1 << 63, u64::MAX, u64::MAX - 1, (1 << 31) + 1, 1 << 33, 1 << 56, 0xffff_0000_0000_0001];
    let n = ns[c.index % ns.len()];
    let k = KeySpec::pw("huge");
    let mut m = small(&mut r, 1);
    let open = c.index % 2 == 0;
    c.eval();
    c.seen_bytes(format!("{} {}", n, open).as_bytes());
    let (tx, rx) = mpsc::channel();
    let key = k.key();
    // the thread is left behind and ends with the worker
    if open {
        // the declared number of rounds of a file made with one round; the hash is left out so that only the key can be wrong
        let mut e = Enc::random(&mut r);
        e.rounds = 1;
        let mut x = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), false).file;
        let at = match x.windows(11).position(|w| w == [6, 8, 0, 1, 0, 0, 0, 0, 0, 0, 0]) {
            Some(at) => at,
            None => return,
        };
        x[at + 3..at + 11].copy_from_slice(&n.to_le_bytes());
        std::thread::spawn(move || {
            let o = guard(|| kpdb::Database::open(&mut &x[..], &key).map(|_| ()).map_err(|e| e.to_string()));
            let _ = tx.send(format!("{:?}", o));
        });
    } else {
        m.rounds = n;
        std::thread::spawn(move || {
            let d = to_db(&m, &key);
            let mut v = vec![];
            let o = guard(|| d.save(&mut v).map_err(|e| e.to_string()));
            let _ = tx.send(format!("{:?}", o));
        });
    }
    // 2^32 rounds are more than 2^33 dependent AES operations of at least ten cycles each
    match rx.recv_timeout(Duration::from_millis(1500)) {
        Err(mpsc::RecvTimeoutError::Timeout) => c.n("calls with more rounds than can be done in time"),
        o => c.fail(format!("{} with {} rounds came back within 1.5 s: {:?}", if open { "open" } else { "save" }, n, o)),
    }
}
