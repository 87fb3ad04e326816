//! The random values of very many saves, key files and identifiers; judged together in probe::post.
use crate::ctx::*;
use crate::faults::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use kpdb::{Database, Entry, Group, KeyFile};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::sync::{Arc, Barrier};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "A case saves one database many times (from one thread, from several at once, after failed saves, along chains of \
               opening and saving). The five random values of every save, the first cipher blocks, new key files and new \
               identifiers are recorded and judged together over all processes; distinct by master seed.",
        sections: vec![
            Section { name: "saves", quick: 320, thorough: 3200, f: saves },
            Section { name: "threads", quick: 80, thorough: 800, f: threads },
            Section { name: "chains", quick: 160, thorough: 1600, f: chains },
            Section { name: "failed", quick: 80, thorough: 800, f: failed },
            Section { name: "keyfiles", quick: 80, thorough: 800, f: keyfiles },
            Section { name: "uuids", quick: 80, thorough: 800, f: uuids },
        ],
        need: &[
            ("saves recorded", 60_000),
            ("saves recorded by several threads at once", 10_000),
            ("key files recorded", 40_000),
            ("identifiers recorded", 200_000),
            ("frozen process pairs compared", 1),
        ],
        assumptions: &[
            "values drawn from a cryptographic generator repeat an 8-byte piece with a probability below one in ten thousand per run",
            "statistics raise a violation beyond 7 standard deviations; a generator that passes them and is predictable in other \
             ways is not recognised",
        ],
        vmem_kib: 0,
    }
}

/// master seed 32, transform seed 32, iv 16, stream key 32, start bytes 32, cipher text 48
pub const REC: usize = 192;
pub const FIELDS: [(&str, usize, usize); 5] = [
    ("master seed", 0, 32),
    ("transform seed", 32, 32),
    ("initialisation vector", 64, 16),
    ("inner stream key", 80, 32),
    ("start bytes", 112, 32),
];

pub fn record(f: &[u8]) -> Result<[u8; REC], String> {
    let (_, _, head, n) = refkdbx::parse_header(f)?;
    let mut o = [0u8; REC];
    for (id, at, len) in [(4u8, 0, 32), (5, 32, 32), (7, 64, 16), (8, 80, 32), (9, 112, 32)] {
        let v = head.iter().filter(|h| h.0 == id).collect::<Vec<_>>();
        if v.len() != 1 || v[0].1.len() != len {
            return Err(format!("header field {} appears {} times", id, v.len()));
        }
        o[at..at + len].copy_from_slice(&v[0].1);
    }
    if f.len() < n + 48 {
        return Err("short payload".into());
    }
    o[144..].copy_from_slice(&f[n..n + 48]);
    Ok(o)
}

fn out(name: &str, b: &[u8]) {
    let d = match std::env::var("KMON_TMP") {
        Ok(d) => d,
        Err(_) => return,
    };
    let p = format!("{}/c14-{}.{}", d, name, std::process::id());
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
        let _ = f.write_all(b);
    }
}

/// Relations inside one save.
fn inside(c: &mut Ctx, r: &[u8; REC]) -> bool {
    c.eval();
    c.seen_bytes(&r[..32]);
    let mut w: HashMap<&[u8], (usize, usize)> = HashMap::new();
    for (i, (n, at, len)) in FIELDS.iter().enumerate() {
        let v = &r[*at..at + len];
        let kinds: HashSet<u8> = v.iter().cloned().collect();
        // 16 random bytes with 7 or fewer different ones: below 1e-12
        if kinds.len() <= len / 2 - 2 && kinds.len() < 8 {
            c.fail(format!("{} is nearly constant: {}", n, rc::hex(v)));
            return false;
        }
        for k in 0..=len - 8 {
            if let Some((j, _)) = w.insert(&v[k..k + 8], (i, k)) {
                c.fail(format!("{} and {} of one save have 8 bytes in common: {}", FIELDS[j].0, n, rc::hex(&v[k..k + 8])));
                return false;
            }
        }
    }
    // one value computed from another
    let mut derived: Vec<(usize, &str, Vec<u8>)> = vec![];
    for (i, (_, at, len)) in FIELDS.iter().enumerate() {
        let v = &r[*at..at + len];
        derived.push((i, "the hash", rc::sha256(v).to_vec()));
        derived.push((i, "the double hash", rc::sha256(&rc::sha256(v)).to_vec()));
        derived.push((i, "the reverse", v.iter().rev().cloned().collect()));
        derived.push((i, "the complement", v.iter().map(|x| !x).collect()));
    }
    for (i, how, d) in &derived {
        for k in 0..=d.len() - 8 {
            if let Some((j, _)) = w.get(&d[k..k + 8]) {
                if !(i == j && *how == "the reverse") {
                    c.fail(format!("{} is {} of {}", FIELDS[*j].0, how, FIELDS[*i].0));
                    return false;
                }
            }
        }
    }
    true
}

fn small(r: &mut Rng) -> MDb {
    let mut m = gen::db(r, &gen::Cfg { groups: 0, entries: 2, history: 0, fields: 2, depth: 0, long: false, nested_history: false });
    m.rounds = *r.pick(&[0u64, 0, 1]);
    m
}

fn per_case(c: &Ctx) -> usize {
    if c.thorough {
        500
    } else {
        250
    }
}

fn saves(c: &mut Ctx) {
    let mut r = c.rng();
    let m = small(&mut r);
    let k = gen::key(&mut r);
    let db = if r.chance(1, 4) { Database::new(&k.key()) } else { to_db(&m, &k.key()) };
    let mut db = db;
    db.transform_rounds = kpdb::TransformRounds(m.rounds);
    let mut all = vec![];
    let n = per_case(c);
    for i in 0..n {
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        let rec = match record(&f) {
            Ok(x) => x,
            Err(e) => return c.fail(e),
        };
        if !inside(c, &rec) {
            return;
        }
        if i < 2 {
            // the value in use is the recorded one
            if let Err(e) = decode_file(&f, &k.comp()) {
                return c.fail(e);
            }
        }
        all.extend_from_slice(&rec);
    }
    c.add("saves recorded", n as u64);
    c.sample(|| format!("master seed of one save: {}", rc::hex(&all[..32])));
    out("s", &all);
}

fn threads(c: &mut Ctx) {
    let mut r = c.rng();
    let m = small(&mut r);
    let k = gen::key(&mut r);
    let db = Arc::new(to_db(&m, &k.key()));
    let nt = r.range(2, 8);
    let per = per_case(c) / nt;
    let bar = Arc::new(Barrier::new(nt));
    let hs: Vec<_> = (0..nt)
        .map(|_| {
            let (db, bar) = (db.clone(), bar.clone());
            std::thread::spawn(move || {
                bar.wait();
                (0..per).map(|_| must_save(&db)).collect::<Vec<_>>()
            })
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        for f in h.join().unwrap() {
            match f.and_then(|f| record(&f)) {
                Ok(rec) => {
                    if !inside(c, &rec) {
                        return;
                    }
                    all.extend_from_slice(&rec);
                }
                Err(e) => return c.fail(e),
            }
        }
    }
    c.add("saves recorded", (all.len() / REC) as u64);
    c.add("saves recorded by several threads at once", (all.len() / REC) as u64);
    out("s", &all);
}

/// Opening and saving by turns: nothing of the file opened comes back.
fn chains(c: &mut Ctx) {
    let mut r = c.rng();
    let m = small(&mut r);
    let k = gen::key(&mut r);
    let mut f = if r.bool() {
        foreign_plain(&mut r, &m, &k).file
    } else {
        match must_save(&to_db(&m, &k.key())) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        }
    };
    let mut all = vec![];
    for i in 0..per_case(c) / 5 {
        match record(&f) {
            Ok(x) => {
                all.extend_from_slice(&x);
                if i > 0 && !inside(c, &x) {
                    return;
                }
            }
            Err(e) => return c.fail(e),
        }
        let mut db = match must_open(&f, &k.key()) {
            Ok(d) => d,
            Err(e) => return c.fail(e),
        };
        match r.below(3) {
            0 => db = db.clone(),
            1 => db.name.push('x'),
            _ => {}
        }
        f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
    }
    c.add("saves recorded", (all.len() / REC) as u64);
    out("s", &all);
}

/// Saves around failures of the destination.
fn failed(c: &mut Ctx) {
    let mut r = c.rng();
    let m = small(&mut r);
    let k = gen::key(&mut r);
    let mut db = to_db(&m, &k.key());
    let mut all = vec![];
    for _ in 0..per_case(c) / 2 {
        if r.chance(1, 3) {
            // an entry whose text cannot be saved
            db.root_group.name.push('\u{1}');
            let _ = save(&db);
            db.root_group.name.pop();
        }
        let mut w = SWriter::new(vec![], false);
        w.fail_at = Some((r.range(200, 600), Step::Fail(std::io::ErrorKind::Other)));
        w.once = r.bool();
        let _ = guard(|| db.save(&mut w));
        if let Ok(x) = record(&w.got) {
            all.extend_from_slice(&x);
            c.n("failed saves recorded");
        }
        match must_save(&db).and_then(|f| record(&f)) {
            Ok(x) => {
                if !inside(c, &x) {
                    return;
                }
                all.extend_from_slice(&x);
            }
            Err(e) => return c.fail(e),
        }
    }
    c.add("saves recorded", (all.len() / REC) as u64);
    out("s", &all);
}

fn keyfiles(c: &mut Ctx) {
    let n = per_case(c) * 4;
    let mk = move || -> Result<Vec<u8>, String> {
        let mut v = vec![];
        for i in 0..n {
            let k = guard(|| match i % 4 {
                0 => KeyFile::new(),
                1 => KeyFile::new_binary(),
                2 => KeyFile::new_hex(),
                _ => KeyFile::new_xml(),
            })?
            .map_err(|e| format!("{:?}", e))?;
            if k.key.unsecure().len() != 32 {
                return Err(format!("a new key file has {} bytes", k.key.unsecure().len()));
            }
            v.extend_from_slice(k.key.unsecure());
        }
        Ok(v)
    };
    let two = c.index % 2 == 0;
    let h = if two { Some(std::thread::spawn(mk)) } else { None };
    let mut all = match mk() {
        Ok(v) => v,
        Err(e) => return c.fail(e),
    };
    if let Some(h) = h {
        match h.join().unwrap() {
            Ok(v) => all.extend(v),
            Err(e) => return c.fail(e),
        }
    }
    c.add("key files recorded", (all.len() / 32) as u64);
    c.add("evaluations", (all.len() / 32) as u64);
    for k in all.chunks(32) {
        c.seen_bytes(k);
    }
    out("k", &all);
}

fn uuids(c: &mut Ctx) {
    let n = per_case(c) * 5;
    let mk = move || -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..n {
            v.extend_from_slice(kpdb::EntryUuid::new_random().0.as_bytes());
            v.extend_from_slice(kpdb::GroupUuid::new_random().0.as_bytes());
            v.extend_from_slice(kpdb::CustomIconUuid::new_random().0.as_bytes());
            v.extend_from_slice(Entry::new().uuid.0.as_bytes());
            v.extend_from_slice(Group::new("g").uuid.0.as_bytes());
        }
        v
    };
    let h = std::thread::spawn(mk);
    let mut all = mk();
    all.extend(h.join().unwrap());
    for _ in 0..20 {
        let db = Database::new(&gen::KeySpec::pw("x").key());
        all.extend_from_slice(db.root_group.uuid.0.as_bytes());
    }
    c.add("identifiers recorded", (all.len() / 16) as u64);
    c.add("evaluations", (all.len() / 16) as u64);
    out("u", &all);
}

fn load(dir: &str, name: &str) -> Vec<u8> {
    let mut v = vec![];
    let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    for p in names {
        if p.file_name().map_or(false, |n| n.to_string_lossy().starts_with(&format!("c14-{}.", name))) {
            v.extend(std::fs::read(p).unwrap_or_default());
        }
    }
    v
}

/// Bits that are not fair: (bit, sigmas)
fn bits(rows: &[&[u8]], len: usize, skip: &[usize]) -> Option<(usize, f64)> {
    if rows.len() < 1000 {
        return None;
    }
    let mut ones = vec![0u64; len * 8];
    for r in rows {
        for i in 0..len {
            for b in 0..8 {
                ones[i * 8 + b] += ((r[i] >> b) & 1) as u64;
            }
        }
    }
    let n = rows.len() as f64;
    ones.iter()
        .enumerate()
        .filter(|(i, _)| !skip.contains(i))
        .map(|(i, &o)| (i, (o as f64 - n / 2.0) / (n / 4.0).sqrt()))
        .find(|x| x.1.abs() > 7.0)
}
fn byte_values(rows: &[&[u8]], skip: &[usize]) -> Option<(u8, f64)> {
    let mut h = [0u64; 256];
    let mut n = 0u64;
    for r in rows {
        for (i, b) in r.iter().enumerate() {
            if !skip.contains(&i) {
                h[*b as usize] += 1;
                n += 1;
            }
        }
    }
    if n < 100_000 {
        return None;
    }
    let e = n as f64 / 256.0;
    h.iter().enumerate().map(|(i, &o)| (i as u8, (o as f64 - e) / e.sqrt())).find(|x| x.1.abs() > 7.0)
}

/// Judges everything recorded in one run.
pub fn judge(dir: &str, counters: &mut BTreeMap<String, u64>) -> Vec<String> {
    let mut out = vec![];
    let s = load(dir, "s");
    let rows: Vec<&[u8]> = s.chunks_exact(REC).collect();
    let k = load(dir, "k");
    let keys: Vec<&[u8]> = k.chunks_exact(32).collect();
    let u = load(dir, "u");
    let ids: Vec<&[u8]> = u.chunks_exact(16).collect();
    // no 8-byte piece of any random value appears twice
    let mut w: Vec<u64> = vec![];
    let mut piece = |b: &[u8]| {
        for c in b.chunks_exact(8) {
            w.push(u64::from_le_bytes(c.try_into().unwrap()));
        }
    };
    for r in &rows {
        piece(r);
    }
    for r in &keys {
        piece(r);
    }
    for r in &ids {
        piece(r);
    }
    w.sort_unstable();
    *counters.entry("8-byte pieces compared".into()).or_insert(0) += w.len() as u64;
    let mut dups: HashSet<u64> = w.windows(2).filter(|x| x[0] == x[1]).map(|x| x[0]).collect();
    drop(w);
    if !dups.is_empty() {
        let n = dups.len();
        let mut seen: Vec<String> = vec![];
        let look = |b: &[u8], what: &dyn Fn(usize) -> String, dups: &HashSet<u64>| -> Option<String> {
            b.chunks_exact(8).enumerate().find(|(_, c)| dups.contains(&u64::from_le_bytes((*c).try_into().unwrap()))).map(|(i, _)| what(i * 8))
        };
        let fname = |at: usize| -> String {
            FIELDS.iter().rev().find(|f| at >= f.1).map_or("?".into(), |f| if at >= 144 { "cipher text".into() } else { f.0.to_string() })
        };
        if dups.len() > 1000 {
            dups = dups.into_iter().take(1000).collect();
        }
        for r in &rows {
            if let Some(x) = look(r, &fname, &dups) {
                seen.push(x);
            }
        }
        for r in &keys {
            if let Some(x) = look(r, &|_| "key file".into(), &dups) {
                seen.push(x);
            }
        }
        for r in &ids {
            if let Some(x) = look(r, &|_| "identifier".into(), &dups) {
                seen.push(x);
            }
        }
        seen.sort();
        seen.dedup();
        out.push(format!("{} random values were used more than once: {}", n, seen.join(", ")));
    }
    // fairness
    let parts: Vec<(String, Vec<&[u8]>, usize, Vec<usize>)> = FIELDS
        .iter()
        .map(|(n, at, len)| (n.to_string(), rows.iter().map(|r| &r[*at..at + len]).collect(), *len, vec![]))
        .chain(std::iter::once(("cipher text".to_string(), rows.iter().map(|r| &r[144..]).collect(), 48, vec![])))
        .chain(std::iter::once(("key files".to_string(), keys.clone(), 32, vec![])))
        .chain(std::iter::once(("identifiers".to_string(), ids.clone(), 16, vec![6, 8])))
        .collect();
    for (n, v, len, skip) in &parts {
        let sb: Vec<usize> = skip.iter().flat_map(|b| if *b == 6 { 52..56 } else { 70..72 }).collect();
        if let Some((i, z)) = bits(v, *len, &sb) {
            out.push(format!("bit {} of byte {} of the {} is biased ({:.1} standard deviations over {})", i % 8, i / 8, n, z, v.len()));
        }
        if let Some((b, z)) = byte_values(v, skip) {
            out.push(format!("byte {} is too frequent or rare in the {} ({:.1} standard deviations)", b, n, z));
        }
        // successive values have nothing in common
        let x: Vec<Vec<u8>> = v.windows(2).map(|w| w[0].iter().zip(w[1]).map(|(a, b)| a ^ b).collect()).collect();
        let xs: Vec<&[u8]> = x.iter().map(|v| &v[..]).collect();
        if let Some((i, z)) = bits(&xs, *len, &sb) {
            out.push(format!("successive {}: bit {} of byte {} changes too often or rarely ({:.1} standard deviations)", n, i % 8, i / 8, z));
        }
    }
    // nor have the values of one save
    for a in 0..FIELDS.len() {
        for b in a + 1..FIELDS.len() {
            let l = FIELDS[a].2.min(FIELDS[b].2);
            let x: Vec<Vec<u8>> =
                rows.iter().map(|r| (0..l).map(|i| r[FIELDS[a].1 + i] ^ r[FIELDS[b].1 + i]).collect()).collect();
            let xs: Vec<&[u8]> = x.iter().map(|v| &v[..]).collect();
            if let Some((i, z)) = bits(&xs, l, &[]) {
                out.push(format!(
                    "{} and {}: bit {} of byte {} is related ({:.1} standard deviations)",
                    FIELDS[a].0,
                    FIELDS[b].0,
                    i % 8,
                    i / 8,
                    z
                ));
            }
        }
    }
    *counters.entry("bit positions tested".into()).or_insert(0) += parts.iter().map(|p| p.2 as u64 * 16).sum::<u64>();
    let procs: HashSet<u64> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| hash_bytes(e.file_name().to_string_lossy().split('.').last().unwrap_or("").as_bytes())).collect())
        .unwrap_or_default();
    *counters.entry("files of processes merged".into()).or_insert(0) += procs.len() as u64;
    out
}
/// What one frozen process shows: random values of a few saves, a key file, identifiers.
pub fn frozen() -> i32 {
    let db = {
        let mut d = Database::new(&gen::KeySpec::pw("x").key());
        d.transform_rounds = kpdb::TransformRounds(1);
        d
    };
    for _ in 0..4 {
        match must_save(&db).and_then(|f| record(&f)) {
            Ok(r) => {
                for (_, at, len) in FIELDS {
                    for p in r[at..at + len].chunks(8) {
                        println!("{}", rc::hex(p));
                    }
                }
            }
            Err(_) => return 3,
        }
        for k in [KeyFile::new(), KeyFile::new_binary(), KeyFile::new_hex()] {
            match k {
                Ok(k) => k.key.unsecure().chunks(8).for_each(|p| println!("{}", rc::hex(p))),
                Err(_) => return 3,
            }
        }
        for u in [Entry::new().uuid.0, Group::new("x").uuid.0, kpdb::CustomIconUuid::new_random().0] {
            u.as_bytes().chunks(8).for_each(|p| println!("{}", rc::hex(p)));
        }
    }
    0
}
