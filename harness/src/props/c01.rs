//! Save, open, compare with the model that was saved.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "A case is one generated database (seeded: text classes, dates, trees, attachments, settings) saved and opened \
               again; it is non-trivial if the model has an entry or a subgroup, and distinct by the hash of the model.",
        sections: vec![
            Section { name: "random", quick: 4000, thorough: 60000, f: random },
            Section { name: "fields", quick: 1500, thorough: 12000, f: fields },
            Section { name: "deep", quick: 40, thorough: 300, f: deep },
            Section { name: "large", quick: 48, thorough: 120, f: large },
            Section { name: "samples", quick: 8, thorough: 8, f: samples },
        ],
        need: &[("evaluations", 3000), ("entries", 5000), ("protected values", 1000)],
        assumptions: &[
            "custom fields named like a well-known one in another case are only generated beside that one (alone they become it)",
            "history items nested in history items are not kept (excluded by the statement)",
        ],
        vmem_kib: 0,
    }
}

pub fn round(c: &mut Ctx, m: &MDb, k: &gen::KeySpec) {
    let key = k.key();
    let db = to_db(m, &key);
    c.eval();
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.attach("kdbx", &f);
    let o = match must_open(&f, &key) {
        Ok(o) => o,
        Err(e) => return c.fail(e),
    };
    let x = expect_after_save(m);
    let got = from_db(&o);
    if let Some(d) = differences(&x, &got) {
        return c.fail(d);
    }
    if o.composite_key != key {
        c.fail("opened database holds another key");
    }
    let n = count(&m.root);
    c.add("groups", n.0 as u64);
    c.add("entries", n.1 as u64);
    c.add("bytes saved", f.len() as u64);
    tally(c, &m.root);
    if n.0 > 1 || n.1 > 0 {
        c.seen_bytes(format!("{:?}", m).as_bytes());
    }
    c.sample(|| format!("{} groups, {} entries, {} bytes, gzip {}, {} rounds", n.0, n.1, f.len(), m.gzip, m.rounds));
}
fn tally(c: &mut Ctx, g: &MGroup) {
    for e in &g.entries {
        c.add("strings", e.strings.len() as u64);
        c.add("attachments", e.bins.len() as u64);
        c.add("history items", e.history.len() as u64);
        let p = e.strings.values().filter(|v| matches!(v, MStr::Prot(_))).count()
            + e.bins.values().filter(|v| matches!(v, MBin::Prot(_))).count();
        c.add("protected values", p as u64);
    }
    for s in &g.groups {
        tally(c, s);
    }
}

fn random(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::any_db(&mut r);
    if c.index % 4 == 1 {
        gen::variants(&mut r, &mut m.root);
    }
    let k = gen::key(&mut r);
    round(c, &m, &k);
}

/// One entry, many fields of every text class.
fn fields(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::Cfg { entries: 0, groups: 0, ..gen::TINY });
    let cfg = gen::Cfg { fields: 25, history: 3, long: c.index % 10 == 0, ..gen::TINY };
    m.root.entries.push(gen::entry(&mut r, &cfg, &[], 1));
    m.root.entries.push(gen::entry(&mut r, &cfg, &[], 1));
    if c.index % 4 == 1 {
        gen::variants(&mut r, &mut m.root);
    }
    let k = gen::key(&mut r);
    round(c, &m, &k);
}

fn deep(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::Cfg { entries: 0, groups: 0, ..gen::TINY });
    let d = 10 + r.below(90);
    m.root = gen::chain(&mut r, d);
    let k = gen::key(&mut r);
    round(c, &m, &k);
}

/// Big attachments, many entries, long texts: more than one megabyte of document.
fn large(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::SMALL);
    match c.index % 6 {
        4 | 5 => {
            let n = gen::bulk_size(&mut r, 1 << 23);
            m = gen::bulk(&mut r, c.index / 6 * 2 + c.index % 6, n);
            m.gzip = c.index / 6 % 2 == 0;
        }
        0 => {
            let n = 1_000_000 + r.below(900_000);
            m.binaries.insert("big".into(), r.bytes(n));
        }
        1 => {
            for _ in 0..1500 {
                m.root.entries.push(gen::entry(&mut r, &gen::TINY, &[], 1));
            }
        }
        2 => {
            let n = 1_048_576 + r.below(100_000);
            m.root.notes = (0..n).map(|i| (32 + (i * 7 + i / 100) % 90) as u8 as char).collect();
        }
        _ => {
            for _ in 0..600 {
                let mut b = 3;
                m.root.groups.push(gen::group(&mut r, &gen::TINY, 1, &[], &mut b));
            }
            let n = 300_000 + r.below(10);
            let mut e = gen::entry(&mut r, &gen::TINY, &[], 1);
            e.strings.insert("Password".into(), MStr::Prot((0..n).map(|i| 33 + (i % 90) as u8).collect()));
            e.bins.insert("huge".into(), MBin::Prot(r.bytes(n)));
            m.root.groups[0].entries.push(e);
        }
    }
    let k = gen::key(&mut r);
    round(c, &m, &k);
}

/// The sample databases of the repository, edited nowhere, go through a save unchanged.
fn samples(c: &mut Ctx) {
    let names = sample_files();
    if c.index >= names.len() {
        return;
    }
    let (n, k) = &names[c.index];
    let f = data(n);
    c.eval();
    let o = match must_open(&f, &k.key()) {
        Ok(o) => o,
        Err(e) => return c.fail(format!("{}: {}", n, e)),
    };
    let m = from_db(&o);
    c.n("sample databases");
    round(c, &m, k);
}

pub fn sample_files() -> Vec<(String, gen::KeySpec)> {
    let mut v = vec![];
    let kb = data("key-binary.key");
    let kh = data("key-hex.key");
    let kx = String::from_utf8_lossy(&data("key-xml.key")).to_string();
    let kx = kx
        .split("<Data>")
        .nth(1)
        .and_then(|s| s.split("</Data>").next())
        .and_then(|s| crate::refcrypto::unb64(s.trim()).ok())
        .unwrap_or_default();
    let kh = crate::refcrypto::unhex(&String::from_utf8_lossy(&kh)).unwrap_or_default();
    let mut names: Vec<String> = std::fs::read_dir("/repo/data")
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    names.sort();
    for n in names.into_iter().filter(|n| n.ends_with(".kdbx")) {
        let f = data(&n);
        let pw = gen::KeySpec::pw("test");
        let mut cand = vec![pw];
        let d1 = data("db-both.key");
        let d2 = data("db-key-file.key");
        let raw = |d: &Vec<u8>| -> Vec<u8> {
            let t = String::from_utf8_lossy(d).to_string();
            if d.len() == 32 {
                d.clone()
            } else if let Some(x) = t.split("<Data>").nth(1).and_then(|s| s.split("</Data>").next()) {
                crate::refcrypto::unb64(x.trim()).unwrap_or_default()
            } else {
                crate::refcrypto::unhex(t.trim()).unwrap_or_default()
            }
        };
        let (d1, d2) = (raw(&d1), raw(&d2));
        for k in [&kb, &kh, &kx, &d1, &d2] {
            cand.push(gen::KeySpec { pw: None, kf: Some(k.clone()) });
            cand.push(gen::KeySpec { pw: Some("test".into()), kf: Some(k.clone()) });
        }
        for k in cand {
            if crate::refkdbx::decode(&f, &k.comp()).is_ok() {
                v.push((n.clone(), k));
                break;
            }
        }
    }
    v
}
