//! Prefixes and torn files never open.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{self, gzip, Enc};
use crate::rng::{mix, Rng};
use crate::util::*;
use kpdb::CompositeKey;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "A case is one saved file cut at every length, one pair of an older and a newer save mixed sector by sector \
               (or with zeros), or one independently written file whose payload is cut at every hashed-block boundary by a \
               key holder; distinct by the hash of the torn file.",
        sections: vec![
            Section { name: "prefixes", quick: 16 * 24, thorough: 16 * 200, f: prefixes },
            Section { name: "torn", quick: 500, thorough: 8000, f: torn },
            Section { name: "boundaries", quick: 300, thorough: 4000, f: boundaries },
            Section { name: "inside", quick: 200, thorough: 3000, f: inside },
            Section { name: "bulk", quick: 24, thorough: 240, f: bulk },
            Section { name: "samples", quick: 32, thorough: 32, f: samples },
        ],
        need: &[("prefixes refused", 10_000), ("torn files refused", 5_000), ("boundary cuts refused", 2_000), ("cuts and mixtures of files over a megabyte refused", 800)],
        assumptions: &["a torn file is modelled as any mixture of sectors of the old file, the new file and zeros"],
        vmem_kib: 0,
    }
}

fn base(r: &mut Rng, big: bool) -> (Vec<u8>, CompositeKey, MDb) {
    let mut m = if big { gen::db(r, &gen::SMALL) } else { gen::db(r, &gen::TINY) };
    m.rounds = 1 + r.below(3) as u64;
    let key = gen::key(r).key();
    let f = must_save(&to_db(&m, &key)).expect("save");
    (f, key, expect_after_save(&m))
}

fn cut(c: &mut Ctx, f: &[u8], n: usize, key: &CompositeKey) -> bool {
    c.eval();
    match open(&f[..n], key) {
        Err(p) => {
            c.attach("kdbx", f);
            c.fail(format!("first {} of {} bytes: {}", n, f.len(), p));
            false
        }
        Ok(Err(_)) => {
            c.n("prefixes refused");
            true
        }
        Ok(Ok(_)) => {
            c.attach("kdbx", f);
            c.fail(format!("the first {} of {} bytes of a file opened", n, f.len()));
            false
        }
    }
}

fn prefixes(c: &mut Ctx) {
    let (file, slice) = (c.index / 16, c.index % 16);
    let mut r = Rng::new(mix(c.seed ^ mix(file as u64 + 606)));
    let (f, key, _) = base(&mut r, file % 4 == 3);
    if slice == 0 {
        c.seen_bytes(&f);
        c.sample(|| format!("every prefix of a file of {} bytes", f.len()));
    }
    let l = f.len();
    let step = 1 + l / 16_000;
    for n in (slice..l).step_by(16) {
        // every length that keeps whole cipher blocks, and the others thinned out in large files
        if step > 1 && n > 400 && (l - n) % 16 != 0 && (n / 16) % step != 0 && l - n > 64 {
            continue;
        }
        if !cut(c, &f, n, &key) {
            return;
        }
    }
    // the cuts that keep whole cipher blocks, once more for all slices
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    for k in (slice..(l - h) / 16).step_by(16) {
        if !cut(c, &f, h + 16 * k, &key) {
            return;
        }
    }
}

fn torn(c: &mut Ctx) {
    let mut r = c.rng();
    let big = r.chance(1, 3);
    let (old, key, xo) = base(&mut r, big);
    // the newer file: an edit of the same database, or only another save of it
    let (new, xn) = {
        let db = match open(&old, &key) {
            Ok(Ok(db)) => db,
            _ => return c.fail("the saved file does not open"),
        };
        let mut db = db;
        if r.chance(3, 4) {
            let mut b = 6;
            let g = gen::group(&mut r, &gen::TINY, 1, &[], &mut b);
            db.root_group.add_group(to_group(&g));
            if r.bool() {
                db.root_group.entries.clear();
            }
        }
        db.name = "newer".into();
        let m = from_db(&db);
        (must_save(&db).expect("save"), expect_after_save(&m))
    };
    let tries = if c.thorough { 60 } else { 30 };
    for _ in 0..tries {
        let s = *r.pick(&[16usize, 64, 512, 512, 4096]);
        let len = match r.below(4) {
            0 => old.len(),
            1 => old.len().max(new.len()),
            _ => new.len(),
        };
        let kind = r.below(6);
        let (p, q) = (1 + r.below(8), r.below(len + 1));
        let mut f = vec![0u8; len];
        let ns = (len + s - 1) / s;
        let lone = r.below(ns.max(1));
        for i in 0..ns {
            let src: u8 = match kind {
                // a prefix of the new file reached the disk over the old one
                0 => (i * s >= q) as u8,
                // a prefix over zeros (the file was truncated first, its length set)
                1 => 2 * (i * s >= q) as u8,
                // sectors arrive in any order
                2 => r.chance(p, 9) as u8,
                3 => 2 * r.chance(p, 9) as u8,
                4 => r.below(3) as u8,
                // one sector is missing
                _ => {
                    if i == lone {
                        1 + r.bool() as u8
                    } else {
                        0
                    }
                }
            };
            let z = (i * s, ((i + 1) * s).min(len));
            let from: &[u8] = match src {
                0 => &new,
                1 => &old,
                _ => &[],
            };
            for k in z.0..z.1 {
                f[k] = from.get(k).copied().unwrap_or(0);
            }
        }
        if f == old || f == new {
            c.n("mixtures equal to a whole file");
            continue;
        }
        if declared_rounds(&f) > 1 << 18 {
            c.n("skipped: huge rounds");
            continue;
        }
        c.eval();
        c.seen_bytes(&f);
        match open(&f, &key) {
            Err(p) => {
                c.attach("kdbx", &f);
                return c.fail(format!("torn file: {}", p));
            }
            Ok(Err(_)) => c.n("torn files refused"),
            Ok(Ok(db)) => {
                let m = from_db(&db);
                if differences(&xn, &m).is_none() || differences(&xo, &m).is_none() {
                    c.n("torn files with a whole database inside");
                } else {
                    c.attach("kdbx", &f);
                    c.attach("old.kdbx", &old);
                    c.attach("new.kdbx", &new);
                    return c.fail(format!("a mixture (kind {}, sectors of {}) of two files opened to mixed content", kind, s));
                }
            }
        }
    }
    c.sample(|| format!("old {} bytes, new {} bytes", old.len(), new.len()));
}

/// The opened database may only be the whole one (a cut may take nothing but white space off the end).
fn whole(c: &mut Ctx, g: &[u8], f: &Foreign, key: &CompositeKey, ok: bool, what: String) -> bool {
    c.eval();
    c.seen_bytes(g);
    match open(g, key) {
        Err(p) => {
            c.attach("kdbx", g);
            c.fail(format!("{}: {}", what, p));
            false
        }
        Ok(Err(_)) => {
            c.n("boundary cuts refused");
            true
        }
        Ok(Ok(db)) => {
            let d = differences(&f.x, &from_db(&db));
            if ok && d.is_none() {
                c.n("cuts that lose nothing");
                return true;
            }
            c.attach("kdbx", g);
            c.fail(format!("{}: opened {}", what, d.unwrap_or("to the same content".into())));
            false
        }
    }
}

fn boundaries(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    let n = *r.pick(&[8usize, 30, 100, 300, 1000]);
    e.block_sizes = if r.bool() { vec![n] } else { (0..20).map(|_| 1 + r.below(2 * n)).collect() };
    // white space behind the document, so that a cut within it leaves a whole document
    let mut st = plain_style();
    let many = r.chance(1, 4);
    if many {
        e.gzip = false;
        let n = *r.pick(&[20usize, 100, 300, 300, 600]);
        let c = *r.pick(&[" ", "\n", "\t", "\n "]);
        st.trailing = c.repeat(n);
        e.block_sizes = if r.bool() { vec![1 + r.below(9)] } else { vec![1 + r.below(3), 1 + r.below(30)] };
    }
    let mut f = foreign(&mut r, &m, &k, e, plain_opts(), &st, true);
    if many && f.data.len() > 20_000 {
        // some hundred blocks are enough
        let n = 1 + f.data.len() / (301 + r.below(700));
        f.enc.block_sizes = vec![n];
    }
    let key = k.key();
    let bl = f.enc.split(&f.data);
    let step = (1 + bl.len() / 60).max(1);
    let start = r.below(step);
    let mut cuts: Vec<usize> = (start..bl.len()).step_by(step).collect();
    if many {
        let near = bl.len().saturating_sub(12)..bl.len();
        cuts.extend(near);
        for p in [127usize, 255, 256, 257, 511, 512] {
            if p < bl.len() {
                cuts.push(p);
            }
        }
        if bl.len() > 300 {
            c.n("documents of more than 300 blocks");
        }
    }
    for i in cuts {
        let rest: Vec<u8> = bl[i..].concat();
        // nothing but white space behind the document may be lost
        let blank = !f.enc.gzip && rest.iter().all(|b| b" \t\r\n".contains(b));
        // cut at the boundary, no final block
        let full = f.enc.frame(&bl[..i]);
        let cut = &full[..full.len() - 40];
        for tail in 0..4 {
            let p: Vec<u8> = match tail {
                0 => cut.to_vec(),
                1 => full.clone(),
                2 => [cut, &(i as u32).to_le_bytes()[..]].concat(),
                _ => [cut, &(i as u32).to_le_bytes()[..], &rc::sha256(&bl[i])[..]].concat(),
            };
            let g = f.enc.seal(&f.comp, &f.enc.header(), &p);
            let what = format!("payload cut after {} of {} blocks, gzip {}, ending {}", i, bl.len(), f.enc.gzip, tail);
            if !whole(c, &g, &f, &key, blank && tail == 1, what) {
                return;
            }
        }
    }
    c.sample(|| format!("{} blocks, {} bytes, gzip {}", bl.len(), f.data.len(), f.enc.gzip));
}

/// Cuts of the data inside correctly framed blocks, and of the document inside a correct gzip stream.
fn inside(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    if r.bool() {
        e.block_sizes = vec![1 << 20];
    }
    let f = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    let key = k.key();
    let put = |data: &[u8]| f.enc.seal(&f.comp, &f.enc.header(), &f.enc.frame(&f.enc.split(data)));
    let n = if c.thorough { 60 } else { 30 };
    for i in 0..n {
        let gz = f.enc.gzip;
        let (g, blank, what) = if i % 2 == 0 {
            let l = f.data.len();
            let at = match r.below(4) {
                0 => l - 1 - r.below(20.min(l)),
                1 => r.below(20).min(l - 1),
                _ => r.below(l),
            };
            let blank = !gz && f.data[at..].iter().all(|b| b" \t\r\n".contains(b));
            (put(&f.data[..at]), blank, format!("data cut at {} of {}, gzip {}", at, l, gz))
        } else {
            let l = f.xml.len();
            let at = match r.below(5) {
                0 => l - 1 - r.below(40.min(l)),
                // behind an element
                1 | 2 => {
                    let e: Vec<usize> = (1..l).filter(|&i| f.xml[i - 1] == b'>').collect();
                    *r.pick(&e)
                }
                _ => r.below(l),
            };
            let blank = f.xml[at..].iter().all(|b| b" \t\r\n".contains(b));
            let d = if gz { gzip(&f.xml[..at], 6) } else { f.xml[..at].to_vec() };
            (put(&d), blank, format!("document cut at {} of {}, gzip {}", at, l, gz))
        };
        if !whole(c, &g, &f, &key, blank, what) {
            return;
        }
    }
}

fn samples(c: &mut Ctx) {
    let f = data("db-password.kdbx");
    let key = CompositeKey::from_password("password");
    let ok = [CompositeKey::from_password("password"), CompositeKey::from_password("test")]
        .into_iter()
        .find(|k| matches!(open(&f, k), Ok(Ok(_))));
    let key = ok.unwrap_or(key);
    let mut r = c.rng();
    for _ in 0..8 {
        let n = r.below(f.len());
        if !cut(c, &f, n, &key) {
            return;
        }
    }
}

/// Files of several megabytes, of one block or many: cut, torn, and cut at their blocks by a key holder.
fn bulk(c: &mut Ctx) {
    let mut r = c.rng();
    let n = *r.pick(&[1usize << 20, 1_500_000, (1 << 21) + 77, 3 << 20, 5 << 20]);
    let kind = r.below(12);
    let mut m = gen::bulk(&mut r, kind, n);
    m.gzip = c.index % 4 == 0;
    let k = gen::key(&mut r);
    let key = k.key();
    let db = to_db(&m, &key);
    let (f, g) = match (must_save(&db), must_save(&db)) {
        (Ok(f), Ok(g)) => (f, g),
        _ => return c.fail("save failed"),
    };
    let x = expect_after_save(&m);
    c.seen_bytes(&f);
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    let tries = if c.thorough { 60 } else { 30 };
    for i in 0..tries {
        let at = match i % 3 {
            0 => f.len() - 1 - r.below(100.min(f.len() - h)),
            1 => h + ((r.below(f.len() - h)) & !15),
            _ => h + (((1 + r.below(5)) << 20) & !15) + 16 * r.below(6),
        };
        if !cut(c, &f, at.min(f.len() - 1), &key) {
            return;
        }
        c.n("cuts and mixtures of files over a megabyte refused");
    }
    for i in 0..tries / 2 {
        let at = h + r.below(f.len() - h);
        let to = (at + (1 << (9 + r.below(12)))).min(f.len());
        let t: Vec<u8> = match i % 3 {
            // the rest comes from the older file, or has not arrived
            0 => [&f[..at], &g[at.min(g.len())..]].concat(),
            1 => [&f[..at], &vec![0u8; f.len() - at][..]].concat(),
            _ => [&f[..at], &vec![0u8; to - at][..], &f[to..]].concat(),
        };
        if t == f || t == g {
            continue;
        }
        c.eval();
        match open(&t, &key) {
            Ok(Err(_)) => c.n("cuts and mixtures of files over a megabyte refused"),
            Err(p) => return c.fail(format!("torn at {} of {}: {}", at, f.len(), p)),
            Ok(Ok(d)) => match differences(&x, &from_db(&d)) {
                None => c.n("torn files with a whole database inside"),
                Some(d) => return c.fail(format!("torn at {} of {}: {}", at, f.len(), d)),
            },
        }
    }
    let mut e = Enc::random(&mut r);
    e.gzip = m.gzip;
    e.rounds = 1;
    e.block_sizes = vec![*r.pick(&[1usize << 20, 1 << 17, 1_000_000])];
    let f = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    let bl = f.enc.split(&f.data);
    let step = 1 + bl.len() / 12;
    for i in (0..bl.len()).step_by(step) {
        let rest: Vec<u8> = bl[i..].concat();
        let blank = !f.enc.gzip && rest.iter().all(|b| b" \t\r\n".contains(b));
        let full = f.enc.frame(&bl[..i]);
        for tail in 0..2 {
            let p = if tail == 0 { full[..full.len() - 40].to_vec() } else { full.clone() };
            let g = f.enc.seal(&f.comp, &f.enc.header(), &p);
            let what = format!("payload of {} bytes cut after {} of {} blocks, gzip {}, ending {}", f.data.len(), i, bl.len(), f.enc.gzip, tail);
            if !whole(c, &g, &f, &key, blank && tail == 1, what) {
                return;
            }
        }
    }
}
