//! Changed files are rejected or mean the same.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{self, Enc};
use crate::rng::{mix, Rng};
use crate::util::*;
use kpdb::CompositeKey;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "A case is one saved (or independently written) file under a family of changes: every byte position under several \
               masks, structural header edits, splices, block edits by a key holder, altered start bytes and header hashes; \
               distinct by the hash of the changed file.",
        sections: vec![
            Section { name: "bytes", quick: 16 * 24, thorough: 16 * 160, f: bytes },
            Section { name: "splices", quick: 240, thorough: 3000, f: splices },
            Section { name: "header", quick: 300, thorough: 4000, f: header },
            Section { name: "blocks", quick: 260, thorough: 4000, f: blocks },
            Section { name: "bulk", quick: 24, thorough: 240, f: bulk },
            Section { name: "hash", quick: 160, thorough: 2000, f: hash },
            Section { name: "start", quick: 64, thorough: 640, f: start },
        ],
        need: &[("evaluations", 60_000), ("rejected", 50_000), ("key holder changes", 3000), ("changes to files over a megabyte", 1000)],
        assumptions: &["changes that declare more than 2^18 rounds are skipped (each open would take minutes by design)"],
        vmem_kib: 0,
    }
}

const MAX_ROUNDS: u64 = 1 << 18;

/// Opens a changed file and judges the outcome.
fn judge(c: &mut Ctx, f: &[u8], orig: &[u8], key: &CompositeKey, want: &MDb, what: &dyn Fn() -> String) {
    if f == orig {
        return;
    }
    if declared_rounds(f) > MAX_ROUNDS {
        c.n("skipped: huge rounds");
        return;
    }
    c.eval();
    c.seen_bytes(f);
    match open(f, key) {
        Err(p) => {
            c.attach("kdbx", f);
            c.fail(format!("{}: {}", what(), p));
        }
        Ok(Err(_)) => c.n("rejected"),
        Ok(Ok(db)) => match differences(want, &from_db(&db)) {
            None => c.n("opened to the same content"),
            Some(d) => {
                c.attach("kdbx", f);
                c.attach("original.kdbx", orig);
                c.fail(format!("{}: opened to different content: {}", what(), d));
            }
        },
    }
}

fn base(r: &mut Rng) -> (Vec<u8>, CompositeKey, MDb, gen::KeySpec) {
    let mut m = gen::db(r, &gen::Cfg { groups: 1, entries: 2, history: 1, fields: 2, ..gen::TINY });
    m.rounds = 1 + r.below(3) as u64;
    m.comment = match r.below(12) {
        0..=5 => Some(gen::comment(gen::text(r, false).into_bytes())),
        6 | 7 => {
            let n = *r.pick(&[255usize, 256, 600, 1100, 2100, 4100, 5000, 9000, 20000, 65535]);
            Some(r.bytes(n))
        }
        _ => None,
    };
    let k = gen::key(r);
    let key = k.key();
    let f = must_save(&to_db(&m, &key)).expect("save");
    (f, key, expect_after_save(&m), k)
}

fn bytes(c: &mut Ctx) {
    let file = c.index / 16;
    let slice = c.index % 16;
    let mut r = Rng::new(mix(c.seed ^ mix(file as u64 + 77)));
    let (f, key, x, _) = base(&mut r);
    let mut rr = c.rng();
    let mut g = f.clone();
    // the header in full, the payload spread
    let step = 1 + f.len() / 6000;
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    for i in (slice..f.len()).step_by(16) {
        if i > h + 64 && i + 64 < f.len() && (i / 16) % step != 0 {
            continue;
        }
        // of a long comment only a part (it comes first)
        if i > 300 && i + 600 < h && (i / 16) % (1 + h / 1000) != 0 {
            continue;
        }
        let masks = [1u8, 0x80, 0xff, 1 << rr.below(8), rr.byte() | 2];
        for (n, m) in masks.iter().enumerate() {
            if n >= 2 && !c.thorough && i > h && n != 3 {
                continue;
            }
            g[i] = f[i] ^ m;
            judge(c, &g, &f, &key, &x, &|| format!("byte {} of {} xor {:#04x} (header {} bytes)", i, f.len(), m, h));
        }
        g[i] = f[i];
    }
    c.add("bytes swept", (f.len() / 16) as u64);
    if slice == 0 {
        c.sample(|| format!("file of {} bytes, header {}, every 16th byte from {}", f.len(), h, slice));
    }
}

fn splices(c: &mut Ctx) {
    let mut r = c.rng();
    let (f, key, x, _) = base(&mut r);
    let (f2, _, _, _) = base(&mut r);
    // another save of the same content under the same key
    let f3 = match open(&f, &key) {
        Ok(Ok(db)) => must_save(&db).unwrap_or_default(),
        _ => vec![],
    };
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    let n = if c.thorough { 200 } else { 100 };
    for _ in 0..n {
        let mut g = f.clone();
        let mut what = vec![];
        for _ in 0..1 + r.below(2) {
            let l = g.len();
            let i = if r.chance(1, 3) { r.below(h.min(l) + 1) } else { r.below(l + 1) };
            let blk = |i: usize| h + ((i.max(h) - h) / 16) * 16;
            match r.below(13) {
                0 => {
                    let n = *r.pick(&[1usize, 2, 4, 16, 32, 100]);
                    let b = r.bytes(n);
                    g.splice(i..i, b);
                    what.push(format!("insert {} at {}", n, i));
                }
                1 => {
                    let n = (*r.pick(&[1usize, 2, 16, 32, 64])).min(l - i);
                    g.drain(i..i + n);
                    what.push(format!("delete {} at {}", n, i));
                }
                2 => {
                    let n = *r.pick(&[1usize, 15, 16, 17, 32, 48]);
                    let b = if r.bool() { r.bytes(n) } else { vec![0; n] };
                    g.extend(b);
                    what.push(format!("append {}", n));
                }
                3 => {
                    // swap two cipher blocks
                    let (a, b) = (blk(i), blk(r.below(l)));
                    if a + 16 <= l && b + 16 <= l {
                        for k in 0..16 {
                            g.swap(a + k, b + k);
                        }
                    }
                    what.push(format!("swap cipher blocks {} {}", a, b));
                }
                4 => {
                    let a = blk(i);
                    if a + 16 <= l {
                        let b = g[a..a + 16].to_vec();
                        g.splice(a..a, b);
                    }
                    what.push(format!("duplicate cipher block {}", a));
                }
                5 => {
                    let a = blk(i);
                    if a + 16 <= l {
                        g.drain(a..a + 16);
                    }
                    what.push(format!("delete cipher block {}", a));
                }
                6 => {
                    // duplicate the tail
                    let n = (16 * (1 + r.below(4))).min(l);
                    let b = g[l - n..].to_vec();
                    g.extend(b);
                    what.push(format!("append copy of last {}", n));
                }
                7 => {
                    let a = blk(i).min(l);
                    g.truncate(a);
                    g.extend_from_slice(&f2[(h.min(f2.len()) + (a - h.min(a))).min(f2.len())..]);
                    what.push(format!("tail of another file from {}", a));
                }
                8 if !f3.is_empty() => {
                    // the header of another save, or its payload
                    let h3 = refkdbx::parse_header(&f3).map_or(0, |h| h.3);
                    g = if r.bool() { [&f3[..h3], &f[h..]].concat() } else { [&f[..h], &f3[h3..]].concat() };
                    what.push("header and payload of two saves".into());
                }
                9 if !f3.is_empty() => {
                    let a = blk(i).min(l).min(f3.len());
                    g = [&f[..a.min(f.len())], &f3[a..]].concat();
                    what.push(format!("switch to another save at {}", a));
                }
                10 => {
                    let n = (1 + r.below(64)).min(l - i);
                    for x in &mut g[i..i + n] {
                        *x = 0;
                    }
                    what.push(format!("zero {} at {}", n, i));
                }
                11 => {
                    for _ in 0..1 + r.below(6) {
                        let k = r.below(l);
                        g[k] = r.byte();
                    }
                    what.push("several bytes".into());
                }
                _ => {
                    let n = (1 + r.below(40)).min(l - i);
                    g[i..i + n].reverse();
                    what.push(format!("reverse {} at {}", n, i));
                }
            }
            if g.is_empty() {
                break;
            }
        }
        judge(c, &g, &f, &key, &x, &|| what.join(", "));
    }
}

fn rebuild(pre: &[u8], fields: &[(u8, Vec<u8>)], rest: &[u8]) -> Vec<u8> {
    let mut g = pre.to_vec();
    for (id, d) in fields {
        g.push(*id);
        g.extend_from_slice(&(d.len() as u16).to_le_bytes());
        g.extend_from_slice(d);
    }
    g.extend_from_slice(rest);
    g
}

fn header(c: &mut Ctx) {
    let mut r = c.rng();
    let (f, key, x, _) = base(&mut r);
    let (_, _, fields, h) = refkdbx::parse_header(&f).unwrap();
    for n in 0..80 {
        let mut fl = fields.clone();
        let k = r.below(fl.len());
        let what;
        match n % 16 {
            0 => {
                fl[k].0 = r.below(12) as u8;
                what = format!("field {} id becomes {}", fields[k].0, fl[k].0);
            }
            1 => {
                fl.remove(k);
                what = format!("field {} dropped", fields[k].0);
            }
            2 => {
                let z = fl[k].clone();
                let at = r.below(fl.len());
                fl.insert(at, z);
                what = format!("field {} repeated at {}", fields[k].0, at);
            }
            3 => {
                let j = r.below(fl.len());
                fl.swap(k, j);
                what = format!("fields {} and {} swapped", k, j);
            }
            4 => {
                let j = r.below(fl.len());
                let t = fl[k].1.clone();
                fl[k].1 = fl[j].1.clone();
                fl[j].1 = t;
                what = format!("data of fields {} and {} swapped", k, j);
            }
            5 => {
                let m = fl[k].1.len();
                fl[k].1 = r.bytes(m);
                if fl[k].0 == 6 {
                    fl[k].1[3..].fill(0);
                }
                what = format!("field {} random data", fields[k].0);
            }
            6 => {
                let m = 1 + r.below(20);
                let b = r.bytes(m);
                fl[k].1.extend(b);
                what = format!("field {} longer", fields[k].0);
            }
            7 => {
                fl[k].1.pop();
                what = format!("field {} shorter", fields[k].0);
            }
            8 => {
                // comment added, changed or removed
                let b = gen::comment(gen::text(&mut r, false).into_bytes());
                match fl.iter().position(|x| x.0 == 1) {
                    Some(i) if r.bool() => {
                        fl.remove(i);
                    }
                    Some(i) => fl[i].1 = b,
                    None => {
                        let at = r.below(fl.len());
                        fl.insert(at, (1, b));
                    }
                }
                what = "comment changed".into();
            }
            9 => {
                let at = r.below(fl.len());
                let b = gen::comment(gen::text(&mut r, false).into_bytes());
                fl.insert(at, (1, b));
                what = "another comment".into();
            }
            10 => {
                let i = fl.iter().position(|x| x.0 == 3).unwrap();
                fl[i].1[0] ^= 1;
                what = "compression flag flipped".into();
            }
            11 => {
                let i = fl.iter().position(|x| x.0 == 6).unwrap();
                let v = u64::from_le_bytes(fl[i].1[..].try_into().unwrap());
                let w = [v + 1, v.wrapping_sub(1) % 1000, v + 256, v + 65536, 0];
                fl[i].1 = w[r.below(5)].to_le_bytes().to_vec();
                what = "rounds changed".into();
            }
            12 => {
                let m = r.below(30);
                let b = r.bytes(m);
                let i = fl.len() - 1;
                fl[i].1 = b;
                what = format!("end field of {} bytes", m);
            }
            13 => {
                // repeated with other data, either place
                let mut z = fl[k].clone();
                for y in z.1.iter_mut() {
                    *y ^= 0x11;
                }
                if z.0 == 6 {
                    z.1 = 5u64.to_le_bytes().to_vec();
                }
                let at = if r.bool() { k } else { k + 1 };
                if fl[k].0 != 0 || at == k {
                    fl.insert(at, z);
                }
                what = format!("field {} repeated with other data", fields[k].0);
            }
            14 => {
                r.shuffle(&mut fl);
                what = "fields shuffled".into();
            }
            _ => {
                let (a, b) = (8 + r.below(4), 1 << r.below(8));
                let mut g = f.clone();
                g[a] ^= b;
                judge(c, &g, &f, &key, &x, &|| format!("version byte {} xor {}", a, b));
                continue;
            }
        }
        let g = rebuild(&f[..12], &fl, &f[h..]);
        judge(c, &g, &f, &key, &x, &|| what.clone());
    }
}

/// Someone with the key alters the hashed blocks without fixing the hashes, or their framing.
fn blocks(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    e.block_sizes = match r.below(3) {
        0 => vec![64 + r.below(300)],
        1 => (0..4).map(|_| 16 + r.below(800)).collect(),
        _ => vec![700],
    };
    let f = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    reframe(c, &mut r, &f, &k.key(), 60);
}
/// Big files: with a change anywhere in them, in few big or many small blocks.
fn bulk(c: &mut Ctx) {
    let mut r = c.rng();
    let n = *r.pick(&[1usize << 20, 1_500_000, (1 << 21) + 77, 3 << 20, 5 << 20]);
    let kind = r.below(12);
    let m = gen::bulk(&mut r, kind, n);
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    e.gzip = c.index % 4 == 0;
    e.rounds = 1;
    e.block_sizes = vec![*r.pick(&[1usize << 20, 1 << 16, 1 << 24, 1_000_000, (1 << 20) + 1])];
    let f = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    let key = k.key();
    let tries = if c.thorough { 60 } else { 40 };
    let before = c.counters.get("evaluations").cloned().unwrap_or(0);
    reframe(c, &mut r, &f, &key, tries);
    if c.failed_here() {
        return;
    }
    // without the key, on the library's own file
    let f = match must_save(&to_db(&m, &key)) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    let x = expect_after_save(&m);
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    let mut g = f.clone();
    for i in 0..tries {
        let at = match i % 4 {
            0 => f.len() - 1 - r.below(200.min(f.len() - h)),
            1 => {
                // around multiples of a megabyte of payload
                let p = h + 32 + ((1 + r.below(5)) << 20) + r.below(100) - 50;
                p.min(f.len() - 1)
            }
            _ => h + r.below(f.len() - h),
        };
        let bit = 1u8 << r.below(8);
        g[at] ^= bit;
        judge(c, &g, &f, &key, &x, &|| format!("byte {} of {} xor {:#04x}", at, f.len(), bit));
        g[at] ^= bit;
        if c.failed_here() {
            return;
        }
    }
    // whole sixteen-byte pieces swapped, removed, repeated
    for i in 0..tries / 4 {
        let nb = (f.len() - h) / 16;
        let (a, b) = (h + 16 * r.below(nb), h + 16 * r.below(nb));
        let (a, b) = (a.min(b), a.max(b));
        let g: Vec<u8> = match i % 4 {
            0 => [&f[..a], &f[b..]].concat(),
            1 => [&f[..b], &f[a..]].concat(),
            2 => [&f[..a], &f[b..(b + 16).min(f.len())], &f[(a + 16).min(f.len())..]].concat(),
            _ => [&f[..a], &vec![0u8; b - a][..], &f[b..]].concat(),
        };
        judge(c, &g, &f, &key, &x, &|| format!("pieces at {} and {} of {}: change {}", a, b, f.len(), i % 4));
        if c.failed_here() {
            return;
        }
    }
    let after = c.counters.get("evaluations").cloned().unwrap_or(0);
    c.add("changes to files over a megabyte", after - before);
}
/// The changes a holder of the key can make to the blocks.
fn reframe(c: &mut Ctx, r: &mut Rng, f: &Foreign, key: &CompositeKey, tries: usize) {
    match open(&f.file, key) {
        Ok(Ok(db)) if differences(&f.x, &from_db(&db)).is_none() => {}
        o => {
            c.attach("kdbx", &f.file);
            return c.fail(format!("unchanged file does not open to its content: {:?}", o.map(|x| x.map(|_| ()))));
        }
    }
    type B = (u32, Vec<u8>, u32, Vec<u8>);
    let mut all: Vec<B> = vec![];
    let bl = f.enc.split(&f.data);
    for (i, b) in bl.iter().enumerate() {
        all.push((i as u32, rc::sha256(b).to_vec(), b.len() as u32, b.clone()));
    }
    all.push((bl.len() as u32, vec![0; 32], 0, vec![]));
    let h = f.enc.header();
    for n in 0..tries {
        let mut a = all.clone();
        let last = a.len() - 1;
        let i = r.below(last);
        let what;
        match n % 20 {
            0 | 1 => {
                let p = if r.chance(1, 3) { a[i].3.len() - 1 } else { r.below(a[i].3.len()) };
                a[i].3[p] ^= 1 << r.below(8);
                what = format!("block {} byte {} flipped", i, p);
            }
            2 => {
                let p = r.below(32);
                a[i].1[p] ^= 1 << r.below(8);
                what = format!("block {} hash byte {}", i, p);
            }
            3 => {
                a[i].0 = *r.pick(&[0u32, 1, 2, u32::MAX, i as u32 + 1, i as u32 ^ 0x100, (i as u32).wrapping_sub(1)]);
                what = format!("block {} id {}", i, a[i].0);
            }
            4 => {
                let j = r.below(last);
                a.swap(i, j);
                what = format!("blocks {} and {} swapped", i, j);
            }
            5 => {
                let j = r.below(last);
                a.swap(i, j);
                let t = a[i].0;
                a[i].0 = a[j].0;
                a[j].0 = t;
                let s = if i != j { "with ids kept in order" } else { "not at all" };
                // this is a correctly framed different document, so it must fail to parse or be the same
                if i != j && f.enc.gzip == false {
                    continue;
                }
                what = format!("blocks {} and {} swapped {}", i, j, s);
            }
            6 => {
                let b = a[i].clone();
                a.insert(i + 1, b);
                what = format!("block {} repeated", i);
            }
            7 => {
                a.remove(i);
                what = format!("block {} removed", i);
            }
            8 => {
                let p = r.below(32);
                a[last].1[p] ^= 1 << r.below(8);
                what = format!("final block hash byte {}", p);
            }
            9 => {
                a[last].0 = *r.pick(&[0u32, 7, last as u32 + 1, u32::MAX, (last as u32) ^ 0x10000]);
                what = format!("final block id {}", a[last].0);
            }
            10 => {
                a.remove(last);
                what = "final block removed".into();
            }
            11 => {
                // final block early, blocks follow it
                let mut fin = all[last].clone();
                fin.0 = i as u32;
                a.insert(i, fin);
                what = format!("final block before block {}", i);
            }
            12 => {
                a[i].2 = *r.pick(&[0u32, 1, u32::MAX, a[i].2 + 1, a[i].2 - 1, 0x7fff_ffff]);
                what = format!("block {} size {}", i, a[i].2);
            }
            13 => {
                let h = rc::sha256(b"");
                a.insert(i, (i as u32, h.to_vec(), 0, vec![]));
                what = format!("empty block with the hash of nothing before {}", i);
            }
            14 => {
                a[i].3.pop();
                a[i].2 -= 1;
                what = format!("block {} one byte shorter", i);
            }
            15 => {
                let b = r.byte();
                a[i].3.push(b);
                a[i].2 += 1;
                what = format!("block {} one byte longer", i);
            }
            16 => {
                let j = r.below(last);
                let t = a[i].1.clone();
                a[i].1 = a[j].1.clone();
                a[j].1 = t;
                what = format!("hashes of blocks {} and {} swapped", i, j);
            }
            17 => {
                a[i].1 = vec![0; 32];
                what = format!("block {} hash zero", i);
            }
            18 => {
                let m = a[i].3.len();
                a[i].3 = r.bytes(m);
                what = format!("block {} random data", i);
            }
            _ => {
                let p = 16 + r.below(16);
                a[i].1[p] ^= 0x80;
                let q = r.below(a[i].3.len());
                a[i].3[q] ^= 0x80;
                what = format!("block {} data and hash byte {}", i, p);
            }
        }
        let mut p = f.enc.start_bytes.to_vec();
        for (id, h, n, d) in &a {
            p.extend_from_slice(&id.to_le_bytes());
            p.extend_from_slice(h);
            p.extend_from_slice(&n.to_le_bytes());
            p.extend_from_slice(d);
        }
        let g = f.enc.seal(&f.comp, &h, &p);
        c.n("key holder changes");
        judge(c, &g, &f.file, key, &f.x, &|| format!("{} of {} blocks, gzip {}: {}", last, last, f.enc.gzip, what));
        if c.failed_here() {
            return;
        }
    }
    c.sample(|| format!("{} blocks of {} bytes in all, gzip {}", bl.len(), f.data.len(), f.enc.gzip));
}

/// The recorded header hash and the header disagree.
fn hash(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let e = Enc::random(&mut r);
    let mut f = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    let key = k.key();
    let good = rc::sha256(&f.enc.header());
    let tag = rc::b64(&good);
    let xml = String::from_utf8(f.xml.clone()).unwrap();
    if xml.matches(&tag).count() != 1 {
        return;
    }
    let with = |f: &Foreign, h: &[u8]| -> Vec<u8> {
        let x = xml.replace(&tag, &rc::b64(h));
        f.enc.file(&f.comp, x.as_bytes())
    };
    for n in 0..40 {
        let mut h = good.to_vec();
        let what;
        match n {
            0..=31 => {
                h[n] ^= 1 << r.below(8);
                what = format!("recorded hash byte {}", n);
            }
            32 => {
                h.truncate(r.below(32));
                what = format!("recorded hash of {} bytes", h.len());
            }
            33 => {
                h.push(r.byte());
                what = "recorded hash of 33 bytes".into();
            }
            34 => {
                h.clear();
                what = "empty recorded hash".into();
            }
            35 => {
                h = vec![0; 32];
                what = "zero recorded hash".into();
            }
            36 => {
                h = r.bytes(32);
                what = "random recorded hash".into();
            }
            37 => {
                h.truncate(31);
                what = "recorded hash of 31 bytes".into();
            }
            38 => {
                h.extend(good);
                what = "recorded hash twice".into();
            }
            _ => {
                h.reverse();
                what = "recorded hash reversed".into();
            }
        }
        let g = with(&f, &h);
        c.n("key holder changes");
        c.eval();
        c.seen_bytes(&g);
        match open(&g, &key) {
            Err(p) => return c.fail(format!("{}: {}", what, p)),
            Ok(Err(_)) => c.n("rejected"),
            Ok(Ok(_)) => {
                c.attach("kdbx", &g);
                return c.fail(format!("{}: opened", what));
            }
        }
    }
    // another header under the same recorded hash; the payload is the same
    for n in 0..8 {
        let old = f.enc.clone();
        let what = match n {
            0 => {
                f.enc.comment = Some(b"changed".to_vec());
                if !f.enc.order.contains(&1) {
                    f.enc.order.insert(0, 1);
                }
                "comment"
            }
            1 => {
                f.enc.minor ^= 1 << r.below(16);
                "minor version"
            }
            2 => {
                f.enc.major ^= 1 << r.below(16);
                "major version"
            }
            3 => {
                f.enc.end_data = b"other".to_vec();
                "end header"
            }
            4 => {
                f.enc.rounds += 1;
                "rounds (re-encrypted)"
            }
            5 => {
                f.enc.iv = r.arr();
                "iv (re-encrypted)"
            }
            6 => {
                f.enc.master_seed = r.arr();
                f.enc.transform_seed = r.arr();
                "seeds (re-encrypted)"
            }
            _ => {
                f.enc.start_bytes = r.arr();
                "start bytes (re-encrypted)"
            }
        };
        let g = f.enc.seal(&f.comp, &f.enc.header(), &f.enc.frame(&f.enc.split(&f.data)));
        c.n("key holder changes");
        if f.enc.header() != old.header() {
            c.eval();
            c.seen_bytes(&g);
            match open(&g, &key) {
                Err(p) => return c.fail(format!("{}: {}", what, p)),
                Ok(Err(_)) => c.n("rejected"),
                Ok(Ok(_)) => {
                    c.attach("kdbx", &g);
                    return c.fail(format!("header with another {} under the old recorded hash opened", what));
                }
            }
        }
        f.enc = old;
    }
}

fn start(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let f = foreign_plain(&mut r, &m, &k);
    let key = k.key();
    let good = f.enc.frame(&f.enc.split(&f.data));
    for i in 0..32 {
        let mut p = good.clone();
        p[i] ^= 1 << r.below(8);
        let g = f.enc.seal(&f.comp, &f.enc.header(), &p);
        c.n("key holder changes");
        c.eval();
        c.seen_bytes(&g);
        match open(&g, &key) {
            Err(p) => return c.fail(format!("start byte {}: {}", i, p)),
            Ok(Err(_)) => c.n("rejected"),
            Ok(Ok(_)) => {
                c.attach("kdbx", &g);
                return c.fail(format!("start byte {} altered, but the file opened", i));
            }
        }
    }
}
