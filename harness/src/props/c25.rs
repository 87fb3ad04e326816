//! Files with one defect and the error that names it.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{gzip, Enc, AES_ID};
use crate::refxml::{El, Style};
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, Database, DbType, Error};

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "A case is one valid file, which has to open, and copies of it with one defect each, sealed again with the key where \
               needed; the error must be the variant of that defect with the bytes, identifiers and sizes put into the file, and its \
               text must show them; distinct by defect and value.",
        sections: vec![
            Section { name: "signature", quick: 2500, thorough: 40_000, f: signature },
            Section { name: "ids", quick: 245, thorough: 2450, f: ids },
            Section { name: "sizes", quick: 9 * 200, thorough: 9 * 3000, f: sizes },
            Section { name: "values", quick: 2500, thorough: 40_000, f: values },
            Section { name: "missing", quick: 9 * 40, thorough: 9 * 400, f: missing },
            Section { name: "keys", quick: 1500, thorough: 20_000, f: keys },
            Section { name: "blocks", quick: 2500, thorough: 40_000, f: blocks },
            Section { name: "hash", quick: 1000, thorough: 15_000, f: hash },
            Section { name: "kdb1", quick: 300, thorough: 2000, f: kdb1 },
        ],
        need: &[
            ("InvalidDbSignature", 500),
            ("header hashes of the wrong length", 900),
            ("UnhandledDbType", 500),
            ("UnhandledHeader", 200),
            ("InvalidHeaderSize", 1000),
            ("UnhandledMasterCipher", 200),
            ("UnhandledCompression", 200),
            ("UnhandledStreamCipher", 200),
            ("MissingHeader", 200),
            ("InvalidKey", 300),
            ("CryptoError", 300),
            ("InvalidBlockId", 300),
            ("InvalidBlockHash", 300),
            ("InvalidFinalBlockHash", 200),
            ("InvalidHeaderHash", 300),
            ("Unimplemented", 100),
            ("undamaged files opened", 3000),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}

struct Base {
    enc: Enc,
    xml: Vec<u8>,
    comp: [u8; 32],
    key: CompositeKey,
    payload: Vec<u8>,
}
impl Base {
    fn seal(&self, header: &[u8]) -> Vec<u8> {
        self.enc.seal(&self.comp, header, &self.payload)
    }
    fn blocks(&self) -> Vec<Vec<u8>> {
        let data = if self.enc.gzip { gzip(&self.xml, self.enc.gzip_level) } else { self.xml.clone() };
        self.enc.split(&data)
    }
}
fn base(c: &mut Ctx, r: &mut Rng, hash: bool) -> Option<Base> {
    let k = gen::key(r);
    let mut enc = Enc::random(r);
    enc.rounds = r.below(3) as u64;
    let m = gen::db(r, &gen::TINY);
    let f = foreign(r, &m, &k, enc, plain_opts(), &Style::default(), hash);
    let b = Base {
        payload: f.enc.frame(&f.enc.split(&f.data)),
        enc: f.enc,
        xml: f.xml,
        comp: f.comp,
        key: k.key(),
    };
    match must_open(&f.file, &b.key) {
        Ok(_) => {
            c.n("undamaged files opened");
            Some(b)
        }
        Err(e) => {
            c.fail(format!("undamaged file: {}", e));
            None
        }
    }
}
/// The header fields as (id, data), the end included.
fn fields(e: &Enc) -> Vec<(u8, Vec<u8>)> {
    e.order.iter().chain(std::iter::once(&0u8)).map(|&id| (id, e.header_field(id))).collect()
}
fn header(e: &Enc, fs: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut h = e.header()[..12].to_vec();
    for (id, d) in fs {
        h.push(*id);
        h.extend_from_slice(&(d.len() as u16).to_le_bytes());
        h.extend_from_slice(d);
    }
    h
}
fn ints(v: &[u8]) -> String {
    format!("{:?}", v)
}
/// Opens and compares with the error wanted; `shows` are parts its text must have, in order.
fn judge(c: &mut Ctx, what: &str, f: &[u8], key: &CompositeKey, want: &dyn Fn(&Error) -> bool, shows: &[String]) -> bool {
    c.eval();
    c.attach("file", f);
    let e = match open(f, key) {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => {
            c.fail(format!("{}: the file opens", what));
            return false;
        }
        Err(p) => {
            c.fail(format!("{}: {}", what, p));
            return false;
        }
    };
    c.n(&ek(&e));
    if !want(&e) {
        c.fail(format!("{}: the error is {:?}", what, e));
        return false;
    }
    let t = format!("{}", e);
    let mut rest = &t[..];
    for s in shows {
        match rest.find(&s[..]) {
            Some(i) => rest = &rest[i + s.len()..],
            None => {
                c.fail(format!("{}: the error is shown as {:?}, without {}", what, t, s));
                return false;
            }
        }
    }
    if t.trim().is_empty() {
        c.fail(format!("{}: the error {:?} has no text", what, e));
        return false;
    }
    c.seen_bytes(format!("{:?}", e).as_bytes());
    c.sample(|| format!("{}: {}", what, t));
    true
}

fn other4(r: &mut Rng, not: [u8; 4]) -> [u8; 4] {
    loop {
        let mut v: [u8; 4] = not;
        match r.below(4) {
            0 => v = r.arr(),
            1 => v[r.below(4)] ^= 1 << r.below(8),
            2 => v.reverse(),
            _ => v = *r.pick(&[*b"PK\x03\x04", *b"\x7fELF", *b"<?xm", [0; 4], [0xff; 4], *b"SQLi", *b"\x89PNG", *b"%PDF"]),
        }
        if v != not {
            return v;
        }
    }
}
fn signature(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, true) {
        Some(b) => b,
        None => return,
    };
    let f = b.seal(&b.enc.header());
    let sig = other4(&mut r, crate::refkdbx::SIG1);
    let mut g = f.clone();
    g[..4].copy_from_slice(&sig);
    judge(c, "first signature", &g, &b.key, &|e| matches!(e, Error::InvalidDbSignature(x) if *x == sig), &[ints(&sig)]);
    let ty = match r.below(3) {
        0 => [0x65, 0xfb, 0x4b, 0xb5],
        1 => [0x66, 0xfb, 0x4b, 0xb5],
        _ => other4(&mut r, crate::refkdbx::SIG2),
    };
    let mut g = f.clone();
    g[4..8].copy_from_slice(&ty);
    if r.chance(1, 4) {
        g.truncate(8);
    }
    judge(c, "database type", &g, &b.key, &|e| matches!(e, Error::UnhandledDbType(x) if *x == ty), &[ints(&ty)]);
}
/// Every unknown header identifier, at any place.
fn ids(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, false) {
        Some(b) => b,
        None => return,
    };
    let id = 11 + (c.index % 245) as u8;
    for _ in 0..6 {
        let mut fs = fields(&b.enc);
        let n = *r.pick(&[0usize, 1, 4, 16, 32, 500]);
        let d = r.bytes(n);
        let at = r.below(fs.len());
        fs.insert(at, (id, d));
        let f = b.seal(&header(&b.enc, &fs));
        if !judge(c, "unknown header", &f, &b.key, &|e| matches!(e, Error::UnhandledHeader(x) if *x == id), &[id.to_string()]) {
            return;
        }
    }
}
const SIZES: [(u8, u16); 9] = [(2, 16), (3, 4), (4, 32), (5, 32), (6, 8), (7, 16), (8, 32), (9, 32), (10, 4)];
fn sizes(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, false) {
        Some(b) => b,
        None => return,
    };
    let (id, expected) = SIZES[c.index % 9];
    for _ in 0..4 {
        let actual = loop {
            let n = match r.below(5) {
                0 => r.below(40) as u16,
                1 => expected.wrapping_add(r.below(5) as u16).wrapping_sub(2),
                2 => *r.pick(&[0u16, 4, 8, 16, 32, 64, 255, 256, 65535, 512, 8192, 4096, 1024, 2048]),
                3 => expected.swap_bytes(),
                _ => r.below(3000) as u16,
            };
            if n != expected {
                break n;
            }
        };
        let mut fs = fields(&b.enc);
        let i = fs.iter().position(|x| x.0 == id).unwrap();
        let mut d = fs[i].1.clone();
        while d.len() < actual as usize {
            let k = (actual as usize - d.len()).min(32);
            d.extend(r.bytes(k));
        }
        d.truncate(actual as usize);
        if r.chance(1, 4) {
            // a second, wrong one
            let j = r.range(i, fs.len() - 2);
            fs.insert(j + 1, (id, d));
        } else {
            fs[i].1 = d;
        }
        let f = b.seal(&header(&b.enc, &fs));
        let ok = judge(
            c,
            "header size",
            &f,
            &b.key,
            &|e| matches!(e, Error::InvalidHeaderSize { id: i, expected: x, actual: a } if *i == id && *x == expected && *a == actual),
            &[id.to_string(), expected.to_string(), actual.to_string()],
        );
        if !ok {
            return;
        }
    }
}
fn values(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, false) {
        Some(b) => b,
        None => return,
    };
    let with = |id: u8, d: Vec<u8>| {
        let mut fs = fields(&b.enc);
        let i = fs.iter().position(|x| x.0 == id).unwrap();
        fs[i].1 = d;
        b.seal(&header(&b.enc, &fs))
    };
    // cipher
    let mut id: [u8; 16] = AES_ID;
    match r.below(4) {
        0 => id[r.below(16)] ^= 1 << r.below(8),
        1 => id.copy_from_slice(&rc::unhex("ad68f29f576f4bb9a36ad47af965346c").unwrap()),
        2 => id.copy_from_slice(&rc::unhex("d6038a2b8b6f4cb5a524339a31dbb59a").unwrap()),
        _ => id = r.arr(),
    }
    let f = with(2, id.to_vec());
    judge(c, "cipher", &f, &b.key, &|e| matches!(e, Error::UnhandledMasterCipher(x) if *x == id), &[ints(&id)]);
    let num = |r: &mut Rng, known: &dyn Fn(u32) -> bool| loop {
        let v = match r.below(5) {
            0 => r.below(8) as u32,
            1 => 1 << r.below(32),
            2 => (*r.pick(&[0u32, 1, 2])).swap_bytes(),
            3 => u32::MAX - r.below(3) as u32,
            _ => r.u64() as u32,
        };
        if !known(v) {
            break v;
        }
    };
    let v = num(&mut r, &|v| v < 2);
    let f = with(3, v.to_le_bytes().to_vec());
    judge(c, "compression", &f, &b.key, &|e| matches!(e, Error::UnhandledCompression(x) if *x == v), &[v.to_string()]);
    let v = num(&mut r, &|v| v == 2);
    let f = with(10, v.to_le_bytes().to_vec());
    judge(c, "inner stream", &f, &b.key, &|e| matches!(e, Error::UnhandledStreamCipher(x) if *x == v), &[v.to_string()]);
}
fn missing(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, false) {
        Some(b) => b,
        None => return,
    };
    let id = SIZES[c.index % 9].0;
    let fs: Vec<_> = fields(&b.enc).into_iter().filter(|x| x.0 != id).collect();
    let f = b.seal(&header(&b.enc, &fs));
    if !judge(c, "missing header", &f, &b.key, &|e| matches!(e, Error::MissingHeader(x) if *x == id), &[id.to_string()]) {
        return;
    }
    // several missing: one of them is named
    let gone: Vec<u8> = SIZES.iter().map(|x| x.0).filter(|&x| x == id || r.bool()).collect();
    let fs: Vec<_> = fields(&b.enc).into_iter().filter(|x| !gone.contains(&x.0)).collect();
    let f = b.seal(&header(&b.enc, &fs));
    judge(c, "missing headers", &f, &b.key, &|e| matches!(e, Error::MissingHeader(x) if gone.contains(x)), &[]);
}
fn keys(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, true) {
        Some(b) => b,
        None => return,
    };
    let f = b.seal(&b.enc.header());
    for _ in 0..3 {
        let k = loop {
            let k = gen::key(&mut r);
            if k.comp() != b.comp {
                break k;
            }
        };
        // the reference decides whether the padding happens to be right
        let off = b.enc.header().len();
        let plain = rc::cbc_dec(&b.enc.master_key(&k.comp()), &b.enc.iv, &f[off..]);
        let ok = match plain {
            Err(_) => judge(c, "wrong key", &f, &k.key(), &|e| matches!(e, Error::CryptoError(_) | Error::InvalidKey), &[]),
            Ok(_) => judge(c, "wrong key", &f, &k.key(), &|e| matches!(e, Error::InvalidKey), &[]),
        };
        if !ok {
            return;
        }
    }
    // the right padding and the wrong start: what a wrong key gives once in 256 times
    let mut p = b.payload.clone();
    let i = r.below(32);
    p[i] ^= 1 << r.below(8);
    if r.chance(1, 4) {
        p.truncate(r.below(32));
    }
    let f = b.enc.seal(&b.comp, &b.enc.header(), &p);
    judge(c, "wrong start bytes", &f, &b.key, &|e| matches!(e, Error::InvalidKey), &[]);
}
fn block(id: u32, hash: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = id.to_le_bytes().to_vec();
    v.extend_from_slice(hash);
    v.extend_from_slice(&(data.len() as u32).to_le_bytes());
    v.extend_from_slice(data);
    v
}
fn blocks(c: &mut Ctx) {
    let mut r = c.rng();
    let b = match base(c, &mut r, true) {
        Some(b) => b,
        None => return,
    };
    let bl = b.blocks();
    let n = bl.len();
    let build = |ids: &dyn Fn(usize) -> u32, hash: &dyn Fn(usize, [u8; 32]) -> [u8; 32], data: &dyn Fn(usize) -> Vec<u8>| {
        let mut p = b.enc.start_bytes.to_vec();
        for i in 0..=n {
            let d = if i < n { data(i) } else { vec![] };
            let h = if i < n { rc::sha256(&bl[i]) } else { [0; 32] };
            p.extend(block(ids(i), &hash(i, h), &d));
        }
        b.enc.seal(&b.comp, &b.enc.header(), &p)
    };
    let at = |r: &mut Rng| match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    // identifier
    let i = if r.chance(1, 3) { n } else { at(&mut r) };
    let id = loop {
        let v = match r.below(5) {
            0 => i as u32 + 1,
            1 => (i as u32).wrapping_sub(1),
            2 => i as u32 | 1 << r.below(32),
            3 => r.below(n + 3) as u32,
            _ => r.u64() as u32,
        };
        if v != i as u32 {
            break v;
        }
    };
    let f = build(&|k| if k == i { id } else { k as u32 }, &|_, h| h, &|k| bl[k].clone());
    judge(c, "block id", &f, &b.key, &|e| matches!(e, Error::InvalidBlockId(x) if *x == id), &[id.to_string()]);
    // hash
    let i = at(&mut r);
    let how = r.below(5);
    let bit = r.below(256);
    let other = r.arr::<32>();
    let f = build(
        &|k| k as u32,
        &|k, mut h| {
            if k == i {
                match how {
                    0 => h[bit / 8] ^= 1 << (bit % 8),
                    1 => h = [0; 32],
                    2 => h = other,
                    _ => {}
                }
            }
            h
        },
        &|k| {
            let mut d = bl[k].clone();
            if k == i && how >= 3 {
                let j = bit * 7919 % d.len();
                match how {
                    3 => d[j] ^= 1 << (bit % 8),
                    _ => d.push(b' '),
                }
            }
            d
        },
    );
    judge(c, "block hash", &f, &b.key, &|e| matches!(e, Error::InvalidBlockHash), &[]);
    // final hash
    let mut fin = [0u8; 32];
    match r.below(3) {
        0 => fin[r.below(32)] = 1 << r.below(8),
        1 => fin = rc::sha256(b""),
        _ => fin = r.arr(),
    }
    let f = build(&|k| k as u32, &|k, h| if k == n { fin } else { h }, &|k| bl[k].clone());
    judge(c, "final hash", &f, &b.key, &|e| matches!(e, Error::InvalidFinalBlockHash(x) if *x == fin), &[ints(&fin)]);
}
fn hash(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let mut enc = Enc::random(&mut r);
    enc.rounds = 1;
    let m = gen::db(&mut r, &gen::TINY);
    let right = rc::sha256(&enc.header());
    let mut h = right;
    match r.below(5) {
        0 => h = r.arr(),
        1 => h = [0; 32],
        2 => h = rc::sha256(&enc.header()[..enc.header().len() - 1]),
        _ => h[r.below(32)] ^= 1 << r.below(8),
    }
    let mut m2 = m.clone();
    sane_dates(&mut m2, true);
    let mk = |r: &mut Rng, h: [u8; 32]| -> Vec<u8> {
        let o = XOpts { header_hash: Some(h), ..plain_opts() };
        let root: El = XmlWriter { r, o }.doc(&mut m2.clone());
        enc.file(&k.comp(), &xml_of(&root, &enc, &Style::default()))
    };
    let good = mk(&mut r, right);
    match must_open(&good, &k.key()) {
        Ok(_) => c.n("undamaged files opened"),
        Err(e) => return c.fail(e),
    }
    let f = mk(&mut r, h);
    judge(c, "header hash", &f, &k.key(), &|e| matches!(e, Error::InvalidHeaderHash), &[]);
    // a part of the right hash, or more than it
    {
        let o = XOpts { header_hash: Some(right), ..plain_opts() };
        let root: El = XmlWriter { r: &mut r, o }.doc(&mut m2.clone());
        let x = String::from_utf8(xml_of(&root, &enc, &plain_style())).unwrap();
        let tag = rc::b64(&right);
        if x.matches(&tag).count() == 1 {
            let mut h = right.to_vec();
            match r.below(4) {
                0 => h.truncate(*r.pick(&[0usize, 0, 1, 16, 28, 31])),
                1 => h.truncate(r.range(1, 31)),
                2 => h.push(*r.pick(&[0u8, 1, 255])),
                _ => h.extend(right),
            }
            let f = enc.file(&k.comp(), x.replace(&tag, &rc::b64(&h)).as_bytes());
            c.n("header hashes of the wrong length");
            judge(c, "length of the header hash", &f, &k.key(), &|e| matches!(e, Error::InvalidHeaderHash), &[]);
        }
    }
    // the header changed instead, in a field that does not matter for decrypting
    let mut e2 = enc.clone();
    match r.below(3) {
        0 => e2.end_data = r.bytes(5),
        1 => {
            e2.comment = Some(r.bytes(9));
            e2.order.retain(|&x| x != 1);
            e2.order.insert(r.below(e2.order.len() + 1), 1);
        }
        _ => {
            let n = e2.order.len();
            e2.order.swap(0, 1 + r.below(n - 1));
        }
    }
    if e2.header() != enc.header() {
        let off = enc.header().len();
        let f = [e2.header(), good[off..].to_vec()].concat();
        judge(c, "changed header", &f, &k.key(), &|e| matches!(e, Error::InvalidHeaderHash), &[]);
    }
}
fn kdb1(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let mut db: Database = to_db(&m, &gen::key(&mut r).key());
    db.db_type = DbType::Kdb1;
    c.eval();
    let mut out = Vec::new();
    match guard(|| db.save(&mut out)) {
        Ok(Err(e)) => {
            c.n(&ek(&e));
            if !matches!(e, Error::Unimplemented(_)) {
                return c.fail(format!("saving a KeePass 1 database gives {:?}", e));
            }
            if format!("{}", e).trim().is_empty() {
                return c.fail("the error has no text");
            }
            if !out.is_empty() {
                return c.fail(format!("{} bytes were written", out.len()));
            }
        }
        Ok(Ok(())) => return c.fail("a KeePass 1 database is saved"),
        Err(p) => return c.fail(p),
    }
    c.seen_bytes(&m.root.uuid);
    // and set back, it saves
    db.db_type = DbType::Kdb2;
    db.transform_rounds.0 = 1;
    if let Err(e) = must_save(&db) {
        c.fail(e);
    }
}
