//! Independent KDBX 3.1 container decoder and encoder.
use crate::refcrypto as rc;
use flate2::read::GzDecoder;
use flate2::write::GzEncoder;
use std::io::{Read, Write};

pub const SIG1: [u8; 4] = [0x03, 0xd9, 0xa2, 0x9a];
pub const SIG2: [u8; 4] = [0x67, 0xfb, 0x4b, 0xb5];
pub const SIG2_KDB1: [u8; 4] = [0x65, 0xfb, 0x4b, 0xb5];
pub const AES_ID: [u8; 16] =
    [0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff];

#[derive(Clone, Debug)]
pub struct Container {
    pub minor: u16,
    pub major: u16,
    pub header: Vec<(u8, Vec<u8>)>,
    pub header_len: usize,
    pub header_hash: [u8; 32],
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub rounds: u64,
    pub iv: [u8; 16],
    pub stream_key: [u8; 32],
    pub start_bytes: [u8; 32],
    pub payload: Vec<u8>,
    pub blocks: Vec<Vec<u8>>,
    pub trailing: usize,
    pub xml: Vec<u8>,
}

pub fn gunzip(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    let mut g = GzDecoder::new(d);
    g.read_to_end(&mut o).map_err(|e| format!("gzip: {}", e))?;
    let rest = g.into_inner();
    if !rest.is_empty() {
        return Err("bytes after gzip stream".into());
    }
    Ok(o)
}
/// The last digit of `level` is the compression level; the rest chooses among the other legal forms: optional fields of
/// the gzip header (5 bits) and the number of members (RFC 1952 lets a file have any number of them).
pub fn gzip(d: &[u8], level: u32) -> Vec<u8> {
    let (how, level) = (level / 10, level % 10);
    let (flags, members) = (how % 32, how / 32 % 4 + 1);
    let mut o = vec![];
    for i in 0..members as usize {
        let part = &d[d.len() * i / members as usize..d.len() * (i + 1) / members as usize];
        let mut e = GzEncoder::new(Vec::new(), flate2::Compression::new(level));
        e.write_all(part).unwrap();
        let z = e.finish().unwrap();
        assert!(z[..4] == [0x1f, 0x8b, 8, 0]);
        let mut h = z[..10].to_vec();
        h[3] = flags as u8;
        if flags & 4 != 0 {
            h.extend_from_slice(b"\x06\0AB\x02\0\0\xff");
        }
        if flags & 8 != 0 {
            h.extend_from_slice(b"database.xml\0");
        }
        if flags & 16 != 0 {
            h.extend_from_slice(b"a \xe9 comment\0");
        }
        if flags & 2 != 0 {
            let mut c = flate2::Crc::new();
            c.update(&h);
            h.extend_from_slice(&(c.sum() as u16).to_le_bytes());
        }
        o.extend(h);
        o.extend_from_slice(&z[10..]);
    }
    o
}
/// A level for `gzip`, half the time with nothing unusual.
pub fn gzip_form(r: &mut crate::rng::Rng) -> u32 {
    let how = match r.below(4) {
        0 => r.below(32),
        1 => r.below(4) * 32,
        _ => 0,
    };
    (r.below(10) + 10 * how) as u32
}

fn a<const N: usize>(v: &[u8], what: &str) -> Result<[u8; N], String> {
    v.try_into().map_err(|_| format!("{} has {} bytes", what, v.len()))
}

/// Header only: (minor, major, fields, length of the header in bytes).
pub fn parse_header(f: &[u8]) -> Result<(u16, u16, Vec<(u8, Vec<u8>)>, usize), String> {
    let need = |i: usize, n: usize| if i + n <= f.len() { Ok(()) } else { Err("truncated header".to_string()) };
    need(0, 12)?;
    if f[0..4] != SIG1 || f[4..8] != SIG2 {
        return Err("signature".into());
    }
    let minor = u16::from_le_bytes([f[8], f[9]]);
    let major = u16::from_le_bytes([f[10], f[11]]);
    let mut i = 12;
    let mut h = vec![];
    loop {
        need(i, 3)?;
        let id = f[i];
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        i += 3;
        need(i, n)?;
        h.push((id, f[i..i + n].to_vec()));
        i += n;
        if id == 0 {
            break;
        }
    }
    Ok((minor, major, h, i))
}

pub fn decode(f: &[u8], comp: &[u8; 32]) -> Result<Container, String> {
    let (minor, major, header, header_len) = parse_header(f)?;
    let find = |id: u8, name: &str| -> Result<&Vec<u8>, String> {
        let mut it = header.iter().filter(|h| h.0 == id);
        let r = it.next().ok_or(format!("header {} ({}) missing", id, name))?;
        if it.next().is_some() {
            return Err(format!("header {} repeated", id));
        }
        Ok(&r.1)
    };
    for (id, _) in &header {
        if *id > 10 {
            return Err(format!("unknown header {}", id));
        }
    }
    if find(2, "cipher")? != &AES_ID {
        return Err("cipher id".into());
    }
    let gz = match u32::from_le_bytes(a(find(3, "compression")?, "compression")?) {
        0 => false,
        1 => true,
        x => return Err(format!("compression {}", x)),
    };
    let master_seed: [u8; 32] = a(find(4, "master seed")?, "master seed")?;
    let transform_seed: [u8; 32] = a(find(5, "transform seed")?, "transform seed")?;
    let rounds = u64::from_le_bytes(a(find(6, "rounds")?, "rounds")?);
    let iv: [u8; 16] = a(find(7, "iv")?, "iv")?;
    let stream_key: [u8; 32] = a(find(8, "stream key")?, "stream key")?;
    let start_bytes: [u8; 32] = a(find(9, "start bytes")?, "start bytes")?;
    if u32::from_le_bytes(a(find(10, "inner stream")?, "inner stream")?) != 2 {
        return Err("inner stream id".into());
    }
    let comment = header.iter().find(|h| h.0 == 1).map(|h| h.1.clone());
    let key = rc::master(&master_seed, &rc::transform(comp, &transform_seed, rounds));
    let payload = rc::cbc_dec(&key, &iv, &f[header_len..])?;
    if payload.len() < 32 || payload[..32] != start_bytes {
        return Err("start bytes mismatch (wrong key)".into());
    }
    let mut p = &payload[32..];
    let mut blocks = vec![];
    loop {
        if p.len() < 40 {
            return Err("truncated block header".into());
        }
        let id = u32::from_le_bytes(a(&p[0..4], "id")?);
        let hash = &p[4..36];
        let n = u32::from_le_bytes(a(&p[36..40], "size")?) as usize;
        if id as usize != blocks.len() {
            return Err(format!("block id {} expected {}", id, blocks.len()));
        }
        let hash = hash.to_vec();
        p = &p[40..];
        if n == 0 {
            if hash != [0u8; 32] {
                return Err("final block hash".into());
            }
            break;
        }
        if p.len() < n {
            return Err("truncated block".into());
        }
        if rc::sha256(&p[..n])[..] != hash[..] {
            return Err("block hash".into());
        }
        blocks.push(p[..n].to_vec());
        p = &p[n..];
    }
    let trailing = p.len();
    let cat: Vec<u8> = blocks.concat();
    let xml = if gz { gunzip(&cat)? } else { cat };
    Ok(Container {
        minor,
        major,
        header_hash: rc::sha256(&f[..header_len]),
        header,
        header_len,
        comment,
        gzip: gz,
        master_seed,
        transform_seed,
        rounds,
        iv,
        stream_key,
        start_bytes,
        payload,
        blocks,
        trailing,
        xml,
    })
}

/// Everything a writer chooses about the container.
#[derive(Clone, Debug)]
pub struct Enc {
    pub minor: u16,
    pub major: u16,
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub gzip_level: u32,
    pub master_seed: [u8; 32],
    pub transform_seed: [u8; 32],
    pub rounds: u64,
    pub iv: [u8; 16],
    pub stream_key: [u8; 32],
    pub start_bytes: [u8; 32],
    /// order of the header ids (end header is always last)
    pub order: Vec<u8>,
    pub end_data: Vec<u8>,
    /// sizes of the hashed blocks; the last one repeats
    pub block_sizes: Vec<usize>,
}

impl Enc {
    pub fn random(r: &mut crate::rng::Rng) -> Enc {
        let mut order = vec![2, 3, 4, 5, 6, 7, 8, 10, 9];
        if r.bool() {
            r.shuffle(&mut order);
        }
        let comment = if r.chance(1, 3) {
            let n = *r.pick(&[0usize, 1, 5, 100, 255, 256, 3000, 9000, 65535]);
            order.insert(r.below(order.len() + 1), 1);
            Some(r.bytes(n))
        } else {
            None
        };
        let ends: [&[u8]; 3] = [b"\r\n\r\n", b"", b"\x00\x01\x02xyz"];
        Enc {
            minor: 1,
            major: 3,
            comment,
            gzip: r.bool(),
            gzip_level: gzip_form(r),
            master_seed: r.arr(),
            transform_seed: r.arr(),
            rounds: *r.pick(&[0u64, 1, 2, 3, 7, 20, 50]),
            iv: r.arr(),
            stream_key: r.arr(),
            start_bytes: r.arr(),
            order,
            end_data: ends[if r.bool() { 0 } else { r.below(3) }].to_vec(),
            block_sizes: match r.below(5) {
                0 => vec![usize::MAX >> 1],
                1 => vec![1 + r.below(40)],
                2 => vec![1 + r.below(2000)],
                3 => (0..5).map(|_| 1 + r.below(500)).collect(),
                _ => vec![1024 * 1024],
            },
        }
    }
    pub fn header_field(&self, id: u8) -> Vec<u8> {
        match id {
            0 => self.end_data.clone(),
            1 => self.comment.clone().unwrap_or_default(),
            2 => AES_ID.to_vec(),
            3 => (self.gzip as u32).to_le_bytes().to_vec(),
            4 => self.master_seed.to_vec(),
            5 => self.transform_seed.to_vec(),
            6 => self.rounds.to_le_bytes().to_vec(),
            7 => self.iv.to_vec(),
            8 => self.stream_key.to_vec(),
            9 => self.start_bytes.to_vec(),
            10 => 2u32.to_le_bytes().to_vec(),
            _ => vec![],
        }
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![];
        h.extend_from_slice(&SIG1);
        h.extend_from_slice(&SIG2);
        h.extend_from_slice(&self.minor.to_le_bytes());
        h.extend_from_slice(&self.major.to_le_bytes());
        for &id in self.order.iter().chain(std::iter::once(&0u8)) {
            let d = self.header_field(id);
            h.push(id);
            h.extend_from_slice(&(d.len() as u16).to_le_bytes());
            h.extend_from_slice(&d);
        }
        h
    }
    pub fn master_key(&self, comp: &[u8; 32]) -> [u8; 32] {
        rc::master(&self.master_seed, &rc::transform(comp, &self.transform_seed, self.rounds))
    }
    pub fn inner(&self) -> rc::Salsa20 {
        rc::Salsa20::new(&rc::sha256(&self.stream_key), &rc::INNER_NONCE)
    }
    pub fn split(&self, data: &[u8]) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut p = data;
        let mut i = 0;
        while !p.is_empty() {
            let n = self.block_sizes[i.min(self.block_sizes.len() - 1)].min(p.len());
            out.push(p[..n].to_vec());
            p = &p[n..];
            i += 1;
        }
        out
    }
    /// Payload (before encryption) with correct hashed blocks.
    pub fn frame(&self, blocks: &[Vec<u8>]) -> Vec<u8> {
        let mut p = self.start_bytes.to_vec();
        for (i, b) in blocks.iter().enumerate() {
            p.extend_from_slice(&(i as u32).to_le_bytes());
            p.extend_from_slice(&rc::sha256(b));
            p.extend_from_slice(&(b.len() as u32).to_le_bytes());
            p.extend_from_slice(b);
        }
        p.extend_from_slice(&(blocks.len() as u32).to_le_bytes());
        p.extend_from_slice(&[0; 32]);
        p.extend_from_slice(&0u32.to_le_bytes());
        p
    }
    pub fn seal(&self, comp: &[u8; 32], header: &[u8], payload: &[u8]) -> Vec<u8> {
        let mut f = header.to_vec();
        f.extend(rc::cbc_enc(&self.master_key(comp), &self.iv, payload));
        f
    }
    /// Whole file around a given XML document.
    pub fn file(&self, comp: &[u8; 32], xml: &[u8]) -> Vec<u8> {
        let data = if self.gzip { gzip(xml, self.gzip_level) } else { xml.to_vec() };
        self.seal(comp, &self.header(), &self.frame(&self.split(&data)))
    }
}
