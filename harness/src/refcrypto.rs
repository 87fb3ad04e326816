//! Independent SHA-256, AES-256 and Salsa20, written from the standards; checked against published vectors in `selftest`.

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98,
    0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8,
    0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819,
    0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
    0xc67178f2,
];

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    let mut w = [0u32; 64];
    for c in m.chunks(64) {
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v[7] = v[6];
            v[6] = v[5];
            v[5] = v[4];
            v[4] = v[3].wrapping_add(t1);
            v[3] = v[2];
            v[2] = v[1];
            v[1] = v[0];
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn sha256_cat(parts: &[&[u8]]) -> [u8; 32] {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    sha256(&v)
}

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 6], // 2,3,9,11,13,14
}

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}

fn tables() -> &'static Tables {
    use std::sync::OnceLock;
    static T: OnceLock<Tables> = OnceLock::new();
    T.get_or_init(|| {
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for i in 0..256usize {
            let mut x = 0u8;
            if i != 0 {
                for j in 1..256usize {
                    if gmul(i as u8, j as u8) == 1 {
                        x = j as u8;
                        break;
                    }
                }
            }
            let s = x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63;
            sbox[i] = s;
            inv[s as usize] = i as u8;
        }
        let mut mul = [[0u8; 256]; 6];
        for (k, m) in [2u8, 3, 9, 11, 13, 14].iter().enumerate() {
            for i in 0..256 {
                mul[k][i] = gmul(i as u8, *m);
            }
        }
        Tables { sbox, inv, mul }
    })
}

pub struct Aes256 {
    rk: [[u8; 16]; 15],
}

impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Aes256 {
        let t = tables();
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut x = w[i - 1];
            if i % 8 == 0 {
                x.rotate_left(1);
                for b in x.iter_mut() {
                    *b = t.sbox[*b as usize];
                }
                x[0] ^= rcon;
                rcon = xt(rcon);
            } else if i % 8 == 4 {
                for b in x.iter_mut() {
                    *b = t.sbox[*b as usize];
                }
            }
            for j in 0..4 {
                w[i][j] = w[i - 8][j] ^ x[j];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for c in 0..4 {
                rk[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        Aes256 { rk }
    }

    pub fn enc(&self, b: &mut [u8; 16]) {
        let t = tables();
        for i in 0..16 {
            b[i] ^= self.rk[0][i];
        }
        for r in 1..15 {
            let mut s = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    s[4 * c + row] = t.sbox[b[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r < 14 {
                for c in 0..4 {
                    let a = [s[4 * c] as usize, s[4 * c + 1] as usize, s[4 * c + 2] as usize, s[4 * c + 3] as usize];
                    for row in 0..4 {
                        b[4 * c + row] = t.mul[0][a[row]]
                            ^ t.mul[1][a[(row + 1) % 4]]
                            ^ a[(row + 2) % 4] as u8
                            ^ a[(row + 3) % 4] as u8;
                    }
                }
            } else {
                *b = s;
            }
            for i in 0..16 {
                b[i] ^= self.rk[r][i];
            }
        }
    }

    pub fn dec(&self, b: &mut [u8; 16]) {
        let t = tables();
        for i in 0..16 {
            b[i] ^= self.rk[14][i];
        }
        for r in (0..14).rev() {
            let mut s = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    s[4 * ((c + row) % 4) + row] = t.inv[b[4 * c + row] as usize];
                }
            }
            for i in 0..16 {
                s[i] ^= self.rk[r][i];
            }
            if r > 0 {
                for c in 0..4 {
                    let a = [s[4 * c] as usize, s[4 * c + 1] as usize, s[4 * c + 2] as usize, s[4 * c + 3] as usize];
                    for row in 0..4 {
                        b[4 * c + row] = t.mul[5][a[row]]
                            ^ t.mul[3][a[(row + 1) % 4]]
                            ^ t.mul[4][a[(row + 2) % 4]]
                            ^ t.mul[2][a[(row + 3) % 4]];
                    }
                }
            } else {
                *b = s;
            }
        }
    }
}

/// CBC without padding; `data.len()` must be a multiple of 16.
pub fn cbc_enc_raw(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = c[i] ^ prev[i];
        }
        a.enc(&mut b);
        out.extend_from_slice(&b);
        prev = b;
    }
    out
}

pub fn cbc_enc(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut p = data.to_vec();
    p.extend(std::iter::repeat(n as u8).take(n));
    cbc_enc_raw(key, iv, &p)
}

pub fn cbc_dec_raw(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
    let a = Aes256::new(key);
    let mut prev = *iv;
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let mut b = [0u8; 16];
        b.copy_from_slice(c);
        let keep = b;
        a.dec(&mut b);
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        out.extend_from_slice(&b);
        prev = keep;
    }
    out
}

pub fn cbc_dec(key: &[u8; 32], iv: &[u8; 16], data: &[u8]) -> Result<Vec<u8>, String> {
    if data.is_empty() || data.len() % 16 != 0 {
        return Err("ciphertext length".into());
    }
    let mut out = cbc_dec_raw(key, iv, data);
    let n = *out.last().unwrap() as usize;
    if n == 0 || n > 16 || out[out.len() - n..].iter().any(|&b| b as usize != n) {
        return Err("padding".into());
    }
    out.truncate(out.len() - n);
    Ok(out)
}

/// Salsa20/20 keystream with 256-bit key and 64-bit nonce.
pub struct Salsa20 {
    key: [u8; 32],
    nonce: [u8; 8],
    ctr: u64,
    buf: [u8; 64],
    pos: usize,
}

impl Salsa20 {
    pub fn new(key: &[u8; 32], nonce: &[u8; 8]) -> Salsa20 {
        Salsa20 { key: *key, nonce: *nonce, ctr: 0, buf: [0; 64], pos: 64 }
    }
    fn block(&mut self) {
        let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let c = b"expand 32-byte k";
        let mut x = [0u32; 16];
        x[0] = le(&c[0..4]);
        x[5] = le(&c[4..8]);
        x[10] = le(&c[8..12]);
        x[15] = le(&c[12..16]);
        for i in 0..4 {
            x[1 + i] = le(&self.key[4 * i..]);
            x[11 + i] = le(&self.key[16 + 4 * i..]);
        }
        x[6] = le(&self.nonce[0..]);
        x[7] = le(&self.nonce[4..]);
        x[8] = self.ctr as u32;
        x[9] = (self.ctr >> 32) as u32;
        let o = x;
        fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
            x[b] ^= x[a].wrapping_add(x[d]).rotate_left(7);
            x[c] ^= x[b].wrapping_add(x[a]).rotate_left(9);
            x[d] ^= x[c].wrapping_add(x[b]).rotate_left(13);
            x[a] ^= x[d].wrapping_add(x[c]).rotate_left(18);
        }
        for _ in 0..10 {
            qr(&mut x, 0, 4, 8, 12);
            qr(&mut x, 5, 9, 13, 1);
            qr(&mut x, 10, 14, 2, 6);
            qr(&mut x, 15, 3, 7, 11);
            qr(&mut x, 0, 1, 2, 3);
            qr(&mut x, 5, 6, 7, 4);
            qr(&mut x, 10, 11, 8, 9);
            qr(&mut x, 15, 12, 13, 14);
        }
        for i in 0..16 {
            self.buf[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(o[i]).to_le_bytes());
        }
        self.ctr += 1;
        self.pos = 0;
    }
    pub fn xor(&mut self, data: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len());
        for &b in data {
            if self.pos == 64 {
                self.block();
            }
            out.push(b ^ self.buf[self.pos]);
            self.pos += 1;
        }
        out
    }
}

pub const INNER_NONCE: [u8; 8] = [0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a];

pub fn composite(password: Option<&[u8]>, key_file: Option<&[u8]>) -> [u8; 32] {
    let mut v = Vec::new();
    if let Some(p) = password {
        v.extend_from_slice(&sha256(p));
    }
    if let Some(k) = key_file {
        v.extend_from_slice(k);
    }
    sha256(&v)
}

pub fn transform(comp: &[u8; 32], seed: &[u8; 32], rounds: u64) -> [u8; 32] {
    let a = Aes256::new(seed);
    let mut l = [0u8; 16];
    let mut r = [0u8; 16];
    l.copy_from_slice(&comp[..16]);
    r.copy_from_slice(&comp[16..]);
    for _ in 0..rounds {
        a.enc(&mut l);
        a.enc(&mut r);
    }
    sha256_cat(&[&l, &r])
}

pub fn master(master_seed: &[u8; 32], transformed: &[u8; 32]) -> [u8; 32] {
    sha256_cat(&[master_seed, transformed])
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(data: &[u8]) -> String {
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        s.push(B64[(n >> 18) as usize & 63] as char);
        s.push(B64[(n >> 12) as usize & 63] as char);
        s.push(if c.len() > 1 { B64[(n >> 6) as usize & 63] as char } else { '=' });
        s.push(if c.len() > 2 { B64[n as usize & 63] as char } else { '=' });
    }
    s
}
/// Strict decoder: canonical padded base64 only.
pub fn unb64(s: &str) -> Result<Vec<u8>, String> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Err(format!("base64 length {}", b.len()));
    }
    let mut out = Vec::new();
    for (i, c) in b.chunks(4).enumerate() {
        let last = (i + 1) * 4 == b.len();
        let pad = c.iter().rev().take_while(|&&x| x == b'=').count();
        if pad > 2 || (pad > 0 && !last) {
            return Err("base64 padding".into());
        }
        let mut n = 0u32;
        for (j, &x) in c.iter().enumerate() {
            let v = if j >= 4 - pad { 0 } else { B64.iter().position(|&y| y == x).ok_or("base64 char")? as u32 };
            n = n << 6 | v;
        }
        let o = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        out.extend_from_slice(&o[..3 - pad]);
        if o[3 - pad..].iter().any(|&z| z != 0) {
            return Err("base64 trailing bits".into());
        }
    }
    Ok(out)
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn selftest() -> Result<(), String> {
    let chk = |n: &str, a: &[u8], h: &str| if hex(a) == h { Ok(()) } else { Err(format!("selftest {} {}", n, hex(a))) };
    chk("sha-empty", &sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    chk("sha-abc", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    chk(
        "sha-448",
        &sha256(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
    )?;
    let mut key = [0u8; 32];
    for i in 0..32 {
        key[i] = i as u8;
    }
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = (i as u8) * 0x11;
    }
    let p = b;
    let a = Aes256::new(&key);
    a.enc(&mut b);
    chk("aes", &b, "8ea2b7ca516745bfeafc49904b496089")?;
    a.dec(&mut b);
    chk("aes-dec", &b, &hex(&p))?;
    // eSTREAM Salsa20 256-bit, set 1 vector 0
    let mut k = [0u8; 32];
    k[0] = 0x80;
    let mut s = Salsa20::new(&k, &[0; 8]);
    let o = s.xor(&[0u8; 64]);
    chk(
        "salsa",
        &o,
        "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844b22c97559e2723c7cbbd3fe4fc8d9a0744652a83e72a9c461876af4d7ef1a117",
    )?;
    if unb64(&b64(b"hello")).ok().as_deref() != Some(b"hello") {
        return Err("b64".into());
    }
    Ok(())
}
