//! Any bytes at all into the two openers.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, KeyFile};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "A case is one byte string given to Database::open or KeyFile::open: random bytes, files of other formats, saved \
               files changed in any way, structured headers with arbitrary fields and sizes, valid headers before garbage, \
               XML key files of every shape; distinct by the hash of the bytes.",
        sections: vec![
            Section { name: "random", quick: 9600, thorough: 64_000, f: random },
            Section { name: "headers", quick: 16_000, thorough: 160_000, f: headers },
            Section { name: "mutated", quick: 8000, thorough: 80_000, f: mutated },
            Section { name: "garbage", quick: 10_000, thorough: 96_000, f: garbage },
            Section { name: "formats", quick: 200, thorough: 2000, f: formats },
            Section { name: "keyfiles", quick: 16_000, thorough: 160_000, f: keyfiles },
            Section { name: "bombs", quick: 96, thorough: 288, f: bombs },
            Section { name: "large", quick: 24, thorough: 120, f: large },
        ],
        need: &[("database errors", 10_000), ("key file errors", 10_000), ("reached decryption", 1_000)],
        assumptions: &[
            "declared rounds are kept at or below 2000, since the work they ask for is by design proportional to them",
            "the address space of the process is limited to 2 GiB, so that runaway allocation shows as a crash",
            "time bound: 3 s of CPU plus 20 microseconds per input byte for each call",
        ],
        vmem_kib: 2 << 20,
    }
}

/// Lowers every declared number of rounds the library would read.
pub fn clamp_rounds(f: &mut [u8]) {
    let mut i = 12;
    while i + 3 <= f.len() {
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        if f[i] == 6 && n == 8 && i + 11 <= f.len() {
            let v = u64::from_le_bytes(f[i + 3..i + 11].try_into().unwrap());
            if v > 2000 {
                f[i + 3..i + 11].copy_from_slice(&(v % 2000).to_le_bytes());
            }
        }
        if f[i] == 0 {
            return;
        }
        i += 3 + n;
    }
}

fn db(c: &mut Ctx, mut f: Vec<u8>, key: &CompositeKey, what: &str) {
    clamp_rounds(&mut f);
    c.eval();
    c.seen_bytes(&f);
    let t = cpu_ms();
    let o = open(&f, key);
    let t = cpu_ms() - t;
    let lim = 3000 + f.len() as u64 / 50;
    if t > lim {
        c.attach("kdbx", &f[..f.len().min(1 << 20)]);
        return c.fail(format!("{}: opening {} bytes took {} ms of CPU time", what, f.len(), t));
    }
    match o {
        Err(p) => {
            c.attach("kdbx", &f);
            c.fail(format!("{} ({} bytes): {}", what, f.len(), p));
        }
        Ok(Ok(_)) => c.n("databases opened"),
        Ok(Err(e)) => {
            c.n("database errors");
            c.n(&format!("db error {}", ek(&e)));
            // printing the error is part of what a caller does with it
            let _ = format!("{} {:?}", e, e);
            if ["InvalidKey", "CryptoError", "InvalidBlockHash", "XmlError"].contains(&&ek(&e)[..]) {
                c.n("reached decryption");
            }
        }
    }
}

fn kf(c: &mut Ctx, f: Vec<u8>, what: &str) {
    c.eval();
    c.seen_bytes(&f);
    let t = cpu_ms();
    let o = guard(|| KeyFile::open(&mut &f[..]));
    let t = cpu_ms() - t;
    let lim = 3000 + f.len() as u64 / 50;
    if t > lim {
        c.attach("key", &f[..f.len().min(1 << 20)]);
        return c.fail(format!("{}: opening {} bytes took {} ms of CPU time", what, f.len(), t));
    }
    match o {
        Err(p) => {
            c.attach("key", &f);
            c.fail(format!("{} ({} bytes): {}", what, f.len(), p));
        }
        Ok(Ok(_)) => c.n("key files opened"),
        Ok(Err(e)) => {
            c.n("key file errors");
            c.n(&format!("kf error {}", ek(&e)));
            let _ = format!("{} {:?}", e, e);
        }
    }
}

fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|_| *r.pick(b"<>&;!?/\"' =abKeyFile\n\t\x00\xff\xfe")).collect(),
        _ => r.bytes(n),
    }
}

/// Beginnings that announce a format or an encoding, followed by what may not keep the promise.
fn magic(r: &mut Rng) -> Vec<u8> {
    let heads: &[&[u8]] = &[
        b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"+/v8", b"\x1f\x8b\x08\0", b"\x1f\x8b", b"\x78\x9c",
        b"BZh9", b"PK\x03\x04", b"<?xml", b"<?xml version=\"1.0\" encoding=\"", b"<!DOCTYPE ", b"<KeyFile>", b"<", b"&", b"&#", b"&#x", b"]]>",
        b"{", b"[", b"\"", b"0x", b"-", b"+", b"%", b"\\u", b"data:", b"base64,", b"\x30\x82", b"\0", b"\x04\0\0\0", b"\x89PNG\r\n\x1a\n", b"KDBX",
        b"\xc3", b"\xe2\x82", b"\xf0\x9f", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xc3\xa9",
    ];
    let mut b = r.pick(heads).to_vec();
    let n = *r.pick(&[0usize, 1, 2, 3, 4, 8, 16, 29, 30, 61, 64, 300]);
    let t = match r.below(4) {
        0 => "é中\u{1f511}".repeat(n / 9 + 1).into_bytes(),
        1 => (0..n).map(|_| *r.pick(b"0123456789abcdef; =<>")).collect(),
        _ => bytes(r, n),
    };
    b.extend(t);
    if r.chance(1, 4) {
        let k = r.below(b.len() + 1);
        b.truncate(k);
    }
    b
}

fn random(c: &mut Ctx) {
    let mut r = c.rng();
    let key = gen::key(&mut r).key();
    for j in 0..8 {
        let n = match j {
            0 => c.index % 130,
            1 => *r.pick(&[0usize, 1, 4, 7, 8, 11, 12, 13, 15, 31, 32, 33, 63, 64, 65]),
            _ => r.below(600),
        };
        let mut b = bytes(&mut r, n);
        kf(c, b.clone(), "random bytes");
        // one half behind a valid signature
        if j % 2 == 1 {
            let m = r.below(13);
            let s = [&SIG1[..], &SIG2[..], &[1, 0, 3, 0]].concat();
            for (i, x) in s[..m.min(12)].iter().enumerate() {
                if i < b.len() {
                    b[i] = *x;
                }
            }
            if m > 8 {
                b = [&s[..], &b[..]].concat();
            }
        }
        db(c, b, &key, "random bytes");
    }
    c.sample(|| "8 random strings up to 600 bytes, half behind signature bytes".into());
}

fn headers(c: &mut Ctx) {
    let mut r = c.rng();
    let key = gen::key(&mut r).key();
    for _ in 0..6 {
        let mut e = Enc::random(&mut r);
        e.rounds = r.below(60) as u64;
        let mut f = vec![];
        f.extend_from_slice(&SIG1);
        f.extend_from_slice(if r.chance(1, 12) { &SIG2_KDB1 } else { &SIG2 });
        f.extend(if r.chance(1, 4) { r.bytes(4) } else { vec![1, 0, 3, 0] });
        let mut ids = e.order.clone();
        let muts = r.below(4);
        for _ in 0..muts {
            let i = r.below(ids.len());
            match r.below(4) {
                0 => {
                    ids.remove(i);
                }
                1 => ids.insert(i, r.below(13) as u8),
                2 => ids.insert(i, r.byte()),
                _ => ids[i] = r.below(12) as u8,
            }
        }
        if !r.chance(1, 8) {
            ids.push(0);
        }
        for id in ids {
            let mut d = e.header_field(id);
            if (id == 1 || id == 0) && r.chance(1, 2) {
                d = magic(&mut r);
                c.n("free header fields with an announced format");
            }
            let mut n = d.len();
            if r.chance(1, 12) {
                match r.below(7) {
                    6 => {
                        d = magic(&mut r);
                        n = d.len();
                    }
                    0 => {
                        n = r.below(70);
                        d = r.bytes(n);
                    }
                    1 => n = 65535,
                    2 => n = r.below(65536),
                    3 => {
                        let m = d.len();
                        d = r.bytes(m);
                    }
                    4 => {
                        n = *r.pick(&[0usize, 1, 255, 256, 40_000]);
                        d = bytes(&mut r, n);
                    }
                    _ => d.truncate(r.below(d.len() + 1)),
                }
            }
            f.push(id);
            f.extend_from_slice(&(n as u16).to_le_bytes());
            f.extend(d);
        }
        let n = *r.pick(&[0usize, 1, 15, 16, 17, 32, 48, 64, 160, 1000]);
        f.extend(bytes(&mut r, n));
        if r.chance(1, 5) {
            f.truncate(r.below(f.len() + 1));
        }
        db(c, f, &key, "structured header");
    }
    c.sample(|| "headers with fields dropped, repeated, resized, unknown".into());
}

fn mutated(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = r.below(3) as u64;
    let k = gen::key(&mut r);
    let key = k.key();
    let f = if c.index % 16 == 0 {
        data("db-password.kdbx")
    } else if r.bool() {
        foreign_plain(&mut r, &m, &k).file
    } else {
        must_save(&to_db(&m, &key)).expect("save")
    };
    let other = gen::key(&mut r).key();
    for _ in 0..10 {
        let mut g = f.clone();
        for _ in 0..1 + r.below(5) {
            let l = g.len();
            if l == 0 {
                break;
            }
            let i = if r.bool() { r.below(l) } else { r.below(l.min(260)) };
            match r.below(8) {
                0 => g[i] ^= 1 << r.below(8),
                1 => g[i] = r.byte(),
                2 => {
                    let n = (1 + r.below(40)).min(l - i);
                    g.drain(i..i + n);
                }
                3 => {
                    let n = 1 + r.below(40);
                    let b = bytes(&mut r, n);
                    g.splice(i..i, b);
                }
                4 => g.truncate(i),
                5 => {
                    let n = (1 + r.below(200)).min(l - i);
                    let b = g[i..i + n].to_vec();
                    g.splice(i..i, b);
                }
                6 => {
                    let n = (*r.pick(&[2usize, 4, 8])).min(l - i);
                    let v: &[u8] = r.pick(&[&[0xffu8; 8], &[0u8; 8], &[0x7f; 8], &[0x80; 8]]).as_slice();
                    g[i..i + n].copy_from_slice(&v[..n]);
                }
                _ => {
                    let n = r.below(64);
                    let b = bytes(&mut r, n);
                    g.extend(b);
                }
            }
        }
        let right = r.chance(2, 3);
        let kk = if right { &key } else { &other };
        db(c, g.clone(), kk, "changed file");
        if r.chance(1, 8) {
            kf(c, g, "changed database as key file");
        }
    }
}

/// A valid header in front of a payload that decrypts to anything.
fn garbage(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let key = k.key();
    for _ in 0..8 {
        let mut e = Enc::random(&mut r);
        e.rounds = r.below(20) as u64;
        let h = e.header();
        let n = match r.below(4) {
            0 => r.below(40),
            1 => 16 * r.below(20),
            _ => r.below(3000),
        };
        let f = match r.below(6) {
            4 | 5 => {
                // proper blocks of what announces a format, compressed or not
                let b = magic(&mut r);
                let b = if r.bool() { gzip(&b, e.gzip_level) } else { b };
                c.n("proper blocks around an announced format");
                e.seal(&k.comp(), &h, &e.frame(&e.split(&b)))
            }
            0 => [&h[..], &r.bytes(n)[..]].concat(),
            // encrypted properly: the plain text is random
            1 => {
                let b = bytes(&mut r, n);
                e.seal(&k.comp(), &h, &b)
            }
            // right start bytes, then random
            2 => {
                let b = [&e.start_bytes[..], &bytes(&mut r, n)[..]].concat();
                e.seal(&k.comp(), &h, &b)
            }
            // no padding, or padding of any value
            _ => {
                let mut b = [&e.start_bytes[..r.below(33)], &bytes(&mut r, n)[..]].concat();
                b.truncate(b.len() / 16 * 16);
                if let Some(l) = b.last_mut() {
                    *l = *r.pick(&[0u8, 1, 15, 16, 17, 32, 255, 128]);
                }
                [&h[..], &rc::cbc_enc_raw(&e.master_key(&k.comp()), &e.iv, &b)[..]].concat()
            }
        };
        db(c, f, &key, "garbage payload");
    }
}

fn formats(c: &mut Ctx) {
    let mut r = c.rng();
    let key = gen::key(&mut r).key();
    let heads: Vec<Vec<u8>> = vec![
        b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR".to_vec(),
        b"PK\x03\x04\x14\0\0\0".to_vec(),
        b"\x1f\x8b\x08\0\0\0\0\0".to_vec(),
        b"%PDF-1.4\n".to_vec(),
        b"\x7fELF\x02\x01\x01".to_vec(),
        b"MZ\x90\0".to_vec(),
        b"SQLite format 3\0".to_vec(),
        b"{\"a\": 1}".to_vec(),
        b"\xef\xbb\xbf<?xml version=\"1.0\"?>".to_vec(),
        b"\xff\xfe<\0?\0x\0m\0l\0".to_vec(),
        b"-----BEGIN PGP MESSAGE-----\n".to_vec(),
        // KeePass 1
        [&SIG1[..], &SIG2_KDB1[..], &[3, 0, 0, 0, 2, 0, 3, 0], &[7u8; 108]].concat(),
        // KDBX 4
        [&SIG1[..], &SIG2[..], &[0, 0, 4, 0, 2, 16, 0, 0, 0], &AES_ID[..], &[3, 4, 0, 0, 0, 1, 0, 0, 0]].concat(),
        // a pre-release signature
        [&SIG1[..], &[0x66, 0xfb, 0x4b, 0xb5], &[1, 0, 3, 0]].concat(),
        data("db-password.kdbx"),
        data("db-both.key"),
        data("key-hex.key"),
        data("key-xml.key"),
        data("key-binary.key"),
        std::fs::read("/proc/self/exe").map(|b| b[..b.len().min(20_000)].to_vec()).unwrap_or_default(),
    ];
    for h in heads {
        let n = r.below(400);
        let mut f = h.clone();
        if r.bool() {
            f.extend(bytes(&mut r, n));
        }
        db(c, f.clone(), &key, "another format");
        kf(c, f, "another format");
    }
}

fn xml_tree(r: &mut Rng, depth: usize, out: &mut String) {
    let names = ["KeyFile", "Meta", "Version", "Key", "Data", "x", "Hash", "keyfile"];
    let n = *r.pick(&names);
    let attr = match r.below(8) {
        0 => " a=\"1\"".to_string(),
        1 => " a='&lt;'".to_string(),
        2 => " xmlns=\"u\"".to_string(),
        3 => " a=\"1\" a=\"2\"".to_string(),
        _ => String::new(),
    };
    if r.chance(1, 8) {
        out.push_str(&format!("<{}{}/>", n, attr));
        return;
    }
    out.push_str(&format!("<{}{}>", n, attr));
    for _ in 0..r.below(4) {
        match r.below(12) {
            0 => out.push_str("1.00"),
            1 => out.push_str("2.0"),
            2 => {
                let b = r.bytes(32);
                out.push_str(&rc::b64(&b))
            }
            3 => out.push_str("<![CDATA[MTIz]]>"),
            4 => out.push_str("<!-- c -->"),
            5 => out.push_str("&#x41;&amp;&bad;"),
            6 => out.push_str("<?pi x?>"),
            7 => out.push_str("!!! not base64 é"),
            8 => out.push_str(" \n\t"),
            _ if depth > 0 => xml_tree(r, depth - 1, out),
            _ => {}
        }
    }
    if !r.chance(1, 20) {
        out.push_str(&format!("</{}>", n));
    }
}

fn keyfiles(c: &mut Ctx) {
    let mut r = c.rng();
    for _ in 0..8 {
        let f: Vec<u8> = match r.below(8) {
            0 => {
                let n = 60 + r.below(8);
                (0..n).map(|_| *r.pick(b"0123456789abcdefABCDEFgG xX\n")).collect()
            }
            1 => {
                // 64 bytes of text of more than one byte per character
                let mut s = String::new();
                while s.len() < 64 {
                    s.push(*r.pick(&['é', '0', 'a', '中', 'F']));
                }
                s.into_bytes()
            }
            2 => {
                let mut f = data("key-xml.key");
                for _ in 0..1 + r.below(4) {
                    if f.len() < 2 {
                        break;
                    }
                    let i = r.below(f.len());
                    match r.below(4) {
                        0 => f[i] = r.byte(),
                        1 => {
                            f.remove(i);
                        }
                        2 => f.insert(i, *r.pick(b"<>&/\"A= ")),
                        _ => f.truncate(i.max(1)),
                    }
                }
                f
            }
            3 => {
                let enc = *r.pick(&["UTF-16", "latin1", "utf-8", "x", "ascii", "UTF-16LE", "iso-8859-1"]);
                let mut f = format!("<?xml version=\"1.0\" encoding=\"{}\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>", enc).into_bytes();
                let n = r.below(50);
                f.extend(bytes(&mut r, n));
                f.extend(b"</Data></Key></KeyFile>");
                f
            }
            _ => {
                let mut s = String::new();
                if r.bool() {
                    s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n");
                }
                if r.chance(1, 10) {
                    s.push_str("<!DOCTYPE KeyFile [<!ENTITY a \"x\"><!ELEMENT KeyFile ANY>]>");
                }
                if r.bool() {
                    s.push_str("<KeyFile><Key>");
                }
                xml_tree(&mut r, 5, &mut s);
                if s.starts_with("<KeyFile><Key>") && r.bool() {
                    s.push_str("</Key></KeyFile>");
                }
                s.into_bytes()
            }
        };
        kf(c, f, "key file");
    }
}

fn bombs(c: &mut Ctx) {
    let mut r = c.rng();
    let n = 1000 << (c.index / 12 % 8);
    let f: Vec<u8> = match c.index % 12 {
        0 => {
            let mut s = String::from("<!DOCTYPE KeyFile [<!ENTITY a0 \"lollollollol\">");
            for i in 1..14 {
                s.push_str(&format!("<!ENTITY a{} \"{}\">", i, format!("&a{};", i - 1).repeat(10)));
            }
            s.push_str("]><KeyFile><Key><Data>&a13;</Data></Key></KeyFile>");
            s.into_bytes()
        }
        1 => ["<KeyFile>".repeat(n).as_bytes(), "</KeyFile>".repeat(n).as_bytes()].concat(),
        2 => ["<KeyFile><Key>", &"<x>".repeat(n)].concat().into_bytes(),
        // 8 to 11: unknown elements very deep in each place
        8..=11 => {
            let a = ["", "<KeyFile>", "<KeyFile><Meta>", "<KeyFile><Key>"][c.index % 12 - 8];
            let b = ["", "</KeyFile>", "</Meta></KeyFile>", "</Key></KeyFile>"][c.index % 12 - 8];
            [a, &"<x>".repeat(n), &"</x>".repeat(n), b].concat().into_bytes()
        }
        3 => ["<KeyFile><Key><Data>", &"A".repeat(n * 4), "</Data></Key></KeyFile>"].concat().into_bytes(),
        4 => ["<KeyFile ", &"a".repeat(n * 4), "=\"1\"><Key><Data>AAAA</Data></Key></KeyFile>"].concat().into_bytes(),
        5 => {
            let at: String = (0..n.min(20_000)).map(|i| format!(" a{}=\"{}\"", i, i)).collect();
            format!("<KeyFile{}><Key><Data>AAAA</Data></Key></KeyFile>", at).into_bytes()
        }
        6 => {
            let s = "<Key><Data>QUJD</Data></Key>".repeat(n.min(40_000));
            format!("<KeyFile>{}</KeyFile>", s).into_bytes()
        }
        _ => {
            let mut s = "<!-- ".to_string();
            s.push_str(&"-x ".repeat(n));
            s.push_str("--><KeyFile><Key><Data>QUJD</Data></Key></KeyFile>");
            s.push_str(&" ".repeat(r.below(n)));
            s.into_bytes()
        }
    };
    let shape = c.index % 12;
    c.sample(|| format!("shape {} of {} bytes", shape, f.len()));
    kf(c, f, "extreme XML");
}

fn large(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let key = k.key();
    let n = 1 << (16 + c.index % 7);
    let f = match c.index % 3 {
        0 => r.bytes(n),
        1 => {
            let mut e = Enc::random(&mut r);
            e.rounds = 1;
            let mut f = e.header();
            f.extend(r.bytes(n / 16 * 16));
            f
        }
        _ => {
            // a header of very many fields
            let mut f = [&SIG1[..], &SIG2[..], &[1, 0, 3, 0]].concat();
            while f.len() < n {
                f.extend([1, 4, 0, 9, 9, 9, 9]);
            }
            f
        }
    };
    if c.index % 3 == 0 {
        kf(c, f.clone(), "large input");
    }
    db(c, f, &key, "large input");
}
