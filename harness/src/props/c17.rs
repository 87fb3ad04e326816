//! Key files: round trips, other programs' files, damaged files.
use crate::ctx::*;
use crate::faults::*;
use crate::gen;
use crate::refcrypto as rc;
use crate::refxml::{parse, serialise, El, Style};
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, KeyFile, KeyFileType};
use secstr::SecStr;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "A case is one key and one key file holding it: saved by the library and opened again, written by the independent \
               writer with every legal spelling, or damaged in one way; the opened key bytes and type are compared with those \
               put in, a damaged file has to be refused; distinct by file bytes.",
        sections: vec![
            Section { name: "roundtrip", quick: 30_000, thorough: 400_000, f: roundtrip },
            Section { name: "foreign", quick: 30_000, thorough: 400_000, f: foreign },
            Section { name: "hexbad", quick: 30_000, thorough: 400_000, f: hexbad },
            Section { name: "xmlbad", quick: 50_000, thorough: 600_000, f: xmlbad },
            Section { name: "b64", quick: 50_000, thorough: 600_000, f: b64 },
            Section { name: "other", quick: 15_000, thorough: 200_000, f: other },
            Section { name: "databases", quick: 1000, thorough: 10_000, f: databases },
        ],
        need: &[
            ("key files saved and opened", 15_000),
            ("foreign key files opened", 7000),
            ("damaged hex files refused", 7000),
            ("damaged XML files refused", 10_000),
            ("altered base64 texts judged", 10_000),
            ("databases opened with key files of all types", 150),
        ],
        assumptions: &[
            "binary and hex key files hold 32 bytes (the formats are recognised by their length); XML key files any number from one",
            "spaces around the base64 text of an XML key file may be an error or be ignored",
        ],
        vmem_kib: 0,
    }
}

fn ty(r: &mut Rng) -> KeyFileType {
    r.pick(&[KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml]).clone()
}
fn key32(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![r.byte(); 32],
        1 => (0..32).map(|_| (b'0' + r.below(10) as u8) as u8).collect(),
        2 => {
            let mut v = r.bytes(32);
            *v.last_mut().unwrap() = *r.pick(b"\n\r \0=");
            v[0] = *r.pick(b"\xef<\0 \n");
            v
        }
        3 => b"<?xml version=\"1.0\" encoding=\"utf"[..32].to_vec(),
        4 => r.bytes(32).iter().map(|b| b & 0x0f).collect(),
        _ => r.bytes(32),
    }
}
fn opens(f: &[u8], r: &mut Rng) -> Result<Result<KeyFile, kpdb::Error>, String> {
    if r.chance(1, 4) {
        let mut rd = SReader::new(f, vec![Step::N(r.range(1, 40)), Step::Interrupted, Step::N(1)], true);
        guard(|| KeyFile::open(&mut rd))
    } else {
        guard(|| KeyFile::open(&mut &f[..]))
    }
}
fn text(f: &[u8]) -> String {
    String::from_utf8_lossy(f).chars().take(300).collect()
}
fn expect(c: &mut Ctx, r: &mut Rng, f: &[u8], key: &[u8], t: &KeyFileType) -> bool {
    c.eval();
    c.seen_bytes(f);
    c.attach("key", f);
    match opens(f, r) {
        Ok(Ok(k)) => {
            if k.key.unsecure() != key || k.file_type != *t {
                c.fail(format!(
                    "{:?} key file of key {} opened as {:?} with key {}: {}",
                    t,
                    rc::hex(key),
                    k.file_type,
                    rc::hex(k.key.unsecure()),
                    text(f)
                ));
                return false;
            }
            true
        }
        o => {
            c.fail(format!("{:?} key file of key {}: {:?}: {}", t, rc::hex(key), o.map(|x| x.map(|_| ())), text(f)));
            false
        }
    }
}
fn refused(c: &mut Ctx, r: &mut Rng, f: &[u8], why: &str) -> bool {
    c.eval();
    c.seen_bytes(f);
    c.attach("key", f);
    match opens(f, r) {
        Ok(Err(_)) => true,
        Ok(Ok(k)) => {
            c.fail(format!("{}: accepted as {:?} key {}: {}", why, k.file_type, rc::hex(k.key.unsecure()), text(f)));
            false
        }
        Err(p) => {
            c.fail(format!("{}: {}: {}", why, p, text(f)));
            false
        }
    }
}

fn roundtrip(c: &mut Ctx) {
    let mut r = c.rng();
    let t = ty(&mut r);
    let k = if t == KeyFileType::Xml && r.bool() {
        let n = *r.pick(&[1usize, 2, 3, 16, 31, 32, 33, 48, 57, 58, 64, 65, 100, 1000, 5000]);
        r.bytes(n)
    } else {
        key32(&mut r)
    };
    c.sample(|| format!("{:?} {}", t, rc::hex(&k[..k.len().min(40)])));
    let mut kf = KeyFile { key: SecStr::new(k.clone()), file_type: t.clone() };
    if r.chance(1, 6) {
        kf = match t {
            KeyFileType::Binary => KeyFile::new_binary(),
            KeyFileType::Hex => KeyFile::new_hex(),
            KeyFileType::Xml => if r.bool() { KeyFile::new_xml() } else { KeyFile::new() },
        }
        .unwrap();
    }
    let k = kf.key.unsecure().to_vec();
    let before = kf.clone();
    let mut f: Vec<u8> = vec![];
    for i in 0..2 {
        let mut v = vec![];
        let o = if r.chance(1, 4) {
            let mut w = SWriter::new(vec![Step::N(r.range(1, 30)), Step::Interrupted], true);
            let o = guard(|| kf.save(&mut w));
            v = w.got;
            o
        } else {
            guard(|| kf.save(&mut v))
        };
        match o {
            Ok(Ok(())) => {}
            o => return c.fail(format!("saving a {:?} key file: {:?}", t, o)),
        }
        if i == 1 && v != f {
            return c.fail("a key file saved twice differs");
        }
        f = v;
    }
    if kf != before {
        return c.fail("saving changed the key file");
    }
    if !expect(c, &mut r, &f, &k, &t) {
        return;
    }
    // what others would read
    let ok = match t {
        KeyFileType::Binary => f == k,
        KeyFileType::Hex => f.len() == 64 && rc::unhex(std::str::from_utf8(&f).unwrap_or("")).as_deref() == Some(&k),
        KeyFileType::Xml => match parse(&f) {
            Ok(e) => {
                let s = |p: &[&str]| -> Option<String> {
                    let mut x = &e;
                    for n in p {
                        x = x.child(n)?;
                    }
                    x.content().ok()
                };
                e.name == "KeyFile"
                    && s(&["Meta", "Version"]).as_deref() == Some("1.00")
                    && s(&["Key", "Data"]).and_then(|d| rc::unb64(&d).ok()).as_deref() == Some(&k)
            }
            Err(_) => false,
        },
    };
    if !ok {
        return c.fail(format!("a saved {:?} key file is not in the standard form: {}", t, text(&f)));
    }
    // and again, in another form
    let o = KeyFile::open(&mut &f[..]).unwrap();
    if o != kf {
        return c.fail("the opened key file does not equal the saved one");
    }
    if k.len() == 32 {
        let t2 = ty(&mut r);
        let kf2 = KeyFile { key: o.key.clone(), file_type: t2.clone() };
        let mut v = vec![];
        if guard(|| kf2.save(&mut v)).map_or(true, |x| x.is_err()) {
            return c.fail("saving again failed");
        }
        if !expect(c, &mut r, &v, &k, &t2) {
            return;
        }
    }
    c.n("key files saved and opened");
}

fn junk(r: &mut Rng, key: &[u8], depth: usize) -> El {
    let n = *r.pick(&["Unknown", "Hash", "Data", "Key", "KeyFile", "Meta", "Version", "x"]);
    let mut e = El::new(n);
    match r.below(4) {
        0 => {}
        1 => e = El::text(n, &rc::b64(&r.bytes(32))),
        2 => e = El::text(n, "2.00"),
        _ => {
            for _ in 0..r.below(3) {
                if depth > 0 {
                    let j = junk(r, key, depth - 1);
                    e.push(j);
                }
            }
        }
    }
    if r.chance(1, 4) {
        e = e.attr("Data", "AAAA");
    }
    e
}
/// An unknown element: its own name is not known at this place, what is inside does not matter.
fn unknown(r: &mut Rng, key: &[u8], known: &[&str]) -> El {
    loop {
        let mut e = junk(r, key, 3);
        if !known.contains(&e.name.as_str()) {
            if r.bool() {
                let j = junk(r, key, 2);
                e.kids = vec![];
                e.push(j);
            }
            return e;
        }
    }
}
fn tree(r: &mut Rng, data: &str, noise: bool) -> El {
    let mut m = El::new("Meta");
    let mut k = El::new("Key");
    let mut kf = El::new("KeyFile");
    let mut put = |r: &mut Rng, e: &mut El, known: &[&str]| {
        if noise && r.chance(1, 3) {
            let u = unknown(r, b"", known);
            e.push(u);
        }
    };
    put(r, &mut m, &["Version"]);
    m.push(El::text("Version", "1.00"));
    put(r, &mut m, &["Version"]);
    put(r, &mut k, &["Data"]);
    let mut d = El::text("Data", data);
    if noise && r.chance(1, 5) {
        d = d.attr("Unknown", "1");
    }
    k.push(d);
    put(r, &mut k, &["Data"]);
    put(r, &mut kf, &["Key", "Meta"]);
    if r.chance(1, 4) {
        kf.push(k);
        put(r, &mut kf, &["Key", "Meta"]);
        kf.push(m);
    } else {
        kf.push(m);
        put(r, &mut kf, &["Key", "Meta"]);
        kf.push(k);
    }
    put(r, &mut kf, &["Key", "Meta"]);
    kf
}
fn write(r: &mut Rng, e: &El) -> Vec<u8> {
    let st = Style::random(r);
    serialise(e, &st, &mut |_| String::new())
}

fn foreign(c: &mut Ctx) {
    let mut r = c.rng();
    let k = key32(&mut r);
    let (f, t) = match r.below(6) {
        0 => (k.clone(), KeyFileType::Binary),
        1 | 2 => {
            let h = rc::hex(&k);
            let h: String = match r.below(3) {
                0 => h,
                1 => h.to_uppercase(),
                _ => h.chars().map(|x| if r.bool() { x.to_ascii_uppercase() } else { x }).collect(),
            };
            (h.into_bytes(), KeyFileType::Hex)
        }
        _ => {
            let noise = r.bool();
            let e = tree(&mut r, &rc::b64(&k), noise);
            (write(&mut r, &e), KeyFileType::Xml)
        }
    };
    c.sample(|| text(&f));
    if expect(c, &mut r, &f, &k, &t) {
        c.n("foreign key files opened");
        c.n(&format!("foreign {:?} key files", t));
    }
}

fn hexbad(c: &mut Ctx) {
    let mut r = c.rng();
    let k = key32(&mut r);
    let mut f = rc::hex(&k).into_bytes();
    if r.bool() {
        f = rc::hex(&k).to_uppercase().into_bytes();
    }
    for _ in 0..r.range(1, 2) {
        let i = r.below(64);
        let b = match r.below(4) {
            0 => *r.pick(b"gGzZ/:@`{xX+-_ \t\n\r\0.,"),
            1 => 0x80 | r.byte(),
            _ => r.byte(),
        };
        if !b.is_ascii_hexdigit() {
            f[i] = b;
        }
    }
    match r.below(12) {
        0 => f[..2].copy_from_slice(b"0x"),
        1 => f[..2].copy_from_slice(b"+f"),
        2 => f[62..].copy_from_slice(b"\r\n"),
        3 => f[30..32].copy_from_slice("é".as_bytes()),
        4 => f[..3].copy_from_slice(b"\xef\xbb\xbf"),
        5 => f[31] = b'-',
        6 => f[..4].copy_from_slice("😀".as_bytes()),
        _ => {}
    }
    if f.iter().all(|b| b.is_ascii_hexdigit()) {
        f[r.below(64)] = b'g';
    }
    if refused(c, &mut r, &f, "a hex key file with other characters") {
        c.n("damaged hex files refused");
    }
}

fn xmlbad(c: &mut Ctx) {
    let mut r = c.rng();
    let k = key32(&mut r);
    let d = rc::b64(&k);
    let noise = r.chance(1, 3);
    let mut e = tree(&mut r, &d, noise);
    fn sub<'a>(e: &'a mut El, n: &str) -> &'a mut El {
        let i = e.kids.iter().position(|x| matches!(x, crate::refxml::Node::El(y) if y.name == n)).unwrap();
        match &mut e.kids[i] {
            crate::refxml::Node::El(y) => y,
            _ => unreachable!(),
        }
    }
    fn drop(e: &mut El, n: &str) {
        e.kids.retain(|x| !matches!(x, crate::refxml::Node::El(y) if y.name == n));
    }
    let kind = r.below(25);
    let why: String;
    let mut st = Style::random(&mut r);
    let mut raw: Option<Vec<u8>> = None;
    match kind {
        0 | 1 => {
            let v = *r.pick(&["2.00", "2.0", "2", "1.01", "1.10", "0.00", "01.00", "1.000", "1.00.0", "1,00", "3.00", "11.00", "x1.00", "1.00x", "100", ".00", "-1.00", "2.1.00"]);
            *sub(sub(&mut e, "Meta"), "Version") = El::text("Version", v);
            why = format!("version {:?}", v);
        }
        2 => {
            drop(&mut e, "Key");
            why = "no Key".into();
        }
        3 => {
            drop(sub(&mut e, "Key"), "Data");
            why = "no Data".into();
        }
        4 => {
            sub(sub(&mut e, "Key"), "Data").kids.clear();
            why = "empty Data".into();
        }
        5 => {
            *sub(sub(&mut e, "Key"), "Data") = El::text("Data", r.pick(&[" ", "\n", "\t\t", "\u{a0}"]));
            why = "blank Data".into();
        }
        6 => {
            let n = *r.pick(&["keyfile", "KeyFiles", "Keyfile", "Key", "KeePassFile", "x"]);
            e.name = n.into();
            why = format!("root element {}", n);
        }
        7 => {
            let n = *r.pick(&["key", "Keys", "KEY", "KeyFile"]);
            sub(&mut e, "Key").name = n.into();
            why = format!("{} instead of Key", n);
        }
        8 => {
            let n = *r.pick(&["data", "Dat", "Value", "DATA"]);
            drop_all(sub(&mut e, "Key"), "Data", n);
            why = format!("{} instead of Data", n);
        }
        9 => {
            // the key sits in the wrong place
            let kx = sub(&mut e, "Key").clone();
            drop(&mut e, "Key");
            sub(&mut e, "Meta").push(kx);
            why = "Key inside Meta".into();
        }
        10 => {
            let dx = sub(sub(&mut e, "Key"), "Data").clone();
            drop(sub(&mut e, "Key"), "Data");
            e.push(dx);
            why = "Data outside Key".into();
        }
        11 => {
            let mut o = El::new("Outer");
            o.push(e.clone());
            e = o;
            why = "KeyFile inside another element".into();
        }
        12 => {
            let dx = sub(sub(&mut e, "Key"), "Data").clone();
            let mut w = El::new("Wrapped");
            w.push(dx);
            drop(sub(&mut e, "Key"), "Data");
            sub(&mut e, "Key").push(w);
            why = "Data inside another element".into();
        }
        13 => {
            let kx = sub(&mut e, "Key").clone();
            let mut w = El::new("Wrapped");
            w.push(kx);
            drop(&mut e, "Key");
            e.push(w);
            why = "Key inside another element".into();
        }
        14 => {
            let mut x = El::new("Data");
            x.push(El::text("x", &d));
            *sub(sub(&mut e, "Key"), "Data") = x;
            why = "an element instead of data".into();
        }
        15 | 16 => {
            // not well formed
            st.bom = false;
            let mut f = serialise(&e, &st, &mut |_| String::new());
            let s = String::from_utf8(f.clone()).unwrap();
            let k = r.below(6);
            f = match k {
                0 => s.replacen("</Data>", "", 1),
                1 => s.replacen("</Key>", "</Keys>", 1),
                2 => s.replacen("</KeyFile>", "", usize::MAX),
                3 => s.replacen("<Meta>", "<Meta", 1),
                4 => format!("{}<", s),
                _ => s.replacen("<Data", "<<Data", 1),
            }
            .into_bytes();
            if parse(&f).is_ok() {
                return;
            }
            raw = Some(f);
            why = format!("not well formed ({})", k);
        }
        17 => {
            // cut off
            let f = serialise(&e, &st, &mut |_| String::new());
            let end = f.windows(10).rposition(|w| w == b"</KeyFile>").unwrap();
            raw = Some(f[..r.below(end + 10)].to_vec());
            let n = raw.as_ref().unwrap().len();
            if n == 32 {
                return;
            }
            why = format!("cut off at {} of {}", n, f.len());
        }
        18 => {
            raw = Some(vec![]);
            if r.bool() {
                raw = Some(b"<?xml version=\"1.0\"?>".to_vec());
            }
            why = "nothing".into();
        }
        19 => {
            // text around the document
            st.bom = false;
            let mut f = serialise(&e, &st, &mut |_| String::new());
            f.extend(b"trailing text");
            raw = Some(f);
            why = "text after the document".into();
        }
        20 => {
            let mut f = serialise(&e, &st, &mut |_| String::new());
            let at = f.windows(6).position(|w| w == b"<Data>");
            match at {
                Some(i) => f[i + 6] = 0xff,
                None => return,
            }
            raw = Some(f);
            why = "invalid UTF-8 in the data".into();
        }
        21 => {
            // one of two Data elements is garbled, the other may be the key
            let bad = *r.pick(&["!!!", "AAAA=", "A", "====", "\u{e4}\u{f6}", "AAA%"]);
            let which = r.bool();
            let kx = sub(&mut e, "Key");
            if which {
                kx.push(El::text("Data", bad));
            } else {
                kx.kids.insert(0, crate::refxml::Node::El(El::text("Data", bad)));
            }
            why = format!("a garbled Data {} the good one", if which { "after" } else { "before" });
        }
        22 => {
            // a second Key whose data is garbled
            let mut kx = El::new("Key");
            let bad = *r.pick(&["!!!", "AAAA=", "A", "===="]);
            kx.push(El::text("Data", bad));
            if r.bool() {
                e.push(kx);
                why = "a garbled Key after the good one".into();
            } else {
                e.kids.insert(0, crate::refxml::Node::El(kx));
                why = "a garbled Key before the good one".into();
            }
        }
        23 => {
            // two versions, one of them unsupported
            let v = El::text("Version", r.pick(&["2.00", "1.01", "2.0", "x"]));
            let mx = sub(&mut e, "Meta");
            if r.bool() {
                mx.push(v);
                why = "an unsupported Version after the good one".into();
            } else {
                mx.kids.insert(0, crate::refxml::Node::El(v));
                why = "an unsupported Version before the good one".into();
            }
        }
        _ => {
            let mut x = El::text("Data", &d);
            x.kids.insert(r.below(2), crate::refxml::Node::El(El::new("x")));
            *sub(sub(&mut e, "Key"), "Data") = x;
            why = "an element inside the data".into();
        }
    }
    let f = raw.unwrap_or_else(|| serialise(&e, &st, &mut |_| String::new()));
    c.sample(|| format!("{}: {}", why, text(&f)));
    if refused(c, &mut r, &f, &why) {
        c.n("damaged XML files refused");
        c.n(&format!("damage {}", kind));
    }
}
fn drop_all(e: &mut El, from: &str, to: &str) {
    for k in e.kids.iter_mut() {
        if let crate::refxml::Node::El(x) = k {
            if x.name == from {
                x.name = to.into();
            }
        }
    }
}

/// The base64 text altered in one place: its exact key, or an error.
fn b64(c: &mut Ctx) {
    let mut r = c.rng();
    let n = *r.pick(&[32usize, 32, 32, 16, 31, 33]);
    let k = r.bytes(n);
    let mut d: Vec<char> = rc::b64(&k).chars().collect();
    for _ in 0..r.range(0, 2) {
        let i = r.below(d.len());
        match r.below(5) {
            0 => {
                d.remove(i);
            }
            1 => d.insert(i, *r.pick(&['A', 'z', '=', '-', '_', '!', '.', 'é', '\u{0}'])),
            2 => d[i] = *r.pick(&['=', '-', '_', '!', '%', '\\', 'ä', '\u{ff21}']),
            3 => {
                while d.last() == Some(&'=') {
                    d.pop();
                }
            }
            _ => d[i] = *r.pick(&['A', 'b', 'C', '9', '+', '/']),
        }
        if d.is_empty() {
            d.push('A');
        }
    }
    let s: String = d.iter().filter(|c| crate::refxml::is_xml_char(**c)).collect();
    let e = tree(&mut r, &s, false);
    let mut st = Style::random(&mut r);
    st.text = 0;
    let f = serialise(&e, &st, &mut |_| String::new());
    c.eval();
    c.seen_bytes(&f);
    c.attach("key", &f);
    c.n("altered base64 texts judged");
    c.sample(|| s.clone());
    let want = rc::unb64(&s).ok().filter(|x| !x.is_empty());
    match (opens(&f, &mut r), want) {
        (Ok(Ok(g)), Some(w)) if g.key.unsecure() == &w[..] && g.file_type == KeyFileType::Xml => c.n("valid base64"),
        (Ok(Err(_)), None) => c.n("invalid base64 refused"),
        (o, w) => c.fail(format!("key data {:?}: {:?} instead of {:?}", s, o.map(|x| x.map(|k| rc::hex(k.key.unsecure()))), w.map(|w| rc::hex(&w)))),
    }
}

/// Files that are no key files at all.
fn other(c: &mut Ctx) {
    let mut r = c.rng();
    let n = match r.below(4) {
        0 => *r.pick(&[0usize, 1, 16, 30, 31, 33, 34, 62, 63, 65, 66, 128]),
        _ => r.below(300),
    };
    if n == 32 || n == 64 {
        return;
    }
    let f = match r.below(4) {
        0 => rc::hex(&r.bytes(n / 2 + 1)).into_bytes()[..n].to_vec(),
        1 => rc::b64(&r.bytes(n)).into_bytes()[..n].to_vec(),
        2 => gen::text(&mut r, true).into_bytes(),
        _ => r.bytes(n),
    };
    if f.len() == 32 || f.len() == 64 {
        return;
    }
    refused(c, &mut r, &f, "not a key file");
}

/// One database, its key file in all forms.
fn databases(c: &mut Ctx) {
    let mut r = c.rng();
    let k = key32(&mut r);
    let pw = if r.bool() { Some(gen::text(&mut r, false)) } else { None };
    let mk = |f: KeyFile| match &pw {
        Some(p) => CompositeKey::from_both(p.clone(), f),
        None => CompositeKey::from_key_file(f),
    };
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 1;
    crate::model::fix_links(&mut m.root, crate::model::NIL);
    let t0 = ty(&mut r);
    let f = match must_save(&crate::model::to_db(&m, &mk(KeyFile { key: SecStr::new(k.clone()), file_type: t0 }))) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
        let kf = KeyFile { key: SecStr::new(k.clone()), file_type: t.clone() };
        let mut v = vec![];
        if guard(|| kf.save(&mut v)).map_or(true, |x| x.is_err()) {
            return c.fail("saving a key file failed");
        }
        let o = match opens(&v, &mut r) {
            Ok(Ok(o)) => o,
            o => return c.fail(format!("{:?}", o)),
        };
        c.eval();
        c.seen_bytes(&v);
        match must_open(&f, &mk(o)) {
            Ok(d) => {
                if let Some(e) = differences(&crate::model::expect_after_save(&m), &crate::model::from_db(&d)) {
                    return c.fail(e);
                }
            }
            Err(e) => return c.fail(format!("with the {:?} key file: {}", t, e)),
        }
    }
    c.n("databases opened with key files of all types");
}
