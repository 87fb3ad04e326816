//! Canaries in secrets; everything printed (debug forms, errors, standard output and error) is searched for them.
use crate::ctx::*;
use crate::faults::*;
use crate::gen::{self, KeySpec};
use crate::model::*;
use crate::needles::Needles;
use crate::props::c13::{canary_key, plant, token, Canaries};
use crate::refcrypto as rc;
use crate::refkdbx::{self, Enc};
use crate::refxml::Style;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use kpdb::{CompositeKey, Database, Error, KeyFile, KeyFileType};
use secstr::SecStr;
use std::fmt::{Debug, Display};
use std::os::unix::fs::FileExt;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "A case puts unguessable canaries into every protected value, the password and the key file, runs a history of \
               saving, opening (also with wrong keys, damaged and malformed files, failing sources and destinations) and \
               searching, and searches every printed form and everything the process wrote to its standard output and error; \
               distinct by text searched.",
        sections: vec![
            Section { name: "values", quick: 900, thorough: 12_000, f: values },
            Section { name: "openfail", quick: 900, thorough: 12_000, f: openfail },
            Section { name: "savefail", quick: 500, thorough: 6000, f: savefail },
            Section { name: "keyfiles", quick: 1500, thorough: 20_000, f: keyfiles },
            Section { name: "history", quick: 300, thorough: 4000, f: history },
            Section { name: "twins", quick: 4000, thorough: 40_000, f: twins },
            Section { name: "short", quick: 1500, thorough: 20_000, f: short },
        ],
        need: &[
            ("printed bytes searched", 10_000_000),
            ("patterns", 500_000),
            ("errors printed", 1500),
            ("errors of malformed documents", 200),
            ("key file errors printed", 200),
            ("twins printed alike", 20_000),
            ("errors about short texts", 1000),
        ],
        assumptions: &[
            "canaries are at least 14 random characters or 16 random bytes, searched raw, reversed, in hex, base64, UTF-16, as \
             decimal and hex byte lists and with escapes",
            "plain values, names and settings may be printed: only what is protected is secret",
        ],
        vmem_kib: 0,
    }
}

/// What this process wrote to its standard output and error since the last call.
struct Tap {
    f: Option<std::fs::File>,
    at: u64,
}
thread_local! { static TAP: std::cell::RefCell<Tap> = std::cell::RefCell::new(Tap { f: None, at: 0 }); }
/// Standard output and error of a worker go to one file; only a regular file can be read back.
fn tap_start() {
    TAP.with(|t| {
        let mut t = t.borrow_mut();
        if t.f.is_none() {
            if let Ok(p) = std::fs::read_link("/proc/self/fd/2") {
                if p.to_string_lossy().ends_with(".log") {
                    t.f = std::fs::File::open(p).ok();
                }
            }
        }
        if let Some(f) = &t.f {
            t.at = f.metadata().map_or(0, |m| m.len());
        }
    });
}
fn tap() -> Option<Vec<u8>> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    TAP.with(|t| {
        let t = t.borrow();
        let f = t.f.as_ref()?;
        let n = f.metadata().ok()?.len();
        let mut v = vec![0u8; n.saturating_sub(t.at).min(1 << 24) as usize];
        f.read_exact_at(&mut v, t.at).ok()?;
        Some(v)
    })
}

struct Eye<'a> {
    n: Needles,
    c: &'a mut Ctx,
    bad: bool,
}
impl<'a> Eye<'a> {
    fn new(c: &'a mut Ctx, secrets: &[(String, Vec<u8>)]) -> Eye<'a> {
        tap_start();
        let mut n = Needles::default();
        for (w, b) in secrets {
            n.all(w, b);
            n.lists(w, b);
            // only a part of a long secret is secret enough
            if b.len() >= 28 {
                n.all(w, &b[..b.len() / 2]);
                n.lists(w, &b[..b.len() / 2]);
                n.all(w, &b[b.len() / 2..]);
                n.lists(w, &b[b.len() / 2..]);
            }
        }
        c.add("patterns", n.count as u64);
        Eye { n, c, bad: false }
    }
    fn add(&mut self, w: &str, b: &[u8]) {
        self.n.all(w, b);
        self.n.lists(w, b);
    }
    fn look(&mut self, what: &str, text: &[u8]) {
        if self.bad {
            return;
        }
        self.c.eval();
        self.c.seen(hash_bytes(text));
        self.c.add("printed bytes searched", text.len() as u64);
        if let Some((w, at)) = self.n.find(text) {
            self.bad = true;
            let from = at.saturating_sub(80);
            let to = (at + 120).min(text.len());
            let around = String::from_utf8_lossy(&text[from..to]).to_string();
            self.c.attach("printed", text);
            self.c.fail(format!("{} shows {}: …{}…", what, w, around));
        }
    }
    fn debug<T: Debug + ?Sized>(&mut self, what: &str, v: &T) {
        for (how, s) in
            [("{:?}", format!("{:?}", v)), ("{:#?}", format!("{:#?}", v)), ("{:x?}", format!("{:x?}", v)), ("{:#X?}", format!("{:#X?}", v))]
        {
            self.look(&format!("{} of {}", how, what), s.as_bytes());
        }
    }
    fn show<T: Display + ?Sized>(&mut self, what: &str, v: &T) {
        self.look(&format!("{{}} of {}", what), format!("{}", v).as_bytes());
        self.look(&format!("{{:#}} of {}", what), format!("{:#}", v).as_bytes());
    }
    #[allow(deprecated)]
    fn error(&mut self, e: &Error) {
        use std::error::Error as E;
        self.c.n("errors printed");
        self.c.n(&format!("error {}", ek(e)));
        self.debug("an error", e);
        self.show("an error", e);
        self.look("description of an error", e.description().as_bytes());
        if let Some(x) = e.source() {
            self.debug("the source of an error", x);
            self.show("the source of an error", x);
        }
        if let Some(x) = e.cause() {
            self.debug("the cause of an error", x);
            self.show("the cause of an error", x);
        }
    }
    fn done(mut self) {
        if let Some(t) = tap() {
            self.c.n("standard output and error searched");
            if !t.is_empty() {
                self.c.n("cases that printed something");
                self.look("standard output or error", &t);
            }
        }
    }
}

fn secrets(can: &Canaries, k: &KeySpec) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = can.prot.clone();
    for x in &can.all {
        if ["the password", "the hash of the password", "the double hash of the password", "the key file bytes", "the hash of the key file", "the composite key"]
            .contains(&x.0.as_str())
        {
            v.push(x.clone());
        }
    }
    v.push(("the composite key".into(), k.comp().to_vec()));
    v
}
fn derived(f: &[u8], k: &KeySpec, rounds: u64) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    if let Ok((_, _, h, _)) = refkdbx::parse_header(f) {
        let fld = |id: u8| h.iter().find(|x| x.0 == id).map(|x| x.1.clone()).unwrap_or_default();
        if let (Ok(ms), Ok(ts), Ok(sk)) =
            (<[u8; 32]>::try_from(fld(4)), <[u8; 32]>::try_from(fld(5)), <[u8; 32]>::try_from(fld(8)))
        {
            let t = rc::transform(&k.comp(), &ts, rounds);
            v.push(("the transformed key".into(), t.to_vec()));
            v.push(("the master key".into(), rc::master(&ms, &t).to_vec()));
            v.push(("the inner stream key".into(), sk.to_vec()));
            v.push(("the hashed inner stream key".into(), rc::sha256(&sk).to_vec()));
        }
    }
    v
}

fn model(r: &mut Rng) -> MDb {
    let mut m = if r.chance(1, 10) { gen::db(r, &gen::SMALL) } else { gen::db(r, &gen::TINY) };
    m.rounds = r.below(4) as u64;
    let mut e = gen::entry(r, &gen::Cfg { nested_history: true, ..gen::TINY }, &[], 2);
    e.strings.insert("Password".into(), MStr::Prot(b"p".to_vec()));
    e.strings.insert(gen::word(r), MStr::Prot(b"q".to_vec()));
    e.bins.insert(gen::word(r), MBin::Prot(r.bytes(20)));
    m.root.entries.push(e);
    m
}
/// Binary secrets inside protected strings as well.
fn raw_secret(r: &mut Rng, m: &mut MDb, can: &mut Canaries) {
    let mut b = token(r).into_bytes();
    b.push(0xff);
    b.extend_from_slice(&r.bytes(16));
    let e = m.root.entries.last_mut().unwrap();
    can.prot.push(("a protected string that is not text".into(), b[..14].to_vec()));
    can.prot.push(("a protected string that is not text".into(), b[15..].to_vec()));
    e.strings.insert("Raw".into(), MStr::Prot(b));
}

fn show_db(eye: &mut Eye, db: &Database) {
    eye.debug("a database", db);
    eye.debug("a group", &db.root_group);
    for g in db.root_group.iter() {
        for e in &g.entries {
            eye.debug("an entry", e);
            for (k, v) in &e.strings {
                eye.debug("a field name", k);
                eye.debug("a string value", v);
            }
            for (k, v) in &e.binaries {
                eye.debug("an attachment name", k);
                eye.debug("an attachment", v);
            }
            eye.debug("a history", &e.history);
            eye.debug("fields", &e.strings);
            eye.debug("attachments", &e.binaries);
            eye.show("an identifier", &e.uuid);
        }
        eye.show("an identifier", &g.uuid);
    }
    eye.debug("a composite key", &db.composite_key);
    eye.debug("custom data", &db.custom_data);
    eye.debug("a pool", &db.binaries);
}

fn values(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    let mut can = plant(&mut r, &mut m);
    if r.bool() {
        raw_secret(&mut r, &mut m, &mut can);
    }
    let k = canary_key(&mut r, &mut can);
    let s = secrets(&can, &k);
    c.sample(|| format!("{} secrets: {:?}", s.len(), s.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
    let mut eye = Eye::new(c, &s);
    let db = to_db(&m, &k.key());
    show_db(&mut eye, &db);
    eye.debug("a composite key", &k.key());
    if let Some(kf) = &k.kf {
        for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
            eye.debug("a key file", &KeyFile { key: SecStr::new(kf.clone()), file_type: t });
        }
    }
    eye.debug("results", &(Ok(db.clone()) as Result<Database, Error>));
    eye.done();
}

/// Saving, opening, searching, editing: nothing is printed on the way.
fn history(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    let mut can = plant(&mut r, &mut m);
    let k = canary_key(&mut r, &mut can);
    let s = secrets(&can, &k);
    let mut eye = Eye::new(c, &s);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return eye.c.fail(e),
    };
    for (w, b) in derived(&f, &k, m.rounds) {
        eye.add(&w, &b);
    }
    let mut db = match must_open(&f, &k.key()) {
        Ok(d) => d,
        Err(e) => return eye.c.fail(e),
    };
    show_db(&mut eye, &db);
    for (_, b) in &can.prot {
        if let Ok(t) = std::str::from_utf8(b) {
            let x: Vec<_> = db.find_entries(t).into_iter().cloned().collect();
            eye.debug("found entries", &x);
            let _ = db.find_entries_mut(t).len();
        }
    }
    if let Some(e) = db.root_group.entries.last_mut() {
        let t = token(&mut r);
        e.set_password(t.clone());
        let t2 = e.password().map(|x| x.to_string());
        eye.add("a password set later", t.as_bytes());
        if t2.as_deref() != Some(&t) {
            return eye.c.fail("password() is not what was set");
        }
    }
    show_db(&mut eye, &db);
    if let Ok(f2) = must_save(&db) {
        if let Ok(d2) = must_open(&f2, &k.key()) {
            show_db(&mut eye, &d2);
        }
    }
    eye.done();
}

/// Opens that fail: wrong keys, damage, malformed content, failing sources.
fn openfail(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    let mut can = plant(&mut r, &mut m);
    let kind = r.below(9);
    if kind == 8 {
        raw_secret(&mut r, &mut m, &mut can);
    }
    let k = canary_key(&mut r, &mut can);
    let mut s = secrets(&can, &k);
    let mut o = plain_opts();
    o.unknown = r.bool();
    o.pim = r.bool();
    let mut e = Enc::random(&mut r);
    e.rounds = m.rounds;
    let st = Style::random(&mut r);
    let x = foreign(&mut r, &m, &k, e, o, &st, true);
    s.extend(derived(&x.file, &k, x.enc.rounds));
    let mut key = k.key();
    let mut f = x.file.clone();
    let mut malformed = false;
    match kind {
        0 => {
            // a wrong key
            let w = format!("{}{}", token(&mut r), r.below(100));
            s.push(("the wrong password".into(), w.as_bytes()[..14].to_vec()));
            s.push(("the wrong composite key".into(), rc::composite(Some(w.as_bytes()), None).to_vec()));
            key = CompositeKey::from_password(w);
        }
        1 => f.truncate(r.below(x.file.len())),
        2 => {
            let i = r.below(f.len());
            f[i] ^= 1 << r.below(8);
        }
        3 => f.extend(r.bytes(17)),
        4 => {
            // the header hash does not match
            let i = x.enc.header().len() - 2;
            f[i] ^= 0xff;
        }
        5..=7 => {
            // a document damaged under the key: the writer's plain text is changed
            malformed = true;
            let mut xml = x.xml.clone();
            for _ in 0..r.range(1, 3) {
                mangle(&mut r, &mut xml);
            }
            let data = if x.enc.gzip { refkdbx::gzip(&xml, 6) } else { xml };
            f = x.enc.seal(&x.comp, &x.enc.header(), &x.enc.frame(&x.enc.split(&data)));
        }
        _ => malformed = true,
    }
    let mut eye = Eye::new(c, &s);
    let o = if kind == 3 && r.bool() {
        let mut rd = SReader::new(&f, vec![Step::N(r.range(1, 300))], true);
        rd.fail_at = Some((r.below(f.len()), std::io::ErrorKind::Other));
        guard(|| Database::open(&mut rd, &key))
    } else {
        open(&f, &key)
    };
    match &o {
        Ok(Err(e)) => {
            if malformed {
                eye.c.n("errors of malformed documents");
            }
            eye.error(e);
        }
        Ok(Ok(d)) => {
            eye.c.n("opened all the same");
            show_db(&mut eye, d);
        }
        Err(p) => {
            let p = p.clone();
            eye.look("a panic", p.as_bytes());
            eye.c.fail(format!("open: {}", p));
            return;
        }
    }
    if let Ok(x) = &o {
        if x.is_err() {
            eye.debug("a result", x);
        }
    }
    eye.done();
}
/// Damage that leaves the document nearly well formed, preferably around protected values.
fn mangle(r: &mut Rng, x: &mut Vec<u8>) {
    let find = |x: &[u8], n: &[u8], from: usize| -> Option<usize> {
        x.windows(n.len()).enumerate().skip(from).find(|(_, w)| *w == n).map(|(i, _)| i)
    };
    let from = r.below(x.len().max(1));
    match r.below(8) {
        0 | 1 => {
            // the text of a protected value
            if let Some(i) = find(x, b"Protected", from) {
                if let Some(j) = find(x, b">", i) {
                    let j = (j + 1 + r.below(6)).min(x.len() - 1);
                    x[j] = *r.pick(b"!<&-_ =A\0");
                }
            }
        }
        2 => {
            // what a protected value ends with
            if let Some(i) = find(x, b"</Value>", from) {
                x.splice(i..i + 8, r.pick(&[&b"</Key>"[..], b"<x/></Value>", b"", b"=</Value>", b"</Value></Value>"]).to_vec());
            }
        }
        3 => {
            if let Some(i) = find(x, b"</", from) {
                x.splice(i..i, b"<Unknown>".to_vec());
            }
        }
        4 => {
            for (n, v) in [(&b"True<"[..], &b"Maybe<"[..]), (b"False<", b"0<")] {
                if let Some(i) = find(x, n, from) {
                    x.splice(i..i + n.len(), v.to_vec());
                    break;
                }
            }
        }
        5 => {
            if let Some(i) = find(x, b"<UUID>", from) {
                x.splice(i + 6..i + 6, b"*".to_vec());
            }
        }
        6 => {
            let n = x.len();
            x.truncate(n - r.below(n / 2 + 1));
        }
        _ => {
            let i = r.below(x.len());
            x[i] = r.byte();
        }
    }
}

fn savefail(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = model(&mut r);
    let mut can = plant(&mut r, &mut m);
    let kind = r.below(5);
    match kind {
        0 => raw_secret(&mut r, &mut m, &mut can),
        1 => m.root.name.push('\u{1}'),
        2 => m.comment = Some(vec![1; 65536 + r.below(10)]),
        _ => {}
    }
    let k = canary_key(&mut r, &mut can);
    let s = secrets(&can, &k);
    let mut db = to_db(&m, &k.key());
    if kind == 3 {
        db.db_type = kpdb::DbType::Kdb1;
    }
    let mut w = SWriter::new(vec![Step::N(r.range(1, 100)), Step::Interrupted], true);
    if kind == 4 {
        w.fail_at = Some((r.below(2500), Step::Fail(*r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::WriteZero, std::io::ErrorKind::BrokenPipe]))));
    }
    let mut eye = Eye::new(c, &s);
    let o = guard(|| db.save(&mut w));
    for (w, b) in derived(&w.got, &k, m.rounds) {
        eye.add(&w, &b);
    }
    match &o {
        Ok(Err(e)) => eye.error(e),
        Ok(Ok(())) => eye.c.n("saved all the same"),
        Err(p) => {
            let p = p.clone();
            eye.look("a panic", p.as_bytes());
            return eye.c.fail(format!("save: {}", p));
        }
    }
    eye.debug("the database after a failed save", &db);
    eye.done();
}

fn keyfiles(c: &mut Ctx) {
    let mut r = c.rng();
    let key = match r.below(3) {
        0 => token(&mut r).repeat(3).into_bytes()[..32].to_vec(),
        _ => r.bytes(32),
    };
    let hex = rc::hex(&key);
    let b64 = rc::b64(&key);
    let xml = |data: &str| {
        format!("<?xml version=\"1.0\"?>\n<KeyFile>\n<Meta><Version>1.00</Version></Meta>\n<Key><Data>{}</Data></Key>\n</KeyFile>", data)
    };
    let pos = r.below(30) + 1;
    let mut bad = b64.clone();
    bad.insert(pos, *r.pick(&['!', '<', '&', '-', '=', ' ']));
    let mut badhex = hex.clone();
    badhex.replace_range(pos..pos + 1, "g");
    let files: Vec<Vec<u8>> = vec![
        key.clone(),
        hex.clone().into_bytes(),
        xml(&b64).into_bytes(),
        badhex.into_bytes(),
        xml(&bad).into_bytes(),
        xml(&b64).replace("1.00", "2.00").into_bytes(),
        xml(&format!("<x>{}</x>", b64)).into_bytes(),
        xml(&b64).replace("</Data>", "").into_bytes(),
        xml(&b64[..b64.len() - 2]).into_bytes(),
        format!("{}x", hex).into_bytes(),
        [&key[..], b"x"].concat(),
        b64.clone().into_bytes(),
        xml(&b64).replace("KeyFile", "Keyfile").into_bytes(),
        xml(&b64).replace("Data", "data").into_bytes(),
        xml(&b64).replace("<Key>", &format!("<Key {}=\"{}\">", "a", &hex[..20])).into_bytes(),
        xml(&format!("{}</Data><Data>", b64)).into_bytes(),
        xml(&b64)[..60 + r.below(60)].as_bytes().to_vec(),
    ];
    let i = r.below(files.len());
    let f = &files[i];
    let s = vec![("the key bytes".to_string(), key.clone()), ("the hash of the key".to_string(), rc::sha256(&key).to_vec())];
    c.sample(|| format!("variant {} of {} bytes", i, f.len()));
    let mut eye = Eye::new(c, &s);
    let o = if r.chance(1, 5) {
        let mut rd = SReader::new(f, vec![Step::N(7)], true);
        rd.fail_at = Some((r.below(f.len()), std::io::ErrorKind::Other));
        guard(|| KeyFile::open(&mut rd))
    } else {
        guard(|| KeyFile::open(&mut &f[..]))
    };
    match &o {
        Ok(Err(e)) => {
            eye.c.n("key file errors printed");
            eye.error(e);
        }
        Ok(Ok(k)) => {
            eye.c.n("key files opened");
            eye.debug("a key file", k);
            for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
                let mut k = k.clone();
                k.file_type = t;
                let mut w = SWriter::new(vec![], false);
                w.fail_at = Some((r.below(60), Step::Fail(std::io::ErrorKind::Other)));
                if let Ok(Err(e)) = guard(|| k.save(&mut w)) {
                    eye.error(&e);
                }
            }
            let ck = CompositeKey::from_both(token(&mut r), k.clone());
            eye.add("the composite key", &ck.unsecure());
            eye.debug("a composite key", &ck);
            let ck = CompositeKey::from_key_file(k.clone());
            eye.debug("a composite key", &ck);
        }
        Err(p) => {
            let p = p.clone();
            eye.look("a panic", p.as_bytes());
            return eye.c.fail(format!("KeyFile::open: {}", p));
        }
    }
    eye.debug("a result", &o);
    eye.done();
}

/// Values that differ in nothing but the bytes of a secret (of one length, from one byte on) are printed alike.
fn twins(c: &mut Ctx) {
    let mut r = c.rng();
    let n = match r.below(4) {
        0 => 1 + r.below(3),
        1 => 1 + r.below(12),
        2 => 4,
        _ => *r.pick(&[8usize, 16, 20, 32, 33, 64, 100, 300]),
    };
    let text = r.bool();
    let mut two = || -> (Vec<u8>, Vec<u8>) {
        loop {
            let (a, b): (Vec<u8>, Vec<u8>) = if text {
                ((0..n).map(|_| *r.pick(b"0123456789abcXYZ \"\\\n<")).collect(), (0..n).map(|_| *r.pick(b"0123456789abcXYZ \"\\\n<")).collect())
            } else {
                (r.bytes(n), r.bytes(n))
            };
            if a != b {
                return (a, b);
            }
        }
    };
    let (a, b) = two();
    let two32 = (r.arr::<32>().to_vec(), r.arr::<32>().to_vec());
    // one item per map: the order of several is not fixed
    let cfg = gen::Cfg { fields: 0, history: 0, entries: 1, groups: 1, depth: 1, ..gen::TINY };
    let mut m = gen::db(&mut r, &cfg);
    m.custom_data.clear();
    m.icons.clear();
    m.binaries.clear();
    let mut e = gen::entry(&mut r, &cfg, &[], 0);
    e.strings.clear();
    e.bins.clear();
    e.history.clear();
    m.root.entries = vec![];
    m.root.groups = vec![];
    let field = r.pick(&["Password", "Title", "UserName", "Notes", "URL", "PIN"]).to_string();
    let what = r.below(3);
    let make = |s: &[u8]| {
        let mut e = e.clone();
        if what != 1 {
            e.strings.insert(field.clone(), MStr::Prot(s.to_vec()));
        }
        if what != 0 {
            e.bins.insert("file".into(), MBin::Prot(s.to_vec()));
        }
        let h = e.clone();
        e.history.push(h);
        e
    };
    let pw = |s: &[u8]| KeySpec { pw: Some(String::from_utf8_lossy(s).to_string()), kf: None };
    let keys = match r.below(3) {
        0 => (pw(&a), pw(&b)),
        1 => (KeySpec { pw: None, kf: Some(two32.0.clone()) }, KeySpec { pw: None, kf: Some(two32.1.clone()) }),
        _ => (KeySpec { kf: Some(two32.0.clone()), ..pw(&a) }, KeySpec { kf: Some(two32.1.clone()), ..pw(&b) }),
    };
    let db = |s: &[u8], k: &KeySpec| {
        let mut m = m.clone();
        m.root.entries.push(make(s));
        let mut g = m.root.clone();
        g.entries = vec![make(s)];
        m.root.groups.push(g);
        to_db(&m, &k.key())
    };
    let (x, mut y) = (db(&a, &keys.0), db(&b, &keys.1));
    // the dates that conversions take from the clock are not in question
    y.transform_rounds = x.transform_rounds.clone();
    let mut seen = vec![];
    fn forms<T: Debug>(w: &'static str, a: &T, b: &T, out: &mut Vec<(&'static str, &'static str, String, String)>) {
        out.push((w, "{:?}", format!("{:?}", a), format!("{:?}", b)));
        out.push((w, "{:#?}", format!("{:#?}", a), format!("{:#?}", b)));
        out.push((w, "{:x?}", format!("{:x?}", a), format!("{:x?}", b)));
        out.push((w, "{:#X?}", format!("{:#X?}", a), format!("{:#X?}", b)));
        out.push((w, "{:5.2?}", format!("{:5.2?}", a), format!("{:5.2?}", b)));
        out.push((w, "{:+010?}", format!("{:+010?}", a), format!("{:+010?}", b)));
    }
    forms("a database", &x, &y, &mut seen);
    forms("a group", &x.root_group, &y.root_group, &mut seen);
    forms("an entry", &x.root_group.entries[0], &y.root_group.entries[0], &mut seen);
    forms("a history", &x.root_group.entries[0].history, &y.root_group.entries[0].history, &mut seen);
    for (v, w) in x.root_group.entries[0].strings.values().zip(y.root_group.entries[0].strings.values()) {
        forms("a string value", v, w, &mut seen);
        forms("an optional string value", &Some(v), &Some(w), &mut seen);
    }
    for (v, w) in x.root_group.entries[0].binaries.values().zip(y.root_group.entries[0].binaries.values()) {
        forms("an attachment", v, w, &mut seen);
    }
    forms("a composite key", &keys.0.key(), &keys.1.key(), &mut seen);
    for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
        let f = |k: &Vec<u8>| KeyFile { key: SecStr::new(k.clone()), file_type: t.clone() };
        forms("a key file", &f(&two32.0), &f(&two32.1), &mut seen);
    }
    c.sample(|| format!("two secrets of {} bytes", n));
    for (w, how, p, q) in seen {
        c.eval();
        c.seen(hash_bytes(p.as_bytes()));
        c.add("printed bytes searched", p.len() as u64);
        if p != q {
            let i = p.bytes().zip(q.bytes()).position(|(a, b)| a != b).unwrap_or(0);
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(60)..(i + 60).min(s.len())]).to_string();
            return c.fail(format!("{} of {} depends on a secret of {} bytes: …{}… or …{}…", how, w, n, cut(&p), cut(&q)));
        }
        c.n("twins printed alike");
    }
}

/// Broken texts of a few characters in the places of secrets: not even they are in the errors.
fn short(c: &mut Ctx) {
    let mut r = c.rng();
    let n = *r.pick(&[5usize, 6, 7, 9, 10]);
    // nothing a message of words and numbers would have by chance
    let t: String = loop {
        let t: String = (0..n).map(|_| *r.pick(b"QXZJKVWY2357") as char).collect();
        if t.bytes().filter(|b| b.is_ascii_uppercase()).count() >= 3 {
            break t;
        }
    };
    let s = vec![("a broken text".to_string(), t.clone().into_bytes())];
    let bad = match r.below(4) {
        0 => format!("{}!", t),
        1 => format!("*{}", t),
        _ => t.clone(),
    };
    c.sample(|| format!("{:?}", bad));
    let kind = r.below(6);
    let mut eye = Eye::new(c, &s);
    eye.n.short("a broken text", t.as_bytes());
    eye.n.short("a broken text, reversed", &t.bytes().rev().collect::<Vec<u8>>());
    eye.n.short("a broken text in lower case", t.to_lowercase().as_bytes());
    let err = if kind < 2 {
        let x = if kind == 0 {
            format!("<?xml version=\"1.0\"?>\n<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", bad)
        } else {
            let mut h = rc::hex(&r.bytes(32));
            let at = r.below(50);
            h.replace_range(at..at + t.len(), &t);
            h
        };
        match guard(|| KeyFile::open(&mut x.as_bytes())) {
            Ok(Err(e)) => e,
            _ => return eye.done(),
        }
    } else {
        // in a document: a protected value that is not text, or marked protected and malformed; or the password is wrong
        let mut m = gen::db(&mut r, &gen::Cfg { fields: 0, ..gen::TINY });
        m.rounds = 1;
        let mut e = gen::entry(&mut r, &gen::Cfg { fields: 0, history: 0, ..gen::TINY }, &[], 0);
        let field = r.pick(&["Password", "PIN", "Title"]).to_string();
        let v = match kind {
            2 | 3 => {
                let mut b = t.clone().into_bytes();
                let at = r.below(b.len() + 1);
                // the text stays in one piece
                b.insert(if at * 2 > b.len() { b.len() } else { 0 }, *r.pick(&[0xffu8, 0xc3, 0x80]));
                b
            }
            4 => b"*mark*mark*mark*".to_vec(),
            _ => b"p".to_vec(),
        };
        e.strings.insert(field, MStr::Prot(v));
        m.root.entries.push(e);
        let k = gen::key(&mut r);
        let mut en = Enc::random(&mut r);
        en.rounds = 1;
        let mut o = plain_opts();
        o.pim = kind == 4;
        let x = foreign(&mut r, &m, &k, en, o, &plain_style(), true);
        let mut xml = String::from_utf8_lossy(&x.xml).to_string();
        if kind == 4 {
            let child = *r.pick(&["<x/>", "</Val>", "&nope;", "<", "&#1;"]);
            xml = xml.replacen("*mark*mark*mark*", &format!("{}{}", t, child), 1);
        }
        let key = if kind == 5 { CompositeKey::from_password(t.clone()) } else { k.key() };
        let data = if x.enc.gzip { refkdbx::gzip(xml.as_bytes(), 6) } else { xml.into_bytes() };
        let f = x.enc.seal(&x.comp, &x.enc.header(), &x.enc.frame(&x.enc.split(&data)));
        match open(&f, &key) {
            Ok(Err(e)) => e,
            _ => return eye.done(),
        }
    };
    eye.c.n("errors about short texts");
    eye.error(&err);
    eye.done();
}
