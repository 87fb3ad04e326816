//! Sources that deliver bytes in any pattern, and fail anywhere.
use crate::ctx::*;
use crate::faults::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{CompositeKey, Database, Error, KeyFile, KeyFileType};
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "A case is one file (valid, damaged or cut; database or key file) opened from one scripted source: reads of any \
               sizes, interruptions, and an error of any kind after every number of bytes; distinct by file and script.",
        sections: vec![
            Section { name: "patterns", quick: 2400, thorough: 30_000, f: patterns },
            Section { name: "damaged", quick: 1600, thorough: 20_000, f: damaged },
            Section { name: "failures", quick: 8 * 24, thorough: 8 * 160, f: failures },
            Section { name: "keyfiles", quick: 1600, thorough: 20_000, f: keyfiles },
            Section { name: "large", quick: 24, thorough: 160, f: large },
        ],
        need: &[
            ("reads seen", 100_000),
            ("opened alike", 2_000),
            ("refused alike", 1_000),
            ("read errors returned", 5_000),
            ("key files alike", 1_000),
        ],
        assumptions: &["the source follows the Read contract"],
        vmem_kib: 0,
    }
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
];

fn script(r: &mut Rng) -> Vec<Step> {
    match r.below(6) {
        0 => return vec![Step::N(1)],
        1 => return vec![Step::Interrupted, Step::N(1)],
        2 => return vec![Step::Interrupted, Step::Interrupted, Step::N(1 + r.below(40))],
        _ => {}
    }
    let n = 1 + r.below(12);
    let m = *r.pick(&[1usize, 2, 3, 5, 8, 16, 33, 100, 4096]);
    let mut v: Vec<Step> = (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => Step::Interrupted,
            2 => Step::N(1),
            3 => Step::N(usize::MAX),
            _ => Step::N(1 + r.below(m)),
        })
        .collect();
    v.push(Step::N(1 + r.below(m)));
    v
}

/// Error reduced to what must not depend on the delivery.
fn reason(e: &Error) -> String {
    match e {
        Error::Io(e) => format!("Io({:?})", e.kind()),
        e => format!("{:?}", e),
    }
}

fn base(r: &mut Rng) -> (Vec<u8>, CompositeKey, MDb) {
    let mut m = gen::db(r, &gen::Cfg { groups: 1, entries: 2, history: 1, fields: 2, ..gen::TINY });
    m.rounds = r.below(3) as u64;
    let k = gen::key(r);
    if r.bool() {
        let f = must_save(&to_db(&m, &k.key())).expect("save");
        (f, k.key(), expect_after_save(&m))
    } else {
        let f = foreign_plain(r, &m, &k);
        (f.file, k.key(), f.x)
    }
}

fn open_scripted(c: &mut Ctx, f: &[u8], key: &CompositeKey, s: Vec<Step>) -> Result<Result<Database, Error>, String> {
    let mut rd = SReader::new(f, s, true);
    let o = guard(|| Database::open(&mut rd, key));
    c.add("reads seen", rd.calls as u64);
    o
}

fn patterns(c: &mut Ctx) {
    let mut r = c.rng();
    let (f, key, x) = base(&mut r);
    let s = script(&mut r);
    c.eval();
    c.seen_bytes(format!("{}{:?}", c.index, s).as_bytes());
    c.attach("kdbx", &f);
    match open_scripted(c, &f, &key, s.clone()) {
        Err(p) => c.fail(format!("reads {:?}: {}", s, p)),
        Ok(Err(e)) => c.fail(format!("reads {:?}: a valid file is refused with {:?}", s, e)),
        Ok(Ok(db)) => match differences(&x, &from_db(&db)) {
            None => c.n("opened alike"),
            Some(d) => c.fail(format!("reads {:?}: {}", s, d)),
        },
    }
    c.sample(|| format!("{} bytes, reads {:?}", f.len(), s));
}

fn damaged(c: &mut Ctx) {
    let mut r = c.rng();
    let (mut f, key, _) = base(&mut r);
    let mut key = key;
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    match r.below(6) {
        0 => f.truncate(r.below(f.len())),
        1 => f.truncate(r.below(h + 1)),
        2 => {
            let i = r.below(f.len());
            f[i] ^= 1 << r.below(8);
        }
        3 => {
            let i = r.below(h.max(1));
            f[i] = r.byte();
        }
        4 => key = gen::key(&mut r).key(),
        _ => {
            let n = r.below(200);
            f = r.bytes(n);
        }
    }
    if declared_rounds(&f) > 1 << 16 {
        return;
    }
    c.attach("kdbx", &f);
    let plain = open(&f, &key);
    for _ in 0..3 {
        let s = script(&mut r);
        c.eval();
        c.seen_bytes(format!("{}{:?}", c.index, s).as_bytes());
        let o = open_scripted(c, &f, &key, s.clone());
        match (&plain, &o) {
            (Ok(Err(a)), Ok(Err(b))) => {
                if reason(a) == reason(b) {
                    c.n("refused alike");
                } else {
                    return c.fail(format!("reads {:?}: refused with {:?}, in one piece with {:?}", s, b, a));
                }
            }
            (Ok(Ok(a)), Ok(Ok(b))) => match differences(&from_db(a), &from_db(b)) {
                None => c.n("opened alike"),
                Some(d) => return c.fail(format!("reads {:?}: {}", s, d)),
            },
            (a, b) => {
                let t = |x: &Result<Result<Database, Error>, String>| match x {
                    Err(p) => p.clone(),
                    Ok(Ok(_)) => "opened".into(),
                    Ok(Err(e)) => format!("{:?}", e),
                };
                return c.fail(format!("reads {:?}: {}; in one piece: {}", s, t(b), t(a)));
            }
        }
    }
}

fn failures(c: &mut Ctx) {
    let (file, slice) = (c.index / 8, c.index % 8);
    let mut r = Rng::new(crate::rng::mix(c.seed ^ (file as u64 + 1)));
    let (f, key, _) = base(&mut r);
    let mut rr = c.rng();
    let h = refkdbx::parse_header(&f).map_or(0, |h| h.3);
    c.attach("kdbx", &f);
    // k == len: the source fails instead of reporting the end
    for k in (slice..f.len() + 1).step_by(8).chain([f.len()]) {
        if k > h + 80 && k + 80 < f.len() && rr.chance(3, 4) {
            continue;
        }
        for _ in 0..3 {
            let kind = *rr.pick(&KINDS);
            let s = if rr.bool() { vec![] } else { script(&mut rr) };
            let mut rd = SReader::new(&f, s.clone(), true);
            rd.fail_at = Some((k, kind));
            c.eval();
            c.seen_bytes(format!("{}/{}/{:?}/{:?}", file, k, kind, s).as_bytes());
            let o = guard(|| Database::open(&mut rd, &key));
            c.add("reads seen", rd.calls as u64);
            match o {
                Err(p) => return c.fail(format!("{:?} after {} bytes: {}", kind, k, p)),
                Ok(Ok(_)) => {
                    return c.fail(format!("the source failed with {:?} after {} of {} bytes, but a database was opened", kind, k, f.len()))
                }
                Ok(Err(Error::Io(e))) if e.kind() == kind => c.n("read errors returned"),
                Ok(Err(e)) => {
                    return c.fail(format!("the source failed with {:?} after {} of {} bytes, reported as {:?}", kind, k, f.len(), e))
                }
            }
        }
    }
    if slice == 0 {
        c.sample(|| format!("read errors at every offset of a file of {} bytes (header {})", f.len(), h));
    }
}

fn keyfiles(c: &mut Ctx) {
    let mut r = c.rng();
    let k = r.bytes(32);
    let (f, t): (Vec<u8>, KeyFileType) = match c.index % 4 {
        0 => (k.clone(), KeyFileType::Binary),
        1 => (rc::hex(&k).into_bytes(), KeyFileType::Hex),
        2 => (
            format!(
                "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<KeyFile>\n\t<Meta>\n\t\t<Version>1.00</Version>\n\t</Meta>\n\t<Key>\n\t\t<Data>{}</Data>\n\t</Key>\n</KeyFile>",
                rc::b64(&k)
            )
            .into_bytes(),
            KeyFileType::Xml,
        ),
        _ => {
            let n = *r.pick(&[0usize, 1, 31, 33, 63, 64, 65, 100, 400]);
            (r.bytes(n), KeyFileType::Binary)
        }
    };
    c.attach("key", &f);
    let plain = guard(|| KeyFile::open(&mut &f[..]));
    if c.index % 4 != 3 {
        match &plain {
            Ok(Ok(p)) if p.key.unsecure() == &k[..] && p.file_type == t => {}
            o => return c.fail(format!("{:?} key file in one piece: {:?}", t, o)),
        }
    }
    for _ in 0..4 {
        let s = script(&mut r);
        c.eval();
        c.seen_bytes(format!("{}{:?}", c.index, s).as_bytes());
        let mut rd = SReader::new(&f, s.clone(), true);
        let o = guard(|| KeyFile::open(&mut rd));
        c.add("reads seen", rd.calls as u64);
        let same = match (&plain, &o) {
            (Ok(Ok(a)), Ok(Ok(b))) => a.key.unsecure() == b.key.unsecure() && a.file_type == b.file_type,
            (Ok(Err(a)), Ok(Err(b))) => reason(a) == reason(b),
            _ => false,
        };
        if !same {
            return c.fail(format!("key file of {} bytes, reads {:?}: {:?}; in one piece: {:?}", f.len(), s, o, plain));
        }
        c.n("key files alike");
    }
    for j in 0..10 {
        let at = (c.index / 4 + j * 23) % (f.len() + 1);
        let kind = *r.pick(&KINDS);
        let s = if r.bool() { vec![] } else { script(&mut r) };
        let mut rd = SReader::new(&f, s, true);
        rd.fail_at = Some((at, kind));
        c.eval();
        c.seen_bytes(format!("{}/{}/{:?}", c.index, at, kind).as_bytes());
        match guard(|| KeyFile::open(&mut rd)) {
            Ok(Err(Error::Io(e))) if e.kind() == kind => c.n("read errors returned"),
            o => return c.fail(format!("the source failed with {:?} after {} of {} key file bytes: {:?}", kind, at, f.len(), o)),
        }
    }
}

fn large(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 1;
    m.gzip = c.index % 2 == 0;
    let n = 50_000 + r.below(500_000);
    m.binaries.insert("big".into(), r.bytes(n));
    if c.index % 4 == 3 {
        let n = gen::bulk_size(&mut r, 1 << 22);
        m = gen::bulk(&mut r, c.index / 4, n);
        m.gzip = c.index % 8 == 3;
    }
    let k = gen::key(&mut r);
    let f = must_save(&to_db(&m, &k.key())).expect("save");
    let x = expect_after_save(&m);
    let key = k.key();
    for v in 0..4 {
        let lim = *r.pick(&[7usize, 511, 4096, 8191, 65536]);
        let s: Vec<Step> = match v {
            0 => vec![Step::N(lim)],
            1 => vec![Step::N(lim), Step::Interrupted, Step::N(1)],
            2 => vec![Step::N(1)],
            _ => vec![Step::Interrupted, Step::N(usize::MAX)],
        };
        c.eval();
        c.seen_bytes(format!("{}{:?}", n, s).as_bytes());
        match open_scripted(c, &f, &key, s.clone()) {
            Ok(Ok(db)) => match differences(&x, &from_db(&db)) {
                None => c.n("opened alike"),
                Some(d) => return c.fail(format!("{} bytes, reads {:?}: {}", f.len(), s, d)),
            },
            o => return c.fail(format!("{} bytes, reads {:?}: {:?}", f.len(), s, o.map(|x| x.map(|_| ())))),
        }
    }
}
