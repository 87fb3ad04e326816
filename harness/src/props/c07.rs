//! Destinations that take bytes in any pattern, and fail anywhere.
use crate::ctx::*;
use crate::faults::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx;
use crate::refxml;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{Database, Error, KeyFile, KeyFileType};
use secstr::SecStr;
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "A case is one save of one database or key file into one scripted destination: short writes, interruptions, \
               zero-length writes and errors of every kind at every offset, once or for good; distinct by the script and the \
               offset of the failure.",
        sections: vec![
            Section { name: "patterns", quick: 3000, thorough: 40_000, f: patterns },
            Section { name: "failures", quick: 8 * 24, thorough: 8 * 160, f: failures },
            Section { name: "keyfiles", quick: 1500, thorough: 15_000, f: keyfiles },
            Section { name: "large", quick: 24, thorough: 200, f: large },
        ],
        need: &[
            ("short writes seen", 50_000),
            ("interruptions seen", 5_000),
            ("failures reported", 5_000),
            ("complete files", 1_000),
            ("key files complete", 1_000),
        ],
        assumptions: &["the destination follows the Write contract (bytes it reports as written are written)"],
        vmem_kib: 0,
    }
}

const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::StorageFull,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
];

fn script(r: &mut Rng, fail: bool) -> Vec<Step> {
    let n = 1 + r.below(12);
    let m = *r.pick(&[1usize, 2, 3, 5, 8, 16, 33, 100, 4096]);
    let ints = r.chance(1, 2);
    (0..n)
        .map(|_| match r.below(10) {
            0 | 1 if ints => Step::Interrupted,
            2 if fail => Step::Fail(*r.pick(&KINDS)),
            3 if fail => Step::Zero,
            4 => Step::N(1),
            5 => Step::N(usize::MAX),
            _ => Step::N(1 + r.below(m)),
        })
        .collect()
}

/// What a save into `w` claims, against what `w` received.
fn judge(c: &mut Ctx, w: &SWriter, res: Result<Result<(), Error>, String>, whole: &dyn Fn(&[u8]) -> Option<String>, what: &str) -> bool {
    c.eval();
    c.add("short writes seen", w.shorts as u64);
    c.add("interruptions seen", w.interrupts as u64);
    c.add("bytes accepted", w.got.len() as u64);
    match res {
        Err(p) => c.fail(format!("{}: {}", what, p)),
        Ok(Err(e)) => {
            if w.failed {
                c.n("failures reported");
                return true;
            }
            c.fail(format!("{}: save failed with {:?} although the destination reported no error", what, e));
        }
        Ok(Ok(())) => {
            if w.failed {
                c.attach("received", &w.got);
                c.fail(format!("{}: save succeeded although the destination failed after {} bytes", what, w.got.len()));
            } else if let Some(d) = whole(&w.got) {
                c.attach("received", &w.got);
                c.fail(format!("{}: save succeeded, but what arrived ({} bytes) is not the file: {}", what, w.got.len(), d));
            } else {
                c.n("complete files");
                return true;
            }
        }
    }
    false
}

/// The bytes must be exactly one file with this content.
fn is_file(f: &[u8], comp: &[u8; 32], want: &MDb) -> Option<String> {
    match decode_file(f, comp) {
        Err(e) => Some(e),
        Ok((mut m, cont, _)) => {
            if cont.trailing != 0 {
                return Some(format!("{} bytes behind the final block", cont.trailing));
            }
            fix_links(&mut m.root, NIL);
            differences(want, &m)
        }
    }
}

fn base(r: &mut Rng) -> (Database, [u8; 32], MDb) {
    let mut m = gen::db(r, &gen::Cfg { groups: 1, entries: 2, history: 1, fields: 2, ..gen::TINY });
    m.rounds = r.below(3) as u64;
    let k = gen::key(r);
    let x = expect_after_save(&m);
    (to_db(&m, &k.key()), k.comp(), x)
}

fn run(db: &Database, w: &mut SWriter) -> Result<Result<(), Error>, String> {
    guard(|| db.save(w))
}

fn patterns(c: &mut Ctx) {
    let mut r = c.rng();
    let (db, comp, x) = base(&mut r);
    let fail = r.chance(1, 4);
    let s = script(&mut r, fail);
    let cyclic = r.chance(3, 4) && !s.iter().all(|s| *s == Step::Interrupted);
    let mut w = SWriter::new(s.clone(), cyclic);
    w.once = true;
    w.flush_fail = r.chance(1, 8);
    c.seen_bytes(format!("{:?}{}", s, cyclic).as_bytes());
    let res = run(&db, &mut w);
    judge(c, &w, res, &|f| is_file(f, &comp, &x), &format!("writes {:?} cyclic {}", s, cyclic));
    c.sample(|| format!("script {:?} cyclic {}", s, cyclic));
}

/// A failure after every possible number of accepted bytes.
fn failures(c: &mut Ctx) {
    let (file, slice) = (c.index / 8, c.index % 8);
    let mut r = Rng::new(crate::rng::mix(c.seed ^ (file as u64 + 1)));
    let (db, comp, x) = base(&mut r);
    let mut rr = c.rng();
    let n = must_save(&db).map(|v| v.len()).unwrap_or(0);
    if n == 0 {
        return c.fail("plain save failed");
    }
    let h = must_save(&db).ok().and_then(|f| refkdbx::parse_header(&f).ok()).map_or(0, |h| h.3);
    for k in (slice..n + 40).step_by(8) {
        // behind the header the payload is one write in most implementations: thin out
        if k > h + 80 && k + 80 < n && rr.chance(3, 4) {
            continue;
        }
        for v in 0..4 {
            let mut w = match v {
                0 => SWriter::new(vec![], false),
                1 => SWriter::new(vec![Step::N(1)], true),
                _ => SWriter::new(script(&mut rr, false), false),
            };
            if v == 1 && k > h + 64 && !c.thorough && rr.chance(3, 4) {
                continue;
            }
            let st = if rr.chance(1, 4) { Step::Zero } else { Step::Fail(*rr.pick(&KINDS)) };
            w.fail_at = Some((k, st.clone()));
            w.once = rr.bool();
            c.seen_bytes(format!("{}/{}/{:?}/{}", k, v, st, w.once).as_bytes());
            let once = w.once;
            let res = run(&db, &mut w);
            if !judge(c, &w, res, &|f| is_file(f, &comp, &x), &format!("{:?} after {} of about {} bytes, once {}", st, k, n, once)) {
                return;
            }
        }
    }
    if slice == 0 {
        c.sample(|| format!("failures at every offset of a file of about {} bytes", n));
    }
}

fn key_file_ok(k: &[u8], t: &KeyFileType, f: &[u8]) -> Option<String> {
    match t {
        KeyFileType::Binary => (f != k).then(|| "not the key bytes".to_string()),
        KeyFileType::Hex => {
            let s = String::from_utf8_lossy(f).to_lowercase();
            (s != rc::hex(k)).then(|| format!("not the hex of the key: {}", s))
        }
        KeyFileType::Xml => {
            let root = match refxml::parse(f) {
                Ok(r) => r,
                Err(e) => return Some(format!("not XML: {}", e)),
            };
            let v = root.child("Meta").and_then(|m| m.child("Version")).and_then(|v| v.content().ok());
            let d = root.child("Key").and_then(|m| m.child("Data")).and_then(|v| v.content().ok());
            if root.name != "KeyFile" || v.as_deref() != Some("1.00") || d.as_deref() != Some(&rc::b64(k)[..]) {
                return Some(format!("version {:?}, data {:?}", v, d));
            }
            None
        }
    }
}

fn keyfiles(c: &mut Ctx) {
    let mut r = c.rng();
    let t = match c.index % 3 {
        0 => KeyFileType::Binary,
        1 => KeyFileType::Hex,
        _ => KeyFileType::Xml,
    };
    let n = if c.index % 3 == 2 { *r.pick(&[32usize, 32, 1, 3, 16, 64, 100]) } else { 32 };
    let k = r.bytes(n);
    let kf = KeyFile { key: SecStr::new(k.clone()), file_type: t.clone() };
    let mut plain = vec![];
    match guard(|| kf.save(&mut plain)) {
        Ok(Ok(())) => {}
        o => return c.fail(format!("plain key file save: {:?}", o)),
    }
    if let Some(d) = key_file_ok(&k, &t, &plain) {
        c.attach("received", &plain);
        return c.fail(format!("{:?} key file: {}", t, d));
    }
    let whole = |f: &[u8]| if f == &plain[..] { None } else { Some("differs from a plain save".to_string()) };
    for v in 0..4 {
        let fail = v == 3;
        let s = script(&mut r, fail);
        let cyclic = r.bool() && !s.iter().all(|s| *s == Step::Interrupted);
        let mut w = SWriter::new(s.clone(), cyclic);
        w.once = true;
        let res = guard(|| kf.save(&mut w));
        if !judge(c, &w, res, &whole, &format!("{:?} key file, writes {:?} cyclic {}", t, s, cyclic)) {
            return;
        }
        if !w.failed {
            c.n("key files complete");
        }
    }
    // every offset in turn over the cases
    for j in 0..12 {
        let at = (c.index / 3 + j * 29) % (plain.len() + 2);
        let mut w = SWriter::new(if r.bool() { vec![Step::N(1 + r.below(9))] } else { vec![] }, true);
        let st = if r.chance(1, 4) { Step::Zero } else { Step::Fail(*r.pick(&KINDS)) };
        w.fail_at = Some((at, st.clone()));
        w.once = r.bool();
        c.seen_bytes(format!("kf {:?} {} {:?}", t, at, st).as_bytes());
        let res = guard(|| kf.save(&mut w));
        if !judge(c, &w, res, &whole, &format!("{:?} key file, {:?} after {} of {} bytes", t, st, at, plain.len())) {
            return;
        }
    }
}

/// Files of several hundred kilobytes into slow, interrupted and failing destinations.
fn large(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 1;
    m.gzip = c.index % 2 == 0;
    let mut n = 100_000 + r.below(900_000);
    m.binaries.insert("big".into(), r.bytes(n));
    if c.index % 4 == 3 {
        n = gen::bulk_size(&mut r, 1 << 22);
        m = gen::bulk(&mut r, c.index / 4, n);
        m.gzip = c.index % 8 == 3;
    }
    let k = gen::key(&mut r);
    let x = expect_after_save(&m);
    let db = to_db(&m, &k.key());
    let comp = k.comp();
    for v in 0..4 {
        let lim = *r.pick(&[511usize, 4096, 8191, 65536, 100_000]);
        let s: Vec<Step> = match v {
            0 => vec![Step::N(lim)],
            1 => vec![Step::N(lim), Step::Interrupted, Step::N(1)],
            2 => vec![Step::N(usize::MAX), Step::Interrupted, Step::N(lim)],
            _ => vec![Step::N(lim + 1)],
        };
        let mut w = SWriter::new(s.clone(), true);
        if v == 3 {
            w.fail_at = Some((r.below(n * 5 / 4), Step::Fail(*r.pick(&KINDS))));
            w.once = r.bool();
        }
        c.seen_bytes(format!("{:?} {}", s, n).as_bytes());
        let res = run(&db, &mut w);
        if !judge(c, &w, res, &|f| is_file(f, &comp, &x), &format!("{} bytes of attachment, writes {:?}", n, s)) {
            return;
        }
    }
}
