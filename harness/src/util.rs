//! Calls into the library, with panics caught, and small shared oracles.
use crate::ctx::guard;
use crate::gen::KeySpec;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{gzip, Enc};
use crate::refxml::{serialise, El, Style};
use crate::rng::Rng;
use kpdb::{CompositeKey, Database, Error};
use std::io::Cursor;

/// Saves into memory: Ok(bytes), Err(error text); panics are reported as Err(Err).
pub fn save(db: &Database) -> Result<Result<Vec<u8>, Error>, String> {
    guard(|| {
        let mut v = Vec::new();
        db.save(&mut v).map(|_| v)
    })
}
pub fn open(f: &[u8], key: &CompositeKey) -> Result<Result<Database, Error>, String> {
    guard(|| Database::open(&mut Cursor::new(f), key))
}
/// Save that has to work.
pub fn must_save(db: &Database) -> Result<Vec<u8>, String> {
    match save(db) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("save failed: {:?}", e)),
        Err(p) => Err(format!("save: {}", p)),
    }
}
/// Open that has to work.
pub fn must_open(f: &[u8], key: &CompositeKey) -> Result<Database, String> {
    match open(f, key) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("open failed: {:?}", e)),
        Err(p) => Err(format!("open: {}", p)),
    }
}
/// Variant name of an error.
pub fn ek(e: &Error) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
pub fn differences(a: &MDb, b: &MDb) -> Option<String> {
    let d = diff(a, b);
    if d.is_empty() {
        None
    } else {
        Some(format!("{} differences: {}", d.len(), d.iter().take(4).cloned().collect::<Vec<_>>().join("; ")))
    }
}
pub fn now_s() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}
/// Bytes of a file of the repository's sample data.
pub fn data(name: &str) -> Vec<u8> {
    std::fs::read(format!("/repo/data/{}", name)).unwrap_or_default()
}
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && n.len() <= h.len() && h.windows(n.len()).any(|w| w == n)
}
/// CPU time of this thread in milliseconds (10 ms steps).
pub fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/thread-self/stat").unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = s.split_whitespace().collect();
    if f.len() > 13 {
        (f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)) * 10
    } else {
        0
    }
}
/// All groups of a model in breadth-first order, as paths of child indexes.
pub fn bfs_paths(g: &MGroup) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut i = 0;
    while i < out.len() {
        let p = out[i].clone();
        let n = at(g, &p).groups.len();
        for k in 0..n {
            let mut q = p.clone();
            q.push(k);
            out.push(q);
        }
        i += 1;
    }
    out
}
pub fn at<'a>(g: &'a MGroup, p: &[usize]) -> &'a MGroup {
    p.iter().fold(g, |g, &i| &g.groups[i])
}
pub fn at_mut<'a>(g: &'a mut MGroup, p: &[usize]) -> &'a mut MGroup {
    p.iter().fold(g, |g, &i| &mut g.groups[i])
}
pub fn lib_at<'a>(g: &'a kpdb::Group, p: &[usize]) -> &'a kpdb::Group {
    p.iter().fold(g, |g, &i| &g.groups[i])
}
pub fn lib_at_mut<'a>(g: &'a mut kpdb::Group, p: &[usize]) -> &'a mut kpdb::Group {
    p.iter().fold(g, |g, &i| &mut g.groups[i])
}
/// Parses the header of a saved file and gives the byte range of a field's data.
pub fn field_at(f: &[u8], id: u8) -> Option<(usize, usize)> {
    let mut i = 12;
    loop {
        if i + 3 > f.len() {
            return None;
        }
        let n = u16::from_le_bytes([f[i + 1], f[i + 2]]) as usize;
        if f[i] == id {
            return Some((i + 3, i + 3 + n));
        }
        if f[i] == 0 {
            return None;
        }
        i += 3 + n;
    }
}
/// The rounds a header declares, read as loosely as possible (for keeping the work of a case bounded).
pub fn declared_rounds(f: &[u8]) -> u64 {
    match field_at(f, 6) {
        Some((a, b)) if b - a == 8 && b <= f.len() => u64::from_le_bytes(f[a..b].try_into().unwrap()),
        _ => 0,
    }
}

/// A file written by the independent implementation, with what opening it must give.
pub struct Foreign {
    pub file: Vec<u8>,
    pub x: MDb,
    pub enc: Enc,
    pub comp: [u8; 32],
    pub xml: Vec<u8>,
    /// data inside the hashed blocks
    pub data: Vec<u8>,
}
/// Restricts dates to what other programs write (`whole`: seconds only).
pub fn sane_dates(m: &mut MDb, whole: bool) {
    fn f(t: &mut Tm, whole: bool) {
        t.s = t.s.clamp(-62135596800, 253402300799);
        t.n = if whole { 0 } else { t.n % 1_000_000_000 };
    }
    fn times(t: &mut MTimes, w: bool) {
        for x in [&mut t.creation, &mut t.expiry, &mut t.access, &mut t.modif, &mut t.loc] {
            f(x, w);
        }
    }
    fn entry(e: &mut MEntry, w: bool) {
        times(&mut e.times, w);
        for h in e.history.iter_mut() {
            entry(h, w);
        }
    }
    fn group(g: &mut MGroup, w: bool) {
        times(&mut g.times, w);
        for e in g.entries.iter_mut() {
            entry(e, w);
        }
        for s in g.groups.iter_mut() {
            group(s, w);
        }
    }
    for x in [
        &mut m.def_user_ch,
        &mut m.descr_ch,
        &mut m.tmpl_ch,
        &mut m.mk_ch,
        &mut m.name_ch,
        &mut m.rb_ch,
    ] {
        f(x, whole);
    }
    group(&mut m.root, whole);
}
pub fn plain_opts() -> XOpts {
    XOpts {
        shuffle: false,
        unknown: false,
        header_hash: None,
        pim: false,
        omit: false,
        prot_pool: false,
        attr_case: 0,
        lower_attr: false,
    }
}
pub fn plain_style() -> Style {
    Style { decl: true, indent: Some("\t".into()), self_close: true, ..Style::default() }
}
pub fn xml_of(root: &El, enc: &Enc, st: &Style) -> Vec<u8> {
    let mut s = enc.inner();
    serialise(root, st, &mut |b| rc::b64(&s.xor(b)))
}
pub fn foreign(r: &mut Rng, m: &MDb, k: &KeySpec, enc: Enc, mut o: XOpts, st: &Style, hash: bool) -> Foreign {
    let mut m = m.clone();
    let whole = r.bool();
    sane_dates(&mut m, whole);
    m.comment = enc.comment.clone();
    m.gzip = enc.gzip;
    m.rounds = enc.rounds;
    m.version = (enc.major, enc.minor);
    let comp = k.comp();
    o.header_hash = if hash { Some(rc::sha256(&enc.header())) } else { None };
    let root = XmlWriter { r, o }.doc(&mut m);
    let xml = xml_of(&root, &enc, st);
    let data = if enc.gzip { gzip(&xml, enc.gzip_level) } else { xml.clone() };
    let file = enc.seal(&comp, &enc.header(), &enc.frame(&enc.split(&data)));
    fix_links(&mut m.root, NIL);
    Foreign { file, x: m, enc, comp, xml, data }
}
pub fn foreign_plain(r: &mut Rng, m: &MDb, k: &KeySpec) -> Foreign {
    let e = Enc::random(r);
    let hash = r.chance(3, 4);
    foreign(r, m, k, e, plain_opts(), &plain_style(), hash)
}
