//! Safe programs over the group tree, run by the interpreter, under AddressSanitizer and natively.
use kpdb::{
    BinaryKey, BinaryValue, Color, Comment, CompositeKey, Compression, Database, Entry, EntryUuid, Group, GroupUuid, Icon, KeyFile, Obfuscation,
    StringKey, StringValue, TransformRounds,
};
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Write};

pub struct R(u64);
impl R {
    pub fn new(s: u64) -> R {
        R(s.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5bf0_3635_dead_beef)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.u64() >> 33) as usize) % n
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
}
pub type Seen = BTreeMap<&'static str, u64>;
fn n(s: &mut Seen, k: &'static str) {
    *s.entry(k).or_insert(0) += 1;
}
type Res = Result<(), String>;
fn no<T>(m: &str) -> Result<T, String> {
    Err(m.to_string())
}
macro_rules! want {
    ($c:expr, $m:expr) => {
        if !$c {
            return no($m);
        }
    };
}
const WORDS: [&str; 8] = ["", "a", "Bank", "e-mail", "stra\u{df}e", "\u{3a3}\u{3c3}", "x y", "\u{1f511}"];

pub fn entry(r: &mut R) -> Entry {
    let mut e = Entry::new();
    for _ in 0..r.below(3) {
        edit_entry(r, &mut e);
    }
    e
}
fn edit_entry(r: &mut R, e: &mut Entry) {
    let w = WORDS[r.below(8)];
    match r.below(9) {
        0 => e.set_title(w),
        1 => e.set_password(w),
        2 => e.set_notes(w),
        3 => e.set_url(w),
        4 => e.set_username(w),
        5 => {
            e.strings.insert(StringKey::Other(w.to_string()), StringValue::new(w, r.bool()));
        }
        6 => {
            e.binaries.insert(BinaryKey(w.to_string()), BinaryValue::Plain(w.as_bytes().to_vec()));
        }
        7 => {
            let mut h = e.clone();
            h.history.clear();
            e.history.push(h);
        }
        _ => e.tags.push_str(w),
    }
}
pub fn group(r: &mut R, depth: usize) -> Group {
    let mut g = Group::new(WORDS[r.below(8)]);
    for _ in 0..r.below(3) {
        g.add_entry(entry(r));
    }
    if depth > 0 {
        for _ in 0..r.below(4) {
            g.add_group(group(r, depth - 1));
        }
    }
    g
}
fn size(g: &Group) -> (usize, usize) {
    let mut t = (1, g.entries.len());
    for x in &g.groups {
        let y = size(x);
        t = (t.0 + y.0, t.1 + y.1);
    }
    t
}
/// One edit of the group an iterator has just handed out.
fn edit_group(r: &mut R, s: &mut Seen, g: &mut Group) {
    match r.below(16) {
        0 => {
            g.name.push_str(WORDS[r.below(8)]);
            g.name = g.name.to_uppercase();
            n(s, "renames");
        }
        1 => {
            for _ in 0..1 + r.below(6) {
                g.add_entry(entry(r));
            }
            n(s, "entry growths");
        }
        2 => {
            g.entries.truncate(1);
            g.entries.shrink_to_fit();
            n(s, "entry shrinks");
        }
        3 => {
            for _ in 0..1 + r.below(5) {
                g.add_group(Group::new("added"));
            }
            n(s, "group growths");
        }
        4 => {
            g.groups.pop();
            g.groups.shrink_to_fit();
            n(s, "group shrinks");
        }
        5 => {
            if let Some(u) = g.groups.first().map(|x| x.uuid) {
                let x = g.remove_group(u);
                if r.bool() {
                    g.groups.extend(x);
                }
                n(s, "group removals");
            }
        }
        6 => {
            if let Some(u) = g.entries.last().map(|x| x.uuid) {
                g.remove_entry(u);
                n(s, "entry removals");
            }
        }
        7 => {
            let old = std::mem::take(&mut g.groups);
            g.groups = old.into_iter().rev().collect();
            n(s, "group vector swaps");
        }
        8 => {
            let old = std::mem::replace(g, Group::new("swapped"));
            g.groups = old.groups;
            n(s, "group swaps");
        }
        9 => {
            for x in g.iter_mut() {
                x.notes.push('n');
            }
            n(s, "inner iterations");
        }
        10 => {
            let k = g.iter().filter(|x| x.name.is_empty()).count();
            g.usage_count += k as i32;
            n(s, "inner reads");
        }
        11 => {
            for e in g.entries.iter_mut() {
                edit_entry(r, e);
            }
            n(s, "entry edits");
        }
        12 => {
            let c = g.clone();
            g.groups.insert(0, c);
            while size(g).0 > 40 {
                g.groups.pop();
            }
            n(s, "clones inserted");
        }
        13 => {
            g.groups.reserve(20);
            g.entries.reserve(20);
            n(s, "reallocations");
        }
        14 => {
            let mut e = std::mem::take(&mut g.entries);
            e.sort_by_key(|x| x.uuid.0);
            g.entries = e;
            n(s, "sorts");
        }
        _ => {
            let m = g.groups.len();
            if m > 1 {
                g.groups.swap(0, m - 1);
            }
            n(s, "swaps");
        }
    }
}

/// A random program over one tree.
pub fn tree(seed: u64, steps: usize, s: &mut Seen) -> Res {
    let mut r = R::new(seed);
    let r = &mut r;
    let mut db = Database::new(&CompositeKey::from_password("k"));
    db.root_group = group(r, 3);
    for _ in 0..steps {
        n(s, "steps");
        match r.below(13) {
            0 | 1 | 2 => {
                // edit while iterating, possibly leaving early
                let stop = r.below(60);
                let mut k = 0;
                for g in db.root_group.iter_mut() {
                    k += 1;
                    n(s, "groups visited mutably");
                    if k < 30 {
                        edit_group(r, s, g);
                    }
                    if k > stop {
                        break;
                    }
                }
            }
            3 => {
                let mut it = db.root_group.iter_mut();
                let a = it.next();
                if let Some(g) = a {
                    g.name = "first".into();
                }
                let k = it.by_ref().take(2).map(|g| g.entries.len()).sum::<usize>();
                let rest = it.map(|g| g.entries.len()).sum::<usize>();
                want!(k + rest + db.root_group.entries.len() == size(&db.root_group).1, "entries lost by a mutable iteration");
                n(s, "stepwise iterations");
            }
            4 => {
                // entries of many groups held at once
                let mut v: Vec<&mut Entry> = db.root_group.iter_mut().flat_map(|g| g.entries.iter_mut()).collect();
                for i in 0..v.len() {
                    edit_entry(r, v[i]);
                    let j = r.below(v.len());
                    v[j].usage_count += 1;
                }
                n(s, "entries held across groups");
            }
            5 => {
                let w = WORDS[r.below(8)];
                let mut v = db.find_entries_mut(w);
                for i in 0..v.len() {
                    edit_entry(r, v[i]);
                    let j = r.below(v.len());
                    v[j].set_url("found");
                }
                n(s, "mutable entry searches");
            }
            6 => {
                // only groups that do not contain each other
                let mut k = 0;
                for g in db.root_group.groups.iter_mut() {
                    k += 1;
                    g.name = format!("child {}", k);
                    for x in g.groups.iter_mut() {
                        x.name = "below".into();
                        x.groups.clear();
                    }
                }
                db.root_group.name = "root".into();
                let mut v = db.find_groups_mut("child");
                want!(v.len() == k, "a mutable search misses groups");
                for i in 0..v.len() {
                    v[i].add_entry(entry(r));
                    let j = r.below(v.len());
                    v[j].notes.push('f');
                }
                n(s, "mutable group searches");
            }
            7 => {
                let ids: Vec<EntryUuid> = db.root_group.iter().flat_map(|g| g.entries.iter().map(|e| e.uuid)).collect();
                for _ in 0..3 {
                    let u = if ids.is_empty() || r.below(6) == 0 { EntryUuid::nil() } else { ids[r.below(ids.len())] };
                    let there = db.get_entry(u).is_some();
                    match db.get_entry_mut(u) {
                        Some(e) => edit_entry(r, e),
                        None => want!(!there, "a mutable lookup misses an entry"),
                    }
                    n(s, "mutable entry lookups");
                }
            }
            8 => {
                let ids: Vec<GroupUuid> = db.root_group.iter().map(|g| g.uuid).collect();
                for _ in 0..3 {
                    let u = if r.below(6) == 0 { GroupUuid::nil() } else { ids[r.below(ids.len())] };
                    if let Some(g) = db.get_group_mut(u) {
                        edit_group(r, s, g);
                    }
                    n(s, "mutable group lookups");
                }
            }
            9 => {
                let w = WORDS[r.below(8)];
                let a: Vec<String> = db.find_groups(w).into_iter().map(|g| g.name.clone()).collect();
                let b = db.find_entries(w);
                want!(b.iter().all(|e| db.get_entry(e.uuid).is_some()), "a found entry is not there");
                want!(w != "" || a.len() == size(&db.root_group).0, "the empty search misses groups");
                n(s, "searches");
            }
            10 => {
                let c = db.clone();
                want!(c.root_group == db.root_group, "a clone differs");
                if r.bool() {
                    let t = format!("{:?}", c.root_group.name);
                    want!(!t.is_empty(), "nothing printed");
                }
                if r.bool() {
                    db = c;
                }
                n(s, "clones");
            }
            11 => {
                // half used iterators
                let mut it = db.root_group.iter_mut();
                for _ in 0..r.below(4) {
                    if let Some(g) = it.next() {
                        edit_group(r, s, g);
                    }
                }
                match r.below(3) {
                    0 => drop(it),
                    1 => std::mem::forget(it),
                    _ => {
                        n(s, if it.count() > 0 { "iterations run out" } else { "iterations already out" });
                    }
                }
                db.root_group.name.push('!');
                n(s, "iterations left early");
            }
            _ => {
                // the iterator on another thread, and readers at once
                let root = &mut db.root_group;
                std::thread::scope(|t| {
                    let it = root.iter_mut();
                    t.spawn(move || {
                        for g in it {
                            g.last_accessed = g.creation_time;
                        }
                    });
                });
                let db = &db;
                let (a, b) = std::thread::scope(|t| {
                    let x = t.spawn(move || db.root_group.iter().count());
                    let y = t.spawn(move || db.find_groups("").len());
                    (x.join(), y.join())
                });
                want!(a.ok() == b.ok(), "two readers see different trees");
                n(s, "threaded steps");
            }
        }
        while size(&db.root_group).0 > 60 {
            db.root_group.groups.pop();
        }
    }
    Ok(())
}

struct Chop<'a>(Cursor<&'a [u8]>, R);
impl<'a> Read for Chop<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = b.len().min(1 + self.1.below(40));
        self.0.read(&mut b[..k])
    }
}
struct Drip(Vec<u8>, R);
impl Write for Drip {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = b.len().min(1 + self.1.below(40));
        self.0.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A text handed out must be UTF-8; looks at the bytes themselves and walks the characters.
pub fn text_ok(s: &str) -> Res {
    let bytes: Vec<u8> = s.as_bytes().to_vec();
    want!(std::str::from_utf8(&std::hint::black_box(bytes)).is_ok(), "a text handed out by safe code is not UTF-8");
    let _ = s.chars().count();
    Ok(())
}
fn entry_ok(e: &Entry) -> Res {
    for t in [e.title(), e.password(), e.notes(), e.url(), e.username()] {
        text_ok(t.unwrap_or(""))?;
    }
    for (k, v) in &e.strings {
        text_ok(&k.to_string())?;
        text_ok(e.other(k.clone()).unwrap_or(""))?;
        if let StringValue::Plain(ref s) = *v {
            text_ok(s)?;
        }
        text_ok(&format!("{:?}{:?}", k, v))?;
    }
    for k in e.binaries.keys() {
        text_ok(&k.0)?;
    }
    for a in &e.associations {
        text_ok(&a.keystroke_sequence)?;
        text_ok(&a.window)?;
    }
    for t in [&e.override_url, &e.tags, &e.auto_type_def_sequence] {
        text_ok(t)?;
    }
    for h in &e.history {
        entry_ok(h)?;
    }
    Ok(())
}
/// Every text of a database.
pub fn texts_ok(d: &Database) -> Res {
    for t in [&d.name, &d.description, &d.def_username, &d.generator] {
        text_ok(t)?;
    }
    for (k, v) in &d.custom_data {
        text_ok(k)?;
        text_ok(v)?;
    }
    for g in d.root_group.iter() {
        for t in [&g.name, &g.notes, &g.def_auto_type_sequence] {
            text_ok(t)?;
        }
        for e in &g.entries {
            entry_ok(e)?;
        }
    }
    Ok(())
}

/// Saving and opening small databases, whole and damaged.
pub fn files(seed: u64, s: &mut Seen) -> Res {
    let mut r = R::new(seed);
    let r = &mut r;
    let kf = match r.below(3) {
        0 => KeyFile::new_binary(),
        1 => KeyFile::new_hex(),
        _ => KeyFile::new_xml(),
    };
    let kf = kf.map_err(|e| format!("key file: {:?}", e))?;
    let mut kb = Drip(vec![], R::new(seed));
    kf.save(&mut kb).map_err(|e| format!("saving a key file: {:?}", e))?;
    let kf2 = KeyFile::open(&mut Chop(Cursor::new(&kb.0), R::new(seed))).map_err(|e| format!("opening a key file: {:?}", e))?;
    want!(kf2.key == kf.key, "a key file changes");
    n(s, "key files");
    let key = match r.below(3) {
        0 => CompositeKey::from_password("pw"),
        1 => CompositeKey::from_key_file(kf.clone()),
        _ => CompositeKey::from_both("pw", kf2.clone()),
    };
    let mut db = Database::new(&key);
    db.transform_rounds = TransformRounds(r.below(2) as u64);
    db.compression = if r.below(3) == 0 { Compression::GZip } else { Compression::None };
    db.root_group = Group::new("r");
    for _ in 0..r.below(3) {
        let mut e = Entry::new();
        for _ in 0..4 {
            edit_entry(r, &mut e);
        }
        db.root_group.add_entry(e);
    }
    if r.bool() {
        db.root_group.add_group(Group::new("g"));
    }
    if r.bool() {
        db.comment = Some(Comment(b"c".to_vec()));
    }
    let mut out = Drip(vec![], R::new(seed ^ 1));
    db.save(&mut out).map_err(|e| format!("save: {:?}", e))?;
    n(s, "saves");
    let f = out.0;
    let d = Database::open(&mut Chop(Cursor::new(&f), R::new(seed ^ 2)), &key).map_err(|e| format!("open: {:?}", e))?;
    n(s, "opens");
    texts_ok(&d)?;
    want!(d.root_group.name == "r" && d.root_group.entries.len() == db.root_group.entries.len(), "the tree changes when saved and opened");
    for (a, b) in d.root_group.entries.iter().zip(&db.root_group.entries) {
        want!(a.strings == b.strings && a.uuid == b.uuid, "an entry changes when saved and opened");
    }
    // damaged
    for i in 0..4 {
        let mut g = f.clone();
        match i {
            0 => g.truncate(r.below(f.len())),
            1 => {
                let p = r.below(200).min(f.len() - 1);
                g[p] ^= 1 << r.below(8);
            }
            2 => {
                let p = r.below(f.len());
                g[p] ^= 1 << r.below(8);
            }
            _ => g.truncate(g.len() - 1 - r.below(15)),
        }
        // rounds may have been made huge
        if !rounds_small(&g) {
            continue;
        }
        if let Ok(d) = Database::open(&mut Cursor::new(&g), &key) {
            texts_ok(&d)?;
            n(s, "damaged files opened");
        }
        n(s, "damaged files");
    }
    // damaged key files
    for _ in 0..4 {
        let mut g = kb.0.clone();
        let p = r.below(g.len());
        match r.below(3) {
            0 => g.truncate(p),
            1 => g[p] ^= 1 << r.below(8),
            _ => g.insert(p, r.u64() as u8),
        }
        let _ = KeyFile::open(&mut Cursor::new(&g));
        n(s, "damaged key files");
    }
    Ok(())
}
/// Walks the header to the declared number of rounds.
fn rounds_small(f: &[u8]) -> bool {
    let mut p = 12;
    while p + 3 <= f.len() {
        let (id, l) = (f[p], f[p + 1] as usize | (f[p + 2] as usize) << 8);
        if id == 6 && l == 8 && p + 11 <= f.len() {
            let mut b = [0; 8];
            b.copy_from_slice(&f[p + 3..p + 11]);
            return u64::from_le_bytes(b) < 50;
        }
        if id == 0 {
            return true;
        }
        p += 3 + l;
    }
    true
}

/// Conversions and small values.
pub fn values(seed: u64, s: &mut Seen) -> Res {
    let mut r = R::new(seed);
    let r = &mut r;
    for _ in 0..20 {
        let alphabet = ['#', '0', '9', 'a', 'F', 'g', '+', '\u{e9}', '\u{1f511}', ' '];
        let mut t: String = (0..r.below(9)).map(|_| alphabet[r.below(10)]).collect();
        if r.bool() {
            t = format!("#{}", t);
        }
        let _ = Color::from_hex_string(&t).map(|c| c.to_hex_string());
        let i = r.u64() as i32 >> r.below(32);
        let _ = Icon::from_i32(i).map(|x| x.to_i32());
        let _ = Obfuscation::from_i32(i).map(|x| x.to_i32());
        let k = StringKey::from_string(WORDS[r.below(8)]);
        want!(StringKey::from_string(&k.to_string()) == k, "a field name changes");
        let v = StringValue::new(WORDS[r.below(8)], r.bool());
        want!(v == v.clone(), "a value differs from its clone");
        let _ = format!("{:?}{:?}", v, k);
        n(s, "values");
    }
    let mut e = entry(r);
    for _ in 0..20 {
        edit_entry(r, &mut e);
        entry_ok(&e)?;
    }
    // protected values made of any bytes, cut in the middle of a character among them
    for _ in 0..8 {
        let mut b: Vec<u8> = WORDS[r.below(8)].as_bytes().to_vec();
        match r.below(4) {
            0 => b.push([0xff, 0x80, 0xc3, 0xe2, 0xf0][r.below(5)]),
            1 => b.extend_from_slice(&[0xf0, 0x9f, 0x94]),
            2 => b.insert(0, 0xc3),
            _ => b.truncate(b.len().saturating_sub(1)),
        }
        let key = match r.below(7) {
            0 => StringKey::Title,
            1 => StringKey::Notes,
            2 => StringKey::Url,
            3 => StringKey::Username,
            4 => StringKey::Other("x".into()),
            _ => StringKey::Password,
        };
        let fine = std::str::from_utf8(&b).is_ok();
        e.strings.insert(key.clone(), StringValue::Protected(secstr::SecStr::new(b)));
        want!(fine || e.other(key).is_none(), "a value that is no text is handed out as text");
        entry_ok(&e)?;
        n(s, "protected values of any bytes");
    }
    let k = CompositeKey::from_password(WORDS[r.below(8)]);
    want!(k == k.clone(), "a key differs from its clone");
    let _ = format!("{:?}", k);
    Ok(())
}

/// The listed finding: groups that contain each other, held at once.
pub fn overlap(which: &str) -> Res {
    let mut db = Database::new(&CompositeKey::from_password("k"));
    let mut g = Group::new("ra");
    g.add_group(Group::new("rb"));
    db.root_group = Group::new("r");
    db.root_group.add_group(g);
    let v: Vec<&mut Group> = if which == "search" { db.find_groups_mut("r") } else { db.root_group.iter_mut().collect() };
    // the parent gives up its groups while the children are still in hand
    let mut it = v.into_iter();
    let first = it.next();
    let second = it.next();
    if let (Some(a), Some(b)) = (first, second) {
        a.groups.clear();
        b.name.push('x');
    }
    Ok(())
}
