//! New entries, groups, databases and key files: documented start, fresh identity, whatever happened before.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::*;
use std::sync::{Arc, Barrier, Mutex};

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "A case is one history of uses of the library (building, editing, saving, opening, failing to open, searching, dropping) \
               between which entries, groups, databases and key files are made; each new item is compared, field by field, with the \
               documented start and all items made so far with what they were; distinct by history.",
        sections: vec![
            Section { name: "history", quick: 20000, thorough: 30_000, f: history },
            Section { name: "threads", quick: 240, thorough: 600, f: threads },
            Section { name: "names", quick: 16000, thorough: 40_000, f: names },
            Section { name: "keyfiles", quick: 6000, thorough: 20_000, f: keyfiles },
            Section { name: "many", quick: 24, thorough: 300, f: many },
            Section { name: "kept", quick: 3200, thorough: 8000, f: kept },
        ],
        need: &[
            ("new items", 180_000),
            ("made after other uses", 60_000),
            ("made in several threads at once", 9_000),
            ("identifiers compared", 180_000),
            ("earlier items still as they were", 60_000),
            ("key files made", 15_000),
            ("new databases", 15_000),
            ("identifiers made in a row", 1_000_000),
            ("new items read after saving and opening", 2_100),
        ],
        assumptions: &["the system clock does not step backwards by more than a second during a case"],
        vmem_kib: 0,
    }
}
fn now() -> Tm {
    let d = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    Tm { s: d.as_secs() as i64, n: d.subsec_nanos() }
}
fn blank_times(t: Tm) -> MTimes {
    MTimes { creation: t, expiry: t, expires: false, access: t, modif: t, loc: t, usage: 0 }
}
/// The documented start; identifier and dates are looked at separately.
fn blank_entry(uuid: Id, t: Tm) -> MEntry {
    MEntry {
        uuid,
        parent: NIL,
        assoc: vec![],
        at_seq: String::new(),
        at_enabled: true,
        at_obf: 0,
        bg: None,
        fg: None,
        bins: Default::default(),
        icon: 0,
        cicon: None,
        history: vec![],
        url: String::new(),
        strings: Default::default(),
        tags: String::new(),
        times: blank_times(t),
    }
}
fn blank_group(uuid: Id, name: &str, t: Tm) -> MGroup {
    MGroup {
        uuid,
        parent: NIL,
        cicon: None,
        at_seq: String::new(),
        en_at: None,
        en_search: None,
        entries: vec![],
        groups: vec![],
        icon: 48,
        expanded: true,
        top: NIL,
        name: name.into(),
        notes: String::new(),
        times: blank_times(t),
    }
}
fn blank_db(t: Tm, root: MGroup) -> MDb {
    MDb {
        comment: None,
        gzip: true,
        rounds: 10000,
        version: (3, 1),
        binaries: Default::default(),
        color: None,
        custom_data: Default::default(),
        icons: Default::default(),
        def_user: String::new(),
        def_user_ch: t,
        descr: String::new(),
        descr_ch: t,
        tmpl_ch: t,
        tmpl: NIL,
        generator: "rust-kpdb".into(),
        hist_items: 10,
        hist_size: 6291456,
        last_sel: NIL,
        last_top: NIL,
        maint: 365,
        mk_force: -1,
        mk_rec: -1,
        mk_ch: t,
        name: String::new(),
        name_ch: t,
        p_notes: false,
        p_pass: true,
        p_title: false,
        p_url: false,
        p_user: false,
        rb_ch: t,
        rb_en: true,
        rb: NIL,
        root,
    }
}
#[derive(Clone)]
enum Made {
    E(Entry, MEntry),
    G(Group, MGroup),
    D(Database, MDb),
}
struct Book {
    ids: std::collections::HashSet<Id>,
    made: Vec<Made>,
    err: Option<String>,
    n: u64,
    dbs: u64,
    idn: u64,
}
impl Book {
    fn new() -> Book {
        Book { ids: Default::default(), made: vec![], err: None, n: 0, dbs: 0, idn: 0 }
    }
    fn bad<S: Into<String>>(&mut self, s: S) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }
    fn fresh(&mut self, i: Id) {
        self.idn += 1;
        if i == NIL || !self.ids.insert(i) {
            self.bad(format!("the identifier {:02x?} of a new item is not new", i));
        }
    }
    fn dates(&mut self, what: &str, t0: Tm, t1: Tm, v: &[Tm]) {
        for t in v {
            if (Tm { s: t0.s - 1, n: t0.n }) > *t || *t > (Tm { s: t1.s + 1, n: t1.n }) {
                self.bad(format!("{} made between {:?} and {:?} carries the date {:?}", what, t0, t1, t));
            }
        }
    }
    fn entry(&mut self, e: Entry, random: bool, t0: Tm, t1: Tm) {
        self.n += 1;
        let got = from_entry(&e);
        let mut want = blank_entry(got.uuid, t0);
        if random {
            self.fresh(got.uuid);
        } else {
            want.uuid = NIL;
        }
        let t = &got.times;
        self.dates("an entry", t0, t1, &[t.creation, t.expiry, t.access, t.modif, t.loc]);
        want.times = MTimes { expires: false, usage: 0, ..got.times.clone() };
        let mut d = Diff { out: vec![], now: (0, 0) };
        d.entry("new entry", &want, &got);
        if let Some(x) = d.out.first() {
            self.bad(x.clone());
        }
        self.made.push(Made::E(e, got));
    }
    fn group(&mut self, g: Group, name: &str, random: bool, t0: Tm, t1: Tm) {
        self.n += 1;
        let got = from_group(&g);
        let want = self.root(&got, name, random, t0, t1);
        let mut d = Diff { out: vec![], now: (0, 0) };
        d.group("new group", &want, &got);
        if let Some(x) = d.out.first() {
            self.bad(x.clone());
        }
        self.made.push(Made::G(g, got));
    }
    fn root(&mut self, got: &MGroup, name: &str, random: bool, t0: Tm, t1: Tm) -> MGroup {
        let mut want = blank_group(got.uuid, name, t0);
        if random {
            self.fresh(got.uuid);
        } else {
            want.uuid = NIL;
        }
        let t = &got.times;
        self.dates("a group", t0, t1, &[t.creation, t.expiry, t.access, t.modif, t.loc]);
        want.times = MTimes { expires: false, usage: 0, ..got.times.clone() };
        want
    }
    fn db(&mut self, x: Database, key: &CompositeKey, t0: Tm, t1: Tm) {
        self.n += 1;
        self.dbs += 1;
        let got = from_db(&x);
        let root = self.root(&got.root, "Root", true, t0, t1);
        self.dates("a database", t0, t1, &[got.def_user_ch, got.descr_ch, got.tmpl_ch, got.mk_ch, got.name_ch, got.rb_ch]);
        let want = MDb {
            def_user_ch: got.def_user_ch,
            descr_ch: got.descr_ch,
            tmpl_ch: got.tmpl_ch,
            mk_ch: got.mk_ch,
            name_ch: got.name_ch,
            rb_ch: got.rb_ch,
            generator: got.generator.clone(),
            ..blank_db(t0, root)
        };
        if let Some(e) = differences(&want, &got) {
            self.bad(format!("new database: {}", e));
        }
        if x.composite_key.unsecure() != key.unsecure() || x.db_type != DbType::Kdb2 {
            self.bad("a new database has another key or type");
        }
        if x.master_cipher != MasterCipher::Aes256 || x.stream_cipher != StreamCipher::Salsa20 {
            self.bad("a new database has another cipher");
        }
        self.made.push(Made::D(x, got));
    }
    /// One new item of random kind.
    fn make(&mut self, r: &mut Rng) {
        let t0 = now();
        match r.below(7) {
            0 | 1 => {
                let e = Entry::new();
                self.entry(e, true, t0, now())
            }
            2 => {
                let e = Entry::default();
                self.entry(e, false, t0, now())
            }
            3 => {
                let n = gen::text(r, false);
                let g = if r.bool() { Group::new(n.as_str()) } else { Group::new(n.clone()) };
                self.group(g, &n, true, t0, now())
            }
            4 => {
                let g = Group::default();
                self.group(g, "", false, t0, now())
            }
            5 => {
                let k = gen::key(r).key();
                let t0 = now();
                let d = Database::new(&k);
                self.db(d, &k, t0, now())
            }
            _ => {
                let (e, g) = (EntryUuid::new_random(), GroupUuid::new_random());
                self.fresh(*e.0.as_bytes());
                self.fresh(*g.0.as_bytes());
                let c = CustomIconUuid::new_random();
                self.fresh(*c.0.as_bytes());
                let nil = [
                    EntryUuid::nil().0, EntryUuid::default().0, GroupUuid::nil().0, GroupUuid::default().0,
                    CustomIconUuid::nil().0, CustomIconUuid::default().0,
                ];
                if nil.iter().any(|x| *x.as_bytes() != NIL) {
                    self.bad("a nil identifier is not nil");
                }
                self.n += 1;
            }
        }
    }
    /// Items made earlier are what they were.
    fn review(&mut self) -> u64 {
        let mut bad = vec![];
        for x in &self.made {
            let ok = match x {
                Made::E(e, m) => from_entry(e) == *m,
                Made::G(g, m) => from_group(g) == *m,
                Made::D(d, m) => from_db(d) == *m,
            };
            if !ok {
                bad.push("an item changed after it was made");
            }
        }
        if let Some(b) = bad.first() {
            self.bad(*b);
        }
        self.made.len() as u64
    }
    fn report(&mut self, c: &mut Ctx) -> bool {
        let k = self.review();
        c.add("earlier items still as they were", k);
        c.add("new items", self.n);
        c.add("new databases", self.dbs);
        c.add("identifiers compared", self.idn);
        if let Some(e) = self.err.take() {
            c.fail(e);
            return false;
        }
        true
    }
}
/// Some use of the library.
fn busy(r: &mut Rng, pool: &mut Vec<Database>, files: &mut Vec<(Vec<u8>, CompositeKey)>) -> &'static str {
    match r.below(10) {
        0 => {
            let m = gen::db(r, &gen::TINY);
            let k = gen::key(r).key();
            pool.push(to_db(&m, &k));
            "built"
        }
        1 => {
            if let Some(d) = pool.last() {
                if let Ok(Ok(f)) = save(d) {
                    files.push((f, d.composite_key.clone()));
                }
            }
            "saved"
        }
        2 => {
            if let Some((f, k)) = files.last() {
                if let Ok(Ok(d)) = open(f, k) {
                    pool.push(d);
                }
            }
            "opened"
        }
        3 => {
            if let Some((f, _)) = files.last() {
                let _ = open(f, &CompositeKey::from_password("wrong"));
                let n = r.below(f.len());
                let _ = open(&f[..n], &CompositeKey::from_password("wrong"));
            }
            "failed to open"
        }
        4 => {
            if let Some(d) = pool.last_mut() {
                for g in d.root_group.iter_mut() {
                    g.is_expanded = !g.is_expanded;
                    g.enable_auto_type = Some(false);
                    g.enable_searching = Some(true);
                    g.icon = Icon::Star;
                    g.set_expires(true);
                    g.set_usage_count(77);
                    g.notes.push('n');
                    for e in g.entries.iter_mut() {
                        e.auto_type_enabled = false;
                        e.auto_type_obfuscation = Obfuscation::UseClipboard;
                        e.set_expires(true);
                        e.set_usage_count(99);
                        e.set_title("t");
                        e.tags.push('t');
                    }
                }
                d.protect_title = true;
                d.protect_password = false;
                d.transform_rounds = TransformRounds(3);
                d.compression = Compression::None;
            }
            "edited"
        }
        5 => {
            if let Some(d) = pool.last() {
                let _ = d.find_entries("t");
                let _ = d.find_groups("a");
            }
            "searched"
        }
        6 => {
            if !pool.is_empty() {
                let i = r.below(pool.len());
                pool.remove(i);
            }
            "dropped"
        }
        7 => {
            let mut e = Entry::new();
            e.set_title("x");
            e.set_notes("y");
            e.set_expires(true);
            e.icon = Icon::Tux;
            let mut g = Group::new("made");
            g.add_entry(e.clone());
            e.history.push(e.clone());
            g.add_entry(e);
            let mut h = Group::default();
            h.add_group(g);
            h.parent = GroupUuid::new_random();
            "made and edited"
        }
        8 => {
            let _ = KeyFile::new_hex();
            let mut f = &b"not a key file"[..];
            let _ = KeyFile::open(&mut f);
            "key file"
        }
        _ => {
            if let Some(d) = pool.last() {
                let c = d.clone();
                pool.push(c);
            }
            "copied"
        }
    }
}
fn history(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = Book::new();
    let (mut pool, mut files) = (vec![], vec![]);
    let mut log = vec![];
    for _ in 0..8 + r.below(25) {
        c.eval();
        if r.bool() {
            log.push(busy(&mut r, &mut pool, &mut files));
            if pool.len() > 4 {
                pool.remove(0);
            }
        } else {
            log.push("new");
            if log.len() > 1 {
                c.n("made after other uses");
            }
            b.make(&mut r);
            if b.err.is_some() {
                break;
            }
        }
    }
    c.seen_bytes(log.join(" ").as_bytes());
    c.sample(|| log.join(", "));
    b.report(c);
}
fn threads(c: &mut Ctx) {
    let mut r = c.rng();
    let n = 2 + r.below(4);
    let bar = Arc::new(Barrier::new(n));
    let out = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (bar, out, mut r) = (bar.clone(), out.clone(), Rng::new(r.u64()));
            std::thread::spawn(move || {
                let mut b = Book::new();
                let (mut pool, mut files) = (vec![], vec![]);
                bar.wait();
                for _ in 0..40 {
                    if r.chance(1, 3) {
                        busy(&mut r, &mut pool, &mut files);
                        pool.truncate(3);
                    } else {
                        b.make(&mut r);
                    }
                }
                out.lock().unwrap().push(b);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            return c.fail("a thread that makes items panicked");
        }
    }
    let mut all = std::collections::HashSet::new();
    let v = std::mem::take(&mut *out.lock().unwrap());
    for mut b in v {
        c.eval();
        c.add("made in several threads at once", b.n);
        for i in &b.ids {
            if !all.insert(*i) {
                return c.fail(format!("two threads were given the identifier {:02x?}", i));
            }
        }
        if !b.report(c) {
            return;
        }
    }
    c.seen_bytes(&all.iter().next().cloned().unwrap_or(NIL));
}
/// A new group has exactly the name given.
fn names(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = Book::new();
    for _ in 0..3 {
        let mut n = gen::text(&mut r, false);
        match r.below(8) {
            0 => n = String::new(),
            1 => n = r.pick(&["Root", "root", " ", "\t", "a/b", "\0", "Recycle Bin", "New Group", "Title"]).to_string(),
            2 => n.push(' '),
            3 => n = gen::text(&mut r, true),
            _ => {}
        }
        c.eval();
        c.seen_bytes(n.as_bytes());
        let t0 = now();
        let g = if r.bool() { Group::new(n.as_str()) } else { Group::new(n.clone()) };
        b.group(g, &n, true, t0, now());
    }
    b.report(c);
}
fn keyfiles(c: &mut Ctx) {
    let mut r = c.rng();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..4 {
        c.eval();
        let (k, want) = match r.below(4) {
            0 => (KeyFile::new(), KeyFileType::Xml),
            1 => (KeyFile::new_xml(), KeyFileType::Xml),
            2 => (KeyFile::new_hex(), KeyFileType::Hex),
            _ => (KeyFile::new_binary(), KeyFileType::Binary),
        };
        let k = match k {
            Ok(k) => k,
            Err(e) => return c.fail(format!("a new key file: {}", ek(&e))),
        };
        c.n("key files made");
        let b = k.key.unsecure().to_vec();
        if k.file_type != want || b.len() != 32 {
            return c.fail(format!("a new key file of type {:?} has type {:?} and {} bytes", want, k.file_type, b.len()));
        }
        c.seen_bytes(&b);
        if !seen.insert(b) {
            return c.fail("two new key files have the same key");
        }
    }
}
/// Long runs of identifiers and keys, in one thread and in several.
fn many(c: &mut Ctx) {
    let mut r = c.rng();
    let threads = if r.bool() { 1 } else { 2 + r.below(3) };
    let n = 60_000 / threads;
    let kind = r.below(4);
    let run = move || -> Vec<[u8; 16]> {
        (0..n)
            .map(|i| match if kind == 3 { i % 3 } else { kind } {
                0 => *Entry::new().uuid.0.as_bytes(),
                1 => *Group::new("g").uuid.0.as_bytes(),
                _ => *CustomIconUuid::new_random().0.as_bytes(),
            })
            .collect()
    };
    let all: Vec<[u8; 16]> = if threads == 1 {
        run()
    } else {
        let hs: Vec<_> = (0..threads).map(|_| std::thread::spawn(run)).collect();
        let mut v = vec![];
        for h in hs {
            match h.join() {
                Ok(x) => v.extend(x),
                Err(_) => return c.fail("a thread that makes items panicked"),
            }
        }
        v
    };
    c.eval();
    c.seen_bytes(&all[0]);
    c.add("identifiers made in a row", all.len() as u64);
    let set: std::collections::HashSet<&[u8; 16]> = all.iter().collect();
    if set.len() != all.len() || set.contains(&NIL) {
        return c.fail(format!("{} identifiers made in a row in {} threads have {} values", all.len(), threads, set.len()));
    }
    let mut keys = std::collections::HashSet::new();
    for i in 0..2000 {
        let k = match i % 3 {
            0 => KeyFile::new_xml(),
            1 => KeyFile::new_hex(),
            _ => KeyFile::new_binary(),
        };
        match k {
            Ok(k) => {
                if !keys.insert(k.key.unsecure().to_vec()) {
                    return c.fail(format!("the key of new key file {} in a row was that of another", i));
                }
            }
            Err(e) => return c.fail(format!("a new key file: {}", ek(&e))),
        }
    }
}
/// New items put into a database are the same after saving and opening.
fn kept(c: &mut Ctx) {
    let mut r = c.rng();
    let mut b = Book::new();
    let key = CompositeKey::from_password("kept");
    let t0 = now();
    let mut d = Database::new(&key);
    b.db(d.clone(), &key, t0, now());
    d.transform_rounds = TransformRounds(r.below(4) as u64);
    let t0 = now();
    let mut g = Group::new("kept");
    let e = Entry::new();
    let t1 = now();
    b.group(g.clone(), "kept", true, t0, t1);
    b.entry(e.clone(), true, t0, t1);
    g.add_entry(e.clone());
    d.root_group.add_group(g);
    c.eval();
    if !b.report(c) {
        return;
    }
    let m = from_db(&d);
    c.seen_bytes(&m.root.uuid);
    let f = match must_save(&d) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    c.attach("file", &f);
    let o = match must_open(&f, &key) {
        Ok(o) => o,
        Err(e) => return c.fail(e),
    };
    if let Some(x) = differences(&expect_after_save(&m), &from_db(&o)) {
        return c.fail(format!("new items after saving and opening: {}", x));
    }
    c.n("new items read after saving and opening");
}
