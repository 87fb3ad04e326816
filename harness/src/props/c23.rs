//! Many threads at once against the results of doing the same one after another.
use crate::ctx::*;
use crate::faults::{SWriter, Step};
use crate::gen;
use crate::model::*;
use crate::refkdbx::Enc;
use crate::rng::{mix, Rng};
use crate::util::{at, at_mut, bfs_paths, differences, foreign, lib_at, lib_at_mut, plain_opts, plain_style};
use kpdb::{CompositeKey, Database, Entry, EntryUuid, Group, GroupUuid, KeyFile, KeyFileType};
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex, RwLock};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "A case is one run of several threads that share a database, a key or a key file, or work on their own databases; every \
               result a thread gets is compared with the result of the model (or of the same call before the threads started), and \
               what they shared is compared afterwards; starts and ends of all calls are stamped by one counter, and distinct cases \
               are distinct orders of these stamps. The same sections also run in a build with the thread sanitizer, standard \
               library included, and the types are compiled against Send and Sync.",
        sections: vec![
            Section { name: "shared", quick: 400, thorough: 8000, f: shared },
            Section { name: "independent", quick: 400, thorough: 8000, f: independent },
            Section { name: "keys", quick: 400, thorough: 8000, f: keys },
            Section { name: "locked", quick: 300, thorough: 6000, f: locked },
            Section { name: "rush", quick: 160, thorough: 3000, f: rush },
        ],
        need: &[
            ("calls on shared databases", 5_000),
            ("calls on own databases", 5_000),
            ("calls overlapping another thread's", 8_000),
            ("saves of a shared database at once", 500),
            ("key files made, saved and opened", 1_000),
            ("snapshots read between edits", 500),
        ],
        assumptions: &[],
        vmem_kib: 0,
    }
}

/// The library's types as shared between threads; whether they may be is checked by compiling `sendsync`.
struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Sh<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Start and end of every call, in the order of one counter.
struct Clock {
    t: AtomicU64,
    log: Mutex<Vec<(u64, u64, usize)>>,
}
struct Lane<'a> {
    clock: &'a Clock,
    me: usize,
    mine: Vec<(u64, u64, usize)>,
}
impl Clock {
    fn new() -> Clock {
        Clock { t: AtomicU64::new(0), log: Mutex::new(vec![]) }
    }
    fn lane(&self, me: usize) -> Lane<'_> {
        Lane { clock: self, me, mine: vec![] }
    }
    fn order(&self, max: usize) -> String {
        let mut ev: Vec<(u64, String)> = vec![];
        for x in self.log.lock().unwrap().iter() {
            ev.push((x.0, format!("+{}", x.2)));
            ev.push((x.1, format!("-{}", x.2)));
        }
        ev.sort();
        ev.into_iter().take(max).map(|e| e.1).collect::<Vec<_>>().join(" ")
    }
    /// Hash of the order, number of calls, number overlapping a call of another thread.
    fn read(&self) -> (u64, u64, u64) {
        let l = self.log.lock().unwrap();
        let mut ev: Vec<(u64, usize, bool)> = vec![];
        for x in l.iter() {
            ev.push((x.0, x.2, true));
            ev.push((x.1, x.2, false));
        }
        ev.sort();
        let mut h = 7;
        for e in &ev {
            h = mix(h ^ ((e.1 as u64) << 1 | e.2 as u64));
        }
        let mut over = 0;
        for a in l.iter() {
            if l.iter().any(|b| b.2 != a.2 && b.0 < a.1 && a.0 < b.1) {
                over += 1;
            }
        }
        (h, l.len() as u64, over)
    }
}
impl<'a> Lane<'a> {
    fn call<T, F: FnOnce() -> T>(&mut self, f: F) -> T {
        let a = self.clock.t.fetch_add(1, Ordering::Relaxed);
        let v = f();
        let b = self.clock.t.fetch_add(1, Ordering::Relaxed);
        self.mine.push((a, b, self.me));
        v
    }
}
impl<'a> Drop for Lane<'a> {
    fn drop(&mut self) {
        if let Ok(mut l) = self.clock.log.lock() {
            l.append(&mut self.mine);
        }
    }
}
fn pause(r: &mut Rng) {
    match r.below(12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(r.below(300) as u64)),
        2 => {
            for _ in 0..r.below(3000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}
/// Runs the bodies at once; the first complaint of any.
fn together<F>(c: &mut Ctx, n: usize, clock: &Clock, body: F) -> Option<String>
where
    F: Fn(usize, &mut Lane) -> Result<(), String> + Sync,
{
    let bar = Barrier::new(n);
    let body = Sh(&body);
    let bar = Sh(&bar);
    let res: Vec<Result<Result<(), String>, ()>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (body, bar) = (&body, &bar);
                s.spawn(move || {
                    let mut lane = clock.lane(i);
                    bar.get().wait();
                    (body.get())(i, &mut lane)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
    });
    let (h, calls, over) = clock.read();
    c.seen(h);
    c.eval();
    c.sample(|| format!("{} threads, starts (+) and ends (-) of calls by thread: {}", n, clock.order(60)));
    c.add("calls", calls);
    c.add("calls overlapping another thread's", over);
    if res.iter().any(|r| r.is_err()) {
        let p = take_panics();
        if let Some(x) = p.iter().find(|x| is_harness(&x.0)) {
            panic!("harness thread: {} {}", x.0, x.1);
        }
        return Some(format!("a thread panicked: {:?}", p.first()));
    }
    res.into_iter().enumerate().find_map(|(i, r)| r.unwrap().err().map(|e| format!("thread {} of {}: {}", i, n, e)))
}
fn threads(r: &mut Rng) -> usize {
    *r.pick(&[2usize, 2, 3, 3, 4, 6])
}
fn save(db: &Database) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    db.save(&mut v).map_err(|e| format!("save: {:?}", e))?;
    Ok(v)
}
fn open(f: &[u8], k: &CompositeKey) -> Result<Database, String> {
    Database::open(&mut Cursor::new(f), k).map_err(|e| format!("open: {:?}", e))
}
fn same(x: &MDb, d: &Database, what: &str) -> Result<(), String> {
    match differences(x, &from_db(d)) {
        Some(e) => Err(format!("{}: {}", what, e)),
        None => Ok(()),
    }
}
fn eid(i: &Id) -> EntryUuid {
    EntryUuid(uuid::Uuid::from_bytes(*i))
}
fn gid(i: &Id) -> GroupUuid {
    GroupUuid(uuid::Uuid::from_bytes(*i))
}

fn shared(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::SMALL);
    m.rounds = r.below(3) as u64;
    let k = gen::key(&mut r);
    let key = k.key();
    let db = to_db(&m, &key);
    let x = expect_after_save(&m);
    // what every call gives when nothing else runs
    let words: Vec<String> = vec![
        "".into(),
        "e".into(),
        gen::word(&mut r),
        m.root.name.clone(),
        m.root.entries.first().and_then(|e| e.strings.values().find_map(|s| if let MStr::Plain(p) = s { Some(p.clone()) } else { None })).unwrap_or("x".into()),
    ];
    let pe = |v: Vec<&Entry>| v.into_iter().map(|e| e as *const Entry as usize).collect::<Vec<_>>();
    let pg = |v: Vec<&Group>| v.into_iter().map(|e| e as *const Group as usize).collect::<Vec<_>>();
    let we: Vec<Vec<usize>> = words.iter().map(|w| pe(db.find_entries(w.clone()))).collect();
    let wg: Vec<Vec<usize>> = words.iter().map(|w| pg(db.find_groups(w.clone()))).collect();
    let all = pg(db.root_group.iter().collect());
    let mut ids: Vec<Id> = vec![NIL, r.arr()];
    for p in bfs_paths(&m.root) {
        let g = at(&m.root, &p);
        ids.push(g.uuid);
        ids.extend(g.entries.iter().map(|e| e.uuid));
    }
    let le: Vec<usize> = ids.iter().map(|i| db.get_entry(eid(i)).map_or(0, |e| e as *const Entry as usize)).collect();
    let lg: Vec<usize> = ids.iter().map(|i| db.get_group(gid(i)).map_or(0, |e| e as *const Group as usize)).collect();
    let n = threads(&mut r);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let steps = 4 + r.below(10);
    let clock = Clock::new();
    let saves = AtomicU64::new(0);
    let sh = Sh((&db, &key, &m, &x));
    let bad = together(c, n, &clock, |i, lane| {
        let mut r = Rng::new(seeds[i]);
        let (db, key, m, x) = *sh.get();
        for _ in 0..steps {
            pause(&mut r);
            match r.below(8) {
                0..=2 => {
                    let f = lane.call(|| save(db))?;
                    saves.fetch_add(1, Ordering::Relaxed);
                    let d = lane.call(|| open(&f, key))?;
                    same(x, &d, "a save of the shared database")?;
                }
                3 => {
                    let j = r.below(words.len());
                    let v = lane.call(|| pe(db.find_entries(words[j].clone())));
                    if v != we[j] {
                        return Err(format!("find_entries({:?}) gives {} items instead of {}", words[j], v.len(), we[j].len()));
                    }
                }
                4 => {
                    let j = r.below(words.len());
                    let v = lane.call(|| pg(db.find_groups(words[j].clone())));
                    if v != wg[j] {
                        return Err(format!("find_groups({:?}) gives {} items instead of {}", words[j], v.len(), wg[j].len()));
                    }
                }
                5 => {
                    if lane.call(|| pg(db.root_group.iter().collect())) != all {
                        return Err("iter gives other groups".into());
                    }
                }
                6 => {
                    let j = r.below(ids.len());
                    let a = lane.call(|| db.get_entry(eid(&ids[j])).map_or(0, |e| e as *const Entry as usize));
                    let b = lane.call(|| db.get_group(gid(&ids[j])).map_or(0, |e| e as *const Group as usize));
                    if a != le[j] || b != lg[j] {
                        return Err("a lookup gives another item".into());
                    }
                }
                _ => {
                    let d = lane.call(|| db.clone());
                    same(m, &d, "a clone of the shared database")?;
                }
            }
        }
        Ok(())
    });
    c.add("saves of a shared database at once", saves.load(Ordering::Relaxed));
    c.add("calls on shared databases", clock.read().1);
    if let Some(b) = bad {
        return c.fail(b);
    }
    if let Err(e) = same(&m, &db, "the shared database afterwards") {
        c.fail(e);
    }
}

/// Opening, editing, saving and failing on a database of its own, against its own model.
fn own(r: &mut Rng, lane: &mut Lane, steps: usize, big: bool) -> Result<(), String> {
    let cfg = if big { gen::SMALL } else { gen::TINY };
    let mut m = gen::db(r, &cfg);
    m.rounds = r.below(4) as u64;
    let mut k = gen::key(r);
    let mut key = k.key();
    let mut db = match r.bool() {
        true => to_db(&m, &key),
        false => {
            let mut e = Enc::random(r);
            e.rounds = m.rounds;
            let f = foreign(r, &m, &k, e, plain_opts(), &plain_style(), true);
            let d = lane.call(|| open(&f.file, &key))?;
            same(&f.x, &d, "a foreign file")?;
            m = f.x;
            d
        }
    };
    for _ in 0..steps {
        pause(r);
        match r.below(9) {
            0..=2 => {
                let f = lane.call(|| save(&db))?;
                let d = lane.call(|| open(&f, &key))?;
                m = expect_after_save(&m);
                m.version = (d.version.major, d.version.minor);
                same(&m, &d, "own database reopened")?;
                db = d;
            }
            3 => {
                let f = lane.call(|| save(&db))?;
                let mut other = gen::key(r);
                if other == k || other.comp() == k.comp() {
                    other = gen::KeySpec { pw: Some("other".into()), kf: Some(r.bytes(32)) };
                }
                if lane.call(|| open(&f, &other.key())).is_ok() {
                    return Err("a file opens with another key".into());
                }
            }
            4 => {
                // a save that fails must not disturb anyone
                let n = r.below(400);
                let mut w = SWriter::new(vec![Step::N(n), Step::Fail(std::io::ErrorKind::Other)], false);
                let _ = lane.call(|| db.save(&mut w));
            }
            5 => {
                k = gen::key(r);
                key = k.key();
                db.composite_key = key.clone();
            }
            6 => {
                let ps = bfs_paths(&m.root);
                let p = r.pick(&ps).clone();
                let e = gen::entry(r, &gen::TINY, &[], 0);
                lib_at_mut(&mut db.root_group, &p).add_entry(to_entry(&e));
                at_mut(&mut m.root, &p).entries.push(e);
            }
            7 => {
                let ps = bfs_paths(&m.root);
                let p = r.pick(&ps).clone();
                let t = gen::text(r, false);
                lane.call(|| lib_at_mut(&mut db.root_group, &p).notes = t.clone());
                at_mut(&mut m.root, &p).notes = t;
            }
            _ => {
                let n = lane.call(|| {
                    let mut n = 0;
                    for g in db.root_group.iter_mut() {
                        n += g.entries.len();
                    }
                    n
                });
                if n != count(&m.root).1 {
                    return Err(format!("iter_mut shows {} entries, the model has {:?}", n, count(&m.root)));
                }
            }
        }
        same(&m, &db, "own database in memory")?;
    }
    Ok(())
}
fn independent(c: &mut Ctx) {
    let mut r = c.rng();
    let n = threads(&mut r);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let steps = 3 + r.below(10);
    let big = r.chance(1, 4);
    let clock = Clock::new();
    let bad = together(c, n, &clock, |i, lane| own(&mut Rng::new(seeds[i]), lane, steps, big));
    c.add("calls on own databases", clock.read().1);
    if let Some(b) = bad {
        c.fail(b);
    }
}
/// Many small saves and opens with different keys and databases, without pauses.
fn rush(c: &mut Ctx) {
    let mut r = c.rng();
    let n = 4 + r.below(5);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let clock = Clock::new();
    let bad = together(c, n, &clock, |i, lane| {
        let mut r = Rng::new(seeds[i]);
        let mut dbs = vec![];
        for _ in 0..2 {
            let k = gen::KeySpec { pw: Some(format!("{}-{}", i, r.u64())), kf: None };
            let mut db = Database::new(&k.key());
            db.transform_rounds.0 = 1;
            db.name = format!("of {} {}", i, r.u64());
            let mut e = Entry::new();
            e.set_password(format!("secret of {}", i));
            db.root_group.add_entry(e);
            dbs.push((k.key(), from_db(&db), db));
        }
        for j in 0..12 {
            let (k, m, db) = &dbs[j % 2];
            let f = lane.call(|| save(db))?;
            let d = lane.call(|| open(&f, k))?;
            let mut x = expect_after_save(m);
            x.version = (d.version.major, d.version.minor);
            same(&x, &d, "own database")?;
            if lane.call(|| open(&f, &dbs[(j + 1) % 2].0)).is_ok() {
                return Err("a file opens with another key".into());
            }
        }
        Ok(())
    });
    c.add("calls on own databases", clock.read().1);
    if let Some(b) = bad {
        c.fail(b);
    }
}
fn keys(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let key = k.key();
    let kf = KeyFile::new_binary().expect("key file");
    let kfb = kf.key.unsecure().to_vec();
    let n = threads(&mut r);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let clock = Clock::new();
    let made = AtomicU64::new(0);
    let sh = Sh((&key, &kf));
    // one file all of them open
    let m = gen::db(&mut r, &gen::TINY);
    let enc = Enc { rounds: 1, ..Enc::random(&mut r) };
    let f = foreign(&mut r, &m, &k, enc, plain_opts(), &plain_style(), true);
    let bad = together(c, n, &clock, |i, lane| {
        let mut r = Rng::new(seeds[i]);
        let (key, kf) = *sh.get();
        for _ in 0..6 {
            pause(&mut r);
            match r.below(4) {
                0 => {
                    let d = lane.call(|| open(&f.file, key))?;
                    same(&f.x, &d, "the file opened by all")?;
                }
                1 => {
                    let d = Database { transform_rounds: kpdb::TransformRounds(1), ..Database::new(key) };
                    let f = lane.call(|| save(&d))?;
                    lane.call(|| open(&f, &key.clone()))?;
                }
                2 => {
                    // the shared key file, with a password of its own
                    let pw = gen::text(&mut r, false);
                    let ck = lane.call(|| CompositeKey::from_both(pw.clone(), kf.clone()));
                    let d = Database { transform_rounds: kpdb::TransformRounds(1), ..Database::new(&ck) };
                    let f = lane.call(|| save(&d))?;
                    let spec = gen::KeySpec { pw: Some(pw), kf: Some(kfb.clone()) };
                    if let Err(e) = decode_file(&f, &spec.comp()) {
                        return Err(format!("a file saved with the shared key file: {}", e));
                    }
                }
                _ => {
                    let x = lane.call(|| match r.below(3) {
                        0 => KeyFile::new_binary(),
                        1 => KeyFile::new_hex(),
                        _ => KeyFile::new_xml(),
                    }).map_err(|e| format!("making a key file: {:?}", e))?;
                    let mut v = vec![];
                    lane.call(|| x.save(&mut v)).map_err(|e| format!("saving a key file: {:?}", e))?;
                    let y = lane.call(|| KeyFile::open(&mut Cursor::new(&v))).map_err(|e| format!("opening a key file: {:?}", e))?;
                    made.fetch_add(1, Ordering::Relaxed);
                    if y.key.unsecure() != x.key.unsecure() || !same_type(&x.file_type, &y.file_type) {
                        return Err("a key file changes when saved and opened".into());
                    }
                }
            }
        }
        Ok(())
    });
    c.add("key files made, saved and opened", made.load(Ordering::Relaxed));
    c.add("calls on shared databases", clock.read().1);
    if let Some(b) = bad {
        return c.fail(b);
    }
    if kf.key.unsecure() != &kfb[..] {
        c.fail("the shared key file has changed");
    }
}
fn same_type(a: &KeyFileType, b: &KeyFileType) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
/// Readers that save and search between the edits of writers, under a lock.
fn locked(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = 1;
    let k = gen::key(&mut r);
    let key = k.key();
    let n = threads(&mut r).max(3);
    let writers = 1 + r.below(2);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let clock = Clock::new();
    let both = Sh(RwLock::new((to_db(&m, &key), m)));
    let sk = Sh(&key);
    let read = AtomicU64::new(0);
    let bad = together(c, n, &clock, |i, lane| {
        let mut r = Rng::new(seeds[i]);
        for _ in 0..5 {
            pause(&mut r);
            if i < writers {
                let e = gen::entry(&mut r, &gen::TINY, &[], 1);
                let mut g = both.get().write().map_err(|_| "poisoned".to_string())?;
                let (db, m) = &mut *g;
                let p = r.pick(&bfs_paths(&m.root)).clone();
                lane.call(|| lib_at_mut(&mut db.root_group, &p).add_entry(to_entry(&e)));
                at_mut(&mut m.root, &p).entries.push(e);
                if r.bool() && !m.root.entries.is_empty() {
                    let u = m.root.entries[0].uuid;
                    m.root.entries.remove(0);
                    lane.call(|| db.root_group.remove_entry(eid(&u)));
                }
            } else {
                let g = both.get().read().map_err(|_| "poisoned".to_string())?;
                let (db, m) = &*g;
                if r.bool() {
                    let f = lane.call(|| save(db))?;
                    let x = expect_after_save(m);
                    drop(g);
                    let d = lane.call(|| open(&f, sk.get()))?;
                    same(&x, &d, "a snapshot")?;
                } else {
                    let t = lane.call(|| db.find_entries("").len());
                    let all = lane.call(|| db.root_group.iter().map(|g| g.entries.len()).sum::<usize>());
                    if t > all {
                        return Err("a search finds more entries than there are".into());
                    }
                    same(m, db, "the shared database")?;
                    let p = r.pick(&bfs_paths(&m.root)).clone();
                    let _ = lib_at(&db.root_group, &p);
                }
                read.fetch_add(1, Ordering::Relaxed);
            }
        }
        Ok(())
    });
    c.add("snapshots read between edits", read.load(Ordering::Relaxed));
    if let Some(b) = bad {
        return c.fail(b);
    }
    let (db, m) = both.0.into_inner().unwrap();
    if let Err(e) = same(&m, &db, "afterwards") {
        c.fail(e);
    }
}
