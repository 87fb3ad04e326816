//! Histories of edits, saves, reopens and key changes against a model.
use crate::ctx::*;
use crate::faults::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use kpdb::*;
use secstr::SecStr;
use std::io::ErrorKind;
use uuid::Uuid;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "A case is one seeded history of 20 to 120 operations applied to a Database and to a model in step; it is distinct \
               by the hash of the final model and the operations applied.",
        sections: vec![
            Section { name: "history", quick: 1200, thorough: 16000, f: history },
            Section { name: "long", quick: 24, thorough: 400, f: long },
            Section { name: "samples", quick: 60, thorough: 600, f: samples },
        ],
        need: &[("evaluations", 3000), ("saves", 2000), ("reopens", 1000), ("key changes", 100), ("exact copies", 300)],
        assumptions: &[],
        vmem_kib: 0,
    }
}

struct H {
    db: Database,
    m: MDb,
    k: gen::KeySpec,
    ops: Vec<String>,
}

impl H {
    fn path(&self, r: &mut Rng) -> Vec<usize> {
        let p = bfs_paths(&self.m.root);
        p[r.below(p.len())].clone()
    }
    /// a group with an entry in it
    fn epath(&self, r: &mut Rng) -> Option<(Vec<usize>, usize)> {
        let v: Vec<Vec<usize>> =
            bfs_paths(&self.m.root).into_iter().filter(|p| !at(&self.m.root, p).entries.is_empty()).collect();
        if v.is_empty() {
            return None;
        }
        let p = v[r.below(v.len())].clone();
        let n = at(&self.m.root, &p).entries.len();
        Some((p, r.below(n)))
    }
    fn both<'a>(&'a mut self, p: &[usize]) -> (&'a mut Group, &'a mut MGroup) {
        (lib_at_mut(&mut self.db.root_group, p), at_mut(&mut self.m.root, p))
    }
    fn check(&self, c: &mut Ctx) -> bool {
        match differences(&self.m, &from_db(&self.db)) {
            None => true,
            Some(d) => {
                c.fail(format!("in-memory content after {}: {}", self.tail(), d));
                false
            }
        }
    }
    fn tail(&self) -> String {
        let n = self.ops.len();
        format!("{} operations (last: {})", n, self.ops[n.saturating_sub(4)..].join(", "))
    }
    /// first entry / group with this id in breadth-first order
    fn find_entry(&self, id: Id) -> Option<(Vec<usize>, usize)> {
        for p in bfs_paths(&self.m.root) {
            if let Some(i) = at(&self.m.root, &p).entries.iter().position(|e| e.uuid == id) {
                return Some((p, i));
            }
        }
        None
    }
    fn find_group(&self, id: Id) -> Option<Vec<usize>> {
        bfs_paths(&self.m.root).into_iter().find(|p| at(&self.m.root, p).uuid == id)
    }
}

fn new_entry(r: &mut Rng) -> (Entry, MEntry) {
    if r.chance(1, 4) {
        let e = Entry::new();
        let m = from_entry(&e);
        (e, m)
    } else {
        let m = gen::entry(r, &gen::TINY, &[], 1);
        (to_entry(&m), m)
    }
}
fn new_group(r: &mut Rng) -> (Group, MGroup) {
    if r.chance(1, 4) {
        let g = Group::new(gen::text(r, false));
        let m = from_group(&g);
        (g, m)
    } else {
        let m = gen::group(r, &gen::Cfg { entries: 2, groups: 1, ..gen::TINY }, 1, &[], &mut 4);
        (to_group(&m), m)
    }
}

fn step(c: &mut Ctx, r: &mut Rng, h: &mut H) {
    let op = r.below(37);
    let name;
    match op {
        0..=2 => {
            let p = h.path(r);
            let (e, me) = new_entry(r);
            let (g, mg) = h.both(&p);
            g.add_entry(e);
            mg.entries.push(me);
            name = "add entry";
        }
        3 | 4 => {
            let p = h.path(r);
            if p.len() > 8 {
                return;
            }
            let (n, mn) = new_group(r);
            let (g, mg) = h.both(&p);
            g.add_group(n);
            mg.groups.push(mn);
            name = "add group";
        }
        5 => {
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let id = at(&h.m.root, &p).entries[i].uuid;
            let (g, mg) = h.both(&p);
            let i = mg.entries.iter().position(|e| e.uuid == id).unwrap();
            let want = mg.entries.remove(i);
            match g.remove_entry(EntryUuid(Uuid::from_bytes(id))) {
                Some(e) if from_entry(&e) == want => {}
                x => return c.fail(format!("remove_entry gave {:?} instead of the entry", x.map(|e| e.uuid))),
            }
            name = "remove entry";
        }
        6 => {
            let p = h.path(r);
            if p.is_empty() {
                return;
            }
            let (last, up) = p.split_last().unwrap();
            let id = at(&h.m.root, up).groups[*last].uuid;
            let (g, mg) = h.both(up);
            let i = mg.groups.iter().position(|e| e.uuid == id).unwrap();
            let want = mg.groups.remove(i);
            match g.remove_group(GroupUuid(Uuid::from_bytes(id))) {
                Some(e) if from_group(&e) == want => {}
                _ => return c.fail("remove_group did not give the group"),
            }
            name = "remove group";
        }
        7 | 8 => {
            // move an entry
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let to = h.path(r);
            let id = at(&h.m.root, &p).entries[i].uuid;
            let (g, mg) = h.both(&p);
            let i = mg.entries.iter().position(|e| e.uuid == id).unwrap();
            let me = mg.entries.remove(i);
            let e = match g.remove_entry(EntryUuid(Uuid::from_bytes(id))) {
                Some(e) => e,
                None => return c.fail("remove_entry found nothing"),
            };
            let (g, mg) = h.both(&to);
            g.add_entry(e);
            mg.entries.push(me);
            name = "move entry";
        }
        9 => {
            // move a group
            let p = h.path(r);
            if p.is_empty() {
                return;
            }
            let (last, up) = p.split_last().unwrap();
            let id = at(&h.m.root, up).groups[*last].uuid;
            let (g, mg) = h.both(up);
            let i = mg.groups.iter().position(|e| e.uuid == id).unwrap();
            let mm = mg.groups.remove(i);
            let l = match g.remove_group(GroupUuid(Uuid::from_bytes(id))) {
                Some(l) => l,
                None => return c.fail("remove_group found nothing"),
            };
            let to = h.path(r);
            let (g, mg) = h.both(&to);
            g.add_group(l);
            mg.groups.push(mm);
            name = "move group";
        }
        10..=12 => {
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let id = at(&h.m.root, &p).entries[i].uuid;
            let t = gen::text(r, r.clone().chance(1, 10));
            let which = r.below(6);
            let other = gen::field_name(r, false);
            // through the lookup
            let (p, i) = h.find_entry(id).unwrap();
            let me = &mut at_mut(&mut h.m.root, &p).entries[i];
            let e = match h.db.get_entry_mut(EntryUuid(Uuid::from_bytes(id))) {
                Some(e) => e,
                None => return c.fail("get_entry_mut found nothing"),
            };
            let mut s = |k: &str, v: MStr| {
                me.strings.insert(k.to_string(), v);
            };
            match which {
                0 => {
                    e.set_title(t.clone());
                    s("Title", MStr::Plain(t));
                }
                1 => {
                    e.set_username(t.clone());
                    s("UserName", MStr::Plain(t));
                }
                2 => {
                    e.set_password(t.clone());
                    s("Password", MStr::Prot(t.into_bytes()));
                }
                3 => {
                    e.set_url(t.clone());
                    s("URL", MStr::Plain(t));
                }
                4 => {
                    e.set_notes(t.clone());
                    s("Notes", MStr::Plain(t));
                }
                _ => {
                    e.set_other(StringKey::from_string(&other), t.clone());
                    s(&other, MStr::Plain(t));
                }
            }
            name = "set field";
        }
        13 | 14 => {
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let k = if r.bool() { gen::field_name(r, false) } else { (*r.pick(&["Title", "Password", "Notes"])).into() };
            let pr = r.bool();
            let v = gen::strval(r, pr, false);
            let rm = r.chance(1, 3);
            let (g, mg) = h.both(&p);
            let keys: Vec<String> = mg.entries[i].strings.keys().cloned().collect();
            if rm && !keys.is_empty() {
                let k = r.pick(&keys).clone();
                mg.entries[i].strings.remove(&k);
                g.entries[i].strings.remove(&skey(&k));
                name = "remove field";
            } else {
                let lv = match &v {
                    MStr::Plain(s) => StringValue::Plain(s.clone()),
                    MStr::Prot(b) => StringValue::new(String::from_utf8(b.clone()).unwrap(), true),
                };
                mg.entries[i].strings.insert(k.clone(), v);
                g.entries[i].strings.insert(skey(&k), lv);
                name = "insert field";
            }
        }
        15 | 16 => {
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let k = format!("{}.bin", r.below(4));
            let b = gen::blob(r, false);
            let w = r.below(4);
            let (g, mg) = h.both(&p);
            let (e, me) = (&mut g.entries[i], &mut mg.entries[i]);
            match w {
                0 => {
                    e.binaries.insert(BinaryKey(k.clone()), BinaryValue::Plain(b.clone()));
                    me.bins.insert(k, MBin::Plain(b));
                }
                1 => {
                    e.binaries.insert(BinaryKey(k.clone()), BinaryValue::Protected(SecStr::new(b.clone())));
                    me.bins.insert(k, MBin::Prot(b));
                }
                2 => {
                    e.binaries.remove(&BinaryKey(k.clone()));
                    me.bins.remove(&k);
                }
                _ => {
                    e.binaries.insert(BinaryKey(k.clone()), BinaryValue::Ref(BinaryId("1".into())));
                    me.bins.insert(k, MBin::Ref("1".into()));
                }
            }
            name = "attachment";
        }
        17 => {
            let id = r.below(4).to_string();
            if r.chance(1, 3) {
                h.db.binaries.remove(&BinaryId(id.clone()));
                h.m.binaries.remove(&id);
            } else {
                let b = gen::blob(r, true);
                h.db.binaries.insert(BinaryId(id.clone()), b.clone());
                h.m.binaries.insert(id, b);
            }
            name = "pool attachment";
        }
        18 | 19 => {
            // keep the old version as history, or trim history
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let w = r.below(4);
            let (g, mg) = h.both(&p);
            let (e, me) = (&mut g.entries[i], &mut mg.entries[i]);
            if w == 0 && !me.history.is_empty() {
                let k = r.below(me.history.len());
                e.history.remove(k);
                me.history.remove(k);
                name = "trim history";
            } else {
                let mut old = e.clone();
                old.history.clear();
                let mut mo = me.clone();
                mo.history.clear();
                e.history.push(old);
                me.history.push(mo);
                name = "push history";
            }
        }
        20..=22 => {
            let x = gen::db(r, &gen::Cfg { groups: 0, entries: 0, ..gen::TINY });
            let tmp = to_db(&x, &h.db.composite_key);
            macro_rules! set {
                ($($a:ident, $b:ident);*) => { $( if r.chance(1, 3) { h.m.$a = x.$a.clone(); h.db.$b = tmp.$b.clone(); } )* }
            }
            set!(comment, comment; gzip, compression; rounds, transform_rounds; color, color; custom_data, custom_data;
                 icons, custom_icons; def_user, def_username; def_user_ch, def_username_changed; descr, description;
                 descr_ch, description_changed; tmpl_ch, entry_templates_group_changed; tmpl, entry_templates_group_uuid;
                 hist_items, history_max_items; hist_size, history_max_size; last_sel, last_selected_group;
                 last_top, last_top_visible_group; maint, maintenance_history_days; mk_force, master_key_change_force;
                 mk_rec, master_key_change_rec; mk_ch, master_key_changed; name, name; name_ch, name_changed;
                 p_notes, protect_notes; p_pass, protect_password; p_title, protect_title; p_url, protect_url;
                 p_user, protect_username; rb_ch, recycle_bin_changed; rb_en, recycle_bin_enabled; rb, recycle_bin_uuid);
            name = "settings";
        }
        23 => {
            h.k = gen::key(r);
            h.db.composite_key = h.k.key();
            c.n("key changes");
            name = "new key";
        }
        24 => {
            // edit every group through the mutable iterator
            let t = gen::word(r);
            let paths = bfs_paths(&h.m.root);
            for (n, g) in h.db.root_group.iter_mut().enumerate() {
                if n % 3 == 1 {
                    g.notes = format!("{}{}", t, n);
                }
            }
            for (n, p) in paths.iter().enumerate() {
                if n % 3 == 1 {
                    at_mut(&mut h.m.root, p).notes = format!("{}{}", t, n);
                }
            }
            name = "iter_mut";
        }
        25 => {
            let p = h.path(r);
            let id = at(&h.m.root, &p).uuid;
            let p = h.find_group(id).unwrap();
            let x = gen::group(r, &gen::Cfg { entries: 0, groups: 0, ..gen::TINY }, 0, &[], &mut 1);
            let l = to_group(&x);
            match h.db.get_group_mut(GroupUuid(Uuid::from_bytes(id))) {
                Some(g) => {
                    g.name = l.name;
                    g.icon = l.icon;
                    g.custom_icon_uuid = l.custom_icon_uuid;
                    g.enable_auto_type = l.enable_auto_type;
                    g.enable_searching = l.enable_searching;
                    g.expiry_time = l.expiry_time;
                    g.is_expanded = l.is_expanded;
                }
                None => return c.fail("get_group_mut found nothing"),
            }
            let g = at_mut(&mut h.m.root, &p);
            g.name = x.name;
            g.icon = x.icon;
            g.cicon = x.cicon;
            g.en_at = x.en_at;
            g.en_search = x.en_search;
            g.times.expiry = x.times.expiry;
            g.expanded = x.expanded;
            name = "edit group";
        }
        26 => {
            // reorder
            let p = h.path(r);
            let (a, b) = (r.u64(), r.u64());
            let (g, mg) = h.both(&p);
            if mg.entries.len() > 1 {
                let (i, j) = (a as usize % mg.entries.len(), b as usize % mg.entries.len());
                g.entries.swap(i, j);
                mg.entries.swap(i, j);
            }
            if mg.groups.len() > 1 {
                let (i, j) = (a as usize % mg.groups.len(), b as usize % mg.groups.len());
                g.groups.swap(i, j);
                mg.groups.swap(i, j);
            }
            name = "reorder";
        }
        27 => {
            // a save that fails leaves everything as it was
            let mut w = SWriter::new(vec![], false);
            w.fail_at = Some((r.below(600), Step::Fail(ErrorKind::Other)));
            let ok = guard(|| h.db.save(&mut w).is_ok());
            if ok != Ok(false) {
                return c.fail(format!("save to a failing destination gave {:?}", ok));
            }
            c.n("failed saves");
            name = "failed save";
        }
        28 => {
            // copy of an entry under a new identifier
            let (p, i) = match h.epath(r) {
                Some(x) => x,
                None => return,
            };
            let (g, mg) = h.both(&p);
            let mut e = g.entries[i].clone();
            e.uuid = EntryUuid::new_random();
            let mut me = mg.entries[i].clone();
            me.uuid = *e.uuid.0.as_bytes();
            g.add_entry(e);
            mg.entries.push(me);
            name = "copy entry";
        }
        34 => {
            // the very same entry or group once more
            let p = h.path(r);
            let (a, b, grp) = (r.below(1000), r.bool(), r.bool());
            let (g, mg) = h.both(&p);
            if grp && !mg.groups.is_empty() && mg.groups.len() < 12 {
                let i = a % mg.groups.len();
                if gen::size_of(&mg.groups[i]) > 8 {
                    return;
                }
                let (x, y) = (g.groups[i].clone(), mg.groups[i].clone());
                if b {
                    g.groups.insert(i + 1, x);
                    mg.groups.insert(i + 1, y);
                } else {
                    g.add_group(x);
                    mg.groups.push(y);
                }
            } else if !mg.entries.is_empty() {
                let i = a % mg.entries.len();
                let (x, y) = (g.entries[i].clone(), mg.entries[i].clone());
                if b {
                    g.entries.insert(i + 1, x);
                    mg.entries.insert(i + 1, y);
                } else {
                    g.add_entry(x);
                    mg.entries.push(y);
                }
            } else {
                return;
            }
            c.n("exact copies");
            name = "copy exactly";
        }
        35 => {
            // links of the settings point to groups and entries that are there
            let p = h.path(r);
            let id = at(&h.m.root, &p).uuid;
            let lib = GroupUuid(Uuid::from_bytes(id));
            match r.below(5) {
                0 => {
                    h.m.rb = id;
                    h.db.recycle_bin_uuid = lib;
                    h.m.rb_en = true;
                    h.db.recycle_bin_enabled = true;
                }
                1 => {
                    h.m.tmpl = id;
                    h.db.entry_templates_group_uuid = lib;
                }
                2 => {
                    h.m.last_sel = id;
                    h.db.last_selected_group = lib;
                }
                3 => {
                    h.m.last_top = id;
                    h.db.last_top_visible_group = lib;
                }
                _ => {
                    let (g, mg) = h.both(&p);
                    if let Some(e) = mg.entries.last() {
                        mg.top = e.uuid;
                        g.last_top_visible_entry = EntryUuid(Uuid::from_bytes(e.uuid));
                    }
                }
            }
            name = "link";
        }
        36 => {
            // everything in a group goes
            let p = h.path(r);
            if p.is_empty() && r.chance(4, 5) {
                return;
            }
            let (a, b) = (r.bool(), r.chance(1, 3));
            let (g, mg) = h.both(&p);
            if a {
                g.entries.clear();
                mg.entries.clear();
            }
            if b {
                g.groups = Vec::new();
                mg.groups = Vec::new();
            }
            name = "clear group";
        }
        _ => {
            // save, perhaps twice, and open
            c.eval();
            c.n("saves");
            let f = match must_save(&h.db) {
                Ok(f) => f,
                Err(e) => return c.fail(format!("after {}: {}", h.tail(), e)),
            };
            h.ops.push("save".into());
            if !h.check(c) {
                return;
            }
            c.attach("kdbx", &f);
            let o = match must_open(&f, &h.k.key()) {
                Ok(o) => o,
                Err(e) => return c.fail(format!("after {}: {}", h.tail(), e)),
            };
            let x = expect_after_save(&h.m);
            if let Some(d) = differences(&x, &from_db(&o)) {
                return c.fail(format!("reopened after {}: {}", h.tail(), d));
            }
            if op == 29 || op == 30 {
                let f2 = match must_save(&h.db) {
                    Ok(f) => f,
                    Err(e) => return c.fail(format!("second save after {}: {}", h.tail(), e)),
                };
                match must_open(&f2, &h.k.key()) {
                    Ok(o2) => {
                        if let Some(d) = differences(&x, &from_db(&o2)) {
                            return c.fail(format!("second save after {}: {}", h.tail(), d));
                        }
                        if o2 != o {
                            return c.fail("two saves of one database open to unequal databases");
                        }
                    }
                    Err(e) => return c.fail(format!("second save after {}: {}", h.tail(), e)),
                }
                c.n("double saves");
            }
            if op >= 30 {
                c.n("reopens");
                h.db = o;
                h.m = x;
            }
            name = "checked";
        }
    }
    h.ops.push(name.into());
}

fn run(c: &mut Ctx, r: &mut Rng, mut h: H, n: usize) {
    for i in 0..n {
        step(c, r, &mut h);
        if c.failed_here() {
            return;
        }
        c.n("operations");
        if count(&h.m.root).1 > 60 {
            h.m.root.entries.clear();
            h.db.root_group.entries.clear();
            h.m.root.groups.truncate(2);
            h.db.root_group.groups.truncate(2);
        }
        if i % 8 == 7 && !h.check(c) {
            return;
        }
    }
    if !h.check(c) {
        return;
    }
    c.seen_bytes(format!("{:?}{:?}", h.m, h.ops).as_bytes());
    c.sample(|| h.ops.join(", "));
}

fn history(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let h = if r.bool() {
        let m = gen::db(&mut r, &gen::TINY);
        H { db: to_db(&m, &k.key()), m, k, ops: vec![] }
    } else {
        let mut db = Database::new(&k.key());
        db.transform_rounds = TransformRounds(3);
        let m = from_db(&db);
        H { db, m, k, ops: vec![] }
    };
    let n = 20 + r.below(60);
    run(c, &mut r, h, n);
}
fn long(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let m = gen::db(&mut r, &gen::SMALL);
    let h = H { db: to_db(&m, &k.key()), m, k, ops: vec![] };
    let n = if c.thorough { 1500 } else { 500 };
    run(c, &mut r, h, n);
}
/// Histories that start from the sample databases of the repository.
fn samples(c: &mut Ctx) {
    let mut r = c.rng();
    let names = super::c01::sample_files();
    if names.is_empty() {
        return;
    }
    let (n, k) = names[c.index % names.len()].clone();
    let mut db = match must_open(&data(&n), &k.key()) {
        Ok(o) => o,
        Err(e) => return c.fail(format!("{}: {}", n, e)),
    };
    db.transform_rounds = TransformRounds(2);
    let m = from_db(&db);
    run(c, &mut r, H { db, m, k, ops: vec![n] }, 40);
}
