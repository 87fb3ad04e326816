//! Rounds, compression, comment and settings in effect.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{self, Enc};
use crate::refxml::Style;
use crate::rng::Rng;
use crate::util::*;
use kpdb::{Comment, Compression, Database};

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "A case is one database saved (and reopened, edited or built from a foreign file or the defaults); the header is read \
               by an independent parser, the payload decrypted with a key transformed exactly the declared number of rounds (and not \
               with one more or less), and the settings in the document and after opening are compared with those chosen; distinct by \
               settings.",
        sections: vec![
            Section { name: "saved", quick: 3000, thorough: 40_000, f: saved },
            Section { name: "reopened", quick: 600, thorough: 8000, f: reopened },
            Section { name: "edited", quick: 1500, thorough: 20_000, f: edited },
            Section { name: "foreign", quick: 1500, thorough: 20_000, f: foreign_file },
            Section { name: "defaults", quick: 64, thorough: 400, f: defaults },
            Section { name: "rounds", quick: 64, thorough: 600, f: rounds },
            Section { name: "sized", quick: 72, thorough: 600, f: sized },
        ],
        need: &[
            ("files whose declared rounds opened them", 5_000),
            ("files not opened by another number of rounds", 5_000),
            ("settings changed one at a time", 1_000),
            ("reopenings", 2_000),
            ("fresh databases", 60),
            ("rounds above 60000", 10),
            ("large databases", 40),
        ],
        assumptions: &["the hash functions and AES of the reference are right (checked against known answers at start)"],
        vmem_kib: 0,
    }
}
fn head(m: &MDb) -> String {
    format!("{:?} {} {} {:?}", m.comment, m.gzip, m.rounds, (m.hist_items, m.hist_size, m.maint, m.mk_force, m.mk_rec))
}
/// The file must declare and use the settings of `m`.
fn file(c: &mut Ctx, f: &[u8], comp: &[u8; 32], m: &MDb, r: &mut Rng) -> bool {
    c.eval();
    c.attach("file", f);
    let (_, _, fs, off) = match refkdbx::parse_header(f) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("header: {}", e));
            return false;
        }
    };
    let get = |id: u8| fs.iter().find(|x| x.0 == id).map(|x| x.1.clone());
    let n = fs.iter().filter(|x| x.0 == 6).count();
    let declared = get(6).and_then(|d| d.try_into().ok().map(u64::from_le_bytes));
    if n != 1 || declared != Some(m.rounds) {
        c.fail(format!("{} rounds chosen, {:?} declared ({} times)", m.rounds, declared, n));
        return false;
    }
    if get(3) != Some((m.gzip as u32).to_le_bytes().to_vec()) {
        c.fail(format!("compression {} chosen, {:?} declared", m.gzip, get(3)));
        return false;
    }
    if get(1) != m.comment {
        c.fail(format!("comment {:?} chosen, {:?} declared", m.comment, get(1)));
        return false;
    }
    // the key is transformed exactly that often
    let arr = |id: u8| -> Option<[u8; 32]> { get(id)?.try_into().ok() };
    let iv: Option<[u8; 16]> = get(7).and_then(|d| d.try_into().ok());
    let (ms, ts, iv, start) = match (arr(4), arr(5), iv, arr(9)) {
        (Some(a), Some(b), Some(i), Some(s)) => (a, b, i, s),
        _ => {
            c.fail("header fields are missing");
            return false;
        }
    };
    let opens = |rounds: u64| {
        let k = rc::master(&ms, &rc::transform(comp, &ts, rounds));
        rc::cbc_dec(&k, &iv, &f[off..]).map_or(false, |p| p.len() >= 32 && p[..32] == start)
    };
    if !opens(m.rounds) {
        let near: Vec<u64> = (0..100u64).filter(|&k| opens(k)).collect();
        c.fail(format!("the key was not transformed {} times as declared (works with {:?})", m.rounds, near));
        return false;
    }
    c.n("files whose declared rounds opened them");
    let other = match r.below(3) {
        0 => m.rounds + 1,
        1 => m.rounds.wrapping_sub(1).min(m.rounds + 2),
        _ => {
            if m.rounds == 0 {
                1
            } else {
                0
            }
        }
    };
    if opens(other) {
        c.fail(format!("{} rounds give the same key as {}", other, m.rounds));
        return false;
    }
    c.n("files not opened by another number of rounds");
    match decode_file(f, comp) {
        Ok((d, _, _)) => {
            let mut d = d;
            // the document has the settings, the header the rest
            d.comment = m.comment.clone();
            d.gzip = m.gzip;
            d.rounds = m.rounds;
            let x = expect_after_save(m);
            fix_links(&mut d.root, NIL);
            if let Some(e) = differences(&x, &d) {
                c.fail(format!("in the file: {}", e));
                return false;
            }
        }
        Err(e) => {
            c.fail(format!("decoding: {}", e));
            return false;
        }
    }
    true
}
fn opened(c: &mut Ctx, f: &[u8], k: &gen::KeySpec, m: &MDb, what: &str) -> Option<Database> {
    match must_open(f, &k.key()) {
        Ok(d) => {
            let x = expect_after_save(m);
            match differences(&x, &from_db(&d)) {
                Some(e) => {
                    c.fail(format!("{}: {}", what, e));
                    None
                }
                None => Some(d),
            }
        }
        Err(e) => {
            c.fail(format!("{}: {}", what, e));
            None
        }
    }
}
/// Rounds: mostly few, some that are near the edges of narrower integers.
fn some_rounds(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[0u64, 1, 2, 10, 100, 127, 128, 255, 256, 257, 1000, 1024]),
        1 => 1 + r.below(3000) as u64,
        _ => r.below(60) as u64,
    }
}
fn settings(r: &mut Rng) -> MDb {
    let mut m = gen::db(r, &gen::Cfg { depth: 1, groups: 1, entries: 1, history: 1, fields: 1, long: false, nested_history: false });
    m.rounds = some_rounds(r);
    m.gzip = r.bool();
    m.comment = match r.below(4) {
        0 => Some(vec![]),
        1 => {
            let mut t = gen::text(r, true).into_bytes();
            t.truncate(65535);
            Some(t)
        }
        2 => {
            let n = *r.pick(&[1usize, 255, 256, 257, 4096, 65535]);
            Some(r.bytes(n))
        }
        _ => None,
    };
    m
}
fn saved(c: &mut Ctx) {
    let mut r = c.rng();
    let m = settings(&mut r);
    let k = gen::key(&mut r);
    c.seen_bytes(head(&m).as_bytes());
    c.sample(|| head(&m).chars().take(200).collect());
    let db = to_db(&m, &k.key());
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    if file(c, &f, &k.comp(), &m, &mut r) {
        opened(c, &f, &k, &m, "opened");
    }
}
fn reopened(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = settings(&mut r);
    let k = gen::key(&mut r);
    let mut db = to_db(&m, &k.key());
    c.seen_bytes(head(&m).as_bytes());
    for i in 0..3 + r.below(6) {
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        if !file(c, &f, &k.comp(), &m, &mut r) {
            return;
        }
        db = match opened(c, &f, &k, &m, &format!("reopening {}", i)) {
            Some(d) => d,
            None => return,
        };
        m = expect_after_save(&m);
        c.n("reopenings");
    }
}
/// One setting changed in an opened database: it and nothing else is different in the next file.
fn edited(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = settings(&mut r);
    let k = gen::key(&mut r);
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    let mut db = match opened(c, &f, &k, &m, "opened") {
        Some(d) => d,
        None => return,
    };
    m = expect_after_save(&m);
    for _ in 0..1 + r.below(3) {
        let other = settings(&mut r);
        let what = r.below(24);
        let src = to_db(&other, &k.key());
        match what {
            0 | 1 | 2 => {
                db.transform_rounds.0 = other.rounds;
                m.rounds = other.rounds;
            }
            3 => {
                db.compression = if other.gzip { Compression::GZip } else { Compression::None };
                m.gzip = other.gzip;
            }
            4 => {
                db.comment = other.comment.clone().map(Comment);
                m.comment = other.comment;
            }
            5 => {
                db.name = src.name;
                db.name_changed = src.name_changed;
                m.name = other.name;
                m.name_ch = other.name_ch;
            }
            6 => {
                db.description = src.description;
                db.description_changed = src.description_changed;
                m.descr = other.descr;
                m.descr_ch = other.descr_ch;
            }
            7 => {
                db.def_username = src.def_username;
                db.def_username_changed = src.def_username_changed;
                m.def_user = other.def_user;
                m.def_user_ch = other.def_user_ch;
            }
            8 => {
                db.history_max_items = src.history_max_items;
                m.hist_items = other.hist_items;
            }
            9 => {
                db.history_max_size = src.history_max_size;
                m.hist_size = other.hist_size;
            }
            10 => {
                db.maintenance_history_days = src.maintenance_history_days;
                m.maint = other.maint;
            }
            11 => {
                db.master_key_change_force = src.master_key_change_force;
                m.mk_force = other.mk_force;
            }
            12 => {
                db.master_key_change_rec = src.master_key_change_rec;
                m.mk_rec = other.mk_rec;
            }
            13 => {
                db.master_key_changed = src.master_key_changed;
                m.mk_ch = other.mk_ch;
            }
            14 => {
                db.protect_notes = !db.protect_notes;
                m.p_notes = !m.p_notes;
            }
            15 => {
                db.protect_password = !db.protect_password;
                m.p_pass = !m.p_pass;
            }
            16 => {
                db.protect_title = !db.protect_title;
                m.p_title = !m.p_title;
            }
            17 => {
                db.protect_url = !db.protect_url;
                m.p_url = !m.p_url;
            }
            18 => {
                db.protect_username = !db.protect_username;
                m.p_user = !m.p_user;
            }
            19 => {
                db.recycle_bin_enabled = !db.recycle_bin_enabled;
                m.rb_en = !m.rb_en;
            }
            20 => {
                db.recycle_bin_uuid = src.recycle_bin_uuid;
                db.recycle_bin_changed = src.recycle_bin_changed;
                m.rb = other.rb;
                m.rb_ch = other.rb_ch;
            }
            21 => {
                db.color = src.color;
                m.color = other.color;
            }
            22 => {
                db.last_selected_group = src.last_selected_group;
                db.last_top_visible_group = src.last_top_visible_group;
                m.last_sel = other.last_sel;
                m.last_top = other.last_top;
            }
            _ => {
                db.entry_templates_group_uuid = src.entry_templates_group_uuid;
                db.entry_templates_group_changed = src.entry_templates_group_changed;
                m.tmpl = other.tmpl;
                m.tmpl_ch = other.tmpl_ch;
            }
        }
        c.n("settings changed one at a time");
        c.seen_bytes(format!("{} {}", what, head(&m)).as_bytes());
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        if !file(c, &f, &k.comp(), &m, &mut r) {
            return;
        }
        db = match opened(c, &f, &k, &m, "opened after a change") {
            Some(d) => d,
            None => return,
        };
    }
}
fn foreign_file(c: &mut Ctx) {
    let mut r = c.rng();
    let m = settings(&mut r);
    let k = gen::key(&mut r);
    let mut enc = Enc::random(&mut r);
    enc.rounds = some_rounds(&mut r);
    let hash = r.bool();
    let st = Style::random(&mut r);
    let f = foreign(&mut r, &m, &k, enc, plain_opts(), &st, hash);
    c.seen_bytes(head(&f.x).as_bytes());
    c.eval();
    let d = match must_open(&f.file, &k.key()) {
        Ok(d) => d,
        Err(e) => return c.fail(e),
    };
    if let Some(e) = differences(&f.x, &from_db(&d)) {
        return c.fail(format!("opened: {}", e));
    }
    let f2 = match must_save(&d) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    let m2 = from_db(&d);
    if file(c, &f2, &k.comp(), &m2, &mut r) {
        if opened(c, &f2, &k, &m2, "saved again").is_some() {
            c.n("reopenings");
        }
    }
}
fn defaults(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let t0 = now_s();
    let db = Database::new(&k.key());
    let t1 = now_s();
    c.eval();
    let m = from_db(&db);
    let mut bad: Vec<String> = vec![];
    let mut is = |what: &str, ok: bool| {
        if !ok {
            bad.push(what.to_string());
        }
    };
    is("10000 rounds", m.rounds == 10000);
    is("gzip", m.gzip);
    is("no comment", m.comment.is_none());
    is("KDBX 3.1", m.version == (3, 1));
    is("type", db.db_type == kpdb::DbType::Kdb2);
    is("only passwords protected", m.p_pass && !m.p_notes && !m.p_title && !m.p_url && !m.p_user);
    is("root named Root", m.root.name == "Root");
    is("root empty", m.root.groups.is_empty() && m.root.entries.is_empty());
    is("root identifier", m.root.uuid != NIL);
    is("root parent", m.root.parent == NIL);
    is("nothing else", m.binaries.is_empty() && m.icons.is_empty() && m.custom_data.is_empty() && m.color.is_none());
    is("texts empty", m.name.is_empty() && m.descr.is_empty() && m.def_user.is_empty());
    is("history limits", m.hist_items == 10 && m.hist_size == 6291456);
    is("maintenance", m.maint == 365);
    is("key change", m.mk_force == -1 && m.mk_rec == -1);
    is("recycle bin", m.rb_en && m.rb == NIL);
    is("groups", m.last_sel == NIL && m.last_top == NIL && m.tmpl == NIL);
    for t in [m.name_ch, m.descr_ch, m.def_user_ch, m.mk_ch, m.rb_ch, m.tmpl_ch] {
        is("dates", t.s >= t0 - 1 && t.s <= t1 + 1);
    }
    if !bad.is_empty() {
        return c.fail(format!("a new database lacks: {}", bad.join(", ")));
    }
    c.n("fresh databases");
    c.seen_bytes(&k.comp());
    let f = match must_save(&db) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    if file(c, &f, &k.comp(), &m, &mut r) {
        opened(c, &f, &k, &m, "a new database");
    }
}
/// Numbers of rounds past the sizes of narrower integers.
fn rounds(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = settings(&mut r);
    m.rounds = match r.below(4) {
        0 => *r.pick(&[65535u64, 65536, 65537, 100_000, 70_000, 131_072]),
        1 => 60_001 + r.below(100_000) as u64,
        _ => 5000 + r.below(20_000) as u64,
    };
    if m.rounds > 60_000 {
        c.n("rounds above 60000");
    }
    let k = gen::key(&mut r);
    c.seen_bytes(head(&m).as_bytes());
    let f = match must_save(&to_db(&m, &k.key())) {
        Ok(f) => f,
        Err(e) => return c.fail(e),
    };
    if file(c, &f, &k.comp(), &m, &mut r) {
        opened(c, &f, &k, &m, "opened");
    }
}

/// Databases of every size, small to several megabytes, in attachments, icons, texts or the number of items: the settings stay
/// those chosen.
fn sized(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = settings(&mut r);
    m.rounds = r.below(40) as u64;
    let total = match c.index % 4 {
        0 => r.below(200_000),
        1 => 200_000 + r.below(900_000),
        2 => *r.pick(&[65_536usize, 262_144, 524_288, 1 << 20, 1 << 21]),
        _ => 1_000_000 + r.below(2_500_000),
    };
    // what fills it: random, or easily compressed
    let flat = r.bool();
    let data = |r: &mut Rng, n: usize| if flat { vec![b'a'; n] } else { r.bytes(n) };
    let kind = (c.index / 4) % 6;
    let what = ["one attachment", "attachments", "icons", "text", "entries", "protected text"][kind];
    match kind {
        0 => {
            m.binaries.insert("big".into(), data(&mut r, total));
        }
        1 => {
            let n = 2 + r.below(30);
            for i in 0..n {
                m.binaries.insert(format!("b{}", i), data(&mut r, total / n));
            }
        }
        2 => {
            let n = 1 + r.below(8);
            for _ in 0..n {
                m.icons.insert(r.arr(), data(&mut r, total / n));
            }
        }
        3 => m.root.notes = rc::b64(&data(&mut r, total * 3 / 4)),
        4 => {
            let e = gen::entry(&mut r, &gen::TINY, &[], 0);
            for _ in 0..total / 1500 {
                let mut e = e.clone();
                e.uuid = r.arr();
                m.root.entries.push(e);
            }
        }
        _ => {
            let mut e = gen::entry(&mut r, &gen::TINY, &[], 0);
            e.strings.insert("Big".into(), MStr::Prot(rc::b64(&data(&mut r, total * 3 / 4)).into_bytes()));
            m.root.entries.push(e);
        }
    }
    if total > 400_000 {
        c.n("large databases");
    }
    let k = gen::key(&mut r);
    c.seen_bytes(format!("{} {} {}", what, total, head(&m)).as_bytes());
    c.sample(|| format!("{} bytes of {}, compressible {}", total, what, flat));
    let mut db = to_db(&m, &k.key());
    for i in 0..2 {
        let f = match must_save(&db) {
            Ok(f) => f,
            Err(e) => return c.fail(e),
        };
        if !file(c, &f, &k.comp(), &m, &mut r) {
            return;
        }
        db = match opened(c, &f, &k, &m, &format!("opened {} bytes of {}", total, what)) {
            Some(d) => d,
            None => return,
        };
        m = expect_after_save(&m);
        if i == 0 {
            c.n("reopenings");
        }
    }
}
