//! Files written by the independent implementation open to exactly what they describe.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{self, gzip, gzip_form, Enc};
use crate::refxml::{self, El, Style};
use crate::rng::Rng;
use crate::util::*;
use kpdb::{Color, Compression, Database, KeyFile};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "A case is one KDBX 3.1 file from the independent writer: a random database, random container choices (field \
               order, comment, compression level, block sizes), random XML choices (declaration, indentation, line ends, \
               escapes, CDATA, comments and processing instructions inside values, element order, unknown elements, omitted \
               settings, protection in file or in memory, attachment encodings); distinct by file hash.",
        sections: vec![
            Section { name: "random", quick: 8000, thorough: 120_000, f: random },
            Section { name: "single", quick: 3000, thorough: 30_000, f: single },
            Section { name: "blocks", quick: 300, thorough: 3000, f: blocks },
            Section { name: "bulk", quick: 48, thorough: 480, f: bulk },
            Section { name: "defaults", quick: 64, thorough: 400, f: defaults },
            Section { name: "dates", quick: 600, thorough: 8000, f: dates },
            Section { name: "samples", quick: 8, thorough: 8, f: samples },
        ],
        need: &[
            ("files opened to what they describe", 5_000),
            ("values in pieces", 500),
            ("unknown elements", 500),
            ("settings left out", 500),
            ("protected pool", 100),
            ("sample files", 3),
            ("megabytes in one place", 40),
        ],
        assumptions: &[
            "a standard file is one the published KDBX 3.1 format and XML 1.0 allow, in UTF-8; the independent writer stands for \
             other programs, and the repository's sample files for KeePass itself",
        ],
        vmem_kib: 0,
    }
}

fn opts(r: &mut Rng) -> XOpts {
    XOpts {
        shuffle: r.bool(),
        unknown: r.bool(),
        header_hash: None,
        pim: r.bool(),
        omit: r.bool(),
        prot_pool: r.bool(),
        attr_case: r.below(3) as u8,
        lower_attr: r.chance(1, 3),
    }
}

/// Opens the file and compares; true if it is as described.
fn judge(c: &mut Ctx, f: &Foreign, k: &gen::KeySpec, what: &str) -> bool {
    c.eval();
    c.seen_bytes(&f.file);
    let t0 = now_s();
    let o = must_open(&f.file, &k.key());
    let d = match o {
        Err(e) => Some(e),
        Ok(db) => {
            let d = diff_now(&f.x, &from_db(&db), (t0 - 1, now_s() + 1));
            if d.is_empty() {
                None
            } else {
                Some(format!("{} differences: {}", d.len(), d.iter().take(4).cloned().collect::<Vec<_>>().join("; ")))
            }
        }
    };
    match d {
        None => {
            c.n("files opened to what they describe");
            true
        }
        Some(e) => {
            c.attach("kdbx", &f.file);
            c.attach("xml", &f.xml);
            c.fail(format!("{}: {}", what, e));
            false
        }
    }
}

fn build(c: &mut Ctx, r: &mut Rng, m: &MDb, k: &gen::KeySpec, o: XOpts, st: &Style) -> Foreign {
    let enc = Enc::random(r);
    let hash = r.chance(3, 4);
    if st.text >= 4 {
        c.n("values in pieces");
    }
    if st.crlf {
        c.n("CRLF documents");
    }
    if o.unknown {
        c.n("unknown elements");
    }
    if o.omit {
        c.n("settings left out");
    }
    if o.prot_pool && !m.binaries.is_empty() {
        c.n("protected pool");
    }
    foreign(r, m, k, enc, o, st, hash)
}

fn random(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = if r.chance(1, 30) { gen::any_db(&mut r) } else { gen::db(&mut r, &gen::TINY) };
    if r.chance(1, 4) {
        gen::variants(&mut r, &mut m.root);
        c.n("custom fields named like a well-known one");
    }
    let k = gen::key(&mut r);
    let o = opts(&mut r);
    let st = Style::random(&mut r);
    let f = build(c, &mut r, &m, &k, o.clone(), &st);
    c.sample(|| format!("{} bytes, {:?}, {:?}", f.file.len(), st, o));
    // the writer itself is watched: the independent reader has to see the same document
    if c.index % 8 == 0 {
        match refxml::parse(&f.xml) {
            Ok(t) => {
                let (g, e) = count(&f.x.root);
                let mut n = (0, 0);
                fn walk(e: &El, inside: bool, n: &mut (usize, usize)) {
                    for x in e.els() {
                        match x.name.as_str() {
                            "Group" if inside => {
                                n.0 += 1;
                                walk(x, true, n);
                            }
                            "Entry" if inside => n.1 += 1,
                            "Root" => walk(x, true, n),
                            _ => {}
                        }
                    }
                }
                walk(&t, false, &mut n);
                assert!(n == (g, e), "writer lost elements: {:?} {:?}", n, (g, e));
            }
            Err(e) => panic!("writer made bad XML: {}", e),
        }
    }
    judge(c, &f, &k, &format!("style {:?}, options {:?}, container {:?}", st, o, f.enc.order));
}

/// One unusual choice at a time on an otherwise plain file.
fn single(c: &mut Ctx) {
    let mut r = c.rng();
    let m = gen::db(&mut r, &gen::TINY);
    let k = gen::key(&mut r);
    let mut o = plain_opts();
    let mut st = plain_style();
    match c.index % 20 {
        0 => o.shuffle = true,
        1 => o.unknown = true,
        2 => o.pim = true,
        3 => o.omit = true,
        4 => o.prot_pool = true,
        5 => o.attr_case = 1,
        6 => o.attr_case = 2,
        7 => o.lower_attr = true,
        8 => st.decl = false,
        9 => st.bom = true,
        10 => st.crlf = true,
        11 => st.single_quotes = true,
        12 => st.comments = true,
        13 => st.indent = None,
        14 => st.self_close = false,
        n => st.text = (n - 14) as u8,
    }
    let f = build(c, &mut r, &m, &k, o.clone(), &st);
    judge(c, &f, &k, &format!("{:?} {:?}", st, o));
}

fn blocks(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    if r.bool() {
        let n = r.below(200_000);
        m.binaries.insert("big".into(), r.bytes(n));
    }
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    e.gzip = c.index % 2 == 0;
    let base = foreign(&mut r, &m, &k, e, plain_opts(), &plain_style(), true);
    for v in 0..6 {
        let len = base.data.len();
        let sizes: Vec<usize> = match v {
            0 => vec![1 + len / 300],
            1 => vec![len],
            2 => vec![len - 1],
            3 => vec![len / 2, 1, len],
            4 => (0..200).map(|_| 1 + r.below(1 + len / 100)).collect(),
            _ => vec![len / 3, len / 3, 7],
        };
        let mut e = base.enc.clone();
        e.block_sizes = sizes.iter().map(|s| (*s).max(1)).collect();
        let parts = e.split(&base.data);
        c.add("blocks", parts.len() as u64);
        let file = e.seal(&base.comp, &e.header(), &e.frame(&parts));
        let f = Foreign { file, x: base.x.clone(), enc: e, comp: base.comp, xml: base.xml.clone(), data: vec![] };
        if !judge(c, &f, &k, &format!("{} bytes in {} blocks, gzip {}", len, parts.len(), f.enc.gzip)) {
            return;
        }
    }
    if c.index % 10 == 0 && base.data.len() < 6000 {
        let mut e = base.enc.clone();
        e.block_sizes = vec![1];
        let file = e.seal(&base.comp, &e.header(), &e.frame(&e.split(&base.data)));
        let f = Foreign { file, x: base.x.clone(), enc: e, comp: base.comp, xml: base.xml.clone(), data: vec![] };
        judge(c, &f, &k, "blocks of one byte");
    }
    // the largest values the format allows around the data: several gzip levels of the same content
    for lvl in [0, 1, 9, gzip_form(&mut r), 6 + 10 * 32 * (1 + r.below(3) as u32)] {
        let mut e = base.enc.clone();
        e.gzip = true;
        e.gzip_level = lvl;
        let mut x = base.x.clone();
        x.gzip = true;
        // the header changes, so no recorded hash
        let xml = String::from_utf8(base.xml.clone()).unwrap();
        let a = xml.find("<HeaderHash>").unwrap();
        let b = xml.find("</HeaderHash>").unwrap() + "</HeaderHash>".len();
        let xml = [&xml.as_bytes()[..a], &xml.as_bytes()[b..]].concat();
        let file = e.seal(&base.comp, &e.header(), &e.frame(&e.split(&gzip(&xml, lvl))));
        let f = Foreign { file, x, enc: e, comp: base.comp, xml, data: vec![] };
        if !judge(c, &f, &k, &format!("gzip level {}", lvl)) {
            return;
        }
    }
}

/// Files that leave out almost everything.
fn defaults(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let e = Enc::random(&mut r);
    let gid: Id = r.arr();
    let eid: Id = r.arr();
    let group = format!(
        "<Group><UUID>{}</UUID><Name>Top</Name><Entry><UUID>{}</UUID></Entry></Group>",
        rc::b64(&gid),
        rc::b64(&eid)
    );
    let (xml, has) = match c.index % 4 {
        0 => (format!("<KeePassFile><Meta></Meta><Root>{}</Root></KeePassFile>", group), true),
        1 => (format!("<KeePassFile><Meta/><Root>{}</Root></KeePassFile>", group), true),
        2 => (format!("<KeePassFile><Root>{}</Root></KeePassFile>", group), true),
        _ => (
            format!(
                "<KeePassFile><Root>{}</Root><Meta><MemoryProtection/><Binaries/><CustomIcons/><CustomData/></Meta></KeePassFile>",
                group
            ),
            true,
        ),
    };
    let file = e.file(&k.comp(), xml.as_bytes());
    c.eval();
    c.seen_bytes(&file);
    c.attach("xml", xml.as_bytes());
    let t0 = now_s();
    let db = match must_open(&file, &k.key()) {
        Ok(db) => db,
        Err(p) => return c.fail(format!("file without settings: {}", p)),
    };
    let d = Database::new(&k.key());
    let m = from_db(&db);
    let mut x = from_db(&d);
    x.comment = e.comment.clone();
    x.gzip = e.gzip;
    x.rounds = e.rounds;
    x.version = (3, 1);
    x.generator = m.generator.clone();
    for t in [&mut x.def_user_ch, &mut x.descr_ch, &mut x.tmpl_ch, &mut x.mk_ch, &mut x.name_ch, &mut x.rb_ch] {
        *t = TM_NOW;
    }
    let mut want: Vec<String> = vec![];
    // the published defaults, not only "as a new database"
    let lit = (x.maint, x.mk_rec, x.mk_force, x.hist_items, x.hist_size, x.p_pass, x.p_title, x.p_user, x.p_url, x.p_notes, x.rb_en);
    if lit != (365, -1, -1, 10, 6 * 1024 * 1024, true, false, false, false, false, true) {
        want.push(format!("a new database has {:?}", lit));
    }
    if has {
        x.root = m.root.clone();
        let g = &m.root;
        if g.uuid != gid || g.name != "Top" || g.entries.len() != 1 || g.entries[0].uuid != eid || !g.groups.is_empty() {
            want.push(format!("tree {:?}", m.root));
        } else {
            let e = &g.entries[0];
            if g.notes != "" || g.icon != 48 || !g.expanded || g.en_at.is_some() || g.en_search.is_some() || g.at_seq != "" || g.top != NIL || g.cicon.is_some() {
                want.push(format!("group defaults {:?}", g));
            }
            if e.icon != 0 || !e.at_enabled || e.at_obf != 0 || !e.strings.is_empty() || !e.bins.is_empty() || !e.history.is_empty()
                || e.fg.is_some() || e.bg.is_some() || e.tags != "" || e.url != "" || e.cicon.is_some() || !e.assoc.is_empty()
            {
                want.push(format!("entry defaults {:?}", e));
            }
            for t in [&g.times, &e.times] {
                if t.expires || t.usage != 0 || t.creation.s < t0 - 1 || t.creation.s > now_s() + 1 {
                    want.push(format!("default times {:?}", t));
                }
            }
        }
    }
    want.extend(diff_now(&x, &m, (t0 - 1, now_s() + 1)));
    if want.is_empty() {
        c.n("files opened to what they describe");
    } else {
        c.fail(want[..want.len().min(4)].join("; "));
    }
}

/// Spellings of one instant.
fn dates(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let e = Enc::random(&mut r);
    let t = gen::sdate(&mut r);
    let t = Tm { s: t.s.clamp(-62000000000, 253402200000), n: 0 };
    let off = r.below(14 * 60 + 1) as i64 * if r.bool() { 1 } else { -1 };
    let at = |t: i64| {
        let s = fmt_tm(Tm { s: t, n: 0 });
        s[..s.len() - 1].to_string()
    };
    let frac = *r.pick(&["", ".0", ".5", ".123", ".123456", ".123456789", ".000000001"]);
    let n: u32 = if frac.is_empty() { 0 } else { format!("{:0<9}", &frac[1..]).parse().unwrap() };
    let s = match r.below(4) {
        0 => format!("{}{}Z", at(t.s), frac),
        1 => format!("{}{}+00:00", at(t.s), frac),
        _ => format!(
            "{}{}{}{:02}:{:02}",
            at(t.s + off * 60),
            frac,
            if off < 0 { '-' } else { '+' },
            off.abs() / 60,
            off.abs() % 60
        ),
    };
    let want = Tm { s: t.s, n };
    let xml = format!(
        "<KeePassFile><Meta><MasterKeyChanged>{0}</MasterKeyChanged></Meta><Root><Group><Times><ExpiryTime>{0}</ExpiryTime></Times>\
         <Entry><Times><CreationTime>{0}</CreationTime></Times></Entry></Group></Root></KeePassFile>",
        s
    );
    let file = e.file(&k.comp(), xml.as_bytes());
    c.eval();
    c.seen_bytes(s.as_bytes());
    c.sample(|| s.clone());
    match must_open(&file, &k.key()) {
        Err(p) => c.fail(format!("date {}: {}", s, p)),
        Ok(db) => {
            let m = from_db(&db);
            let got = [m.mk_ch, m.root.times.expiry, m.root.entries[0].times.creation];
            if got.iter().any(|g| *g != want) {
                c.fail(format!("date {}: expected {:?} got {:?}", s, want, got));
            } else {
                c.n("files opened to what they describe");
            }
        }
    }
}

/// The repository's own KeePass files against the independent reader.
fn samples(c: &mut Ctx) {
    let names = [("db-password.kdbx", true, ""), ("db-key-file.kdbx", false, "db-key-file.key"), ("db-both.kdbx", true, "db-both.key")];
    let (n, pw, kf) = names[c.index % 3];
    let f = data(n);
    let kb = data(kf);
    let lib_kf = if kf.is_empty() { None } else { guard(|| KeyFile::open(&mut &kb[..])).ok().and_then(|x| x.ok()) };
    let key = match (pw, lib_kf) {
        (true, Some(k)) => kpdb::CompositeKey::from_both("test", k),
        (true, None) => kpdb::CompositeKey::from_password("test"),
        (false, Some(k)) => kpdb::CompositeKey::from_key_file(k),
        _ => return c.fail(format!("key file {} does not open", kf)),
    };
    // the key bytes by own means
    let own = if kf.is_empty() {
        None
    } else {
        let t = refxml::parse(&kb).expect("sample key file");
        Some(rc::unb64(t.child("Key").unwrap().child("Data").unwrap().content().unwrap().trim()).unwrap())
    };
    let comp = rc::composite(if pw { Some(b"test") } else { None }, own.as_deref());
    c.eval();
    let cont = refkdbx::decode(&f, &comp).unwrap_or_else(|e| panic!("{}: {}", n, e));
    let mut t = refxml::parse(&cont.xml).expect("sample xml");
    decipher(&mut t, &mut rc::Salsa20::new(&rc::sha256(&cont.stream_key), &rc::INNER_NONCE)).expect("decipher");
    let db = match must_open(&f, &key) {
        Ok(db) => db,
        Err(e) => return c.fail(format!("{}: {}", n, e)),
    };
    c.seen_bytes(&f);
    let mut d: Vec<String> = vec![];
    if (db.compression == Compression::GZip) != cont.gzip || db.transform_rounds.0 != cont.rounds {
        d.push("container settings".into());
    }
    let meta = t.child("Meta").unwrap();
    let txt = |e: &El, n: &str| e.child(n).map(|x| x.content().unwrap()).unwrap_or_default();
    if db.name != txt(meta, "DatabaseName") || db.description != txt(meta, "DatabaseDescription") || db.def_username != txt(meta, "DefaultUserName") {
        d.push("settings texts".into());
    }
    if tm(db.master_key_changed) != parse_tm(&txt(meta, "MasterKeyChanged")).unwrap() {
        d.push("MasterKeyChanged".into());
    }
    let col = txt(meta, "Color");
    if db.color.as_ref().map(|c: &Color| c.to_hex_string()).unwrap_or_default() != col.to_lowercase() {
        d.push("Color".into());
    }
    fn cmp(g: &kpdb::Group, e: &El, n: &mut u64, d: &mut Vec<String>) {
        let txt = |e: &El, n: &str| e.child(n).map(|x| x.content().unwrap()).unwrap_or_default();
        let kids: Vec<&El> = e.els().filter(|x| x.name == "Group").collect();
        let ents: Vec<&El> = e.els().filter(|x| x.name == "Entry").collect();
        if g.name != txt(e, "Name") || rc::b64(g.uuid.0.as_bytes()) != txt(e, "UUID") || g.groups.len() != kids.len() || g.entries.len() != ents.len() {
            d.push(format!("group {}", g.name));
            return;
        }
        for (a, b) in g.entries.iter().zip(ents) {
            *n += 1;
            if rc::b64(a.uuid.0.as_bytes()) != txt(b, "UUID") {
                d.push("entry uuid".into());
            }
            let m = from_entry(a);
            let strs: Vec<&El> = b.els().filter(|x| x.name == "String").collect();
            if m.strings.len() != strs.len() {
                d.push("number of strings".into());
            }
            for s in strs {
                let v = s.child("Value").unwrap();
                let want = match &v.secret {
                    Some(b) => MStr::Prot(b.clone()),
                    None if v.get_attr("ProtectInMemory") == Some("True") => MStr::Prot(v.content().unwrap().into_bytes()),
                    None => MStr::Plain(v.content().unwrap()),
                };
                if m.strings.get(&txt(s, "Key")) != Some(&want) {
                    d.push(format!("string {}", txt(s, "Key")));
                }
            }
            let h = b.child("History").map_or(0, |h| h.els().count());
            if h != m.history.len() {
                d.push("history".into());
            }
            if tm(a.creation_time) != parse_tm(&txt(b.child("Times").unwrap(), "CreationTime")).unwrap() {
                d.push("entry times".into());
            }
        }
        for (a, b) in g.groups.iter().zip(kids) {
            cmp(a, b, n, d);
        }
    }
    let mut n_e = 0;
    cmp(&db.root_group, t.child("Root").unwrap().child("Group").unwrap(), &mut n_e, &mut d);
    c.add("sample entries", n_e);
    if d.is_empty() {
        c.n("sample files");
    } else {
        c.fail(format!("{}: {}", n, d.join("; ")));
    }
}

/// Values of many megabytes in every place, in blocks of every size.
fn bulk(c: &mut Ctx) {
    let mut r = c.rng();
    let n = gen::bulk_size(&mut r, if c.thorough { 1 << 26 } else { 1 << 23 });
    let kind = c.index;
    let m = gen::bulk(&mut r, kind, n);
    let k = gen::key(&mut r);
    let mut e = Enc::random(&mut r);
    e.rounds = 1;
    e.gzip = c.index / gen::BULKS % 2 == 0;
    e.block_sizes = vec![*r.pick(&[1usize << 20, 1 << 16, 1 << 28, 1_000_000, (1 << 20) + 1, 1 << 22, (1 << 24) + 1])];
    let mut o = opts(&mut r);
    o.unknown = false;
    let f = foreign(&mut r, &m, &k, e, o, &plain_style(), true);
    c.add("megabytes in one place", (n >> 20) as u64);
    judge(c, &f, &k, &format!("{} bytes in place {}, gzip {}, blocks of {:?}", n, kind % gen::BULKS, f.enc.gzip, f.enc.block_sizes));
}
