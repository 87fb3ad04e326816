//! Plain-data model of a KDBX 3.1 database; conversions to and from `kpdb::Database` and XML trees; differences.
use crate::refcrypto as rc;
use crate::refxml::{El, Node};
use crate::rng::Rng;
use chrono::{DateTime, Utc};
use kpdb::*;
use std::result::Result;
use secstr::SecStr;
use std::collections::BTreeMap;
use uuid::Uuid;

pub type Id = [u8; 16];
pub const NIL: Id = [0; 16];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Tm {
    pub s: i64,
    pub n: u32,
}
/// Matches any time near "now" (defaults the library fills in).
pub const TM_NOW: Tm = Tm { s: i64::MAX, n: 0 };

#[derive(Clone, PartialEq, Debug)]
pub enum MStr {
    Plain(String),
    Prot(Vec<u8>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum MBin {
    Plain(Vec<u8>),
    Prot(Vec<u8>),
    Ref(String),
}
#[derive(Clone, PartialEq, Debug)]
pub struct MTimes {
    pub creation: Tm,
    pub expiry: Tm,
    pub expires: bool,
    pub access: Tm,
    pub modif: Tm,
    pub loc: Tm,
    pub usage: i32,
}
#[derive(Clone, PartialEq, Debug)]
pub struct MEntry {
    pub uuid: Id,
    pub parent: Id,
    pub assoc: Vec<(String, String)>,
    pub at_seq: String,
    pub at_enabled: bool,
    pub at_obf: i32,
    pub bg: Option<[u8; 3]>,
    pub fg: Option<[u8; 3]>,
    pub bins: BTreeMap<String, MBin>,
    pub icon: i32,
    pub cicon: Option<Id>,
    pub history: Vec<MEntry>,
    pub url: String,
    pub strings: BTreeMap<String, MStr>,
    pub tags: String,
    pub times: MTimes,
}
#[derive(Clone, PartialEq, Debug)]
pub struct MGroup {
    pub uuid: Id,
    pub parent: Id,
    pub cicon: Option<Id>,
    pub at_seq: String,
    pub en_at: Option<bool>,
    pub en_search: Option<bool>,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
    pub icon: i32,
    pub expanded: bool,
    pub top: Id,
    pub name: String,
    pub notes: String,
    pub times: MTimes,
}
#[derive(Clone, PartialEq, Debug)]
pub struct MDb {
    pub comment: Option<Vec<u8>>,
    pub gzip: bool,
    pub rounds: u64,
    pub version: (u16, u16),
    pub binaries: BTreeMap<String, Vec<u8>>,
    pub color: Option<[u8; 3]>,
    pub custom_data: BTreeMap<String, String>,
    pub icons: BTreeMap<Id, Vec<u8>>,
    pub def_user: String,
    pub def_user_ch: Tm,
    pub descr: String,
    pub descr_ch: Tm,
    pub tmpl_ch: Tm,
    pub tmpl: Id,
    pub generator: String,
    pub hist_items: i32,
    pub hist_size: i32,
    pub last_sel: Id,
    pub last_top: Id,
    pub maint: i32,
    pub mk_force: i32,
    pub mk_rec: i32,
    pub mk_ch: Tm,
    pub name: String,
    pub name_ch: Tm,
    pub p_notes: bool,
    pub p_pass: bool,
    pub p_title: bool,
    pub p_url: bool,
    pub p_user: bool,
    pub rb_ch: Tm,
    pub rb_en: bool,
    pub rb: Id,
    pub root: MGroup,
}

// ---------- names ----------

/// Standard spelling of a field name, the library's identity for strings.
pub fn canon(name: &str) -> String {
    for k in ["Notes", "Password", "Title", "URL", "UserName"] {
        if name.eq_ignore_ascii_case(k) {
            return k.to_string();
        }
    }
    name.to_string()
}
pub fn skey(name: &str) -> StringKey {
    match name {
        "Notes" => StringKey::Notes,
        "Password" => StringKey::Password,
        "Title" => StringKey::Title,
        "URL" => StringKey::Url,
        "UserName" => StringKey::Username,
        o => StringKey::Other(o.to_string()),
    }
}
pub fn skey_name(k: &StringKey) -> String {
    match k {
        StringKey::Notes => "Notes".into(),
        StringKey::Password => "Password".into(),
        StringKey::Title => "Title".into(),
        StringKey::Url => "URL".into(),
        StringKey::Username => "UserName".into(),
        StringKey::Other(o) => o.clone(),
    }
}

// ---------- time ----------

pub fn tm(d: DateTime<Utc>) -> Tm {
    Tm { s: d.timestamp(), n: d.timestamp_subsec_nanos() }
}
pub fn dt(t: Tm) -> DateTime<Utc> {
    DateTime::<Utc>::from_timestamp(t.s, t.n).expect("timestamp in range")
}
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
/// Second-resolution RFC 3339 in UTC, as KeePass writes it.
pub fn fmt_tm(t: Tm) -> String {
    let days = t.s.div_euclid(86400);
    let sec = t.s.rem_euclid(86400);
    let (y, m, d) = civil(days);
    let frac = if t.n == 0 { String::new() } else { format!(".{:09}", t.n) };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}Z", y, m, d, sec / 3600, sec / 60 % 60, sec % 60, frac)
}
/// Own RFC 3339 parser (UTC or numeric offset, optional fraction, optional extended year).
pub fn parse_tm(s: &str) -> Result<Tm, String> {
    let e = || format!("date {:?}", s);
    let (sign, rest) = match s.as_bytes().first() {
        Some(b'+') => (1, &s[1..]),
        Some(b'-') => (-1, &s[1..]),
        _ => (1, s),
    };
    let (date, time) = rest.split_once('T').ok_or_else(e)?;
    let mut it = date.split('-');
    let num = |x: Option<&str>| -> Result<i64, String> {
        let x = x.ok_or_else(e)?;
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            return Err(e());
        }
        x.parse().map_err(|_| e())
    };
    let y = num(it.next())?;
    let mo = num(it.next())?;
    let d = num(it.next())?;
    if it.next().is_some() || date.len() < 10 {
        return Err(e());
    }
    let (time, off) = if let Some(t) = time.strip_suffix('Z') {
        (t, 0)
    } else if let Some(i) = time.rfind(|c| c == '+' || c == '-') {
        let (h, m) = time[i + 1..].split_once(':').ok_or_else(e)?;
        let o = num(Some(h))? * 3600 + num(Some(m))? * 60;
        (&time[..i], if &time[i..i + 1] == "-" { -o } else { o })
    } else {
        return Err(e());
    };
    let (hms, frac) = time.split_once('.').unwrap_or((time, ""));
    let mut it = hms.split(':');
    let h = num(it.next())?;
    let mi = num(it.next())?;
    let mut sec = num(it.next())?;
    let mut n: u32 = 0;
    if !frac.is_empty() {
        if frac.len() > 9 || !frac.bytes().all(|b| b.is_ascii_digit()) {
            return Err(e());
        }
        n = format!("{:0<9}", frac).parse().map_err(|_| e())?;
    }
    if !(1..=12).contains(&mo) || !(1..=31).contains(&d) || h > 23 || mi > 59 || sec > 60 {
        return Err(e());
    }
    if sec == 60 {
        sec = 59;
        n += 1_000_000_000;
    }
    Ok(Tm { s: days_from_civil(sign * y, mo, d) * 86400 + h * 3600 + mi * 60 + sec - off, n })
}

// ---------- model <-> kpdb ----------

fn u(i: Id) -> Uuid {
    Uuid::from_bytes(i)
}
fn col(c: [u8; 3]) -> Color {
    Color { red: c[0], green: c[1], blue: c[2] }
}
fn uncol(c: &Option<Color>) -> Option<[u8; 3]> {
    c.as_ref().map(|c| [c.red, c.green, c.blue])
}

pub fn to_entry(m: &MEntry) -> Entry {
    let mut e = Entry::default();
    e.associations =
        m.assoc.iter().map(|a| Association { window: a.0.clone(), keystroke_sequence: a.1.clone() }).collect();
    e.auto_type_def_sequence = m.at_seq.clone();
    e.auto_type_enabled = m.at_enabled;
    e.auto_type_obfuscation = Obfuscation::from_i32(m.at_obf).unwrap();
    e.background_color = m.bg.map(col);
    e.foreground_color = m.fg.map(col);
    for (k, v) in &m.bins {
        e.binaries.insert(
            BinaryKey(k.clone()),
            match v {
                MBin::Plain(b) => BinaryValue::Plain(b.clone()),
                MBin::Prot(b) => BinaryValue::Protected(SecStr::new(b.clone())),
                MBin::Ref(r) => BinaryValue::Ref(BinaryId(r.clone())),
            },
        );
    }
    e.creation_time = dt(m.times.creation);
    e.custom_icon_uuid = m.cicon.map(|i| CustomIconUuid(u(i)));
    e.expires = m.times.expires;
    e.expiry_time = dt(m.times.expiry);
    e.history = m.history.iter().map(to_entry).collect();
    e.icon = Icon::from_i32(m.icon).unwrap();
    e.last_accessed = dt(m.times.access);
    e.last_modified = dt(m.times.modif);
    e.location_changed = dt(m.times.loc);
    e.override_url = m.url.clone();
    for (k, v) in &m.strings {
        e.strings.insert(
            skey(k),
            match v {
                MStr::Plain(s) => StringValue::Plain(s.clone()),
                MStr::Prot(b) => StringValue::Protected(SecStr::new(b.clone())),
            },
        );
    }
    e.tags = m.tags.clone();
    e.usage_count = m.times.usage;
    e.uuid = EntryUuid(u(m.uuid));
    e.parent = GroupUuid(u(m.parent));
    e
}

pub fn from_entry(e: &Entry) -> MEntry {
    MEntry {
        uuid: *e.uuid.0.as_bytes(),
        parent: *e.parent.0.as_bytes(),
        assoc: e.associations.iter().map(|a| (a.window.clone(), a.keystroke_sequence.clone())).collect(),
        at_seq: e.auto_type_def_sequence.clone(),
        at_enabled: e.auto_type_enabled,
        at_obf: obf_num(&e.auto_type_obfuscation),
        bg: uncol(&e.background_color),
        fg: uncol(&e.foreground_color),
        bins: e
            .binaries
            .iter()
            .map(|(k, v)| {
                (
                    k.0.clone(),
                    match v {
                        BinaryValue::Plain(b) => MBin::Plain(b.clone()),
                        BinaryValue::Protected(b) => MBin::Prot(b.unsecure().to_vec()),
                        BinaryValue::Ref(r) => MBin::Ref(r.0.clone()),
                    },
                )
            })
            .collect(),
        icon: icon_num(&e.icon),
        cicon: e.custom_icon_uuid.map(|c| *c.0.as_bytes()),
        history: e.history.iter().map(from_entry).collect(),
        url: e.override_url.clone(),
        strings: e
            .strings
            .iter()
            .map(|(k, v)| {
                (
                    skey_name(k),
                    match v {
                        StringValue::Plain(s) => MStr::Plain(s.clone()),
                        StringValue::Protected(s) => MStr::Prot(s.unsecure().to_vec()),
                    },
                )
            })
            .collect(),
        tags: e.tags.clone(),
        times: MTimes {
            creation: tm(e.creation_time),
            expiry: tm(e.expiry_time),
            expires: e.expires,
            access: tm(e.last_accessed),
            modif: tm(e.last_modified),
            loc: tm(e.location_changed),
            usage: e.usage_count,
        },
    }
}

/// Codes by position in the published KeePass tables, from the variant names (independent of `to_i32`).
pub const ICON_NAMES: [&str; 69] = [
    "Key", "World", "Warning", "Server", "MarkedDirectory", "UserCommunication", "Parts", "Notepad",
    "WorldSocket", "Identity", "PaperReady", "Digicam", "IRCommunication", "MultipleKeys", "Energy", "Scanner",
    "WorldStar", "CDRom", "Monitor", "Email", "Configuration", "ClipboardReady", "PaperNew", "Screen",
    "EnergyCareful", "Inbox", "Disk", "Drive", "QuickTime", "EncryptedTerminal", "Console", "Printer", "Icons",
    "Run", "Settings", "WorldComputer", "Archive", "Banking", "Smb", "Clock", "EmailSearch", "PaperFlag", "Memory",
    "RecycleBin", "Note", "Expired", "Info", "Package", "Folder", "FolderOpen", "FolderPackage", "LockOpen",
    "PaperLocked", "Checked", "Pen", "Thumbnail", "Book", "Listing", "UserKey", "Tool", "Home", "Star", "Tux",
    "Feather", "Apple", "Wikipedia", "Money", "Certificate", "Phone",
];
pub fn icon_num(i: &Icon) -> i32 {
    let n = format!("{:?}", i);
    match ICON_NAMES.iter().position(|x| *x == n) {
        Some(p) => p as i32,
        None => i.to_i32(),
    }
}
pub fn obf_num(o: &Obfuscation) -> i32 {
    match *o {
        Obfuscation::None => 0,
        Obfuscation::UseClipboard => 1,
    }
}

pub fn to_group(m: &MGroup) -> Group {
    let mut g = Group::default();
    g.uuid = GroupUuid(u(m.uuid));
    g.parent = GroupUuid(u(m.parent));
    g.custom_icon_uuid = m.cicon.map(|i| CustomIconUuid(u(i)));
    g.def_auto_type_sequence = m.at_seq.clone();
    g.enable_auto_type = m.en_at;
    g.enable_searching = m.en_search;
    g.entries = m.entries.iter().map(to_entry).collect();
    g.groups = m.groups.iter().map(to_group).collect();
    g.icon = Icon::from_i32(m.icon).unwrap();
    g.is_expanded = m.expanded;
    g.last_top_visible_entry = EntryUuid(u(m.top));
    g.name = m.name.clone();
    g.notes = m.notes.clone();
    g.creation_time = dt(m.times.creation);
    g.expires = m.times.expires;
    g.expiry_time = dt(m.times.expiry);
    g.last_accessed = dt(m.times.access);
    g.last_modified = dt(m.times.modif);
    g.location_changed = dt(m.times.loc);
    g.usage_count = m.times.usage;
    g
}
pub fn from_group(g: &Group) -> MGroup {
    MGroup {
        uuid: *g.uuid.0.as_bytes(),
        parent: *g.parent.0.as_bytes(),
        cicon: g.custom_icon_uuid.map(|c| *c.0.as_bytes()),
        at_seq: g.def_auto_type_sequence.clone(),
        en_at: g.enable_auto_type,
        en_search: g.enable_searching,
        entries: g.entries.iter().map(from_entry).collect(),
        groups: g.groups.iter().map(from_group).collect(),
        icon: icon_num(&g.icon),
        expanded: g.is_expanded,
        top: *g.last_top_visible_entry.0.as_bytes(),
        name: g.name.clone(),
        notes: g.notes.clone(),
        times: MTimes {
            creation: tm(g.creation_time),
            expiry: tm(g.expiry_time),
            expires: g.expires,
            access: tm(g.last_accessed),
            modif: tm(g.last_modified),
            loc: tm(g.location_changed),
            usage: g.usage_count,
        },
    }
}

pub fn to_db(m: &MDb, key: &CompositeKey) -> Database {
    let mut d = Database::new(key);
    d.comment = m.comment.clone().map(Comment);
    d.compression = if m.gzip { Compression::GZip } else { Compression::None };
    d.transform_rounds = TransformRounds(m.rounds);
    d.version = Version { major: m.version.0, minor: m.version.1 };
    d.binaries = m.binaries.iter().map(|(k, v)| (BinaryId(k.clone()), v.clone())).collect();
    d.color = m.color.map(col);
    d.custom_data = m.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    d.custom_icons = m.icons.iter().map(|(k, v)| (CustomIconUuid(u(*k)), v.clone())).collect();
    d.def_username = m.def_user.clone();
    d.def_username_changed = dt(m.def_user_ch);
    d.description = m.descr.clone();
    d.description_changed = dt(m.descr_ch);
    d.entry_templates_group_changed = dt(m.tmpl_ch);
    d.entry_templates_group_uuid = GroupUuid(u(m.tmpl));
    d.generator = m.generator.clone();
    d.history_max_items = m.hist_items;
    d.history_max_size = m.hist_size;
    d.last_selected_group = GroupUuid(u(m.last_sel));
    d.last_top_visible_group = GroupUuid(u(m.last_top));
    d.maintenance_history_days = m.maint;
    d.master_key_change_force = m.mk_force;
    d.master_key_change_rec = m.mk_rec;
    d.master_key_changed = dt(m.mk_ch);
    d.name = m.name.clone();
    d.name_changed = dt(m.name_ch);
    d.protect_notes = m.p_notes;
    d.protect_password = m.p_pass;
    d.protect_title = m.p_title;
    d.protect_url = m.p_url;
    d.protect_username = m.p_user;
    d.recycle_bin_changed = dt(m.rb_ch);
    d.recycle_bin_enabled = m.rb_en;
    d.recycle_bin_uuid = GroupUuid(u(m.rb));
    d.root_group = to_group(&m.root);
    d
}
pub fn from_db(d: &Database) -> MDb {
    MDb {
        comment: d.comment.as_ref().map(|c| c.0.clone()),
        gzip: d.compression == Compression::GZip,
        rounds: d.transform_rounds.0,
        version: (d.version.major, d.version.minor),
        binaries: d.binaries.iter().map(|(k, v)| (k.0.clone(), v.clone())).collect(),
        color: uncol(&d.color),
        custom_data: d.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        icons: d.custom_icons.iter().map(|(k, v)| (*k.0.as_bytes(), v.clone())).collect(),
        def_user: d.def_username.clone(),
        def_user_ch: tm(d.def_username_changed),
        descr: d.description.clone(),
        descr_ch: tm(d.description_changed),
        tmpl_ch: tm(d.entry_templates_group_changed),
        tmpl: *d.entry_templates_group_uuid.0.as_bytes(),
        generator: d.generator.clone(),
        hist_items: d.history_max_items,
        hist_size: d.history_max_size,
        last_sel: *d.last_selected_group.0.as_bytes(),
        last_top: *d.last_top_visible_group.0.as_bytes(),
        maint: d.maintenance_history_days,
        mk_force: d.master_key_change_force,
        mk_rec: d.master_key_change_rec,
        mk_ch: tm(d.master_key_changed),
        name: d.name.clone(),
        name_ch: tm(d.name_changed),
        p_notes: d.protect_notes,
        p_pass: d.protect_password,
        p_title: d.protect_title,
        p_url: d.protect_url,
        p_user: d.protect_username,
        rb_ch: tm(d.recycle_bin_changed),
        rb_en: d.recycle_bin_enabled,
        rb: *d.recycle_bin_uuid.0.as_bytes(),
        root: from_group(&d.root_group),
    }
}

/// What opening must give for this model saved by the library: generator rewritten, links recomputed, nested history gone.
pub fn expect_after_save(m: &MDb) -> MDb {
    let mut x = m.clone();
    x.generator = "rust-kpdb".into();
    fix_links(&mut x.root, NIL);
    x
}
pub fn fix_links(g: &mut MGroup, parent: Id) {
    g.parent = parent;
    for e in g.entries.iter_mut() {
        e.parent = g.uuid;
        for h in e.history.iter_mut() {
            h.parent = NIL;
            h.history.clear();
        }
    }
    let id = g.uuid;
    for s in g.groups.iter_mut() {
        fix_links(s, id);
    }
}

// ---------- difference ----------

pub struct Diff {
    pub out: Vec<String>,
    pub now: (i64, i64),
}
fn short(s: String) -> String {
    if s.chars().count() > 160 {
        format!("{}…({} chars)", s.chars().take(160).collect::<String>(), s.chars().count())
    } else {
        s
    }
}
macro_rules! cmp {
    ($d:expr, $p:expr, $a:expr, $b:expr, $($f:ident).+) => {
        if $a.$($f).+ != $b.$($f).+ {
            $d.out.push(short(format!("{}.{}: expected {:?} got {:?}", $p, stringify!($($f).+), $a.$($f).+, $b.$($f).+)));
        }
    };
}
macro_rules! cmpt {
    ($d:expr, $p:expr, $a:expr, $b:expr, $($f:ident).+) => {
        if $a.$($f).+ == TM_NOW {
            if $b.$($f).+.s < $d.now.0 || $b.$($f).+.s > $d.now.1 {
                $d.out.push(format!("{}.{}: expected current time got {:?}", $p, stringify!($($f).+), $b.$($f).+));
            }
        } else if $a.$($f).+ != $b.$($f).+ {
            $d.out.push(format!("{}.{}: expected {:?} got {:?}", $p, stringify!($($f).+), $a.$($f).+, $b.$($f).+));
        }
    };
}
impl Diff {
    fn times(&mut self, p: &str, a: &MTimes, b: &MTimes) {
        cmpt!(self, p, a, b, creation);
        cmpt!(self, p, a, b, expiry);
        cmp!(self, p, a, b, expires);
        cmpt!(self, p, a, b, access);
        cmpt!(self, p, a, b, modif);
        cmpt!(self, p, a, b, loc);
        cmp!(self, p, a, b, usage);
    }
    pub fn entry(&mut self, p: &str, a: &MEntry, b: &MEntry) {
        if a == b {
            return;
        }
        cmp!(self, p, a, b, uuid);
        cmp!(self, p, a, b, parent);
        cmp!(self, p, a, b, assoc);
        cmp!(self, p, a, b, at_seq);
        cmp!(self, p, a, b, at_enabled);
        cmp!(self, p, a, b, at_obf);
        cmp!(self, p, a, b, bg);
        cmp!(self, p, a, b, fg);
        cmp!(self, p, a, b, icon);
        cmp!(self, p, a, b, cicon);
        cmp!(self, p, a, b, url);
        cmp!(self, p, a, b, tags);
        self.map(&format!("{}.strings", p), &a.strings, &b.strings);
        self.map(&format!("{}.binaries", p), &a.bins, &b.bins);
        self.times(p, &a.times, &b.times);
        if a.history.len() != b.history.len() {
            self.out.push(format!("{}.history: expected {} items got {}", p, a.history.len(), b.history.len()));
        }
        for (i, (x, y)) in a.history.iter().zip(&b.history).enumerate() {
            self.entry(&format!("{}.history[{}]", p, i), x, y);
        }
    }
    fn map<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(
        &mut self,
        p: &str,
        a: &BTreeMap<K, V>,
        b: &BTreeMap<K, V>,
    ) {
        for (k, v) in a {
            match b.get(k) {
                None => self.out.push(short(format!("{}[{:?}]: missing", p, k))),
                Some(w) if w != v => self.out.push(short(format!("{}[{:?}]: expected {:?} got {:?}", p, k, v, w))),
                _ => {}
            }
        }
        for k in b.keys() {
            if !a.contains_key(k) {
                self.out.push(short(format!("{}[{:?}]: unexpected", p, k)));
            }
        }
    }
    pub fn group(&mut self, p: &str, a: &MGroup, b: &MGroup) {
        cmp!(self, p, a, b, uuid);
        cmp!(self, p, a, b, parent);
        cmp!(self, p, a, b, cicon);
        cmp!(self, p, a, b, at_seq);
        cmp!(self, p, a, b, en_at);
        cmp!(self, p, a, b, en_search);
        cmp!(self, p, a, b, icon);
        cmp!(self, p, a, b, expanded);
        cmp!(self, p, a, b, top);
        cmp!(self, p, a, b, name);
        cmp!(self, p, a, b, notes);
        self.times(p, &a.times, &b.times);
        if a.entries.len() != b.entries.len() {
            self.out.push(format!("{}.entries: expected {} got {}", p, a.entries.len(), b.entries.len()));
        }
        for (i, (x, y)) in a.entries.iter().zip(&b.entries).enumerate() {
            self.entry(&format!("{}.entries[{}]", p, i), x, y);
        }
        if a.groups.len() != b.groups.len() {
            self.out.push(format!("{}.groups: expected {} got {}", p, a.groups.len(), b.groups.len()));
        }
        for (i, (x, y)) in a.groups.iter().zip(&b.groups).enumerate() {
            self.group(&format!("{}.groups[{}]", p, i), x, y);
        }
    }
}

pub fn diff(a: &MDb, b: &MDb) -> Vec<String> {
    diff_now(a, b, (0, 0))
}
/// Differences between an expected and an actual database; `now` bounds TM_NOW fields (unix seconds).
pub fn diff_now(a: &MDb, b: &MDb, now: (i64, i64)) -> Vec<String> {
    let mut d = Diff { out: vec![], now };
    let p = "db";
    cmp!(d, p, a, b, comment);
    cmp!(d, p, a, b, gzip);
    cmp!(d, p, a, b, rounds);
    cmp!(d, p, a, b, version);
    d.map("db.binaries", &a.binaries, &b.binaries);
    cmp!(d, p, a, b, color);
    d.map("db.custom_data", &a.custom_data, &b.custom_data);
    d.map("db.custom_icons", &a.icons, &b.icons);
    cmp!(d, p, a, b, def_user);
    cmpt!(d, p, a, b, def_user_ch);
    cmp!(d, p, a, b, descr);
    cmpt!(d, p, a, b, descr_ch);
    cmpt!(d, p, a, b, tmpl_ch);
    cmp!(d, p, a, b, tmpl);
    cmp!(d, p, a, b, generator);
    cmp!(d, p, a, b, hist_items);
    cmp!(d, p, a, b, hist_size);
    cmp!(d, p, a, b, last_sel);
    cmp!(d, p, a, b, last_top);
    cmp!(d, p, a, b, maint);
    cmp!(d, p, a, b, mk_force);
    cmp!(d, p, a, b, mk_rec);
    cmpt!(d, p, a, b, mk_ch);
    cmp!(d, p, a, b, name);
    cmpt!(d, p, a, b, name_ch);
    cmp!(d, p, a, b, p_notes);
    cmp!(d, p, a, b, p_pass);
    cmp!(d, p, a, b, p_title);
    cmp!(d, p, a, b, p_url);
    cmp!(d, p, a, b, p_user);
    cmpt!(d, p, a, b, rb_ch);
    cmp!(d, p, a, b, rb_en);
    cmp!(d, p, a, b, rb);
    d.group("root", &a.root, &b.root);
    d.out
}

pub fn count(g: &MGroup) -> (usize, usize) {
    let mut n = (1, g.entries.len());
    for s in &g.groups {
        let c = count(s);
        n.0 += c.0;
        n.1 += c.1;
    }
    n
}

// ---------- XML -> model (strict, for files the library saved) ----------

type R<T> = Result<T, String>;

/// Deciphers every Protected="True" text in document order into `secret`.
pub fn decipher(root: &mut El, c: &mut rc::Salsa20) -> R<usize> {
    let mut n = 0;
    fn go(e: &mut El, c: &mut rc::Salsa20, n: &mut usize) -> R<()> {
        if e.get_attr("Protected").map_or(false, |v| v.eq_ignore_ascii_case("true")) {
            let t = e.content()?;
            let b = rc::unb64(&t)?;
            e.secret = Some(c.xor(&b));
            *n += 1;
        }
        for k in e.kids.iter_mut() {
            if let Node::El(x) = k {
                go(x, c, n)?;
            }
        }
        Ok(())
    }
    go(root, c, &mut n)?;
    Ok(n)
}

fn p_id(s: &str) -> R<Id> {
    rc::unb64(s)?.try_into().map_err(|_| format!("uuid {:?}", s))
}
fn p_idopt(s: &str) -> R<Option<Id>> {
    if s.is_empty() {
        Ok(None)
    } else {
        p_id(s).map(Some)
    }
}
fn p_bool(s: &str) -> R<bool> {
    match s.to_ascii_lowercase().as_str() {
        "true" => Ok(true),
        "false" => Ok(false),
        _ => Err(format!("bool {:?}", s)),
    }
}
fn p_tri(s: &str) -> R<Option<bool>> {
    if s.eq_ignore_ascii_case("null") {
        Ok(None)
    } else {
        p_bool(s).map(Some)
    }
}
fn p_i32(s: &str) -> R<i32> {
    s.parse().map_err(|_| format!("number {:?}", s))
}
fn p_col(s: &str) -> R<Option<[u8; 3]>> {
    if s.is_empty() {
        return Ok(None);
    }
    if !s.starts_with('#') || s.len() != 7 {
        return Err(format!("colour {:?}", s));
    }
    let v = rc::unhex(&s[1..]).ok_or(format!("colour {:?}", s))?;
    Ok(Some([v[0], v[1], v[2]]))
}

struct Fields<'a> {
    e: &'a El,
    seen: Vec<&'a str>,
}
impl<'a> Fields<'a> {
    fn new(e: &'a El) -> R<Fields<'a>> {
        for k in &e.kids {
            if let Node::Text(t) = k {
                if !t.trim().is_empty() {
                    return Err(format!("text {:?} directly in <{}>", t, e.name));
                }
            }
        }
        Ok(Fields { e, seen: vec![] })
    }
    fn one(&mut self, n: &'a str) -> R<&'a El> {
        self.seen.push(n);
        let mut it = self.e.els().filter(|x| x.name == n);
        let r = it.next().ok_or(format!("<{}> missing in <{}>", n, self.e.name))?;
        if it.next().is_some() {
            return Err(format!("<{}> repeated in <{}>", n, self.e.name));
        }
        Ok(r)
    }
    fn txt(&mut self, n: &'a str) -> R<String> {
        let e = self.one(n)?;
        if !e.attrs.is_empty() {
            return Err(format!("unexpected attribute on <{}>", n));
        }
        e.content()
    }
    fn many(&mut self, n: &'a str) -> Vec<&'a El> {
        self.seen.push(n);
        self.e.els().filter(|x| x.name == n).collect()
    }
    fn end(&self) -> R<()> {
        for x in self.e.els() {
            if !self.seen.contains(&x.name.as_str()) {
                return Err(format!("unexpected <{}> in <{}>", x.name, self.e.name));
            }
        }
        Ok(())
    }
}

fn x_times(e: &El) -> R<MTimes> {
    let mut f = Fields::new(e)?;
    let t = MTimes {
        creation: parse_tm(&f.txt("CreationTime")?)?,
        expiry: parse_tm(&f.txt("ExpiryTime")?)?,
        expires: p_bool(&f.txt("Expires")?)?,
        access: parse_tm(&f.txt("LastAccessTime")?)?,
        modif: parse_tm(&f.txt("LastModificationTime")?)?,
        loc: parse_tm(&f.txt("LocationChanged")?)?,
        usage: p_i32(&f.txt("UsageCount")?)?,
    };
    f.end()?;
    Ok(t)
}

fn x_entry(e: &El, parent: Id, hist: bool) -> R<MEntry> {
    let mut f = Fields::new(e)?;
    let at = f.one("AutoType")?;
    let mut af = Fields::new(at)?;
    let mut assoc = vec![];
    for a in af.many("Association") {
        let mut x = Fields::new(a)?;
        assoc.push((x.txt("Window")?, x.txt("KeystrokeSequence")?));
        x.end()?;
    }
    let mut strings = BTreeMap::new();
    for s in f.many("String") {
        let mut x = Fields::new(s)?;
        let k = x.txt("Key")?;
        let v = x.one("Value")?;
        x.end()?;
        let val = match &v.secret {
            Some(b) => MStr::Prot(b.clone()),
            None => {
                if !v.attrs.is_empty() {
                    return Err(format!("attributes {:?} on plain string value", v.attrs));
                }
                MStr::Plain(v.content()?)
            }
        };
        if strings.insert(k.clone(), val).is_some() {
            return Err(format!("string {:?} repeated", k));
        }
    }
    let mut bins = BTreeMap::new();
    for s in f.many("Binary") {
        let mut x = Fields::new(s)?;
        let k = x.txt("Key")?;
        let v = x.one("Value")?;
        x.end()?;
        let val = match (&v.secret, v.get_attr("Ref")) {
            (Some(b), None) => MBin::Prot(b.clone()),
            (None, Some(r)) if v.content()?.is_empty() => MBin::Ref(r.to_string()),
            (None, None) if v.attrs.is_empty() => MBin::Plain(rc::unb64(&v.content()?)?),
            (None, None) if v.attrs.len() == 1 && v.get_attr("Compressed") == Some("True") => {
                MBin::Plain(crate::refkdbx::gunzip(&rc::unb64(&v.content()?)?)?)
            }
            _ => return Err(format!("binary value attributes {:?}", v.attrs)),
        };
        if bins.insert(k.clone(), val).is_some() {
            return Err(format!("binary {:?} repeated", k));
        }
    }
    let mut history = vec![];
    if !hist {
        let h = f.one("History")?;
        let mut hf = Fields::new(h)?;
        for x in hf.many("Entry") {
            history.push(x_entry(x, NIL, true)?);
        }
        hf.end()?;
    }
    let m = MEntry {
        uuid: p_id(&f.txt("UUID")?)?,
        parent,
        assoc,
        at_seq: af.txt("DefaultSequence")?,
        at_enabled: p_bool(&af.txt("Enabled")?)?,
        at_obf: p_i32(&af.txt("DataTransferObfuscation")?)?,
        bg: p_col(&f.txt("BackgroundColor")?)?,
        fg: p_col(&f.txt("ForegroundColor")?)?,
        bins,
        icon: p_i32(&f.txt("IconID")?)?,
        cicon: p_idopt(&f.txt("CustomIconUUID")?)?,
        history,
        url: f.txt("OverrideURL")?,
        strings,
        tags: f.txt("Tags")?,
        times: x_times(f.one("Times")?)?,
    };
    af.end()?;
    f.end()?;
    Ok(m)
}

fn x_group(e: &El, parent: Id) -> R<MGroup> {
    let mut f = Fields::new(e)?;
    let uuid = p_id(&f.txt("UUID")?)?;
    let mut entries = vec![];
    for x in f.many("Entry") {
        entries.push(x_entry(x, uuid, false)?);
    }
    let mut groups = vec![];
    for x in f.many("Group") {
        groups.push(x_group(x, uuid)?);
    }
    // optional in the format: absent means no custom icon
    let cicon = match f.e.child("CustomIconUUID") {
        Some(_) => p_idopt(&f.txt("CustomIconUUID")?)?,
        None => None,
    };
    let m = MGroup {
        uuid,
        parent,
        cicon,
        at_seq: f.txt("DefaultAutoTypeSequence")?,
        en_at: p_tri(&f.txt("EnableAutoType")?)?,
        en_search: p_tri(&f.txt("EnableSearching")?)?,
        entries,
        groups,
        icon: p_i32(&f.txt("IconID")?)?,
        expanded: p_bool(&f.txt("IsExpanded")?)?,
        top: p_id(&f.txt("LastTopVisibleEntry")?)?,
        name: f.txt("Name")?,
        notes: f.txt("Notes")?,
        times: x_times(f.one("Times")?)?,
    };
    f.end()?;
    Ok(m)
}

/// Strict reading of a deciphered document. Returns the model (container fields zeroed) and the header hash.
pub fn interpret(root: &El) -> R<(MDb, Vec<u8>)> {
    if root.name != "KeePassFile" {
        return Err(format!("root element <{}>", root.name));
    }
    let mut f = Fields::new(root)?;
    let mut m = Fields::new(f.one("Meta")?)?;
    let r = f.one("Root")?;
    f.end()?;
    let mut rf = Fields::new(r)?;
    let g = x_group(rf.one("Group")?, NIL)?;
    rf.seen.push("DeletedObjects");
    rf.end()?;
    let mut binaries = BTreeMap::new();
    let b = m.one("Binaries")?;
    let mut bf = Fields::new(b)?;
    for x in bf.many("Binary") {
        let id = x.get_attr("ID").ok_or("Binary without ID")?.to_string();
        for (k, _) in &x.attrs {
            if !["ID", "Compressed", "Protected"].contains(&k.as_str()) {
                return Err(format!("attribute {} on pool binary", k));
            }
        }
        let raw = match &x.secret {
            Some(s) => s.clone(),
            None => {
                let raw = rc::unb64(&x.content()?)?;
                if x.get_attr("Compressed").map_or(Ok(false), p_bool)? {
                    crate::refkdbx::gunzip(&raw)?
                } else {
                    raw
                }
            }
        };
        if binaries.insert(id.clone(), raw).is_some() {
            return Err(format!("pool binary {:?} repeated", id));
        }
    }
    bf.end()?;
    let mut custom_data = BTreeMap::new();
    let c = m.one("CustomData")?;
    let mut cf = Fields::new(c)?;
    for x in cf.many("Item") {
        let mut i = Fields::new(x)?;
        let k = i.txt("Key")?;
        let v = i.txt("Value")?;
        i.end()?;
        if custom_data.insert(k.clone(), v).is_some() {
            return Err(format!("custom data {:?} repeated", k));
        }
    }
    cf.end()?;
    let mut icons = BTreeMap::new();
    let c = m.one("CustomIcons")?;
    let mut cf = Fields::new(c)?;
    for x in cf.many("Icon") {
        let mut i = Fields::new(x)?;
        let k = p_id(&i.txt("UUID")?)?;
        let v = rc::unb64(&i.txt("Data")?)?;
        i.end()?;
        if icons.insert(k, v).is_some() {
            return Err("custom icon repeated".into());
        }
    }
    cf.end()?;
    let mp = m.one("MemoryProtection")?;
    let mut pf = Fields::new(mp)?;
    let hh = rc::unb64(&m.txt("HeaderHash")?)?;
    let d = MDb {
        comment: None,
        gzip: false,
        rounds: 0,
        version: (0, 0),
        binaries,
        color: p_col(&m.txt("Color")?)?,
        custom_data,
        icons,
        def_user: m.txt("DefaultUserName")?,
        def_user_ch: parse_tm(&m.txt("DefaultUserNameChanged")?)?,
        descr: m.txt("DatabaseDescription")?,
        descr_ch: parse_tm(&m.txt("DatabaseDescriptionChanged")?)?,
        tmpl_ch: parse_tm(&m.txt("EntryTemplatesGroupChanged")?)?,
        tmpl: p_id(&m.txt("EntryTemplatesGroup")?)?,
        generator: m.txt("Generator")?,
        hist_items: p_i32(&m.txt("HistoryMaxItems")?)?,
        hist_size: p_i32(&m.txt("HistoryMaxSize")?)?,
        last_sel: p_id(&m.txt("LastSelectedGroup")?)?,
        last_top: p_id(&m.txt("LastTopVisibleGroup")?)?,
        maint: p_i32(&m.txt("MaintenanceHistoryDays")?)?,
        mk_force: p_i32(&m.txt("MasterKeyChangeForce")?)?,
        mk_rec: p_i32(&m.txt("MasterKeyChangeRec")?)?,
        mk_ch: parse_tm(&m.txt("MasterKeyChanged")?)?,
        name: m.txt("DatabaseName")?,
        name_ch: parse_tm(&m.txt("DatabaseNameChanged")?)?,
        p_notes: p_bool(&pf.txt("ProtectNotes")?)?,
        p_pass: p_bool(&pf.txt("ProtectPassword")?)?,
        p_title: p_bool(&pf.txt("ProtectTitle")?)?,
        p_url: p_bool(&pf.txt("ProtectURL")?)?,
        p_user: p_bool(&pf.txt("ProtectUserName")?)?,
        rb_ch: parse_tm(&m.txt("RecycleBinChanged")?)?,
        rb_en: p_bool(&m.txt("RecycleBinEnabled")?)?,
        rb: p_id(&m.txt("RecycleBinUUID")?)?,
        root: g,
    };
    pf.end()?;
    m.end()?;
    Ok((d, hh))
}

/// Full independent decoding of a saved file into a model. Also returns the container and number of protected values.
pub fn decode_file(f: &[u8], comp: &[u8; 32]) -> R<(MDb, crate::refkdbx::Container, usize)> {
    let c = crate::refkdbx::decode(f, comp)?;
    if c.trailing != 0 {
        return Err(format!("{} bytes after the final block", c.trailing));
    }
    let mut t = crate::refxml::parse(&c.xml).map_err(|e| format!("xml: {}", e))?;
    let mut s = rc::Salsa20::new(&rc::sha256(&c.stream_key), &rc::INNER_NONCE);
    let n = decipher(&mut t, &mut s)?;
    let (mut m, hh) = interpret(&t)?;
    if hh != c.header_hash {
        return Err("recorded header hash differs from the header".into());
    }
    m.comment = c.comment.clone();
    m.gzip = c.gzip;
    m.rounds = c.rounds;
    m.version = (c.major, c.minor);
    Ok((m, c, n))
}

// ---------- model -> XML (independent writer) ----------

#[derive(Clone, Debug)]
pub struct XOpts {
    pub shuffle: bool,
    pub unknown: bool,
    pub header_hash: Option<[u8; 32]>,
    /// protect-in-memory instead of enciphered, for some protected strings
    pub pim: bool,
    /// omit settings and fields at random (defaults expected)
    pub omit: bool,
    /// pool binaries: chance of being stored enciphered
    pub prot_pool: bool,
    pub attr_case: u8,
    pub lower_attr: bool,
}

pub struct XmlWriter<'a> {
    pub r: &'a mut Rng,
    pub o: XOpts,
}

impl<'a> XmlWriter<'a> {
    fn fin(&mut self, mut e: El) -> El {
        if self.o.unknown && self.r.chance(1, 4) {
            let n = *self.r.pick(&["Unknown", "X-Plugin", "LastTouched", "CustomThing", "DeletedObject"]);
            let mut x = El::new(n);
            match self.r.below(8) {
                0 => {}
                // elements the library knows, below one it does not
                4 | 5 => {
                    for _ in 0..1 + self.r.below(3) {
                        let n = *self.r.pick(&[
                            "Group", "Entry", "String", "Binary", "UUID", "Key", "Value", "Name", "Times", "History", "Meta",
                            "Root", "KeePassFile", "IconID", "Item", "Icon", "CustomIconUUID", "Tags", "Notes", "Association",
                        ]);
                        let mut y = El::text(n, "not of this element");
                        if self.r.bool() {
                            y.push(El::text("UUID", "AAAA"));
                            y.push(El::text("Value", "v"));
                        }
                        x.push(y);
                    }
                }
                // protected values below unknown elements take their part of the stream
                6 | 7 => {
                    for _ in 0..1 + self.r.below(3) {
                        let k = self.r.below(70);
                        let tv = self.b(true);
                        let mut v = El::new("Value").attr(&self.at("Protected"), &tv);
                        v.secret = Some(self.r.bytes(k));
                        let mut y = v;
                        let deep = if self.r.chance(1, 4) { 12 } else { 3 };
                        for _ in 0..self.r.below(deep) {
                            let mut z = El::new(*self.r.pick(&["String", "Inner", "Entry", "Group"]));
                            z.push(y);
                            y = z;
                        }
                        x.push(y);
                    }
                }
                1 => x.kids.push(Node::Text("some text".into())),
                2 => x.push(El::text("Inner", "v").attr("a", "b")),
                _ => {
                    x.push(El::new("Inner2"));
                    x.push(El::text("Inner3", "1 < 2"));
                }
            }
            let at = self.r.below(e.kids.len() + 1);
            e.kids.insert(at, Node::El(x));
        }
        if self.o.shuffle {
            // stable identity of repeated elements: only order of distinct names may change, except strings/binaries maps
            let mut groups: Vec<(String, Vec<Node>)> = vec![];
            for k in e.kids.drain(..) {
                let n = match &k {
                    Node::El(x) => x.name.clone(),
                    _ => String::new(),
                };
                match groups.iter_mut().find(|g| g.0 == n) {
                    Some(g) => g.1.push(k),
                    None => groups.push((n, vec![k])),
                }
            }
            // interleave the runs at random, keeping order within a name
            let mut runs: Vec<std::collections::VecDeque<Node>> = groups.into_iter().map(|g| g.1.into()).collect();
            while !runs.is_empty() {
                let i = self.r.below(runs.len());
                match runs[i].pop_front() {
                    Some(n) => e.kids.push(n),
                    None => {
                        runs.remove(i);
                    }
                }
            }
        }
        e
    }
    fn b(&mut self, v: bool) -> String {
        match (v, self.o.attr_case) {
            (true, 0) => "True",
            (true, 1) => "true",
            (true, _) => "TRUE",
            (false, 0) => "False",
            (false, 1) => "false",
            (false, _) => "FALSE",
        }
        .to_string()
    }
    fn tri(&mut self, v: Option<bool>) -> String {
        match v {
            Some(b) => self.b(b),
            None => (*self.r.pick(&["null", "null", "Null"])).to_string(),
        }
    }
    fn at(&self, n: &str) -> String {
        if self.o.lower_attr {
            n.to_lowercase()
        } else {
            n.to_string()
        }
    }
    fn colr(c: Option<[u8; 3]>, upper: bool) -> String {
        match c {
            Some(c) if upper => format!("#{:02X}{:02X}{:02X}", c[0], c[1], c[2]),
            Some(c) => format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]),
            None => String::new(),
        }
    }
    fn skip(&mut self) -> bool {
        self.o.omit && self.r.chance(1, 5)
    }

    fn times(&mut self, t: &mut MTimes) -> El {
        let mut e = El::new("Times");
        macro_rules! tmf {
            ($f:ident, $n:expr) => {
                if self.skip() {
                    t.$f = TM_NOW;
                } else {
                    e.push(El::text($n, &fmt_tm(t.$f)));
                }
            };
        }
        tmf!(creation, "CreationTime");
        tmf!(modif, "LastModificationTime");
        tmf!(access, "LastAccessTime");
        tmf!(expiry, "ExpiryTime");
        if self.skip() {
            t.expires = false;
        } else {
            let b = self.b(t.expires);
            e.push(El::text("Expires", &b));
        }
        if self.skip() {
            t.usage = 0;
        } else {
            e.push(El::text("UsageCount", &t.usage.to_string()));
        }
        tmf!(loc, "LocationChanged");
        self.fin(e)
    }

    fn entry(&mut self, m: &mut MEntry, hist: bool) -> El {
        let mut e = El::new("Entry");
        e.push(El::text("UUID", &rc::b64(&m.uuid)));
        if self.skip() {
            m.icon = 0;
        } else {
            e.push(El::text("IconID", &m.icon.to_string()));
        }
        if let Some(c) = m.cicon {
            e.push(El::text("CustomIconUUID", &rc::b64(&c)));
        }
        let up = self.r.bool();
        if self.skip() {
            m.fg = None;
        } else {
            e.push(El::text("ForegroundColor", &Self::colr(m.fg, up)));
        }
        e.push(El::text("BackgroundColor", &Self::colr(m.bg, up)));
        if self.skip() {
            m.url.clear();
        } else {
            e.push(El::text("OverrideURL", &m.url));
        }
        if self.skip() {
            m.tags.clear();
        } else {
            e.push(El::text("Tags", &m.tags));
        }
        e.push(self.times(&mut m.times));
        let keys: Vec<String> = m.strings.keys().cloned().collect();
        for k in keys {
            let mut s = El::new("String");
            let v = m.strings[&k].clone();
            let val = match v {
                MStr::Plain(t) => {
                    if self.r.chance(1, 8) {
                        El::text("Value", &t).attr(&self.at("Protected"), "False")
                    } else {
                        El::text("Value", &t)
                    }
                }
                MStr::Prot(b) => {
                    let txt = String::from_utf8(b.clone()).unwrap_or("\0".into());
                    let xml_ok = txt.chars().all(crate::refxml::is_xml_char);
                    if self.o.pim && xml_ok && self.r.bool() {
                        let tv = self.b(true);
                        let v = El::text("Value", &txt).attr(&self.at("ProtectInMemory"), &tv);
                        if self.r.chance(1, 8) {
                            let fv = self.b(false);
                            v.attr(&self.at("Protected"), &fv)
                        } else {
                            v
                        }
                    } else {
                        // either mark alone protects a value, whatever the other says and in any order
                        let tv = self.b(true);
                        let mut x = El::new("Value");
                        let other = if self.r.chance(1, 4) { Some(self.r.bool()) } else { None };
                        let first = self.r.bool();
                        if let (Some(o), true) = (other, first) {
                            let ov = self.b(o);
                            x = x.attr(&self.at("ProtectInMemory"), &ov);
                        }
                        x = x.attr(&self.at("Protected"), &tv);
                        if let (Some(o), false) = (other, first) {
                            let ov = self.b(o);
                            x = x.attr(&self.at("ProtectInMemory"), &ov);
                        }
                        x.secret = Some(b);
                        x
                    }
                }
            };
            // a well-known field is known in any case, if no other field has that name
            let lone = ["Notes", "Password", "Title", "URL", "UserName"].contains(&k.as_str())
                && m.strings.keys().filter(|x| x.eq_ignore_ascii_case(&k)).count() == 1;
            if lone && self.o.shuffle && self.r.chance(1, 6) {
                let n = crate::gen::other_case(self.r, &k);
                s.push(El::text("Key", &n));
            } else {
                s.push(El::text("Key", &k));
            }
            s.push(val);
            let s = self.fin(s);
            e.push(s);
        }
        let keys: Vec<String> = m.bins.keys().cloned().collect();
        for k in keys {
            let mut s = El::new("Binary");
            s.push(El::text("Key", &k));
            let val = match m.bins[&k].clone() {
                MBin::Plain(b) if self.r.chance(1, 3) => {
                    let tv = self.b(true);
                    let lvl = crate::refkdbx::gzip_form(self.r);
                    El::text("Value", &rc::b64(&crate::refkdbx::gzip(&b, lvl))).attr(&self.at("Compressed"), &tv)
                }
                MBin::Plain(b) => El::text("Value", &rc::b64(&b)),
                MBin::Ref(r) => El::new("Value").attr(&self.at("Ref"), &r),
                MBin::Prot(b) => {
                    let mut x = El::new("Value").attr(&self.at("Protected"), "True");
                    x.secret = Some(b);
                    x
                }
            };
            s.push(val);
            let s = self.fin(s);
            e.push(s);
        }
        let mut at = El::new("AutoType");
        if self.skip() {
            m.at_enabled = true;
        } else {
            let b = self.b(m.at_enabled);
            at.push(El::text("Enabled", &b));
        }
        if self.skip() {
            m.at_obf = 0;
        } else {
            at.push(El::text("DataTransferObfuscation", &m.at_obf.to_string()));
        }
        if self.skip() {
            m.at_seq.clear();
        } else {
            at.push(El::text("DefaultSequence", &m.at_seq));
        }
        for (w, k) in m.assoc.clone() {
            let mut a = El::new("Association");
            a.push(El::text("Window", &w));
            a.push(El::text("KeystrokeSequence", &k));
            let a = self.fin(a);
            at.push(a);
        }
        let at = self.fin(at);
        e.push(at);
        if !hist && !(m.history.is_empty() && self.r.bool()) {
            let mut h = El::new("History");
            for x in m.history.iter_mut() {
                let x = self.entry(x, true);
                h.push(x);
            }
            let h = self.fin(h);
            e.push(h);
        }
        self.fin(e)
    }

    fn group(&mut self, m: &mut MGroup) -> El {
        let mut e = El::new("Group");
        e.push(El::text("UUID", &rc::b64(&m.uuid)));
        e.push(El::text("Name", &m.name));
        if self.skip() {
            m.notes.clear();
        } else {
            e.push(El::text("Notes", &m.notes));
        }
        if self.skip() {
            m.icon = 48;
        } else {
            e.push(El::text("IconID", &m.icon.to_string()));
        }
        if let Some(c) = m.cicon {
            e.push(El::text("CustomIconUUID", &rc::b64(&c)));
        }
        e.push(self.times(&mut m.times));
        if self.skip() {
            m.expanded = true;
        } else {
            let b = self.b(m.expanded);
            e.push(El::text("IsExpanded", &b));
        }
        if self.skip() {
            m.at_seq.clear();
        } else {
            e.push(El::text("DefaultAutoTypeSequence", &m.at_seq));
        }
        if self.skip() {
            m.en_at = None;
        } else {
            let b = self.tri(m.en_at);
            e.push(El::text("EnableAutoType", &b));
        }
        if self.skip() {
            m.en_search = None;
        } else {
            let b = self.tri(m.en_search);
            e.push(El::text("EnableSearching", &b));
        }
        if self.skip() {
            m.top = NIL;
        } else {
            e.push(El::text("LastTopVisibleEntry", &rc::b64(&m.top)));
        }
        for x in m.entries.iter_mut() {
            let x = self.entry(x, false);
            e.push(x);
        }
        for x in m.groups.iter_mut() {
            let x = self.group(x);
            e.push(x);
        }
        self.fin(e)
    }

    /// Builds the document; `m` is updated to what opening it must give.
    pub fn doc(&mut self, m: &mut MDb) -> El {
        let mut e = El::new("KeePassFile");
        let mut t = El::new("Meta");
        if self.skip() {
            m.generator.clear();
        } else {
            t.push(El::text("Generator", &m.generator));
        }
        if let Some(h) = self.o.header_hash {
            t.push(El::text("HeaderHash", &rc::b64(&h)));
        }
        macro_rules! s {
            ($f:ident, $n:expr, $d:expr) => {
                if self.skip() {
                    m.$f = $d;
                } else {
                    t.push(El::text($n, &m.$f.to_string()));
                }
            };
        }
        macro_rules! b {
            ($t:expr, $f:ident, $n:expr, $d:expr) => {
                if self.skip() {
                    m.$f = $d;
                } else {
                    let x = self.b(m.$f);
                    $t.push(El::text($n, &x));
                }
            };
        }
        macro_rules! d {
            ($f:ident, $n:expr) => {
                if self.skip() {
                    m.$f = TM_NOW;
                } else {
                    t.push(El::text($n, &fmt_tm(m.$f)));
                }
            };
        }
        macro_rules! i {
            ($f:ident, $n:expr) => {
                if self.skip() {
                    m.$f = NIL;
                } else {
                    t.push(El::text($n, &rc::b64(&m.$f)));
                }
            };
        }
        s!(name, "DatabaseName", String::new());
        d!(name_ch, "DatabaseNameChanged");
        s!(descr, "DatabaseDescription", String::new());
        d!(descr_ch, "DatabaseDescriptionChanged");
        s!(def_user, "DefaultUserName", String::new());
        d!(def_user_ch, "DefaultUserNameChanged");
        s!(maint, "MaintenanceHistoryDays", 365);
        if self.skip() {
            m.color = None;
        } else {
            t.push(El::text("Color", &Self::colr(m.color, true)));
        }
        d!(mk_ch, "MasterKeyChanged");
        s!(mk_rec, "MasterKeyChangeRec", -1);
        s!(mk_force, "MasterKeyChangeForce", -1);
        let mut p = El::new("MemoryProtection");
        b!(p, p_title, "ProtectTitle", false);
        b!(p, p_user, "ProtectUserName", false);
        b!(p, p_pass, "ProtectPassword", true);
        b!(p, p_url, "ProtectURL", false);
        b!(p, p_notes, "ProtectNotes", false);
        let p = self.fin(p);
        t.push(p);
        if !(m.icons.is_empty() && self.r.bool()) {
            let mut c = El::new("CustomIcons");
            for (k, v) in m.icons.clone() {
                let mut i = El::new("Icon");
                i.push(El::text("UUID", &rc::b64(&k)));
                i.push(El::text("Data", &rc::b64(&v)));
                let i = self.fin(i);
                c.push(i);
            }
            let c = self.fin(c);
            t.push(c);
        }
        b!(t, rb_en, "RecycleBinEnabled", true);
        i!(rb, "RecycleBinUUID");
        d!(rb_ch, "RecycleBinChanged");
        i!(tmpl, "EntryTemplatesGroup");
        d!(tmpl_ch, "EntryTemplatesGroupChanged");
        s!(hist_items, "HistoryMaxItems", 10);
        s!(hist_size, "HistoryMaxSize", 6291456);
        i!(last_sel, "LastSelectedGroup");
        i!(last_top, "LastTopVisibleGroup");
        if !(m.binaries.is_empty() && self.r.bool()) {
            let mut c = El::new("Binaries");
            for (k, v) in m.binaries.clone() {
                let mut i = El::new("Binary").attr(&self.at("ID"), &k);
                if self.o.prot_pool && self.r.bool() {
                    let tv = self.b(true);
                    i = i.attr(&self.at("Protected"), &tv);
                    i.secret = Some(v);
                } else if self.r.bool() {
                    let tv = self.b(true);
                    i = i.attr(&self.at("Compressed"), &tv);
                    let lvl = crate::refkdbx::gzip_form(self.r);
                    i.kids.push(Node::Text(rc::b64(&crate::refkdbx::gzip(&v, lvl))));
                } else {
                    if self.r.chance(1, 4) {
                        let fv = self.b(false);
                        i = i.attr(&self.at("Compressed"), &fv);
                    }
                    if !v.is_empty() {
                        i.kids.push(Node::Text(rc::b64(&v)));
                    }
                }
                c.push(i);
            }
            let c = self.fin(c);
            t.push(c);
        }
        if !(m.custom_data.is_empty() && self.r.bool()) {
            let mut c = El::new("CustomData");
            for (k, v) in m.custom_data.clone() {
                let mut i = El::new("Item");
                i.push(El::text("Key", &k));
                i.push(El::text("Value", &v));
                let i = self.fin(i);
                c.push(i);
            }
            let c = self.fin(c);
            t.push(c);
        }
        let t = self.fin(t);
        e.push(t);
        let mut r = El::new("Root");
        let g = self.group(&mut m.root);
        r.push(g);
        if self.r.bool() {
            let mut del = El::new("DeletedObjects");
            if self.r.bool() {
                let mut o = El::new("DeletedObject");
                o.push(El::text("UUID", &rc::b64(&self.r.arr::<16>())));
                o.push(El::text("DeletionTime", "2019-01-02T03:04:05Z"));
                del.push(o);
            }
            r.push(del);
        }
        e.push(r);
        fix_links(&mut m.root, NIL);
        e
    }
}
