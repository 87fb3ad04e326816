//! Malformed content inside a correctly encrypted container.
use crate::ctx::*;
use crate::gen::{self, KeySpec};
use crate::model::*;
use crate::refcrypto as rc;
use crate::refkdbx::{gzip, Enc};
use crate::refxml::{El, Node, Style};
use crate::rng::Rng;
use crate::util::*;
use kpdb::Database;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "A case is one payload correctly encrypted under the key: one value of a known element replaced by text of the \
               wrong type, one mandatory part removed, a random tree edit, random bytes in the XML, in the compressed stream or \
               in the block framing, or an extreme shape; distinct by payload hash.",
        sections: vec![
            Section { name: "typed", quick: 9000, thorough: 120_000, f: typed },
            Section { name: "missing", quick: 600, thorough: 6000, f: missing },
            Section { name: "prefixes", quick: 400, thorough: 4000, f: prefixes },
            Section { name: "tree", quick: 5000, thorough: 80_000, f: tree },
            Section { name: "bytes", quick: 5000, thorough: 80_000, f: bytes },
            Section { name: "framing", quick: 5000, thorough: 80_000, f: framing },
            Section { name: "compression", quick: 2500, thorough: 40_000, f: compression },
            Section { name: "shapes", quick: 14 * 5, thorough: 14 * 10, f: shapes },
            Section { name: "deep", quick: PLACES.len() * 2, thorough: PLACES.len() * 8, f: deep },
        ],
        need: &[
            ("wrong values refused", 6_000),
            ("deep unknown elements", 30),
            ("missing parts refused", 400),
            ("cut documents refused", 3_000),
            ("opened", 500),
            ("errors", 5_000),
        ],
        assumptions: &[
            "the stack of a thread is at least the 8 MiB of a main thread",
            "content that decompresses to more than the memory of the machine is outside the property",
        ],
        vmem_kib: 3_000_000,
    }
}

/// A database with at least one of everything.
pub fn rich(r: &mut Rng) -> MDb {
    let mut m = gen::db(r, &gen::Cfg { groups: 1, entries: 1, history: 1, fields: 1, ..gen::TINY });
    let c = gen::Cfg { groups: 0, entries: 0, history: 0, fields: 1, ..gen::TINY };
    let mut e = gen::entry(r, &c, &[], 0);
    e.assoc = vec![("window".into(), "keys".into())];
    e.bg = Some([1, 2, 3]);
    e.fg = Some([4, 5, 6]);
    e.cicon = Some([7; 16]);
    e.tags = "a;b".into();
    e.url = "cmd://x".into();
    e.at_seq = "{TAB}".into();
    e.bins.insert("plain".into(), MBin::Plain(r.bytes(40)));
    e.bins.insert("prot".into(), MBin::Prot(r.bytes(40)));
    e.strings.insert("Password".into(), MStr::Prot(b"secret value".to_vec()));
    e.strings.insert("Title".into(), MStr::Plain("title".into()));
    e.times = gen::times(r);
    let h = e.clone();
    e.history.push(h);
    m.root.entries.push(e.clone());
    m.root.cicon = Some([9; 16]);
    m.root.name = "Root".into();
    m.root.notes = "notes".into();
    m.root.at_seq = "seq".into();
    m.root.en_at = Some(true);
    m.root.en_search = Some(false);
    let mut s = m.root.clone();
    s.groups.clear();
    s.entries = vec![e];
    m.root.groups.push(s);
    m.color = Some([1, 2, 3]);
    m.icons.insert([3; 16], r.bytes(30));
    m.custom_data.insert("k".into(), "v".into());
    m.binaries.insert("p0".into(), r.bytes(60));
    m.binaries.insert("p1".into(), r.bytes(60));
    m.name = "n".into();
    m.descr = "d".into();
    m.def_user = "u".into();
    m.generator = "g".into();
    sane_dates(&mut m, true);
    m
}
pub fn tree_of(r: &mut Rng, m: &mut MDb) -> El {
    XmlWriter { r, o: plain_opts() }.doc(m)
}

/// Opens a payload and watches for panics and time; None after a failure has been reported.
fn run(c: &mut Ctx, f: &[u8], k: &KeySpec, xml: &[u8], what: &str) -> Option<Result<Database, kpdb::Error>> {
    c.eval();
    let key = k.key();
    let t = cpu_ms();
    let o = open(f, &key);
    let t = cpu_ms() - t;
    let lim = 4000 + (f.len() + xml.len()) as u64 / 50;
    if t > lim {
        c.attach("xml", &xml[..xml.len().min(1 << 20)]);
        c.fail(format!("{}: opening {} bytes ({} of XML) took {} ms of CPU time", what, f.len(), xml.len(), t));
        return None;
    }
    match o {
        Err(p) => {
            c.attach("kdbx", &f[..f.len().min(1 << 20)]);
            c.attach("xml", &xml[..xml.len().min(1 << 20)]);
            c.fail(format!("{}: {}", what, p));
            None
        }
        Ok(Ok(db)) => {
            c.n("opened");
            Some(Ok(db))
        }
        Ok(Err(e)) => {
            c.n("errors");
            c.n(&format!("error {}", ek(&e)));
            let _ = format!("{} {:?}", e, e);
            Some(Err(e))
        }
    }
}
fn refused(c: &mut Ctx, f: &[u8], k: &KeySpec, xml: &[u8], what: &str, counter: &str) -> bool {
    match run(c, f, k, xml, what) {
        None => false,
        Some(Err(_)) => {
            c.n(counter);
            true
        }
        Some(Ok(_)) => {
            c.attach("kdbx", f);
            c.attach("xml", xml);
            c.fail(format!("{}: the file opened", what));
            false
        }
    }
}
fn enc(r: &mut Rng) -> Enc {
    let mut e = Enc::random(r);
    e.rounds = 1 + r.below(2) as u64;
    e
}

fn els_mut<'a>(e: &'a mut El, parent: &str, name: &str, out: &mut Vec<*mut El>, above: &str) {
    if e.name == name && (parent.is_empty() || above == parent) {
        out.push(e as *mut El);
    }
    let n = e.name.clone();
    for k in e.kids.iter_mut() {
        if let Node::El(x) = k {
            els_mut(x, parent, name, out, &n);
        }
    }
}
/// Changes one element of that name and parent, picked at random.
fn edit<F: FnOnce(&mut El)>(r: &mut Rng, t: &mut El, parent: &str, name: &str, pred: fn(&El) -> bool, f: F) {
    let mut v = vec![];
    els_mut(t, parent, name, &mut v, "");
    // the pointers are to distinct elements of `t`, which stays in place; only one is used
    let v: Vec<*mut El> = v.into_iter().filter(|p| pred(unsafe { &**p })).collect();
    assert!(!v.is_empty(), "no <{}> in <{}>", name, parent);
    let p = *r.pick(&v);
    f(unsafe { &mut *p })
}

const BOOL: &[&str] =
    &["", " ", "\n\t", "yes", "no", "1", "0", "maybe", "truefalse", "null", "t", "-", "Tru", "falsee", "on", "\u{ff54}rue"];
const TRI: &[&str] = &["yes", "no", "1", "0", "maybe", "nulll", "none", "nil", "-", "truee", "2"];
const NUM: &[&str] = &[
    "", " ", "\n", "x", "1.5", "2147483648", "-2147483649", "99999999999999999999", "0x10", "1 2", "\u{ff11}", "1e3", "--1", "+-1",
    "1,000", "NaN", "true", "\u{0661}", "0b1",
];
const ICON: &[&str] = &["69", "70", "-1", "255", "256", "2147483647", "-2147483648", "x", "", "Key", "1.0"];
const OBF: &[&str] = &["2", "-1", "3", "x", "", "2147483647", "true", "-2147483648", "None"];
const DATE: &[&str] = &[
    "", " ", "x", "2020-13-01T00:00:00Z", "2020-00-01T00:00:00Z", "2020-02-30T00:00:00Z", "2019-02-29T00:00:00Z",
    "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "1577836800", "AAAAAAAAAAA=", "2020-01-01",
    "00:00:00Z", "2020-01-01T00:00:00", "01/02/2020", "2020-01-00T00:00:00Z", "2020-01-32T00:00:00Z", "today",
    "99999999999-01-01T00:00:00Z", "2020-01-01T00:00:00+99:99",
];
const ID: &[&str] = &[
    "", " ", "AAAA", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAA=", "not base64!", "0011223344556677889900112233445566",
    "AAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAA", "\u{e9}AAAAAAAAAAAAAAAAAAAA==", "{00000000-0000-0000-0000-000000000000}",
    "00000000-0000-0000-0000-000000000000", "AA==",
];
/// identifiers whose absence is allowed
const OID: &[&str] = &[
    "AAAA", "AAAAAAAAAAAAAAAAAAAAAAA=", "not base64!", "AAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAA",
    "00000000-0000-0000-0000-000000000000", "AA==", "0",
];
const COLOUR: &[&str] = &[
    "red", "#12345", "#1234567", "123456", "#gg0000", "#00gg00", "#0000gg", "#", "#+12345", "#-1-1-1", "#12 456", "#\u{e9}\u{e9}\u{e9}",
    "\u{ff03}123456", "1234567", "#\u{ff11}23456", "rgb(1,2,3)", "#12345\u{e9}", "0",
];
const B64: &[&str] = &["AAA", "A===", "!!!!", "AA=A", "=AAA", "AAAAA", "AA\u{e9}A", "-_-_", "AAAA=", "A", "====", "AAAA AA", "AA;="];

fn any(_: &El) -> bool {
    true
}
fn secret(e: &El) -> bool {
    e.secret.is_some()
}
fn is_compressed(e: &El) -> bool {
    e.get_attr("Compressed") == Some("True")
}
fn no_secret(e: &El) -> bool {
    e.secret.is_none() && e.get_attr("Ref").is_none()
}

type Leaf = (&'static str, &'static str, &'static [&'static str]);
const LEAVES: &[Leaf] = &[
    ("Times", "CreationTime", DATE),
    ("Times", "LastModificationTime", DATE),
    ("Times", "LastAccessTime", DATE),
    ("Times", "ExpiryTime", DATE),
    ("Times", "LocationChanged", DATE),
    ("Times", "Expires", BOOL),
    ("Times", "UsageCount", NUM),
    ("Meta", "DatabaseNameChanged", DATE),
    ("Meta", "DatabaseDescriptionChanged", DATE),
    ("Meta", "DefaultUserNameChanged", DATE),
    ("Meta", "MasterKeyChanged", DATE),
    ("Meta", "RecycleBinChanged", DATE),
    ("Meta", "EntryTemplatesGroupChanged", DATE),
    ("Meta", "MaintenanceHistoryDays", NUM),
    ("Meta", "MasterKeyChangeRec", NUM),
    ("Meta", "MasterKeyChangeForce", NUM),
    ("Meta", "HistoryMaxItems", NUM),
    ("Meta", "HistoryMaxSize", NUM),
    ("Meta", "RecycleBinEnabled", BOOL),
    ("MemoryProtection", "ProtectTitle", BOOL),
    ("MemoryProtection", "ProtectUserName", BOOL),
    ("MemoryProtection", "ProtectPassword", BOOL),
    ("MemoryProtection", "ProtectURL", BOOL),
    ("MemoryProtection", "ProtectNotes", BOOL),
    ("Meta", "RecycleBinUUID", ID),
    ("Meta", "EntryTemplatesGroup", ID),
    ("Meta", "LastSelectedGroup", ID),
    ("Meta", "LastTopVisibleGroup", ID),
    ("Meta", "Color", COLOUR),
    ("Meta", "HeaderHash", B64),
    ("Icon", "UUID", ID),
    ("Icon", "Data", B64),
    ("Group", "UUID", ID),
    ("Group", "IconID", ICON),
    ("Group", "CustomIconUUID", OID),
    ("Group", "IsExpanded", BOOL),
    ("Group", "EnableAutoType", TRI),
    ("Group", "EnableSearching", TRI),
    ("Group", "LastTopVisibleEntry", ID),
    ("Entry", "UUID", ID),
    ("Entry", "IconID", ICON),
    ("Entry", "CustomIconUUID", OID),
    ("Entry", "ForegroundColor", COLOUR),
    ("Entry", "BackgroundColor", COLOUR),
    ("AutoType", "Enabled", BOOL),
    ("AutoType", "DataTransferObfuscation", OBF),
];
/// Elements with text, where only an element inside the value is wrong.
const TEXTS: &[(&str, &str)] = &[
    ("Meta", "Generator"),
    ("Meta", "DatabaseName"),
    ("Meta", "DatabaseDescription"),
    ("Meta", "DefaultUserName"),
    ("Group", "Name"),
    ("Group", "Notes"),
    ("Group", "DefaultAutoTypeSequence"),
    ("Entry", "Tags"),
    ("Entry", "OverrideURL"),
    ("AutoType", "DefaultSequence"),
    ("Item", "Key"),
    ("Item", "Value"),
    ("String", "Key"),
    ("Binary", "Key"),
];

/// Replaces one value by one of the wrong type; the file has to be refused.
fn typed(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = rich(&mut r);
    let k = gen::key(&mut r);
    let e = enc(&mut r);
    let mut t = tree_of_with_hash(&mut r, &mut m, &e);
    let extra = 8 + TEXTS.len();
    let i = c.index % (LEAVES.len() * 4 + extra);
    let what;
    if i < LEAVES.len() * 4 {
        let (p, n, bad) = LEAVES[i % LEAVES.len()];
        let b = bad[(c.index / 7) % bad.len()];
        let nested = r.chance(1, 10);
        edit(&mut r, &mut t, p, n, any, |x| {
            if nested {
                x.kids.insert(0, Node::El(El::text("Inner", "x")));
            } else {
                x.kids.clear();
                if !b.is_empty() {
                    x.kids.push(Node::Text(b.into()));
                }
            }
        });
        what = if nested { format!("element inside <{}><{}>", p, n) } else { format!("<{}><{}> = {:?}", p, n, b) };
        c.n(&format!("leaf {}/{}", p, n));
    } else {
        let j = i - LEAVES.len() * 4;
        let bad_flag = *r.pick(&["yes", "1", "", "maybe", "null", "tru"]);
        let b = *r.pick(B64);
        what = match j {
            0 => {
                edit(&mut r, &mut t, "String", "Value", secret, |x| x.attrs[0].1 = bad_flag.into());
                format!("Protected={:?} of a string", bad_flag)
            }
            1 => {
                edit(&mut r, &mut t, "String", "Value", no_secret, |x| x.attrs = vec![("ProtectInMemory".into(), bad_flag.into())]);
                format!("ProtectInMemory={:?}", bad_flag)
            }
            2 => {
                edit(&mut r, &mut t, "Binaries", "Binary", any, |x| {
                    x.attrs.retain(|a| a.0 != "Compressed");
                    x.attrs.push(("Compressed".into(), bad_flag.into()))
                });
                format!("Compressed={:?} of a pool attachment", bad_flag)
            }
            3 => {
                // attachments that say compressed, with other data inside
                let raw = match r.below(4) {
                    0 => r.bytes(30),
                    1 => {
                        let mut g = gzip(b"hello hello hello", 6);
                        let n = g.len();
                        g.truncate(n - 1 - r.below(n - 2));
                        g
                    }
                    2 => {
                        let mut g = gzip(b"hello hello hello", 6);
                        let n = g.len();
                        g[n - 8 + r.below(8)] ^= 1 << r.below(8);
                        g
                    }
                    _ => vec![0x1f, 0x8b],
                };
                edit(&mut r, &mut t, "Binaries", "Binary", any, |x| {
                    x.attrs.retain(|a| a.0 == "ID");
                    x.attrs.push(("Compressed".into(), "True".into()));
                    x.secret = None;
                    x.kids = vec![Node::Text(rc::b64(&raw))];
                });
                "pool attachment marked compressed that is not".into()
            }
            4 => {
                edit(&mut r, &mut t, "Binaries", "Binary", any, |x| {
                    x.secret = None;
                    if !is_compressed(x) && r_flag(b) {
                        x.attrs.retain(|a| a.0 == "ID");
                    }
                    x.kids = vec![Node::Text(b.into())];
                });
                format!("pool attachment {:?}", b)
            }
            5 => {
                edit(&mut r, &mut t, "Binary", "Value", no_secret, |x| x.kids = vec![Node::Text(b.into())]);
                format!("attachment {:?}", b)
            }
            6 => {
                edit(&mut r, &mut t, "String", "Value", secret, |x| {
                    x.secret = None;
                    x.kids = vec![Node::Text(b.into())];
                });
                format!("protected string {:?}", b)
            }
            7 => {
                let bad = (*r.pick(&[&b"\xff\xfe"[..], b"ab\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"])).to_vec();
                edit(&mut r, &mut t, "String", "Value", secret, |x| x.secret = Some(bad));
                "protected string that is not UTF-8".into()
            }
            _ => {
                let (p, n) = TEXTS[j - 8];
                edit(&mut r, &mut t, p, n, any, |x| {
                    let at = x.kids.len();
                    x.kids.insert(at, Node::El(El::text("b", "markup")));
                });
                format!("element inside <{}><{}>", p, n)
            }
        };
    }
    let xml = xml_of(&t, &e, &plain_style());
    c.seen_bytes(what.as_bytes());
    c.sample(|| what.clone());
    let f = e.file(&k.comp(), &xml);
    if refused(c, &f, &k, &xml, &what, "wrong values refused") && c.index % 50 == 0 {
        // the same document without the change opens
        let mut m = rich(&mut r);
        let t = tree_of_with_hash(&mut r, &mut m, &e);
        let xml = xml_of(&t, &e, &plain_style());
        let f = e.file(&k.comp(), &xml);
        if let Some(Err(e)) = run(c, &f, &k, &xml, "unchanged document") {
            c.fail(format!("unchanged document refused: {:?}", e));
        }
    }
}
fn r_flag(s: &str) -> bool {
    s.len() % 2 == 0
}
fn tree_of_with_hash(r: &mut Rng, m: &mut MDb, e: &Enc) -> El {
    let mut o = plain_opts();
    o.header_hash = Some(rc::sha256(&e.header()));
    XmlWriter { r, o }.doc(m)
}

/// Removes a mandatory part.
fn missing(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = rich(&mut r);
    let k = gen::key(&mut r);
    let e = enc(&mut r);
    let mut t = tree_of(&mut r, &mut m);
    let parts = [
        ("Entry", "String", "Key"),
        ("Entry", "String", "Value"),
        ("Entry", "Binary", "Key"),
        ("Entry", "Binary", "Value"),
        ("CustomData", "Item", "Key"),
        ("CustomData", "Item", "Value"),
        ("CustomIcons", "Icon", "UUID"),
        ("CustomIcons", "Icon", "Data"),
        ("Binaries", "Binary", ""),
    ];
    let (p, n, kid) = parts[c.index % parts.len()];
    let how = r.below(3);
    edit(&mut r, &mut t, p, n, any, |x| {
        if kid.is_empty() {
            x.attrs.retain(|a| a.0 != "ID");
            return;
        }
        match how {
            0 => x.kids.retain(|y| !matches!(y, Node::El(z) if z.name == kid)),
            1 => x.kids.clear(),
            _ => {
                for y in x.kids.iter_mut() {
                    if let Node::El(z) = y {
                        if z.name == kid {
                            z.name = "Other".into();
                        }
                    }
                }
            }
        }
    });
    let what = format!("<{}><{}> without {} ({})", p, n, if kid.is_empty() { "ID" } else { kid }, how);
    let xml = xml_of(&t, &e, &plain_style());
    c.seen_bytes(&xml);
    c.sample(|| what.clone());
    let f = e.file(&k.comp(), &xml);
    refused(c, &f, &k, &xml, &what, "missing parts refused");
}

/// Documents that end too early, or are not documents.
fn prefixes(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = if r.bool() { rich(&mut r) } else { gen::db(&mut r, &gen::TINY) };
    sane_dates(&mut m, true);
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    let t = tree_of(&mut r, &mut m);
    let mut st = Style::random(&mut r);
    st.comments = false;
    let xml = xml_of(&t, &e, &st);
    let end = xml.windows(14).rposition(|w| w == b"</KeePassFile>").unwrap() + 13;
    for _ in 0..12 {
        let n = r.below(end + 1);
        e.gzip = r.bool();
        let cut = &xml[..n];
        c.seen_bytes(cut);
        let f = e.file(&k.comp(), cut);
        if !refused(c, &f, &k, cut, &format!("the first {} of {} bytes of the XML", n, xml.len()), "cut documents refused") {
            return;
        }
    }
    let s = String::from_utf8(xml.clone()).unwrap();
    let bad: Vec<(&str, String)> = vec![
        ("no root element", String::new()),
        ("text only", "just text".into()),
        ("other root", s.replace("KeePassFile>", "KeePassFiles>")),
        ("mismatched tags", s.replacen("</Meta>", "</Mete>", 1)),
        ("undefined entity", s.replacen("<Meta>", "<Meta>&undefined;", 1)),
        ("bad reference", s.replacen("<Meta>", "<Meta>&#xFFFFFFFF;", 1)),
        ("bare ampersand", s.replacen("<Meta>", "<Meta>a & b", 1)),
        ("unclosed tag", s.replacen("<Meta>", "<Meta", 1)),
        ("end tag only", "</KeePassFile>".into()),
        ("attribute without value", s.replacen("<Meta>", "<Meta x>", 1)),
    ];
    let (w, x) = &bad[c.index % bad.len()];
    if *x != s {
        let f = e.file(&k.comp(), x.as_bytes());
        refused(c, &f, &k, x.as_bytes(), w, "cut documents refused");
    }
    // bytes that are not UTF-8, anywhere in an element value
    let mut x = xml.clone();
    if let Some(i) = s.find("</Name>") {
        x.insert(i, *r.pick(&[0xffu8, 0x80, 0xc3, 0xfe]));
        let f = e.file(&k.comp(), &x);
        refused(c, &f, &k, &x, "invalid UTF-8", "cut documents refused");
    }
}

fn all_els(e: &mut El, out: &mut Vec<*mut El>) {
    out.push(e);
    for k in e.kids.iter_mut() {
        if let Node::El(x) = k {
            all_els(x, out);
        }
    }
}
const NAMES: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Binary", "Binaries", "Key", "Value", "History", "Times", "UUID",
    "AutoType", "Association", "CustomData", "Item", "CustomIcons", "Icon", "Data", "MemoryProtection", "IconID", "Name", "Notes",
    "CustomIconUUID", "DeletedObjects", "HeaderHash", "Color", "Window", "KeystrokeSequence", "Enabled", "Tags", "x",
];

/// Random edits of the tree: whatever happens, it is a value or an error.
fn tree(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = if r.bool() { rich(&mut r) } else { gen::db(&mut r, &gen::TINY) };
    sane_dates(&mut m, true);
    let k = gen::key(&mut r);
    let e = enc(&mut r);
    let base = tree_of(&mut r, &mut m);
    for _ in 0..3 {
        let mut t = base.clone();
        for _ in 0..1 + r.below(4) {
            let mut v = vec![];
            all_els(&mut t, &mut v);
            let x = unsafe { &mut **r.pick(&v) };
            let donor = {
                let d = unsafe { &**r.pick(&v) };
                if d.els().count() < 40 { d.clone() } else { El::new("Donor") }
            };
            let x = if x.name == "KeePassFile" && r.chance(3, 4) { &mut t } else { x };
            match r.below(11) {
                0 => {
                    if !x.kids.is_empty() {
                        let i = r.below(x.kids.len());
                        x.kids.remove(i);
                    }
                }
                1 => {
                    if !x.kids.is_empty() {
                        let i = r.below(x.kids.len());
                        let y = x.kids[i].clone();
                        for _ in 0..1 + r.below(3) {
                            x.kids.insert(i, y.clone());
                        }
                    }
                }
                2 => x.name = (*r.pick(NAMES)).into(),
                3 => {
                    let at = r.below(x.kids.len() + 1);
                    x.kids.insert(at, Node::El(donor));
                }
                4 => *x = donor,
                5 => {
                    let tx = gen::text(&mut r, false);
                    x.kids = vec![Node::Text(tx)];
                    x.secret = None;
                }
                6 => {
                    let a = *r.pick(&["Protected", "Compressed", "Ref", "ID", "ProtectInMemory", "protected", "x"]);
                    let v = *r.pick(&["True", "False", "", "x", "0", "true", "null"]);
                    x.attrs.retain(|y| y.0 != a);
                    x.attrs.push((a.into(), v.into()));
                }
                7 => x.attrs.clear(),
                8 => {
                    let n = *r.pick(&[0usize, 1, 15, 16, 17, 100]);
                    x.secret = Some(r.bytes(n));
                }
                9 => {
                    let at = r.below(x.kids.len() + 1);
                    let tx = gen::text(&mut r, false);
                    x.kids.insert(at, Node::Text(tx));
                }
                _ => r.shuffle(&mut x.kids),
            }
        }
        let st = Style::random(&mut r);
        let xml = xml_of(&t, &e, &st);
        c.seen_bytes(&xml);
        let f = e.file(&k.comp(), &xml);
        match run(c, &f, &k, &xml, "edited tree") {
            None => return,
            // what was made of it can be worked with and saved
            Some(Ok(db)) => {
                if let Err(p) = guard(|| {
                    let _ = db.find_entries("a").len() + db.find_groups("a").len();
                    let mut v = vec![];
                    let _ = db.save(&mut v);
                    format!("{:?}", db).len()
                }) {
                    c.attach("xml", &xml);
                    return c.fail(format!("using the opened database: {}", p));
                }
            }
            _ => {}
        }
    }
}

fn bytes(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    sane_dates(&mut m, true);
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    let t = tree_of(&mut r, &mut m);
    let st = Style::random(&mut r);
    let base = xml_of(&t, &e, &st);
    for _ in 0..4 {
        let mut x = base.clone();
        match r.below(10) {
            0 => {
                let n = r.below(300);
                x = (0..n).map(|_| *r.pick(b"<>&;!?/\"' =abKeyGroup\n\t\x00\xff\xfe[]-#x")).collect();
            }
            1 => {
                // another encoding
                let s = String::from_utf8(base.clone()).unwrap();
                x = s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
                if r.bool() {
                    x.splice(0..0, [0xff, 0xfe]);
                }
            }
            2 => {
                let enc = *r.pick(&["UTF-16", "latin1", "ASCII", "utf-7", "x", "UTF-32"]);
                let s = String::from_utf8_lossy(&base).replacen("utf-8", enc, 1);
                x = s.into_bytes();
            }
            _ => {
                for _ in 0..1 + r.below(6) {
                    let l = x.len();
                    if l == 0 {
                        break;
                    }
                    let i = r.below(l);
                    match r.below(7) {
                        0 => x[i] ^= 1 << r.below(8),
                        1 => x[i] = *r.pick(b"<>&;!?/\"' =\x00\xff]"),
                        2 => {
                            let n = (1 + r.below(60)).min(l - i);
                            x.drain(i..i + n);
                        }
                        3 => {
                            let s = *r.pick(&[
                                "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "&#0;", "&#x110000;", "&lt;", "<a>", "</a>", "<!DOCTYPE a [",
                                "\u{0}", "\u{ffff}", "<Group>", "</Group>", "</Entry>", "<Entry/>", " Protected=\"True\"",
                            ]);
                            x.splice(i..i, s.bytes());
                        }
                        4 => {
                            let j = r.below(l);
                            let n = (1 + r.below(200)).min(l - j);
                            let b = x[j..j + n].to_vec();
                            x.splice(i..i, b);
                        }
                        5 => x.truncate(i),
                        _ => x.swap(i, r.below(l)),
                    }
                }
            }
        }
        c.seen_bytes(&x);
        e.gzip = r.bool();
        let f = e.file(&k.comp(), &x);
        if run(c, &f, &k, &x, "damaged XML").is_none() {
            return;
        }
    }
}

/// Block framing written by someone with the key.
fn framing(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    sane_dates(&mut m, true);
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    e.block_sizes = vec![1 + r.below(800)];
    let t = tree_of(&mut r, &mut m);
    let xml = xml_of(&t, &e, &plain_style());
    let data = if e.gzip { gzip(&xml, 6) } else { xml };
    for _ in 0..4 {
        let mut bl: Vec<(u32, Vec<u8>, u32, Vec<u8>)> = e
            .split(&data)
            .iter()
            .enumerate()
            .map(|(i, b)| (i as u32, rc::sha256(b).to_vec(), b.len() as u32, b.clone()))
            .collect();
        let n = bl.len() as u32;
        bl.push((n, vec![0; 32], 0, vec![]));
        for _ in 0..r.below(3) {
            let i = r.below(bl.len());
            match r.below(9) {
                0 => bl[i].0 = *r.pick(&[0u32, 1, u32::MAX, 0x8000_0000, n + 1]),
                1 => bl[i].2 = *r.pick(&[0u32, 1, u32::MAX, 0x7fff_ffff, 0x8000_0000, 1 << 30]),
                2 => bl[i].2 = bl[i].2.wrapping_add(*r.pick(&[1u32, u32::MAX, 16])),
                3 => bl[i].1 = r.bytes(32),
                4 => bl[i].1 = vec![0; 32],
                5 => {
                    bl.remove(i);
                    if bl.is_empty() {
                        bl.push((0, vec![0; 32], 0, vec![]));
                    }
                }
                6 => {
                    let b = bl[i].clone();
                    bl.insert(i, b);
                }
                7 => {
                    let k = r.below(100);
                    bl[i].3 = r.bytes(k);
                    bl[i].1 = rc::sha256(&bl[i].3).to_vec();
                    bl[i].2 = k as u32;
                }
                _ => bl[i].3.truncate(r.below(20)),
            }
        }
        let mut p = e.start_bytes.to_vec();
        for b in &bl {
            p.extend(b.0.to_le_bytes());
            p.extend(&b.1);
            p.extend(b.2.to_le_bytes());
            p.extend(&b.3);
        }
        match r.below(6) {
            0 => p.truncate(r.below(p.len() + 1)),
            1 => {
                let k = r.below(60);
                p.extend(r.bytes(k));
            }
            2 => p.truncate(32 + r.below(120)),
            _ => {}
        }
        c.seen_bytes(&p);
        let f = e.seal(&k.comp(), &e.header(), &p);
        if run(c, &f, &k, &p, "block framing").is_none() {
            return;
        }
    }
}

/// The compressed stream damaged, in correct blocks.
fn compression(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    sane_dates(&mut m, true);
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    e.gzip = true;
    let t = tree_of(&mut r, &mut m);
    let xml = xml_of(&t, &e, &plain_style());
    for _ in 0..4 {
        let mut d = gzip(&xml, r.below(10) as u32);
        match r.below(8) {
            0 => d.truncate(r.below(d.len())),
            1 => {
                let n = d.len();
                d[n - 8 + r.below(8)] ^= 1 << r.below(8);
            }
            2 => {
                for _ in 0..1 + r.below(4) {
                    let i = r.below(d.len());
                    d[i] ^= 1 << r.below(8);
                }
            }
            3 => {
                let n = r.below(100);
                d = r.bytes(n);
            }
            4 => {
                let n = r.below(100);
                d.truncate(10);
                d.extend(r.bytes(n));
            }
            5 => d = xml.clone(),
            6 => {
                // optional header fields
                d[3] = *r.pick(&[4u8, 8, 16, 2, 28, 0xff]);
            }
            _ => {
                let mut o = vec![0x78, 0x9c];
                o.extend(&d[10..]);
                d = o;
            }
        }
        c.seen_bytes(&d);
        let f = e.seal(&k.comp(), &e.header(), &e.frame(&e.split(&d)));
        if run(c, &f, &k, &d, "compressed stream").is_none() {
            return;
        }
    }
}

/// Extreme shapes: opening takes time proportional to the input.
/// Where an unknown element can stand.
const PLACES: &[(&str, &str)] = &[
    ("", ""),
    ("<KeePassFile>", "</KeePassFile>"),
    ("<KeePassFile><Meta>", "</Meta></KeePassFile>"),
    ("<KeePassFile><Meta><MemoryProtection>", "</MemoryProtection></Meta></KeePassFile>"),
    ("<KeePassFile><Meta><CustomIcons>", "</CustomIcons></Meta></KeePassFile>"),
    ("<KeePassFile><Meta><CustomIcons><Icon>", "</Icon></CustomIcons></Meta></KeePassFile>"),
    ("<KeePassFile><Meta><Binaries>", "</Binaries></Meta></KeePassFile>"),
    ("<KeePassFile><Meta><CustomData>", "</CustomData></Meta></KeePassFile>"),
    ("<KeePassFile><Meta><CustomData><Item>", "</Item></CustomData></Meta></KeePassFile>"),
    ("<KeePassFile><Root>", "</Root></KeePassFile>"),
    ("<KeePassFile><Root><DeletedObjects>", "</DeletedObjects></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group>", "</Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Times>", "</Times></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry>", "</Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><Times>", "</Times></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><String>", "</String></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><Binary>", "</Binary></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><AutoType>", "</AutoType></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><AutoType><Association>", "</Association></AutoType></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><History>", "</History></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><History><Entry><History>", "</History></Entry></History></Entry></Group></Root></KeePassFile>"),
];
/// Unknown elements nested very deep, in every place.
fn deep(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    e.block_sizes = vec![1 << 20];
    let (a, b) = PLACES[c.index % PLACES.len()];
    let round = c.index / PLACES.len();
    let n = 60_000usize << (round / 2 % 2);
    let x = if round % 4 < 2 { "x" } else { "y p=\"q\"" };
    let end = if round % 2 == 0 { format!("</{}>", &x[..1]).repeat(n) + b } else { String::new() };
    let xml = format!("{}{}{}", a, format!("<{}>", x).repeat(n), end);
    c.seen_bytes(xml.as_bytes());
    c.n("deep unknown elements");
    let f = e.file(&k.comp(), xml.as_bytes());
    let _ = run(c, &f, &k, xml.as_bytes(), &format!("unknown elements nested {} deep after {}", n, a));
}
fn shapes(c: &mut Ctx) {
    let mut r = c.rng();
    let k = gen::key(&mut r);
    let mut e = enc(&mut r);
    e.block_sizes = vec![1 << 20];
    let n = 2000usize << (c.index / 14 % 5);
    let wrap = |meta: &str, group: &str| format!("<KeePassFile><Meta>{}</Meta><Root><Group>{}</Group></Root></KeePassFile>", meta, group);
    let (what, xml) = match c.index % 14 {
        0 => ("nested unknown elements", wrap(&("<x>".repeat(n * 10) + &"</x>".repeat(n * 10)), "")),
        1 => ("nested unknown elements in a group", wrap("", &("<x>".repeat(n) + &"</x>".repeat(n)))),
        2 => ("unclosed elements", format!("<KeePassFile><Meta>{}", "<x>".repeat(n * 10))),
        3 => ("nested entries in history", {
            let d = n;
            wrap("", &("<Entry><History>".repeat(d) + &"</History></Entry>".repeat(d)))
        }),
        4 => ("many groups", wrap("", &"<Group><Name>a</Name></Group>".repeat(n * 2))),
        5 => ("many entries", wrap("", &"<Entry><String><Key>a</Key><Value>b</Value></String></Entry>".repeat(n))),
        6 => ("long text", wrap("", &format!("<Notes>{}</Notes>", "a &amp; b\n".repeat(n * 5)))),
        7 => ("many strings", {
            let s: String = (0..n).map(|i| format!("<String><Key>k{}</Key><Value>v</Value></String>", i)).collect();
            wrap("", &format!("<Entry>{}</Entry>", s))
        }),
        8 => ("many attributes", {
            let s: String = (0..n.min(8000)).map(|i| format!(" a{}=\"{}\"", i, i)).collect();
            wrap(&format!("<x{}/>", s), "")
        }),
        9 => ("entity bomb", {
            let mut s = String::from("<!DOCTYPE KeePassFile [<!ENTITY a0 \"lollollollol\">");
            for i in 1..14 {
                s.push_str(&format!("<!ENTITY a{} \"{}\">", i, format!("&a{};", i - 1).repeat(10)));
            }
            s + "]><KeePassFile><Meta><DatabaseName>&a13;</DatabaseName></Meta></KeePassFile>"
        }),
        10 => ("value in many pieces", wrap(&format!("<DatabaseName>{}</DatabaseName>", "a<![CDATA[b]]><?p?>".repeat(n)), "")),
        11 => ("many settings repeated", wrap(&"<Color>#ff0000</Color><DatabaseName>x</DatabaseName>".repeat(n * 2), "")),
        12 => ("nested groups", {
            let d = *r.pick(&[100usize, 300, 500]);
            wrap("", &("<Group><Entry/>".repeat(d) + &"</Group>".repeat(d)))
        }),
        _ => ("long names and comments", {
            let a = "n".repeat(n * 10);
            wrap(&format!("<{0}>{1}</{0}><!-- {0} --><?{0} {0}?>", a, "x"), "")
        }),
    };
    c.seen_bytes(xml.as_bytes());
    c.sample(|| format!("{}, {} bytes", what, xml.len()));
    let f = e.file(&k.comp(), xml.as_bytes());
    if let Some(Ok(db)) = run(c, &f, &k, xml.as_bytes(), what) {
        let t = cpu_ms();
        let o = guard(|| {
            let mut v = vec![];
            let n = db.find_entries("zzz").len();
            db.save(&mut v).map(|_| n)
        });
        let t = cpu_ms() - t;
        match o {
            Err(p) => c.fail(format!("{}: saving what was opened: {}", what, p)),
            Ok(_) if t > 4000 + xml.len() as u64 / 50 => c.fail(format!("{}: saving took {} ms", what, t)),
            _ => {}
        }
        if c.index % 14 == 12 {
            c.n("nested groups opened");
        }
    }
}
