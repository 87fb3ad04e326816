//! Safe programs natively (std's own unsafe-precondition checks are on); the interpreter and the sanitizer run from probe.rs.
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
#[path = "../../../miri/src/prog.rs"]
mod prog;
use prog::Seen;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "A case is one random safe program over a group tree (iterating mutably while editing, growing, shrinking, swapping and \
               clearing the visited group, mutable lookups and searches, entries of many groups held at once, iterators left early or \
               moved to threads), or one save, open and opening of damaged copies; the same programs run natively with the standard \
               library's checks of unsafe preconditions, under Miri with Stacked Borrows and with Tree Borrows, and, with the workloads \
               of C01, C09, C10, C12, C17, C18, C19 and C20, under AddressSanitizer; distinct by program.",
        sections: vec![
            Section { name: "tree", quick: 4000, thorough: 60_000, f: tree },
            Section { name: "files", quick: 800, thorough: 8000, f: files },
            Section { name: "foreign", quick: 800, thorough: 8000, f: foreign },
            Section { name: "values", quick: 500, thorough: 5000, f: values },
        ],
        need: &[
            ("groups visited mutably", 20_000),
            ("group growths", 1_000),
            ("group shrinks", 1_000),
            ("entries held across groups", 1_000),
            ("mutable entry searches", 1_000),
            ("mutable group searches", 1_000),
            ("mutable group lookups", 3_000),
            ("damaged files", 500),
            ("protected values of any bytes", 1_000),
            ("files with protected values of any bytes", 200),
            ("Miri (stacked borrows): steps", 300),
            ("Miri (tree borrows): steps", 200),
            ("Miri (stacked borrows): groups visited mutably", 300),
            ("Miri (tree borrows): groups visited mutably", 200),
            ("Miri (stacked borrows): protected values of any bytes", 8),
            ("Miri (memory only): opens", 3),
            ("Miri (memory only): damaged files", 6),
            ("address sanitizer: cases", 2_000),
        ],
        assumptions: &[
            "Miri runs the library over stand-ins for AES, SHA-256, memory locking and cpu detection; AddressSanitizer runs it over the real ones.",
            "Aliasing is judged by Stacked and Tree Borrows, which are the interpreters' models and not yet the language's final rules.",
        ],
        vmem_kib: 0,
    }
}
fn run(c: &mut Ctx, f: impl FnOnce(u64, &mut Seen) -> Result<(), String>) {
    let seed = c.rng().u64();
    c.seen(seed);
    c.eval();
    let mut s = Seen::new();
    let r = f(seed, &mut s);
    for (k, v) in &s {
        c.add(k, *v);
    }
    c.sample(|| format!("seed {}: {}", seed, s.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>().join(", ")));
    if let Err(e) = r {
        c.fail(e);
    }
}
fn tree(c: &mut Ctx) {
    run(c, |seed, s| prog::tree(seed, 12, s))
}
fn files(c: &mut Ctx) {
    run(c, prog::files)
}
/// Files whose protected values are no text: refused, or opened without making texts of them.
fn foreign(c: &mut Ctx) {
    let mut r = c.rng();
    let mut m = gen::db(&mut r, &gen::TINY);
    m.rounds = r.below(3) as u64;
    fix_links(&mut m.root, NIL);
    fn spoil(r: &mut Rng, g: &mut MGroup, n: &mut u64) {
        for e in g.entries.iter_mut() {
            for v in e.strings.values_mut() {
                if let MStr::Prot(b) = v {
                    if r.bool() {
                        let at = if r.bool() { b.len() } else { r.below(b.len() + 1) };
                        let k = 1 + r.below(3);
                        b.splice(at..at, [0xe2, 0x9f, 0x94].into_iter().take(k));
                        *n += 1;
                    }
                }
            }
        }
        for s in g.groups.iter_mut() {
            spoil(r, s, n);
        }
    }
    let mut k = 0;
    spoil(&mut r, &mut m.root, &mut k);
    if k > 0 {
        c.n("files with protected values of any bytes");
    }
    let key = gen::key(&mut r);
    let x = foreign_plain(&mut r, &m, &key);
    c.eval();
    c.seen_bytes(&x.file);
    c.attach("kdbx", &x.file);
    match open(&x.file, &key.key()) {
        Err(p) => c.fail(p),
        Ok(Err(_)) => c.n("refused"),
        Ok(Ok(d)) => {
            c.n("opened");
            if let Err(e) = prog::texts_ok(&d) {
                c.fail(e);
            }
        }
    }
}
fn values(c: &mut Ctx) {
    run(c, prog::values)
}
