//! Checks that need their own processes: witnesses of known findings, cross-process freshness.
use crate::gen::KeySpec;
use crate::refkdbx::Enc;
use crate::rng::Rng;
use crate::util;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub enum Res {
    Viol(String),
    Known(String, String),
    Broken(String),
}

/// Runs in a process of its own.
pub fn run(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("deepgroups") => {
            let d: usize = a[1].parse().unwrap();
            let k = KeySpec::pw("x");
            let e = Enc::random(&mut Rng::new(1));
            let x = format!(
                "<KeePassFile><Meta/><Root>{}{}</Root></KeePassFile>",
                "<Group>".repeat(d),
                "</Group>".repeat(d)
            );
            let f = e.file(&k.comp(), x.as_bytes());
            match util::open(&f, &k.key()) {
                Ok(Ok(_)) => 0,
                Ok(Err(_)) => 10,
                Err(_) => 11,
            }
        }
        Some("frozen") => crate::props::c14::frozen(),
        _ => 2,
    }
}

fn child(exe: &str, args: &[&str]) -> Result<(Option<i32>, Option<i32>), String> {
    Command::new(exe)
        .arg("probe")
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map(|s| (s.code(), s.signal()))
        .map_err(|e| format!("probe: {}", e))
}

/// Builds this program with a sanitizer.
fn san_build(kind: &str, verif: &str) -> Result<String, String> {
    let dir = format!("{}/target/{}", verif, kind);
    let t = "x86_64-unknown-linux-gnu";
    for (i, d) in [format!("{}/{}/release/.fingerprint", dir, t), format!("{}/release/.fingerprint", dir)].iter().enumerate() {
        // always rebuild the library from the current tree
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with("rust-kpdb-") {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        let _ = i;
    }
    let mut c = Command::new("cargo");
    c.args(["+nightly", "build", "--offline", "--release", "--bin", "kmon", "--target", t])
        .args(["--manifest-path", &format!("{}/harness/Cargo.toml", verif)])
        .env("CARGO_TARGET_DIR", &dir)
        .stdin(Stdio::null());
    if kind == "thread" {
        c.arg("-Zbuild-std");
        c.env("RUSTFLAGS", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer");
    } else {
        c.env("RUSTFLAGS", format!("-Zsanitizer={} -Cforce-frame-pointers=yes", kind));
    }
    match c.output() {
        Ok(o) if o.status.success() => Ok(format!("{}/{}/release/kmon", dir, t)),
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            let e: Vec<&str> = e.lines().filter(|l| l.starts_with("error")).take(5).collect();
            Err(format!("the {} sanitizer build failed: {}", kind, e.join("; ")))
        }
        Err(e) => Err(format!("cargo: {}", e)),
    }
}

/// Runs the sections of some properties in a sanitizer build; reports and differing results are violations.
fn san_run(
    kind: &str,
    exe: &str,
    ids: &[(&str, f64)],
    tier: &str,
    seed: u64,
    cap: f64,
    counters: &mut BTreeMap<String, u64>,
) -> Vec<Res> {
    let tmp = std::env::var("KMON_TMP").unwrap_or_default();
    let mut out: Vec<Res> = vec![];
    for (id, scale) in ids {
        let mut ch = vec![];
        for shard in 0..8 {
            let base = format!("{}/{}-{}-{}", tmp, kind, id, shard);
            let log = std::fs::File::create(format!("{}.log", base)).unwrap();
            let c = Command::new(exe)
                .args(["worker", id, tier, &seed.to_string(), &shard.to_string(), "8", "0", "0"])
                .args([format!("{}.out", base), format!("{}", cap)])
                .env("KMON_SCALE", format!("{}", scale))
                .env("TSAN_OPTIONS", format!("exitcode=66 halt_on_error=0 report_signal_unsafe=0 log_path={}.san", base))
                .env("ASAN_OPTIONS", format!("detect_leaks=0 exitcode=66 log_path={}.san", base))
                .stdin(Stdio::null())
                .stdout(log.try_clone().unwrap())
                .stderr(log)
                .spawn();
            match c {
                Ok(c) => ch.push((shard, base, c)),
                Err(e) => out.push(Res::Broken(format!("{}: {}", exe, e))),
            }
        }
        for (shard, base, mut c) in ch {
            let st = c.wait();
            *counters.entry(format!("{} sanitizer: processes", kind)).or_insert(0) += 1;
            let t = std::fs::read_to_string(format!("{}.out", base)).unwrap_or_default();
            let mut seen = 0;
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("C ") {
                    let (v, n) = r.split_once(' ').unwrap_or(("0", "?"));
                    let v: u64 = v.parse().unwrap_or(0);
                    if n.starts_with("cases:") {
                        *counters.entry(format!("{} sanitizer: cases", kind)).or_insert(0) += v;
                    } else if n.starts_with("calls ") || n.starts_with("known:") == false && *id == "C22" {
                        *counters.entry(format!("{} sanitizer: {}", kind, n)).or_insert(0) += v;
                    }
                } else if l.starts_with("H ") {
                    *counters.entry(format!("{} sanitizer: distinct cases", kind)).or_insert(0) += 1;
                } else if let (Some(v), true) = (l.strip_prefix("V "), seen < 2) {
                    seen += 1;
                    out.push(Res::Viol(format!("in the {} sanitizer build, {} {}", kind, id, v)));
                } else if let Some(e) = l.strip_prefix("E ") {
                    out.push(Res::Broken(format!("{} sanitizer build: {}", kind, e)));
                }
            }
            // reports
            let mut reports = 0;
            if let Ok(rd) = std::fs::read_dir(&tmp) {
                let pre = format!("{}.san", base.rsplit('/').next().unwrap_or(""));
                for e in rd.flatten() {
                    if e.file_name().to_string_lossy().starts_with(&pre) {
                        let r = std::fs::read_to_string(e.path()).unwrap_or_default();
                        let want = ["SUMMARY:", "WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "Location is", "Previous", "    #0", "    #1", "    #2"];
                        let ls: Vec<&str> = r.lines().filter(|l| want.iter().any(|w| l.contains(w))).map(|l| l.trim()).take(12).collect();
                        if r.contains("Sanitizer") {
                            reports += 1;
                            out.push(Res::Viol(format!("{} sanitizer report while running {} shard {}: {}", kind, id, shard, ls.join(" | "))));
                        }
                    }
                }
            }
            match st {
                Ok(s) if s.success() => {
                    if !t.lines().any(|l| l == "DONE") {
                        out.push(Res::Broken(format!("{} sanitizer run of {} did not finish", kind, id)));
                    }
                }
                Ok(s) if reports == 0 && s.signal().is_some() && s.signal() != Some(9) => {
                    out.push(Res::Viol(format!("the {} sanitizer run of {} shard {} ended with signal {:?}", kind, id, shard, s.signal())))
                }
                Ok(s) if reports == 0 && s.code() != Some(3) => {
                    out.push(Res::Broken(format!("{} sanitizer run of {} shard {}: {:?}", kind, id, shard, s)))
                }
                Ok(_) => {}
                Err(e) => out.push(Res::Broken(format!("wait: {}", e))),
            }
        }
    }
    out
}

fn c23(thorough: bool, seed: u64, verif: &str, counters: &mut BTreeMap<String, u64>) -> Vec<Res> {
    let mut out = vec![];
    let o = Command::new("cargo")
        .args(["build", "--offline", "--release", "--bin", "sendsync"])
        .args(["--manifest-path", &format!("{}/harness/Cargo.toml", verif)])
        .env("CARGO_TARGET_DIR", format!("{}/target", verif))
        .stdin(Stdio::null())
        .output();
    match o {
        Ok(o) if o.status.success() => match Command::new(format!("{}/target/release/sendsync", verif)).output() {
            Ok(o) if o.status.success() => {
                let n = String::from_utf8_lossy(&o.stdout).trim().parse().unwrap_or(0);
                counters.insert("types that may be moved and shared".into(), n);
            }
            o => out.push(Res::Broken(format!("sendsync: {:?}", o.map(|o| o.status)))),
        },
        Ok(o) => {
            let e = String::from_utf8_lossy(&o.stderr).to_string();
            match e.lines().find(|l| l.contains("between threads safely")) {
                Some(l) => out.push(Res::Viol(format!("a type of the library can no longer be used from several threads: {}", l))),
                None => out.push(Res::Broken("sendsync does not compile".into())),
            }
        }
        Err(e) => out.push(Res::Broken(format!("cargo: {}", e))),
    }
    match san_build("thread", verif) {
        Err(e) => out.push(Res::Broken(e)),
        Ok(exe) => {
            let (tier, scale) = if thorough { ("thorough", 0.3) } else { ("quick", 0.5) };
            out.extend(san_run("thread", &exe, &[("C23", scale)], tier, seed, if thorough { 400.0 } else { 150.0 }, counters));
        }
    }
    out
}

/// Runs `cargo miri run` of the crate in miri/; None for the build only.
fn miri(verif: &str, flags: &str, args: &[String], log: &str) -> std::io::Result<std::process::Child> {
    let f = std::fs::File::create(log)?;
    Command::new("cargo")
        .args(["+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", &format!("{}/miri/Cargo.toml", verif), "--"])
        .args(args)
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {}", flags))
        .env("RUSTFLAGS", "-Awarnings")
        .env("MIRI_SYSROOT", format!("{}/target/miri-sysroot", verif))
        .env("CARGO_TARGET_DIR", format!("{}/target/miri", verif))
        .stdin(Stdio::null())
        .stdout(f.try_clone()?)
        .stderr(f)
        .spawn()
}
/// The first lines of what Miri says is undefined, if anything.
fn ub(log: &str) -> Option<String> {
    let i = log.find("error: Undefined Behavior")?;
    let case = log[..i].lines().rev().find(|l| l.starts_with("CASE ")).unwrap_or("");
    let mut out = vec![case.to_string()];
    let mut at = 0;
    for l in log[i..].lines() {
        let t = l.trim();
        if t.starts_with("error:") || t.starts_with("help:") || t.starts_with("-->") || t.starts_with("at ") || (t.contains(": ") && t.starts_with(|c: char| c.is_ascii_digit())) {
            out.push(t.to_string());
            at += 1;
        }
        if at > 16 {
            break;
        }
    }
    Some(out.join(" | "))
}
fn c22(thorough: bool, seed: u64, verif: &str, counters: &mut BTreeMap<String, u64>) -> Vec<Res> {
    let mut out = vec![];
    let tmp = std::env::var("KMON_TMP").unwrap_or_default();
    let sh = |cmd: &mut Command| -> Result<(), String> {
        match cmd.stdin(Stdio::null()).output() {
            Ok(o) if o.status.success() => Ok(()),
            Ok(o) => Err(format!("{:?}: {}", cmd.get_program(), String::from_utf8_lossy(&o.stderr).lines().filter(|l| l.contains("error")).take(5).collect::<Vec<_>>().join("; "))),
            Err(e) => Err(format!("{:?}: {}", cmd.get_program(), e)),
        }
    };
    let mut ready = sh(Command::new("bash").arg(format!("{}/miri/prepare.sh", verif)));
    if ready.is_ok() {
        ready = sh(Command::new("cargo")
            .args(["+nightly", "miri", "setup", "--manifest-path", &format!("{}/miri/Cargo.toml", verif)])
            .env("MIRI_SYSROOT", format!("{}/target/miri-sysroot", verif))
            .env("CARGO_TARGET_DIR", format!("{}/target/miri", verif)));
    }
    if ready.is_ok() {
        let log = format!("{}/miri-build.log", tmp);
        ready = match miri(verif, "", &["noop".into()], &log).and_then(|mut c| c.wait()) {
            Ok(s) if s.success() => Ok(()),
            Ok(s) => {
                let t = std::fs::read_to_string(&log).unwrap_or_default();
                Err(format!("the Miri build failed: {:?} {}", s, t.lines().filter(|l| l.starts_with("error")).take(5).collect::<Vec<_>>().join("; ")))
            }
            Err(e) => Err(format!("cargo miri: {}", e)),
        };
    }
    match ready {
        Err(e) => out.push(Res::Broken(e)),
        Ok(()) => {
            let secs = if thorough { 420 } else { 90 };
            let (sb, tb, mem) = ("", "-Zmiri-tree-borrows", "-Zmiri-disable-stacked-borrows");
            let plan = [
                ("stacked borrows", sb, "tree"),
                ("stacked borrows", sb, "tree"),
                ("stacked borrows", sb, "tree"),
                ("tree borrows", tb, "tree"),
                ("tree borrows", tb, "tree"),
                ("memory only", mem, "files"),
                ("memory only", mem, "files"),
                ("memory only", mem, "files"),
                ("stacked borrows", sb, "values"),
            ];
            let mut ch = vec![];
            for (i, (name, flags, what)) in plan.iter().enumerate() {
                let (cases, most) = match *what {
                    "tree" => (if thorough { 400 } else { 40 }, secs),
                    "files" => (if thorough { 30 } else { 4 }, secs),
                    _ => (if thorough { 60 } else { 6 }, secs),
                };
                let args: Vec<String> = vec![what.to_string(), (seed * 100 + i as u64).to_string(), cases.to_string(), most.to_string()];
                let log = format!("{}/miri-{}.log", tmp, i);
                match miri(verif, &format!("{} -Zmiri-seed={}", flags, seed * 100 + i as u64), &args, &log) {
                    Ok(c) => ch.push((name, what, log, c)),
                    Err(e) => out.push(Res::Broken(format!("cargo miri: {}", e))),
                }
            }
            for (name, what, log, mut c) in ch {
                let st = c.wait();
                let t = std::fs::read_to_string(&log).unwrap_or_default();
                for l in t.lines() {
                    if let Some((v, k)) = l.strip_prefix("C ").and_then(|r| r.split_once(' ')) {
                        *counters.entry(format!("Miri ({}): {}", name, k)).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
                if let Some(u) = ub(&t) {
                    out.push(Res::Viol(format!("Miri ({}), workload {}: {}", name, what, u)));
                } else if let Some(v) = t.lines().find_map(|l| l.strip_prefix("V ")) {
                    out.push(Res::Viol(format!("under Miri ({}), workload {}: {}", name, what, v)));
                } else if let Some(v) = t.lines().find(|l| l.contains("panicked at")) {
                    out.push(Res::Viol(format!("under Miri ({}), workload {}: {}", name, what, v)));
                } else if !t.lines().any(|l| l == "DONE") {
                    let e: Vec<&str> = t.lines().filter(|l| l.starts_with("error")).take(3).collect();
                    out.push(Res::Broken(format!("Miri ({}), workload {}: {:?} {}", name, what, st, e.join("; "))));
                }
            }
            // the listed finding
            for w in ["overlap-iter", "overlap-search"] {
                let log = format!("{}/miri-{}.log", tmp, w);
                let st = miri(verif, tb, &[w.into()], &log).and_then(|mut c| c.wait());
                let t = std::fs::read_to_string(&log).unwrap_or_default();
                match (ub(&t), st) {
                    (Some(u), _) => out.push(Res::Known("overlapping-groups".into(), format!("{}: {}", w, u))),
                    (None, Ok(s)) if s.success() => {
                        counters.insert(format!("{} without undefined behaviour", w), 1);
                    }
                    (None, s) => out.push(Res::Broken(format!("Miri, {}: {:?}", w, s))),
                }
            }
        }
    }
    match san_build("address", verif) {
        Err(e) => out.push(Res::Broken(e)),
        Ok(exe) => {
            let f = if thorough { 10.0 } else { 1.0 };
            let ids = [
                ("C22", 0.2 * f),
                ("C01", 0.02 * f),
                ("C09", 0.02 * f),
                ("C10", 0.02 * f),
                ("C12", 0.02 * f),
                ("C17", 0.05 * f),
                ("C18", 0.02 * f),
                ("C19", 0.02 * f),
                ("C20", 0.02 * f),
            ];
            out.extend(san_run("address", &exe, &ids, "quick", seed, if thorough { 60.0 } else { 20.0 }, counters));
        }
    }
    out
}

pub fn post(
    id: &str,
    thorough: bool,
    seed: u64,
    exe: &str,
    verif: &str,
    counters: &mut BTreeMap<String, u64>,
    _samples: &mut Vec<String>,
) -> Vec<Res> {
    let mut out = vec![];
    if id == "C10" {
        // the listed finding, and the depth up to which nothing may happen
        for (d, listed) in [("1000", false), ("200000", true)] {
            match child(exe, &["deepgroups", d]) {
                Err(e) => out.push(Res::Broken(e)),
                Ok((_, Some(s))) => {
                    let m = format!("opening a file with {} nested groups ended the process with signal {}", d, s);
                    out.push(if listed { Res::Known("deep-groups".into(), m) } else { Res::Viol(m) });
                }
                Ok((Some(0), _)) | Ok((Some(10), _)) => {
                    *counters.entry(format!("deep groups survived: {}", d)).or_insert(0) += 1;
                }
                Ok((c, _)) => out.push(Res::Viol(format!("{} nested groups: exit {:?}", d, c))),
            }
        }
    }
    if id == "C22" {
        // the same finding is reported once
        let mut known = false;
        for r in c22(thorough, seed, verif, counters) {
            if let Res::Known(..) = r {
                if known {
                    continue;
                }
                known = true;
            }
            out.push(r);
        }
    }
    if id == "C23" {
        out.extend(c23(thorough, seed, verif, counters));
    }
    if id == "C14" {
        let tmp = std::env::var("KMON_TMP").unwrap_or_default();
        for m in crate::props::c14::judge(&tmp, counters) {
            out.push(Res::Viol(m));
        }
        // processes started at the same moment, as far as they can tell
        let lib = format!("{}/freeze.so", tmp);
        let cc = Command::new("cc")
            .args(["-shared", "-fPIC", "-O1", "-o", &lib, &format!("{}/harness/freeze.c", verif)])
            .stdin(Stdio::null())
            .output();
        match cc {
            Ok(o) if o.status.success() => {
                let mut seen: BTreeMap<String, usize> = BTreeMap::new();
                let mut ran = 0usize;
                for i in 0..6 {
                    let o = Command::new("setarch")
                        .args(["-R", exe, "probe", "frozen"])
                        .env("LD_PRELOAD", &lib)
                        .stdin(Stdio::null())
                        .output();
                    let o = match o {
                        Ok(o) if o.status.code() == Some(0) => Ok(o),
                        _ => Command::new(exe).args(["probe", "frozen"]).env("LD_PRELOAD", &lib).stdin(Stdio::null()).output(),
                    };
                    match o {
                        Ok(o) if o.status.code() == Some(0) => {
                            for l in String::from_utf8_lossy(&o.stdout).lines() {
                                if seen.insert(l.to_string(), i).is_some() {
                                    out.push(Res::Viol(format!("two processes with the same clock and process number drew the same random bytes {}", l)));
                                    return out;
                                }
                            }
                            ran += 1;
                        }
                        o => out.push(Res::Broken(format!("frozen process: {:?}", o.map(|o| o.status)))),
                    }
                }
                counters.insert("frozen process pairs compared".into(), (ran * ran.saturating_sub(1) / 2) as u64);
            }
            o => out.push(Res::Broken(format!("cc: {:?}", o.map(|o| o.status)))),
        }
    }
    if id == "C11" {
        // a second XML parser looks at some of the documents
        let d = std::env::var("KMON_TMP").unwrap_or_default();
        let code = "import sys,glob,xml.parsers.expat as e\nn=0\nfor f in glob.glob(sys.argv[1]+'/x-*.xml'):\n p=e.ParserCreate()\n try:\n  p.Parse(open(f,'rb').read(),True); n+=1\n except e.ExpatError as x:\n  print('BAD',f,x)\nprint('OK',n)";
        match Command::new("python3").arg("-c").arg(code).arg(&d).stderr(Stdio::null()).output() {
            Ok(o) if o.status.success() => {
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    if let Some(n) = l.strip_prefix("OK ") {
                        counters.insert("XML seen by expat".into(), n.parse().unwrap_or(0));
                    } else {
                        out.push(Res::Viol(format!("a second XML parser refuses a saved document: {}", l)));
                    }
                }
            }
            o => out.push(Res::Broken(format!("python3: {:?}", o.map(|o| o.status)))),
        }
    }
    out
}
