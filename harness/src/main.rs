//! kmon: monitors for rust-kpdb. `kmon check <PROP> <tier> <seed>` runs one property's monitors.
mod ctx;
mod faults;
mod gen;
mod mem;
mod model;
mod needles;
mod probe;
mod props;
mod refcrypto;
mod refkdbx;
mod refxml;
mod rng;
mod util;

use ctx::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static COUNTING: mem::Counting = mem::Counting;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs one case, turning library panics into violations. Returns a harness error if the monitor itself broke.
fn run_case(c: &mut Ctx, s: &Section, i: usize) -> Result<(), String> {
    c.section = s.name;
    c.index = i;
    c.art.clear();
    take_panics();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(c)));
    let p = take_panics();
    if r.is_err() {
        match p.iter().find(|x| is_harness(&x.0)) {
            Some(x) => return Err(format!("{}[{}]: {} {}", s.name, i, x.0, x.1)),
            None => {
                let t = p.first().map_or("panic".into(), |x| format!("panic at {}: {}", x.0, x.1));
                c.fail(format!("library panicked: {}", t));
            }
        }
    }
    Ok(())
}

struct Out {
    f: fs::File,
    sent: usize,
    sent_samples: usize,
}
impl Out {
    fn flush(&mut self, c: &mut Ctx) {
        let mut t = String::new();
        for (k, v) in std::mem::take(&mut c.counters) {
            let _ = writeln!(t, "C {} {}", v, k);
        }
        for h in c.fresh.drain(..) {
            let _ = writeln!(t, "H {:x}", h);
        }
        for s in &c.samples[self.sent_samples..] {
            let _ = writeln!(t, "S {}", esc(s));
        }
        self.sent_samples = c.samples.len();
        for v in &c.viols[self.sent..] {
            let _ = writeln!(t, "V {} {} {}", v.section, v.index, esc(&v.msg));
            for (n, b) in &v.art {
                let _ = writeln!(t, "A {} {}", n, refcrypto::hex(&b[..b.len().min(1 << 20)]));
            }
        }
        self.sent = c.viols.len();
        let _ = self.f.write_all(t.as_bytes());
    }
}

fn worker(a: &[String]) -> i32 {
    let p = props::get(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let (shard, k): (usize, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let (s0, i0): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
    let out = &a[7];
    let cap: f64 = a[8].parse().unwrap();
    install_hook(false);
    let cur = fs::OpenOptions::new().create(true).write(true).open(format!("{}.cur", out)).unwrap();
    let mut o = Out {
        f: fs::OpenOptions::new().create(true).append(true).open(out).unwrap(),
        sent: 0,
        sent_samples: 0,
    };
    let mut c = Ctx::new(p.id, thorough, seed);
    let t0 = Instant::now();
    let ns = p.sections.len();
    let scale: f64 = std::env::var("KMON_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    for (si, s) in p.sections.iter().enumerate().skip(s0) {
        let total = if thorough { s.thorough } else { s.quick };
        let total = ((total as f64 * scale).ceil() as usize).max(1);
        let left = cap - t0.elapsed().as_secs_f64();
        let dl = t0.elapsed().as_secs_f64() + left / (ns - si) as f64 * 1.7;
        let start = if si == s0 { i0 } else { 0 };
        let mut last = Instant::now();
        let mut done = 0u64;
        for i in (start..total).filter(|i| i % k == shard) {
            let el = t0.elapsed().as_secs_f64();
            if el > dl || el > cap {
                c.n(&format!("cut_short:{}", s.name));
                break;
            }
            let mut b = format!("{} {}", si, i).into_bytes();
            b.resize(40, b' ');
            let _ = cur.write_at(&b, 0);
            if let Err(e) = run_case(&mut c, s, i) {
                o.flush(&mut c);
                let _ = writeln!(o.f, "E {}", esc(&e));
                return 3;
            }
            done += 1;
            if c.viols.len() > 3 {
                break;
            }
            if last.elapsed() > Duration::from_millis(500) {
                last = Instant::now();
                o.flush(&mut c);
            }
        }
        c.add(&format!("cases:{}", s.name), done);
        o.flush(&mut c);
        if c.viols.len() > 3 {
            break;
        }
    }
    let _ = writeln!(o.f, "DONE");
    0
}

fn single(a: &[String], verbose: bool) -> i32 {
    let p = props::get(&a[0]).expect("property");
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let s = p.sections.iter().find(|s| s.name == a[3]).expect("section");
    let i: usize = a[4].parse().unwrap();
    install_hook(verbose);
    let mut c = Ctx::new(p.id, thorough, seed);
    c.verbose = verbose;
    if let Err(e) = run_case(&mut c, s, i) {
        println!("HARNESS {}", e);
        return 3;
    }
    if verbose {
        for (k, v) in &c.counters {
            println!("{} = {}", k, v);
        }
        for s in &c.samples {
            println!("sample {}", s);
        }
    }
    for v in &c.viols {
        println!("VIOL {}[{}]: {}", v.section, v.index, v.msg);
    }
    if c.viols.is_empty() {
        0
    } else {
        1
    }
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let s = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = s.split_whitespace().collect();
    if f.len() > 13 {
        f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
    } else {
        0
    }
}

fn spawn(exe: &str, vmem: u64, args: &[String], log: &str) -> Child {
    let f = fs::OpenOptions::new().create(true).append(true).open(log).unwrap();
    let mut cmd = if vmem > 0 {
        let mut c = Command::new("/bin/sh");
        c.arg("-c").arg(format!("ulimit -v {}; exec \"$0\" \"$@\"", vmem)).arg(exe);
        c
    } else {
        Command::new(exe)
    };
    cmd.args(args).stdin(Stdio::null()).stdout(f.try_clone().unwrap()).stderr(f);
    cmd.spawn().expect("spawn worker")
}

const HANG_TICKS: u64 = 100 * 60; // 60 s of CPU time inside one case
const HANG_WALL: u64 = 400;

struct W {
    shard: usize,
    child: Child,
    out: String,
    cur: String,
    cur_ticks: u64,
    cur_since: Instant,
    restarts: usize,
    done: bool,
}

/// The findings listed for a property: signature -> description.
fn known_findings(verif: &str, id: &str) -> BTreeMap<String, String> {
    let t = fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in t.lines() {
        let mut it = l.splitn(4, ' ');
        if it.next() == Some("KNOWN") && it.next() == Some(&format!("property={}", id)) {
            if let Some(s) = it.next().and_then(|s| s.strip_prefix("sig=")) {
                m.insert(s.to_string(), it.next().unwrap_or("").to_string());
            }
        }
    }
    m
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = &a[0];
    let p = match props::get(id) {
        Some(p) => p,
        None => {
            println!("unknown property {}", id);
            return 2;
        }
    };
    let tier = a[1].clone();
    let thorough = tier == "thorough";
    let seed: u64 = a[2].parse().unwrap_or(1);
    let verif = std::env::var("KMON_VERIF").unwrap_or("/verif".into());
    if let Err(e) = refcrypto::selftest() {
        println!("harness broken: {}", e);
        return 2;
    }
    let cap = std::env::var("KMON_CAP")
        .ok()
        .and_then(|x| x.parse::<f64>().ok())
        .unwrap_or(if thorough { 600.0 } else { 300.0 });
    let exe = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let k = 8usize;
    let tmp = format!("{}/target/run/{}.{}", verif, id, std::process::id());
    let _ = fs::remove_dir_all(&tmp);
    fs::create_dir_all(&tmp).unwrap();
    std::env::set_var("KMON_TMP", &tmp);
    let start = |shard: usize, s0: usize, i0: usize, n: usize, left: f64| -> Child {
        let out = format!("{}/w{}.{}", tmp, shard, n);
        let args: Vec<String> = vec![
            "worker".into(),
            id.to_string(),
            tier.clone(),
            seed.to_string(),
            shard.to_string(),
            k.to_string(),
            s0.to_string(),
            i0.to_string(),
            out.clone(),
            format!("{}", left.max(5.0)),
        ];
        spawn(&exe, p.vmem_kib, &args, &format!("{}/w{}.log", tmp, shard))
    };
    let mut ws: Vec<W> = (0..k)
        .map(|s| W {
            shard: s,
            child: start(s, 0, 0, 0, cap),
            out: format!("{}/w{}.0", tmp, s),
            cur: String::new(),
            cur_ticks: 0,
            cur_since: Instant::now(),
            restarts: 0,
            done: false,
        })
        .collect();
    let mut extra: Vec<Viol> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut outs: Vec<String> = ws.iter().map(|w| w.out.clone()).collect();
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(30));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut dead: Option<String> = None;
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    if st.code() == Some(0) || st.code() == Some(3) {
                        w.done = true;
                        continue;
                    }
                    dead = Some(match st.signal() {
                        Some(s) => format!("killed by signal {}", s),
                        None => format!("exited with {:?}", st.code()),
                    });
                }
                Ok(None) => {
                    let cur = fs::read_to_string(format!("{}.cur", w.out)).unwrap_or_default();
                    if cur != w.cur {
                        w.cur = cur;
                        w.cur_ticks = cpu_ticks(w.child.id());
                        w.cur_since = Instant::now();
                    } else if w.cur_since.elapsed().as_secs() > 20 {
                        let used = cpu_ticks(w.child.id()).saturating_sub(w.cur_ticks);
                        if used > HANG_TICKS || w.cur_since.elapsed().as_secs() > HANG_WALL {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            dead = Some("did not finish (hang)".into());
                        }
                    }
                }
                Err(_) => {}
            }
            if let Some(why) = dead {
                let cur = fs::read_to_string(format!("{}.cur", w.out)).unwrap_or_default();
                let mut it = cur.split_whitespace();
                let si: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let i: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let sn = p.sections[si.min(p.sections.len() - 1)].name;
                // confirm on its own
                let args: Vec<String> = vec![
                    "single".into(),
                    id.to_string(),
                    tier.clone(),
                    seed.to_string(),
                    sn.to_string(),
                    i.to_string(),
                ];
                let mut ch = spawn(&exe, p.vmem_kib, &args, &format!("{}/single.log", tmp));
                let ts = Instant::now();
                let mut again = None;
                loop {
                    match ch.try_wait() {
                        Ok(Some(st)) => {
                            if st.code() != Some(0) && st.code() != Some(3) {
                                again = Some(format!("{:?}/{:?}", st.code(), st.signal()));
                            }
                            break;
                        }
                        _ => {
                            if cpu_ticks(ch.id()) > HANG_TICKS || ts.elapsed().as_secs() > HANG_WALL {
                                let _ = ch.kill();
                                let _ = ch.wait();
                                again = Some("hang".into());
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(20));
                        }
                    }
                }
                if again.is_some() {
                    extra.push(Viol {
                        section: sn.into(),
                        index: i,
                        msg: format!("process {} while running this case (confirmed by a second run)", why),
                        art: vec![],
                    });
                    w.done = true;
                    continue;
                }
                notes.push(format!("{}[{}]: worker {} once, not confirmed by a second run", sn, i, why));
                w.restarts += 1;
                if w.restarts > 3 {
                    harness.push(format!("worker {} died repeatedly: {}", w.shard, why));
                    w.done = true;
                    continue;
                }
                w.out = format!("{}/w{}.{}", tmp, w.shard, w.restarts);
                outs.push(w.out.clone());
                w.cur.clear();
                w.cur_since = Instant::now();
                w.child = start(w.shard, si, i + 1, w.restarts, cap - t0.elapsed().as_secs_f64());
            }
        }
    }
    // merge
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<Viol> = extra;
    for o in &outs {
        let t = fs::read_to_string(o).unwrap_or_default();
        for l in t.lines() {
            let (tag, rest) = l.split_once(' ').unwrap_or((l, ""));
            match tag {
                "C" => {
                    let (v, n) = rest.split_once(' ').unwrap_or(("0", "?"));
                    *counters.entry(n.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
                "H" => {
                    hashes.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "S" => samples.push(unesc(rest)),
                "V" => {
                    let mut it = rest.splitn(3, ' ');
                    let s = it.next().unwrap_or("").to_string();
                    let i = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    viols.push(Viol { section: s, index: i, msg: unesc(it.next().unwrap_or("")), art: vec![] });
                }
                "A" => {
                    if let (Some(v), Some((n, h))) = (viols.last_mut(), rest.split_once(' ')) {
                        v.art.push((n.to_string(), refcrypto::unhex(h).unwrap_or_default()));
                    }
                }
                "E" => harness.push(unesc(rest)),
                _ => {}
            }
        }
    }
    let mut known_lines: Vec<String> = vec![];
    let known = known_findings(&verif, id);
    for (k, v) in counters.iter() {
        if let Some(sig) = k.strip_prefix("known:") {
            match known.get(sig) {
                Some(t) => known_lines.push(format!("{} (seen {} times; {})", t, v, sig)),
                None => viols.push(Viol { section: "known".into(), index: 0, msg: format!("{} ({} times)", sig, v), art: vec![] }),
            }
        }
    }
    let extra_probe = probe::post(id, thorough, seed, &exe, &verif, &mut counters, &mut samples);
    for r in extra_probe {
        match r {
            probe::Res::Viol(m) => viols.push(Viol { section: "probe".into(), index: 0, msg: m, art: vec![] }),
            probe::Res::Known(sig, m) => match known.get(&sig) {
                Some(t) => known_lines.push(format!("{} ({})", t, sig)),
                None => viols.push(Viol { section: "probe".into(), index: 0, msg: m, art: vec![] }),
            },
            probe::Res::Broken(m) => harness.push(m),
        }
    }
    let _ = fs::remove_dir_all(&tmp);
    // evidence
    let ev = counters.get("evaluations").copied().unwrap_or(0);
    let mut short: Vec<String> = vec![];
    if viols.is_empty() && std::env::var("KMON_SCALE").is_err() {
        for (n, m) in p.need {
            let got = counters.get(*n).copied().unwrap_or(0);
            if got < *m {
                short.push(format!("observed only {} of {} (needs {})", got, n, m));
            }
        }
    }
    samples.sort();
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let k = s.split('[').next().unwrap_or("").to_string();
        let c = per.entry(k).or_insert(0);
        *c += 1;
        *c <= 2
    });
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        jstr(id), jstr(&tier), seed, ev, hashes.len(), jstr(p.rule)
    );
    let _ = write!(
        j,
        "  \"samples\": [{}],\n",
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")
    );
    let obs: Vec<String> =
        counters.iter().filter(|c| c.0 != "evaluations").map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let _ = write!(j, "  \"observed\": {{{}}}", obs.join(", "));
    if !notes.is_empty() {
        let _ = write!(j, ",\n  \"notes\": [{}]", notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    }
    if !known_lines.is_empty() {
        let _ =
            write!(j, ",\n  \"known_findings\": [{}]", known_lines.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    }
    let _ = write!(
        j,
        "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        viols.len()
    );
    let evd = format!("{}/evidence", verif);
    let _ = fs::create_dir_all(format!("{}/replay", evd));
    let _ = fs::write(format!("{}/{}.json", evd, id), j);
    for l in &known_lines {
        println!("KNOWN-FINDING: property={} {}", id, l);
    }
    println!(
        "{} {} seed={}: {} evaluations, {} distinct, {:.1} s",
        id,
        tier,
        seed,
        ev,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    for h in &harness {
        println!("HARNESS-ERROR: {}", h);
    }
    if !viols.is_empty() {
        for v in viols.iter().take(5) {
            let name = format!("{}-{}-{}", id, v.section, v.index);
            let mut t = format!(
                "property {}\nsection {} case {}\ntier {} seed {}\n{}\n\nreproduce: cd {} && ./run replay {} {} {} {} {}\n",
                id, v.section, v.index, tier, seed, v.msg, verif, id, tier, seed, v.section, v.index
            );
            for (n, b) in &v.art {
                let f = format!("{}/replay/{}.{}", evd, name, n);
                let _ = fs::write(&f, b);
                let _ = writeln!(t, "artifact {}", f);
            }
            let f = format!("{}/replay/{}.txt", evd, name);
            let _ = fs::write(&f, t);
            println!("  {}[{}]: {}", v.section, v.index, v.msg.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={}", id, f);
        }
        return 1;
    }
    if !harness.is_empty() || !short.is_empty() {
        for s in &short {
            println!("INCONCLUSIVE: {}", s);
        }
        return 2;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("single") => single(&a[1..], false),
        Some("replay") => single(&a[1..], true),
        Some("probe") => probe::run(&a[1..]),
        Some("selftest") => match refcrypto::selftest() {
            Ok(()) => 0,
            Err(e) => {
                println!("{}", e);
                1
            }
        },
        Some("list") => {
            for p in props::all() {
                println!("{}", p);
            }
            0
        }
        _ => {
            println!("usage: kmon check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
