//! What a monitor sees of the run: counters, distinct cases, samples, violations.
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

pub struct Section {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut Ctx),
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
    /// counters that must reach these values (per run) for the run to count
    pub need: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    /// address-space limit for the workers in KiB, 0 for none
    pub vmem_kib: u64,
}

#[derive(Clone)]
pub struct Viol {
    pub section: String,
    pub index: usize,
    pub msg: String,
    pub art: Vec<(String, Vec<u8>)>,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub section: &'static str,
    pub index: usize,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub fresh: Vec<u64>,
    pub samples: Vec<String>,
    pub sampled: BTreeMap<String, usize>,
    pub viols: Vec<Viol>,
    pub art: Vec<(String, Vec<u8>)>,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            section: "",
            index: 0,
            counters: BTreeMap::new(),
            hashes: HashSet::new(),
            fresh: vec![],
            samples: vec![],
            sampled: BTreeMap::new(),
            viols: vec![],
            art: vec![],
            verbose: false,
        }
    }
    /// The generator of this case; depends on property, seed, section and index only.
    pub fn rng(&self) -> Rng {
        let h = hash_bytes(format!("{}/{}", self.prop, self.section).as_bytes());
        Rng::new(mix(h ^ mix(self.seed.wrapping_mul(0x51_7c_c1_b7)) ^ mix(self.index as u64 + 1)))
    }
    pub fn add(&mut self, name: &str, by: u64) {
        match self.counters.get_mut(name) {
            Some(v) => *v += by,
            None => {
                self.counters.insert(name.to_string(), by);
            }
        }
    }
    pub fn n(&mut self, name: &str) {
        self.add(name, 1)
    }
    /// One judged execution.
    pub fn eval(&mut self) {
        self.add("evaluations", 1)
    }
    /// A non-trivial case, identified by its content.
    pub fn seen(&mut self, h: u64) {
        if self.hashes.insert(h) {
            self.fresh.push(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(hash_bytes(b))
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        let k = self.sampled.entry(self.section.to_string()).or_insert(0);
        if *k < 2 {
            *k += 1;
            let s: String = f().chars().take(400).collect();
            self.samples.push(format!("{}[{}]: {}", self.section, self.index, s));
        }
    }
    pub fn attach(&mut self, name: &str, b: &[u8]) {
        self.art.retain(|a| a.0 != name);
        self.art.push((name.into(), b.to_vec()));
    }
    pub fn fail<S: Into<String>>(&mut self, msg: S) {
        let msg = msg.into();
        if self.verbose {
            eprintln!("VIOL {}[{}]: {}", self.section, self.index, msg);
        }
        if self.viols.len() < 20 {
            self.viols.push(Viol {
                section: self.section.into(),
                index: self.index,
                msg,
                art: self.art.clone(),
            });
        }
    }
    pub fn failed_here(&self) -> bool {
        self.viols.last().map_or(false, |v| v.index == self.index && v.section == self.section)
    }
}

pub static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if verbose {
            eprintln!("panic at {}: {}", loc, msg);
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 100 {
                p.push((loc, msg));
            }
        }
    }));
}
pub fn take_panics() -> Vec<(String, String)> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}
/// Panics raised by the harness's own code (as opposed to the library or its dependencies).
pub fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("harness/src/")
}

/// Runs one call into the library; Err holds the panic text. A panic in the harness itself is passed on.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    let before = PANICS.lock().unwrap().len();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let mut p = PANICS.lock().unwrap();
            let at = before.min(p.len());
            let mine = p.split_off(at);
            drop(p);
            if mine.iter().any(|x| is_harness(&x.0)) {
                PANICS.lock().unwrap().extend(mine);
                std::panic::resume_unwind(e);
            }
            Err(mine.first().map_or("panic".into(), |x| format!("panic at {}: {}", x.0, x.1)))
        }
    }
}
