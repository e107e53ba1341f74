//! Scenario runner: verdicts, coverage counters, panics of the code under test, parallel execution by seed.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

use parking_lot::Mutex;
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Violation {
    /// What a known finding is keyed on: identifies the kind of failure, not the run.
    pub sig: String,
    pub detail: String,
    pub scenario: String,
    pub seed: u64,
    pub trace: Vec<String>,
}

/// One run of one scenario.
pub struct Scn {
    pub name: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub rng: StdRng,
    pub fails: Vec<(String, String)>,
    pub cov: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub trace: Vec<String>,
    pub inconclusive: Vec<String>,
    pub sample: Option<String>,
}

impl Scn {
    /// The property is violated.
    pub fn fail(&mut self, sig: &str, detail: impl Into<String>) {
        let detail = detail.into();
        self.log(format!("!! {sig}: {detail}"));
        if self.fails.len() < 20 {
            self.fails.push((sig.to_string(), detail));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.ev("oracle_evaluations", 1);
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// The harness could not do what it meant to.
    pub fn inconclusive(&mut self, why: impl Into<String>) {
        let why = why.into();
        self.log(format!("?? {why}"));
        self.inconclusive.push(why);
    }
    pub fn ev(&mut self, what: &str, n: u64) {
        *self.cov.entry(what.to_string()).or_default() += n;
    }
    /// Count a distinct non-trivial observation.
    pub fn state(&mut self, x: impl Hash) {
        let mut h = std::hash::DefaultHasher::new();
        self.name.hash(&mut h);
        x.hash(&mut h);
        self.states.insert(h.finish());
    }
    pub fn log(&mut self, s: impl Into<String>) {
        if self.trace.len() < 4000 {
            self.trace.push(s.into());
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
}

pub type BoxFut<'a> = Pin<Box<dyn Future<Output = ()> + 'a>>;
pub type ScnFn = for<'a> fn(&'a mut Scn) -> BoxFut<'a>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Rt {
    /// One thread, virtual time, hash seeds and entropy derived from the scenario's seed.
    Virtual,
    /// One thread, real time.
    Real,
    /// Several threads, real time.
    Multi(usize),
}

#[derive(Clone)]
pub struct Group {
    pub name: &'static str,
    pub f: ScnFn,
    pub rt: Rt,
    /// How many seeds (quick, thorough).
    pub n: (u64, u64),
    /// How many at a time.
    pub par: usize,
    /// Wall-clock limit of one run: exceeding it is inconclusive.
    pub limit_s: u64,
}

#[macro_export]
macro_rules! group {
    ($name:expr, $f:path, $rt:expr, $quick:expr, $thorough:expr) => {
        $crate::run::Group {
            name: $name,
            f: |s| Box::pin($f(s)),
            rt: $rt,
            n: ($quick, $thorough),
            par: 8,
            limit_s: 120,
        }
    };
}

static PANICS: Mutex<Vec<(String, String, Option<String>)>> = Mutex::new(Vec::new());
thread_local! {
    static SCN: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Panics raised in the repository's own code, by the scenario whose runtime they were raised in.
pub fn install_panic_hook() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        std::panic::set_hook(Box::new(|info| {
            let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let who = SCN.try_with(|s| s.borrow().clone()).ok().flatten();
            if std::env::var("PCV_DEBUG").is_ok() {
                eprintln!("panic at {at}: {msg} ({who:?})");
            }
            let mut p = PANICS.lock();
            if p.len() < 10_000 {
                p.push((at, msg, who));
            }
        }));
    });
}

fn own_code(at: &str) -> bool {
    at.contains("/ws/cdn-") || at.starts_with("cdn-")
}

pub fn panics_of(tag: &str) -> Vec<(String, String)> {
    PANICS.lock().iter().filter(|p| p.2.as_deref() == Some(tag)).map(|p| (p.0.clone(), p.1.clone())).collect()
}

fn run_one(g: &Group, seed: u64, thorough: bool) -> Scn {
    let scn = Scn {
        name: g.name,
        seed,
        thorough,
        rng: StdRng::seed_from_u64(seed),
        fails: vec![],
        cov: BTreeMap::new(),
        states: HashSet::new(),
        trace: vec![],
        inconclusive: vec![],
        sample: None,
    };
    let tag = format!("{}#{seed}", g.name);
    let (tx, rx) = std::sync::mpsc::channel();
    let (f, rt) = (g.f, g.rt);
    let tag2 = tag.clone();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            SCN.with(|s| *s.borrow_mut() = Some(tag2.clone()));
            let mut scn = scn;
            let runtime = match rt {
                Rt::Virtual => {
                    crate::interpose::seed_thread(seed);
                    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build()
                }
                Rt::Real => tokio::runtime::Builder::new_current_thread().enable_all().build(),
                Rt::Multi(n) => tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(n)
                    .on_thread_start(move || SCN.with(|s| *s.borrow_mut() = Some(tag2.clone())))
                    .enable_all()
                    .build(),
            }
            .expect("runtime");
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                runtime.block_on(f(&mut scn));
            }));
            if ok.is_err() {
                let p = PANICS.lock().last().cloned();
                scn.inconclusive(format!("scenario panicked: {p:?}"));
            }
            runtime.shutdown_timeout(Duration::from_millis(if rt == Rt::Virtual { 0 } else { 500 }));
            let _ = tx.send(scn);
        })
        .expect("thread");
    let mut scn = match rx.recv_timeout(Duration::from_secs(g.limit_s)) {
        Ok(s) => s,
        Err(_) => {
            let mut s = Scn {
                name: g.name,
                seed,
                thorough,
                rng: StdRng::seed_from_u64(seed),
                fails: vec![],
                cov: BTreeMap::new(),
                states: HashSet::new(),
                trace: vec![],
                inconclusive: vec![],
                sample: None,
            };
            s.inconclusive(format!("watchdog: no result within {} s", g.limit_s));
            s
        }
    };
    for (at, msg) in panics_of(&tag) {
        if own_code(&at) {
            let file = at.rsplit("/ws/").next().unwrap_or(&at).split(':').next().unwrap_or("").to_string();
            scn.fail(&format!("panic in {file}"), format!("panic at {at}: {msg}"));
        }
    }
    scn
}

#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub cov: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub inconclusive: Vec<String>,
    pub runs: BTreeMap<String, u64>,
}

impl Outcome {
    fn add(&mut self, s: Scn) {
        *self.runs.entry(s.name.to_string()).or_default() += 1;
        for (k, v) in &s.cov {
            *self.cov.entry(k.clone()).or_default() += v;
        }
        self.states.extend(s.states.iter());
        let mut seen = HashSet::new();
        for (sig, detail) in &s.fails {
            if seen.insert(sig.clone()) && self.violations.len() < 200 {
                self.violations.push(Violation {
                    sig: sig.clone(),
                    detail: detail.clone(),
                    scenario: s.name.to_string(),
                    seed: s.seed,
                    trace: s.trace.clone(),
                });
            }
        }
        for i in &s.inconclusive {
            self.inconclusive.push(format!("{}#{}: {i}", s.name, s.seed));
        }
        if self.samples.len() < 12 {
            let per = self.samples.iter().filter(|x| x.starts_with(&format!("{}#", s.name))).count();
            if per < 2 {
                let text = s.sample.clone().unwrap_or_else(|| {
                    s.trace.iter().take(12).cloned().collect::<Vec<_>>().join(" | ")
                });
                let text: String = text.chars().take(600).collect();
                self.samples.push(format!("{}#{}: {text}", s.name, s.seed));
            }
        }
    }

    pub fn to_json(&self) -> Value {
        json!({
            "violations": self.violations.iter().map(|v| json!({
                "sig": v.sig, "detail": v.detail, "scenario": v.scenario, "seed": v.seed, "trace": v.trace,
            })).collect::<Vec<_>>(),
            "cov": self.cov,
            "distinct": self.states.len(),
            "samples": self.samples,
            "inconclusive": self.inconclusive.iter().take(50).collect::<Vec<_>>(),
            "n_inconclusive": self.inconclusive.len(),
            "runs": self.runs,
        })
    }
}

pub fn scenario_seed(base: u64, name: &str, i: u64) -> u64 {
    let mut h = base.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in name.bytes() {
        h = crate::interpose::mix(h ^ u64::from(b));
    }
    crate::interpose::mix(h.wrapping_add(i)) >> 16
}

pub fn run_groups(groups: &[Group], seed: u64, thorough: bool, budget: Duration, out: &mut Outcome) {
    install_panic_hook();
    let t0 = Instant::now();
    let share = |i: usize| budget.mul_f64((i + 1) as f64 / groups.len() as f64);
    for (gi, g) in groups.iter().enumerate() {
        let n = if thorough { g.n.1 } else { g.n.0 };
        let next = Arc::new(AtomicUsize::new(0));
        let results = Arc::new(Mutex::new(Vec::new()));
        let until = share(gi);
        std::thread::scope(|sc| {
            for _ in 0..g.par.min(n as usize).max(1) {
                let (next, results) = (next.clone(), results.clone());
                sc.spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                    // At least a quarter of the runs, whatever the clock says.
                    if i >= n || (i >= n.div_ceil(4) && t0.elapsed() > until) {
                        return;
                    }
                    let s = run_one(g, scenario_seed(seed, g.name, i), thorough);
                    let stop = s.failed();
                    results.lock().push((i, s));
                    if stop {
                        // One failing run per group is enough to decide; finish what is in flight.
                        next.fetch_add(n as usize, Ordering::SeqCst);
                    }
                });
            }
        });
        let mut r = std::mem::take(&mut *results.lock());
        r.sort_by_key(|(i, _)| *i);
        if std::env::var("PCV_DEBUG").is_ok() {
            eprintln!("{}: {} runs, {:.1} s", g.name, r.len(), t0.elapsed().as_secs_f64());
        }
        for (_, s) in r {
            out.add(s);
        }
    }
}

pub fn replay(groups: &[Group], name: &str, seed: u64, out: &mut Outcome) {
    install_panic_hook();
    for g in groups.iter().filter(|g| g.name == name) {
        out.add(run_one(g, seed, false));
    }
}

pub fn hist(map: &HashMap<String, u64>) -> String {
    let mut v: Vec<_> = map.iter().collect();
    v.sort();
    v.iter().map(|(k, n)| format!("{k}={n}")).collect::<Vec<_>>().join(" ")
}
