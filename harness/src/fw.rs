//! Exploration framework: exhaustive enumeration of a finite space of inputs or
//! operation sequences against the real crate, with counters, known-findings
//! matching, replay files and evidence.
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const MAX_VIOL: usize = 400;
const STALL_SECS: u64 = 300;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub key: String,
    pub what: String,
}

pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub root: String,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    viol: Mutex<BTreeMap<String, String>>,
    nviol: AtomicU64,
    known: Vec<Finding>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    dims: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    beats: Vec<Mutex<(Instant, String, bool)>>,
    done: AtomicBool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Worker<'a> {
    pub run: &'a Run,
    slot: usize,
    ticks: u32,
    states: u64,
    transitions: u64,
    traces: u64,
    viol: Vec<(String, String)>,
    nviol: u64,
    known_hit: BTreeMap<String, u64>,
}

impl Worker<'_> {
    /// `n` distinct states (inputs, configurations, nodes of the search) visited.
    #[inline]
    pub fn state(&mut self, n: u64) {
        self.states += n;
        self.tick(16);
    }
    /// Every comparison made or case begun is progress; reported now and then.
    #[inline]
    fn tick(&mut self, n: u32) {
        self.ticks += n;
        if self.ticks >= 256 {
            self.ticks = 0;
            self.run.beats[self.slot].lock().unwrap().0 = Instant::now();
        }
    }
    /// `n` oracle comparisons (edges of the search) made.
    #[inline]
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    /// `n` complete executions of the real code compared with the reference model.
    #[inline]
    pub fn trace(&mut self, n: u64) {
        self.traces += n;
    }
    pub fn beat(&mut self, label: impl Into<String>) {
        let mut b = self.run.beats[self.slot].lock().unwrap();
        *b = (Instant::now(), label.into(), true);
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        // a known finding is matched by its exact key
        if self.run.known.iter().any(|f| f.key == key) {
            *self.known_hit.entry(key).or_insert(0) += 1;
            return;
        }
        self.nviol += 1;
        if self.viol.len() < MAX_VIOL {
            self.viol.push((key, detail.into()));
        }
    }
    #[inline]
    pub fn check(
        &mut self,
        ok: bool,
        key: impl FnOnce() -> String,
        detail: impl FnOnce() -> String,
    ) -> bool {
        self.transitions += 1;
        self.tick(1);
        if !ok {
            let k = key();
            self.fail(k, detail());
        }
        ok
    }
    /// Evaluates `f` on the real code; a panic is a violation.
    #[inline]
    pub fn call<T>(&mut self, key: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        self.tick(16);
        match guard(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail(key(), format!("panicked: {e}"));
                None
            }
        }
    }
    /// |a-b| <= atol + rtol*max(|a|,|b|), NaN fails.
    #[inline]
    pub fn close(
        &mut self,
        a: f64,
        b: f64,
        atol: f64,
        rtol: f64,
        key: impl FnOnce() -> String,
    ) -> bool {
        let ok = close(a, b, atol, rtol);
        self.check(ok, key, || format!("got {a:.17e}, expected {b:.17e}, diff {:.3e}", a - b))
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.run.samples.lock().unwrap();
        if s.len() < 40 {
            s.push(v);
        }
    }
}

pub fn close(a: f64, b: f64, atol: f64, rtol: f64) -> bool {
    a == b || ((a - b).abs() <= atol + rtol * a.abs().max(b.abs()) && a.is_finite() && b.is_finite())
}

impl Run {
    pub fn new(id: &'static str, tier: Tier, root: &str) -> Run {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) {
                    let (k, w) = r.split_once(" :: ").unwrap_or((r, ""));
                    known.push(Finding { key: k.trim().to_string(), what: w.trim().to_string() });
                }
            }
        }
        Run {
            id,
            tier,
            root: root.to_string(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            viol: Mutex::new(BTreeMap::new()),
            nviol: AtomicU64::new(0),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            dims: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            start: Instant::now(),
            beats: (0..64).map(|_| Mutex::new((Instant::now(), String::new(), false))).collect(),
            done: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// picks a bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn dim(&self, k: &str, v: impl Into<Value>) {
        self.dims.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn worker(&self, slot: usize) -> Worker<'_> {
        Worker {
            run: self,
            slot,
            ticks: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            viol: vec![],
            nviol: 0,
            known_hit: BTreeMap::new(),
        }
    }
    fn merge(&self, w: Worker<'_>) {
        self.states.fetch_add(w.states, Ordering::Relaxed);
        self.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        self.traces.fetch_add(w.traces, Ordering::Relaxed);
        self.nviol.fetch_add(w.nviol, Ordering::Relaxed);
        let mut v = self.viol.lock().unwrap();
        for (k, d) in w.viol {
            v.entry(k).or_insert(d);
        }
        let mut h = self.known_hit.lock().unwrap();
        for (k, n) in w.known_hit {
            *h.entry(k).or_insert(0) += n;
        }
    }
    /// Exhaustively processes items 0..n on all cores; every item is visited exactly once.
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Worker<'_>) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        std::thread::scope(|s| {
            for t in 0..threads.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut w = self.worker(t);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            w.beat(format!("item {i} of {n}"));
                            if let Err(e) = guard(|| f(i, &mut w)) {
                                w.fail(format!("panic:item{i}"), format!("harness item {i} panicked: {e}"));
                            }
                        }
                        self.beats[t].lock().unwrap().2 = false;
                        self.merge(w);
                    })
                    .unwrap();
            }
        });
    }
    /// Sequential section.
    pub fn seq(&self, f: impl Fn(&mut Worker<'_>) + Sync) {
        self.par(1, |_, w| f(w));
    }
    pub fn stalled(&self) -> Option<String> {
        if self.done.load(Ordering::Relaxed) {
            return None;
        }
        for b in &self.beats {
            let b = b.lock().unwrap();
            if b.2 && b.0.elapsed() > Duration::from_secs(STALL_SECS) {
                return Some(b.1.clone());
            }
        }
        None
    }
    fn replay_path(&self) -> String {
        format!("{}/replays/{}.json", self.root, self.id)
    }
    fn write_replay(&self, v: &BTreeMap<String, String>) -> String {
        let p = self.replay_path();
        let _ = std::fs::create_dir_all(format!("{}/replays", self.root));
        let body = json!({
            "property": self.id,
            "rerun": format!("bash run.sh {} {}", self.id, if self.thorough() {"thorough"} else {"quick"}),
            "failing_cases": v.iter().take(MAX_VIOL).map(|(k,d)| json!({"case": k, "observed": d})).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
        p
    }
    pub fn fail_stall(&self, label: &str) {
        let mut v = self.viol.lock().unwrap().clone();
        v.insert(format!("no-progress:{label}"), format!("no progress for {STALL_SECS} s in {label}"));
        self.evidence(v.len() as u64);
        let p = self.write_replay(&v);
        println!("  no progress for {STALL_SECS} s in: {label}");
        println!("VIOLATION property={} replay={}", self.id, p);
    }
    fn evidence(&self, nviol: u64) {
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed)));
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), json!(true));
        cov.insert("bounds".into(), Value::Object(self.dims.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect()));
        cov.insert("known_findings_seen".into(), json!(*self.known_hit.lock().unwrap()));
        let mut assumptions = self.assumptions.lock().unwrap().clone();
        assumptions.push("decided by executing the real code on every element of the bounded space described in coverage.bounds; nothing is sampled".into());
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": seed,
            "level": "model_checking",
            "coverage": Value::Object(cov),
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": nviol,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    /// Prints the verdict and returns the exit code.
    pub fn finish(&self) -> i32 {
        self.done.store(true, Ordering::Relaxed);
        let v = self.viol.lock().unwrap().clone();
        let total = self.nviol.load(Ordering::Relaxed);
        self.evidence(total);
        let hits = self.known_hit.lock().unwrap().clone();
        let mut seen = BTreeSet::new();
        for f in &self.known {
            if let Some(n) = hits.get(&f.key)
                && seen.insert(f.key.clone())
            {
                println!("KNOWN-FINDING: property={} {} [{}; {} cases]", self.id, f.what, f.key, n);
            }
        }
        println!(
            "{} {:?}: states={} transitions={} traces={} wall={:.1}s",
            self.id,
            self.tier,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        if total > 0 {
            let p = self.write_replay(&v);
            for (k, d) in v.iter().take(15) {
                println!("  {k}: {d}");
            }
            if total as usize > 15 {
                println!("  ... {total} failing comparisons in all");
            }
            println!("VIOLATION property={} replay={}", self.id, p);
            1
        } else {
            0
        }
    }
}
