//! Case context: guarded execution of monitored calls, journal, coverage record.
use crate::support::*;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

pub enum Stop {
    /// The property is violated; the text is the witness.
    Viol(String),
    /// The case could not be decided (something outside the property failed).
    Inconcl(String),
}
pub type Res<T = ()> = Result<T, Stop>;

pub static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = if p.is::<Injected>() { "injected".to_string() } else if p.is::<OverBudget>() { "work budget exceeded".to_string() }
            else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() { *g = format!("{} at {}", m, l); }
    }));
}
pub fn last_panic() -> String { PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone() }

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub inconclusive: u64,
    pub inconcl_msg: String,
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Cx {
    pub prop: String,
    pub tier: String,
    pub case: u64,
    pub rng: Rng,
    pub rep: Report,
    pub journal: Option<std::fs::File>,
    /// What the current case is doing, for witnesses.
    pub trace: Vec<String>,
    pub verbose: bool,
}

pub enum Fail { Panic(String), Budget, Injected }

impl Cx {
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.trace.len() < 4000 { let s = s(); if self.verbose { eprintln!("  {}", s); } self.trace.push(s); }
    }
    pub fn count(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) { if let Some(x) = self.rep.counters.get_mut(k) { *x += n; } else { self.rep.counters.insert(k.to_string(), n); } }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.rep.counters.entry(k.to_string()).or_insert(0); *e = (*e).max(n); }
    pub fn sig(&mut self, s: u64) { self.rep.sigs.insert(s); }
    pub fn jot(&mut self, phase: u8) {
        if cfg!(miri) { return; }
        if let Some(f) = &self.journal {
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 9];
            b[..8].copy_from_slice(&self.case.to_le_bytes());
            b[8] = phase;
            let _ = f.write_at(&b, 0);
        }
    }
    /// Runs a monitored call under a logical work budget and an allocation budget.
    pub fn run<T>(&mut self, phase: u8, steps: u64, bytes: i64, f: impl FnOnce() -> T) -> Result<T, Fail> {
        self.jot(phase);
        STEP_LIMIT.store(STEPS.load(Relaxed) + steps, Relaxed);
        if !cfg!(miri) { ALLOC_CAP.store(ALLOC_BYTES.load(Relaxed) + bytes, Relaxed); }
        let r = catch_unwind(AssertUnwindSafe(f));
        STEP_LIMIT.store(u64::MAX, Relaxed);
        ALLOC_CAP.store(i64::MAX, Relaxed);
        self.jot(b'-');
        r.map_err(|p| if p.is::<OverBudget>() { Fail::Budget } else if p.is::<Injected>() { Fail::Injected } else { Fail::Panic(last_panic()) })
    }
    /// A call whose completion is part of the property.
    pub fn target<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        self.run(b'T', STEP_BUDGET, BYTE_BUDGET, f).map_err(|e| match e {
            Fail::Panic(m) => Stop::Viol(format!("{} panicked: {}", what, m)),
            Fail::Budget => Stop::Viol(format!("{} did not complete within {} calls into user code", what, STEP_BUDGET)),
            Fail::Injected => Stop::Inconcl("stray injection".into()),
        })
    }
    /// A call that only prepares or whose completion another property decides.
    pub fn prep<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        self.run(b'P', STEP_BUDGET, BYTE_BUDGET, f).map_err(|e| Stop::Inconcl(format!("{}: {}", what, match e { Fail::Panic(m) => m, Fail::Budget => "work budget".into(), Fail::Injected => "stray injection".into() })))
    }
    pub fn viol<T>(&self, m: String) -> Res<T> { Err(Stop::Viol(m)) }
}
pub const STEP_BUDGET: u64 = 20_000_000;
pub const BYTE_BUDGET: i64 = 1_500_000_000;
