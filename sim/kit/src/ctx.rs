//! Per-run context: counters, state hashes, simulated time, event log, violations.
use crate::rng::mix64;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res<T> = Result<T, Viol>;

pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub sim_ms: u64,
    /// hash of the ordered events of the run: equal for two executions of the same run
    pub log: u64,
    pub events: u64,
    pub verbose: bool,
    pub checks: u64,
    pub nontrivial: u64,
    pub sample: Option<String>,
    /// known findings: class -> what; a matching violation is counted and the run goes on
    pub known: Vec<(String, String)>,
    pub known_hit: BTreeMap<String, u64>,
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix64(h ^ u64::from_le_bytes(x));
    }
    h
}
pub fn hex(b: &[u8]) -> String {
    if b.len() > 80 {
        return format!("{}..({} bytes)", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
impl Ctx {
    pub fn new(verbose: bool) -> Self {
        Ctx {
            counts: BTreeMap::new(),
            states: BTreeSet::new(),
            sim_ms: 0,
            log: 0,
            events: 0,
            verbose,
            checks: 0,
            nontrivial: 0,
            sample: None,
            known: vec![],
            known_hit: BTreeMap::new(),
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    /// A fault that actually fired.
    pub fn fault(&mut self, k: &str) {
        self.count(&format!("fault.{}", k))
    }
    pub fn probe(&mut self, k: &str) {
        self.count(&format!("probe.{}", k))
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4096 {
            self.states.insert(h);
        }
    }
    /// Event log entry. Never draws randomness or reads a clock.
    pub fn ev(&mut self, what: &str, data: &[u8]) {
        self.events += 1;
        self.log = mix64(self.log ^ hash_bytes(what.as_bytes()) ^ hash_bytes(data).rotate_left(1));
        if self.verbose {
            crate::seams::say(&format!("  [{:>6} ms] {} {}\n", self.sim_ms, what, hex(data)));
        }
    }
    pub fn fail<T>(&mut self, class: &str, msg: String) -> Res<T> {
        Err(Viol { class: class.to_string(), msg })
    }
    /// A check: counts, and reports a violation of the given class unless it is a listed known finding.
    pub fn check(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> Res<()> {
        self.checks += 1;
        if ok {
            return Ok(());
        }
        let m = msg();
        if let Some((c, _)) = self.known.iter().find(|(c, _)| c == class) {
            *self.known_hit.entry(c.clone()).or_insert(0) += 1;
            return Ok(());
        }
        Err(Viol { class: class.to_string(), msg: m })
    }
    pub fn eq(&mut self, got: &[u8], want: &[u8], class: &str, what: &str) -> Res<()> {
        self.check(got == want, class, || format!("{}: got {} want {}", what, hex(got), hex(want)))
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Silences panics and remembers their message and location.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc)
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(last_panic()),
    }
}
