//! Per-run context: event log (hashed, optionally kept), fault and coverage counters, and
//! the first violation found.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// Stable name of what failed (used to match known findings and while minimising).
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub known: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub digest: u64,
    pub state: u64,
    pub nontrivial: bool,
    pub sim_secs: u64,
    pub checks: u64,
    pub events: u64,
    pub switches: u64,
    pub schedules: u64,
    pub trace: Vec<String>,
    pub error: Option<String>,
}

pub struct Ctx {
    pub out: Outcome,
    pub keep_trace: bool,
    pub known: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let loc = loc.rsplit_once("/build/").map(|x| x.1.to_string()).unwrap_or(loc);
        crate::sched::quiet(|| LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    pub fn new(keep_trace: bool, known: Vec<String>) -> Self {
        Ctx { out: Outcome { digest: 0xD16E57, ..Default::default() }, keep_trace, known }
    }
    pub fn log(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.out.digest = crate::rng::key(&[self.out.digest, crate::rng::fnv(s.as_bytes())]);
        self.out.events += 1;
        if self.keep_trace {
            self.out.trace.push(s.to_string());
        }
    }
    pub fn fault(&mut self, kind: &str) {
        *self.out.faults.entry(kind.to_string()).or_default() += 1;
        self.out.nontrivial = true;
    }
    pub fn probe(&mut self, name: &str) {
        *self.out.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn probe_n(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.out.probes.entry(name.to_string()).or_default() += n;
        }
    }
    /// Folds a coarse description of what the run reached into its state signature.
    pub fn reach(&mut self, s: impl AsRef<str>) {
        self.out.state = crate::rng::key(&[self.out.state, crate::rng::fnv(s.as_ref().as_bytes())]);
    }
    pub fn checked(&mut self) {
        self.out.checks += 1;
    }
    pub fn violate(&mut self, sig: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.known.iter().any(|k| k == sig) {
            *self.out.known.entry(sig.to_string()).or_default() += 1;
            self.log(format!("known finding {sig}"));
            return;
        }
        self.log(format!("VIOLATION {sig}: {msg}"));
        if self.out.violation.is_none() {
            self.out.violation = Some(Violation { sig: sig.to_string(), msg });
        }
    }
    pub fn failed(&self) -> bool {
        self.out.violation.is_some()
    }
    pub fn sched(&mut self, st: crate::sched::SchedStats) {
        self.out.switches += st.switches;
        self.out.schedules += 1;
        self.out.digest = crate::rng::key(&[self.out.digest, st.trace, st.allocs]);
        if self.keep_trace {
            self.out.trace.push(format!("schedule: {} switches over {} allocation points, trace {:016x}", st.switches, st.allocs, st.trace));
        }
    }
}
