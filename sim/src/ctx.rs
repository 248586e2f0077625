//! What a run records: violations, event trace, fault and probe counters.
use crate::rng::{fnv, FNV0};
use std::collections::{BTreeMap, HashSet};
use std::hash::BuildHasherDefault;

#[derive(Debug, Clone)]
pub struct V {
    pub class: String,
    pub detail: String,
}

pub type R = Result<(), V>;

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => {
        return Err($crate::ctx::V { class: $class.into(), detail: format!($($a)*) })
    };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { $crate::fail!($class, $($a)*) }
    };
}

/// Identity hasher for sets of already-mixed u64.
#[derive(Default)]
pub struct IdHasher(u64);
impl std::hash::Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type Set64 = HashSet<u64, BuildHasherDefault<IdHasher>>;
pub const SET_CAP: usize = 4_000_000;

pub struct Ctx {
    /// Hash of the event log of this run.
    pub trace: u64,
    /// Hash of the schedule of this run.
    pub sched: u64,
    /// The event log itself, kept only when replaying.
    pub log: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// Oracle comparisons made.
    pub checks: u64,
    /// Operations on the library.
    pub ops: u64,
    pub sim_ms: u64,
    /// Abstract states reached (measure stated per world).
    pub states: Set64,
    /// Faults fired in this run.
    pub fired: u64,
    /// This run did meaningful work.
    pub nontrivial: bool,
    /// Never preempt inside a library call.
    pub call_granular: bool,
    /// Run what interrupts a call on another thread than the interrupted one.
    pub apart: bool,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            trace: FNV0,
            sched: FNV0,
            log: None,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            checks: 0,
            ops: 0,
            sim_ms: 0,
            states: Set64::default(),
            fired: 0,
            nontrivial: false,
            call_granular: false,
            apart: false,
        }
    }
    pub fn set_mode(&mut self, mode: u64) {
        self.apart = mode >= 1;
        self.call_granular = mode >= 2;
    }
    pub fn begin_run(&mut self) {
        self.trace = FNV0;
        self.sched = FNV0;
        self.fired = 0;
        self.nontrivial = false;
    }
    /// Records an event. `what` must not depend on addresses or time.
    pub fn ev(&mut self, tag: &str, data: &[u8]) {
        self.trace = fnv(fnv(self.trace, tag.as_bytes()), data);
        if let Some(l) = &mut self.log {
            l.push(format!("{tag} {}", show(data)));
        }
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.fired += 1;
        self.ev("fault", kind.as_bytes());
    }
    pub fn faults_n(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind).or_insert(0) += n;
            self.fired += n;
        }
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < SET_CAP {
            self.states.insert(crate::rng::mix(h));
        }
    }
}

/// Bytes for humans: escaped, long ones cut.
pub fn show(b: &[u8]) -> String {
    let cut = b.len().min(160);
    let mut s = b[..cut].escape_ascii().to_string();
    if cut < b.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    format!("\"{s}\"")
}
