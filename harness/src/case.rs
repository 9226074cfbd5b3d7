//! Case context: what a workload uses to draw inputs, to record what was
//! observed, and to report a violation.
use crate::rng::{hash_bytes, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub workload: String,
    pub idx: u64,
}

#[derive(Default, serde::Serialize, serde::Deserialize)]
pub struct Stats {
    pub evaluations: u64,
    pub cases: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub workload: &'static str,
    pub thorough: bool,
    pub stats: &'a mut Stats,
    pub distinct: &'a mut HashSet<u64>,
    nviol: usize,
}

impl<'a> Case<'a> {
    pub fn new(
        rng: Rng,
        idx: u64,
        workload: &'static str,
        thorough: bool,
        stats: &'a mut Stats,
        distinct: &'a mut HashSet<u64>,
    ) -> Self {
        Case { rng, idx, workload, thorough, stats, distinct, nviol: 0 }
    }
    /// One oracle decision was taken.
    pub fn eval(&mut self) {
        self.stats.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.stats.evaluations += n;
    }
    /// Something worth counting was observed.
    pub fn obs(&mut self, what: &str) {
        match self.stats.counters.get_mut(what) {
            Some(c) => *c += 1,
            None => {
                self.stats.counters.insert(what.to_string(), 1);
            }
        }
    }
    pub fn obs_n(&mut self, what: &str, n: u64) {
        *self.stats.counters.entry(what.to_string()).or_insert(0) += n;
    }
    /// Registers a non-trivial case by its content.
    pub fn nontrivial(&mut self, content: &[u8]) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash_bytes(content));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.stats.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.stats.samples.push(format!("[{} #{}] {}", self.workload, self.idx, s));
        }
    }
    pub fn viol(&mut self, key: &str, msg: impl Into<String>) {
        self.nviol += 1;
        if self.nviol > 3 {
            return;
        }
        let mut msg: String = msg.into();
        if msg.len() > 4000 {
            let mut n = 4000;
            while !msg.is_char_boundary(n) {
                n -= 1;
            }
            msg.truncate(n);
        }
        // a cap per key, so that a known finding cannot crowd out anything else
        if self.stats.violations.iter().filter(|v| v.key == key).count() < 25 {
            self.stats.violations.push(Violation {
                key: key.to_string(),
                msg,
                workload: self.workload.to_string(),
                idx: self.idx,
            });
        }
        self.obs("violations_raised");
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        self.stats.evaluations += 1;
        if !ok {
            self.viol(key, msg());
        }
        ok
    }
    /// Runs an operation of the code under test; a panic is reported as a
    /// violation with the given key and `None` is returned.
    pub fn guard<R>(&mut self, op: &str, f: impl FnOnce() -> R) -> Option<R> {
        match quiet_catch(f) {
            Ok(r) => Some(r),
            Err(p) => {
                if p.in_harness() {
                    self.viol(&format!("step:{op}"), format!("a step that has to succeed did not: {}", p.text));
                } else {
                    self.viol(&format!("panic:{op}"), format!("operation {op} panicked: {}", p.text));
                }
                None
            }
        }
    }
}

pub struct PanicInfo {
    pub text: String,
    pub file: String,
}
impl PanicInfo {
    pub fn in_harness(&self) -> bool {
        // harness sources are compiled with paths relative to the harness crate
        self.file.starts_with("src/") || self.file.contains("/verif/harness/")
    }
}

thread_local! {
    static LAST: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST.with(|l| {
            *l.borrow_mut() = Some((format!("{} at {}:{}", msg, loc.0, loc.1), loc.0));
        });
    }));
}

pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (text, file) = LAST
                .with(|l| l.borrow_mut().take())
                .unwrap_or(("unknown panic".into(), "".into()));
            Err(PanicInfo { text, file })
        }
    }
}
