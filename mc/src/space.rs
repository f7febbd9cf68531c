//! The portable half of the explorer: spaces, counters, verdicts. Also compiled for 32-bit WebAssembly (see w32/).

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const OUTCOME_CAP: usize = 1 << 15;

/// Counters of one worker.
#[derive(Default)]
pub struct Ctx {
    /// distinct situations (input x configuration x query, or history prefix) in which the oracle was evaluated
    pub states: u64,
    /// calls into the library
    pub calls: u64,
    /// complete executions compared with the reference
    pub traces: u64,
    /// executions in which something interesting for the property happened (space specific)
    pub nontrivial: u64,
    pub outcomes: HashSet<u64>,
    pub notes: Vec<String>,
    /// sum over the cases, independent of their order: comparable between builds
    pub digest: u64,
}

impl Ctx {
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.states += o.states;
        self.calls += o.calls;
        self.traces += o.traces;
        self.nontrivial += o.nontrivial;
        for h in o.outcomes {
            if self.outcomes.len() < OUTCOME_CAP {
                self.outcomes.insert(h);
            }
        }
        self.notes.extend(o.notes);
        self.digest = self.digest.wrapping_add(o.digest);
    }
}

/// FNV-style mixing of observations
pub fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29)
}

pub type CaseResult = Result<(), String>;

pub trait Space: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    /// Executes case `i`. `Err` is a violation of the property. A panic of the library that is not caught
    /// here is a violation, too; a panic in harness code is an engine error.
    fn run(&self, i: u64, ctx: &mut Ctx) -> CaseResult;
    /// Human readable form of the case, as far as possible a stand-alone test.
    fn describe(&self, i: u64) -> String;
    /// Number of consecutive cases a worker takes at once
    fn chunk(&self) -> u64 {
        32
    }
    /// Seconds after which a single case is considered to hang
    fn case_timeout(&self) -> u64 {
        30
    }
    fn bounds(&self) -> String {
        String::new()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<(String, bool)> = RefCell::new((String::new(), false));
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or((String::from("?"), 0));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        // the harness crate is compiled with paths relative to its root
        let in_harness = loc.0.starts_with("src/");
        let _ = LAST_PANIC.try_with(|p| {
            *p.borrow_mut() = (format!("{} ({}:{})", msg, loc.0, loc.1), in_harness);
        });
    }));
}

/// Runs `f`; `Err(message)` if it panicked.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (m, h) = LAST_PANIC.with(|p| p.borrow().clone());
            if h {
                // harness bug: do not let it pass as a refusal of the library
                std::panic::resume_unwind(Box::new("harness"));
            }
            Err(m)
        }
    }
}

pub enum Verdict {
    Ok,
    Violation(String),
    Engine(String),
}

pub fn run_case(space: &dyn Space, i: u64, ctx: &mut Ctx) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| space.run(i, ctx))) {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(m)) => Verdict::Violation(m),
        Err(_) => {
            let (m, h) = LAST_PANIC.with(|p| p.borrow().clone());
            if h {
                Verdict::Engine(m)
            } else {
                Verdict::Violation(format!("unexpected panic: {}", m))
            }
        }
    }
}
