//! Runs controlled executions in forked children and enumerates the schedules.

use crate::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const CONFLICTS: usize = 4096;
pub const TRACE: usize = 1 << 16;

#[repr(C)]
pub struct Shared {
    pub n_dev: u32,
    pub dev_step: [u32; 8],
    pub dev_thread: [u32; 8],
    pub n_conf: u32,
    pub every: u64,
    pub conf: [u64; CONFLICTS],
    pub steps: u32,
    pub deadlock: u32,
    pub runaway: u32,
    pub freed: u32,
    pub n_new: u32,
    pub overflow: u32,
    pub accesses: u64,
    pub fresh: [u64; CONFLICTS],
    pub cur: [u8; TRACE],
    pub enabled: [u8; TRACE],
    pub chosen: [u8; TRACE],
    pub free_choice: [u8; TRACE],
}

pub const TEXT: usize = 1 << 20;

pub struct Engine {
    shared: *mut Shared,
    /// length (8 bytes) and text of the observations
    text: *mut u8,
}

/// (step, thread)
pub type Dev = (u32, u32);

pub enum End {
    Finished,
    Deadlock,
    Runaway,
    Died(i32),
    Hangs,
}

pub struct RunResult {
    pub end: End,
    pub text: String,
    pub points: u32,
    pub accesses: u64,
    pub fresh: Vec<u64>,
    pub overflow: bool,
    pub freed: bool,
    /// (current thread or 255, enabled, chosen, current could not go on)
    pub trace: Vec<(u8, u8, u8, bool)>,
}

fn map(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

impl Engine {
    pub fn new() -> Engine {
        Engine {
            shared: map(std::mem::size_of::<Shared>()) as *mut Shared,
            text: map(TEXT),
        }
    }

    /// Runs `f` in a forked child and returns what it says
    pub fn child(&self, f: &dyn Fn() -> String) -> (End, String) {
        unsafe {
            std::ptr::write_volatile(self.text as *mut u64, 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                let r = catch_unwind(AssertUnwindSafe(f));
                let code = match r {
                    Ok(s) => {
                        let n = s.len().min(TEXT - 8);
                        std::ptr::copy_nonoverlapping(s.as_ptr(), self.text.add(8), n);
                        std::ptr::write_volatile(self.text as *mut u64, n as u64);
                        0
                    }
                    Err(_) => 76,
                };
                libc::_exit(code);
            }
            let mut status = 0;
            let t0 = std::time::Instant::now();
            let mut naps = 0u32;
            loop {
                let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
                if r == pid {
                    break;
                }
                naps += 1;
                libc::usleep(if naps < 200 { 50 } else { 2000 });
                if t0.elapsed().as_secs() > 60 {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut status, 0);
                    return (End::Hangs, String::new());
                }
            }
            let n = std::ptr::read_volatile(self.text as *mut u64) as usize;
            let t = String::from_utf8_lossy(std::slice::from_raw_parts(self.text.add(8), n)).into_owned();
            let end = if libc::WIFEXITED(status) {
                match libc::WEXITSTATUS(status) {
                    0 => End::Finished,
                    77 => End::Runaway,
                    78 => End::Deadlock,
                    x => End::Died(x),
                }
            } else {
                End::Died(-libc::WTERMSIG(status))
            };
            (end, t)
        }
    }

    /// One controlled execution of the thread bodies; `finish` observes the state afterwards.
    pub fn run(
        &self,
        threads: &[&(dyn Fn() -> String + Sync)],
        finish: &dyn Fn() -> String,
        conflicts: &BTreeSet<u64>,
        devs: &[Dev],
        every: u64,
    ) -> RunResult {
        let sh = unsafe { &mut *self.shared };
        sh.n_dev = devs.len() as u32;
        for (k, d) in devs.iter().enumerate() {
            sh.dev_step[k] = d.0;
            sh.dev_thread[k] = d.1;
        }
        sh.every = every;
        sh.n_conf = conflicts.len().min(CONFLICTS) as u32;
        for (k, g) in conflicts.iter().take(CONFLICTS).enumerate() {
            sh.conf[k] = *g;
        }
        sh.steps = 0;
        sh.deadlock = 0;
        sh.runaway = 0;
        sh.freed = 0;
        sh.n_new = 0;
        sh.overflow = 0;
        sh.accesses = 0;
        let ptr = self.shared as usize;
        let (end, text) = self.child(&|| {
            let n = threads.len();
            unsafe { rt_setup(ptr as *mut Shared, n as i32) };
            let mut results: Vec<String> = (0..n).map(|_| String::new()).collect();
            std::thread::scope(|sc| {
                for (t, r) in results.iter_mut().enumerate() {
                    let f: &(dyn Fn() -> String + Sync) = threads[t];
                    sc.spawn(move || {
                        unsafe { rt_enter(t as i32) };
                        let x = catch_unwind(AssertUnwindSafe(f));
                        unsafe { rt_exit() };
                        *r = x.unwrap_or_else(|p| {
                            format!(
                                "PANIC {}",
                                p.downcast_ref::<&str>()
                                    .map(|s| s.to_string())
                                    .or(p.downcast_ref::<String>().cloned())
                                    .unwrap_or_default()
                            )
                        });
                    });
                }
                unsafe { rt_run() };
            });
            let mut out = String::new();
            for r in &results {
                out += r;
                out += "\u{1}";
            }
            out += &finish();
            out
        });
        let sh = unsafe { &*self.shared };
        let n = (sh.steps as usize).min(TRACE);
        RunResult {
            end,
            text,
            points: sh.steps,
            accesses: sh.accesses,
            fresh: sh.fresh[..(sh.n_new as usize).min(CONFLICTS)].to_vec(),
            overflow: sh.overflow != 0,
            freed: sh.freed != 0,
            trace: (0..n)
                .map(|k| (sh.cur[k], sh.enabled[k], sh.chosen[k], sh.free_choice[k] != 0))
                .collect(),
        }
    }
}

pub struct Explored {
    pub schedules: u64,
    pub points: u64,
    pub accesses: u64,
    pub conflicts: usize,
    pub complete: bool,
    pub max_preemptions: usize,
    pub freed: bool,
    pub violation: Option<String>,
}

/// All schedules with up to `bound` preemptions at accesses in conflict (breadth first by their number), and
/// all orders at points where the running thread cannot go on. Without conflicts, all interleavings are
/// equivalent to the serial executions.
pub fn explore(
    e: &Engine,
    threads: &[&(dyn Fn() -> String + Sync)],
    finish: &dyn Fn() -> String,
    want: &str,
    bound: usize,
    limit: u64,
    every: u64,
) -> Explored {
    let mut r = Explored {
        schedules: 0,
        points: 0,
        accesses: 0,
        conflicts: 0,
        complete: true,
        max_preemptions: 0,
        freed: false,
        violation: None,
    };
    let mut conflicts: BTreeSet<u64> = BTreeSet::new();
    let mut restarts = 0;
    'restart: loop {
        // schedules by number of preemptions
        let mut levels: Vec<Vec<Vec<Dev>>> = vec![vec![]; bound + 2];
        levels[0].push(vec![]);
        let mut b = 0;
        while b <= bound {
            let devs = match levels[b].pop() {
                Some(d) => d,
                None => {
                    b += 1;
                    continue;
                }
            };
            if r.schedules >= limit {
                r.complete = false;
                break 'restart;
            }
            let x = e.run(threads, finish, &conflicts, &devs, every);
            r.schedules += 1;
            r.points += x.points as u64;
            r.accesses += x.accesses;
            r.max_preemptions = r.max_preemptions.max(b);
            let bad = match x.end {
                End::Finished if x.text == want => None,
                End::Finished => Some(difference(&x.text, want)),
                End::Deadlock => Some("deadlock: every thread waits".to_string()),
                End::Runaway => Some("the threads do not finish within 20 million scheduling points".into()),
                End::Hangs => Some("the threads do not finish within 60 s".into()),
                End::Died(c) => Some(format!("the process dies (status {}, negative: signal)", c)),
            };
            if let Some(m) = bad {
                let sched: Vec<String> = compress(&x.trace);
                r.violation = Some(format!(
                    "{}\nschedule (deviations from running each thread as long as possible, as (scheduling point, thread)): {:?}\nthreads in the order they ran: {}",
                    m,
                    devs,
                    sched.join(" ")
                ));
                r.conflicts = conflicts.len();
                return r;
            }
            if x.freed {
                r.freed = true;
                r.complete = false;
            }
            if x.overflow {
                r.complete = false;
            }
            let before = conflicts.len();
            if conflicts.len() < CONFLICTS {
                conflicts.extend(x.fresh.iter());
            } else if x.fresh.iter().any(|g| !conflicts.contains(g)) {
                r.complete = false;
            }
            if conflicts.len() > before {
                restarts += 1;
                if restarts < 60 {
                    continue 'restart;
                }
                r.complete = false;
            }
            let from = devs.last().map_or(0, |d| d.0 + 1);
            for (step, (cur, enabled, chosen, free)) in x.trace.iter().enumerate() {
                if (step as u32) < from || devs.len() >= 8 {
                    continue;
                }
                for t in 0..threads.len() as u8 {
                    if enabled >> t & 1 == 0 || t == *chosen {
                        continue;
                    }
                    let cost = if *free || *cur == 255 { 0 } else { 1 };
                    let mut d = devs.clone();
                    d.push((step as u32, t as u32));
                    if b + cost <= bound {
                        levels[b + cost].push(d);
                    }
                }
            }
            if x.points as usize > TRACE {
                r.complete = false;
            }
        }
        break;
    }
    r.conflicts = conflicts.len();
    r
}

fn compress(trace: &[(u8, u8, u8, bool)]) -> Vec<String> {
    let mut v: Vec<(u8, u32)> = vec![];
    for (_, _, c, _) in trace {
        match v.last_mut() {
            Some(l) if l.0 == *c => l.1 += 1,
            _ => v.push((*c, 1)),
        }
    }
    v.truncate(200);
    v.iter().map(|(t, k)| format!("T{}x{}", t, k)).collect()
}

fn difference(got: &str, want: &str) -> String {
    let a: Vec<&str> = got.split('\u{1}').collect();
    let b: Vec<&str> = want.split('\u{1}').collect();
    for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if x != y {
            let who = if k + 1 == b.len() { "the shared graphs afterwards".to_string() } else { format!("thread {}", k) };
            let cut = |s: &str| s.chars().take(600).collect::<String>();
            return format!("{}: {}\nalone:    {}", who, cut(x), cut(y));
        }
    }
    format!("{} observations instead of {}", a.len(), b.len())
}
