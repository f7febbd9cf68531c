//! Exhaustive explorer over index-addressed spaces of executions.
//!
//! A `Space` is a finite set of executions of the real library with a bijection from `0..len()`.
//! Every index is executed exactly once, in one of several worker processes. The index a worker is busy with is
//! kept in a shared mapping, so that the supervisor knows the suspects when the process dies or hangs.

pub use crate::space::*;
use std::collections::HashSet;
use std::fs::OpenOptions;
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// Shared mapping: per worker three u64: space index + 1 (0 = idle), case index, start time (ms since epoch)
pub struct Slots {
    ptr: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn open(path: &str, workers: usize) -> Slots {
        let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slots file");
        let len = workers * 24;
        f.set_len(len as u64).expect("slots file");
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Slots { ptr: ptr as *mut u64 }
    }
    pub fn set(&self, w: usize, space: u64, case: u64, now: u64) {
        unsafe {
            let a = |k: usize| &*(self.ptr.add(w * 3 + k) as *const AtomicU64);
            a(1).store(case, Ordering::Relaxed);
            a(2).store(now, Ordering::Relaxed);
            a(0).store(space, Ordering::Release);
        }
    }
}

pub struct Found {
    pub space: usize,
    pub case: u64,
    pub message: String,
}

pub struct SpaceReport {
    pub name: String,
    pub bounds: String,
    pub len: u64,
    pub done: u64,
    pub complete: bool,
    pub wall_s: f64,
    pub ctx: Ctx,
}

pub struct Outcome {
    pub reports: Vec<SpaceReport>,
    pub violation: Option<Found>,
    pub known: Vec<String>,
    pub engine_error: Option<String>,
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}

/// Words shared by all worker processes
pub struct Shared {
    ptr: *mut u64,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

const STOP: usize = 0;
const LOCK: usize = 1;
/// two words for the use of a space that needs agreement between the workers
pub const USER: usize = 2;
const HEAD: usize = 8;
const PER_SPACE: usize = 6;

impl Shared {
    fn new(spaces: usize) -> Shared {
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                (HEAD + spaces * PER_SPACE) * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Shared { ptr: ptr as *mut u64 }
    }
    pub fn word(&self, k: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(k) as *const AtomicU64) }
    }
    fn of(&self, space: usize, k: usize) -> &AtomicU64 {
        self.word(HEAD + space * PER_SPACE + k)
    }
    /// runs `f` while no other worker is inside `exclusive`
    pub fn exclusive<T>(&self, f: impl FnOnce(&Shared) -> T) -> T {
        while self.word(LOCK).compare_exchange(0, 1, Ordering::AcqRel, Ordering::Relaxed).is_err() {
            std::thread::sleep(Duration::from_millis(5));
        }
        let r = f(self);
        self.word(LOCK).store(0, Ordering::Release);
        r
    }
}

pub static SHARED: OnceLock<Shared> = OnceLock::new();

pub fn shared() -> &'static Shared {
    SHARED.get_or_init(|| Shared::new(0))
}

/// number of this worker process
pub static WORKER: AtomicU64 = AtomicU64::new(0);

struct Findings {
    found: Option<(usize, u64, String)>,
    known: Vec<String>,
    engine: Option<String>,
}

/// the cases of one space which fall to this worker
#[allow(clippy::too_many_arguments)]
fn work(
    space: &dyn Space,
    si: usize,
    w: usize,
    slots: &Slots,
    t0: Instant,
    cap: Duration,
    known: &HashSet<String>,
    fs: &mut Findings,
) -> Ctx {
    let mut ctx = Ctx::default();
    let sh = shared();
    let len = space.len();
    let chunk = space.chunk().max(1);
    let sname = space.name();
    let mut mine = 0;
    let _ = sh.of(si, 1).compare_exchange(0, now_ms(), Ordering::Relaxed, Ordering::Relaxed);
    'outer: loop {
        let begin = sh.of(si, 0).fetch_add(chunk, Ordering::Relaxed);
        if begin >= len || t0.elapsed() > cap {
            break;
        }
        let end = (begin + chunk).min(len);
        let now = now_ms();
        for i in begin..end {
            if sh.word(STOP).load(Ordering::Relaxed) != 0 {
                break 'outer;
            }
            slots.set(w, si as u64 + 1, i, if chunk == 1 { now_ms() } else { now });
            match run_case(space, i, &mut ctx) {
                Verdict::Ok => mine += 1,
                Verdict::Violation(m) => {
                    let key = format!("{}#{}", sname, i);
                    if known.contains(&key) {
                        fs.known.push(format!("{} {}", key, m));
                        mine += 1;
                        continue;
                    }
                    fs.found = Some((si, i, m));
                    sh.word(STOP).store(1, Ordering::Relaxed);
                    break 'outer;
                }
                Verdict::Engine(m) => {
                    fs.engine = Some(format!("{}#{}: {}", sname, i, m));
                    sh.word(STOP).store(1, Ordering::Relaxed);
                    break 'outer;
                }
            }
        }
    }
    slots.set(w, 0, 0, 0);
    sh.of(si, 2).fetch_add(mine, Ordering::Relaxed);
    sh.of(si, 3).fetch_max(now_ms(), Ordering::Relaxed);
    ctx
}

fn put_u64(f: &mut Vec<u8>, x: u64) {
    f.extend(x.to_le_bytes());
}
fn put_str(f: &mut Vec<u8>, s: &str) {
    put_u64(f, s.len() as u64);
    f.extend(s.as_bytes());
}
struct Reader(Vec<u8>, usize);
impl Reader {
    fn u64(&mut self) -> u64 {
        self.1 += 8;
        u64::from_le_bytes(self.0[self.1 - 8..self.1].try_into().unwrap())
    }
    fn str(&mut self) -> String {
        let n = self.u64() as usize;
        self.1 += n;
        String::from_utf8_lossy(&self.0[self.1 - n..self.1]).into_owned()
    }
}

/// A worker: a process of its own, so that no state of the library is shared with the other workers. Every
/// space gets a fresh thread of default stack size (2 MiB), like any thread a user spawns.
#[allow(clippy::too_many_arguments)]
fn worker(
    spaces: &[Box<dyn Space>],
    w: usize,
    slots: &Slots,
    t0: Instant,
    cap: Duration,
    known: &HashSet<String>,
    file: &str,
) -> i32 {
    WORKER.store(w as u64, Ordering::Relaxed);
    let mut fs = Findings { found: None, known: vec![], engine: None };
    let mut out: Vec<u8> = vec![];
    for (si, space) in spaces.iter().enumerate() {
        let ctx =
            std::thread::scope(|s| s.spawn(|| work(&**space, si, w, slots, t0, cap, known, &mut fs)).join().unwrap());
        for x in [ctx.states, ctx.calls, ctx.traces, ctx.nontrivial, ctx.digest, ctx.outcomes.len() as u64] {
            put_u64(&mut out, x);
        }
        for h in &ctx.outcomes {
            put_u64(&mut out, *h);
        }
        put_u64(&mut out, ctx.notes.len() as u64);
        for n in &ctx.notes {
            put_str(&mut out, n);
        }
    }
    put_u64(&mut out, fs.known.len() as u64);
    for k in &fs.known {
        put_str(&mut out, k);
    }
    let (s, i, m) = fs.found.unwrap_or((usize::MAX, 0, String::new()));
    put_u64(&mut out, s as u64);
    put_u64(&mut out, i);
    put_str(&mut out, &m);
    put_str(&mut out, &fs.engine.unwrap_or_default());
    match std::fs::write(file, &out) {
        Ok(()) => 0,
        Err(_) => 9,
    }
}

/// Executes all spaces. If a worker died, its status: then the slots name the case it was busy with.
pub fn explore(
    spaces: &[Box<dyn Space>],
    workers: usize,
    slots: &Slots,
    cap: Duration,
    known: &HashSet<String>,
    scratch: &str,
) -> Result<Outcome, i32> {
    let t0 = Instant::now();
    let _ = SHARED.set(Shared::new(spaces.len()));
    let file = |w: usize| format!("{}/result.{}", scratch, w);
    let mut pids = vec![];
    for w in 0..workers {
        let _ = std::fs::remove_file(file(w));
        // this process has a single thread so far
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let code = worker(spaces, w, slots, t0, cap, known, &file(w));
            unsafe { libc::_exit(code) };
        }
        pids.push(pid);
    }
    for _ in 0..workers {
        let mut status = 0;
        let pid = unsafe { libc::waitpid(-1, &mut status, 0) };
        let w = pids.iter().position(|p| *p == pid).expect("src/ a worker");
        pids[w] = 0;
        if status != 0 {
            for (v, p) in pids.iter().enumerate() {
                if *p > 0 {
                    unsafe { libc::kill(*p, libc::SIGKILL) };
                    unsafe { libc::waitpid(*p, &mut 0, 0) };
                    slots.set(v, 0, 0, 0);
                }
            }
            eprintln!("worker {} ended with status {:#x}", w, status);
            return Err(status);
        }
    }
    let mut out = Outcome { reports: vec![], violation: None, known: vec![], engine_error: None };
    let sh = shared();
    for (si, space) in spaces.iter().enumerate() {
        let at = |k: usize| sh.of(si, k).load(Ordering::Relaxed);
        out.reports.push(SpaceReport {
            name: space.name(),
            bounds: space.bounds(),
            len: space.len(),
            done: at(2),
            complete: at(2) == space.len(),
            wall_s: at(3).saturating_sub(at(1)) as f64 / 1000.0,
            ctx: Ctx::default(),
        });
    }
    for w in 0..workers {
        let mut r = Reader(std::fs::read(file(w)).expect("src/ result"), 0);
        let _ = std::fs::remove_file(file(w));
        for rep in out.reports.iter_mut() {
            let mut c = Ctx {
                states: r.u64(),
                calls: r.u64(),
                traces: r.u64(),
                nontrivial: r.u64(),
                digest: r.u64(),
                ..Ctx::default()
            };
            for _ in 0..r.u64() {
                c.outcomes.insert(r.u64());
            }
            for _ in 0..r.u64() {
                c.notes.push(r.str());
            }
            rep.ctx.merge(c);
        }
        for _ in 0..r.u64() {
            out.known.push(r.str());
        }
        let (space, case, message) = (r.u64() as usize, r.u64(), r.str());
        if space != usize::MAX && out.violation.as_ref().map_or(true, |f| (space, case) < (f.space, f.case)) {
            out.violation = Some(Found { space, case, message });
        }
        let e = r.str();
        if !e.is_empty() {
            out.engine_error = Some(e);
        }
    }
    Ok(out)
}
