//! Environment seams: libc functions interposed in this binary. Without an armed plan they only forward.

use std::cell::{Cell, RefCell};

thread_local! {
    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
    static SEED_USED: Cell<bool> = const { Cell::new(false) };
}

pub fn set_random_seed(s: Option<u64>) {
    SEED.with(|x| x.set(s));
    SEED_USED.with(|x| x.set(false));
}
pub fn random_seed_used() -> bool {
    SEED_USED.with(|x| x.get())
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if let Some(s) = SEED.with(|x| x.get()) {
        SEED_USED.with(|x| x.set(true));
        let mut h = s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678;
        for i in 0..len {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *(buf as *mut u8).add(i) = (h >> 33) as u8;
        }
        return len as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}

/// What the environment answers to the calls of one operation on one file. Deviations from the default
/// ("do what the kernel does") are listed explicitly.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// writes: accept only this many bytes in total, then fail with `errno`
    pub write_budget: Option<(u64, i32)>,
    /// the k-th write (0-based) fails with errno
    pub write_fail_at: Option<(u64, i32)>,
    /// the k-th write accepts at most this many bytes
    pub write_short_at: Option<(u64, usize)>,
    /// every write accepts at most this many bytes
    pub write_max: Option<usize>,
    /// every other write is interrupted (EINTR)
    pub write_eintr: bool,
    pub read_fail_at: Option<(u64, i32)>,
    /// the read that would start at or cross this offset is cut there, the next one fails
    pub read_fail_offset: Option<(u64, i32)>,
    pub read_short_at: Option<(u64, usize)>,
    pub read_max: Option<usize>,
    pub read_eintr: bool,
    /// reads are cut at this offset once
    pub read_cut: Option<u64>,
    /// opening fails
    pub open_fail: Option<i32>,
}

#[derive(Clone, Debug, Default)]
pub struct Log {
    pub writes: u64,
    pub written: u64,
    pub reads: u64,
    pub read: u64,
    pub opens: u64,
    /// deviations that took effect
    pub injected: u64,
    pub failed: u64,
    eintr_flip: bool,
}

thread_local! {
    static PLAN: RefCell<Option<(Plan, Log)>> = const { RefCell::new(None) };
}

pub fn arm(p: Plan) {
    PLAN.with(|x| *x.borrow_mut() = Some((p, Log::default())));
}
pub fn disarm() -> Log {
    PLAN.with(|x| x.borrow_mut().take()).expect("src/ not armed").1
}

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

enum Do {
    Pass(usize),
    Fail(i32),
}

fn on_write(fd: i32, len: usize) -> Do {
    if fd <= 2 {
        return Do::Pass(len);
    }
    PLAN.try_with(|x| {
        let mut b = match x.try_borrow_mut() {
            Ok(b) => b,
            Err(_) => return Do::Pass(len),
        };
        let (p, l) = match b.as_mut() {
            Some(x) => (&x.0, &mut x.1),
            None => return Do::Pass(len),
        };
        if p.write_eintr {
            l.eintr_flip = !l.eintr_flip;
            if l.eintr_flip {
                l.injected += 1;
                return Do::Fail(libc::EINTR);
            }
        }
        let k = l.writes;
        l.writes += 1;
        if let Some((at, e)) = p.write_fail_at {
            if at == k {
                l.injected += 1;
                l.failed += (e != libc::EINTR) as u64;
                return Do::Fail(e);
            }
        }
        let mut n = len;
        if let Some(m) = p.write_max {
            n = n.min(m);
        }
        if let Some((at, m)) = p.write_short_at {
            if at == k {
                n = n.min(m);
            }
        }
        if let Some((budget, e)) = p.write_budget {
            let rest = budget.saturating_sub(l.written);
            if rest == 0 && len > 0 {
                l.injected += 1;
                l.failed += 1;
                return Do::Fail(e);
            }
            n = n.min(rest as usize);
        }
        if n < len {
            l.injected += 1;
        }
        l.written += n as u64;
        Do::Pass(n)
    })
    .unwrap_or(Do::Pass(len))
}

fn on_read(fd: i32, len: usize) -> Do {
    if fd <= 2 {
        return Do::Pass(len);
    }
    PLAN.try_with(|x| {
        let mut b = match x.try_borrow_mut() {
            Ok(b) => b,
            Err(_) => return Do::Pass(len),
        };
        let (p, l) = match b.as_mut() {
            Some(x) => (&x.0, &mut x.1),
            None => return Do::Pass(len),
        };
        if p.read_eintr {
            l.eintr_flip = !l.eintr_flip;
            if l.eintr_flip {
                l.injected += 1;
                return Do::Fail(libc::EINTR);
            }
        }
        let k = l.reads;
        l.reads += 1;
        if let Some((at, e)) = p.read_fail_at {
            if at == k {
                l.injected += 1;
                l.failed += (e != libc::EINTR) as u64;
                return Do::Fail(e);
            }
        }
        let mut n = len;
        if let Some(m) = p.read_max {
            n = n.min(m);
        }
        if let Some((at, m)) = p.read_short_at {
            if at == k {
                n = n.min(m);
            }
        }
        if let Some(cut) = p.read_cut {
            if l.read < cut {
                n = n.min((cut - l.read) as usize);
            }
        }
        if let Some((off, e)) = p.read_fail_offset {
            if l.read >= off {
                l.injected += 1;
                l.failed += 1;
                return Do::Fail(e);
            }
            n = n.min((off - l.read) as usize);
        }
        if n < len {
            l.injected += 1;
        }
        Do::Pass(n)
    })
    .unwrap_or(Do::Pass(len))
}

fn did_read(fd: i32, n: isize) -> isize {
    if fd > 2 && n > 0 {
        let _ = PLAN.try_with(|x| {
            if let Ok(mut b) = x.try_borrow_mut() {
                if let Some((_, l)) = b.as_mut() {
                    l.read += n as u64;
                }
            }
        });
    }
    n
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
    match on_write(fd, len) {
        Do::Fail(e) => fail(e),
        Do::Pass(n) => libc::syscall(libc::SYS_write, fd, buf, n) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    let total: usize = (0..cnt).map(|i| (*iov.add(i as usize)).iov_len).sum();
    match on_write(fd, total) {
        Do::Fail(e) => fail(e),
        Do::Pass(n) if n == total => libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize,
        Do::Pass(mut n) => {
            // short: the first n bytes
            let mut v = vec![];
            for i in 0..cnt as usize {
                let x = *iov.add(i);
                let k = x.iov_len.min(n);
                v.push(libc::iovec { iov_base: x.iov_base, iov_len: k });
                n -= k;
            }
            libc::syscall(libc::SYS_writev, fd, v.as_ptr(), cnt) as isize
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const libc::c_void, len: usize, off: i64) -> isize {
    match on_write(fd, len) {
        Do::Fail(e) => fail(e),
        Do::Pass(n) => libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
    match on_read(fd, len) {
        Do::Fail(e) => fail(e),
        Do::Pass(n) => did_read(fd, libc::syscall(libc::SYS_read, fd, buf, n) as isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    let total: usize = (0..cnt).map(|i| (*iov.add(i as usize)).iov_len).sum();
    match on_read(fd, total) {
        Do::Fail(e) => fail(e),
        Do::Pass(mut n) => {
            let mut v = vec![];
            for i in 0..cnt as usize {
                let x = *iov.add(i);
                let k = x.iov_len.min(n);
                v.push(libc::iovec { iov_base: x.iov_base, iov_len: k });
                n -= k;
            }
            did_read(fd, libc::syscall(libc::SYS_readv, fd, v.as_ptr(), cnt) as isize)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut libc::c_void, len: usize, off: i64) -> isize {
    match on_read(fd, len) {
        Do::Fail(e) => fail(e),
        Do::Pass(n) => did_read(fd, libc::syscall(libc::SYS_pread64, fd, buf, n, off) as isize),
    }
}

/// copy_file_range, sendfile and mmap are not used by buffered readers and writers; a program that used them would
/// show up as "no write seen" (see the non-vacuity check of the fault spaces).
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    let e = PLAN
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut b) => match b.as_mut() {
                Some((p, l)) => {
                    l.opens += 1;
                    if p.open_fail.is_some() {
                        l.injected += 1;
                        l.failed += 1;
                    }
                    p.open_fail
                }
                None => None,
            },
            Err(_) => None,
        })
        .unwrap_or(None);
    match e {
        Some(e) => fail(e) as i32,
        None => libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode) as i32,
    }
}
