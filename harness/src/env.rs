//! The simulated environment: clock, entropy, blocking and yielding.
//!
//! The C library entry points through which the Rust standard library and
//! the crates used by ftml reach the kernel are defined here, so that they
//! are resolved to these at link time. While the simulation is active for
//! the calling thread's process they are answered by the simulator, and
//! passed on to the kernel otherwise.

use crate::sched;
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CLOCK_S: AtomicI64 = AtomicI64::new(0);
static CLOCK_NS: AtomicI64 = AtomicI64::new(0);
static CLOCK_DRIFT: AtomicI64 = AtomicI64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static ENTROPY_MODE: AtomicU64 = AtomicU64::new(0);
static ENTROPY_FAULT: AtomicU64 = AtomicU64::new(0);

pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_EINTR: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_SHORT: AtomicU64 = AtomicU64::new(0);
pub static SLEPT_NS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// Set while harness code (rather than the code under test) is running.
    pub static IN_HARNESS: Cell<bool> = const { Cell::new(true) };
}

pub fn activate() {
    ACTIVE.store(true, SeqCst);
}

pub fn active() -> bool {
    ACTIVE.load(SeqCst)
}

/// Sets the simulated clock, and how far each reading moves it.
pub fn set_clock(secs: i64, nanos: i64, drift_ns: i64) {
    CLOCK_S.store(secs, SeqCst);
    CLOCK_NS.store(nanos, SeqCst);
    CLOCK_DRIFT.store(drift_ns, SeqCst);
}

pub fn clock() -> (i64, i64) {
    (CLOCK_S.load(SeqCst), CLOCK_NS.load(SeqCst))
}

pub fn advance(ns: i64) {
    let total = CLOCK_NS.load(SeqCst) as i128
        + i128::from(ns)
        + i128::from(CLOCK_S.load(SeqCst)) * 1_000_000_000;
    CLOCK_S.store(total.div_euclid(1_000_000_000) as i64, SeqCst);
    CLOCK_NS.store(total.rem_euclid(1_000_000_000) as i64, SeqCst);
}

/// mode 0: pseudo-random, 1: zeros, 2: ones, 3: a repeating byte.
/// fault 0: none, otherwise one in `fault` requests is interrupted or short.
pub fn set_entropy(seed: u64, mode: u64, fault: u64) {
    ENTROPY.store(seed, SeqCst);
    ENTROPY_MODE.store(mode, SeqCst);
    ENTROPY_FAULT.store(fault, SeqCst);
}

fn next_entropy() -> u64 {
    let s = ENTROPY.load(SeqCst).wrapping_add(0x9E37_79B9_7F4A_7C15);
    ENTROPY.store(s, SeqCst);
    crate::rng::mix(s)
}

pub unsafe fn raw_syscall(
    n: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    ret
}

unsafe fn finish(ret: isize) -> isize {
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = -ret as i32;
        -1
    } else {
        ret
    }
}

/// The real monotonic clock, only for time limits and reports.
pub fn real_seconds() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw_syscall(
            libc::SYS_clock_gettime,
            libc::CLOCK_MONOTONIC as usize,
            &mut ts as *mut _ as usize,
            0,
            0,
            0,
            0,
        );
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

unsafe fn fill(buf: *mut u8, len: usize) -> isize {
    ENTROPY_READS.fetch_add(1, SeqCst);
    let fault = ENTROPY_FAULT.load(SeqCst);
    let mut len = len;
    if fault != 0 && len > 0 {
        let r = next_entropy();
        if r % fault == 0 {
            if (r >> 32) & 1 == 0 {
                ENTROPY_EINTR.fetch_add(1, SeqCst);
                return -(libc::EINTR as isize);
            }
            if len > 1 {
                ENTROPY_SHORT.fetch_add(1, SeqCst);
                len = 1 + (r >> 33) as usize % (len - 1);
            }
        }
    }
    let mode = ENTROPY_MODE.load(SeqCst);
    for i in 0..len {
        *buf.add(i) = match mode {
            0 => (next_entropy() >> 24) as u8,
            1 => 0,
            2 => 0xff,
            _ => 0x5a,
        };
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if active() {
        CLOCK_READS.fetch_add(1, SeqCst);
        (*ts).tv_sec = CLOCK_S.load(SeqCst);
        (*ts).tv_nsec = CLOCK_NS.load(SeqCst);
        advance(CLOCK_DRIFT.load(SeqCst));
        return 0;
    }
    finish(raw_syscall(
        libc::SYS_clock_gettime,
        clk as usize,
        ts as usize,
        0,
        0,
        0,
        0,
    )) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> i32 {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if active() {
        return finish(fill(buf, len));
    }
    finish(raw_syscall(
        libc::SYS_getrandom,
        buf as usize,
        len,
        flags as usize,
        0,
        0,
        0,
    ))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() && sched::managed() {
        sched::force_yield();
        return 0;
    }
    finish(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

unsafe fn sim_sleep(req: *const libc::timespec) {
    let ns = (*req).tv_sec.saturating_mul(1_000_000_000).saturating_add((*req).tv_nsec);
    SLEPT_NS.fetch_add(ns as u64, SeqCst);
    if sched::managed() {
        sched::force_yield();
    }
    advance(ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if active() {
        sim_sleep(req);
        return 0;
    }
    finish(raw_syscall(
        libc::SYS_nanosleep,
        req as usize,
        rem as usize,
        0,
        0,
        0,
        0,
    )) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if active() {
        if flags & libc::TIMER_ABSTIME == 0 {
            sim_sleep(req);
        } else if sched::managed() {
            sched::force_yield();
        }
        return 0;
    }
    -(raw_syscall(
        libc::SYS_clock_nanosleep,
        clk as usize,
        flags as usize,
        req as usize,
        rem as usize,
        0,
        0,
    ) as i32)
}

/// `syscall(2)` as used by std's futex code and by the getrandom crate.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: i64,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    if active() {
        if n == libc::SYS_getrandom {
            return finish(fill(a as *mut u8, b));
        }
        if n == libc::SYS_futex && sched::managed() {
            let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    return finish(sched::futex_wait(
                        a as *const std::sync::atomic::AtomicU32,
                        c as u32,
                        d != 0,
                    ));
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return sched::futex_wake(a, c) as isize;
                }
                _ => (),
            }
        }
    }
    finish(raw_syscall(n, a, b, c, d, e, f))
}
