//! Steps: log lines and allocations of the code under test.
//!
//! Every log line of the library is a step of the simulation. A step is a
//! scheduling point, a point at which a call can be cut short by unwinding,
//! and what work is measured in. Besides, the library is compiled so that it
//! calls in at each of its basic blocks (see rustc.sh), which are counted as
//! work and, where a case asks for it, are scheduling points too.

use crate::env::IN_HARNESS;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CANCEL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static CAP: Cell<u64> = const { Cell::new(u64::MAX) };
    static STEP_HASH: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
    static FINE: Cell<bool> = const { Cell::new(false) };
    static LOWEST: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Called by the library at each of its basic blocks.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if IN_HARNESS.with(|h| h.get()) {
        return;
    }
    BLOCKS.with(|b| b.set(b.get() + 1));
    if FINE.with(|f| f.get()) {
        sched::point();
    }
}

/// Whether this thread can be preempted at each basic block.
pub fn set_fine(fine: bool) {
    FINE.with(|f| f.set(fine));
}

/// Payload of the unwinding which cuts a call short.
pub struct Cancelled;
/// Payload of the unwinding when a call exceeded its step budget.
pub struct OutOfSteps;

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        if IN_HARNESS.with(|h| h.get()) {
            return;
        }
        let n = STEPS.with(|s| {
            let n = s.get() + 1;
            s.set(n);
            n
        });
        STEP_HASH.with(|h| {
            let line = u64::from(record.line().unwrap_or(0));
            h.set(crate::rng::mix(h.get() ^ line));
        });
        let here = 0u8;
        let here = std::hint::black_box(&here as *const u8 as usize);
        LOWEST.with(|l| l.set(l.get().min(here)));
        sched::point();
        if n == CANCEL_AT.with(|c| c.get()) {
            CANCEL_AT.with(|c| c.set(u64::MAX));
            std::panic::resume_unwind(Box::new(Cancelled));
        }
        if n > CAP.with(|c| c.get()) {
            CAP.with(|c| c.set(u64::MAX));
            std::panic::resume_unwind(Box::new(OutOfSteps));
        }
    }
    fn flush(&self) {}
}

static LOGGER: Logger = Logger;

pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|info| {
        if IN_HARNESS.with(|h| h.get()) {
            eprintln!("harness panic: {info}");
        }
    }));
}

pub struct Budget {
    pub cancel_at: Option<u64>,
    pub cap: Option<u64>,
}

impl Budget {
    pub const NONE: Budget = Budget {
        cancel_at: None,
        cap: None,
    };
}

pub enum End<T> {
    Returned(T),
    Panicked(String),
    Cancelled,
    OutOfSteps,
}

/// Runs code under test, returning how it ended and the steps it took.
pub fn call<T>(budget: Budget, f: impl FnOnce() -> T) -> (End<T>, u64) {
    STEPS.with(|s| s.set(0));
    CANCEL_AT.with(|c| c.set(budget.cancel_at.unwrap_or(u64::MAX)));
    CAP.with(|c| c.set(budget.cap.unwrap_or(u64::MAX)));
    let was = IN_HARNESS.with(|h| h.replace(false));
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_HARNESS.with(|h| h.set(was));
    CANCEL_AT.with(|c| c.set(u64::MAX));
    CAP.with(|c| c.set(u64::MAX));
    let steps = STEPS.with(|s| s.get());
    let end = match result {
        Ok(value) => End::Returned(value),
        Err(payload) => {
            if payload.is::<Cancelled>() {
                End::Cancelled
            } else if payload.is::<OutOfSteps>() {
                End::OutOfSteps
            } else if let Some(s) = payload.downcast_ref::<String>() {
                End::Panicked(s.clone())
            } else if let Some(s) = payload.downcast_ref::<&str>() {
                End::Panicked(s.to_string())
            } else {
                End::Panicked("panic".to_string())
            }
        }
    };
    (end, steps)
}

/// Runs harness code called back by the code under test.
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            let was = self.0;
            IN_HARNESS.with(|h| h.set(was));
        }
    }
    let _reset = Reset(IN_HARNESS.with(|h| h.replace(true)));
    f()
}

/// As `call`, also returning the stack in use at the deepest step, the
/// number of allocations and the bytes allocated.
pub fn call_measured<T>(budget: Budget, f: impl FnOnce() -> T) -> (End<T>, Work) {
    let here = 0u8;
    let base = std::hint::black_box(&here as *const u8 as usize);
    LOWEST.with(|l| l.set(base));
    let (allocs, bytes) = self::allocs();
    let blocks = BLOCKS.with(|b| b.get());
    let (end, steps) = call(budget, f);
    let work = Work {
        steps,
        blocks: BLOCKS.with(|b| b.get()) - blocks,
        stack: (base - LOWEST.with(|l| l.get())) as u64,
        allocs: self::allocs().0 - allocs,
        bytes: self::allocs().1 - bytes,
    };
    (end, work)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Work {
    pub steps: u64,
    /// Basic blocks of the library which were run through.
    pub blocks: u64,
    pub stack: u64,
    pub allocs: u64,
    pub bytes: u64,
}

pub fn allocs() -> (u64, u64) {
    (ALLOCS.with(|a| a.get()), BYTES.with(|b| b.get()))
}

pub fn step_hash() -> u64 {
    STEP_HASH.with(|h| h.get())
}

pub fn reset_step_hash() {
    STEP_HASH.with(|h| h.set(0));
}

pub struct SimAlloc;

#[inline]
fn on_alloc(size: usize) {
    if !IN_HARNESS.with(|h| h.get()) {
        ALLOCS.with(|a| a.set(a.get() + 1));
        BYTES.with(|b| b.set(b.get() + size as u64));
        sched::point();
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        on_alloc(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        on_alloc(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        on_alloc(size);
        System.realloc(ptr, layout, size)
    }
}
