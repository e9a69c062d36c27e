//! Deterministic scheduler for real threads.
//!
//! Exactly one managed thread runs at any time; the others are parked on a
//! futex word of their own. The running thread reaches a scheduling point at
//! each log line, each allocation, each futex operation, and each yield, and if
//! it is set to, at each basic block of the library; at each of these the
//! schedule decides whether it hands over and to whom.

use crate::env::{raw_syscall, IN_HARNESS};
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Runnable,
    /// Blocked on an address; the flag tells if the wait has a timeout.
    Blocked(usize, bool),
    Done,
}

pub enum Policy {
    /// Switch with probability one in `.1` at each point, random target.
    Random(Rng, u64),
    /// Hand over at just these steps, to these threads.
    Explicit(Vec<(u64, usize)>),
}

pub struct Sched {
    threads: Vec<State>,
    timed_out: Vec<bool>,
    current: usize,
    step: u64,
    policy: Policy,
    pos: usize,
    /// Every hand-over which took place by choice: (step, target).
    pub switches: Vec<(u64, usize)>,
    pub forced: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub interleaving: u64,
    pub deadlock: bool,
}

const MAX_THREADS: usize = 16;
static WORDS: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];
static MAIN_WORD: AtomicU32 = AtomicU32::new(0);
static mut SCHED: *mut Sched = std::ptr::null_mut();

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[inline]
pub fn managed() -> bool {
    TID.with(|t| t.get()) != usize::MAX
}

fn park(word: &AtomicU32) {
    while word.swap(0, SeqCst) == 0 {
        unsafe {
            raw_syscall(
                libc::SYS_futex,
                word as *const _ as usize,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize,
                0,
                0,
                0,
                0,
            );
        }
    }
}

fn unpark(word: &AtomicU32) {
    word.store(1, SeqCst);
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            word as *const _ as usize,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize,
            1,
            0,
            0,
            0,
        );
    }
}

unsafe fn sched() -> &'static mut Sched {
    &mut *SCHED
}

impl Sched {
    pub fn new(threads: usize, policy: Policy) -> Sched {
        assert!(threads <= MAX_THREADS);
        Sched {
            threads: vec![State::Runnable; threads],
            timed_out: vec![false; threads],
            current: usize::MAX,
            step: 0,
            policy,
            pos: 0,
            switches: Vec::with_capacity(1 << 16),
            forced: 0,
            blocks: 0,
            wakes: 0,
            interleaving: 0,
            deadlock: false,
        }
    }

    /// The next runnable thread after `me`, used where it has to give way.
    fn pick_other(&self, me: usize) -> Option<usize> {
        let n = self.threads.len();
        (1..n)
            .map(|d| (me + d) % n)
            .find(|&t| self.threads[t] == State::Runnable)
    }

    fn pick_random(&mut self, me: usize) -> Option<usize> {
        let n = self.threads.len();
        let count = (0..n)
            .filter(|&t| t != me && self.threads[t] == State::Runnable)
            .count();
        if count == 0 {
            return None;
        }
        let nth = match self.policy {
            Policy::Random(ref mut rng, _) => rng.below(count),
            Policy::Explicit(_) => 0,
        };
        (0..n)
            .filter(|&t| t != me && self.threads[t] == State::Runnable)
            .nth(nth)
    }

    fn note(&mut self, to: usize) {
        self.interleaving =
            crate::rng::mix(self.interleaving ^ (self.step << 8) ^ (to as u64 + 1));
    }

    /// What the schedule says for this point.
    fn decide(&mut self, me: usize) -> Option<usize> {
        self.step += 1;
        match self.policy {
            Policy::Random(ref mut rng, inv) => {
                if rng.next() % inv != 0 {
                    return None;
                }
                let to = self.pick_random(me)?;
                if self.switches.len() < self.switches.capacity() {
                    self.switches.push((self.step, to));
                }
                Some(to)
            }
            Policy::Explicit(ref list) => {
                while self.pos < list.len() && list[self.pos].0 < self.step {
                    self.pos += 1;
                }
                if self.pos < list.len() && list[self.pos].0 == self.step {
                    let to = list[self.pos].1;
                    self.pos += 1;
                    if to != me && to < self.threads.len() && self.threads[to] == State::Runnable {
                        if self.switches.len() < self.switches.capacity() {
                            self.switches.push((self.step, to));
                        }
                        return Some(to);
                    }
                }
                None
            }
        }
    }
}

fn hand_over(me: usize, to: usize) {
    unsafe {
        let s = sched();
        s.note(to);
        s.current = to;
    }
    unpark(&WORDS[to]);
    park(&WORDS[me]);
}

/// A point at which the schedule may hand over to another thread.
#[inline]
pub fn point() {
    let me = TID.with(|t| t.get());
    if me == usize::MAX || IN_HARNESS.with(|h| h.get()) {
        return;
    }
    IN_HARNESS.with(|h| h.set(true));
    if let Some(to) = unsafe { sched().decide(me) } {
        hand_over(me, to);
    }
    IN_HARNESS.with(|h| h.set(false));
}

/// A point at which the thread itself gives way.
pub fn force_yield() {
    let me = TID.with(|t| t.get());
    let was = IN_HARNESS.with(|h| h.replace(true));
    unsafe {
        let s = sched();
        s.step += 1;
        if let Some(to) = s.pick_other(me) {
            s.forced += 1;
            hand_over(me, to);
        }
    }
    IN_HARNESS.with(|h| h.set(was));
}

/// Hands over for good (blocked or done). Returns false if there is nobody.
unsafe fn leave(me: usize) -> bool {
    let s = sched();
    if let Some(to) = s.pick_other(me) {
        s.note(to);
        s.current = to;
        unpark(&WORDS[to]);
        return true;
    }
    // Somebody waiting with a timeout?
    for t in 0..s.threads.len() {
        if let State::Blocked(_, true) = s.threads[t] {
            s.threads[t] = State::Runnable;
            s.timed_out[t] = true;
            s.note(t);
            s.current = t;
            if t != me {
                unpark(&WORDS[t]);
            } else {
                WORDS[t].store(1, SeqCst);
            }
            return true;
        }
    }
    false
}

pub fn futex_wait(addr: *const AtomicU32, expected: u32, timeout: bool) -> isize {
    let me = TID.with(|t| t.get());
    let was = IN_HARNESS.with(|h| h.replace(true));
    let ret = unsafe {
        if (*addr).load(SeqCst) != expected {
            -(libc::EAGAIN as isize)
        } else {
            let s = sched();
            s.step += 1;
            s.blocks += 1;
            s.threads[me] = State::Blocked(addr as usize, timeout);
            s.timed_out[me] = false;
            if !leave(me) {
                s.deadlock = true;
                unpark(&MAIN_WORD);
            }
            park(&WORDS[me]);
            if sched().timed_out[me] {
                -(libc::ETIMEDOUT as isize)
            } else {
                0
            }
        }
    };
    IN_HARNESS.with(|h| h.set(was));
    ret
}

pub fn futex_wake(addr: usize, count: usize) -> usize {
    let was = IN_HARNESS.with(|h| h.replace(true));
    let mut woken = 0;
    unsafe {
        let s = sched();
        for t in 0..s.threads.len() {
            if woken == count {
                break;
            }
            if let State::Blocked(a, _) = s.threads[t] {
                if a == addr {
                    s.threads[t] = State::Runnable;
                    s.wakes += 1;
                    woken += 1;
                }
            }
        }
    }
    IN_HARNESS.with(|h| h.set(was));
    point();
    woken
}

/// Runs the closures as managed threads to their end, starting with `first`.
///
/// Returns the scheduler's records. If it ended in a deadlock the threads are
/// left behind; the process is expected to end soon.
pub fn run(
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    policy: Policy,
    first: usize,
    stack: usize,
) -> Box<Sched> {
    let n = bodies.len();
    let ptr = Box::into_raw(Box::new(Sched::new(n, policy)));
    unsafe { SCHED = ptr };
    let mut handles = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        let handle = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                TID.with(|t| t.set(i));
                park(&WORDS[i]);
                body();
                IN_HARNESS.with(|h| h.set(true));
                unsafe {
                    let s = sched();
                    s.threads[i] = State::Done;
                    TID.with(|t| t.set(usize::MAX));
                    if !leave(i) {
                        if s.threads.iter().any(|t| *t != State::Done) {
                            s.deadlock = true;
                        }
                        unpark(&MAIN_WORD);
                    }
                }
            })
            .unwrap();
        handles.push(handle);
    }
    unsafe { sched().current = first };
    unpark(&WORDS[first]);
    park(&MAIN_WORD);
    let s = unsafe { Box::from_raw(ptr) };
    if !s.deadlock {
        for h in handles {
            let _ = h.join();
        }
    }
    unsafe { SCHED = std::ptr::null_mut() };
    s
}
