//! Cooperative scheduler over real threads: one runs at a time and the
//! choice of which is drawn from the tape.
use crate::shm::{self, shm, SCHED};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::{Relaxed, SeqCst}};

const MAX: usize = 8;
const NONE: u32 = u32::MAX;
const MAIN: u32 = 1000;

const IDLE: u32 = 0;
const RUNNABLE: u32 = 1;
const BLOCKED: u32 = 2;
const DONE: u32 = 3;

static ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicU32 = AtomicU32::new(MAIN);
static STATE: [AtomicU32; MAX] = [const { AtomicU32::new(IDLE) }; MAX];
static ADDR: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static TIMED: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static WOKEN: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
static COUNTDOWN: AtomicU32 = AtomicU32::new(0);
static RATE: AtomicU32 = AtomicU32::new(0);
/// Not 0: preempt at edges, at most this power of two apart.
static FINE: AtomicU32 = AtomicU32::new(0);
/// Edges left that count, since the last use of a static or a lock.
static NEAR: AtomicU32 = AtomicU32::new(0);
const NEARBY: u32 = 24;
static EXPECT_PANIC: AtomicBool = AtomicBool::new(false);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
}

pub fn tid() -> u32 {
    match TID.try_with(|t| t.get()).unwrap_or(NONE) {
        NONE => 0,
        t => t + 1,
    }
}

pub fn expect_panics(on: bool) {
    EXPECT_PANIC.store(on, SeqCst);
}

pub fn expected_panic() -> bool {
    EXPECT_PANIC.load(SeqCst)
}

pub fn simulated() -> bool {
    ON.load(SeqCst) && TID.try_with(|t| t.get() != NONE).unwrap_or(false)
}

/// False for a thread that is starting up or shutting down.
pub fn has_turn() -> bool {
    !ON.load(SeqCst) || simulated()
}

fn futex(op: i32, val: u32) {
    unsafe {
        sys::raw(libc::SYS_futex, CUR.as_ptr() as usize, (op | 128) as usize, val as usize, 0, 0, 0);
    }
}

fn await_turn(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        futex(0, c);
    }
}

fn hand_to(t: u32) {
    CUR.store(t, SeqCst);
    futex(1, i32::MAX as u32);
}

fn new_countdown() {
    // 0 is the simplest: run until blocked or done. It is rare, for it leaves
    // no preemption for the rest of the run of this thread.
    const STEPS: [u32; 9] = [300, 100, 40, 20, 10, 5, 3, 2, 1];
    let rate = RATE.load(SeqCst);
    let (choices, rare) = match rate {
        0 => return COUNTDOWN.store(u32::MAX, SeqCst),
        1 => (4, 2),
        3 | 5 => (FINE.load(SeqCst), 8),
        _ => (9, 8),
    };
    let n = match shm::draw(SCHED, choices * rare + 1) {
        0 => u32::MAX,
        i if rate == 3 || rate == 5 => {
            let e = (i - 1) % choices;
            (1 << e) + shm::draw(SCHED, 1 << e)
        }
        i => STEPS[(i - 1) as usize % choices as usize],
    };
    COUNTDOWN.store(n, SeqCst);
}

fn runnable(except: u32) -> ([u32; MAX], usize) {
    let mut list = [0; MAX];
    let mut n = 0;
    for (i, s) in STATE.iter().enumerate() {
        if s.load(SeqCst) == RUNNABLE && i as u32 != except {
            list[n] = i as u32;
            n += 1;
        }
    }
    (list, n)
}

fn switch(me: u32, to: u32) {
    let s = shm();
    s.switches += 1;
    s.sched_hash = shm::mix(s.sched_hash, ((me as u64) << 32) | (to as u64) << 40 | ((s.points ^ sys::steps()) & 0xffff_ffff));
    hand_to(to);
}

/// A place where the scheduler may prefer another thread.
pub fn point() {
    if !simulated() {
        return;
    }
    shm().points += 1;
    if RATE.load(Relaxed) < 3 {
        count_down();
    }
}

/// A thread uses a lock.
pub fn lock_point() {
    if !simulated() {
        return;
    }
    shm().points += 1;
    near();
    if RATE.load(Relaxed) != 3 {
        count_down();
    }
}

fn near() {
    if RATE.load(Relaxed) == 5 {
        NEAR.store(NEARBY, Relaxed);
    }
}

/// Edges of the control flow of the library are places to preempt.
#[inline(always)]
pub fn fine() -> bool {
    FINE.load(Relaxed) > 0
}

pub fn edge() {
    if simulated() {
        if RATE.load(Relaxed) == 5 {
            match NEAR.load(Relaxed) {
                0 => return,
                n => NEAR.store(n - 1, Relaxed),
            }
        }
        count_down();
    }
}

/// The library reads or writes a static.
#[cold]
pub fn shared() {
    shm().counters[crate::C_SHARED] += 1;
    if RATE.load(Relaxed) >= 4 && simulated() {
        near();
        count_down();
    }
}

/// Ways to preempt that this program has.
pub fn rates() -> u32 {
    3 + 3 * sys::fine() as u32
}

fn count_down() {
    let c = COUNTDOWN.load(Relaxed);
    if c > 1 {
        if c != u32::MAX {
            COUNTDOWN.store(c - 1, Relaxed);
        }
        return;
    }
    give_way();
}

/// Prefer another thread now if there is one.
pub fn give_way() {
    if !simulated() {
        return;
    }
    let me = TID.with(|t| t.get());
    new_countdown();
    let (list, n) = runnable(me);
    if n == 0 {
        return;
    }
    let to = list[shm::draw(SCHED, n as u32) as usize];
    switch(me, to);
    await_turn(me);
}

/// The thread that has the turn cannot go on.
fn next_or_stuck(me: u32) {
    let (list, n) = runnable(me);
    if n > 0 {
        let to = list[shm::draw(SCHED, n as u32) as usize];
        switch(me, to);
        return;
    }
    // Time out a thread that waits with a limit
    for i in 0..MAX {
        if STATE[i].load(SeqCst) == BLOCKED && TIMED[i].load(SeqCst) {
            sys::pass_time(1_000_000_000);
            WOKEN[i].store(false, SeqCst);
            STATE[i].store(RUNNABLE, SeqCst);
            switch(me, i as u32);
            return;
        }
    }
    if (0..MAX).any(|i| STATE[i].load(SeqCst) == BLOCKED) {
        sys::violate("deadlock", "every remaining thread waits for a lock that nobody will release");
    }
    hand_to(MAIN);
}

/// Block on a futex. False when the wait timed out.
pub fn wait_on(addr: usize, timed: bool) -> bool {
    let me = TID.with(|t| t.get());
    let i = me as usize;
    ADDR[i].store(addr, SeqCst);
    TIMED[i].store(timed, SeqCst);
    WOKEN[i].store(true, SeqCst);
    STATE[i].store(BLOCKED, SeqCst);
    shm::event(me + 1, crate::EV_BLOCK, 0, 0);
    next_or_stuck(me);
    await_turn(me);
    WOKEN[i].load(SeqCst)
}

pub fn wake(addr: usize, n: usize) -> usize {
    let mut woken = 0;
    for i in 0..MAX {
        if woken < n && STATE[i].load(SeqCst) == BLOCKED && ADDR[i].load(SeqCst) == addr {
            STATE[i].store(RUNNABLE, SeqCst);
            woken += 1;
        }
    }
    lock_point();
    woken
}

/// Run the tasks to the end under a drawn schedule.
/// `rate`: 0 no preemption, 1 some, 2 a lot, both at allocations and calls
/// that leave the library; 3 at any edge of its control flow; 4 where it uses
/// a writable static or a lock; 5 there and at the edges that follow.
pub fn run<'a>(rate: u32, stack: usize, tasks: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    assert!(tasks.len() <= MAX && CUR.load(SeqCst) == MAIN);
    RATE.store(rate, SeqCst);
    let fine = match rate {
        3 => 4 + 4 * shm::draw(SCHED, 4),
        5 => 2 + shm::draw(SCHED, 6),
        _ => 0,
    };
    FINE.store(fine, SeqCst);
    NEAR.store(0, SeqCst);
    for (i, s) in STATE.iter().enumerate() {
        s.store(if i < tasks.len() { RUNNABLE } else { IDLE }, SeqCst);
    }
    let n = tasks.len();
    std::thread::scope(|scope| {
        for (i, task) in tasks.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(scope, move || {
                    await_turn(i as u32);
                    TID.with(|t| t.set(i as u32));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(task));
                    if r.is_err() {
                        sys::broken(&sys::last_panic());
                    }
                    shm::event(i as u32 + 1, crate::EV_DONE, 0, 0);
                    STATE[i].store(DONE, SeqCst);
                    TID.with(|t| t.set(NONE));
                    next_or_stuck(i as u32);
                })
                .expect("spawn");
        }
        ON.store(true, SeqCst);
        let first = shm::draw(SCHED, n as u32);
        new_countdown();
        hand_to(first);
        await_turn(MAIN);
        ON.store(false, SeqCst);
        FINE.store(0, SeqCst);
        RATE.store(0, SeqCst);
    });
    for s in STATE.iter() {
        s.store(IDLE, SeqCst);
    }
}
