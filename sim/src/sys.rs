//! The seams: every source of nondeterminism the library could reach in
//! this process (clock, entropy, locks, yields, sleeps, the allocator) is
//! replaced by a version the simulator decides.
use crate::sched;
use crate::shm::{self, shm};
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

/// Set in the processes that run a simulation.
pub static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    /// Depth of calls into the library on this thread.
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    /// Blocks freed on this thread are searched for secrets.
    static SCAN: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sut() -> bool {
    IN_SUT.try_with(|c| c.get() > 0).unwrap_or(false)
}

// ---------------------------------------------------------------- raw calls

pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn errno(ret: isize) -> isize {
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = -ret as c_int;
        -1
    } else {
        ret
    }
}

/// Real monotonic time, for the driver only.
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

// ---------------------------------------------------------------- clock

pub const CLOCK_STEADY: u32 = 0;
pub const CLOCK_TICKS: u32 = 1;
pub const CLOCK_JUMPS: u32 = 2;

fn read_clock(wall: bool) -> (i64, i64) {
    let s = shm();
    if in_sut() {
        s.clock_reads += 1;
        shm::event(sched::tid(), crate::EV_CLOCK, s.clock_ns as u64, 0);
        sched::point();
    }
    let ns = if wall { s.clock_ns } else { s.elapsed_ns as i128 + 1_000_000_000_000 };
    match s.clock_mode {
        CLOCK_TICKS => s.clock_ns += 1 + shm::draw(shm::FAULT, 2_000_000_000) as i128,
        CLOCK_JUMPS => s.clock_ns = draw_clock(shm::FAULT),
        _ => {}
    }
    let sec = ns.div_euclid(1_000_000_000);
    (sec.clamp(i64::MIN as i128, i64::MAX as i128) as i64, ns.rem_euclid(1_000_000_000) as i64)
}

/// Draw any clock reading, ordinary and extreme.
pub fn draw_clock(lane: usize) -> i128 {
    const S: i128 = 1_000_000_000;
    let frac = shm::draw(lane, 1_000_000_000) as i128;
    let sec: i128 = match shm::draw(lane, 12) {
        0 => 1_700_000_000,
        1 => 0,
        2 => -1,
        3 => -86_400 * 365 * 30,
        4 => i32::MAX as i128 + 1,
        // A leap day, the last second of a year, the first of a century
        5 => 1_709_164_800 + shm::draw(lane, 86_400) as i128,
        6 => 1_735_689_599,
        7 => 4_102_444_800,
        // Beyond what a date and time can express
        8 => 300_000_000_000,
        9 => -400_000_000_000,
        10 => i64::MAX as i128,
        _ => shm::draw(lane, u32::MAX) as i128 * 2 - 1_000_000_000,
    };
    sec * S + frac
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE.load(Relaxed) {
        return errno(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let wall = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
    let (s, n) = read_clock(wall);
    (*ts).tv_sec = s;
    (*ts).tv_nsec = n;
    0
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    if !ACTIVE.load(Relaxed) {
        return errno(raw(libc::SYS_gettimeofday, tv as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let (s, n) = read_clock(true);
    (*tv).tv_sec = s;
    (*tv).tv_usec = n / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let s = if !ACTIVE.load(Relaxed) {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        raw(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec
    } else {
        read_clock(true).0
    };
    if !t.is_null() {
        *t = s;
    }
    s
}

unsafe fn sleep_for(ts: *const libc::timespec) {
    let ns = (*ts).tv_sec as i128 * 1_000_000_000 + (*ts).tv_nsec as i128;
    pass_time(ns.max(0) as u64);
    sched::give_way();
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ACTIVE.load(Relaxed) {
        return errno(raw(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    sleep_for(ts);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if !ACTIVE.load(Relaxed) {
        let r = raw(libc::SYS_clock_nanosleep, clk as usize, flags as usize, ts as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    sleep_for(ts);
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !ACTIVE.load(Relaxed) {
        return errno(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int;
    }
    sched::give_way();
    0
}

/// Let simulated time pass.
pub fn pass_time(ns: u64) {
    let s = shm();
    s.elapsed_ns = s.elapsed_ns.saturating_add(ns);
    s.clock_ns += ns as i128;
}

// ---------------------------------------------------------------- entropy

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if !ACTIVE.load(Relaxed) {
        return errno(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0));
    }
    fill_random(buf, len)
}

unsafe fn fill_random(buf: *mut c_void, len: size_t) -> ssize_t {
    let s = shm();
    if in_sut() {
        s.entropy_reads += 1;
        sched::point();
    }
    for i in 0..len {
        s.entropy = shm::mix(s.entropy, i as u64 + 1);
        *(buf as *mut u8).add(i) = s.entropy as u8;
    }
    len as ssize_t
}

// ---------------------------------------------------------------- locks

/// std reaches futexes through this function.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    if ACTIVE.load(Relaxed) {
        if n == libc::SYS_futex && sched::simulated() {
            let op = b as c_int & 0x7f;
            match op {
                // WAIT, WAIT_BITSET
                0 | 9 => {
                    let word = &*(a as *const std::sync::atomic::AtomicU32);
                    if word.load(Relaxed) != c as u32 {
                        *libc::__errno_location() = libc::EAGAIN;
                        return -1;
                    }
                    if sched::wait_on(a, d != 0) {
                        return 0;
                    }
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    return -1;
                }
                // WAKE, WAKE_BITSET
                1 | 10 => return sched::wake(a, c) as c_long,
                _ => {}
            }
        }
        if n == libc::SYS_getrandom {
            return fill_random(a as *mut c_void, b) as c_long;
        }
        if n == libc::SYS_clock_gettime {
            return clock_gettime(a as c_int, b as *mut libc::timespec) as c_long;
        }
    }
    errno(raw(n, a, b, c, d, e, f)) as c_long
}

// ---------------------------------------------------------------- allocator

pub struct Alloc;

/// Calls to the allocator made by the library.
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// Bytes the library asked for.
pub static BYTES: AtomicU64 = AtomicU64::new(0);
/// Most bytes a run may ask for before it is stopped.
pub static BYTE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Simulated time of one allocation, makes work visible as time.
static OWNED_LEN: AtomicUsize = AtomicUsize::new(0);
const OWNED: usize = 4096;
static mut OWNED_PTR: [usize; OWNED] = [0; OWNED];
/// Secret blocks that were freed and searched.
pub static SCANNED: AtomicU64 = AtomicU64::new(0);
pub static LEAKED: AtomicU64 = AtomicU64::new(0);
/// Start of the first bad block.
pub static mut LEAK: [u8; 160] = [0; 160];

/// The text that marks private data.
pub const NEEDLE: &[u8] = b"qZ7";

/// Register a heap block as owned by a card about to die.
pub fn own(ptr: *const u8) {
    unsafe {
        let n = OWNED_LEN.load(Relaxed);
        if n < OWNED {
            OWNED_PTR[n] = ptr as usize;
            OWNED_LEN.store(n + 1, Relaxed);
        }
    }
}

pub fn owned_left() -> usize {
    OWNED_LEN.load(Relaxed)
}

pub fn forget_owned() {
    OWNED_LEN.store(0, Relaxed);
}

/// Search every block this thread frees while `f` runs.
pub fn scanning<R>(f: impl FnOnce() -> R) -> R {
    struct Off(bool);
    impl Drop for Off {
        fn drop(&mut self) {
            SCAN.with(|c| c.set(self.0));
        }
    }
    let _off = Off(SCAN.with(|c| c.replace(true)));
    f()
}

unsafe fn disown(ptr: usize) -> bool {
    let n = OWNED_LEN.load(Relaxed);
    for i in 0..n {
        if OWNED_PTR[i] == ptr {
            OWNED_PTR[i] = OWNED_PTR[n - 1];
            OWNED_LEN.store(n - 1, Relaxed);
            return true;
        }
    }
    false
}

unsafe fn scan(ptr: *mut u8, size: usize) {
    SCANNED.fetch_add(1, Relaxed);
    let block = std::slice::from_raw_parts(ptr, size);
    if block.windows(NEEDLE.len()).any(|w| w == NEEDLE) && LEAKED.fetch_add(1, Relaxed) == 0 {
        let leak = &mut *std::ptr::addr_of_mut!(LEAK);
        let n = size.min(leak.len());
        leak[..n].copy_from_slice(&block[..n]);
    }
}

#[inline]
fn on_alloc(size: usize) {
    if ACTIVE.load(Relaxed) && in_sut() {
        ALLOCS.fetch_add(1, Relaxed);
        let total = BYTES.fetch_add(size as u64, Relaxed) + size as u64;
        if total > BYTE_LIMIT.load(Relaxed) {
            shm::set_violation("work", "asked for more memory than any input of this size may need");
            exit(1);
        }
        sched::point();
    }
}

#[inline]
unsafe fn on_free(ptr: *mut u8, layout: Layout) {
    let size = layout.size();
    // Text is kept in blocks without alignment. The gaps of structures hold
    // whatever was on the stack and nothing can wipe them.
    if layout.align() == 1 && ACTIVE.load(Relaxed) && size >= NEEDLE.len() && sched::has_turn() {
        let owned = OWNED_LEN.load(Relaxed) > 0 && disown(ptr as usize);
        if owned || SCAN.try_with(|c| c.get()).unwrap_or(false) {
            scan(ptr, size);
        }
    }
}

/// Hand out clean memory only, so that what is found in a block was put there
/// by its owner.
pub static CLEAN: AtomicBool = AtomicBool::new(false);

// Blocks of simulated threads come from an arena of their own, so that their
// addresses depend on the schedule only and not on when the system starts,
// ends and cleans up after real threads. One simulated thread runs at a time.
const ARENA: usize = 1 << 30;
const BIGGEST: usize = 1 << 20;
static ARENA_AT: AtomicUsize = AtomicUsize::new(0);
static ARENA_USED: AtomicUsize = AtomicUsize::new(0);
static FREE: [AtomicUsize; 24] = [const { AtomicUsize::new(0) }; 24];

/// Reserve the arena. Its pages cost nothing until they are used.
pub fn reserve() {
    let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0) };
    if p != libc::MAP_FAILED {
        ARENA_AT.store(p as usize, Relaxed);
    }
}

fn class(l: Layout) -> usize {
    l.size().max(l.align()).max(16).next_power_of_two()
}

/// A block of the arena, or null. True when the block was never used before.
unsafe fn take(l: Layout) -> (*mut u8, bool) {
    let at = ARENA_AT.load(Relaxed);
    if at == 0 || !sched::simulated() {
        return (std::ptr::null_mut(), false);
    }
    let size = class(l);
    if size > BIGGEST {
        return (std::ptr::null_mut(), false);
    }
    let list = &FREE[size.trailing_zeros() as usize];
    let p = list.load(Relaxed);
    if p != 0 {
        list.store(*(p as *const usize), Relaxed);
        return (p as *mut u8, false);
    }
    let used = (ARENA_USED.load(Relaxed) + size - 1) & !(size - 1);
    if used + size > ARENA {
        return (std::ptr::null_mut(), false);
    }
    ARENA_USED.store(used + size, Relaxed);
    ((at + used) as *mut u8, true)
}

fn in_arena(p: *mut u8) -> bool {
    let at = ARENA_AT.load(Relaxed);
    at != 0 && (at..at + ARENA).contains(&(p as usize))
}

unsafe fn give(p: *mut u8, l: Layout) {
    // What threads without a turn free is lost
    if sched::simulated() {
        let list = &FREE[class(l).trailing_zeros() as usize];
        *(p as *mut usize) = list.load(Relaxed);
        list.store(p as usize, Relaxed);
    }
}

unsafe fn get(l: Layout, clean: bool) -> *mut u8 {
    let (p, fresh) = take(l);
    if p.is_null() {
        return if clean { System.alloc_zeroed(l) } else { System.alloc(l) };
    }
    if clean && !fresh {
        std::ptr::write_bytes(p, 0, l.size());
    }
    p
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        get(l, CLEAN.load(Relaxed))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(p, l);
        if in_arena(p) {
            give(p, l);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_alloc(n.saturating_sub(l.size()));
        let to = Layout::from_size_align_unchecked(n, l.align());
        if in_arena(p) {
            if class(l) == class(to) {
                if CLEAN.load(Relaxed) && n > l.size() {
                    std::ptr::write_bytes(p.add(l.size()), 0, n - l.size());
                }
                return p;
            }
        } else if !sched::simulated() || class(l) > BIGGEST {
            let p = System.realloc(p, l, n);
            if CLEAN.load(Relaxed) && !p.is_null() && n > l.size() {
                std::ptr::write_bytes(p.add(l.size()), 0, n - l.size());
            }
            return p;
        }
        let q = get(to, CLEAN.load(Relaxed));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            if in_arena(p) {
                give(p, l);
            } else {
                System.dealloc(p, l);
            }
        }
        q
    }
}

#[global_allocator]
static GLOBAL: Alloc = Alloc;

// ---------------------------------------------------------------- edges

/// Room for the edges of the instrumented crates.
pub const EDGES: usize = 1 << 17;
/// Edges that exist.
pub static EDGE_COUNT: AtomicU32 = AtomicU32::new(0);
/// Edges that any run took, shared by all workers.
pub static COVER: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
/// Most steps a run may take before it is stopped.
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

/// The compiler calls this once for each instrumented part of the program.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = EDGE_COUNT.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

/// Edges taken by this process.
static mut STEPS: u64 = 0;
/// Edges this process has reported as reached.
static mut SEEN: [bool; EDGES] = [false; EDGES];

/// The compiler calls this at every edge of the control flow of the library
/// and its dependencies: one step of deterministic processor time and a place
/// where the scheduler may prefer another thread.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *const u32) {
    if IN_SUT.get() == 0 {
        return;
    }
    STEPS += 1;
    let n = *guard as usize & (EDGES - 1);
    if !SEEN[n] {
        SEEN[n] = true;
        let cover = COVER.load(Relaxed);
        if !cover.is_null() {
            *cover.add(n) = 1;
        }
    }
    if STEPS >= STEP_LIMIT.load(Relaxed) {
        shm::set_violation("work", "took more steps than any input of this size may need");
        exit(1);
    }
    if sched::fine() {
        sched::edge();
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// The compiler calls these before each access of the library to memory.
/// Only what is in writable statics can be shared behind the caller's back.
#[inline(always)]
unsafe fn access(at: *const u8) {
    if at >= std::ptr::addr_of!(__data_start) && at < std::ptr::addr_of!(_end) && IN_SUT.get() > 0 {
        sched::shared();
    }
}

macro_rules! accesses {
    ($($name:ident)*) => {
        $(#[no_mangle]
        pub unsafe extern "C" fn $name(at: *const u8) {
            access(at);
        })*
    };
}

accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// True when the library is instrumented.
pub fn fine() -> bool {
    EDGE_COUNT.load(Relaxed) > 0
}

/// Edges the library took in this process.
pub fn steps() -> u64 {
    unsafe { STEPS }
}

// ---------------------------------------------------------------- calls into the library

/// End this process at once, as a crash does.
pub fn exit(code: i32) -> ! {
    unsafe {
        if ACTIVE.load(Relaxed) {
            shm().steps += STEPS;
        }
        raw(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

/// Report a violation and end the run.
pub fn violate(class: &str, msg: &str) -> ! {
    shm::set_violation(class, msg);
    exit(1)
}

thread_local! {
    static PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

/// Keep panics quiet and remember what they said.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let depth = IN_SUT.with(|c| c.replace(0));
        let text = info.to_string().replace('\n', " ");
        if depth == 0 && !sched::expected_panic() {
            eprintln!("harness panic: {text}");
        }
        PANIC.with(|c| c.set(Some(text)));
        IN_SUT.with(|c| c.set(depth));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|c| c.take()).unwrap_or_default()
}

/// A call into the library. `Err` holds the message of a panic.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let depth = IN_SUT.with(|c| {
        let d = c.get();
        c.set(d + 1);
        d
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(depth));
    r.map_err(|_| last_panic())
}

/// A call into the library that must not panic.
pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) {
        Ok(r) => r,
        Err(e) => violate("panic", &format!("{what} panicked: {e}")),
    }
}

/// Code of the harness that the library calls back into.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let depth = IN_SUT.with(|c| c.replace(0));
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            IN_SUT.with(|c| c.set(self.0));
        }
    }
    let _back = Back(depth);
    f()
}

/// Time this thread spent on the processor.
pub fn cpu_time() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        raw(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// Seconds on the processor after which a run counts as hanging.
const HANG: i64 = 20;

/// Something panicked outside of a guarded call. It is a violation when
/// the library did.
pub fn broken(text: &str) -> ! {
    if text.contains("/repo/src/") {
        violate("panic", &format!("the library panicked: {text}"));
    }
    eprintln!("harness: {text}");
    exit(3)
}

/// Most memory a run may have.
const MEMORY: u64 = (3 << 30) + ARENA as u64;

/// Run in a process of its own and return how it ended.
pub fn fork_run(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let t = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: HANG, tv_usec: 0 },
            };
            raw(libc::SYS_setitimer, libc::ITIMER_VIRTUAL as usize, &t as *const _ as usize, 0, 0, 0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // A run that eats the memory dies alone
            let most = libc::rlimit { rlim_cur: MEMORY, rlim_max: MEMORY };
            libc::setrlimit(libc::RLIMIT_AS, &most);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            ACTIVE.store(true, Relaxed);
            STEPS = 0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                broken(&last_panic());
            }
            exit(0);
        }
        let mut status = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                return status;
            }
            assert!(*libc::__errno_location() == libc::EINTR, "waitpid");
        }
    }
}

/// End this process as its child ended.
pub fn pass_on(status: i32) -> ! {
    if libc::WIFSIGNALED(status) {
        unsafe {
            raw(libc::SYS_kill, libc::getpid() as usize, libc::WTERMSIG(status) as usize, 0, 0, 0, 0);
        }
    }
    exit(libc::WEXITSTATUS(status))
}
