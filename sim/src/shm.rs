//! State shared by every process of a run. It lives in an anonymous shared
//! mapping so that it survives the death of a simulated process life.
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const LANES: usize = 3;
pub const TAPE: usize = 1 << 18;
pub const LOG: usize = 1 << 14;
pub const TEXT: usize = 1 << 18;
pub const MSG: usize = 1 << 14;
pub const COUNTERS: usize = 128;
pub const DISK: usize = 1 << 21;
pub const FILES: usize = 4;
pub const LEDGER: usize = 512;

/// Choices that decide the workload.
pub const WORK: usize = 0;
/// Choices that decide the schedule.
pub const SCHED: usize = 1;
/// Choices that decide faults.
pub const FAULT: usize = 2;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event {
    pub thread: u32,
    pub kind: u32,
    pub a: u64,
    pub b: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Saved {
    /// Hash of the saved card
    pub card: u64,
    /// 1 = save called, 2 = acknowledged
    pub state: u32,
    pub file: u32,
}

#[repr(C)]
pub struct File {
    /// Bytes written (durable and not).
    pub len: u32,
    /// Bytes known to be durable.
    pub durable: u32,
    /// Capacity of the disk for this file.
    pub cap: u32,
    pub saves: u32,
    pub data: [u8; DISK / FILES],
}

#[repr(C)]
pub struct Shm {
    // -- choices
    pub replay: u32,
    pub verbose: u32,
    pub rng: [u64; LANES],
    pub tape_len: [u32; LANES],
    pub tape_pos: [u32; LANES],
    pub tape: [[u32; TAPE]; LANES],
    // -- results
    pub done: u32,
    pub violated: AtomicU32,
    pub class: [u8; 64],
    pub msg_len: u32,
    pub msg: [u8; MSG],
    pub hash: u64,
    pub sched_hash: u64,
    pub switches: u64,
    pub points: u64,
    pub steps: u64,
    pub faults: u64,
    pub checks: u64,
    pub events: u64,
    pub log_len: u32,
    pub log: [Event; LOG],
    pub text_len: u32,
    pub text: [u8; TEXT],
    pub counters: [u64; COUNTERS],
    // -- simulated environment
    pub clock_ns: i128,
    pub elapsed_ns: u64,
    pub clock_mode: u32,
    pub clock_reads: u64,
    pub entropy: u64,
    pub entropy_reads: u64,
    // -- simulated disk
    pub lives: u32,
    pub stage: u32,
    pub scratch: [u64; 4096],
    pub ledger_len: u32,
    pub ledger: [Saved; LEDGER],
    pub files: [File; FILES],
}

static mut SHM: *mut Shm = std::ptr::null_mut();

/// Map the shared state of this worker.
pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        SHM = p as *mut Shm;
    }
}

/// Only one simulated thread runs at a time, so the state has one user.
#[allow(clippy::mut_from_ref)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(29).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

pub fn hash_bytes(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for c in data.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    mix(h, data.len() as u64)
}

/// Prepare for a new run. `seed` is ignored when replaying.
pub fn reset(seed: u64, replay: bool, verbose: bool) {
    let s = shm();
    s.replay = replay as u32;
    s.verbose = verbose as u32;
    for lane in 0..LANES {
        s.rng[lane] = mix(seed, lane as u64 + 1);
        if !replay {
            s.tape_len[lane] = 0;
        }
        s.tape_pos[lane] = 0;
    }
    s.done = 0;
    s.violated.store(0, Relaxed);
    s.class = [0; 64];
    s.msg_len = 0;
    s.hash = 0;
    s.sched_hash = 0;
    s.switches = 0;
    s.points = 0;
    s.steps = 0;
    s.faults = 0;
    s.checks = 0;
    s.events = 0;
    s.log_len = 0;
    s.text_len = 0;
    s.counters = [0; COUNTERS];
    s.clock_ns = 1_700_000_000_000_000_000;
    s.elapsed_ns = 0;
    s.clock_mode = 0;
    s.clock_reads = 0;
    s.entropy = 0;
    s.entropy_reads = 0;
    s.lives = 0;
    s.stage = 0;
    s.ledger_len = 0;
    for f in s.files.iter_mut() {
        f.len = 0;
        f.durable = 0;
        f.cap = (DISK / FILES) as u32;
        f.saves = 0;
    }
}

/// Draw a choice in `0..n`. Choice 0 is always the simplest one.
pub fn draw(lane: usize, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let s = shm();
    let pos = s.tape_pos[lane] as usize;
    if pos >= TAPE {
        return 0;
    }
    s.tape_pos[lane] += 1;
    if s.replay == 1 {
        if pos < s.tape_len[lane] as usize {
            s.tape[lane][pos] % n
        } else {
            0
        }
    } else {
        let v = ((splitmix(&mut s.rng[lane]) >> 32) * n as u64 >> 32) as u32;
        s.tape[lane][pos] = v;
        s.tape_len[lane] = pos as u32 + 1;
        v
    }
}

pub fn chance(lane: usize, n: u32, of: u32) -> bool {
    // 0 is the simple choice: it did not happen
    draw(lane, of) >= of - n.min(of)
}

pub fn count(c: usize) {
    shm().counters[c] += 1;
}

pub fn add(c: usize, n: u64) {
    shm().counters[c] += n;
}

pub fn max(c: usize, n: u64) {
    let v = &mut shm().counters[c];
    *v = (*v).max(n);
}

/// Record an event of the history.
pub fn event(thread: u32, kind: u32, a: u64, b: u64) {
    let s = shm();
    s.events += 1;
    s.hash = mix(s.hash ^ kind as u64, mix(a, b ^ ((thread as u64) << 56)));
    if s.verbose == 1 && (s.log_len as usize) < LOG {
        let i = s.log_len as usize;
        s.log[i] = Event { thread, kind, a, b };
        s.log_len += 1;
    }
}

/// Add a line of text to the description of the run.
pub fn note(text: impl FnOnce() -> String) {
    let s = shm();
    if s.verbose == 0 {
        return;
    }
    let t = text();
    for b in t.bytes().chain(std::iter::once(b'\n')) {
        if (s.text_len as usize) < TEXT {
            let i = s.text_len as usize;
            s.text[i] = b;
            s.text_len += 1;
        }
    }
}

pub fn get_text() -> String {
    let s = shm();
    String::from_utf8_lossy(&s.text[..s.text_len as usize]).into_owned()
}

pub fn get_msg() -> (String, String) {
    let s = shm();
    let n = s.class.iter().position(|b| *b == 0).unwrap_or(64);
    (
        String::from_utf8_lossy(&s.class[..n]).into_owned(),
        String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
    )
}

/// Record a violation without ending the process.
pub fn set_violation(class: &str, msg: &str) {
    let s = shm();
    if s.violated.swap(1, Relaxed) == 1 {
        return;
    }
    s.class = [0; 64];
    for (to, from) in s.class.iter_mut().take(63).zip(class.bytes()) {
        *to = from;
    }
    let n = msg.len().min(MSG);
    s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    s.msg_len = n as u32;
}
