//! Deterministic simulation of vcard4: one seed is one run.
#![allow(clippy::for_loops_over_fallibles, for_loops_over_fallibles)]
mod canon;
mod damage;
mod disk;
mod driver;
mod exchange;
mod gen;
mod peer;
mod props;
mod sched;
mod shm;
mod sys;
mod values;

macro_rules! numbered {
    ($names:ident: $t:ty; $($id:ident = $text:literal),* $(,)?) => {
        #[allow(non_snake_case, non_camel_case_types, clippy::upper_case_acronyms)]
        mod $names {
            #[repr(usize)]
            pub enum N { $($id),* }
        }
        $( pub const $id: $t = $names::N::$id as $t; )*
        pub const $names: &[&str] = &[$($text),*];
    };
}

numbered!(EVENTS: u32;
    EV_CLOCK = "clock read or set",
    EV_BLOCK = "blocks on a lock",
    EV_DONE = "thread ends",
    EV_CRASH = "power fails",
    EV_FAULT = "fault",
    EV_WRITE = "write",
    EV_FLUSH = "flush",
    EV_TEXT = "text",
    EV_READ = "cards read",
    EV_SAVE = "save",
    EV_ACK = "save acknowledged",
    EV_SINK = "rendered into a sink",
    EV_OP = "operation",
    EV_CARD = "card",
);

numbered!(COUNTS: usize;
    // Faults of disks, writers and readers
    F_CRASH = "crash: power fails inside of a write or flush",
    F_TORN = "torn: data ends early",
    F_LOST = "lost: unflushed writes vanish",
    F_HOLE = "hole: unflushed sectors read as zeros",
    F_EINTR = "interrupted call (EINTR)",
    F_EIO = "write error (EIO)",
    F_ENOSPC = "disk full (ENOSPC)",
    F_SHORT = "short write",
    F_SHORT_READ = "short read",
    F_FLUSH = "flush error",
    F_READ_EIO = "read error (EIO)",
    F_SINK = "failing text writer",
    F_PANIC = "panic in a text writer",
    // Damage to stored or sent data
    D_FLIP = "bit flip",
    D_REPLACE = "byte replaced",
    D_TRUNCATE = "truncation",
    D_LOSS = "range or line lost",
    D_ZERO = "range zeroed",
    D_DUP = "range or line duplicated",
    D_JUNK = "junk inserted",
    D_REORDER = "ranges or lines swapped",
    D_NEWLINE = "line end changed",
    // Rewriting by gateways
    G_LF = "gateway: LF line ends",
    G_CASE = "gateway: names in other case",
    G_FOLD = "gateway: fold inserted",
    G_BLANK = "gateway: blank line inserted",
    // Networks
    M_LOSS = "message lost",
    M_DUP = "message duplicated",
    M_TORN = "message torn",
    M_REORDER = "messages reordered",
    M_DELAY = "message delayed",
    M_STALL = "node stalled",
    M_RESTART = "node restarted with what its disk has",
    // Rules broken by others
    R_LINE = "line that breaks a rule",
    R_CARD = "card that breaks a rule",
    // Clock
    K_CLOCK = "clock set",
    // Not faults
    G_PASS = "gateway passes",
    C_BYTES = "bytes rendered",
    C_RENDER = "renderings",
    C_READ = "readings",
    C_RECOVER = "recoveries after a restart",
    C_SAVE = "saves",
    C_ACK = "saves acknowledged",
    C_COMPACT = "files rewritten and replaced",
    C_SECRETS = "secret texts",
    C_BLOCKS = "freed blocks searched",
    C_HOP = "cards passed on",
    C_BUILD = "calls of the builder",
    P_READ = "texts read by the peer",
    P_WRITE = "texts written by the peer",
    M_SENT = "cards sent over networks",
    C_SCALE = "scaling experiments",
    C_SHARED = "accesses of the library to writable statics",
    // Kept as maximum
    C_MAX_ALLOCS = "most allocations per byte of input",
    C_MAX_STEPS = "most steps per byte of input",
    C_MAX_BYTES = "most bytes allocated per byte of input",
);

/// Counters up to this one are faults.
pub const LAST_FAULT: usize = K_CLOCK;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    sys::install_hook();
    std::process::exit(driver::main(&args));
}
