//! Spreads runs over workers, minimises what fails and writes reports.
use crate::shm::{self, shm, LANES};
use crate::{props, sys, *};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::SeqCst};

/// The program this is: features, and whether edges are instrumented.
pub fn variant() -> &'static str {
    if cfg!(feature = "plain") {
        return "default-plain";
    }
    if cfg!(feature = "lean") {
        return "lean";
    }
    match (cfg!(feature = "full"), sys::fine()) {
        (false, false) => "default",
        (true, false) => "full",
        (false, true) => "default-fine",
        (true, true) => "full-fine",
    }
}

const SAMPLES: u64 = 3;
const TABLE: usize = 1 << 22;

#[repr(C)]
struct Stats {
    runs: AtomicU64,
    nontrivial: AtomicU64,
    points: AtomicU64,
    switches: AtomicU64,
    checks: AtomicU64,
    events: AtomicU64,
    lives: AtomicU64,
    millis: AtomicU64,
    clock_reads: AtomicU64,
    entropy_reads: AtomicU64,
    counters: [AtomicU64; shm::COUNTERS],
    /// Runs in which a fault of this kind happened.
    with: [AtomicU64; shm::COUNTERS],
    distinct: AtomicU64,
    schedules: AtomicU64,
    limit: AtomicU64,
    harness: AtomicU64,
    killed: AtomicU64,
    next: AtomicU64,
    steps: AtomicU64,
    cover: [AtomicU8; sys::EDGES],
    traces: [AtomicU64; TABLE],
    orders: [AtomicU64; TABLE],
}

fn map<T>() -> &'static T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &*(p as *const T)
    }
}

/// True when the value is new. Answers false once the table is nearly full.
fn insert(table: &[AtomicU64; TABLE], value: u64) -> bool {
    let v = value.max(1);
    let mut i = value as usize % TABLE;
    for _ in 0..64 {
        match table[i].compare_exchange(0, v, SeqCst, SeqCst) {
            Ok(_) => return true,
            Err(old) if old == v => return false,
            Err(_) => i = (i + 1) % TABLE,
        }
    }
    false
}

pub type Run = fn();

fn property(id: &str) -> Option<Run> {
    Some(match id {
        "C01" => props::c01,
        "C02" => props::c02,
        "C03" => props::c03,
        "C04" => props::c04,
        "C05" => props::c05,
        "C06" => props::c06,
        "C07" => props::c07,
        "C08" => props::c08,
        "C09" => props::c09,
        "C10" => props::c10,
        "C11" => props::c11,
        "C12" => props::c12,
        "C13" => props::c13,
        "C14" => exchange::c14,
        "C15" => exchange::c15,
        "C16" => exchange::c16,
        "C17" => exchange::c17,
        "C18" => exchange::c18,
        "C19" => values::c19,
        _ => return None,
    })
}

/// How a run ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Fine,
    /// Class and message of a violation.
    Violation(String, String),
    /// Not the fault of the code under test.
    Harness(String),
}

fn outcome(status: i32) -> End {
    if libc::WIFSIGNALED(status) {
        return match libc::WTERMSIG(status) {
            libc::SIGVTALRM => End::Violation("hang".into(), "the run does not end".into()),
            libc::SIGKILL => End::Harness("a run was killed from outside".into()),
            s => End::Violation("crash".into(), format!("the process died with signal {s}")),
        };
    }
    match libc::WEXITSTATUS(status) {
        0 => End::Fine,
        1 if shm().violated.load(SeqCst) == 1 => {
            let (class, msg) = shm::get_msg();
            if class == "harness" {
                End::Harness(msg)
            } else {
                End::Violation(class, msg)
            }
        }
        n => End::Harness(format!("a run ended with status {n}")),
    }
}

fn once(run: Run, seed: u64, replay: bool, verbose: bool) -> End {
    for _ in 0..3 {
        shm::reset(seed, replay, verbose);
        let end = outcome(sys::fork_run(run));
        if !matches!(&end, End::Harness(m) if m.contains("killed")) {
            return end;
        }
    }
    End::Harness("runs are killed from outside".into())
}

fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    shm::mix(shm::mix(seed, shm::hash_bytes(0, id.as_bytes())), index)
}

fn worker(st: &Stats, run: Run, id: &str, seed: u64, deadline: f64) {
    shm::init();
    sys::COVER.store(st.cover.as_ptr() as *mut u8, SeqCst);
    loop {
        let index = st.next.fetch_add(1, SeqCst);
        if index >= st.limit.load(SeqCst) || sys::real_now() > deadline {
            return;
        }
        let end = once(run, run_seed(seed, id, index), false, false);
        let s = shm();
        st.runs.fetch_add(1, SeqCst);
        st.points.fetch_add(s.points, SeqCst);
        st.steps.fetch_add(s.steps, SeqCst);
        st.switches.fetch_add(s.switches, SeqCst);
        st.checks.fetch_add(s.checks, SeqCst);
        st.events.fetch_add(s.events, SeqCst);
        st.lives.fetch_add(s.lives as u64, SeqCst);
        st.millis.fetch_add(s.elapsed_ns / 1_000_000, SeqCst);
        st.clock_reads.fetch_add(s.clock_reads, SeqCst);
        st.entropy_reads.fetch_add(s.entropy_reads, SeqCst);
        let mut faults = 0;
        for (i, n) in s.counters.iter().enumerate() {
            if [C_MAX_ALLOCS, C_MAX_BYTES, C_MAX_STEPS].contains(&i) {
                st.counters[i].fetch_max(*n, SeqCst);
            } else {
                st.counters[i].fetch_add(*n, SeqCst);
            }
            if *n > 0 {
                st.with[i].fetch_add(1, SeqCst);
                faults += (i <= LAST_FAULT) as u64;
            }
        }
        if s.checks > 0 && (faults > 0 || s.switches > 0) {
            st.nontrivial.fetch_add(1, SeqCst);
            if insert(&st.traces, s.hash) {
                st.distinct.fetch_add(1, SeqCst);
            }
        }
        if s.switches > 0 && insert(&st.orders, s.sched_hash) {
            st.schedules.fetch_add(1, SeqCst);
        }
        match end {
            End::Fine => {}
            End::Violation(..) => {
                st.limit.fetch_min(index, SeqCst);
            }
            End::Harness(m) => {
                eprintln!("harness error in run {index}: {m}");
                st.harness.fetch_add(1, SeqCst);
                st.limit.fetch_min(index, SeqCst);
            }
        }
    }
}

fn spawn(workers: u32, f: impl Fn()) {
    let mut pids = Vec::new();
    for _ in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            f();
            sys::exit(0);
        }
        pids.push(pid);
    }
    for pid in pids {
        let mut status = 0;
        unsafe {
            libc::waitpid(pid, &mut status, 0);
        }
        if status != 0 {
            eprintln!("a worker ended with status {status}");
        }
    }
}

// ------------------------------------------------------------------ minimising

type Tapes = [Vec<u32>; LANES];

fn tapes() -> Tapes {
    let s = shm();
    std::array::from_fn(|l| s.tape[l][..s.tape_len[l] as usize].to_vec())
}

fn load(t: &Tapes) {
    let s = shm();
    for l in 0..LANES {
        let n = t[l].len().min(shm::TAPE);
        s.tape[l][..n].copy_from_slice(&t[l][..n]);
        s.tape_len[l] = n as u32;
    }
}

fn strip(mut t: Tapes) -> Tapes {
    for l in &mut t {
        while l.last() == Some(&0) {
            l.pop();
        }
    }
    t
}

fn weight(t: &Tapes) -> (usize, u64) {
    (t.iter().map(|l| l.len()).sum(), t.iter().flatten().map(|v| *v as u64).sum())
}

/// Make the choices of a failing run fewer and simpler.
fn minimise(run: Run, class: &str, budget: f64) -> (Tapes, u64) {
    let until = sys::real_now() + budget;
    let mut best = strip(tapes());
    let mut tries = 0;
    let attempt = |t: &Tapes, tries: &mut u64| -> bool {
        load(t);
        *tries += 1;
        matches!(once(run, 0, true, false), End::Violation(c, _) if c == class)
    };
    let late = || sys::real_now() > until;
    if !attempt(&best, &mut tries) {
        return (best, tries);
    }
    // Only what was used matters
    {
        let s = shm();
        for l in 0..LANES {
            best[l].truncate(s.tape_pos[l] as usize);
        }
    }
    loop {
        let before = weight(&best);
        // The schedule and the faults first: with none of them?
        for l in [shm::SCHED, shm::FAULT, shm::WORK] {
            if best[l].is_empty() || late() {
                continue;
            }
            let mut t = best.clone();
            t[l].clear();
            if attempt(&t, &mut tries) {
                best = strip(t);
                continue;
            }
            let mut size = (best[l].len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < best[l].len() && !late() {
                    let to = (at + size).min(best[l].len());
                    // Remove
                    let mut t = best.clone();
                    t[l].drain(at..to);
                    if attempt(&t, &mut tries) {
                        best = strip(t);
                        continue;
                    }
                    // Or make simple
                    if best[l][at..to].iter().any(|v| *v > 0) {
                        let mut t = best.clone();
                        t[l][at..to].fill(0);
                        if attempt(&t, &mut tries) {
                            best = strip(t);
                        }
                    }
                    at += size;
                }
                if size == 1 || late() {
                    break;
                }
                size /= 2;
            }
            // Smaller numbers
            let mut at = 0;
            while at < best[l].len() && !late() {
                let v = best[l][at];
                for n in [v / 8, v / 2, v.saturating_sub(1)] {
                    if n < best[l][at] {
                        let mut t = best.clone();
                        t[l][at] = n;
                        if attempt(&t, &mut tries) {
                            best = t;
                            break;
                        }
                    }
                }
                at += 1;
            }
            best = strip(best);
        }
        if late() || weight(&best) >= before {
            return (best, tries);
        }
    }
}

// ------------------------------------------------------------------ JSON

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}

fn trace() -> Vec<String> {
    let s = shm();
    s.log[..s.log_len as usize]
        .iter()
        .map(|e| {
            let who = if e.thread == 0 { "main".to_string() } else { format!("thread {}", e.thread) };
            let name = EVENTS.get(e.kind as usize).unwrap_or(&"?");
            format!("{who}: {name} {:x} {:x}", e.a, e.b)
        })
        .collect()
}

fn fault_list(counters: &[u64]) -> String {
    let v: Vec<String> =
        (0..=LAST_FAULT).filter(|i| counters[*i] > 0).map(|i| format!("{}: {}", quote(COUNTS[i]), counters[i])).collect();
    format!("{{{}}}", v.join(", "))
}

fn replay_file(id: &str, seed: u64, index: u64, t: &Tapes, end: (&str, &str), tries: u64) -> String {
    let s = shm();
    let lane = |l: usize| list(&t[l].iter().map(|v| v.to_string()).collect::<Vec<_>>());
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"property\": {},", quote(id));
    let _ = writeln!(o, "\"variant\": {},", quote(variant()));
    let _ = writeln!(o, "\"seed\": {seed},");
    let _ = writeln!(o, "\"run\": {index},");
    let _ = writeln!(o, "\"class\": {},", quote(end.0));
    let _ = writeln!(o, "\"message\": {},", quote(end.1));
    let _ = writeln!(o, "\"trace_hash\": \"{:016x}\",", s.hash);
    let _ = writeln!(o, "\"schedule_hash\": \"{:016x}\",", s.sched_hash);
    let _ = writeln!(o, "\"minimising_runs\": {tries},");
    let _ = writeln!(o, "\"workload_choices\": {},", lane(shm::WORK));
    let _ = writeln!(o, "\"schedule_choices\": {},", lane(shm::SCHED));
    let _ = writeln!(o, "\"fault_choices\": {},", lane(shm::FAULT));
    let _ = writeln!(o, "\"faults\": {},", fault_list(&s.counters));
    let _ = writeln!(o, "\"preemptions\": {},", s.switches);
    let text: Vec<String> = shm::get_text().lines().map(|l| quote(l)).collect();
    let _ = writeln!(o, "\"description\": [\n{}\n],", text.join(",\n"));
    let ev: Vec<String> = trace().iter().map(|l| quote(l)).collect();
    let _ = writeln!(o, "\"history\": [\n{}\n]", ev.join(",\n"));
    o.push_str("}\n");
    o
}

fn field<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    let key = format!("\"{name}\": ");
    let line = text.lines().find(|l| l.starts_with(&key))?;
    Some(line[key.len()..].trim_end_matches(','))
}

fn numbers(text: &str, name: &str) -> Option<Vec<u32>> {
    let v = field(text, name)?.trim_start_matches('[').trim_end_matches(']');
    v.split(',').map(|n| n.trim()).filter(|n| !n.is_empty()).map(|n| n.parse().ok()).collect()
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let unq = |s: Option<&str>| s.unwrap_or_default().trim_matches('"').to_string();
    let id = unq(field(&text, "property"));
    let (Some(run), true) = (property(&id), unq(field(&text, "variant")) == variant()) else {
        eprintln!("{path} is for another program");
        return 2;
    };
    let lanes = ["workload_choices", "schedule_choices", "fault_choices"];
    let mut t: Tapes = Default::default();
    for (l, n) in lanes.iter().enumerate() {
        match numbers(&text, n) {
            Some(v) => t[l] = v,
            None => return 2,
        }
    }
    shm::init();
    load(&t);
    let end = once(run, 0, true, true);
    print!("{}", shm::get_text());
    for l in trace() {
        println!("{l}");
    }
    let s = shm();
    match end {
        End::Violation(class, msg) => {
            println!("class: {class}");
            println!("message: {msg}");
            let same = quote(&class) == field(&text, "class").unwrap_or_default()
                && quote(&msg) == field(&text, "message").unwrap_or_default()
                && unq(field(&text, "trace_hash")) == format!("{:016x}", s.hash)
                && unq(field(&text, "schedule_hash")) == format!("{:016x}", s.sched_hash);
            println!("reproduced: {}", if same { "exactly" } else { "with differences" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        End::Fine => {
            println!("the violation does not happen");
            0
        }
        End::Harness(m) => {
            eprintln!("{m}");
            2
        }
    }
}

// ------------------------------------------------------------------ commands

fn sample(run: Run, id: &str, seed: u64, index: u64) -> String {
    let end = once(run, run_seed(seed, id, index), false, true);
    let s = shm();
    let text = shm::get_text();
    let clip: String = text.chars().take(1200).collect();
    let history: Vec<String> = trace().iter().take(12).map(|l| quote(l)).collect();
    format!(
        "{{\"run\": {index}, \"seed\": \"{:016x}\", \"end\": {}, \"checks\": {}, \"preemptions\": {}, \"yield_points\": {}, \"events\": {}, \"faults\": {}, \"description\": {}, \"history_start\": {}}}",
        run_seed(seed, id, index),
        quote(if end == End::Fine { "fine" } else { "not fine" }),
        s.checks,
        s.switches,
        s.points,
        s.events,
        fault_list(&s.counters),
        quote(&clip),
        list(&history)
    )
}

fn run(o: &BTreeMap<String, String>) -> i32 {
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: f64| get(k, &d.to_string()).parse::<f64>().expect("number");
    let id = get("prop", "");
    let Some(run) = property(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed = get("seed", "1").parse::<u64>().expect("seed");
    let runs = num("runs", 1000.0) as u64;
    let first = num("first", 0.0) as u64;
    let workers = num("workers", 8.0) as u32;
    let wall = num("wall", 600.0);
    let start = sys::real_now();
    let st: &Stats = map();
    st.limit.store(first + runs, SeqCst);
    st.next.store(first, SeqCst);
    spawn(workers, || worker(st, run, &id, seed, start + wall));
    let spent = sys::real_now() - start;
    if st.harness.load(SeqCst) > 0 {
        eprintln!("{id}: the harness failed");
        return 2;
    }
    let limit = st.limit.load(SeqCst);
    shm::init();
    let mut violation = None;
    if limit < first + runs {
        match once(run, run_seed(seed, &id, limit), false, false) {
            End::Violation(class, msg) => {
                eprintln!("{id}: run {limit} of seed {seed} breaks the property ({class}): {msg}");
                let keep = tapes();
                let slow = class == "hang" || msg.contains("seconds");
                let (mut best, tries) = minimise(run, &class, if slow { 0.0 } else { num("shrink", 45.0) });
                load(&best);
                let mut end = once(run, 0, true, true);
                if !matches!(&end, End::Violation(c, _) if *c == class) {
                    best = keep;
                    load(&best);
                    end = once(run, 0, true, true);
                }
                let End::Violation(class, msg) = end else {
                    eprintln!("{id}: run {limit} cannot be repeated");
                    return 2;
                };
                let dir = get("replays", "replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{id}-{}-{seed}-{limit}.json", variant());
                let text = replay_file(&id, seed, limit, &best, (&class, &msg), tries);
                std::fs::write(&path, text).expect("write the replay file");
                println!("{class}: {msg}");
                println!("VIOLATION property={id} replay={path}");
                violation = Some(path);
            }
            e => {
                eprintln!("{id}: run {limit} fails only sometimes: {e:?}");
                return 2;
            }
        }
    }
    let samples: Vec<String> = if violation.is_some() {
        vec![]
    } else {
        (0..SAMPLES.min(runs)).map(|i| sample(run, &id, seed, first + i)).collect()
    };
    let n = |a: &AtomicU64| a.load(SeqCst);
    let counters: Vec<u64> = st.counters.iter().map(n).collect();
    let with: Vec<String> =
        (0..=LAST_FAULT).filter(|i| n(&st.with[*i]) > 0).map(|i| format!("{}: {}", quote(COUNTS[i]), n(&st.with[i]))).collect();
    let other: Vec<String> = (LAST_FAULT + 1..COUNTS.len())
        .filter(|i| counters[*i] > 0)
        .map(|i| format!("{}: {}", quote(COUNTS[i]), counters[i]))
        .collect();
    let mut out = String::from("{\n");
    let _ = writeln!(out, "\"property\": {}, \"variant\": {}, \"seed\": {seed},", quote(&id), quote(variant()));
    for (k, v) in [
        ("runs", n(&st.runs)),
        ("nontrivial", n(&st.nontrivial)),
        ("distinct_nontrivial", n(&st.distinct)),
        ("distinct_schedules", n(&st.schedules)),
        ("yield_points", n(&st.points)),
        ("steps", n(&st.steps)),
        ("edges", sys::EDGE_COUNT.load(SeqCst) as u64),
        ("edges_reached", st.cover.iter().filter(|c| c.load(SeqCst) != 0).count() as u64),
        ("preemptions", n(&st.switches)),
        ("checks", n(&st.checks)),
        ("events", n(&st.events)),
        ("process_lives", n(&st.lives)),
        ("simulated_ms", n(&st.millis)),
        ("clock_reads_by_library", n(&st.clock_reads)),
        ("entropy_reads_by_library", n(&st.entropy_reads)),
        ("violations", violation.is_some() as u64),
    ] {
        let _ = writeln!(out, "\"{k}\": {v},");
    }
    let _ = writeln!(out, "\"complete\": {},", n(&st.runs) >= runs || violation.is_some());
    let _ = writeln!(out, "\"wall_s\": {spent:.3},");
    let _ = writeln!(out, "\"faults\": {},", fault_list(&counters));
    let _ = writeln!(out, "\"runs_with_fault\": {{{}}},", with.join(", "));
    let _ = writeln!(out, "\"work\": {{{}}},", other.join(", "));
    let _ = writeln!(out, "\"samples\": [\n{}\n]", samples.join(",\n"));
    out.push_str("}\n");
    match o.get("out") {
        Some(p) => std::fs::write(p, out).expect("write the report"),
        None => print!("{out}"),
    }
    violation.is_some() as i32
}

/// Print what identifies each run, to compare two executions.
fn hashes(o: &BTreeMap<String, String>) -> i32 {
    let id = o.get("prop").cloned().unwrap_or_default();
    let seed: u64 = o.get("seed").map_or(1, |s| s.parse().expect("seed"));
    let runs: u64 = o.get("runs").map_or(100, |s| s.parse().expect("runs"));
    let first: u64 = o.get("first").map_or(0, |s| s.parse().expect("first"));
    let Some(run) = property(&id) else { return 2 };
    shm::init();
    for i in first..first + runs {
        let end = once(run, run_seed(seed, &id, i), false, o.contains_key("verbose"));
        let s = shm();
        println!(
            "{id} {i} {:016x} {:016x} {} {} {} {} {:?} {}",
            s.hash, s.sched_hash, s.points, s.steps, s.switches, s.checks, s.tape_len, end == End::Fine
        );
        if o.contains_key("verbose") {
            print!("{}", shm::get_text());
        }
        if let End::Violation(c, m) = end {
            println!("{c}: {m}");
        }
    }
    0
}

/// Start again with fixed addresses, so that they are no source of chance.
fn fix_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
    }
}

pub fn main(args: &[String]) -> i32 {
    fix_addresses();
    sys::reserve();
    let mut o = BTreeMap::new();
    let mut rest = Vec::new();
    let mut it = args.iter().peekable();
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                let v = it.next_if(|v| !v.starts_with("--")).cloned().unwrap_or_default();
                o.insert(k.to_string(), v);
            }
            None => rest.push(a.clone()),
        }
    }
    match rest.first().map(|s| &s[..]) {
        Some("run") => run(&o),
        Some("probe") => {
            shm::init();
            let end = once(props::probe, 0, false, false);
            println!("{end:?}");
            (end != End::Fine) as i32
        }
        Some("hashes") => hashes(&o),
        Some("replay") if rest.len() == 2 => replay(&rest[1]),
        _ => {
            eprintln!("vcsim run --prop ID --seed N --runs N | vcsim hashes --prop ID | vcsim probe | vcsim replay FILE");
            2
        }
    }
}
