//! The properties: each function is one simulated run.
use crate::canon::{self, clip, props};
use crate::damage::{self, Gateway};
use crate::disk::*;
use crate::gen::{self, Cfg};
use crate::shm::{self, add, chance, count, draw, event, hash_bytes, note, shm, FAULT, SCHED, WORK};
use crate::sys::{self, call, violate};
use crate::{sched, *};
use std::collections::BTreeMap;
use std::fmt::{self, Write as _};
use std::io::{BufWriter, LineWriter, Read as _, Write as _};
use std::sync::atomic::Ordering::Relaxed;
use vcard4::property::*;
use vcard4::{iter, parse, parse_loose, Vcard};

pub type Items = Vec<Result<Vcard, String>>;

pub fn w(k: u32) -> u32 {
    draw(WORK, k)
}

pub fn fl(k: usize) -> usize {
    draw(FAULT, k as u32) as usize
}

pub fn check() {
    shm().checks += 1;
}

fn lines(text: &str) -> usize {
    text.bytes().filter(|b| *b == b'\n').count() + 1
}

pub fn seen(kind: u32, text: &str) {
    event(sched::tid(), kind, hash_bytes(1, text.as_bytes()), text.len() as u64);
}

pub fn show(what: &str, text: &str) {
    note(|| format!("{what}: {:?}", text));
}

/// Render a card.
pub fn render(c: &Vcard) -> String {
    let s = call("rendering a card", || c.to_string());
    count(C_RENDER);
    add(C_BYTES, s.len() as u64);
    seen(EV_TEXT, &s);
    s
}

/// All items of the iterating reader.
pub fn items(text: &str, strict: bool) -> Items {
    let limit = lines(text) + 2;
    let out: Items = call("iter", || {
        let mut out = Vec::new();
        let mut it = iter(text, strict);
        loop {
            match it.next() {
                None => break,
                Some(r) => out.push(r.map_err(|e| e.to_string())),
            }
            if out.len() > limit {
                violate("endless", &format!("iterating over {} lines yields more than {} items, text {}", lines(text), limit, clip(text)));
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                violate("revived", &format!("iterating goes on after it ended, text {}", clip(text)));
            }
        }
        out
    });
    count(C_READ);
    event(sched::tid(), EV_READ, out.iter().map(|r| r.as_ref().map_or(3, canon::hash)).fold(7, shm::mix), out.len() as u64);
    out
}

/// The first items of an iterator, and the iterator.
fn begin(text: &str, strict: bool, n: u32) -> (vcard4::VcardIterator<'_>, Items) {
    call("iter", || {
        let mut it = iter(text, strict);
        let mut out = Items::new();
        for _ in 0..n {
            if let Some(r) = it.next() {
                out.push(r.map_err(|e| e.to_string()));
            }
        }
        (it, out)
    })
}

/// The items that are left.
fn finish(text: &str, it: vcard4::VcardIterator<'_>) -> Items {
    let limit = lines(text) + 2;
    call("iter", || {
        let out: Items = it.take(limit + 1).map(|r| r.map_err(|e| e.to_string())).collect();
        if out.len() > limit {
            violate("endless", &format!("iterating over {} lines goes on for more than {limit} items, text {}", lines(text), clip(text)));
        }
        out
    })
}

/// Handed to another thread as a whole.
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

pub fn strict(text: &str) -> Result<Vec<Vcard>, String> {
    count(C_READ);
    call("parse", || parse(text)).map_err(|e| e.to_string())
}

pub fn loose(text: &str) -> Result<Vec<Vcard>, String> {
    count(C_READ);
    call("parse_loose", || parse_loose(text)).map_err(|e| e.to_string())
}

pub fn single(text: &str) -> Result<Vcard, String> {
    count(C_READ);
    call("Vcard::try_from", || Vcard::try_from(text)).map_err(|e| e.to_string())
}

pub fn good(items: &Items) -> Vec<&Vcard> {
    items.iter().filter_map(|r| r.as_ref().ok()).collect()
}

pub fn describe(items: &Items) -> String {
    let v: Vec<String> = items
        .iter()
        .map(|r| match r {
            Ok(c) => format!("card {:x}", canon::hash(c) & 0xffff),
            Err(e) => format!("error {e}"),
        })
        .collect();
    format!("[{}]", v.join(", "))
}

pub fn same(class: &str, what: &str, a: &Vcard, b: &Vcard, text: &str) {
    check();
    if let Some(d) = canon::diff(a, b) {
        violate(class, &format!("{what}: {d}; text {}", clip(&format!("{text:?}"))));
    }
}

// ------------------------------------------------------------------ C01

pub fn saves(file: usize) -> Vec<usize> {
    let s = shm();
    (0..s.ledger_len as usize).filter(|i| s.ledger[*i].file as usize == file).collect()
}

/// Which save every card on the disk comes from, if that is possible.
pub fn align(found: &[u64], saved: &[(u64, bool)]) -> Option<Vec<usize>> {
    let (n, m) = (found.len(), saved.len());
    // ok[i][j]: found[i..] can be explained by saved[j..]
    let mut ok = vec![vec![false; m + 1]; n + 1];
    for i in (0..=n).rev() {
        for j in (0..=m).rev() {
            ok[i][j] = if j == m {
                i == n
            } else {
                (i < n && found[i] == saved[j].0 && ok[i + 1][j + 1]) || (!saved[j].1 && ok[i][j + 1])
            };
        }
    }
    if !ok[0][0] {
        return None;
    }
    let (mut i, mut j, mut out) = (0, 0, Vec::new());
    while i < n {
        if found[i] == saved[j].0 && ok[i + 1][j + 1] {
            out.push(j);
            i += 1;
        }
        j += 1;
    }
    Some(out)
}

/// Read a file after a restart and compare with what was saved.
fn recover(id: usize, faults: Faults) -> Vec<Vcard> {
    let mut file = SimFile::new(id, Faults { eio: 0, ..faults });
    let mut raw = Vec::new();
    file.read_to_end(&mut raw).expect("reading is retried");
    let text = damage::text(&raw);
    let got = items(&text, true);
    count(C_RECOVER);
    let found: Vec<u64> = good(&got).iter().map(|c| canon::hash(c)).collect();
    let idx = saves(id);
    let s = shm();
    let saved: Vec<(u64, bool)> = idx.iter().map(|i| (s.ledger[*i].card, s.ledger[*i].state == 2)).collect();
    check();
    match align(&found, &saved) {
        Some(m) => {
            // What was read stays if it reached the disk
            if s.files[id].durable == s.files[id].len {
                for j in m {
                    s.ledger[idx[j]].state = 2;
                }
            }
        }
        None => {
            let acked = saved.iter().filter(|s| s.1).count();
            show("disk after restart", &text);
            for c in good(&got) {
                note(|| format!("card after restart: {:?}", c));
            }
            let class = if found.iter().any(|f| !saved.iter().any(|s| s.0 == *f)) { "changed" } else { "lost" };
            violate(
                class,
                &format!(
                    "{} of {} saves were acknowledged; after the restart reading gives {}; expected {:?}; disk {}",
                    acked,
                    saved.len(),
                    describe(&got),
                    saved.iter().map(|s| format!("{:x}{}", s.0 & 0xffff, if s.1 { "" } else { "?" })).collect::<Vec<_>>(),
                    clip(&format!("{text:?}"))
                ),
            );
        }
    }
    got.into_iter().filter_map(|r| r.ok()).collect()
}

/// Save one card the way applications do.
pub fn save(file: &mut SimFile, cards: &[&Vcard], how: u32) -> std::io::Result<()> {
    call("rendering a card to a file", || {
        match how {
            0 => {
                for c in cards {
                    write!(file, "{c}")?;
                }
            }
            1 => {
                let mut s = String::new();
                for c in cards {
                    s.push_str(&c.to_string());
                }
                file.write_all(s.as_bytes())?;
            }
            2 => {
                let size = [1, 16, 64, 512, 8192][draw(FAULT, 5) as usize];
                let mut b = BufWriter::with_capacity(size, &mut *file);
                for c in cards {
                    write!(b, "{c}")?;
                }
                b.flush()?;
            }
            3 => {
                let mut b = LineWriter::new(&mut *file);
                for c in cards {
                    write!(b, "{c}")?;
                }
                b.flush()?;
            }
            _ => {
                let text: Vec<String> = cards.iter().map(|c| format!("{c}")).collect();
                for t in text {
                    file.write_all(t.as_bytes())?;
                }
            }
        }
        file.flush()
    })
}

pub fn remember(card: u64, file: usize, state: u32) -> usize {
    let s = shm();
    let i = s.ledger_len as usize;
    if i >= shm::LEDGER {
        sys::exit(0);
    }
    s.ledger[i] = shm::Saved { card, state, file: file as u32 };
    s.ledger_len += 1;
    event(sched::tid(), EV_SAVE, card, file as u64);
    i
}

/// Make sure that the next card starts on a line of its own.
pub fn terminate(file: &mut SimFile) -> bool {
    for _ in 0..40 {
        if file.contents().last().is_none_or(|b| *b == b'\n') {
            return true;
        }
        let _ = file.write(b"\r\n").and_then(|_| file.flush());
    }
    false
}

fn client(id: usize, cfg: &Cfg, faults: Faults, crash: Option<usize>, ops: u32) {
    let mut file = SimFile::new(id, faults);
    file.crash_after = crash;
    if !terminate(&mut file) {
        return;
    }
    for _ in 0..ops {
        let mut cards = vec![cfg.card()];
        if w(4) == 3 {
            let mut c = cards[0].clone();
            cfg.edit(&mut c);
            cards.push(c);
        }
        let entries: Vec<usize> = cards
            .iter()
            .map(|c| {
                note(|| format!("thread {} saves {:?}", id, c));
                remember(canon::hash(c), id, 1)
            })
            .collect();
        let how = w(5);
        let refs: Vec<&Vcard> = cards.iter().collect();
        count(C_SAVE);
        match save(&mut file, &refs, how) {
            Ok(()) => {
                count(C_ACK);
                for e in entries {
                    shm().ledger[e].state = 2;
                    event(sched::tid(), EV_ACK, e as u64, 0);
                }
            }
            Err(e) => {
                note(|| format!("thread {id}: save failed: {e}"));
                if !terminate(&mut file) {
                    return;
                }
                // Try again sometimes
                if w(2) == 1 {
                    let e = remember(canon::hash(&cards[0]), id, 1);
                    if save(&mut file, &refs[..1], 0).is_ok() {
                        shm().ledger[e].state = 2;
                        count(C_ACK);
                    } else if !terminate(&mut file) {
                        return;
                    }
                }
            }
        }
        for c in &cards {
            check();
            let _ = c;
        }
    }
}

fn life(last: bool, threads: usize, cfg: &Cfg) {
    let faults = Faults::draw();
    for id in 0..threads {
        let cards = recover(id, faults);
        if !last && draw(WORK, 3) == 2 {
            // Rewrite the file without the damage, then replace it
            let tmp = &mut shm().files[3];
            tmp.len = 0;
            tmp.durable = 0;
            let mut file = SimFile::new(3, faults);
            let refs: Vec<&Vcard> = cards.iter().collect();
            if save(&mut file, &refs, draw(WORK, 5)).is_ok() {
                count(C_COMPACT);
                let s = shm();
                let (a, b) = s.files.split_at_mut(3);
                let n = b[0].len as usize;
                a[id].data[..n].copy_from_slice(&b[0].data[..n]);
                a[id].len = n as u32;
                a[id].durable = n as u32;
                let keep: Vec<shm::Saved> =
                    (0..s.ledger_len as usize).map(|i| s.ledger[i]).filter(|e| e.file as usize != id).collect();
                s.ledger_len = keep.len() as u32;
                s.ledger[..keep.len()].copy_from_slice(&keep);
                for c in &cards {
                    remember(canon::hash(c), id, 2);
                }
            }
        }
    }
    if last {
        return;
    }
    // Where the power fails in this life
    let crash = if draw(FAULT, 4) > 0 { Some((fl(threads), fl([60, 600, 4000, 40_000][fl(4)]))) } else { None };
    if draw(FAULT, 6) == 5 {
        // The disk fills up
        for f in shm().files.iter_mut().take(threads) {
            f.cap = (f.len + draw(FAULT, 3000)).min(f.cap);
        }
    }
    let ops = 1 + w(3);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for id in 0..threads {
        let c = crash.and_then(|c| (c.0 == id).then_some(c.1));
        tasks.push(Box::new(move || client(id, cfg, faults, c, ops)));
    }
    sched::run(draw(SCHED, sched::rates()), 1 << 20, tasks);
}

pub fn c01() {
    let threads = 1 + w(3) as usize;
    let lives = 1 + w(4);
    let cfg = Cfg::draw();
    for k in 0..=lives {
        shm().lives += 1;
        shm().scratch[0] = 0;
        shm().entropy = shm::mix(k as u64, draw(FAULT, u32::MAX) as u64);
        let status = sys::fork_run(|| life(k == lives, threads, &cfg));
        if shm().scratch[0] == 1 && status == 9 << 8 {
            lose_tails();
        } else if status != 0 {
            sys::pass_on(status);
        }
    }
}

// ------------------------------------------------------------------ C02

pub fn c02() {
    let large = w(12) == 11;
    let cfg = if large { Cfg::draw() } else { Cfg::draw().small() };
    let cards = cfg.cards(3);
    let gateway = if w(3) == 0 { None } else { Some(Gateway::draw()) };
    let texts: Vec<String> = cards
        .iter()
        .map(|c| {
            let t = render(c);
            gateway.as_ref().map_or(t.clone(), |g| g.pass(&t))
        })
        .collect();
    let victim = fl(cards.len());
    let before: String = texts[..victim].concat();
    let text = &texts[victim];
    show("before", &before);
    show("cut", text);
    // Past this byte nothing is missing
    let whole = end_of_last_line(text);
    let first = text.len() - text.trim_start_matches(['\r', '\n']).len();
    let mut cuts: Vec<usize> = Vec::new();
    if whole - first <= 700 {
        cuts.extend(first + 1..whole);
    } else {
        // Around every line end and at drawn places
        for (p, b) in text.bytes().enumerate() {
            if b == b'\n' && cuts.len() < 400 {
                cuts.extend([p.saturating_sub(1), p, p + 1, p + 2]);
            }
        }
        for _ in 0..if large { 30 } else { 200 } {
            cuts.push(first + 1 + fl(whole - first - 1));
        }
        cuts.retain(|c| *c > first && *c < whole);
        // Large cards take long to read
        while large && cuts.len() > 60 {
            let i = fl(cuts.len());
            cuts.swap_remove(i);
        }
    }
    let healthy: Vec<&Vcard> = cards[..victim].iter().collect();
    // The tear as it happens on a disk that fills up
    if before.len() + text.len() < shm().files[0].cap as usize {
        let cut = cuts[fl(cuts.len())];
        let mut file = SimFile::new(0, Faults { eio: 0, flush: 0, ..Faults::draw() });
        shm().files[0].cap = (before.len() + cut) as u32;
        let whole_text = format!("{before}{text}");
        check();
        if file.write_all(whole_text.as_bytes()).is_ok() {
            violate("harness", "a full disk took everything");
        }
        let raw = file.contents().to_vec();
        torn(&damage::text(&raw), &healthy, cut);
    }
    for cut in cuts {
        count(F_TORN);
        let t = damage::text(&text.as_bytes()[..cut]);
        torn(&format!("{before}{t}"), &healthy, cut);
    }
}

/// Where the last line that is not blank ends, wherever it is folded.
fn end_of_last_line(text: &str) -> usize {
    let mut start = 0;
    let mut at = 0;
    for l in text.split_inclusive('\n') {
        if !l.starts_with([' ', '\t']) && !l.trim_end_matches(['\r', '\n']).is_empty() {
            start = at;
        }
        at += l.len();
    }
    let rest = &text[start..];
    let mut left = "END:VCARD".len();
    for (p, b) in rest.bytes().enumerate() {
        left -= !b" \t\r\n".contains(&b) as usize;
        if left == 0 {
            return start + p + 1;
        }
    }
    text.len()
}

fn torn(text: &str, healthy: &[&Vcard], cut: usize) {
    check();
    let fail = |what: &str| -> ! {
        violate("torn", &format!("cut at byte {cut} of the last card: {what}; text {}", clip(&format!("{text:?}"))))
    };
    if strict(text).is_ok() {
        fail("strict reading does not notice");
    }
    if loose(text).is_ok() {
        fail("loose reading does not notice");
    }
    for mode in [true, false] {
        let got = items(text, mode);
        let cards = good(&got);
        if cards.len() > healthy.len() {
            fail(&format!("iterating (strict {mode}) returns a card for the torn text"));
        }
        if cards.len() < healthy.len() || cards.iter().zip(healthy).any(|(a, b)| canon::diff(a, b).is_some()) {
            fail(&format!("iterating (strict {mode}) does not return the cards before the cut: {}", describe(&got)));
        }
        if !matches!(got.last(), Some(Err(_))) {
            fail(&format!("iterating (strict {mode}) does not report the cut"));
        }
    }
    if healthy.is_empty() && single(text).is_ok() {
        fail("conversion of a single card does not notice");
    }
}

// ------------------------------------------------------------------ C03

type Shown<'a> = (&'static str, &'a (dyn fmt::Display + Sync));

/// Everything in a card that can be rendered.
fn displays<'a>(c: &'a Vcard, out: &mut Vec<Shown<'a>>) {
    out.push(("Vcard", c));
    macro_rules! each {
        ($($m:ident),*; $($o:ident),*) => {
            $( for p in &c.$m { out.push((stringify!($m), p)); } )*
            $( if let Some(p) = &c.$o { out.push((stringify!($o), p)); } )*
        };
    }
    each!(xml, formatted_name, nickname, photo, url, tel, email, impp, lang, title, role, logo, org, member, related,
          timezone, geo, categories, note, sound, client_pid_map, key, fburl, cal_adr_uri, cal_uri, source, address, extensions;
          kind, name, bday, anniversary, gender, prod_id, rev, uid);
    for p in &c.url {
        out.push(("Uri", &p.value));
    }
    for p in &c.address {
        out.push(("DeliveryAddress", &p.value));
    }
    for p in &c.client_pid_map {
        out.push(("ClientPidMap", &p.value));
    }
    if let Some(p) = &c.gender {
        out.push(("Gender", &p.value));
        out.push(("Sex", &p.value.sex));
    }
    if let Some(p) = &c.kind {
        out.push(("Kind", &p.value));
    }
    if let Some(p) = &c.rev {
        out.push(("DateTime", &p.value));
    }
    for p in c.bday.iter().chain(&c.anniversary) {
        if let DateTimeOrTextProperty::DateTime(p) = p {
            for v in &p.value {
                out.push(("DateAndOrTime", v));
                if let DateAndOrTime::Date(d) = v {
                    out.push(("Date", d));
                }
            }
        }
    }
    for p in &c.extensions {
        out.push(("AnyProperty", &p.value));
    }
    let mut params = |p: &'a Option<vcard4::parameter::Parameters>| {
        if let Some(p) = p {
            out.push(("Parameters", p));
            for t in p.types.iter().flatten() {
                out.push(("TypeParameter", t));
            }
            for t in p.pid.iter().flatten() {
                out.push(("Pid", t));
            }
            if let Some(t) = &p.value {
                out.push(("ValueType", t));
            }
        }
    };
    for p in c.formatted_name.iter().chain(&c.note).chain(&c.email).chain(&c.title) {
        params(&p.parameters);
    }
    for p in &c.address {
        params(&p.parameters);
    }
    for p in &c.extensions {
        params(&p.parameters);
    }
}

/// Render into a sink and compare with the fault-free text.
fn one_sink(d: &Shown, fail: Fail, want: &str, back: Option<&mut dyn FnMut(usize)>) -> usize {
    let mut sink = Sink::new(fail);
    sink.back = back;
    let r = call(d.0, || write!(sink, "{}", d.1));
    check();
    event(sched::tid(), EV_SINK, sink.calls as u64, sink.failed as u64);
    if r.is_err() != sink.failed {
        let what = if sink.failed { "the failure of the writer is not reported" } else { "an error although the writer never failed" };
        violate("unreported", &format!("{} into a sink that fails with {fail:?}: {what}; text {}", d.0, clip(want)));
    }
    if !want.starts_with(&sink.text) || (!sink.failed && sink.text != want) {
        violate(
            "prefix",
            &format!("{} into a sink that fails with {fail:?} wrote {} which is not how {} starts", d.0, clip(&sink.text), clip(want)),
        );
    }
    sink.calls
}

fn io_sink(d: &Shown, want: &str, fail_at: Option<usize>) {
    let mut sink = IoSink { faults: Faults { eio: 0, flush: 0, ..Faults::draw() }, fail_at, data: Vec::new(), failed: false };
    let r = call(d.0, || write!(sink, "{}", d.1));
    check();
    if r.is_err() != sink.failed {
        violate("unreported", &format!("{} into a file that fails at {fail_at:?}: result {:?}, failed {}", d.0, r.map_err(|e| e.to_string()), sink.failed));
    }
    if !want.as_bytes().starts_with(&sink.data) || (!sink.failed && sink.data != want.as_bytes()) {
        violate("prefix", &format!("{} into a file that fails at {fail_at:?} wrote {}", d.0, clip(&damage::text(&sink.data))));
    }
}

pub fn c03() {
    let cfg = Cfg::draw();
    let card = cfg.card();
    note(|| format!("card: {card:?}"));
    let print = canon::hash(&card);
    let mut all = Vec::new();
    displays(&card, &mut all);
    let wants: Vec<String> = all.iter().map(|d| call(d.0, || d.1.to_string())).collect();
    seen(EV_TEXT, &wants[0]);
    let foreign = damage::foreign(&cfg);
    // Every place where a writer can fail, one by one
    for (d, want) in all.iter().zip(&wants) {
        let calls = one_sink(d, Fail::Never, want, None);
        let most = if d.0 == "Vcard" { 120 } else { 24 };
        for k in 0..calls.min(most) {
            one_sink(d, Fail::Call(k), want, None);
            one_sink(d, Fail::Once(k), want, None);
        }
        for _ in 0..6 {
            let at = fl(want.len() + 1);
            one_sink(d, if fl(2) == 0 { Fail::Byte(at) } else { Fail::Full(at) }, want, None);
            io_sink(d, want, Some(at));
        }
        io_sink(d, want, None);
        // And it works again after all of these failures
        one_sink(d, Fail::Never, want, None);
    }
    // A writer that calls the library from inside of a write
    {
        let (d, want) = (&all[0], &wants[0]);
        let deep = render_values(&foreign);
        let rate = 1 + fl(7);
        let mut back = |call: usize| {
            if call % rate == 0 {
                let now = render_values(&foreign);
                if now != deep {
                    violate("reentrant", "reading from inside of a write gives another result");
                }
                let text = sys::call("rendering inside of a write", || card.to_string());
                if text != wants[0] {
                    violate("reentrant", "rendering from inside of a write gives another text");
                }
            }
        };
        let calls = one_sink(d, Fail::Never, want, Some(&mut back));
        one_sink(d, Fail::Call(fl(calls)), want, Some(&mut back));
    }
    // Several callers that render the same card
    let k = 2 + w(2) as usize;
    let plans: Vec<Vec<(usize, Fail)>> = (0..k)
        .map(|_| {
            (0..1 + w(4))
                .map(|_| {
                    let i = if w(2) == 0 { 0 } else { w(all.len() as u32) as usize };
                    let f = match fl(4) {
                        0 => Fail::Never,
                        1 => Fail::Call(fl(40)),
                        2 => Fail::Once(fl(40)),
                        _ => Fail::Byte(fl(wants[i].len() + 1)),
                    };
                    (i, f)
                })
                .collect()
        })
        .collect();
    let (all, wants) = (&all, &wants);
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for plan in &plans {
        tasks.push(Box::new(move || {
            for (i, f) in plan {
                one_sink(&all[*i], *f, &wants[*i], None);
            }
        }));
    }
    sched::run(1 + draw(SCHED, sched::rates() - 1), 1 << 20, tasks);
    check();
    if canon::hash(&card) != print {
        violate("changed", "rendering changed the card");
    }
}

fn render_values(text: &str) -> u64 {
    let r = items(text, false);
    r.iter().map(|r| r.as_ref().map_or(5, |c| hash_bytes(3, sys::call("render", || c.to_string()).as_bytes()))).fold(1, shm::mix)
}

// ------------------------------------------------------------------ C04

/// How often healthy cards appear in order among the items.
fn contains(got: &[&Vcard], want: &[&Vcard]) -> Option<usize> {
    let mut at = 0;
    for (i, c) in want.iter().enumerate() {
        let h = canon::hash(c);
        match got[at..].iter().position(|g| canon::hash(g) == h) {
            Some(p) => at += p + 1,
            None => return Some(i),
        }
    }
    None
}

pub fn c04() {
    let mut cfg = Cfg::draw();
    if w(4) > 0 {
        cfg = cfg.small();
    }
    let k = 2 + w(5) as usize;
    let cards: Vec<Vcard> = (0..k).map(|_| cfg.card()).collect();
    let gateway = if w(3) == 2 { Some(Gateway::draw()) } else { None };
    let mut text = String::new();
    let mut healthy = Vec::new();
    let mut errors = 0;
    let mut hit = false;
    for (i, c) in cards.iter().enumerate() {
        let t = render(c);
        let t = gateway.as_ref().map_or(t.clone(), |g| g.pass(&t));
        let damaged = fl(3) == 0 || (!hit && i + 1 == k);
        if damaged {
            hit = true;
            let mut d = t.into_bytes();
            match fl(4) {
                // A torn append
                0 => {
                    count(D_TRUNCATE);
                    let n = fl(d.len());
                    d.truncate(n);
                }
                _ => damage::damage(&mut d, 5),
            }
            let mut s = damage::text(&d);
            if s.starts_with([' ', '\t']) {
                // Else the line before it would be damaged
                s.insert(0, 'x');
            }
            if !s.is_empty() && !s.ends_with('\n') {
                s.push_str("\r\n");
            }
            // Every start may give an item, and so may the junk after it
            errors += 1 + 2 * damage::logical(&s).iter().filter(|l| l.get(..11).is_some_and(|l| l.eq_ignore_ascii_case("BEGIN:VCARD"))).count();
            text.push_str(&s);
        } else {
            healthy.push(c);
            text.push_str(&t);
        }
    }
    show("stream", &text);
    seen(EV_TEXT, &text);
    let most = lines(&text);
    for mode in [true, false] {
        let got = items(&text, mode);
        check();
        if got.len() > most {
            violate("endless", &format!("{} items for {} lines", got.len(), most));
        }
        let cards = good(&got);
        if let Some(i) = contains(&cards, &healthy) {
            violate(
                "lost",
                &format!(
                    "healthy card {} of {} is not returned (strict {mode}): {}; text {}",
                    i + 1,
                    healthy.len(),
                    describe(&got),
                    clip(&format!("{text:?}"))
                ),
            );
        }
        let extra = got.len() - healthy.len();
        if extra > errors {
            violate("noise", &format!("{extra} items for damaged parts that can give {errors} (strict {mode}): {}; text {}", describe(&got), clip(&format!("{text:?}"))));
        }
    }
}

// ------------------------------------------------------------------ C05

const FRAMES: [&str; 4] = ["BEGIN:VCARD", "END:VCARD", "VERSION:3.0", "VERSION:4.0"];

fn frames(line: &str) -> bool {
    FRAMES.iter().any(|f| line.get(..f.len()).is_some_and(|l| l.eq_ignore_ascii_case(f)))
}

fn name_of(line: &str) -> String {
    let n = &line[..line.find([':', ';']).unwrap_or(line.len())];
    n.rsplit('.').next().unwrap_or(n).to_uppercase()
}

pub fn c05() {
    let mut cfg = Cfg::draw();
    if w(4) > 0 {
        cfg = cfg.small();
    }
    let card = cfg.card();
    let text = render(&card);
    let text = if w(3) == 2 { Gateway::draw().pass(&text) } else { text };
    // Split into the lines of each property, folds included
    let mut blocks: Vec<String> = Vec::new();
    for l in text.split_inclusive('\n') {
        if l.trim_end_matches(['\r', '\n']).is_empty() {
            continue;
        }
        if l.starts_with([' ', '\t']) && !blocks.is_empty() {
            blocks.last_mut().unwrap().push_str(l);
        } else {
            blocks.push(l.to_string());
        }
    }
    let (head, tail) = (blocks[..2].concat(), blocks[blocks.len() - 1].clone());
    let body: Vec<String> = blocks[2..blocks.len() - 1].to_vec();
    // What each line means on its own
    let alone: Vec<canon::Prop> = body
        .iter()
        .map(|l| {
            let t = format!("{head}{l}{tail}");
            let got = items(&t, false);
            let p = match got.first() {
                Some(Ok(c)) => props(c),
                _ => Vec::new(),
            };
            check();
            if p.len() != 1 {
                violate("lost", &format!("an undamaged line is read as {} properties: {}", p.len(), clip(&format!("{t:?}"))));
            }
            p.into_iter().next().unwrap()
        })
        .collect();
    let (mut a, mut b) = (alone.clone(), props(&card));
    a.sort();
    b.sort();
    if a != b {
        violate("changed", &format!("the lines of a card read one by one differ from the card: {}", clip(&format!("{text:?}"))));
    }
    // Damage some of the lines: (text, meaning if not damaged)
    let mut lines: Vec<(String, Option<canon::Prop>)> = body.into_iter().zip(alone.into_iter().map(Some)).collect();
    let n = 1 + fl(4);
    for _ in 0..n {
        let i = fl(lines.len());
        match fl(8) {
            0 => {
                count(D_DUP);
                let mut l = lines[i].clone();
                if l.1.is_some() && fl(2) == 1 {
                    // An old value delivered again
                    if let Some(p) = l.0.find(':') {
                        let kind = damage::FRAGMENTS[fl(damage::FRAGMENTS.len())].replace(['\r', '\n'], "");
                        l.0 = format!("{}{}\r\n", &l.0[..p + 1], kind);
                    }
                }
                l.1 = None;
                let at = i + 1 + fl(lines.len() - i);
                lines.insert(at, l);
            }
            1 => {
                count(D_REORDER);
                let j = fl(lines.len());
                lines.swap(i, j);
            }
            2 => {
                count(D_JUNK);
                lines.insert(i, (format!("{}\r\n", damage::foreign_line(&cfg)), None));
            }
            3 => {
                count(D_TRUNCATE);
                let l = &mut lines[i];
                let mut at = fl(l.0.len());
                while !l.0.is_char_boundary(at) {
                    at -= 1;
                }
                l.0.truncate(at);
                l.0.push_str("\r\n");
                l.1 = None;
            }
            // A type that nobody knows says nothing
            4 if lines[i].1.is_some() => {
                let l = &mut lines[i];
                let mut one = damage::logical(&l.0)[0].clone();
                if !one.to_uppercase().contains("VALUE") && damage::logical(&l.0).len() == 1 {
                    count(D_JUNK);
                    let at = one.find([':', ';']).unwrap_or(one.len());
                    let v = ["phone-number", "x-thing", "binary", "texts", "vcard", "", "x-", "inline", "content-id"][fl(9)];
                    one.insert_str(at, &format!(";VALUE={v}"));
                    one.push_str("\r\n");
                    l.0 = one;
                }
            }
            _ => {
                let l = &mut lines[i];
                let mut d = l.0.clone().into_bytes();
                damage::damage(&mut d, 3);
                l.0 = damage::text(&d);
                l.1 = None;
            }
        }
    }
    let mut damaged = 0;
    for i in 0..lines.len() {
        if lines[i].1.is_some() {
            continue;
        }
        let mut s = lines[i].0.clone();
        if s.starts_with([' ', '\t']) {
            s.insert(0, 'x');
        }
        if !s.is_empty() && !s.ends_with('\n') {
            s.push_str("\r\n");
        }
        let parts = damage::logical(&s);
        let later: Vec<String> = lines[i + 1..].iter().filter(|l| l.1.is_some()).map(|l| name_of(&damage::logical(&l.0)[0])).collect();
        let bad = parts.iter().any(|p| frames(p) || (canon::ONCE.contains(&&name_of(p)[..]) && later.contains(&name_of(p))));
        if bad {
            s = "junk\r\n".to_string();
        }
        damaged += damage::logical(&s).len();
        lines[i].0 = s;
    }
    let body: String = lines.iter().map(|l| &l.0[..]).collect();
    let text = format!("{head}{body}{tail}");
    show("damaged card", &text);
    seen(EV_TEXT, &text);
    let fail = |class: &str, what: String| -> ! { violate(class, &format!("{what}; text {}", clip(&format!("{text:?}")))) };
    let got = items(&text, false);
    check();
    let [Ok(got)] = &got[..] else {
        fail("lost", format!("loose reading of a card with damaged properties: {}", describe(&got)));
    };
    let mut want: BTreeMap<&str, Vec<&String>> = BTreeMap::new();
    for l in &lines {
        if let Some(p) = &l.1 {
            want.entry(p.0).or_default().push(&p.1);
        }
    }
    let have = props(got);
    let mut extra = have.len() as isize;
    for (name, values) in &want {
        let mut it = have.iter().filter(|p| p.0 == *name);
        for v in values {
            if !it.any(|p| p.1 == **v) {
                fail("lost", format!("the undamaged {name} {} is missing or out of order", clip(v)));
            }
            extra -= 1;
        }
        let once = canon::ONCE.contains(&&name.to_uppercase()[..]) || ["name", "prod_id"].contains(name);
        if once && have.iter().filter(|p| p.0 == *name).count() > 1 {
            fail("noise", format!("{name} more than once"));
        }
    }
    if extra > damaged as isize {
        fail("noise", format!("{extra} properties from {damaged} damaged lines"));
    }
    // Exactly what each line means alone, the first of what may occur once
    let mut meaning: Vec<canon::Prop> = Vec::new();
    for block in lines.iter().flat_map(|l| damage::blocks(&l.0)) {
        let t = format!("{head}{block}{tail}");
        let one = items(&t, false);
        let Some(Ok(c)) = one.first() else {
            fail("lost", format!("a card with one damaged line is lost: {}; alone {}", describe(&one), clip(&format!("{t:?}"))));
        };
        let p = props(c);
        if p.len() > 1 {
            fail("noise", format!("{} properties from one line {}", p.len(), clip(&format!("{block:?}"))));
        }
        // Loose reading skips what strict reading refuses, unknown values of
        // VALUE excepted
        let refused = matches!(items(&t, true).first(), Some(Err(_)));
        if refused && !p.is_empty() && !damage::logical(&block)[0].to_uppercase().contains("VALUE") {
            fail("noise", format!("strict reading refuses {} and loose reading makes {} {} of it", clip(&format!("{block:?}")), p[0].0, clip(&p[0].1)));
        }
        meaning.extend(p);
    }
    check();
    let mut names: Vec<&str> = meaning.iter().chain(&have).map(|p| p.0).collect();
    names.sort();
    names.dedup();
    for name in names {
        let pick = |v: &[canon::Prop]| v.iter().filter(|p| p.0 == name).map(|p| p.1.clone()).collect::<Vec<_>>();
        let (mut a, b) = (pick(&meaning), pick(&have));
        if canon::ONCE_FIELDS.contains(&name) {
            a.truncate(1);
        }
        if a != b {
            fail("noise", format!("{name}: the lines say {}, the card {}", clip(&format!("{a:?}")), clip(&format!("{b:?}"))));
        }
    }
    check();
    if call("validate", || got.validate()).is_ok() {
        match loose(&text) {
            Ok(c) if c.len() == 1 && canon::diff(&c[0], got).is_none() => {}
            r => fail("lost", format!("parse_loose differs from iterating: {:?}", r.map(|c| c.len()))),
        }
    }
}

// ------------------------------------------------------------------ C06

pub fn c06() {
    let cfg = Cfg::draw();
    let cards = cfg.cards(2);
    let mut texts: Vec<String> = Vec::new();
    let rendered: String = cards.iter().map(render).collect();
    texts.push(rendered);
    for _ in 0..1 + w(3) {
        texts.push(damage::foreign(&cfg));
    }
    let values: Vec<String> = (0..6).map(|_| gen::value_text()).collect();
    for t in &texts {
        show("text", t);
    }
    note(|| format!("values: {values:?}"));
    let work = || -> Vec<(String, String)> {
        let mut out = Vec::new();
        for t in &texts {
            out.push((format!("parse of {t:?}"), format!("{:?}", strict(t))));
            for mode in [true, false] {
                let got = items(t, mode);
                for c in good(&got) {
                    out.push(("rendering".to_string(), call("render", || c.to_string())));
                }
                out.push((format!("iter of {t:?}"), format!("{got:?}")));
            }
        }
        for c in &cards {
            out.push(("rendering".to_string(), call("render", || c.to_string())));
        }
        for v in &values {
            out.push((format!("value {v:?}"), call("a value parser", || gen::value_results(v))));
        }
        out
    };
    let base = work();
    for _ in 0..4 {
        let s = shm();
        s.clock_ns = sys::draw_clock(FAULT);
        s.clock_mode = draw(FAULT, 3);
        count(K_CLOCK);
        event(0, EV_CLOCK, s.clock_ns as u64, s.clock_mode as u64);
        note(|| format!("clock at {} ns, mode {}", s.clock_ns, s.clock_mode));
        let start = s.clock_ns;
        let now = work();
        check();
        for (a, b) in base.iter().zip(&now) {
            if a.1 != b.1 {
                violate("clock", &format!("with the clock at {} ns {} gives {} instead of {}", start, clip(&a.0), clip(&b.1), clip(&a.1)));
            }
        }
    }
    if shm().clock_reads > 0 {
        violate("clock", "reading or rendering cards reads the clock");
    }
    // Asking for the current time
    for _ in 0..3 {
        let s = shm();
        s.clock_mode = sys::CLOCK_STEADY;
        s.clock_ns = sys::draw_clock(FAULT).clamp(-62_000_000_000_000_000_000, 250_000_000_000_000_000_000);
        count(K_CLOCK);
        let now = call("DateTime::now_utc", vcard4::DateTime::now_utc);
        check();
        let t: vcard4::time::OffsetDateTime = now.into();
        if t.unix_timestamp_nanos() != s.clock_ns || !t.offset().is_utc() {
            violate("now", &format!("now_utc() gives {t} while the clock shows {} ns", s.clock_ns));
        }
    }
}

// ------------------------------------------------------------------ C07

enum Op {
    Strict(usize),
    Loose(usize),
    Iter(usize, bool),
    Single(usize),
    Render(usize),
    Edit(usize, Box<Vcard>),
    Value(String),
    Nested(usize, usize, usize, usize),
    Steps(usize, usize),
    Fail(usize, usize),
    Panic(usize, usize),
}

struct World {
    texts: Vec<String>,
    cards: Vec<Vcard>,
}

fn result<T: fmt::Debug>(v: T) -> u64 {
    hash_bytes(9, format!("{v:?}").as_bytes())
}

impl Op {
    fn draw(wd: &World, cfg: &Cfg) -> Op {
        let t = w(wd.texts.len() as u32) as usize;
        let c = w(wd.cards.len() as u32) as usize;
        match w(11) {
            0 => Op::Strict(t),
            1 => Op::Render(c),
            2 => Op::Loose(t),
            3 => Op::Iter(t, w(2) == 0),
            4 => Op::Single(t),
            5 => Op::Edit(c, Box::new(cfg.card())),
            6 => Op::Value(gen::value_text()),
            7 => Op::Nested(c, t, w(wd.cards.len() as u32) as usize, 5),
            8 => Op::Steps(t, w(wd.texts.len() as u32) as usize),
            9 => Op::Panic(c, w(60) as usize),
            _ => Op::Fail(c, w(60) as usize),
        }
    }

    fn short(wd: &World) -> Op {
        let t = w(wd.texts.len() as u32) as usize;
        let c = w(wd.cards.len() as u32) as usize;
        match w(9) {
            0..=2 => Op::Render(c),
            3 | 4 => Op::Strict(t),
            5 => Op::Loose(t),
            6 => Op::Nested(c, t, w(wd.cards.len() as u32) as usize, 1 + w(3) as usize),
            7 => Op::Panic(c, w(20) as usize),
            _ => Op::Fail(c, w(20) as usize),
        }
    }

    fn alike(wd: &World, which: u32, cfg: &Cfg) -> Op {
        match which {
            0 => Op::Render(w(wd.cards.len() as u32) as usize),
            1 => Op::Strict(w(wd.texts.len() as u32) as usize),
            2 => Op::Value(gen::value_text()),
            _ => Op::Edit(w(wd.cards.len() as u32) as usize, Box::new(cfg.tiny(w(gen::KINDS)))),
        }
    }

    fn run(&self, wd: &World) -> u64 {
        match self {
            Op::Strict(t) => result(strict(&wd.texts[*t])),
            Op::Loose(t) => result(loose(&wd.texts[*t])),
            Op::Iter(t, s) => result(items(&wd.texts[*t], *s)),
            Op::Single(t) => result(single(&wd.texts[*t])),
            Op::Render(c) => result(call("render", || wd.cards[*c].to_string())),
            Op::Edit(c, other) => {
                let mut mine = call("clone", || wd.cards[*c].clone());
                let more = call("clone", || (**other).clone());
                mine.note.extend(more.note.iter().cloned());
                mine.formatted_name.insert(0, more.formatted_name[0].clone());
                mine.tel.clear();
                mine.extensions.extend(more.extensions.iter().cloned());
                let eq = call("compare", || mine == wd.cards[*c]);
                let r = result((call("render", || mine.to_string()), eq, call("validate", || mine.validate()).is_ok()));
                call("drop", || {
                    drop(mine);
                    drop(more);
                });
                r
            }
            Op::Value(v) => result(call("a value parser", || gen::value_results(v))),
            Op::Nested(c, t, other, stride) => {
                let mut inner = 0;
                let mut back = |call: usize| {
                    if call % stride == 0 {
                        if call % 2 == 0 {
                            inner = shm::mix(inner, result(items(&wd.texts[*t], true)));
                        }
                        inner = shm::mix(inner, result(sys::call("render", || wd.cards[*other].to_string())));
                    }
                };
                let mut sink = Sink::new(Fail::Never);
                sink.back = Some(&mut back);
                let r = call("render", || write!(sink, "{}", wd.cards[*c])).is_ok();
                let text = std::mem::take(&mut sink.text);
                shm::mix(result((r, text)), inner)
            }
            Op::Steps(a, b) => {
                // Two iterators that take turns
                let mut out = 0;
                call("iter", || {
                    let mut x = iter(&wd.texts[*a], true);
                    let mut y = iter(&wd.texts[*b], false);
                    for _ in 0..12 {
                        let (p, q) = (x.next(), y.next());
                        let end = p.is_none() && q.is_none();
                        out = shm::mix(out, result((p, q)));
                        if end {
                            break;
                        }
                    }
                });
                out
            }
            Op::Fail(c, k) => {
                let mut sink = Sink::new(Fail::Call(*k));
                let r = call("render", || write!(sink, "{}", wd.cards[*c])).is_ok();
                let text = std::mem::take(&mut sink.text);
                result((r, text))
            }
            Op::Panic(c, k) => {
                let mut sink = PanicSink { at: *k, calls: 0 };
                let r = sys::sut(|| write!(sink, "{}", wd.cards[*c]).is_ok());
                result((r, sink.calls))
            }
        }
    }

    fn name(&self) -> String {
        match self {
            Op::Strict(t) => format!("parse text {t}"),
            Op::Loose(t) => format!("parse_loose text {t}"),
            Op::Iter(t, s) => format!("iter text {t} strict {s}"),
            Op::Single(t) => format!("try_from text {t}"),
            Op::Render(c) => format!("render card {c}"),
            Op::Edit(c, _) => format!("clone, edit and render card {c}"),
            Op::Value(v) => format!("value parsers on {v:?}"),
            Op::Nested(c, t, o, k) => format!("render card {c} and at each {k}. write read text {t} and render card {o}"),
            Op::Steps(a, b) => format!("iterate over texts {a} and {b} in turns"),
            Op::Fail(c, k) => format!("render card {c} into a writer that fails at call {k}"),
            Op::Panic(c, k) => format!("render card {c} into a writer that panics after {k} calls"),
        }
    }
}

pub fn c07() {
    let cfg = Cfg::draw().small();
    // Many short calls that meet in the same few places, or fewer longer ones
    let style = w(4);
    let meet = style > 0;
    let cards = if style > 1 {
        let family = w(gen::FAMILIES);
        (0..2 + w(3)).map(|_| cfg.focus(family)).collect()
    } else if meet {
        let kinds: Vec<u32> = (0..2 + w(3)).map(|_| w(gen::KINDS)).collect();
        (0..3 + w(5)).map(|i| cfg.tiny(kinds[i as usize % kinds.len()])).collect()
    } else {
        cfg.cards(3)
    };
    let mut texts: Vec<String> = cards.iter().map(render).collect();
    if !meet {
        texts.push(texts.concat());
        for _ in 0..1 + w(2) {
            texts.push(damage::foreign(&cfg));
        }
    }
    let mut d = texts[0].clone().into_bytes();
    damage::damage(&mut d, 3);
    texts.push(damage::text(&d));
    for t in &texts {
        show("text", t);
    }
    let wd = World { texts, cards };
    let k = 2 + w(3) as usize;
    let (all_alike, alike) = (w(2) == 1, w(4));
    let plan = |_| -> Vec<Op> {
        match meet {
            true if all_alike => (0..4 + w(28)).map(|_| Op::alike(&wd, alike, &cfg)).collect(),
            true => (0..4 + w(28)).map(|_| Op::short(&wd)).collect(),
            false => (0..1 + w(5)).map(|_| Op::draw(&wd, &cfg)).collect(),
        }
    };
    let plans: Vec<Vec<Op>> = (0..k).map(plan).collect();
    for (i, p) in plans.iter().enumerate() {
        note(|| format!("thread {}: {}", i + 1, p.iter().map(|o| o.name()).collect::<Vec<_>>().join("; ")));
    }
    // Each history alone, in a process of its own with other entropy
    let mut want: Vec<Vec<u64>> = Vec::new();
    for (i, plan) in plans.iter().enumerate() {
        shm().entropy = shm::mix(draw(FAULT, u32::MAX) as u64, i as u64);
        let status = sys::fork_run(|| {
            for (j, op) in plan.iter().enumerate() {
                let r = op.run(&wd);
                shm().scratch[j] = r;
            }
        });
        if status != 0 {
            sys::pass_on(status);
        }
        want.push(shm().scratch[..plan.len()].to_vec());
        // No call leaves anything behind for the calls after it
        shm().entropy = shm::mix(shm().entropy, 1);
        let status = sys::fork_run(|| {
            for (j, op) in plan.iter().enumerate().rev() {
                let r = op.run(&wd);
                shm().scratch[j] = r;
            }
        });
        if status != 0 {
            sys::pass_on(status);
        }
        for (j, op) in plan.iter().enumerate() {
            if shm().scratch[j] != want[i][j] {
                violate("disturbed", &format!("thread {}, operation {}: {} gives another result when the operations of the thread run in reverse order", i + 1, j + 1, op.name()));
            }
        }
    }
    // Iterators that another thread starts, and what one thread gets from them
    let mut handed = Vec::new();
    for _ in 0..k {
        let (t, mode, n) = (w(wd.texts.len() as u32) as usize, w(2) == 0, w(3));
        let status = sys::fork_run(|| shm().scratch[0] = result(items(&wd.texts[t], mode)));
        if status != 0 {
            sys::pass_on(status);
        }
        handed.push((t, mode, n, shm().scratch[0]));
    }
    shm().entropy = draw(FAULT, u32::MAX) as u64;
    let (wd, plans, want) = (&wd, &plans, &want);
    let prints: Vec<u64> = wd.cards.iter().map(canon::hash).collect();
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for i in 0..k {
        let (t, mode, n, whole) = handed[i];
        let (rest, mut got) = begin(&wd.texts[t], mode, n);
        note(|| format!("thread {} goes on with an iterator (strict {mode}) over text {t} after {n} items", i + 1));
        let rest = Moved(rest);
        tasks.push(Box::new(move || {
            let rest = rest;
            got.extend(finish(&wd.texts[t], rest.0));
            if result(&got) != whole {
                violate("disturbed", &format!("thread {}: an iterator started by another thread gives other items: {}", i + 1, clip(&format!("{got:?}"))));
            }
            drop(got);
            for (j, op) in plans[i].iter().enumerate() {
                event(sched::tid(), EV_OP, j as u64, 0);
                let r = op.run(wd);
                check();
                event(sched::tid(), EV_OP, j as u64, r);
                if r != want[i][j] {
                    violate("disturbed", &format!("thread {}, operation {}: {} gives another result than alone", i + 1, j + 1, op.name()));
                }
            }
        }));
    }
    sched::run(1 + draw(SCHED, sched::rates() - 1), 1 << 20, tasks);
    check();
    if wd.cards.iter().map(canon::hash).collect::<Vec<_>>() != prints {
        violate("changed", "a shared card changed");
    }
}

// ------------------------------------------------------------------ C08

struct PanicSink {
    at: usize,
    calls: usize,
}

impl fmt::Write for PanicSink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        sys::harness(sched::point);
        self.calls += 1;
        if self.calls > self.at {
            count(F_PANIC);
            panic!("injected");
        }
        Ok(())
    }
}

fn leaked(what: &str) {
    check();
    if sys::LEAKED.load(Relaxed) > 0 {
        let block = unsafe { std::ptr::read(std::ptr::addr_of!(sys::LEAK)) };
        let end = block.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
        violate("leak", &format!("{what}: a block given back still holds {:?}", String::from_utf8_lossy(&block[..end])));
    }
}

/// Drop a card in one of the ways a card dies.
fn die(c: Vcard, how: usize, other: Vcard) {
    match how {
        0 => sys::scanning(|| call("drop", || drop(c))),
        1 => {
            let mut c = c;
            let empty: vcard4::property::DeliveryAddress = ";;;;;;".parse().unwrap();
            sys::scanning(|| {
                call("drop", || {
                    // One by one, in each way a part can go
                    for p in c.note.iter_mut().chain(&mut c.title).chain(&mut c.nickname) {
                        p.parameters.take();
                    }
                    let params = c.email.iter_mut().map(|p| &mut p.parameters);
                    let params = params.chain(c.role.iter_mut().map(|p| &mut p.parameters));
                    for p in params.chain(c.org.iter_mut().map(|p| &mut p.parameters)).flatten() {
                        p.types.take();
                        p.timezone.take();
                    }
                    for p in &mut c.address {
                        p.parameters.take();
                        p.value = empty.clone();
                    }
                    if let Some(p) = &mut c.gender {
                        p.value = "F".parse().unwrap();
                    }
                    for p in c.extensions.iter_mut().skip(1) {
                        p.value = vcard4::property::AnyProperty::Boolean(true);
                    }
                    for p in c.related.iter_mut().chain(&mut c.photo) {
                        *p = String::new().into();
                    }
                    c.note = Vec::new();
                    c.formatted_name.truncate(0);
                    c.name = None;
                    c.extensions.pop();
                    c.org.drain(..);
                    while !c.client_pid_map.is_empty() {
                        c.client_pid_map.swap_remove(0);
                    }
                    c.source.clear();
                    c.kind.take();
                    c.xml.clear();
                    c.formatted_name.clear();
                    c.name.take();
                    c.nickname.clear();
                    c.photo.clear();
                    c.bday.take();
                    c.anniversary.take();
                    c.gender.take();
                    c.url.clear();
                    c.address.clear();
                    c.tel.clear();
                    c.email.clear();
                    c.impp.clear();
                    c.lang.clear();
                    c.title.clear();
                    c.role.clear();
                    c.logo.clear();
                    c.org.clear();
                    c.member.clear();
                    c.related.clear();
                    c.timezone.clear();
                    c.geo.clear();
                    c.categories.clear();
                    c.note.clear();
                    c.prod_id.take();
                    c.rev.take();
                    c.sound.clear();
                    c.uid.take();
                    c.client_pid_map.clear();
                    c.key.clear();
                    c.fburl.clear();
                    c.cal_adr_uri.clear();
                    c.cal_uri.clear();
                    c.extensions.clear();
                    drop(c)
                })
            })
        }
        2 => {
            // Overwritten by another card
            let mut slot = c;
            sys::scanning(|| call("drop", || slot = other));
            leaked("a card that was overwritten");
            sys::scanning(|| call("drop", || drop(slot)));
            return;
        }
        3 => {
            // While unwinding out of a rendering call
            canon::secrets(&c, &mut |s| {
                if s.capacity() >= sys::NEEDLE.len() {
                    sys::own(s.as_ptr());
                }
            });
            sched::expect_panics(true);
            let r = sys::sut(move || {
                let c = c;
                let mut sink = PanicSink { at: fl(60), calls: 0 };
                let _ = write!(sink, "{c}");
            });
            let _ = r;
            check();
            if sys::owned_left() > 0 {
                violate("leak", "text of a card was not given back when unwinding");
            }
            sys::forget_owned();
        }
        4 => {
            let shared = std::sync::Arc::new(c);
            let copy = shared.clone();
            drop(shared);
            sys::scanning(|| call("drop", || drop(copy)));
        }
        5 => sys::scanning(|| call("drop", || drop(vec![Some(Box::new(c)), None, Some(Box::new(other))]))),
        6 => {
            // A copy dies, the original must not change
            let copy = call("clone", || c.clone());
            let before = canon::hash(&c);
            sys::scanning(|| call("drop", || drop(copy)));
            check();
            if canon::hash(&c) != before {
                violate("changed", "dropping a copy changed the original");
            }
            sys::scanning(|| call("drop", || drop(c)));
        }
        _ => {
            // Inside of a writer that is being written to
            let mut slot = Some(c);
            let mut back = |_: usize| {
                if let Some(c) = slot.take() {
                    sys::scanning(|| sys::call("drop", || drop(c)));
                }
            };
            let mut sink = Sink::new(Fail::Never);
            sink.back = Some(&mut back);
            let _ = call("render", || write!(sink, "{other}"));
        }
    }
    leaked(["dropped", "emptied and dropped", "", "unwound", "shared", "in a list", "copied", "dropped inside of a write"][how]);
}

pub fn c08() {
    sys::CLEAN.store(true, Relaxed);
    let mut cfg = Cfg::draw();
    cfg.secret = true;
    let k = 1 + w(3) as usize;
    let mut plans: Vec<Vec<(Vcard, usize, Vcard)>> = Vec::new();
    for _ in 0..k {
        let mut plan = Vec::new();
        for _ in 0..1 + w(3) {
            let mut c = cfg.card();
            match w(4) {
                0 => {}
                1 => {
                    let t = render(&c);
                    c = match strict(&t) {
                        Ok(mut v) if v.len() == 1 => v.pop().unwrap(),
                        r => violate("changed", &format!("a rendered card cannot be read: {r:?}")),
                    };
                }
                2 => {
                    let copy = call("clone", || c.clone());
                    c = copy;
                }
                _ => {
                    cfg.edit(&mut c);
                }
            }
            let mut texts = 0;
            canon::secrets(&c, &mut |s| texts += s.contains("qZ7") as u64);
            add(C_SECRETS, texts);
            event(0, EV_CARD, canon::hash(&c), texts);
            note(|| format!("card: {c:?}"));
            plan.push((c, if k > 1 { [0, 1, 2, 4, 5, 6, 7][fl(7)] } else { fl(8) }, cfg.card()));
        }
        plans.push(plan);
    }
    if k == 1 {
        for (c, how, other) in plans.pop().unwrap() {
            note(|| format!("dies in way {how}"));
            die(c, how, other);
        }
    } else {
        let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for plan in plans {
            tasks.push(Box::new(move || {
                for (c, how, other) in plan {
                    die(c, how, other);
                }
            }));
        }
        sched::run(1 + draw(SCHED, sched::rates() - 1), 1 << 20, tasks);
    }
    add(C_BLOCKS, sys::SCANNED.load(Relaxed));
}

// ------------------------------------------------------------------ C09

fn hostile(cfg: &Cfg) -> String {
    let mut d = match w(6) {
        0 => damage::foreign(cfg).into_bytes(),
        1 => {
            let mut s = String::new();
            for _ in 0..w(12) {
                s.push_str(damage::FRAGMENTS[w(damage::FRAGMENTS.len() as u32) as usize]);
            }
            s.into_bytes()
        }
        _ => cfg.cards(3).iter().map(|c| call("render", || c.to_string())).collect::<String>().into_bytes(),
    };
    if fl(8) > 0 {
        damage::damage(&mut d, 8);
    }
    damage::text(&d)
}

/// Work of a call: allocations, bytes asked for, steps of the processor.
#[derive(Clone, Copy, Debug, Default)]
struct Work {
    allocs: u64,
    bytes: u64,
    steps: u64,
}

/// Count the work a call makes.
fn work<R>(f: impl FnOnce() -> R) -> (Work, R) {
    let now = || Work { allocs: sys::ALLOCS.load(Relaxed), bytes: sys::BYTES.load(Relaxed), steps: sys::steps() };
    let a = now();
    match sys::sut(f) {
        Err(e) => violate("panic", &format!("a reader panicked: {e}")),
        Ok(r) => {
            let b = now();
            (Work { allocs: b.allocs - a.allocs, bytes: b.bytes - a.bytes, steps: b.steps - a.steps }, r)
        }
    }
}

/// Most allocations, bytes and steps per byte of input, and what is spent
/// on any input.
const PER: Work = Work { allocs: 20, bytes: 1_500, steps: 4_000 };
const BASE: Work = Work { allocs: 4000, bytes: 400_000, steps: 2_000_000 };

fn budget(what: &str, text: &str, spent: Work) {
    check();
    let n = text.len() as u64;
    shm::max(C_MAX_ALLOCS, spent.allocs.saturating_sub(BASE.allocs) / n.max(64));
    shm::max(C_MAX_BYTES, spent.bytes.saturating_sub(BASE.bytes) / n.max(64));
    shm::max(C_MAX_STEPS, spent.steps.saturating_sub(BASE.steps) / n.max(64));
    if spent.allocs > BASE.allocs + PER.allocs * n || spent.bytes > BASE.bytes + PER.bytes * n || spent.steps > BASE.steps + PER.steps * n {
        violate("work", &format!("{what}: {spent:?} for {n} bytes of input: {}", clip(&format!("{text:?}"))));
    }
}

/// Stop what works endlessly.
fn limit(n: u64) {
    sys::BYTE_LIMIT.store(sys::BYTES.load(Relaxed) + 20 * (BASE.bytes + PER.bytes * n), Relaxed);
    sys::STEP_LIMIT.store(sys::steps() + 40 * (BASE.steps + PER.steps * n), Relaxed);
}

fn no_limit() {
    sys::BYTE_LIMIT.store(u64::MAX, Relaxed);
    sys::STEP_LIMIT.store(u64::MAX, Relaxed);
}

/// A listed finding (KNOWN_FINDINGS.md): without optimisation the lexer takes
/// a frame of the stack for each letter of a run of letters, digits and dashes.
pub const LONG_RUN: usize = 300;

fn known(text: &str) -> bool {
    if !cfg!(feature = "plain") || std::env::var_os("VCSIM_KNOWN").is_none() {
        return false;
    }
    let text = ["\r\n ", "\r\n\t", "\n ", "\n\t"].iter().fold(text.to_string(), |t, fold| t.replace(fold, ""));
    text.split(|c: char| !c.is_ascii_alphanumeric() && c != '-').any(|r| r.len() >= LONG_RUN)
}

/// The input of the finding. It ends this process if it still fails.
pub fn probe() {
    let text = format!("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\nNOTE:{}\r\nEND:VCARD\r\n", "c".repeat(20_000));
    let text = &text;
    sched::run(
        0,
        512 << 10,
        vec![Box::new(move || match work(|| parse(text)).1 {
            Ok(cards) if cards.len() == 1 => {}
            _ => violate("refused", "a long note is not read"),
        })],
    );
}

fn read_all(text: &str) {
    if known(text) {
        return;
    }
    limit(text.len() as u64);
    budget("parse", text, work(|| drop(parse(text))).0);
    let (spent, cards) = work(|| parse_loose(text));
    budget("parse_loose", text, spent);
    // What was read can be handled under the same terms
    for c in cards.iter().flatten() {
        let (spent, out) = work(|| c.to_string());
        budget("render", if out.len() > text.len() { &out } else { text }, spent);
        budget("clone and compare", text, work(|| c.clone() == *c).0);
        budget("validate", text, work(|| c.validate().is_ok()).0);
        budget("parse_photo_jpeg", text, work(|| c.parse_photo_jpeg().is_ok()).0);
    }
    budget("drop", text, work(|| drop(cards)).0);
    budget("try_from", text, work(|| drop(Vcard::try_from(text))).0);
    for mode in [true, false] {
        budget(
            "iter",
            text,
            work(|| {
                let mut left = lines(text) + 2;
                for r in iter(text, mode) {
                    if let Ok(c) = r {
                        let _ = c.validate();
                        let _ = c.parse_photo_jpeg();
                    }
                    left -= 1;
                    if left == 0 {
                        violate("endless", &format!("iterating does not end: {}", clip(&format!("{text:?}"))));
                    }
                }
            })
            .0,
        );
    }
    count(C_READ);
    no_limit();
}

pub fn c09() {
    let cfg = Cfg::draw();
    let cfg = &cfg;
    sched::run(
        0,
        512 << 10,
        vec![Box::new(move || {
            for _ in 0..4 {
                let text = hostile(cfg);
                show("text", &text);
                seen(EV_TEXT, &text);
                read_all(&text);
            }
            for _ in 0..6 {
                let mut v = gen::value_text();
                if fl(2) == 1 {
                    let mut d = v.into_bytes();
                    damage::damage(&mut d, 2);
                    v = damage::text(&d);
                }
                show("value", &v);
                seen(EV_TEXT, &v);
                if known(&v) {
                    continue;
                }
                budget("a value parser", &v, work(|| drop(gen::value_results(&v))).0);
            }
            // Work must grow with the size of the input and no faster
            if w(12) == 11 {
                scaling(cfg);
            }
        })],
    );
}

/// A text that grows by repeating its middle. `#` in it counts.
fn unit(cfg: &Cfg) -> (String, String, String) {
    let head = || "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n".to_string();
    let tail = || "END:VCARD\r\n".to_string();
    let fragment = || damage::FRAGMENTS[w(damage::FRAGMENTS.len() as u32) as usize].to_string();
    match w(19) {
        0 => (String::new(), cfg.card().to_string(), String::new()),
        1 => (head(), format!("{}\r\n", damage::foreign_line(cfg).replace(['\r', '\n'], "")), tail()),
        2 => ("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:".into(), fragment(), "\r\nEND:VCARD\r\n".into()),
        3 => ("BEGIN:VCARD\r\nVERSION:4.0\r\nFN;ALTID=\"".into(), fragment(), "\":x\r\nEND:VCARD\r\n".into()),
        4 => ("BEGIN:VCARD\r\nVERSION:4.0\r\nFN".into(), format!(";X-A={}", w(10)), ":x\r\nEND:VCARD\r\n".into()),
        5 => ("BEGIN:VCARD\r\nVERSION:4.0\r\nNOTE:a".into(), "\r\n b".into(), "\r\nEND:VCARD\r\n".into()),
        6 => (String::new(), "BEGIN:VCARD\r\nVERSION:4.0\r\nFN:a\r\n".into(), String::new()),
        // A list of values
        7 => {
            let (name, item) = [
                ("X-A;VALUE=integer:1", ",1"),
                ("X-A;VALUE=float:1.5", ",1.5"),
                ("X-A;VALUE=date:20010101", ",20010101"),
                ("X-A;VALUE=boolean:true", ",true"),
                ("X-A;VALUE=timestamp:19961022T140000Z", ",19961022T140000Z"),
                ("CATEGORIES:a", ",b#"),
                ("NICKNAME:a", ",b"),
                ("ORG:a", ";b#"),
                ("N:a", ",b#"),
                ("ADR:;;a", "\\,b"),
            ][w(10) as usize];
            ("BEGIN:VCARD\r\nVERSION:4.0\r\nFN:x\r\n".to_string() + name, item.into(), "\r\nEND:VCARD\r\n".into())
        }
        // A list in a parameter
        16..=18 => {
            let (name, item) = [
                ("TEL;TYPE=a", ",b#"),
                ("TEL;TYPE=home", ",work"),
                ("TEL;TYPE=\"voice", ",home"),
                ("ORG;SORT-AS=\"a", ",b#"),
                ("NOTE;PID=1.1", ",#"),
                ("NOTE;PID=1", ",1.1"),
                ("NOTE;X-A=a", ",b#"),
                ("NOTE;X-A=\"a\"", ",\"b;:\""),
                ("ADR;LABEL=\"a", "\\nb"),
            ][w(9) as usize];
            let close = if name.matches('"').count() == 1 { "\"" } else { "" };
            (head() + name, item.into(), format!("{close}:1\r\nEND:VCARD\r\n"))
        }
        8 | 9 => {
            let mut d = damage::foreign(cfg).into_bytes();
            damage::damage(&mut d, 3);
            (String::new(), damage::text(&d), String::new())
        }
        // One property many times
        10..=12 => {
            let text = cfg.tiny(w(gen::KINDS)).to_string();
            let body = text["BEGIN:VCARD\r\nVERSION:4.0\r\n".len()..text.len() - "END:VCARD\r\n".len()].to_string();
            (head(), body, tail())
        }
        // Names that differ
        13 => (head(), format!("X-{}#:{}\r\n", w(10), w(10)), tail()),
        14 => (head(), format!("item#.{}:{}\r\n", ["NOTE", "X-ABLABEL", "TEL", "ORG"][w(4) as usize], w(10)), tail()),
        _ => ("BEGIN:VCARD\r\nVERSION:4.0\r\nTEL".into(), [";X-A#=1", ";TYPE=a#", ";PID=#", ";SORT-AS=b#"][w(4) as usize].into(), ":1\r\nEND:VCARD\r\n".into()),
    }
}

fn scaling(cfg: &Cfg) {
    let (a, mid, b) = unit(cfg);
    if mid.is_empty() || mid.len() > 3000 {
        return;
    }
    count(C_SCALE);
    let big = if w(6) == 5 { 160_000 } else { 24_000 };
    // An item of a list may take some microseconds
    let reps = (big / mid.len()).clamp(16, 20_000);
    let text = |n: usize| {
        let mut t = a.clone();
        for i in 0..n {
            match mid.contains('#') {
                true => t.push_str(&mid.replace('#', &(1000 + i).to_string())),
                false => t.push_str(&mid),
            }
        }
        t + &b
    };
    let (small, large) = (text(reps / 8), text(reps));
    if known(&large) {
        return;
    }
    show("repeated", &mid);
    let read = |t: &str| {
        let (w1, _) = work(|| drop(parse(t)));
        let (w2, cards) = work(|| parse_loose(t).unwrap_or_default());
        let (w3, _) = work(|| iter(t, false).take(lines(t) + 2).count());
        let (w4, _) = work(|| {
            for c in &cards {
                drop(c.to_string());
                drop(c.clone());
                let _ = c.validate();
            }
        });
        let all = [w1, w2, w3, w4];
        let sum = |f: fn(&Work) -> u64| all.iter().map(f).sum();
        Work { allocs: sum(|w| w.allocs), bytes: sum(|w| w.bytes), steps: sum(|w| w.steps) }
    };
    let (s, l) = (read(&small), read(&large));
    check();
    if l.allocs > 24 * s.allocs + 5000 || l.bytes > 24 * s.bytes + 3_000_000 || l.steps > 16 * s.steps + 3_000_000 {
        violate("work", &format!("{:?} repeated {} and {} times takes {:?} and {:?}", clip(&mid), reps / 8, reps, s, l));
    }
    // The same for the time of the processor, for what is not instrumented
    if big > 100_000 {
        let time = |t: &str, n: u32| {
            (0..n)
                .map(|_| {
                    let c = sys::cpu_time();
                    read(t);
                    sys::cpu_time() - c
                })
                .fold(f64::MAX, f64::min)
        };
        let slow = |s: f64, l: f64| l > 1.5 && l > 40.0 * s.max(0.001);
        let (s, l) = (time(&small, 1), time(&large, 1));
        // Again, to be sure
        if slow(s, l) && slow(time(&small, 3).max(s), time(&large, 2).min(l)) {
            violate("work", &format!("{:?} repeated {} and {} times takes many times more seconds of the processor than in proportion", clip(&mid), reps / 8, reps));
        }
    }
}

// ------------------------------------------------------------------ C10

/// Text that may or may not hold cards.
fn any_stream(cfg: &Cfg) -> String {
    let mut d = match w(3) {
        0 => cfg.cards(3).iter().map(render).collect::<String>().into_bytes(),
        _ => damage::foreign(cfg).into_bytes(),
    };
    match fl(4) {
        0 => {}
        1 => {
            let g = Gateway::draw();
            d = g.pass(&damage::text(&d)).into_bytes();
        }
        _ => damage::damage(&mut d, 4),
    }
    damage::text(&d)
}

pub fn c10() {
    let cfg = Cfg::draw();
    for _ in 0..3 {
        let text = any_stream(&cfg);
        show("stream", &text);
        seen(EV_TEXT, &text);
        let mut cards: Vec<Vcard> = Vec::new();
        for mode in [true, false] {
            cards.extend(items(&text, mode).into_iter().filter_map(|r| r.ok()));
        }
        cards.extend(strict(&text).into_iter().flatten());
        cards.extend(loose(&text).into_iter().flatten());
        cards.extend(single(&text));
        let mut done = Vec::new();
        for card in cards {
            let h = canon::hash(&card);
            if done.contains(&h) {
                continue;
            }
            done.push(h);
            count(C_HOP);
            hops(card, &text);
        }
    }
}

fn hops(card: Vcard, origin: &str) {
    let mut now = card;
    let mut last: Option<String> = None;
    for hop in 0..1 + fl(3) {
        let text = render(&now);
        if let Some(last) = &last {
            check();
            if *last != text {
                violate("changed", &format!("hop {hop}: the text changes from {} to {}", clip(last), clip(&text)));
            }
        }
        let valid = call("validate", || now.validate()).is_ok();
        let got = items(&text, true);
        check();
        let [Ok(back)] = &got[..] else {
            violate(
                "refused",
                &format!(
                    "hop {hop}: a card that was read from {} is written as {} which reads as {}",
                    clip(&format!("{origin:?}")),
                    clip(&format!("{text:?}")),
                    describe(&got)
                ),
            );
        };
        let mut want = now.clone();
        canon::truncate(&mut want);
        same("changed", &format!("hop {hop}: a card that was read from {}", clip(&format!("{origin:?}"))), &want, back, &text);
        if valid {
            match strict(&text) {
                Ok(c) if c.len() == 1 => same("changed", "strict reading of a card that was read", &want, &c[0], &text),
                r => violate("refused", &format!("strict reading of {} gives {:?}", clip(&format!("{text:?}")), r.map(|c| c.len()))),
            }
        }
        now = back.clone();
        last = Some(text);
    }
}

// ------------------------------------------------------------------ C11

pub fn c11() {
    let mut cfg = Cfg::draw();
    if w(3) > 0 {
        cfg = cfg.small();
    }
    let cards = cfg.cards(3);
    let mut text: String = cards.iter().map(render).collect();
    show("sent", &text);
    for _ in 0..1 + fl(3) {
        let g = Gateway::draw();
        count(G_PASS);
        text = g.pass(&text);
        show("passed on", &text);
        seen(EV_TEXT, &text);
        let compare = |what: &str, got: Vec<&Vcard>| {
            check();
            if got.len() != cards.len() {
                violate("changed", &format!("{what}: {} cards instead of {}; text {}", got.len(), cards.len(), clip(&format!("{text:?}"))));
            }
            for (a, b) in cards.iter().zip(got) {
                same("changed", what, a, b, &text);
            }
        };
        for mode in [true, false] {
            let got = items(&text, mode);
            if got.iter().any(|r| r.is_err()) {
                violate("refused", &format!("iterating (strict {mode}): {}; text {}", describe(&got), clip(&format!("{text:?}"))));
            }
            compare(if mode { "iter strict" } else { "iter loose" }, good(&got));
        }
        match strict(&text) {
            Ok(c) => compare("parse", c.iter().collect()),
            Err(e) => violate("refused", &format!("parse: {e}; text {}", clip(&format!("{text:?}")))),
        }
        match loose(&text) {
            Ok(c) => compare("parse_loose", c.iter().collect()),
            Err(e) => violate("refused", &format!("parse_loose: {e}; text {}", clip(&format!("{text:?}")))),
        }
        match single(&text) {
            Ok(c) => same("changed", "try_from", &cards[0], &c, &text),
            Err(e) => violate("refused", &format!("try_from: {e}; text {}", clip(&format!("{text:?}")))),
        }
    }
    // Text that others wrote survives refolding too
    let foreign = damage::foreign(&cfg).replace("\r\n", "\n").replace('\r', "");
    for mode in [true, false] {
        let before = items(&foreign, mode);
        if before.iter().any(|r| r.is_err()) {
            continue;
        }
        let g = Gateway::draw().same_case();
        let passed = g.pass(&foreign);
        let after = items(&passed, mode);
        check();
        let (a, b) = (good(&before), good(&after));
        if a.len() != b.len() || a.iter().zip(&b).any(|(a, b)| canon::diff(a, b).is_some()) {
            let d = a.iter().zip(&b).find_map(|(a, b)| canon::diff(a, b));
            violate(
                "changed",
                &format!("{} is rewritten as {} and read as {} {d:?}", clip(&format!("{foreign:?}")), clip(&format!("{passed:?}")), describe(&after)),
            );
        }
    }
}

// ------------------------------------------------------------------ C12

#[cfg(feature = "serde")]
pub fn c12() {
    let mut cfg = Cfg::draw();
    if w(3) > 0 {
        cfg = cfg.small();
    }
    let mut card = cfg.card();
    if w(3) == 2 {
        // JSON has room for the fractions of a second
        canon::fractions(&mut card, &mut |_| [0, 1, 500_000_000, 999_999_999, 120_000, w(1_000_000_000)][w(6) as usize]);
    }
    let card = card;
    note(|| format!("card: {card:?}"));
    let clean = match call("to_string", || serde_json::to_string(&card)) {
        Ok(s) => s,
        Err(e) => violate("refused", &format!("a card cannot be written as JSON: {e}")),
    };
    show("json", &clean);
    seen(EV_TEXT, &clean);
    let compare = |what: &str, r: Result<Vcard, serde_json::Error>, may_fail: bool| {
        check();
        match r {
            Ok(c) => {
                if let Some(d) = canon::diff(&card, &c) {
                    violate("changed", &format!("{what}: {d}; json {}", clip(&clean)));
                }
            }
            Err(_) if may_fail => {}
            Err(e) => violate("refused", &format!("{what}: {e}; json {}", clip(&clean))),
        }
    };
    compare("from_str", call("from_str", || serde_json::from_str(&clean)), false);
    compare("from_slice", call("from_slice", || serde_json::from_slice(clean.as_bytes())), false);
    let value = call("to_value", || serde_json::to_value(&card));
    match value {
        Ok(v) => compare("from_value", call("from_value", || serde_json::from_value(v)), false),
        Err(e) => violate("refused", &format!("to_value: {e}")),
    }
    // Through storage that fails
    for _ in 0..3 {
        let pretty = fl(2) == 1;
        let faults = Faults::draw();
        shm().files[0].len = 0;
        shm().files[0].durable = 0;
        shm().files[0].cap = if fl(4) == 3 { fl(clean.len() + 1) as u32 } else { u32::MAX >> 12 };
        let mut file = SimFile::new(0, faults);
        let r = call("to_writer", || {
            if pretty {
                serde_json::to_writer_pretty(&mut file, &card)
            } else {
                serde_json::to_writer(&mut file, &card)
            }
        });
        let acked = r.is_ok() && file.flush().is_ok();
        count(C_SAVE);
        if acked {
            count(C_ACK);
        } else if fl(2) == 1 {
            lose_tails();
        }
        let data = file.contents().to_vec();
        let mut reader = SimReader { data: &data, faults: Faults::draw(), failed: false };
        let back = call("from_reader", || serde_json::from_reader::<_, Vcard>(&mut reader));
        let may_fail = !acked || reader.failed;
        compare("from_reader", back, may_fail);
    }
    // Torn anywhere
    let cuts: Vec<usize> = if clean.len() <= 400 { (0..clean.len()).collect() } else { (0..200).map(|_| fl(clean.len())).collect() };
    for cut in cuts {
        count(F_TORN);
        let t = clean.as_bytes()[..cut].to_vec();
        check();
        if call("from_slice", || serde_json::from_slice::<Vcard>(&t)).is_ok() {
            violate("torn", &format!("JSON cut at byte {cut} is read as a card: {}", clip(&damage::text(&t))));
        }
    }
    // And the card is the same as text after a trip through JSON
    if let Ok(c) = call("from_str", || serde_json::from_str::<Vcard>(&clean)) {
        let (a, b) = (render(&card), render(&c));
        check();
        if a != b {
            violate("changed", &format!("the card renders as {} after JSON, {} before", clip(&b), clip(&a)));
        }
    }
}

#[cfg(not(feature = "serde"))]
pub fn c12() {
    eprintln!("needs the full or the lean variant");
    sys::exit(3);
}

// ------------------------------------------------------------------ C13

pub fn c13() {
    let cfg = Cfg::draw();
    for _ in 0..4 {
        let text = if w(8) == 7 { hostile(&cfg) } else { any_stream(&cfg) };
        show("stream", &text);
        seen(EV_TEXT, &text);
        agree(&text);
    }
    let _ = chance;
}

fn equal(a: &[&Vcard], b: &[&Vcard]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| canon::diff(a, b).is_none())
}

fn agree(text: &str) {
    let fail = |what: String| -> ! { violate("disagree", &format!("{what}; text {}", clip(&format!("{text:?}")))) };
    let it = [items(text, true), items(text, false)];
    let whole = [strict(text), loose(text)];
    for (i, name) in ["strict", "loose"].iter().enumerate() {
        check();
        // Reading everything succeeds when every card is there and valid
        let fine = !it[i].is_empty() && it[i].iter().all(|r| r.as_ref().is_ok_and(|c| call("validate", || c.validate()).is_ok()));
        match &whole[i] {
            Ok(cards) => {
                let cards: Vec<&Vcard> = cards.iter().collect();
                if !fine || !equal(&cards, &good(&it[i])) {
                    fail(format!("{name} reading gives {} cards, {name} iterating gives {}", cards.len(), describe(&it[i])));
                }
            }
            Err(e) if fine => fail(format!("{name} reading fails with {e}, {name} iterating gives {}", describe(&it[i]))),
            Err(_) => {}
        }
    }
    // Loose reading agrees where strict reading has nothing to refuse
    check();
    if let Ok(cards) = &whole[0] {
        match &whole[1] {
            Ok(l) if equal(&cards.iter().collect::<Vec<_>>(), &l.iter().collect::<Vec<_>>()) => {}
            r => fail(format!("strict reading gives {} cards, loose reading {:?}", cards.len(), r.as_ref().map(|c| c.len()))),
        }
    }
    // and never loses a card that strict reading finds
    check();
    if let Some(i) = contains(&good(&it[1]), &good(&it[0])) {
        fail(format!("card {} of strict iterating is missing in loose iterating: {} and {}", i + 1, describe(&it[0]), describe(&it[1])));
    }
    // A single card is the first of them
    check();
    match (single(text), it[0].first()) {
        (Ok(c), Some(Ok(first))) => {
            if let Some(d) = canon::diff(first, &c) {
                fail(format!("the single card differs from the first: {d}"));
            }
        }
        (Err(_), None | Some(Err(_))) => {}
        (r, _) => fail(format!("the single card is {}, iterating gives {}", if r.is_ok() { "read" } else { "refused" }, describe(&it[0]))),
    }
}
