//! The simulated disk and the writers and readers that fail.
use crate::shm::{self, add, chance, count, draw, shm, FAULT};
use crate::{sched, sys, *};
use std::fmt;
use std::io::{self, Read, Write};

/// Which faults a file meets. Drawn once per run so that runs differ in kind.
#[derive(Clone, Copy, Debug, Default)]
pub struct Faults {
    pub short: u32,
    pub eintr: u32,
    pub eio: u32,
    pub flush: u32,
}

impl Faults {
    pub fn draw() -> Faults {
        let rate = || [0, 0, 2, 8, 40][draw(FAULT, 5) as usize];
        Faults { short: rate(), eintr: rate(), eio: rate() * 4, flush: rate() }
    }
}

fn one_in(k: u32) -> bool {
    k > 0 && chance(FAULT, 1, k)
}

fn error(code: i32) -> io::Error {
    io::Error::from_raw_os_error(code)
}

/// One file of the simulated disk.
pub struct SimFile {
    pub id: usize,
    pub faults: Faults,
    /// Position of the reader.
    pub pos: usize,
    /// Crash when this many more bytes were written.
    pub crash_after: Option<usize>,
}

impl SimFile {
    pub fn new(id: usize, faults: Faults) -> SimFile {
        SimFile { id, faults, pos: 0, crash_after: None }
    }

    fn file(&self) -> &'static mut shm::File {
        &mut shm().files[self.id]
    }

    pub fn contents(&self) -> &'static [u8] {
        let f = self.file();
        &f.data[..f.len as usize]
    }

    fn append(&mut self, data: &[u8]) {
        let f = self.file();
        let at = f.len as usize;
        f.data[at..at + data.len()].copy_from_slice(data);
        f.len += data.len() as u32;
    }
}

/// Die as a machine does when the power fails.
pub fn power_off() -> ! {
    count(F_CRASH);
    shm::event(sched::tid(), EV_CRASH, 0, 0);
    shm().scratch[0] = 1;
    sys::exit(9)
}

/// What a crash leaves of the bytes that were not durable yet.
pub fn lose_tails() {
    for f in shm().files.iter_mut() {
        let (d, l) = (f.durable, f.len);
        if d >= l {
            continue;
        }
        // 0 is the simplest: everything arrived
        match draw(FAULT, 5) {
            0 => {}
            1 => {
                count(F_TORN);
                f.len = d + draw(FAULT, l - d + 1);
            }
            2 => {
                count(F_LOST);
                f.len = d;
            }
            3 => {
                // Sectors that never arrived read as zeros
                count(F_HOLE);
                let from = d + draw(FAULT, l - d);
                let to = from + 1 + draw(FAULT, l - from);
                f.data[from as usize..to.min(l) as usize].fill(0);
            }
            _ => {
                count(F_TORN);
                f.len = d + draw(FAULT, l - d + 1);
                if f.len > d {
                    count(F_HOLE);
                    let from = d + draw(FAULT, f.len - d);
                    f.data[from as usize..f.len as usize].fill(0);
                }
            }
        }
        f.durable = f.len;
    }
}

impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sys::harness(|| {
            sched::point();
            sys::pass_time(50_000 + draw(FAULT, 200_000) as u64);
            if buf.is_empty() {
                return Ok(0);
            }
            if one_in(self.faults.eintr) {
                count(F_EINTR);
                return Err(error(libc::EINTR));
            }
            if one_in(self.faults.eio) {
                count(F_EIO);
                shm::event(sched::tid(), EV_FAULT, libc::EIO as u64, 0);
                return Err(error(libc::EIO));
            }
            let f = self.file();
            let room = (f.cap as usize).min(f.data.len()).saturating_sub(f.len as usize);
            if room == 0 {
                count(F_ENOSPC);
                shm::event(sched::tid(), EV_FAULT, libc::ENOSPC as u64, 0);
                return Err(error(libc::ENOSPC));
            }
            let mut n = buf.len().min(room);
            if n < buf.len() {
                count(F_SHORT);
            }
            if one_in(self.faults.short) {
                count(F_SHORT);
                n = 1 + draw(FAULT, n as u32) as usize;
            }
            if let Some(left) = self.crash_after {
                if left <= n {
                    self.append(&buf[..left]);
                    power_off();
                }
                self.crash_after = Some(left - n);
            }
            self.append(&buf[..n]);
            shm::event(sched::tid(), EV_WRITE, n as u64, self.id as u64);
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        sys::harness(|| {
            sched::point();
            sys::pass_time(1_000_000 + draw(FAULT, 9_000_000) as u64);
            if one_in(self.faults.flush) {
                count(F_FLUSH);
                shm::event(sched::tid(), EV_FAULT, 1, 0);
                return Err(error(libc::EIO));
            }
            if self.crash_after.is_some() && chance(FAULT, 1, 4) {
                power_off();
            }
            let f = self.file();
            f.durable = f.len;
            shm::event(sched::tid(), EV_FLUSH, f.len as u64, self.id as u64);
            Ok(())
        })
    }
}

impl Read for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sys::harness(|| {
            sched::point();
            sys::pass_time(20_000);
            if one_in(self.faults.eintr) {
                count(F_EINTR);
                return Err(error(libc::EINTR));
            }
            let data = self.contents();
            let mut n = buf.len().min(data.len() - self.pos);
            if n > 1 && one_in(self.faults.short) {
                count(F_SHORT_READ);
                n = 1 + draw(FAULT, n as u32) as usize;
            }
            buf[..n].copy_from_slice(&data[self.pos..self.pos + n]);
            self.pos += n;
            Ok(n)
        })
    }
}

/// A reader over bytes in memory.
#[cfg_attr(not(feature = "serde"), allow(dead_code))]
pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub faults: Faults,
    pub failed: bool,
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sys::harness(|| {
            sched::point();
            if one_in(self.faults.eintr) {
                count(F_EINTR);
                return Err(error(libc::EINTR));
            }
            if one_in(self.faults.eio) {
                count(F_READ_EIO);
                self.failed = true;
                return Err(error(libc::EIO));
            }
            let mut n = buf.len().min(self.data.len());
            if n > 1 && one_in(self.faults.short) {
                count(F_SHORT_READ);
                n = 1 + draw(FAULT, n as u32) as usize;
            }
            buf[..n].copy_from_slice(&self.data[..n]);
            self.data = &self.data[n..];
            Ok(n)
        })
    }
}

/// When a text sink fails.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Never,
    /// From this call on
    Call(usize),
    /// At this call only
    Once(usize),
    /// When this many bytes were taken, after taking what fits
    Byte(usize),
    /// When this many bytes would be exceeded, taking nothing of the call
    Full(usize),
}

/// A `fmt::Write` that fails as it is told.
pub struct Sink<'a> {
    pub fail: Fail,
    pub text: String,
    pub calls: usize,
    pub failed: bool,
    /// Called from inside of a write
    pub back: Option<&'a mut dyn FnMut(usize)>,
}

impl<'a> Sink<'a> {
    pub fn new(fail: Fail) -> Sink<'a> {
        Sink { fail, text: String::new(), calls: 0, failed: false, back: None }
    }
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        sys::harness(|| {
            sched::point();
            let call = self.calls;
            self.calls += 1;
            if let Some(back) = &mut self.back {
                back(call);
            }
            let room = |cap: usize| cap.saturating_sub(self.text.len());
            let (take, fail) = match self.fail {
                Fail::Never => (s.len(), false),
                Fail::Call(k) => (s.len(), call >= k),
                Fail::Once(k) => (s.len(), call == k),
                Fail::Byte(k) if s.len() > room(k) => {
                    let mut n = room(k);
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    if !self.failed {
                        self.text.push_str(&s[..n]);
                    }
                    (0, true)
                }
                Fail::Full(k) if s.len() > room(k) => (0, true),
                _ => (s.len(), false),
            };
            if fail {
                self.failed = true;
                count(F_SINK);
                return Err(fmt::Error);
            }
            // Nothing may follow what failed
            self.text.push_str(&s[..take]);
            Ok(())
        })
    }
}

/// An `io::Write` into memory that fails as it is told.
pub struct IoSink {
    pub faults: Faults,
    pub fail_at: Option<usize>,
    pub data: Vec<u8>,
    pub failed: bool,
}

impl Write for IoSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sys::harness(|| {
            sched::point();
            if one_in(self.faults.eintr) {
                count(F_EINTR);
                return Err(error(libc::EINTR));
            }
            let mut n = buf.len();
            if let Some(at) = self.fail_at {
                let room = at.saturating_sub(self.data.len());
                if room == 0 && n > 0 {
                    self.failed = true;
                    count(F_ENOSPC);
                    return Err(error(libc::ENOSPC));
                }
                n = n.min(room);
            }
            if n > 1 && one_in(self.faults.short) {
                count(F_SHORT);
                n = 1 + draw(FAULT, n as u32) as usize;
            }
            self.data.extend_from_slice(&buf[..n]);
            add(C_BYTES, n as u64);
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
