//! Simulated sinks and sources: the disk and the pipe a caller writes results
//! to and loads them from.
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Read, Result, Write};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    /// At most this many bytes are taken or given.
    Short(u16),
    Interrupted,
    /// The whole request goes through.
    Whole,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// Never fails.
    Open,
    /// The disk is full: errors from there on.
    Full,
    /// Accepts nothing any more (a write of zero bytes).
    Zero,
    /// The device fails.
    Broken,
    /// The other end hung up.
    Pipe,
    /// One request fails, the next one goes through.
    Once,
    /// The caller's code behind the sink or source panics.
    Panic,
}

/// What a panicking sink says.
pub const CRY: &str = "simulated panic of the caller";

/// The steps repeat; `at` bytes in, `end` happens.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub steps: Vec<Step>,
    pub at: u64,
    pub end: End,
    /// The caller's code behind it uses the library itself, in requests
    /// number `inner`, 2 * `inner` and 3 * `inner` (0: never).
    #[serde(default)]
    pub inner: u16,
}

/// What the caller's code does with the library meanwhile.
pub type Hook<'a> = Option<Box<dyn FnMut() + 'a>>;
fn meanwhile(p: &Plan, n: &mut u32, hook: &mut Hook) -> bool {
    *n += 1;
    let k = p.inner as u32;
    if k == 0 || *n % k != 0 || *n / k > 3 {
        return false;
    }
    if let Some(h) = hook {
        h();
    }
    hook.is_some()
}

/// A text sink that errors are rendered to. It takes a piece or fails.
pub struct Pen<'a> {
    pub p: &'a Plan,
    pub at: usize,
    pub got: String,
    pub fired: Vec<&'static str>,
    pub hook: Hook<'a>,
    n: u32,
    over: bool,
}
impl<'a> Pen<'a> {
    pub fn new(p: &'a Plan, at: usize) -> Pen<'a> {
        Pen { p, at, got: String::new(), fired: vec![], hook: None, n: 0, over: false }
    }
    pub fn failed(&self) -> bool {
        self.fired.contains(&"text_sink_error")
    }
}
impl std::fmt::Write for Pen<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if meanwhile(self.p, &mut self.n, &mut self.hook) {
            self.fired.push("library used by the text sink");
        }
        if self.p.end != End::Open && !self.over && self.got.len() + s.len() > self.at {
            if self.p.end == End::Panic {
                self.fired.push("panic_in_text_sink");
                panic!("{CRY}");
            }
            self.over = self.p.end == End::Once;
            self.fired.push("text_sink_error");
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

pub struct Sink<'a> {
    pub p: &'a Plan,
    pub at: usize,
    pub got: Vec<u8>,
    pub fired: Vec<&'static str>,
    pub hook: Hook<'a>,
    n: u32,
    i: usize,
    intr: u32,
    over: bool,
}
impl<'a> Sink<'a> {
    pub fn new(p: &'a Plan, at: usize) -> Sink<'a> {
        Sink { p, at, got: vec![], fired: vec![], hook: None, n: 0, i: 0, intr: 0, over: false }
    }
    fn fire(&mut self, s: &'static str) {
        if self.fired.len() < 4096 {
            self.fired.push(s);
        }
    }
}
impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if meanwhile(self.p, &mut self.n, &mut self.hook) {
            self.fire("library_used_by_the_sink");
        }
        let room = if self.p.end == End::Open || self.over { usize::MAX } else { self.at.saturating_sub(self.got.len()) };
        let step = if self.p.steps.is_empty() { Step::Whole } else { self.p.steps[self.i % self.p.steps.len()].clone() };
        self.i += 1;
        let mut n = b.len();
        match step {
            Step::Interrupted if self.intr < 3 => {
                self.intr += 1;
                self.fire("interrupted_write");
                return Err(Error::from(ErrorKind::Interrupted));
            }
            Step::Short(k) if (k.max(1) as usize) < n => {
                n = k.max(1) as usize;
                self.fire("short_write");
            }
            _ => {}
        }
        self.intr = 0;
        if room == 0 && self.p.end == End::Once {
            self.over = true;
            self.fire("transient_write_error");
            return Err(Error::from(ErrorKind::TimedOut));
        }
        if room == 0 && self.p.end == End::Panic {
            self.fire("panic_in_sink");
            panic!("{CRY}");
        }
        if room == 0 {
            return match self.p.end {
                End::Zero => {
                    self.fire("zero_write");
                    Ok(0)
                }
                End::Broken => {
                    self.fire("device_error");
                    Err(Error::other("simulated device error"))
                }
                End::Pipe => {
                    self.fire("broken_pipe");
                    Err(Error::from(ErrorKind::BrokenPipe))
                }
                _ => {
                    self.fire("disk_full");
                    Err(Error::from(ErrorKind::StorageFull))
                }
            };
        }
        let n = n.min(room);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub struct Source<'a> {
    pub p: &'a Plan,
    pub data: &'a [u8],
    /// Where the source ends or fails.
    pub at: usize,
    pub pos: usize,
    pub fired: Vec<&'static str>,
    pub hook: Hook<'a>,
    n: u32,
    i: usize,
    intr: u32,
    over: bool,
}
impl<'a> Source<'a> {
    pub fn new(p: &'a Plan, data: &'a [u8], at: usize) -> Source<'a> {
        Source { p, data, at, pos: 0, fired: vec![], hook: None, n: 0, i: 0, intr: 0, over: false }
    }
    fn fire(&mut self, s: &'static str) {
        if self.fired.len() < 4096 {
            self.fired.push(s);
        }
    }
}
impl Read for Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if meanwhile(self.p, &mut self.n, &mut self.hook) {
            self.fire("library_used_by_the_source");
        }
        let end = if self.p.end == End::Open || self.over { self.data.len() } else { self.at.min(self.data.len()) };
        let left = end - self.pos.min(end);
        let step = if self.p.steps.is_empty() { Step::Whole } else { self.p.steps[self.i % self.p.steps.len()].clone() };
        self.i += 1;
        let mut n = b.len();
        match step {
            Step::Interrupted if self.intr < 3 => {
                self.intr += 1;
                self.fire("interrupted_read");
                return Err(Error::from(ErrorKind::Interrupted));
            }
            Step::Short(k) if (k.max(1) as usize) < n => {
                n = k.max(1) as usize;
                self.fire("short_read");
            }
            _ => {}
        }
        self.intr = 0;
        if left == 0 && self.p.end == End::Once && !self.over && self.pos < self.data.len() {
            self.over = true;
            self.fire("transient_read_error");
            return Err(Error::from(ErrorKind::TimedOut));
        }
        if left == 0 && self.p.end == End::Panic && self.pos < self.data.len() {
            self.fire("panic_in_source");
            panic!("{CRY}");
        }
        if left == 0 {
            return match self.p.end {
                End::Open | End::Zero | End::Once | End::Panic => Ok(0),
                End::Pipe => {
                    self.fire("broken_pipe");
                    Err(Error::from(ErrorKind::BrokenPipe))
                }
                _ => {
                    self.fire("read_error");
                    Err(Error::other("simulated read error"))
                }
            };
        }
        let n = n.min(left);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
