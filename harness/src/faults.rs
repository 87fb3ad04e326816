//! Scripted sources and destinations: short transfers, interruptions, errors.
use std::io::{self, Error, ErrorKind, Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// transfer at most n bytes
    N(usize),
    Interrupted,
    Fail(ErrorKind),
    /// accept / give nothing (a write of zero bytes)
    Zero,
}

pub struct SReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub script: Vec<Step>,
    pub cyclic: bool,
    pub at: usize,
    pub calls: usize,
    pub failed: bool,
    /// error when this many bytes have been given
    pub fail_at: Option<(usize, ErrorKind)>,
}
impl<'a> SReader<'a> {
    pub fn new(data: &'a [u8], script: Vec<Step>, cyclic: bool) -> SReader<'a> {
        SReader { data, pos: 0, script, cyclic, at: 0, calls: 0, failed: false, fail_at: None }
    }
    fn step(&mut self) -> Step {
        if self.at >= self.script.len() {
            if self.cyclic && !self.script.is_empty() {
                self.at = 0;
            } else {
                return Step::N(usize::MAX);
            }
        }
        self.at += 1;
        self.script[self.at - 1].clone()
    }
}
impl<'a> Read for SReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut lim = usize::MAX;
        if let Some((k, kind)) = self.fail_at {
            if self.pos >= k {
                self.failed = true;
                return Err(Error::new(kind, "injected"));
            }
            lim = k - self.pos;
        }
        match self.step() {
            Step::Interrupted => Err(Error::new(ErrorKind::Interrupted, "injected")),
            Step::Fail(k) => {
                self.failed = true;
                Err(Error::new(k, "injected"))
            }
            s => {
                let n = match s {
                    Step::N(n) => n.max(1),
                    _ => 1,
                };
                let n = n.min(buf.len()).min(self.data.len() - self.pos).min(lim);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

pub struct SWriter {
    pub got: Vec<u8>,
    pub script: Vec<Step>,
    pub cyclic: bool,
    pub at: usize,
    pub calls: usize,
    pub shorts: usize,
    pub interrupts: usize,
    pub failed: bool,
    /// error once this many bytes have been accepted
    pub fail_at: Option<(usize, Step)>,
    /// the failure happens once, later writes succeed again
    pub once: bool,
    pub flush_fail: bool,
}
impl SWriter {
    pub fn new(script: Vec<Step>, cyclic: bool) -> SWriter {
        SWriter {
            got: vec![],
            script,
            cyclic,
            at: 0,
            calls: 0,
            shorts: 0,
            interrupts: 0,
            failed: false,
            fail_at: None,
            once: false,
            flush_fail: false,
        }
    }
    fn step(&mut self) -> Step {
        if self.at >= self.script.len() {
            if self.cyclic && !self.script.is_empty() {
                self.at = 0;
            } else {
                return Step::N(usize::MAX);
            }
        }
        self.at += 1;
        self.script[self.at - 1].clone()
    }
}
impl Write for SWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut lim = usize::MAX;
        if let Some((k, s)) = self.fail_at.clone() {
            if self.got.len() >= k {
                self.failed = true;
                if self.once {
                    self.fail_at = None;
                }
                return match s {
                    Step::Fail(kind) => Err(Error::new(kind, "injected")),
                    _ => Ok(0),
                };
            }
            lim = k - self.got.len();
        }
        match self.step() {
            Step::Interrupted => {
                self.interrupts += 1;
                Err(Error::new(ErrorKind::Interrupted, "injected"))
            }
            Step::Fail(k) => {
                self.failed = true;
                Err(Error::new(k, "injected"))
            }
            Step::Zero => {
                self.failed = true;
                Ok(0)
            }
            Step::N(n) => {
                let n = n.max(1).min(buf.len()).min(lim);
                if n < buf.len() {
                    self.shorts += 1;
                }
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fail {
            return Err(Error::new(ErrorKind::Other, "injected flush"));
        }
        Ok(())
    }
}
