//! An instrumented in-memory stream shared between handles: counts operations and bytes, records the ranges read and
//! written, delivers short reads/writes and injects faults at a chosen operation.

use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpKind { Read, Seek, Write, Flush }

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// Index (among the counted operations of the kinds in scope) of the first failing operation.
    pub at: u64,
    /// How many consecutive operations fail (u64::MAX: permanent).
    pub count: u64,
    pub reads: bool,
    pub writes: bool,
    pub kind: io::ErrorKind,
    /// What failing seeks report.
    pub seek_kind: io::ErrorKind,
    /// What failing flushes report.
    pub flush_kind: io::ErrorKind,
    /// For a failing write: accept this many bytes first (a torn write), then fail.
    pub torn: usize,
}

#[derive(Default)]
pub struct Inner {
    pub data: Vec<u8>,
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub writes: u64,
    pub flushes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    /// (start, end) of every read that delivered bytes, when recording.
    pub record: bool,
    pub ranges: Vec<(u64, u64)>,
    /// Lowest position written since last reset.
    pub min_write: Option<u64>,
    pub modified_existing: bool,
    pub fault: Option<Fault>,
    pub fault_counter: u64,
    pub faults_hit: u64,
    /// Seed for chopping reads/writes into small pieces.
    pub chop: Option<u64>,
    pub interrupts: bool,
    pub chop_state: u64,
    /// What a stream with a buffer of its own has passed on: all of the data at each successful flush.
    pub flushed: Option<Vec<u8>>,
    /// Number of operations after which every operation fails with a distinctive error.
    pub budget: Option<u64>,
    pub over_budget: bool,
    /// Never reset.
    pub total_ops: u64,
}

/// No case comes near this; a loop that does is endless.
pub const OPS_LIMIT: u64 = 30_000_000;

pub struct Disk {
    pub inner: Rc<RefCell<Inner>>,
    pos: u64,
}

impl Disk {
    pub fn new(data: Vec<u8>) -> Disk {
        Disk { inner: Rc::new(RefCell::new(Inner { data, ..Inner::default() })), pos: 0 }
    }
    /// Another handle to the same bytes (for inspection).
    pub fn handle(&self) -> Disk {
        Disk { inner: self.inner.clone(), pos: 0 }
    }
    pub fn snapshot(&self) -> Vec<u8> { self.inner.borrow().data.clone() }
    /// The bytes that are certain to be in the file.
    pub fn stored(&self) -> Vec<u8> {
        let i = self.inner.borrow();
        i.flushed.as_ref().unwrap_or(&i.data).clone()
    }
    pub fn len(&self) -> usize { self.inner.borrow().data.len() }
    pub fn set_pos(&mut self, pos: u64) { self.pos = pos; }
    pub fn reset_counters(&self) {
        let mut i = self.inner.borrow_mut();
        i.ops = 0; i.reads = 0; i.seeks = 0; i.writes = 0; i.flushes = 0; i.bytes_read = 0; i.bytes_written = 0;
        i.ranges.clear(); i.min_write = None; i.modified_existing = false;
    }
}

impl Inner {
    fn start(&mut self, kind: OpKind) -> io::Result<Option<usize>> {
        self.ops += 1;
        match kind {
            OpKind::Read => self.reads += 1,
            OpKind::Seek => self.seeks += 1,
            OpKind::Write => self.writes += 1,
            OpKind::Flush => self.flushes += 1,
        }
        self.total_ops += 1;
        if self.total_ops > OPS_LIMIT { panic!("RUNAWAY: more than {OPS_LIMIT} operations on one stream"); }
        if let Some(b) = self.budget {
            if self.ops > b {
                self.over_budget = true;
                return Err(io::Error::other("operation budget exhausted"));
            }
        }
        if let Some(f) = self.fault {
            let in_scope = match kind { OpKind::Read | OpKind::Seek => f.reads, _ => f.writes };
            if in_scope {
                let n = self.fault_counter;
                self.fault_counter += 1;
                if n >= f.at && n - f.at < f.count {
                    self.faults_hit += 1;
                    // A stream that accepts nothing.
                    if kind == OpKind::Write && f.kind == io::ErrorKind::WriteZero { return Ok(Some(0)); }
                    if kind == OpKind::Write && f.torn > 0 && n == f.at {
                        return Ok(Some(f.torn));
                    }
                    return Err(io::Error::new(match kind { OpKind::Seek => f.seek_kind, OpKind::Flush => f.flush_kind, _ => f.kind }, "injected fault"));
                }
            }
        }
        Ok(None)
    }
    fn chop(&mut self, want: usize) -> io::Result<usize> {
        match self.chop {
            None => Ok(want),
            Some(seed) => {
                self.chop_state = self.chop_state.wrapping_add(1);
                let r = crate::engine::mix(seed ^ self.chop_state);
                if self.interrupts && r % 5 == 0 {
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                let r = r >> 8;
                Ok(want.min(match r % 4 { 0 => 1, 1 => 1 + (r >> 8) as usize % 7, 2 => 1 + (r >> 8) as usize % 100, _ => 1 + (r >> 8) as usize % 5000 }))
            }
        }
    }
}

impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        i.start(OpKind::Read)?;
        let len = i.data.len() as u64;
        if self.pos >= len || buf.is_empty() { return Ok(0); }
        let n = (buf.len() as u64).min(len - self.pos) as usize;
        let n = i.chop(n)?;
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&i.data[p..p + n]);
        i.bytes_read += n as u64;
        if i.record { i.ranges.push((self.pos, self.pos + n as u64)); }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Disk {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let mut i = self.inner.borrow_mut();
        i.start(OpKind::Seek)?;
        let new = match s {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => (i.data.len() as u64).checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        // Like a file: positions must fit in an i64.
        match new {
            Some(p) if p <= i64::MAX as u64 => { self.pos = p; Ok(p) }
            _ => Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}

impl Write for Disk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut i = self.inner.borrow_mut();
        let torn = i.start(OpKind::Write)?;
        if buf.is_empty() { return Ok(0); }
        let mut n = i.chop(buf.len())?;
        if let Some(t) = torn { n = n.min(t); }
        let p = self.pos as usize;
        let old_len = i.data.len();
        if p < old_len { i.modified_existing = true; }
        if i.data.len() < p + n { i.data.resize(p + n, 0); }
        i.data[p..p + n].copy_from_slice(&buf[..n]);
        i.bytes_written += n as u64;
        i.min_write = Some(i.min_write.map_or(self.pos, |m| m.min(self.pos)));
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut i = self.inner.borrow_mut();
        i.start(OpKind::Flush)?;
        if i.flushed.is_some() { i.flushed = Some(i.data.clone()); }
        Ok(())
    }
}
