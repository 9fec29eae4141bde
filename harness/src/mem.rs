//! In-memory streams with fault injection, short transfers and caps.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// operation number k fails once
    Once(usize),
    /// every operation from number k on fails
    From(usize),
    /// writes from operation k on are accepted with length 0
    Zero(usize),
}

pub struct Mem {
    pub data: Vec<u8>,
    pub pos: u64,
    pub ops: usize,
    pub fault: Fault,
    pub hits: usize,
    pub chunk: usize,
    pub cap: usize,
    pub log: Vec<u8>,
}

pub const RUNAWAY: &str = "runaway: the call does not stop";

impl Mem {
    pub fn new(data: Vec<u8>, pos: u64) -> Self {
        Mem { data, pos, ops: 0, fault: Fault::None, hits: 0, chunk: usize::MAX, cap: 64 << 20, log: vec![] }
    }
    fn op(&mut self, what: u8) -> Result<bool> {
        let k = self.ops;
        self.ops += 1;
        if self.log.len() < 1 << 16 {
            self.log.push(what);
        }
        let bad = match self.fault {
            Fault::None => false,
            Fault::Once(n) => k == n,
            Fault::From(n) => k >= n,
            Fault::Zero(n) => {
                if k >= n && what == b'w' {
                    self.hits += 1;
                    return Ok(true);
                }
                false
            }
        };
        if bad {
            self.hits += 1;
            return Err(Error::new(ErrorKind::Other, "injected fault"));
        }
        Ok(false)
    }
}
impl Read for Mem {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op(b'r')?;
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        let n = buf.len().min(self.data.len() - p).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Mem {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.op(b'w')? {
            return Ok(0);
        }
        let p = self.pos as usize;
        let n = buf.len().min(self.chunk);
        if p + n > self.cap {
            panic!("{}", RUNAWAY);
        }
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.op(b'f')?;
        Ok(())
    }
}
impl Seek for Mem {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.op(b's')?;
        let t = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if t < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek before start"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
