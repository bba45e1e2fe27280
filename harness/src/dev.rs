//! The filesystem reader handed to the code under test.
use crate::rng::Rng;
use binrw::io::{self, Read, Seek, SeekFrom};

#[derive(Clone)]
pub struct Dev {
    pub data: Vec<u8>,
    pub pos: u64,
    pub rng: Rng,
    /// x in 16: chance of a short read
    pub short: u64,
    /// x in 16: chance of an Interrupted error
    pub intr: u64,
    /// x in 16: chance of another error on read or seek
    pub fail: u64,
    /// errors injected so far
    pub injected: u64,
}

impl Dev {
    pub fn new(data: Vec<u8>) -> Self {
        Dev { data, pos: 0, rng: Rng::new(0, "dev", 0), short: 0, intr: 0, fail: 0, injected: 0 }
    }
    pub fn faults(&mut self, r: &mut Rng) {
        self.rng = Rng::new(r.u64(), "dev", 1);
        self.short = r.pick(&[0, 4, 12]);
        self.intr = r.pick(&[0, 0, 3]);
        self.fail = r.pick(&[0, 0, 0, 3, 6]);
    }
    pub fn calm(&mut self) {
        self.short = 0;
        self.intr = 0;
        self.fail = 0;
    }
    pub fn le(&self, at: u64, n: usize) -> u64 {
        le(&self.data, at as usize, n)
    }
}

pub fn le(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for i in (0..n).rev() {
        v = v << 8 | b[at + i] as u64;
    }
    v
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.intr > 0 && self.rng.chance(self.intr, 16) {
            self.injected += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
        }
        if self.fail > 0 && self.rng.chance(self.fail, 16) {
            self.injected += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        if self.pos >= self.data.len() as u64 || buf.is_empty() {
            return Ok(0);
        }
        let p = self.pos as usize;
        let mut n = buf.len().min(self.data.len() - p);
        if self.short > 0 && n > 1 && self.rng.chance(self.short, 16) {
            n = 1 + self.rng.below(n as u64 - 1) as usize;
        }
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Dev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        if self.fail > 0 && self.rng.chance(self.fail, 32) {
            self.injected += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "injected seek"));
        }
        let n = match pos {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
        };
        match n {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")),
        }
    }
}
