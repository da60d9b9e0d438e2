//! Misbehaving readers and writers.
use crate::api::*;
use std::io::{Error, ErrorKind, Read, Result, Write};

/// How a stream fails once its room is used up.
pub fn failure(mode: usize) -> Result<usize> {
    match mode {
        0 => Ok(0),
        1 => Err(Error::from(ErrorKind::BrokenPipe)),
        2 => Err(Error::from(ErrorKind::WouldBlock)),
        _ => Err(Error::new(ErrorKind::Other, "unplugged")),
    }
}
pub const FAILURES: usize = 4;

pub struct Room {
    pub out: Vec<u8>,
    pub room: usize,
    pub mode: usize,
}
impl Write for Room {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = if b.len() < self.room { b.len() } else { self.room };
        if n == 0 && !b.is_empty() {
            return failure(self.mode);
        }
        self.out.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
pub struct Cut<'a> {
    pub data: &'a [u8],
    pub mode: usize,
}
impl<'a> Read for Cut<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let n = if b.len() < self.data.len() { b.len() } else { self.data.len() };
        if n == 0 && !b.is_empty() {
            return failure(self.mode);
        }
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Serves one byte at a time, or is interrupted, `odd` times; then complies.
pub struct Slow<'a> {
    pub data: &'a [u8],
    pub odd: usize,
}
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let mut n = if b.len() < self.data.len() { b.len() } else { self.data.len() };
        if n > 0 && self.odd > 0 {
            self.odd -= 1;
            match choose(3) {
                0 => return Err(Error::from(ErrorKind::Interrupted)),
                1 => n = 1,
                _ => (),
            }
        }
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
pub struct SlowW {
    pub out: Vec<u8>,
    pub odd: usize,
}
impl Write for SlowW {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut n = b.len();
        if n > 0 && self.odd > 0 {
            self.odd -= 1;
            match choose(3) {
                0 => return Err(Error::from(ErrorKind::Interrupted)),
                1 => n = 1,
                _ => (),
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
