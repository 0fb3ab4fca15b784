//! Simulated storage: a writer/reader with injected faults. Only `durable` survives a crash.
use crate::rng::Rng;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WFault {
  None,
  /// hard error once `at` bytes were accepted
  Error { at: usize },
  /// device full: accepts up to `at` bytes, then ENOSPC
  Full { at: usize },
  /// a write returns Ok(0) after `at` bytes
  Zero { at: usize },
}
pub struct SimWriter {
  pub buf: Vec<u8>,
  pub fault: WFault,
  pub rng: Rng,
  /// writes accept only part of what they are given
  pub short: bool,
  /// spurious EINTR
  pub eintr: bool,
  pub fired: bool,
  pub shorts: u64,
  pub eintrs: u64,
  pub flush_fails: bool,
}
impl SimWriter {
  pub fn new(seed: u64, fault: WFault, short: bool, eintr: bool) -> Self {
    SimWriter { buf: vec![], fault, rng: Rng::new(seed), short, eintr, fired: false, shorts: 0, eintrs: 0, flush_fails: false }
  }
}
impl Write for SimWriter {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> {
    if b.is_empty() {
      return Ok(0);
    }
    if self.eintr && self.rng.chance(1, 6) {
      self.eintrs += 1;
      return Err(io::ErrorKind::Interrupted.into());
    }
    let mut n = b.len();
    if self.short && n > 1 && self.rng.chance(1, 3) {
      n = 1 + self.rng.below(n - 1);
      self.shorts += 1;
    }
    let room = |at: usize| at.saturating_sub(self.buf.len());
    match self.fault {
      WFault::None => {},
      WFault::Error { at } => {
        if room(at) < n {
          self.fired = true;
          return Err(io::Error::other("simulated I/O error"));
        }
      },
      WFault::Full { at } => {
        if room(at) == 0 {
          self.fired = true;
          return Err(io::ErrorKind::StorageFull.into());
        }
        n = n.min(room(at));
      },
      WFault::Zero { at } => {
        if room(at) == 0 {
          self.fired = true;
          return Ok(0);
        }
        n = n.min(room(at));
      },
    }
    self.buf.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> io::Result<()> {
    if self.flush_fails {
      self.fired = true;
      return Err(io::Error::other("simulated flush error"));
    }
    Ok(())
  }
}
pub struct SimReader<'a> {
  pub b: &'a [u8],
  pub rng: Rng,
  pub fail_at: Option<usize>,
  pub pos: usize,
  pub fired: bool,
}
impl<'a> Read for SimReader<'a> {
  fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
    if self.rng.chance(1, 8) {
      return Err(io::ErrorKind::Interrupted.into());
    }
    if let Some(f) = self.fail_at {
      if self.pos >= f {
        self.fired = true;
        return Err(io::Error::other("simulated read error"));
      }
    }
    let mut n = out.len().min(self.b.len() - self.pos);
    if n > 1 && self.rng.chance(1, 2) {
      n = 1 + self.rng.below(n - 1);
    }
    if let Some(f) = self.fail_at {
      n = n.min(f - self.pos);
    }
    out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}
