//! Seam for process randomness: the `getrandom` libc symbol is defined here, so hash seeds
//! (std RandomState, ordermap/indexmap) and v4 UUIDs all draw from a per-thread seeded stream.
use crate::rng::Rng;
use std::cell::Cell;
thread_local! {
  static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
  static DRAWS: Cell<u64> = const { Cell::new(0) };
}
pub fn seed_thread(seed: u64) {
  STATE.with(|s| s.set(Rng::new(seed ^ 0xe27).next()));
}
pub fn draws() -> u64 {
  DRAWS.with(|d| d.get())
}
fn fill(buf: *mut u8, len: usize) {
  let mut r = Rng(STATE.with(|s| s.get()));
  for i in 0..len {
    unsafe { *buf.add(i) = r.next() as u8 }
  }
  STATE.with(|s| s.set(r.0));
  DRAWS.with(|d| d.set(d.get() + 1));
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
  fill(buf, len);
  len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
  fill(buf, len);
  0
}
