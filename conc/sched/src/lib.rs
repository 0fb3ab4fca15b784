//! A scheduler for real threads, one of which runs at a time. Instrumented code calls in here before
//! every load and store and on every edge; a seeded generator decides who runs next. Futex waits,
//! yields and sleeps of instrumented code are scheduling points, never real waits.
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::thread::Thread;

pub const MAX: usize = 16;
/// a thread that runs this long without a switch may be spinning: others must get on
const SPIN: u64 = 400_000;
pub type Switch = (u8, u64, u8);

#[derive(Clone, Copy, Debug)]
pub struct Knobs {
  /// one in so many accesses to memory another thread has written (or, for a store, read) preempts
  pub hot: u64,
  /// the same for any other access and for edges
  pub cold: u64,
  /// the same for the points between operations
  pub op: u64,
  /// one in so many preemptions at such an access keeps the thread off until others have done some whole operations
  pub stall: u64,
  /// events after which a run counts as endless
  pub limit: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum S {
  None,
  Ready,
  Waiting(usize),
  Done,
}
#[derive(Default)]
struct H(u64);
impl Hasher for H {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
    }
  }
  fn write_usize(&mut self, x: usize) {
    self.0 = (x as u64 >> 3).wrapping_mul(0x9e3779b97f4a7c15);
    self.0 ^= self.0 >> 32;
  }
}
struct St {
  rng: u64,
  knobs: Knobs,
  seen: HashMap<usize, (u16, u16), BuildHasherDefault<H>>,
  state: [S; MAX],
  local: [u64; MAX],
  n: usize,
  trace: Vec<Switch>,
  explicit: Option<VecDeque<Switch>>,
  since: u64,
  stall: [u64; MAX],
  events: u64,
  hot_events: u64,
  forced: u64,
  futex_waits: u64,
  quiet: u64,
}
static mut ST: Option<St> = None;
static mut HANDLES: [Option<Thread>; MAX] = [const { None }; MAX];
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
static ARRIVED: AtomicUsize = AtomicUsize::new(0);
static OVER: AtomicBool = AtomicBool::new(false);

thread_local! {
  static ME: Cell<usize> = const { Cell::new(usize::MAX) };
  /// inside the scheduler itself
  static IN: Cell<bool> = const { Cell::new(false) };
  /// in harness code: no preemption, but waiting (a lock of the library, a spin) still lets others on
  static QUIET: Cell<bool> = const { Cell::new(true) };
}
/// the running simulated thread enters the scheduler
fn begin() -> Option<usize> {
  let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
  if me == usize::MAX || OVER.load(SeqCst) || IN.try_with(|b| b.replace(true)).unwrap_or(true) {
    return None;
  }
  Some(me)
}
fn end() {
  IN.with(|b| b.set(false));
}

#[allow(static_mut_refs)]
fn st() -> &'static mut St {
  unsafe { ST.as_mut().expect("scheduler not set up") }
}
fn rnd(s: &mut St) -> u64 {
  s.rng = s.rng.wrapping_add(0x9e3779b97f4a7c15);
  let mut z = s.rng;
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
pub struct Report {
  pub trace: Vec<Switch>,
  pub events: u64,
  pub hot_events: u64,
  pub futex_waits: u64,
}
/// before any thread is started
pub fn setup(n: usize, seed: u64, knobs: Knobs, explicit: Option<Vec<Switch>>) {
  assert!(n <= MAX);
  unsafe {
    ST = Some(St {
      rng: seed,
      knobs,
      seen: HashMap::default(),
      state: [S::None; MAX],
      local: [0; MAX],
      n,
      trace: vec![],
      explicit: explicit.map(|v| v.into()),
      since: 0,
      stall: [0; MAX],
      events: 0,
      hot_events: 0,
      forced: 0,
      futex_waits: 0,
      quiet: 0,
    });
  }
}
/// called by thread k as the first thing it does; returns when it is scheduled for the first time
#[allow(static_mut_refs)]
pub fn enter(k: usize) {
  IN.with(|b| b.set(true));
  ME.with(|m| m.set(k));
  unsafe { HANDLES[k] = Some(std::thread::current()) };
  st().state[k] = S::Ready;
  ARRIVED.fetch_add(1, SeqCst);
  wait_turn(k);
  end();
}
/// number of threads waiting at the start; the starter spawns them one after another
pub fn arrived() -> usize {
  ARRIVED.load(SeqCst)
}
pub fn start() {
  let s = st();
  let k = match &s.explicit {
    Some(_) => 0,
    None => (rnd(s) % s.n as u64) as usize,
  };
  let k = match s.explicit.as_mut().and_then(|e| e.front().copied()) {
    Some((255, _, to)) => {
      s.explicit.as_mut().unwrap().pop_front();
      to as usize
    },
    _ => k,
  };
  s.trace.push((255, 0, k as u8));
  hand(k);
}
#[allow(static_mut_refs)]
fn hand(k: usize) {
  CUR.store(k, SeqCst);
  unsafe { HANDLES[k].as_ref().unwrap().unpark() };
}
fn wait_turn(k: usize) {
  while CUR.load(SeqCst) != k {
    std::thread::park();
  }
}
/// thread k is finished; returns when all are
#[allow(static_mut_refs)]
pub fn finish(k: usize) {
  IN.with(|b| b.set(true));
  let s = st();
  s.state[k] = S::Done;
  if s.state[..s.n].iter().all(|x| *x == S::Done) {
    OVER.store(true, SeqCst);
    CUR.store(usize::MAX - 1, SeqCst);
    for i in 0..s.n {
      unsafe { HANDLES[i].as_ref().unwrap().unpark() };
    }
  } else {
    let to = choose(s, k);
    s.trace.push((k as u8, s.local[k], to as u8));
    hand(to);
    while !OVER.load(SeqCst) {
      std::thread::park();
    }
  }
}
pub fn report() -> Report {
  let s = st();
  Report { trace: std::mem::take(&mut s.trace), events: s.events, hot_events: s.hot_events, futex_waits: s.futex_waits }
}
fn choose(s: &mut St, me: usize) -> usize {
  let mut ready: Vec<usize> = (0..s.n).filter(|i| *i != me && s.state[*i] == S::Ready).collect();
  if s.explicit.is_none() && ready.iter().any(|i| s.stall[*i] == 0) {
    ready.retain(|i| s.stall[*i] == 0);
  }
  if ready.is_empty() {
    if s.state[me] == S::Ready {
      return me;
    }
    deadlock();
  }
  if let Some(e) = s.explicit.as_mut() {
    if let Some((t, l, to)) = e.front().copied() {
      if t as usize == me && l == s.local[me] {
        e.pop_front();
        if ready.contains(&(to as usize)) {
          return to as usize;
        }
      }
    }
    // round robin, so that whoever is waited for runs in the end
    return ready.iter().copied().find(|i| *i > me).unwrap_or(ready[0]);
  }
  let r = rnd(s);
  ready[(r % ready.len() as u64) as usize]
}
fn deadlock() -> ! {
  raw_exit(44)
}
fn switch_to(s: &mut St, me: usize, to: usize) {
  s.since = 0;
  s.trace.push((me as u8, s.local[me], to as u8));
  if to == me {
    return;
  }
  hand(to);
  wait_turn(me);
}
enum P {
  Access(usize, bool),
  Edge,
  Op,
}
fn point(p: P) {
  let Some(me) = begin() else { return };
  let s = st();
  if QUIET.with(|q| q.get()) {
    s.quiet += 1;
    if s.quiet > SPIN {
      s.quiet = 0;
      s.local[me] += 1;
      s.events += SPIN;
      if s.events > s.knobs.limit {
        raw_exit(45);
      }
      s.stall = [0; MAX];
      let to = choose(s, me);
      switch_to(s, me, to);
    }
    end();
    return;
  }
  s.quiet = 0;
  s.local[me] += 1;
  s.events += 1;
  s.since += 1;
  if s.events > s.knobs.limit {
    raw_exit(45);
  }
  let mut den = s.knobs.cold;
  let mut shared = false;
  match p {
    P::Access(a, w) => {
      let bit = 1u16 << me;
      let e = s.seen.entry(a & !7).or_insert((0, 0));
      let hot = e.1 & !bit != 0 || w && e.0 & !bit != 0;
      if w {
        e.1 |= bit
      } else {
        e.0 |= bit
      }
      if hot {
        s.hot_events += 1;
        den = s.knobs.hot;
        shared = true;
      }
    },
    P::Edge => {},
    P::Op => {
      den = s.knobs.op;
      for i in 0..s.n {
        s.stall[i] = s.stall[i].saturating_sub((i != me) as u64);
      }
    },
  }
  if let Some(e) = &s.explicit {
    if let Some((t, l, _)) = e.front() {
      if *t as usize == me && *l == s.local[me] {
        let to = choose(s, me);
        switch_to(s, me, to);
      }
    }
    if s.since > SPIN {
      let to = choose(s, me);
      switch_to(s, me, to);
    }
  } else {
    // a thread that only spins must let others on
    let force = s.since > SPIN;
    s.forced += force as u64;
    if force {
      s.stall = [0; MAX];
    }
    if force || rnd(s) % den == 0 {
      if shared && !force && rnd(s) % s.knobs.stall == 0 {
        s.stall[me] = 1 + rnd(s) % 8;
      }
      let to = choose(s, me);
      if to != me {
        switch_to(s, me, to);
      }
    }
  }
  end();
}
/// between two operations of the running thread
pub fn op_point() {
  lib(|| point(P::Op))
}
/// simulated time of the running thread: instrumented events in the library so far
pub fn now() -> u64 {
  let Some(me) = begin() else { return 0 };
  let n = st().local[me];
  end();
  n
}
/// a call into the library: preemptible
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
  struct Restore(bool);
  impl Drop for Restore {
    fn drop(&mut self) {
      QUIET.with(|b| b.set(self.0));
    }
  }
  let _r = Restore(QUIET.with(|b| b.replace(false)));
  f()
}
/// harness code that must not be preempted
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
  let old = QUIET.with(|b| b.replace(true));
  let r = f();
  QUIET.with(|b| b.set(old));
  r
}
fn yield_now() {
  let Some(me) = begin() else { return };
  let s = st();
  s.local[me] += 1;
  s.events += 1;
  s.stall = [0; MAX];
  let to = choose(s, me);
  switch_to(s, me, to);
  end();
}
/// a simulated thread outside the scheduler
fn simulated() -> bool {
  ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX && !OVER.load(SeqCst) && !IN.try_with(|b| b.get()).unwrap_or(true)
}

macro_rules! cb {
  ($($n:ident $w:expr),*) => { $(
    #[no_mangle] pub extern "C" fn $n(a: *const u8) { point(P::Access(a as usize, $w)) }
  )* };
}
cb!(__sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false, __sanitizer_cov_load8 false,
    __sanitizer_cov_load16 false, __sanitizer_cov_store1 true, __sanitizer_cov_store2 true, __sanitizer_cov_store4 true,
    __sanitizer_cov_store8 true, __sanitizer_cov_store16 true);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
  point(P::Edge)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

// atomic operations: a scheduling point, then the operation (only one thread runs at a time)
macro_rules! atomics {
  ($($t:ty, $a:ty: $load:ident $store:ident $xchg:ident $cas:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $load(p: *const $a, _o: i32) -> $t { point(P::Access(p as usize, false)); (*p).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(p: *const $a, v: $t, _o: i32) { point(P::Access(p as usize, true)); (*p).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cas(p: *const $a, c: $t, v: $t, _o: i32, _f: i32) -> $t {
      point(P::Access(p as usize, true));
      match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
    }
    atomics!(@ $t, $a: $xchg swap $add fetch_add $sub fetch_sub $and fetch_and $or fetch_or $xor fetch_xor $nand fetch_nand);
  )* };
  (@ $t:ty, $a:ty: $($n:ident $op:ident)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $n(p: *const $a, v: $t, _o: i32) -> $t { point(P::Access(p as usize, true)); (*p).$op(v, SeqCst) }
  )* };
}
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics! {
  u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_compare_exchange_val
    __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or
    __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand;
  u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_compare_exchange_val
    __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or
    __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand;
  u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_compare_exchange_val
    __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or
    __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand;
  u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_compare_exchange_val
    __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or
    __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {
  point(P::Edge)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}

// ------------------------------------------------------------------ system calls
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
    in("r9") f, lateout("rcx") _, lateout("r11") _);
  r
}
pub fn raw_exit(code: i32) -> ! {
  unsafe {
    raw(231, code as usize, 0, 0, 0, 0, 0);
  }
  loop {}
}
extern "C" {
  fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
  const FUTEX: i64 = 202;
  if n == FUTEX && simulated() {
    let me = begin().unwrap();
    let s = st();
    s.local[me] += 1;
    s.events += 1;
    let op = b & 0x7f;
    let r = match op {
      // WAIT, WAIT_BITSET
      0 | 9 => {
        if *(a as *const u32) != c as u32 {
          -11
        } else if d != 0 {
          // with a timeout: time passes at once if nobody else can run
          let to = choose(s, me);
          switch_to(s, me, to);
          if to == me { -110 } else { 0 }
        } else {
          s.futex_waits += 1;
          s.state[me] = S::Waiting(a);
          let to = choose(s, me);
          switch_to(s, me, to);
          0
        }
      },
      // WAKE, WAKE_BITSET
      1 | 10 => {
        let mut left = c as i32 as i64;
        let mut k = 0;
        for i in 0..s.n {
          if left > 0 && s.state[i] == S::Waiting(a) {
            s.state[i] = S::Ready;
            left -= 1;
            k += 1;
          }
        }
        k
      },
      _ => raw(n, a, b, c, d, e, f),
    };
    end();
    if r < 0 {
      *__errno_location() = -r as i32;
      return -1;
    }
    return r;
  }
  let r = raw(n, a, b, c, d, e, f);
  if r < 0 && r > -4096 {
    *__errno_location() = -r as i32;
    return -1;
  }
  r
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
  yield_now();
  0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
  if !simulated() {
    return raw(35, a as usize, b as usize, 0, 0, 0, 0) as i32;
  }
  yield_now();
  0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(k: i32, fl: i32, a: *const u8, b: *mut u8) -> i32 {
  if !simulated() {
    return -raw(230, k as usize, fl as usize, a as usize, b as usize, 0, 0) as i32;
  }
  yield_now();
  0
}
