//! Allocator that counts per thread and refuses runaway growth.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
  static TOTAL: Cell<u64> = const { Cell::new(0) };
  static CALLS: Cell<u64> = const { Cell::new(0) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static PEAK: Cell<i64> = const { Cell::new(0) };
  static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// A single call is not allowed to hold more than this
const LIMIT: i64 = 1 << 30;

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let n = l.size() as i64;
    let over = LIVE.try_with(|c| {
      let v = c.get() + n;
      c.set(v);
      PEAK.with(|p| p.set(p.get().max(v)));
      TOTAL.with(|t| t.set(t.get() + n as u64));
      CALLS.with(|t| t.set(t.get() + 1));
      v > CAP.with(|c| c.get())
    });
    if over == Ok(true) {
      LIVE.with(|c| c.set(c.get() - n));
      return std::ptr::null_mut();
    }
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
    System.dealloc(p, l)
  }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
  pub total: u64,
  pub calls: u64,
  pub peak: i64,
}

/// While `on`, the thread may hold `LIMIT` bytes more than now
pub fn limit(on: bool) {
  CAP.with(|c| c.set(if on { LIVE.with(|l| l.get()) + LIMIT } else { i64::MAX }));
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
  let live0 = LIVE.with(|c| c.get());
  let total0 = TOTAL.with(|c| c.get());
  let calls0 = CALLS.with(|c| c.get());
  PEAK.with(|p| p.set(live0));
  let r = f();
  let u = Usage {
    total: TOTAL.with(|c| c.get()) - total0,
    calls: CALLS.with(|c| c.get()) - calls0,
    peak: PEAK.with(|p| p.get()) - live0,
  };
  (r, u)
}

#[repr(C)]
struct Timespec {
  sec: i64,
  nsec: i64,
}

extern "C" {
  fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

/// Nanoseconds this thread has run for
pub fn cpu() -> u64 {
  let mut t = Timespec { sec: 0, nsec: 0 };
  // CLOCK_THREAD_CPUTIME_ID
  let r = unsafe { clock_gettime(3, &mut t) };
  assert!(r == 0, "harness: no clock");
  t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
