//! Receives the compiler's coverage callbacks. Only crates built through
//! `rustc-cov.sh` call them; what a thread runs between `begin` and `end` is
//! turned into a list of features.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

/// Number of distinct feature values.
pub const FEATURES: usize = 1 << 21;
const EDGES: usize = 1 << 17;

static GUARDS: AtomicU32 = AtomicU32::new(0);

struct Map {
  counts: Vec<u8>,
  touched: Vec<u32>,
  compared: Vec<u64>,
  compares: Vec<u32>,
  last: u32,
  hits: u64
}

thread_local! { static MAP: Cell<*mut Map> = const { Cell::new(std::ptr::null_mut()) }; }

/// Whether the running program was built with coverage callbacks.
pub fn available() -> bool { GUARDS.load(Ordering::Relaxed) > 0 }

pub fn edges() -> u32 { GUARDS.load(Ordering::Relaxed) }

pub struct Recorder { map: Box<Map> }

impl Recorder {
  pub fn new() -> Self {
    Recorder { map: Box::new(Map { counts: vec![0; EDGES], touched: Vec::new(), compared: vec![0; FEATURES / 64], compares: Vec::new(), last: 0, hits: 0 }) }
  }

  /// Starts recording on this thread.
  pub fn begin(&mut self) { let p: *mut Map = &mut *self.map; MAP.with(|m| m.set(p)); }

  /// Stops recording; appends the features seen and returns the number of edges passed.
  pub fn end(&mut self, out: &mut Vec<u32>) -> u64 {
    MAP.with(|m| m.set(std::ptr::null_mut()));
    let m = &mut *self.map;
    out.clear();
    for g in m.touched.drain(..) {
      let c = std::mem::take(&mut m.counts[g as usize]);
      let b = match c { 0..=3 => c.max(1) as u32 - 1, 4..=7 => 3, 8..=15 => 4, 16..=31 => 5, 32..=127 => 6, _ => 7 };
      out.push(g * 8 + b);
    }
    for f in m.compares.drain(..) {
      m.compared[f as usize / 64] &= !(1 << (f % 64));
      out.push(f);
    }
    m.last = 0;
    std::mem::take(&mut m.hits)
  }
}

impl Default for Recorder { fn default() -> Self { Self::new() } }

/// Runs a function without recording, such as one that waits for other threads.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
  let p = MAP.with(|m| m.replace(std::ptr::null_mut()));
  let r = f();
  MAP.with(|m| m.set(p));
  r
}

#[inline(always)]
fn edge(g: u32) {
  let p = MAP.with(|m| m.get());
  if p.is_null() { return; }
  let m = unsafe { &mut *p };
  let g = g as usize & (EDGES - 1);
  let c = m.counts[g];
  if c == 0 { m.touched.push(g as u32); }
  m.counts[g] = c.saturating_add(1);
  m.last = g as u32;
  m.hits += 1;
}

/// How close two compared integers were, at the place of the last edge.
#[inline(always)]
fn compare(key: u64, a: u64, b: u64) {
  // addresses and their distances differ from run to run
  if a.max(b) >> 24 != 0 { return; }
  let p = MAP.with(|m| m.get());
  if p.is_null() { return; }
  let m = unsafe { &mut *p };
  let d = a.wrapping_sub(b).min(b.wrapping_sub(a));
  // exact distances up to 15, then powers of two
  let near = if d < 16 { d } else { 80 - d.leading_zeros() as u64 };
  let mut h = (m.last as u64) << 32 ^ key.wrapping_mul(0x9e3779b97f4a7c15) ^ near << 8;
  h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
  let f = EDGES * 8 + ((h >> 40) as usize & (FEATURES - EDGES * 8 - 1));
  let (w, bit) = (f / 64, 1u64 << (f % 64));
  if m.compared[w] & bit == 0 { m.compared[w] |= bit; m.compares.push(f as u32); }
}

/// # Safety
/// Called by the start-up code of instrumented modules.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
  if start == stop || *start != 0 { return; }
  let n = (stop as usize - start as usize) / 4;
  let base = GUARDS.fetch_add(n as u32, Ordering::Relaxed);
  for i in 0..n { *start.add(i) = base + i as u32 + 1; }
}

/// # Safety
/// Called by instrumented code with a pointer to its own number.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) { edge(*guard); }

// Only comparisons with constants count. Single bytes are discriminants and the others are often
// evaluated ahead of the test that gives their operands a meaning, on whatever was in memory.
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) { compare(1 + ((a as u64) << 8), a as u64, b as u64); }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) { compare(1 + ((a as u64) << 8), a as u64, b as u64); }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) { compare(1 + (a << 8), a, b); }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_switch(_value: u64, _cases: *mut u64) {}
