//! Choice sequences, the case runner, shrinking, replay files and evidence.

use std::cell::{RefCell, UnsafeCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::prelude::Rng;
use proptest::test_runner::{RngAlgorithm, TestRng};
use serde_json::{json, Value};

/// Outcome of one case: `Err` is a violation with its explanation.
pub type Res = Result<(), String>;

pub fn mix(mut h: u64, v: u64) -> u64 {
  h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
  h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
  h ^ (h >> 31)
}

pub fn hash_str(s: &str) -> u64 {
  s.bytes().fold(0x1234_5678_9abc_def0, |h, b| mix(h, b as u64))
}

/// The words of a case: a new case draws them as it goes and keeps them; a
/// recorded case yields zeros once its words are used up.
struct Tape { words: Vec<u32>, rng: Option<TestRng>, read: usize }

/// A tape shared by the clones of a source. A standard mutex asks whether any
/// thread panics, which would show in the coverage of a case.
struct Shared { busy: AtomicBool, tape: UnsafeCell<Tape> }
unsafe impl Sync for Shared {}

impl Shared {
  fn new(tape: Tape) -> Arc<Self> { Arc::new(Shared { busy: AtomicBool::new(false), tape: UnsafeCell::new(tape) }) }
  /// Runs a function that does not panic on the tape, alone.
  fn with<R>(&self, f: impl FnOnce(&mut Tape) -> R) -> R {
    while self.busy.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
    let r = f(unsafe { &mut *self.tape.get() });
    self.busy.store(false, Ordering::Release);
    r
  }
}

/// Longest choice sequence of a case.
const MAX_WORDS: usize = 1 << 20;

/// Decodes decisions from a sequence of words; small words always decode to the
/// simplest choice. Clones read the same words again.
#[derive(Clone)]
pub struct Src {
  tape: Arc<Shared>,
  pos: usize,
  sig: u64
}

impl Src {
  pub fn new(data: &[u32]) -> Self {
    Src { tape: Shared::new(Tape { words: data.to_vec(), rng: None, read: 0 }), pos: 0, sig: 7 }
  }

  pub fn fresh(rng: TestRng) -> Self {
    Src { tape: Shared::new(Tape { words: Vec::with_capacity(128), rng: Some(rng), read: 0 }), pos: 0, sig: 7 }
  }

  /// Recorded words first, then new ones.
  pub fn resume(words: Vec<u32>, rng: TestRng) -> Self {
    Src { tape: Shared::new(Tape { words, rng: Some(rng), read: 0 }), pos: 0, sig: 7 }
  }

  fn raw(&mut self) -> u32 {
    let pos = self.pos;
    self.pos += 1;
    self.tape.with(|tape| {
      tape.read = tape.read.max(pos + 1);
      if pos >= tape.words.len() {
        if pos >= MAX_WORDS { return 0; }
        let v = match &mut tape.rng { Some(rng) => rng.next_u32(), None => return 0 };
        tape.words.push(v);
      }
      tape.words[pos]
    })
  }

  fn words(&self) -> Vec<u32> { self.tape.with(|t| t.words.clone()) }

  pub fn used(&self) -> usize { self.pos }
  pub fn sig(&self) -> u64 { self.sig }

  /// Uniform integer in 0..n.
  pub fn u(&mut self, n: usize) -> usize {
    assert!(n > 0);
    let r = ((self.raw() as u64 * n as u64) >> 32) as usize;
    self.sig = mix(self.sig, r as u64);
    r
  }

  /// Uniform integer in lo..=hi.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.u(hi - lo + 1)
  }

  pub fn bool(&mut self) -> bool { self.u(2) == 1 }

  /// True with probability 1/n.
  pub fn one_in(&mut self, n: usize) -> bool { self.u(n) == n - 1 }

  pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.u(xs.len())] }

  pub fn word(&mut self) -> u32 {
    let r = self.raw();
    self.sig = mix(self.sig, r as u64);
    r
  }

  pub fn u64(&mut self) -> u64 { ((self.word() as u64) << 32) | self.word() as u64 }
  pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }

  /// Uniform in [0, 1).
  pub fn unit(&mut self) -> f64 { self.word() as f64 / 4294967296.0 }

  /// Uniform in (-a, a); small words decode to small magnitudes.
  pub fn sym(&mut self, a: f64) -> f64 {
    let w = self.word();
    let m = (w >> 1) as f64 / 2147483648.0;
    (if w & 1 == 1 { -m * a } else { m * a }) + 0.0
  }

  /// A size that is usually small, sometimes around a power of two, up to max.
  pub fn size(&mut self, max: usize) -> usize {
    let max = max.max(1);
    let s = match self.u(8) {
      0 => 1,
      1..=4 => self.range(1, 6),
      5 => self.range(1, 17),
      6 => { let p = self.pick(&[8usize, 16, 32, 64, 128, 256]); (p + self.u(3)).saturating_sub(1) },
      _ => self.range(1, max)
    };
    s.clamp(1, max)
  }

  /// Usually lo..=hi, now and then anything up to max.
  pub fn tail(&mut self, lo: usize, hi: usize, max: usize) -> usize {
    let k = self.u(16 * (hi - lo + 1));
    if k < 15 * (hi - lo + 1) { lo + k % (hi - lo + 1) } else { self.range(lo, max) }
  }

  /// A cheap deterministic stream for bulk data, seeded by one choice.
  pub fn bulk(&mut self) -> Bulk {
    let a = self.word() as u64;
    Bulk { s: mix(0xabcdef, a) }
  }
}

/// Bulk values expanded from one choice (used for large arrays only).
pub struct Bulk { s: u64 }
impl Bulk {
  pub fn next(&mut self) -> u64 {
    self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
    mix(self.s, 1)
  }
  pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
  pub fn sym(&mut self, a: f64) -> f64 { (2.0 * self.unit() - 1.0) * a }
  pub fn u(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
  pub nontrivial: bool,
  pub labels: Vec<&'static str>,
  pub want_desc: bool,
  pub desc: Option<String>,
  pub discarded: bool
}

impl Ctx {
  /// Marks the case as non-trivial if the condition holds.
  pub fn nt(&mut self, c: bool) { if c { self.nontrivial = true; } }
  pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
  pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.labels.push(l); } }
  pub fn desc(&mut self, f: impl FnOnce() -> String) {
    if self.want_desc { let s = f(); self.desc = Some(match self.desc.take() { Some(d) => d + "; " + &s, None => s }); }
  }
  /// The generated input lies outside the domain of the property.
  pub fn discard(&mut self) -> Res { self.discarded = true; Ok(()) }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Sub {
  pub name: &'static str,
  pub f: CaseFn,
  /// cases in the quick and thorough tier
  pub quick: u64,
  pub thorough: u64
}

pub struct Prop {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub subs: Vec<Sub>
}

thread_local! {
  static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Records panic messages instead of printing them.
pub fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
      else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
      else { "panic".to_string() };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
  }));
}

pub fn last_panic() -> String {
  PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Runs a closure that may panic; `Err` holds the panic message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// A defect of the harness itself, never reported as a violation.
pub fn harness_bug(msg: &str) -> ! {
  println!("CHECK-ERROR {msg}");
  std::process::exit(3);
}

pub struct Outcome { pub res: Res, pub ctx: Ctx, pub sig: u64, pub used: usize, src: Src }

impl Outcome {
  /// The words the case read.
  pub fn recorded(&self) -> Vec<u32> { self.src.tape.with(|t| t.words[..t.read.min(t.words.len())].to_vec()) }
}

pub fn run_one(f: CaseFn, data: &[u32], want_desc: bool) -> Outcome {
  run_src(f, Src::new(data), want_desc)
}

pub fn run_src(f: CaseFn, mut src: Src, want_desc: bool) -> Outcome {
  let mut ctx = Ctx { want_desc, ..Ctx::default() };
  let res = match catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut ctx))) {
    Ok(r) => r,
    Err(_) => Err(format!("unexpected panic: {}", last_panic()))
  };
  Outcome { res, sig: src.sig(), used: src.used(), ctx, src }
}

pub fn case_rng(seed: u64, prop: &str, sub: &str, index: u64) -> TestRng {
  let mut h = mix(hash_str(prop), hash_str(sub));
  h = mix(h, seed);
  h = mix(h, index);
  let mut bytes = [0u8; 32];
  for i in 0..4 { h = mix(h, i as u64); bytes[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes()); }
  TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

/// Shrinks a failing choice sequence: drop tails, delete spans, zero and lower words.
fn shrink(f: CaseFn, data: Vec<u32>) -> Vec<u32> {
  let start = Instant::now();
  let mut budget = 3000u32;
  let mut fails = |d: &[u32]| -> bool {
    if budget == 0 || start.elapsed() > Duration::from_secs(60) { return false; }
    budget -= 1;
    run_one(f, d, false).res.is_err()
  };
  let mut best = data;
  let used = run_one(f, &best, false).used.min(best.len());
  if fails(&best[..used]) { best.truncate(used); }
  loop {
    let before = best.clone();
    // truncate
    let mut cut = best.len() / 2;
    while cut > 0 {
      while best.len() >= cut && fails(&best[..best.len() - cut]) { let n = best.len() - cut; best.truncate(n); }
      cut /= 2;
    }
    // delete spans
    for span in [32usize, 8, 4, 2, 1] {
      let mut i = 0;
      while i + span <= best.len() {
        let mut c = best.clone();
        c.drain(i..i + span);
        if fails(&c) { best = c; } else { i += span; }
      }
    }
    // zero, then lower
    for i in 0..best.len() {
      if best[i] == 0 { continue; }
      let mut c = best.clone();
      c[i] = 0;
      if fails(&c) { best = c; continue; }
      let (mut lo, mut hi) = (0u32, best[i]);
      while hi - lo > 1 && hi - lo > hi / 64 {
        let mid = lo + (hi - lo) / 2;
        let mut c = best.clone();
        c[i] = mid;
        if fails(&c) { hi = mid; } else { lo = mid; }
      }
      if hi != best[i] { best[i] = hi; }
    }
    if best == before { break; }
  }
  best
}

pub fn verif_dir() -> PathBuf {
  PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct SubStats {
  name: &'static str,
  planned: u64,
  evaluations: u64,
  discarded: u64,
  distinct: HashSet<u64>,
  labels: BTreeMap<&'static str, u64>,
  samples: Vec<(u64, String)>
}

/// Findings recorded in the committed file as not fixed: property, sub-check and
/// a fragment the failure message has to contain.
pub struct Known { pub prop: String, pub sub: String, pub needle: String, pub what: String }

pub fn load_known() -> Vec<Known> {
  let mut out = Vec::new();
  let path = verif_dir().join("known-findings.txt");
  if let Ok(text) = std::fs::read_to_string(path) {
    for line in text.lines() {
      // open: property=Cxx sub=<name> match=<text> | what
      if let Some(rest) = line.strip_prefix("open: ") {
        let (key, what) = rest.split_once(" | ").unwrap_or((rest, ""));
        let get = |k: &str, end: bool| -> String {
          key.find(k).map(|i| { let t = &key[i + k.len()..]; if end { t.to_string() } else { t.split(' ').next().unwrap_or("").to_string() } }).unwrap_or_default()
        };
        let known = Known { prop: get("property=", false), sub: get("sub=", false), needle: get("match=", true), what: what.to_string() };
        if !known.needle.is_empty() { out.push(known); }
      }
    }
  }
  out
}

/// Runs one property. Returns the process exit code.
pub fn run_prop(p: &Prop, seed: u64, thorough: bool, scale: f64) -> i32 {
  let start = Instant::now();
  let tier = if thorough { "thorough" } else { "quick" };
  let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
  let known = load_known();
  let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
  let mut stats: Vec<SubStats> = Vec::new();
  let mut failure: Option<(usize, u64, Vec<u32>, String)> = None;
  // on a slow machine the number of cases gives way, never the verdict
  let allowed = Duration::from_secs(if thorough { 520 } else { 300 });

  for (si, sub) in p.subs.iter().enumerate() {
    let until = Instant::now() + allowed.saturating_sub(start.elapsed()) / (p.subs.len() - si) as u32;
    let total = ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let merged = Mutex::new(SubStats { name: sub.name, planned: total, evaluations: 0, discarded: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: Vec::new() });
    let fails: Mutex<Vec<(u64, Vec<u32>, String)>> = Mutex::new(Vec::new());
    let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let block = (total / (threads as u64 * 8)).clamp(1, 32);
    std::thread::scope(|sc| {
      for _ in 0..threads {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || {
          let mut ev = 0u64; let mut disc = 0u64;
          let mut distinct = HashSet::new();
          let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
          let mut samples = Vec::new();
          'outer: loop {
            let b = next.fetch_add(block, Ordering::Relaxed);
            if b >= total || Instant::now() >= until { break; }
            for i in b..(b + block).min(total) {
              if i > first_fail.load(Ordering::Relaxed) { break 'outer; }
              let out = run_src(sub.f, Src::fresh(case_rng(seed, p.id, sub.name, i)), i < 64);
              ev += 1;
              for l in out.ctx.labels.iter() { *labels.entry(l).or_default() += 1; }
              if out.ctx.discarded { disc += 1; }
              else if out.ctx.nontrivial {
                // bounded memory: beyond this the count is a lower bound
                if distinct.len() < 2_000_000 { distinct.insert(out.sig); }
                if let Some(d) = out.ctx.desc { samples.push((i, d)); }
              }
              if let Err(msg) = out.res {
                if let Some(k) = known.iter().find(|k| k.prop == p.id && (k.sub.is_empty() || k.sub == sub.name) && msg.contains(&k.needle)) {
                  *hits.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                } else {
                  first_fail.fetch_min(i, Ordering::Relaxed);
                  fails.lock().unwrap().push((i, out.src.words(), msg));
                }
              }
            }
          }
          let mut m = merged.lock().unwrap();
          m.evaluations += ev;
          m.discarded += disc;
          m.distinct.extend(distinct);
          for (k, v) in labels { *m.labels.entry(k).or_default() += v; }
          m.samples.extend(samples);
        }).unwrap();
      }
    });
    for (k, v) in hits.into_inner().unwrap() { *known_hits.entry(k).or_default() += v; }
    let mut st = merged.into_inner().unwrap();
    st.samples.sort();
    st.samples.truncate(2);
    stats.push(st);
    let mut fl = fails.into_inner().unwrap();
    fl.sort_by_key(|f| f.0);
    if let Some((i, d, msg)) = fl.into_iter().next() {
      failure = Some((si, i, d, msg));
      break;
    }
  }

  let mut searched = Value::Null;
  if failure.is_none() && scale > 0.0 {
    match guided_phase(p, seed, tier, scale) {
      Ok((v, f)) => { searched = v; failure = f; }
      Err(e) => harness_bug(&format!("the guided search failed: {e}"))
    }
  }

  let mut violations = 0;
  let mut code = 0;
  if let Some((si, index, data, seen)) = failure {
    let sub = &p.subs[si];
    let small = shrink(sub.f, data.clone());
    let mut out = run_one(sub.f, &small, true);
    let mut used = small;
    if out.res.is_ok() { used = data; out = run_one(sub.f, &used, true); }
    // code under test that answers differently from run to run may not fail again
    let msg = match out.res { Err(m) => m, Ok(()) => format!("{seen} (seen once, not on running the case again)") };
    violations = 1;
    code = 1;
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", p.id, sub.name, seed, index));
    let v = json!({ "property": p.id, "sub": sub.name, "seed": seed, "case": index, "choices": used,
      "input": out.ctx.desc, "message": msg });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    println!("sub-check {} case {}: {}", sub.name, index, msg);
    if let Some(d) = &out.ctx.desc { println!("input: {}", d.chars().take(2000).collect::<String>()); }
    println!("VIOLATION property={} replay={}", p.id, path.display());
  }
  for (k, n) in known_hits.iter() { println!("KNOWN-FINDING: property={} {} ({} cases)", p.id, k, n); }

  let evaluations: u64 = stats.iter().map(|s| s.evaluations).sum();
  let distinct: u64 = stats.iter().map(|s| s.distinct.len() as u64).sum();
  let discarded: u64 = stats.iter().map(|s| s.discarded).sum();
  let mut samples = Vec::new();
  for s in stats.iter() {
    for (i, d) in s.samples.iter() {
      samples.push(Value::String(format!("{}#{}: {}", s.name, i, d.chars().take(600).collect::<String>())));
    }
  }
  let subs: Vec<Value> = stats.iter().map(|s| json!({ "name": s.name, "evaluations": s.evaluations, "planned": s.planned,
    "distinct_nontrivial": s.distinct.len(), "discarded": s.discarded, "labels": s.labels })).collect();
  let known_json: BTreeMap<_, _> = known_hits.iter().collect();
  let ev = json!({
    "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": { "evaluations": evaluations, "distinct_nontrivial": distinct, "discarded_outside_domain": discarded,
      "rule": p.rule, "samples": samples, "sub_checks": subs, "known_finding_hits": known_json, "guided_search": searched },
    "assumptions": p.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": violations
  });
  let evdir = verif_dir().join("evidence");
  let _ = std::fs::create_dir_all(&evdir);
  std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
  println!("{} {}: {} cases, {} distinct non-trivial, {} outside domain, {:.1}s", p.id, tier, evaluations, distinct, discarded, start.elapsed().as_secs_f64());
  code
}

type Failure = (usize, u64, Vec<u32>, String);

/// Runs the search of the instrumented build, if there is one.
fn guided_phase(p: &Prop, seed: u64, tier: &str, scale: f64) -> Result<(Value, Option<Failure>), String> {
  let Some(exe) = std::env::var_os("GUIDED_CHECK") else { return Ok((Value::Null, None)) };
  let out = std::process::Command::new(exe).args(["guided", p.id, tier]).env("VERIF_SEED", seed.to_string()).env("CASE_SCALE", scale.to_string())
    .output().map_err(|e| e.to_string())?;
  if !out.status.success() { return Err(format!("{} {}", out.status, String::from_utf8_lossy(&out.stdout))); }
  let mut v: Value = serde_json::from_slice(&out.stdout).map_err(|e| e.to_string())?;
  let f = v["failure"].take();
  let failure = if f.is_null() { None } else {
    let words = f["choices"].as_array().ok_or("no choices")?.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    Some((f["sub"].as_u64().unwrap_or(0) as usize, f["case"].as_u64().unwrap_or(0), words, f["message"].as_str().unwrap_or("").to_string()))
  };
  Ok((v["subs"].take(), failure))
}

/// The search itself, in the instrumented build; the result goes to standard output.
pub fn run_guided(p: &Prop, seed: u64, thorough: bool, scale: f64) -> i32 {
  if !covrt::available() { eprintln!("built without coverage callbacks"); return 3; }
  let start = Instant::now();
  let known = load_known();
  let allowed = Duration::from_secs(if thorough { 150 } else { 60 });
  // sub-checks with few cases are statistical or work on large files and programs
  let chosen: Vec<usize> = (0..p.subs.len()).filter(|i| p.subs[*i].quick >= 25_000).collect();
  let work = (if thorough { 6e9 } else { 0.5e9 } * scale) as u64 / chosen.len().max(1) as u64;
  let (mut subs, mut failure) = (Vec::new(), Value::Null);
  for (k, &si) in chosen.iter().enumerate() {
    let sub = &p.subs[si];
    let share = allowed.saturating_sub(start.elapsed()) / (chosen.len() - k) as u32;
    let t = Instant::now();
    let found = crate::guided::search(p, sub, seed, work, share, &known);
    subs.push(json!({ "name": sub.name, "evaluations": found.evaluations, "discarded": found.discarded, "kept": found.kept,
      "features": found.features, "edges": found.edges, "wall_s": t.elapsed().as_secs_f64() }));
    if let Some((case, words, msg)) = found.failure {
      failure = json!({ "sub": si, "case": case, "choices": words, "message": msg });
      break;
    }
  }
  println!("{}", json!({ "subs": subs, "failure": failure }));
  0
}

/// Runs a single recorded case again.
pub fn replay(props: &[Prop], path: &str) -> i32 {
  let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay json");
  let id = v["property"].as_str().unwrap();
  let sub = v["sub"].as_str().unwrap();
  let data: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
  let p = props.iter().find(|p| p.id == id).expect("unknown property");
  let s = p.subs.iter().find(|s| s.name == sub).expect("unknown sub-check");
  let out = run_one(s.f, &data, true);
  println!("input: {}", out.ctx.desc.unwrap_or_default());
  match out.res {
    Ok(()) => { println!("held"); 0 }
    Err(m) => { println!("{m}"); println!("VIOLATION property={id} replay={path}"); 1 }
  }
}
