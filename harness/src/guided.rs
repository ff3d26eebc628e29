//! Coverage-guided search: choice sequences that reach something new in the
//! instrumented build are kept and changed further. The amount of work and the
//! result depend on the seed alone, not on time or on the threads.

use std::collections::HashMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use covrt::{Recorder, FEATURES};
use proptest::prelude::Rng;
use proptest::test_runner::TestRng;

use crate::core::{case_rng, run_src, Known, Prop, Src, Sub};

/// Independent searches that exchange what they found after every round.
const WORKERS: usize = 8;
const ROUNDS: u64 = 12;

/// A kept sequence with the number of edges it passes.
struct Entry { words: Vec<u32>, cost: u32 }

#[derive(Default)]
pub struct Found {
  pub evaluations: u64,
  pub discarded: u64,
  pub kept: usize,
  pub features: usize,
  pub edges: usize,
  pub failure: Option<(u64, Vec<u32>, String)>
}

/// The cheapest cost a feature was seen with, and the entry that showed it.
struct Owners { cost: Vec<u32>, entry: Vec<u32>, seen: Vec<u32> }

impl Owners {
  fn new() -> Self { Owners { cost: vec![u32::MAX; FEATURES], entry: vec![0; FEATURES], seen: Vec::new() } }
  /// A feature is worth keeping when it is new or comes at half the cost.
  fn claim(&mut self, f: u32, cost: u32, entry: u32) -> bool {
    let old = self.cost[f as usize];
    if old == u32::MAX { self.seen.push(f); } else if cost > old / 2 { return false; }
    self.cost[f as usize] = cost;
    self.entry[f as usize] = entry;
    true
  }
}

fn below(rng: &mut TestRng, n: usize) -> usize { ((rng.next_u32() as u64 * n as u64) >> 32) as usize }

/// A position, with a leaning towards the first choices: they decide the structure.
fn position(rng: &mut TestRng, n: usize) -> usize {
  if below(rng, 2) == 0 { below(rng, n.min(24)) } else { below(rng, n) }
}

fn change(rng: &mut TestRng, mut words: Vec<u32>, other: &[u32]) -> Vec<u32> {
  let times = 1 << below(rng, 4);
  for _ in 0..1 + below(rng, times) {
    if words.is_empty() { words.push(rng.next_u32()); continue; }
    let n = words.len();
    match below(rng, 14) {
      0..=3 => { let i = position(rng, n); words[i] = rng.next_u32(); }
      4..=6 => {
        // a neighbouring value, near or far
        let i = position(rng, n);
        let step = 1u32 << (8 + below(rng, 24));
        let step = step.wrapping_add(rng.next_u32() & (step - 1));
        words[i] = if below(rng, 2) == 0 { words[i].saturating_add(step) } else { words[i].saturating_sub(step) };
      }
      7 => { let i = position(rng, n); words[i] = if below(rng, 2) == 0 { 0 } else { u32::MAX }; }
      8 => { let (i, j) = (position(rng, n), position(rng, n)); words[i] = words[j]; }
      9 => { let i = position(rng, n); let k = (1 + below(rng, 8)).min(n - i); words.drain(i..i + k); }
      10 => { let i = position(rng, n); for _ in 0..1 + below(rng, 4) { let w = rng.next_u32(); words.insert(i, w); } }
      11 => { let i = position(rng, n); words.truncate(i); }
      12 => {
        // the beginning of this one, the rest of another
        if !other.is_empty() { let i = position(rng, n); let j = i.min(other.len()); words.truncate(i); words.extend_from_slice(&other[j..]); }
      }
      _ => {
        if !other.is_empty() {
          let i = position(rng, n.min(other.len()));
          let k = (1 + below(rng, 12)).min(n.min(other.len()) - i);
          words[i..i + k].copy_from_slice(&other[i..i + k]);
        }
      }
    }
  }
  words
}

/// Half of the time the owner of some feature, otherwise a recent find or any entry, the cheaper of two.
fn choose<'a>(rng: &mut TestRng, all: &'a [Entry], owners: &Owners) -> &'a Entry {
  let n = all.len();
  if below(rng, 2) == 0 { return &all[owners.entry[owners.seen[below(rng, owners.seen.len())] as usize] as usize]; }
  let pick = |rng: &mut TestRng| if below(rng, 2) == 0 { n - 1 - below(rng, (n / 4).max(1)) } else { below(rng, n) };
  let (a, b) = (pick(rng), pick(rng));
  if all[a].cost <= all[b].cost { &all[a] } else { &all[b] }
}

/// Searches one sub-check; `work` is the number of edges each search may pass.
pub fn search(p: &Prop, sub: &Sub, seed: u64, work: u64, allowed: Duration, known: &[Known]) -> Found {
  let until = Instant::now() + allowed;
  let mut corpus: Vec<Entry> = Vec::new();
  let mut owners = Owners::new();
  let mut found = Found::default();
  for round in 0..ROUNDS {
    if Instant::now() >= until { break; }
    let results: Vec<Mutex<(Vec<(Entry, Vec<u32>)>, u64, u64, Option<(u64, Vec<u32>, String)>)>> = (0..WORKERS).map(|_| Mutex::new((Vec::new(), 0, 0, None))).collect();
    std::thread::scope(|sc| {
      for (w, slot) in results.iter().enumerate() {
        let (corpus, owners) = (&corpus, &owners);
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
          let mut rec = Recorder::new();
          let mut rng = case_rng(seed, p.id, sub.name, u64::MAX - round * 64 - w as u64);
          let mut mine: HashMap<u32, u32> = HashMap::new();
          let (mut new, mut ev, mut disc, mut fail) = (Vec::<(Entry, Vec<u32>)>::new(), 0u64, 0u64, None);
          let mut feats = Vec::new();
          let mut spent = 0;
          while spent < work / ROUNDS && Instant::now() < until {
            let case = ((round * WORKERS as u64 + w as u64) << 32) + ev;
            // words beyond the recorded ones are drawn
            let tail = case_rng(seed, p.id, sub.name, (1 << 62) + case);
            let fresh = corpus.len() + new.len() < 16 || below(&mut rng, 16) == 0;
            let words = if fresh { Vec::new() } else {
              let at = |rng: &mut TestRng| -> Vec<u32> {
                // own finds of this round count as recent
                if !new.is_empty() && (corpus.is_empty() || below(rng, 4) == 0) { new[below(rng, new.len())].0.words.clone() } else { choose(rng, corpus, owners).words.clone() }
              };
              let a = at(&mut rng);
              let b = at(&mut rng);
              change(&mut rng, a, &b)
            };
            rec.begin();
            let out = run_src(sub.f, Src::resume(words, tail), false);
            let cost = (rec.end(&mut feats) + 2_000).min(u32::MAX as u64 - 1) as u32;
            spent += cost as u64;
            ev += 1;
            if out.ctx.discarded { disc += 1; }
            let used = out.recorded();
            if let Err(msg) = out.res {
              if !known.iter().any(|k| k.prop == p.id && (k.sub.is_empty() || k.sub == sub.name) && msg.contains(&k.needle)) {
                fail = Some((case, used, msg));
                break;
              }
              continue;
            }
            let fresh_feats: Vec<u32> = feats.iter().copied().filter(|f| {
              let best = owners.cost[*f as usize].min(mine.get(f).copied().unwrap_or(u32::MAX));
              let better = best == u32::MAX || cost <= best / 2;
              if better { mine.insert(*f, cost); }
              better
            }).collect();
            if !fresh_feats.is_empty() { new.push((Entry { words: used, cost }, fresh_feats)); }
          }
          *slot.lock().unwrap() = (new, ev, disc, fail);
        }).unwrap();
      }
    });
    for slot in results {
      let (new, ev, disc, fail) = slot.into_inner().unwrap();
      found.evaluations += ev;
      found.discarded += disc;
      for (entry, feats) in new {
        let (cost, at) = (entry.cost, corpus.len() as u32);
        let n = feats.into_iter().filter(|f| owners.claim(*f, cost, at)).count();
        if n > 0 { corpus.push(entry); }
      }
      if found.failure.is_none() { found.failure = fail; }
    }
    if found.failure.is_some() { break; }
  }
  found.kept = corpus.len();
  found.features = owners.seen.len();
  let mut edges: Vec<u32> = owners.seen.iter().filter(|f| (**f as usize) < FEATURES / 2).map(|f| f / 8).collect();
  edges.sort_unstable();
  edges.dedup();
  found.edges = edges.len();
  found
}
