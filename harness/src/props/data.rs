//! C22, C23, C25..C27: generators, initialisation, datasets and files.

use std::fs::File;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::Cf32;
use renplex::math::matrix::Matrix;
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::Real;

use crate::core::{guarded, Ctx, Prop, Res, Src};
use crate::cx::{cvec, evec, Cx, Elem, Re};
use crate::model::{Act, Shape, C};
use crate::net::{act_of, bits, fresh, gen_seed, io, modpow, probe_weights, raw, seed_before, Method, Spec, A, B, P};
use crate::{both, ensure, four, sub};

// ---------- C22 ----------

fn generators(s: &mut Src, ctx: &mut Ctx) -> Res {
  let seed = gen_seed(s);
  let limit: u128 = match s.u(8) { 0 => 1, 1 => s.range(2, 12) as u128, 2 => s.size(4000) as u128, 3 => s.word() as u128 + 1, 4 => P - 2 + s.u(4) as u128, 5 => if s.bool() { u64::MAX as u128 - s.u(3) as u128 } else { (1u128 << s.range(0, 63)) + s.u(2) as u128 }, 6 => P / s.range(1, 60) as u128, _ => s.range(1, 300) as u128 };
  let scale = match s.u(4) { 0 => 0, 1 => 1, 2 => s.size(1000), _ => s.u(1 << 20) };
  let n = s.range(1, 24);
  ctx.desc(|| format!("seed {seed} limit {limit} scale {scale} draws {n}"));
  ctx.nt(true);
  ctx.label_if(seed >= 1 << 97, "seed above 2^97");
  ctx.label_if(seed < P, "seed inside the modulus");
  let what = format!("seed {seed}");
  let (mut a, mut b, mut c, mut d, mut e) = (seed, seed, seed, seed, seed);
  for i in 0..n {
    let x = guarded(|| lcgf32(&mut a)).map_err(|m| format!("{what}: lcgf32 draw {i} panics: {m}"))?;
    let y = guarded(|| lcgf64(&mut b)).map_err(|m| format!("{what}: lcgf64 draw {i} panics: {m}"))?;
    let z = guarded(|| lcgi(&mut c, limit)).map_err(|m| format!("{what}: lcgi draw {i} with limit {limit} panics: {m}"))?;
    let g = guarded(|| <f32 as Real>::gen(&mut d, scale)).map_err(|m| format!("{what}: f32::gen draw {i} panics: {m}"))?;
    let h = guarded(|| <f64 as Real>::gen(&mut e, scale)).map_err(|m| format!("{what}: f64::gen draw {i} panics: {m}"))?;
    ensure!((0.0..=1.0).contains(&x), "{what}: lcgf32 draw {i} is {x}");
    ensure!((0.0..=1.0).contains(&y), "{what}: lcgf64 draw {i} is {y}");
    ensure!((z as u128) < limit, "{what}: lcgi draw {i} with limit {limit} is {z}");
    ensure!(g.abs() <= scale as f32, "{what}: f32::gen draw {i} with scale {scale} is {g}");
    ensure!(h.abs() <= scale as f64, "{what}: f64::gen draw {i} with scale {scale} is {h}");
  }
  // the same seed gives the same values
  let (mut a2, mut b2, mut c2) = (seed, seed, seed);
  for _ in 0..n { lcgf32(&mut a2); lcgf64(&mut b2); lcgi(&mut c2, limit); }
  ensure!(a2 == a && b2 == b && c2 == c, "{what}: the state after {n} draws differs between two runs");
  let (mut p, mut q) = (a, a2);
  ensure!(lcgf32(&mut p).to_bits() == lcgf32(&mut q).to_bits(), "{what}: values differ between two runs");
  Ok(())
}

fn spread(s: &mut Src, ctx: &mut Ctx) -> Res {
  let seed = match s.u(3) { 0 => s.u(1000) as u128, 1 => s.word() as u128, _ => s.u128() };
  let which = s.u(6);
  let limit = if which < 5 { if s.one_in(3) { s.range(1, 400) } else { s.range(1, 16) } } else { let b = s.range(12, 60); (1usize << b) + (s.word() as usize % (1usize << b)) };
  // the only state that reproduces itself
  let fixed = (P - B % P) % P * modpow(A - 1, P - 2) % P;
  if seed % P == fixed { return ctx.discard(); }
  ctx.desc(|| format!("long run of generator {which} from seed {seed}, limit {limit}"));
  ctx.nt(true);
  let n = 8000;
  let mut st = seed;
  let mut bins = vec![0usize; 16];
  let mut idx = vec![0usize; if which == 2 { limit } else { 0 }];
  let mut states = std::collections::HashSet::new();
  for _ in 0..n {
    let v = match which {
      0 => lcgf32(&mut st) as f64,
      1 => lcgf64(&mut st),
      2 => { let i = lcgi(&mut st, limit as u128); ensure!(i < limit, "lcgi gives {i} for limit {limit}"); idx[i] += 1; 0.5 }
      3 => <f32 as Real>::gen(&mut st, limit) as f64 / limit as f64 / 2.0 + 0.5,
      4 => <f64 as Real>::gen(&mut st, limit) / limit as f64 / 2.0 + 0.5,
      _ => { let i = lcgi(&mut st, limit as u128); ensure!(i < limit, "lcgi gives {i} for limit {limit}"); (i as f64 + 0.5) / limit as f64 }
    };
    bins[((v * 16.0) as usize).min(15)] += 1;
    states.insert(st);
  }
  ensure!(states.len() > n / 2, "generator {which} from seed {seed} visits only {} states in {n} draws", states.len());
  // 8000 draws: expected 500 per bin with a deviation of 22
  if which == 2 {
    let want = n as f64 / limit as f64;
    let dev = (want * (1.0 - 1.0 / limit as f64)).sqrt();
    for (i, k) in idx.iter().enumerate() { ensure!((*k as f64 - want).abs() <= 8.0 * dev + 1.0, "index {i} of limit {limit} occurs {k} times in {n} draws, expected about {want:.0} (seed {seed})"); }
  } else {
    for (i, k) in bins.iter().enumerate() { ensure!((*k as f64 - 500.0).abs() <= 8.0 * 22.0, "sixteenth {i} of the range gets {k} of {n} draws (generator {which}, limit {limit}, seed {seed})"); }
  }
  Ok(())
}

// ---------- C23 ----------

fn init_spec(s: &mut Src, m: Method) -> Spec {
  if s.one_in(300) { return Spec::Dense { inputs: s.range(1, 1000), units: s.range(1, 2), act: Act::None, method: m }; }
  if s.bool() { Spec::Dense { inputs: s.tail(1, 12, 90), units: s.tail(1, 12, 90), act: Act::None, method: m } }
  else { Spec::Conv { ch: s.tail(1, 3, 10), filters: s.tail(1, 3, 10), kr: s.tail(1, 4, 9), kc: s.tail(1, 4, 9), act: Act::None, method: m } }
}

fn method(s: &mut Src) -> (Method, usize) {
  let n = match s.u(4) { 0 => 1, 1 => s.size(2000), 2 => s.range(1, 100_000), _ => s.range(1, 64) };
  (match s.u(5) { 0 => Method::Uniform(n), 1 => Method::XgU(n), 2 => Method::XgN(n), 3 => Method::Xavier(n), _ => Method::He(n) }, n)
}

/// (largest magnitude or deviation, bounded)
fn scale_of(m: Method) -> (f64, bool) {
  match m {
    Method::Uniform(n) => (n as f64, true),
    Method::XgU(n) => ((6.0 / n as f64).sqrt(), true),
    Method::Xavier(n) => ((12.0 / n as f64).sqrt(), true),
    Method::He(n) | Method::XgN(n) => ((2.0 / n as f64).sqrt(), false)
  }
}

fn initialisation<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let seed = gen_seed(s);
  let (m, _) = method(s);
  let sp = init_spec(s, m);
  ctx.desc(|| format!("{} {} from seed {seed}", T::NAME, sp.short()));
  ctx.nt(true);
  ctx.label(match m { Method::Uniform(_) => "uniform", Method::XgU(_) => "glorot uniform", Method::XgN(_) => "glorot normal", Method::Xavier(_) => "xavier", Method::He(_) => "he" });
  let mut a = seed;
  let layer = guarded(|| fresh::<T>(&sp, None, &mut a)).map_err(|e| format!("initialising {} from seed {seed} panics: {e}", sp.short()))?;
  let w = probe_weights::<T>(&sp, seed)?;
  let (scale, bounded) = scale_of(m);
  for (i, z) in w.iter().enumerate() {
    let r = z.c().abs();
    ensure!(z.c().is_finite(), "weight {i} of {} from seed {seed} is {:?}", sp.short(), z);
    if bounded { ensure!(r <= scale * (1.0 + 16.0 * T::EPS), "weight {i} of {} from seed {seed} has magnitude {r}, above {scale}", sp.short()); }
  }
  // the weights are the draws of the method, one after the other
  let (mut d, lib) = (seed, m.lib());
  for (i, z) in w.iter().enumerate() {
    let want: T = lib.gen(&mut d);
    ensure!(*z == want, "weight {i} of {} from seed {seed} is {:?}, but draw {i} of the method is {:?}", sp.short(), z, want);
  }
  // same seed, same layer, same next seed
  let mut b = seed;
  let _ = fresh::<T>(&sp, None, &mut b);
  ensure!(a == b, "two initialisations from seed {seed} leave different seeds");
  ensure!(bits(&probe_weights::<T>(&sp, seed)?) == bits(&w), "two initialisations from seed {seed} differ");
  // biases start at zero: the response to zero is zero
  let shape = match &sp { Spec::Dense { inputs, .. } => Shape::Vec(*inputs), Spec::Conv { ch, kr, kc, .. } => Shape::Maps(*ch, *kr, *kc), _ => unreachable!() };
  let out = layer.foward(&io(shape, &vec![T::default(); shape.len()])).map_err(|e| format!("{e:?}"))?;
  let zeros = match &out { IOType::Scalar(v) => v.iter().all(|z| z.c() == C::ZERO), IOType::Matrix(v) => v.iter().all(|m| m.get_body().iter().all(|z| z.c() == C::ZERO)) };
  ensure!(zeros, "biases of {} do not start at zero: {:?}", sp.short(), raw(&out));
  // the next layer from the advanced seed is another one (generic seeds only: the generator has one self-reproducing state)
  let fixed = (P - B) % P * modpow(A - 1, P - 2) % P;
  if seed % P != fixed {
    ensure!(a != seed, "seed {seed} is not advanced");
    let next = probe_weights::<T>(&sp, a)?;
    ensure!(bits(&next) != bits(&w), "the next layer of seed {seed} has the same weights");
  }
  Ok(())
}

fn distribution<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let seed = s.word() as u128 + 1;
  let (m, _) = method(s);
  ctx.desc(|| format!("{} {m:?} from seed {seed}", T::NAME));
  let fixed = (P - B) % P * modpow(A - 1, P - 2) % P;
  if seed % P == fixed { return ctx.discard(); }
  ctx.nt(true);
  let mut sd = seed;
  let n = 6000;
  let lib = m.lib();
  let z: Vec<C> = (0..n).map(|_| lib.gen::<T>(&mut sd).c()).collect();
  let (scale, bounded) = scale_of(m);
  let m2 = z.iter().map(|c| c.abs2()).sum::<f64>() / n as f64;
  let big = z.iter().map(|c| c.abs()).fold(0.0, f64::max);
  for q in 0..8 {
    let k = z.iter().filter(|c| ((c.im.atan2(c.re) / std::f64::consts::PI + 1.0) * 4.0) as usize % 8 == q).count();
    ensure!((k as f64 - 750.0).abs() < 8.0 * 27.0, "{m:?} from seed {seed}: {k} of {n} phases in eighth {q} of the circle");
  }
  if bounded {
    // uniform in magnitude (1/3) or in area (1/2)
    ensure!(m2 > 0.28 * scale * scale && m2 < 0.55 * scale * scale, "{m:?} from seed {seed}: mean square magnitude {m2:e} for scale {scale}");
    ensure!(big > 0.97 * scale && big <= scale * (1.0 + 16.0 * T::EPS), "{m:?} from seed {seed}: largest magnitude {big} for scale {scale}");
  } else {
    ensure!((m2 / (scale * scale) - 1.0).abs() < 0.15, "{m:?} from seed {seed}: mean square magnitude {m2:e}, expected {:e}", scale * scale);
    let one = z.iter().filter(|c| c.abs() < scale).count() as f64 / n as f64;
    let two = z.iter().filter(|c| c.abs() < 2.0 * scale).count() as f64 / n as f64;
    ensure!((one - 0.6827).abs() < 0.05, "{m:?} from seed {seed}: {one} of the magnitudes within one deviation");
    ensure!((two - 0.9545).abs() < 0.025, "{m:?} from seed {seed}: {two} of the magnitudes within two deviations");
  }
  Ok(())
}

// ---------- scratch files ----------

static COUNTER: AtomicU64 = AtomicU64::new(0);

/// A file in a scratch directory of its own; both are removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
  fn new(tag: &str) -> Scratch {
    let name = format!("renplex-check-{}-{}", std::process::id(), COUNTER.fetch_add(1, Ordering::Relaxed));
    // memory is quicker where there is such a place
    let fast = std::path::Path::new("/dev/shm").join(&name);
    if std::fs::create_dir(&fast).is_ok() { return Scratch(fast.join(tag)); }
    let dir = std::env::temp_dir().join(name);
    if let Err(e) = std::fs::create_dir_all(&dir) { crate::core::harness_bug(&format!("no scratch directory: {e}")); }
    Scratch(dir.join(tag))
  }
  fn path(&self) -> String { self.0.display().to_string() }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_file(&self.0);
    if let Some(d) = self.0.parent() { let _ = std::fs::remove_dir(d); }
  }
}

// ---------- C25 ----------

fn wild<T: Elem>(s: &mut Src) -> T {
  let f = |s: &mut Src| match s.u(8) {
    0 => 0.0,
    1 => s.sym(1e6),
    2 => { let e = s.u(76) as i32 - 38; s.sym(1.0) * 10f64.powi(e) }
    3 => if T::EPS > 1e-10 { s.pick(&[f32::MIN_POSITIVE as f64, f32::MAX as f64, 1e-45, -3.4e38, 0.1, 1.0 / 3.0]) } else { s.pick(&[f64::MIN_POSITIVE, f64::MAX, 5e-324, -1e300, 0.1, 1.0 / 3.0]) },
    4 => s.u(2000) as f64 - 1000.0,
    _ => s.sym(1.0)
  };
  let (a, b) = (f(s), f(s));
  let z = T::mk2(a, b);
  if z.c2().is_finite() { z } else { T::mk2(1.5, -2.5) }
}

/// Reads a number as the exports write it.
fn parse<T: Elem>(text: &str) -> Option<T> {
  let num = |t: &str| -> Option<f64> { if T::EPS > 1e-10 { t.parse::<f32>().ok().map(|v| v as f64) } else { t.parse::<f64>().ok() } };
  let t = text.trim();
  if T::REAL { return Some(T::mk2(num(t)?, 0.0)); }
  // complex numbers: two real numbers in any bracketing
  let parts: Vec<&str> = t.split(|c: char| c == '[' || c == ']' || c == '(' || c == ')' || c.is_whitespace() || c == ';').filter(|p| !p.is_empty()).collect();
  if parts.len() != 2 { return None; }
  Some(T::mk2(num(parts[0])?, num(parts[1])?))
}

fn read_csv<T: Elem>(path: &str) -> Result<Vec<Vec<T>>, String> {
  let text = std::fs::read_to_string(path).map_err(|e| format!("export not readable: {e}"))?;
  text.lines().map(|l| {
    let l = l.trim_end().trim_end_matches(',');
    l.split(',').map(|c| parse::<T>(c).ok_or_else(|| format!("cannot parse {c:?} in line {l:?}"))).collect()
  }).collect()
}

fn eb<T: Elem>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| x.b2()).collect() }

/// Whether the device that is always full can be written to without creating anything.
fn full_device() -> bool {
  use std::os::unix::fs::FileTypeExt;
  std::fs::metadata("/dev/full").map_or(false, |m| m.file_type().is_char_device())
}

fn exports<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let file = Scratch::new("csv");
  if s.one_in(3) {
    let (r, c) = (s.tail(1, 8, 60), s.tail(1, 8, 60));
    let a: Vec<T> = (0..r * c).map(|_| wild::<T>(s)).collect();
    ctx.desc(|| format!("{} matrix {r}x{c} {:?}", T::NAME, &a[..a.len().min(4)]));
    ctx.label("matrix"); ctx.nt(r * c > 1);
    if s.bool() { std::fs::write(file.path(), "9,9,9\n".repeat(s.range(1, 1500))).map_err(|e| e.to_string())?; }
    let mut m = Matrix::from_body(a.clone(), [r, c]);
    if s.one_in(3) {
      // grown row by row, with capacity to spare
      m = Matrix::with_capacity([r + s.u(3), c + s.u(3)]);
      for row in a.chunks(c) { m.add_row(row.to_vec()).map_err(|e| format!("{e:?}"))?; }
    }
    m.to_csv(file.path()).map_err(|e| format!("export failed: {e}"))?;
    if s.one_in(8) && full_device() { ensure!(guarded(|| m.to_csv("/dev/full".into()).is_err()).map_err(|e| format!("export to a full device panics: {e}"))?, "export to a full device reported success"); }
    let rows = read_csv::<T>(&file.path())?;
    ensure!(rows.len() == r, "{} lines for {r} rows", rows.len());
    // nothing can be created below a plain file
    let lost = format!("{}/x.csv", file.path());
    let res = guarded(|| Matrix::from_body(a.clone(), [r, c]).to_csv(lost.clone()).is_err()).map_err(|e| format!("export to an impossible place panics: {e}"))?;
    ensure!(res, "export to an impossible place reported success");
    for (i, row) in rows.iter().enumerate() { ensure!(eb(row) == eb(&a[i * c..(i + 1) * c]), "line {i} holds {:?} instead of {:?}", row, &a[i * c..(i + 1) * c]); }
    return Ok(());
  }
  let n = if s.one_in(400) { s.u(1500) } else { s.tail(0, 8, 80) };
  // points of maps are written map by map, row by row
  let feature = |s: &mut Src, k: usize| -> (IOType<T>, Vec<T>) {
    if n > 80 || !s.one_in(4) { let v: Vec<T> = (0..k).map(|_| wild::<T>(s)).collect(); return (IOType::Scalar(v.clone()), v); }
    let maps: Vec<(Vec<T>, [usize; 2])> = (0..s.u(4)).map(|_| { let (r, c) = (s.tail(1, 3, 12), s.tail(1, 3, 12)); ((0..r * c).map(|_| wild::<T>(s)).collect(), [r, c]) }).collect();
    (IOType::Matrix(maps.iter().map(|(v, sh)| Matrix::from_body(v.clone(), *sh)).collect()), maps.into_iter().flat_map(|m| m.0).collect())
  };
  let mut pts: Vec<(Vec<T>, Vec<T>)> = Vec::new();
  let mut d: Dataset<T, T> = Dataset::new();
  for _ in 0..n {
    let (p, q) = if n > 80 { (s.range(1, 3), s.range(1, 2)) } else { (if s.one_in(20) { 0 } else { s.tail(1, 6, 60) }, s.tail(0, 4, 60)) };
    let (a, b) = (feature(s, p), feature(s, q));
    // an empty line would not tell how many points there are
    if a.1.len() + b.1.len() == 0 { return ctx.discard(); }
    ctx.label_if(matches!(a.0, IOType::Matrix(_)) || matches!(b.0, IOType::Matrix(_)), "points of maps");
    ctx.label_if(a.1.is_empty(), "point without inputs");
    d.add_point((a.0, b.0));
    pts.push((a.1, b.1));
  }
  ctx.desc(|| format!("{} dataset of {n}: {:?}", T::NAME, pts.first()));
  ctx.label("dataset"); ctx.nt(n > 1);
  // a stale longer file must not survive
  if s.bool() { std::fs::write(file.path(), "9,9,9\n".repeat(s.range(1, 1500))).map_err(|e| e.to_string())?; }
  guarded(|| d.to_csv(file.path())).map_err(|e| format!("export panics: {e}"))?.map_err(|e| format!("export failed: {e}"))?;
  let rows = read_csv::<T>(&file.path())?;
  ensure!(rows.len() == n, "{} lines for {n} points", rows.len());
  for (i, row) in rows.iter().enumerate() {
    let want: Vec<T> = pts[i].0.iter().chain(pts[i].1.iter()).copied().collect();
    ensure!(eb(row) == eb(&want), "line {i} holds {:?} instead of {:?}", row, want);
  }
  ensure!(d.get_n_points() == n, "export changed the dataset");
  if n > 0 && s.one_in(8) && full_device() { ensure!(guarded(|| d.to_csv("/dev/full".into()).is_err()).map_err(|e| format!("export to a full device panics: {e}"))?, "export to a full device reported success"); }
  let lost = format!("{}/x.csv", file.path());
  let res = guarded(|| d.to_csv(lost.clone()).is_err()).map_err(|e| format!("export to an impossible place panics: {e}"))?;
  ensure!(res, "export to an impossible place reported success");
  Ok(())
}

fn pairs<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let n = if s.one_in(300) { s.u(3000) } else if s.one_in(10) { s.u(200) } else { s.u(10) };
  let mut d: Dataset<T, T> = Dataset::new();
  ensure!(d.get_n_points() == 0, "a new dataset has points");
  type Flat = (bool, Vec<usize>, Vec<(u64, u64)>);
  fn flat<T: Elem>(x: &IOType<T>) -> Flat {
    match x { IOType::Scalar(v) => (true, vec![v.len()], eb(v)), IOType::Matrix(m) => (false, m.iter().flat_map(|a| a.get_shape().to_vec()).collect(), m.iter().flat_map(|a| eb(a.get_body())).collect()) }
  }
  let feature = |s: &mut Src| -> IOType<T> {
    if s.bool() { let k = s.tail(0, 4, 40); IOType::Scalar(evec::<T>(s, k, 1.0)) }
    else { let k = s.tail(0, 2, 12); IOType::Matrix((0..k).map(|_| { let (r, c) = (s.tail(1, 3, 12), s.tail(1, 3, 12)); Matrix::from_body(evec::<T>(s, r * c, 1.0), [r, c]) }).collect()) }
  };
  let mut want: Vec<(Flat, Flat)> = Vec::new();
  for i in 0..n {
    let (a, b) = (feature(s), feature(s));
    want.push((flat(&a), flat(&b)));
    // typed containers release only what they hold
    let is_vec = matches!(a, IOType::Scalar(_));
    ensure!(a.clone().release_vec().is_ok() == is_vec, "release_vec of {:?}", a);
    ensure!(a.clone().release_maps().is_ok() == !is_vec, "release_maps of {:?}", a);
    match a.clone() {
      IOType::Scalar(v) => {
        ensure!(eb(&a.clone().release_vec().unwrap()) == eb(&v), "released vector differs");
        ensure!(eb(a.as_slice()) == eb(&v) && eb(&a.to_vec()) == eb(&v), "slice of a vector differs");
        let mut c = a.clone();
        ensure!(eb(c.as_mut()) == eb(&v), "mutable slice of a vector differs");
      }
      IOType::Matrix(m) => {
        let rel = a.clone().release_maps().unwrap();
        ensure!(rel.len() == m.len() && rel.iter().zip(&m).all(|(p, q)| p.get_shape() == q.get_shape() && eb(p.get_body()) == eb(q.get_body())), "released maps differ");
        ensure!(guarded(|| a.as_slice().len()).is_err(), "maps given out as a slice");
        ensure!(guarded(|| a.to_vec().len()).is_err(), "maps given out as a vector");
        let mut c = a.clone();
        ensure!(guarded(|| c.as_mut().len()).is_err(), "maps given out as a mutable slice");
      }
    }
    d.add_point((a, b));
    ensure!(d.get_n_points() == i + 1, "{} points after adding {}", d.get_n_points(), i + 1);
  }
  ctx.desc(|| format!("{} dataset of {n} points", T::NAME));
  ctx.nt(n > 1);
  for (i, w) in want.iter().enumerate() {
    let (a, b) = d.get_point(i);
    ensure!((flat(a), flat(b)) == *w, "point {i} of {n} is {:?}", (a, b));
  }
  ensure!(guarded(|| d.get_point(n)).is_err(), "point {n} of {n} exists");
  let (a, b) = d.points_as_iter();
  ensure!(a.len() == n && b.len() == n, "iteration over {} inputs and {} targets of {n}", a.len(), b.len());
  let got: Vec<(Flat, Flat)> = a.zip(b).map(|(x, y)| (flat(x), flat(y))).collect();
  ensure!(got == want, "iteration gives {:?}", got);
  let copy = d.clone();
  let (a, b) = d.points_into_iter();
  let got: Vec<(Flat, Flat)> = a.zip(b).map(|(x, y)| (flat(&x), flat(&y))).collect();
  ensure!(got == want, "consuming iteration gives {:?}", got);
  ensure!(copy.get_n_points() == n, "clone has {} points", copy.get_n_points());
  Ok(())
}

// ---------- C26 ----------

trait Mnist: Sized { fn batch(a: &mut File, b: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self>; fn same(&self, px: u8) -> bool; fn hot(&self) -> Option<bool>; }
impl Mnist for f32 {
  fn batch(a: &mut File, b: &mut File, n: usize, t: &mut usize) -> Dataset<f32, f32> { Dataset::<f32, f32>::minist_as_batch(a, b, n, t) }
  fn same(&self, px: u8) -> bool { (*self as f64 - px as f64 / 255.0).abs() <= 2e-7 }
  fn hot(&self) -> Option<bool> { if *self == 1.0 { Some(true) } else if *self == 0.0 { Some(false) } else { None } }
}
impl Mnist for f64 {
  fn batch(a: &mut File, b: &mut File, n: usize, t: &mut usize) -> Dataset<f64, f64> { Dataset::<f64, f64>::minist_as_batch(a, b, n, t) }
  fn same(&self, px: u8) -> bool { (*self - px as f64 / 255.0).abs() <= 1e-15 }
  fn hot(&self) -> Option<bool> { if *self == 1.0 { Some(true) } else if *self == 0.0 { Some(false) } else { None } }
}
macro_rules! mnist_complex { ($t:ty, $e:expr) => {
  impl Mnist for $t {
    fn batch(a: &mut File, b: &mut File, n: usize, t: &mut usize) -> Dataset<$t, $t> { Dataset::<$t, $t>::minist_as_complex_batch(a, b, n, t) }
    fn same(&self, px: u8) -> bool { self.c().dist(C::new(px as f64 / 255.0, 0.0)) <= $e }
    fn hot(&self) -> Option<bool> { if self.c() == C::new(1.0, 0.0) { Some(true) } else if self.c() == C::ZERO { Some(false) } else { None } }
  }
} }
mnist_complex!(Cf32, 4e-7);
mnist_complex!(renplex::math::cfloat::Cf64, 2e-15);

/// Pixels of record i.
fn pixels(key: u64, i: usize) -> Vec<u8> {
  let mut h = crate::core::mix(key, i as u64);
  (0..784).map(|_| { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (h >> 56) as u8 }).collect()
}
fn label(key: u64, i: usize) -> u8 { (crate::core::mix(key ^ 0x55, i as u64) % 10) as u8 }

fn mnist_case<T: Mnist + Elem>(s: &mut Src, ctx: &mut Ctx, total: usize) -> Res {
  // a rest that is not a complete record: part of an image, or images or labels without counterpart
  let (part, images, labels) = match s.u(12) { 0 => (s.range(1, 783), 0, s.u(3)), 1 => (0, s.range(1, 3), 0), 2 => (0, 0, s.range(1, 3)), _ => (0, 0, 0) };
  ctx.label_if(part + images + labels > 0, "incomplete rest");
  let key = s.word() as u64;
  let (img, lab) = (Scratch::new("images"), Scratch::new("labels"));
  {
    let mut f = File::create(&img.0).map_err(|e| e.to_string())?;
    let mut hdr = Vec::new();
    for v in [2051u32, total as u32, 28, 28] { hdr.extend(v.to_be_bytes()); }
    f.write_all(&hdr).unwrap();
    let mut f = std::io::BufWriter::new(f);
    for i in 0..total + images { f.write_all(&pixels(key, i)).unwrap(); }
    f.write_all(&pixels(key, total)[..part]).unwrap();
    f.flush().unwrap();
    let mut f = File::create(&lab.0).map_err(|e| e.to_string())?;
    let mut body = Vec::new();
    for v in [2049u32, total as u32] { body.extend(v.to_be_bytes()); }
    body.extend((0..total + labels).map(|i| label(key, i)));
    f.write_all(&body).unwrap();
  }
  let mut fi = File::open(&img.0).map_err(|e| e.to_string())?;
  let mut fl = File::open(&lab.0).map_err(|e| e.to_string())?;
  let mut tracker = 0;
  let mut next = 0;
  let mut sizes = Vec::new();
  let mut empty = 0;
  while empty < 2 && sizes.len() < 60 {
    let left = total - next;
    // long files are read in large batches until their last records
    let size = if left > 20_000 { s.range(2000, 20_000) } else if left > 2000 { left - s.u(60) } else { match s.u(8) { 0 => 0, 1 => 1, 2 => s.range(1, 40), 3 => left, 4 => left + s.u(3), _ => s.range(1, if total > 100 { left / 4 + 9 } else { 9 }) } };
    sizes.push(size);
    let d = guarded(|| T::batch(&mut fi, &mut fl, size, &mut tracker)).map_err(|e| format!("batch {} of {size} after {next} of {total} records panics: {e}", sizes.len()))?;
    let n = d.get_n_points();
    ensure!(n <= size, "a batch of {size} has {n} points");
    let want = size.min(total - next);
    ensure!(n == want, "batch of {size} at record {next} of {total} has {n} points instead of {want}");
    for k in 0..n {
      let (x, t) = d.get_point(k);
      let IOType::Matrix(maps) = x else { return Err("image is not a feature map".into()) };
      ensure!(maps.len() == 1 && maps[0].get_shape() == [28, 28], "image {next} has {} maps of shape {:?}", maps.len(), maps.first().map(|m| m.get_shape().to_vec()));
      // of a long file a sample of the images, its ends and the ends of batches are looked at
      if total < 2000 || next % 61 == 0 || k < 3 || k + 3 >= n || next + 40 >= total {
        let px = pixels(key, next);
        for (q, z) in maps[0].get_body().iter().enumerate() { ensure!(z.same(px[q]), "pixel {q} of record {next} is {:?} instead of {}/255", z, px[q]); }
      }
      let IOType::Scalar(v) = t else { return Err("label is not a vector".into()) };
      let l = label(key, next) as usize;
      ensure!(v.len() == 10 && v.iter().enumerate().all(|(i, z)| z.hot() == Some(i == l)), "label of record {next} is {:?} instead of class {l}", v);
      next += 1;
    }
    if next == total { empty += 1; }
  }
  ctx.desc(|| format!("{} {total} records and a rest of {images} images, {part} bytes, {labels} labels, batches {sizes:?}", T::NAME));
  ctx.nt(next > 1);
  ctx.label_if(next == total, "read to the end and beyond");
  Ok(())
}

fn mnist<T: Mnist + Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let total = match s.u(6) { 0 => s.range(0, 3), 1 => s.range(1, 60), _ if s.one_in(100) => s.range(1, 1500), _ => s.range(1, 20) };
  mnist_case::<T>(s, ctx, total)
}

/// Files as long as the training and test sets.
fn mnist_end<T: Mnist + Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let total = s.pick(&[60_000usize, 10_000, 60_000]);
  ctx.label(if total == 60_000 { "training set" } else { "test set" });
  mnist_case::<T>(s, ctx, total)
}

// ---------- C27 ----------

type Points = Vec<(Vec<Cf32>, Vec<Cf32>)>;

fn signals(samples: usize, batch: usize, noise: f32, a: u128, b: u128) -> Result<(Points, Points, u128, u128), String> {
  let (mut x, mut y) = (a, b);
  let (p, q) = guarded(|| Dataset::signal_reconstruction(samples, batch, noise, &mut x, &mut y))
    .map_err(|e| format!("{samples} samples, batch {batch}, noise {noise}, seeds {a} and {b}: panic {e}"))?;
  let take = |d: Dataset<Cf32, Cf32>| -> Result<Points, String> {
    let (i, t) = d.points_into_iter();
    i.zip(t).map(|(a, b)| Ok((a.release_vec().map_err(|_| "signal is not a vector")?, b.release_vec().map_err(|_| "signal is not a vector")?))).collect()
  };
  Ok((take(p)?, take(q)?, x, y))
}

fn signal_data(s: &mut Src, ctx: &mut Ctx) -> Res {
  let samples = match s.u(6) { 0 => s.range(1, 3), 1 => s.tail(1, 300, 2000), 2 => s.pick(&[64usize, 128, 100, 63, 101]), _ => s.range(1, 24) };
  let batch = if s.one_in(12) { 0 } else if s.one_in(300) { s.range(1, 300) } else { s.tail(1, 5, 40) };
  let noise = match s.u(4) { 0 => 0.0, 1 => 0.1, _ => s.unit() as f32 * 2.0 };
  let gs = |s: &mut Src| if s.one_in(3) { let k = s.range(1, 120); seed_before(s.pick(&[0, P - 1]), k) } else { gen_seed(s) };
  let (a, b) = (gs(s), gs(s));
  let what = format!("{samples} samples, batch {batch}, noise {noise}, seeds {a} and {b}");
  ctx.desc(|| what.clone());
  ctx.nt(batch > 0 && samples > 1);
  ctx.label_if(samples % 2 == 1, "odd sample count");
  ctx.label_if(noise == 0.0, "no noise");
  let (tr, te, x, y) = signals(samples, batch, noise, a, b)?;
  for (name, set) in [("training", &tr), ("test", &te)] {
    ensure!(set.len() == batch, "{what}: {} {name} points", set.len());
    for (noisy, clean) in set.iter() {
      ensure!(noisy.len() == samples && clean.len() == samples, "{what}: {name} signal of {} and {} samples", noisy.len(), clean.len());
      ensure!(noisy.iter().chain(clean).all(|z| z.c().is_finite()), "{what}: {name} signal is not finite");
      let peak = clean.iter().map(|z| z.c().abs()).fold(0.0, f64::max);
      ensure!((peak - 1.0).abs() < 1e-5, "{what}: clean {name} signal has peak {peak}");
      if noise == 0.0 { ensure!(noisy == clean, "{what}: {name} signal differs from the clean one without noise"); }
    }
  }
  let (tr2, te2, x2, y2) = signals(samples, batch, noise, a, b)?;
  ensure!(tr == tr2 && te == te2 && x == x2 && y == y2, "{what}: a second generation differs");
  // the same seeds with half the threshold give half the noise on the same signal
  if noise > 0.0 && batch > 0 {
    let (tr3, te3, _, _) = signals(samples, batch, noise / 2.0, a, b)?;
    for (name, p, q) in [("training", &tr, &tr3), ("test", &te, &te3)] {
      let (mut n1, mut n2) = (0.0, 0.0);
      for ((ny, cl), (ny2, cl2)) in p.iter().zip(q) {
        ensure!(cl == cl2, "{what}: the clean {name} signal depends on the noise");
        for i in 0..samples {
          let (d, h) = (ny[i].c() - cl[i].c(), ny2[i].c() - cl[i].c());
          ensure!(d.dist(h.scale(2.0)) <= 1e-5 * (1.0 + d.abs()), "{what}: {name} noise {:?} becomes {:?} with half the threshold", d, h);
          n1 += d.abs2(); n2 += h.abs2();
        }
      }
      // one pair of draws may be exactly zero
      if samples * batch > 4 { ensure!(n1 > 0.0 && n2 > 0.0, "{what}: {name} data without noise"); }
    }
  }
  Ok(())
}

/// The size of the noise over many samples.
fn noise_level(s: &mut Src, ctx: &mut Ctx) -> Res {
  let noise = 0.05 + s.unit() as f32;
  let (a, b) = (s.word() as u128 + 1, s.word() as u128 + 77);
  ctx.desc(|| format!("noise {noise} seeds {a} and {b}"));
  ctx.nt(true);
  let (tr, te, _, _) = signals(400, 10, noise, a, b)?;
  for (name, set) in [("training", &tr), ("test", &te)] {
    let d: Vec<f64> = set.iter().flat_map(|(n, c)| n.iter().zip(c).map(|(x, y)| x.c().dist(y.c())).collect::<Vec<_>>()).collect();
    // one to 1.05 thresholds, with room for the sampling error; the two samples of a pair are drawn differently
    for (part, first, step, low, high) in [("all", 0, 1, 0.88, 1.18), ("even", 0, 2, 0.86, 1.22), ("odd", 1, 2, 0.86, 1.22)] {
      let (sum, n) = d.iter().skip(first).step_by(step).fold((0.0, 0), |(t, n), x| (t + x * x, n + 1));
      let rms = (sum / n as f64).sqrt();
      ensure!(rms > low * noise as f64 && rms < high * noise as f64, "noise {noise} seeds {a} and {b}: {name} noise of {part} samples has size {rms}");
    }
  }
  // different seeds give different data
  ensure!(tr.iter().zip(&tr[1..]).all(|(p, q)| p.1 != q.1), "two consecutive training signals are equal");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let _ = (act_of(Act::None), cvec::<Cf32>, <f32 as Re>::NAME);
  let mut out = Vec::new();
  let mut v = Vec::new();
  sub!(v, "range", generators, 4_000_000, 40_000_000);
  sub!(v, "spread", spread, 20_000, 500_000);
  out.push(Prop { id: "C22", rule: "seeds of every size, near the end of the range and leading to the extreme states, limits 1..2^64, scales; long runs of 8000 draws for evenness; every case is non-trivial", assumptions: &["limits from 1 to 2^64 - 1", "the one self-reproducing state of the generator is left out of long runs"], subs: v });
  let mut v = Vec::new();
  both!(v, "layers", initialisation, 400_000, 10_000_000);
  both!(v, "distribution", distribution, 16_000, 400_000);
  out.push(Prop { id: "C23", rule: "method x unit count up to 100000 x layer x seed (extreme states included), and 6000 draws per distribution; every case is non-trivial", assumptions: &["unit counts at least one"], subs: v });
  let mut v = Vec::new();
  four!(v, "pairs", pairs, 64_000, 1_600_000);
  four!(v, "exports", exports, 16_000, 300_000);
  out.push(Prop { id: "C25", rule: "datasets of 0..200 points of vectors and maps; exports of 0..8 points of vectors or maps and matrices up to 8x8 with extreme finite values, parsed back; non-trivial: more than one point", assumptions: &["exported points have at least one number", "values finite"], subs: v });
  let mut v = Vec::new();
  four!(v, "small", mnist, 8_000, 200_000);
  four!(v, "full", mnist_end, 16, 400);
  out.push(Prop { id: "C26", rule: "synthetic image and label files of 0..60 (rarely 1500) records, with incomplete records at the end of either file, and of 10000 and 60000 records, read in random batch sizes to the end and beyond; non-trivial: at least two records read", assumptions: &["at most 60000 complete records", "labels 0..9"], subs: v });
  let mut v = Vec::new();
  sub!(v, "signals", signal_data, 400_000, 10_000_000);
  sub!(v, "noise", noise_level, 8_000, 200_000);
  out.push(Prop { id: "C27", rule: "1..300 samples, 0..5 points, thresholds 0..2, seeds of every size and leading to the extreme states; 4000 samples for the noise level; non-trivial: at least one point of two samples", assumptions: &["at least one sample"], subs: v });
  out
}
