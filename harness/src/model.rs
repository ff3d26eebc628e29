//! Independent reference model in double precision: complex numbers, activations,
//! losses, layers, networks, gradients and training.

use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C { pub re: f64, pub im: f64 }

impl C {
  pub const ZERO: C = C { re: 0.0, im: 0.0 };
  pub fn new(re: f64, im: f64) -> C { C { re, im } }
  pub fn conj(self) -> C { C::new(self.re, -self.im) }
  pub fn abs(self) -> f64 { self.re.hypot(self.im) }
  pub fn abs2(self) -> f64 { self.re * self.re + self.im * self.im }
  pub fn scale(self, a: f64) -> C { C::new(self.re * a, self.im * a) }
  pub fn inv(self) -> C { let n = self.abs2(); C::new(self.re / n, -self.im / n) }
  pub fn is_finite(self) -> bool { self.re.is_finite() && self.im.is_finite() }
  pub fn dist(self, o: C) -> f64 { (self - o).abs() }
}
impl Add for C { type Output = C; fn add(self, o: C) -> C { C::new(self.re + o.re, self.im + o.im) } }
impl Sub for C { type Output = C; fn sub(self, o: C) -> C { C::new(self.re - o.re, self.im - o.im) } }
impl Mul for C { type Output = C; fn mul(self, o: C) -> C { C::new(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re) } }
impl Neg for C { type Output = C; fn neg(self) -> C { C::new(-self.re, -self.im) } }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act { None, ModZ, Sigmoid, Tanh, Relu, ZRelu, Cardioid }

pub const ACTS: [Act; 7] = [Act::None, Act::Tanh, Act::Sigmoid, Act::Relu, Act::ZRelu, Act::Cardioid, Act::ModZ];

fn sig(x: f64) -> f64 { 1.0 / (1.0 + (-x).exp()) }
fn dsig(x: f64) -> f64 { let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e)) }
fn dtanh(x: f64) -> f64 { let e = (-2.0 * x.abs()).exp(); 4.0 * e / ((1.0 + e) * (1.0 + e)) }
fn step(x: f64) -> f64 { if x > 0.0 { 1.0 } else { 0.0 } }

impl Act {
  pub fn val(self, z: C) -> C {
    match self {
      Act::None => z,
      Act::ModZ => { let r = z.abs(); C::new(z.re / r, z.im / r) }
      Act::Sigmoid => C::new(sig(z.re), sig(z.im)),
      Act::Tanh => C::new(z.re.tanh(), z.im.tanh()),
      Act::Relu => C::new(z.re.max(0.0), z.im.max(0.0)),
      Act::ZRelu => if z.re >= 0.0 && z.im >= 0.0 { z } else { C::ZERO },
      Act::Cardioid => { let r = z.abs(); let u = C::new(z.re / r, z.im / r); u.scale(2.0 * (1.0 + u.re)) }
    }
  }

  /// (df/dz, df/dz*)
  pub fn der(self, z: C) -> (C, C) {
    let rit = |a: f64, b: f64| (C::new(0.5 * (a + b), 0.0), C::new(0.5 * (a - b), 0.0));
    match self {
      Act::None => (C::new(1.0, 0.0), C::ZERO),
      Act::ModZ => {
        let r = z.abs();
        let u = C::new(z.re / r, z.im / r);
        (C::new(0.5 / r, 0.0), -(u * u).scale(0.5 / r))
      }
      Act::Sigmoid => rit(dsig(z.re), dsig(z.im)),
      Act::Tanh => rit(dtanh(z.re), dtanh(z.im)),
      Act::Relu => rit(step(z.re), step(z.im)),
      Act::ZRelu => if z.re > 0.0 && z.im > 0.0 { (C::new(1.0, 0.0), C::ZERO) } else { (C::ZERO, C::ZERO) },
      Act::Cardioid => {
        // depends on the phase only: f(phi) = 2 (1 + cos phi) e^(i phi)
        let r = z.abs();
        let u = C::new(z.re / r, z.im / r);
        let fp = (u.scale(-u.im) + C::new(0.0, 1.0) * u.scale(1.0 + u.re)).scale(2.0);
        let dphi = (C::new(0.0, 2.0) * z).inv();
        (fp * dphi, fp * dphi.conj())
      }
    }
  }

  /// Upper bound of the change of the value per change of the argument near z.
  pub fn lip(self, z: C) -> f64 {
    match self {
      Act::None | Act::Relu | Act::ZRelu | Act::Tanh => 1.0,
      Act::Sigmoid => 0.25,
      Act::ModZ => 1.0 / z.abs(),
      Act::Cardioid => 4.0 / z.abs()
    }
  }

  /// Bound of the error of both derivatives at z when z is off by at most `qe`;
  /// `None` too close to a point where the derivative does not exist.
  pub fn der_err(self, z: C, qe: f64, eps: f64) -> Option<f64> {
    if self.kink(z) <= 8.0 * qe + 8.0 * eps * z.abs() { return None; }
    let r = z.abs();
    Some(match self {
      Act::None | Act::Relu | Act::ZRelu => 0.0,
      Act::Sigmoid => 0.2 * qe + 8.0 * eps + 1.5 * self.slack(eps > 1e-12),
      Act::Tanh => 1.6 * qe + 8.0 * eps,
      Act::ModZ => 4.0 / (r * r) * qe + 16.0 * eps / r,
      Act::Cardioid => 16.0 / (r * r) * qe + 128.0 * eps / r
    })
  }

  /// Distance to the closest point where the activation is not smooth.
  pub fn kink(self, z: C) -> f64 {
    match self {
      Act::None | Act::Sigmoid | Act::Tanh => f64::INFINITY,
      Act::ModZ | Act::Cardioid => z.abs(),
      Act::Relu => z.re.abs().min(z.im.abs()),
      Act::ZRelu => {
        if z.re > 0.0 && z.im > 0.0 { z.re.min(z.im) }
        else { (-z.re).max(-z.im).max(0.0) }
      }
    }
  }

  pub fn jumps(self) -> bool { matches!(self, Act::ZRelu | Act::ModZ | Act::Cardioid) }

  /// Absolute error the library may have beyond rounding (documented saturation).
  pub fn slack(self, single: bool) -> f64 {
    if self == Act::Sigmoid { if single { 2e-6 } else { 1e-12 } } else { 0.0 }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Loss { Mse, Ce }

impl Loss {
  pub fn val(self, t: &[C], p: &[C]) -> f64 {
    match self {
      Loss::Mse => t.iter().zip(p).map(|(a, b)| (*a - *b).abs2()).sum::<f64>() / t.len() as f64,
      Loss::Ce => {
        let n: Vec<f64> = p.iter().map(|x| x.abs2()).collect();
        let m = n.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let lse = m + n.iter().map(|x| (x - m).exp()).sum::<f64>().ln();
        -t.iter().zip(n.iter()).map(|(a, x)| a.re * (x - lse)).sum::<f64>()
      }
    }
  }
  /// Wirtinger derivative by each prediction element (sum of squares for Mse).
  pub fn grad(self, t: &[C], p: &[C]) -> Vec<C> {
    match self {
      Loss::Mse => t.iter().zip(p).map(|(a, b)| (*b - *a).conj()).collect(),
      Loss::Ce => {
        let n: Vec<f64> = p.iter().map(|x| x.abs2()).collect();
        let m = n.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let z: f64 = n.iter().map(|x| (x - m).exp()).sum();
        let ts: f64 = t.iter().map(|a| a.re).sum();
        t.iter().zip(p).zip(n.iter()).map(|((a, b), x)| b.conj().scale(ts * (x - m).exp() / z - a.re)).collect()
      }
    }
  }
  /// Error bound of `grad` when the prediction has errors `e` and arithmetic has precision `eps`.
  pub fn grad_err(self, t: &[C], p: &[C], e: &[f64], eps: f64) -> Vec<f64> {
    let mag = self.grad_abs(t, p);
    match self {
      Loss::Mse => mag.iter().zip(e).map(|(m, e)| e + 4.0 * eps * m).collect(),
      Loss::Ce => {
        let n = t.len() as f64;
        let ts: f64 = t.iter().map(|a| a.re.abs()).sum();
        let dn = p.iter().zip(e).map(|(x, e)| 2.0 * x.abs() * e + e * e).fold(0.0, f64::max);
        p.iter().zip(e).zip(mag.iter()).zip(t).map(|(((x, e), m), a)| 32.0 * eps * (n + 4.0) * m + 4.0 * (x.abs() + e) * ts * dn + e * (ts + a.re.abs())).collect()
      }
    }
  }
  /// Magnitudes of the terms added up in `grad`.
  pub fn grad_abs(self, t: &[C], p: &[C]) -> Vec<f64> {
    match self {
      Loss::Mse => t.iter().zip(p).map(|(a, b)| a.abs() + b.abs()).collect(),
      Loss::Ce => {
        let ts: f64 = t.iter().map(|a| a.re.abs()).sum::<f64>().max(1e-3);
        let mx = p.iter().map(|x| x.abs2()).fold(0.0, f64::max);
        t.iter().zip(p).map(|(a, b)| b.abs() * (ts * (1.0 + mx) + a.re.abs())).collect()
      }
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape { Vec(usize), Maps(usize, usize, usize) }

impl Shape {
  // Not inlined: the optimiser would read the fields of the other variant ahead of the
  // test, and comparisons on those leftovers would make the guided search irreproducible.
  #[inline(never)]
  pub fn len(self) -> usize { match self { Shape::Vec(n) => n, Shape::Maps(n, r, c) => n * r * c } }

  #[inline(never)]
  pub fn maps(self) -> (usize, usize, usize) {
    let Shape::Maps(n, r, c) = self else { panic!("model: maps needed") };
    (n, r, c)
  }
}

/// Block functions of pooling layers, linear ones with explicit coefficients.
#[derive(Clone, Debug, PartialEq)]
pub enum Pool { Linear(Vec<f64>), MaxNorm }

#[derive(Clone, Debug)]
pub enum Layer {
  Dense { units: usize, inputs: usize, w: Vec<C>, b: Vec<C>, act: Act },
  /// w ordered by filter, channel, row, column
  Conv { filters: usize, ch: usize, kr: usize, kc: usize, w: Vec<C>, b: Vec<C>, act: Act },
  Reduce { ch: usize, br: usize, bc: usize, pool: Pool, kr: usize, kc: usize, k: Vec<f64> },
  Flatten { n: usize, r: usize, c: usize }
}

/// Values with an error bound per element.
#[derive(Clone, Debug)]
pub struct Feat { pub shape: Shape, pub v: Vec<C>, pub e: Vec<f64> }

impl Feat {
  pub fn exact(shape: Shape, v: Vec<C>) -> Feat { let n = v.len(); assert_eq!(n, shape.len()); Feat { shape, v, e: vec![0.0; n] } }
}

pub fn upsample(g: &[C], r: usize, c: usize, br: usize, bc: usize, k: &[f64], kr: usize, kc: usize) -> Vec<C> {
  let kk: Vec<C> = k.iter().map(|x| C::new(*x, 0.0)).collect();
  upsample_c(g, r, c, br, bc, &kk, kr, kc)
}

/// Put every value at its block centre, then smooth keeping the shape.
pub fn upsample_c(g: &[C], r: usize, c: usize, br: usize, bc: usize, k: &[C], kr: usize, kc: usize) -> Vec<C> {
  let centre = |b: usize| if b % 2 == 0 { b / 2 - 1 } else { b / 2 };
  let (rr, cc) = (r * br, c * bc);
  let mut out = vec![C::ZERO; rr * cc];
  for i in 0..r { for j in 0..c {
    let (ci, cj) = ((i * br + centre(br)) as isize, (j * bc + centre(bc)) as isize);
    // out[a][b] += k[u][v] * g where a + u - h = ci, b + v - w = cj
    for u in 0..kr { for v in 0..kc {
      let a = ci + (kr / 2) as isize - u as isize;
      let b = cj + (kc / 2) as isize - v as isize;
      if a >= 0 && b >= 0 && (a as usize) < rr && (b as usize) < cc {
        let o = a as usize * cc + b as usize;
        out[o] = out[o] + k[u * kc + v] * g[i * c + j];
      }
    } }
  } }
  out
}

impl Layer {
  pub fn out_shape(&self, s: Shape) -> Shape {
    match (self, s) {
      (Layer::Dense { units, .. }, _) => Shape::Vec(*units),
      (Layer::Conv { filters, kr, kc, .. }, Shape::Maps(_, r, c)) => Shape::Maps(*filters, r + 1 - kr, c + 1 - kc),
      (Layer::Reduce { br, bc, .. }, Shape::Maps(n, r, c)) => Shape::Maps(n, r / br, c / bc),
      (Layer::Flatten { n, r, c }, _) => Shape::Vec(n * r * c),
      _ => panic!("model: bad shape")
    }
  }

  pub fn act(&self) -> Option<Act> {
    match self { Layer::Dense { act, .. } | Layer::Conv { act, .. } => Some(*act), _ => None }
  }

  pub fn params(&self) -> (usize, usize) {
    match self { Layer::Dense { w, b, .. } | Layer::Conv { w, b, .. } => (w.len(), b.len()), _ => (0, 0) }
  }

  /// Pre-activations of a trainable layer with the sum of term magnitudes.
  /// `we` bounds the error of weights then biases.
  pub fn pre(&self, x: &Feat, we: Option<&[f64]>) -> (Vec<C>, Vec<f64>, Vec<f64>) {
    let mut q = Vec::new(); let mut mag = Vec::new(); let mut err = Vec::new();
    match self {
      Layer::Dense { units, inputs, w, b, .. } => {
        for u in 0..*units {
          let (mut s, mut m, mut e) = (b[u], b[u].abs(), we.map_or(0.0, |t| t[w.len() + u]));
          for i in 0..*inputs {
            let wi = u * inputs + i;
            s = s + w[wi] * x.v[i];
            m += w[wi].abs() * x.v[i].abs();
            e += w[wi].abs() * x.e[i] + we.map_or(0.0, |t| t[wi]) * (x.v[i].abs() + x.e[i]);
          }
          q.push(s); mag.push(m); err.push(e);
        }
      }
      Layer::Conv { filters, ch, kr, kc, w, b, .. } => {
        let (_, r, c) = x.shape.maps();
        let (or, oc) = (r + 1 - kr, c + 1 - kc);
        for f in 0..*filters { for i in 0..or { for j in 0..oc {
          let (mut s, mut m, mut e) = (b[f], b[f].abs(), we.map_or(0.0, |t| t[w.len() + f]));
          for h in 0..*ch { for u in 0..*kr { for v in 0..*kc {
            let wi = ((f * ch + h) * kr + u) * kc + v;
            let xi = (h * r + i + u) * c + j + v;
            s = s + w[wi] * x.v[xi];
            m += w[wi].abs() * x.v[xi].abs();
            e += w[wi].abs() * x.e[xi] + we.map_or(0.0, |t| t[wi]) * (x.v[xi].abs() + x.e[xi]);
          } } }
          q.push(s); mag.push(m); err.push(e);
        } } }
      }
      _ => panic!("model: no pre-activation")
    }
    (q, mag, err)
  }

  /// Forward with error bounds for the given machine epsilon. Returns the output
  /// and whether the result is trustworthy (false close to a discontinuity).
  pub fn forward(&self, x: &Feat, eps: f64, we: Option<&[f64]>) -> (Feat, bool) {
    let shape = self.out_shape(x.shape);
    let mut ok = true;
    match self {
      Layer::Dense { act, .. } | Layer::Conv { act, .. } => {
        let terms = match self { Layer::Dense { inputs, .. } => *inputs, Layer::Conv { ch, kr, kc, .. } => ch * kr * kc, _ => 0 } as f64;
        let (q, mag, err) = self.pre(x, we);
        let mut v = Vec::with_capacity(q.len()); let mut e = Vec::with_capacity(q.len());
        for i in 0..q.len() {
          let qe = 2.0 * err[i] + 2.0 * eps * (terms + 4.0) * mag[i];
          if act.jumps() && (act.kink(q[i]) <= 8.0 * qe || act.kink(q[i]) == 0.0) { ok = false; v.push(C::ZERO); e.push(f64::INFINITY); continue; }
          let a = act.val(q[i]);
          v.push(a);
          e.push(1.5 * act.lip(q[i]) * qe + 8.0 * eps * a.abs() + act.slack(eps > 1e-12));
        }
        (Feat { shape, v, e }, ok)
      }
      Layer::Reduce { br, bc, pool, .. } => {
        let (n, r, c) = x.shape.maps();
        let (or, oc) = (r / br, c / bc);
        let mut v = Vec::new(); let mut e = Vec::new();
        for h in 0..n { for i in 0..or { for j in 0..oc {
          let mut blk = Vec::new();
          for u in 0..*br { for w in 0..*bc { blk.push((h * r + i * br + u) * c + j * bc + w); } }
          match pool {
            Pool::Linear(co) => {
              let (mut s, mut m, mut er) = (C::ZERO, 0.0, 0.0);
              for (t, xi) in blk.iter().enumerate() {
                s = s + x.v[*xi].scale(co[t]);
                m += x.v[*xi].abs() * co[t].abs();
                er += x.e[*xi] * co[t].abs();
              }
              v.push(s); e.push(er + 2.0 * eps * (blk.len() as f64 + 2.0) * m);
            }
            Pool::MaxNorm => {
              let mut bi = blk[0];
              for xi in blk.iter() { if x.v[*xi].abs2() > x.v[bi].abs2() { bi = *xi; } }
              // an ambiguous maximum cannot be compared
              for xi in blk.iter() {
                if *xi != bi && x.v[*xi] != x.v[bi] && x.v[bi].abs() - x.v[*xi].abs() <= 2.0 * (x.e[bi] + x.e[*xi]) + 8.0 * eps * x.v[bi].abs() { ok = false; }
              }
              v.push(x.v[bi]); e.push(x.e[bi]);
            }
          }
        } } }
        (Feat { shape, v, e }, ok)
      }
      Layer::Flatten { .. } => (Feat { shape, v: x.v.clone(), e: x.e.clone() }, true)
    }
  }

  /// Gradients of a real loss from g = dL/da, with error bounds: `ge` bounds the
  /// error of g and `we` that of the parameters. `None` close to a kink.
  pub fn backward(&self, x: &Feat, g: &[C], ge: &[f64], eps: f64, we: Option<&[f64]>) -> Option<Grads> {
    match self {
      Layer::Flatten { .. } => Some(Grads { w: vec![], b: vec![], x: g.to_vec(), we: vec![], be: vec![], xe: ge.to_vec() }),
      Layer::Reduce { br, bc, kr, kc, k, .. } => {
        let (n, r, c) = x.shape.maps();
        let (or, oc) = (r / br, c / bc);
        let ka: Vec<f64> = k.iter().map(|a| a.abs()).collect();
        let round = 2.0 * eps * ((kr * kc) as f64 + 4.0);
        let mut gx = Vec::new(); let mut gxe = Vec::new();
        for h in 0..n {
          let part = &g[h * or * oc..(h + 1) * or * oc];
          let parte: Vec<C> = (h * or * oc..(h + 1) * or * oc).map(|i| C::new(ge[i] + round * g[i].abs(), 0.0)).collect();
          gx.extend(upsample(part, or, oc, *br, *bc, k, *kr, *kc));
          gxe.extend(upsample(&parte, or, oc, *br, *bc, &ka, *kr, *kc).into_iter().map(|a| a.re));
        }
        Some(Grads { w: vec![], b: vec![], x: gx, we: vec![], be: vec![], xe: gxe })
      }
      Layer::Dense { act, .. } | Layer::Conv { act, .. } => {
        let terms = match self { Layer::Dense { inputs, .. } => *inputs, Layer::Conv { ch, kr, kc, .. } => ch * kr * kc, _ => 0 } as f64;
        let (q, mag, err) = self.pre(x, we);
        let mut dq = Vec::with_capacity(q.len()); let mut dqe = Vec::with_capacity(q.len());
        for i in 0..q.len() {
          let qe = 2.0 * err[i] + 2.0 * eps * (terms + 4.0) * mag[i];
          let de = act.der_err(q[i], qe, eps)?;
          let (fz, fc) = act.der(q[i]);
          let fs = fz.abs() + fc.abs();
          dq.push(g[i] * fz + g[i].conj() * fc.conj());
          dqe.push(ge[i] * (fs + 2.0 * de) + g[i].abs() * (2.0 * de + 8.0 * eps * fs));
        }
        match self {
          Layer::Dense { units, inputs, w, .. } => {
            let mut gw = Vec::with_capacity(w.len()); let mut gwe = Vec::with_capacity(w.len());
            let mut gx = vec![C::ZERO; *inputs]; let mut gxe = vec![0.0; *inputs];
            let round = 2.0 * eps * (*units as f64 + 4.0);
            for u in 0..*units { for i in 0..*inputs {
              let wi = u * inputs + i;
              gw.push(dq[u] * x.v[i]);
              gwe.push(dqe[u] * (x.v[i].abs() + x.e[i]) + dq[u].abs() * (x.e[i] + 8.0 * eps * x.v[i].abs()));
              gx[i] = gx[i] + w[wi] * dq[u];
              gxe[i] += w[wi].abs() * (dqe[u] + round * dq[u].abs()) + we.map_or(0.0, |t| t[wi]) * (dq[u].abs() + dqe[u]);
            } }
            Some(Grads { w: gw, b: dq, x: gx, we: gwe, be: dqe, xe: gxe })
          }
          Layer::Conv { filters, ch, kr, kc, w, .. } => {
            let (_, r, c) = x.shape.maps();
            let (or, oc) = (r + 1 - kr, c + 1 - kc);
            let mut gw = vec![C::ZERO; w.len()]; let mut gwe = vec![0.0; w.len()];
            let mut gb = vec![C::ZERO; *filters]; let mut gbe = vec![0.0; *filters];
            let mut gx = vec![C::ZERO; x.v.len()]; let mut gxe = vec![0.0; x.v.len()];
            let rw = 4.0 * eps * ((or * oc) as f64 + 4.0);
            let rx = 4.0 * eps * ((filters * kr * kc) as f64 + 4.0);
            for f in 0..*filters { for i in 0..or { for j in 0..oc {
              let qi = (f * or + i) * oc + j;
              let (d, de) = (dq[qi].abs(), dqe[qi]);
              gb[f] = gb[f] + dq[qi]; gbe[f] += de + rw * d;
              for h in 0..*ch { for u in 0..*kr { for v in 0..*kc {
                let wi = ((f * ch + h) * kr + u) * kc + v;
                let xi = (h * r + i + u) * c + j + v;
                gw[wi] = gw[wi] + dq[qi] * x.v[xi];
                gwe[wi] += de * (x.v[xi].abs() + x.e[xi]) + d * (x.e[xi] + rw * x.v[xi].abs());
                gx[xi] = gx[xi] + dq[qi] * w[wi];
                gxe[xi] += w[wi].abs() * (de + rx * d) + we.map_or(0.0, |t| t[wi]) * (d + de);
              } } }
            } } }
            Some(Grads { w: gw, b: gb, x: gx, we: gwe, be: gbe, xe: gxe })
          }
          _ => unreachable!()
        }
      }
    }
  }

  pub fn params_mut(&mut self) -> Option<(&mut Vec<C>, &mut Vec<C>)> {
    match self { Layer::Dense { w, b, .. } | Layer::Conv { w, b, .. } => Some((w, b)), _ => None }
  }
}

/// Gradients and bounds of their errors.
pub struct Grads { pub w: Vec<C>, pub b: Vec<C>, pub x: Vec<C>, pub we: Vec<f64>, pub be: Vec<f64>, pub xe: Vec<f64> }

#[derive(Clone, Debug)]
pub struct Model { pub input: Shape, pub layers: Vec<Layer> }

/// Summed gradients per layer (weights then biases), error bounds and sums of magnitudes.
pub struct Step { pub dw: Vec<Vec<C>>, pub dwe: Vec<Vec<f64>>, pub dwa: Vec<Vec<f64>> }

pub type Points = [(Vec<C>, Vec<C>)];

impl Model {
  pub fn out_shape(&self) -> Shape { self.layers.iter().fold(self.input, |s, l| l.out_shape(s)) }

  /// Parameter errors of a network whose parameters are known exactly.
  pub fn no_err(&self) -> Vec<Vec<f64>> { self.layers.iter().map(|l| vec![0.0; l.params().0 + l.params().1]).collect() }

  /// All activations from the input on; false close to a discontinuity.
  pub fn acts(&self, x: &[C], eps: f64, we: Option<&[Vec<f64>]>) -> (Vec<Feat>, bool) {
    let mut out = vec![Feat::exact(self.input, x.to_vec())];
    let mut ok = true;
    for (i, l) in self.layers.iter().enumerate() {
      let (f, o) = l.forward(out.last().unwrap(), eps, we.map(|w| &w[i][..]));
      ok &= o;
      out.push(f);
    }
    (out, ok)
  }

  /// Sum over the batch of the gradients of all parameters. `None` close to a kink.
  pub fn batch_grad(&self, data: &Points, loss: Loss, eps: f64, we: Option<&[Vec<f64>]>) -> Option<Step> {
    let mut dw: Vec<Vec<C>> = self.layers.iter().map(|l| vec![C::ZERO; l.params().0 + l.params().1]).collect();
    let mut dwe = self.no_err();
    let mut dwa = self.no_err();
    for (x, t) in data {
      let (acts, ok) = self.acts(x, eps, we);
      if !ok { return None; }
      let p = acts.last().unwrap();
      let mut g = loss.grad(t, &p.v);
      let mut ge = loss.grad_err(t, &p.v, &p.e, eps);
      for li in (0..self.layers.len()).rev() {
        let gr = self.layers[li].backward(&acts[li], &g, &ge, eps, we.map(|w| &w[li][..]))?;
        for (i, z) in gr.w.iter().chain(gr.b.iter()).enumerate() { dw[li][i] = dw[li][i] + *z; dwa[li][i] += z.abs(); }
        for (i, z) in gr.we.iter().chain(gr.be.iter()).enumerate() { dwe[li][i] += *z; }
        g = gr.x; ge = gr.xe;
      }
    }
    Some(Step { dw, dwe, dwa })
  }

  /// One training step, updating the parameter error bounds.
  pub fn train(&mut self, data: &Points, loss: Loss, lr: C, eps: f64, we: &mut Vec<Vec<f64>>) -> Option<Step> {
    let st = self.batch_grad(data, loss, eps, Some(we))?;
    let n = data.len() as f64;
    for (li, l) in self.layers.iter_mut().enumerate() {
      if let Some((w, b)) = l.params_mut() {
        for (i, z) in w.iter_mut().chain(b.iter_mut()).enumerate() {
          *z = *z - (lr * st.dw[li][i]).scale(1.0 / n).conj();
          we[li][i] += 2.0 * lr.abs() / n * (st.dwe[li][i] + 2.0 * eps * (n + 16.0) * st.dwa[li][i]) + 4.0 * eps * z.abs();
        }
      }
    }
    Some(st)
  }

  pub fn predict(&self, x: &[C]) -> Vec<C> { self.acts(x, 0.0, None).0.pop().unwrap().v }

  pub fn mean_loss(&self, data: &Points, loss: Loss) -> f64 {
    data.iter().map(|(x, t)| loss.val(t, &self.predict(x))).sum::<f64>() / data.len() as f64
  }

  /// How far rounding may move the mean loss.
  pub fn loss_err(&self, data: &Points, loss: Loss, eps: f64, we: Option<&[Vec<f64>]>) -> f64 {
    let n = data.len() as f64;
    data.iter().map(|(x, t)| {
      let (acts, _) = self.acts(x, eps, we);
      let p = acts.last().unwrap();
      let m = t.len() as f64;
      match loss {
        Loss::Mse => t.iter().zip(&p.v).zip(&p.e).map(|((a, b), e)| (2.0 * (*a - *b).abs() + e) * e + 2.0 * eps * (m + n + 6.0) * (*a - *b).abs2() + 4.0 * eps * (a.abs() + b.abs()) * (*a - *b).abs()).sum::<f64>() / m,
        Loss::Ce => {
          let ts: f64 = t.iter().map(|a| a.re.abs()).sum();
          let dn = p.v.iter().zip(&p.e).map(|(x, e)| 2.0 * x.abs() * e + e * e).fold(0.0, f64::max);
          let mx = p.v.iter().map(|x| x.abs2()).fold(0.0, f64::max);
          2.0 * ts * dn + 2.0 * eps * (m + n + 6.0) * ts * (mx + m.ln() + 1.0)
        }
      }
    }).sum::<f64>() / n
  }
}
