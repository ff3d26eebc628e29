//! C01..C06 and C24: complex numbers, activations, losses, one-hot targets.

use renplex::init::PredictModel;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Complex;
use renplex::math::Real;

use crate::core::{guarded, Ctx, Prop, Res, Src};
use crate::cx::{cplx, cvec, moderate, real, Cx, Re};
use crate::model::{Act, Loss, Shape, ACTS, C};
use crate::net::{act_of, cs, io, loss_of};
use crate::{both, ensure, sub};

fn close(got: C, want: C, tol: f64) -> bool { got.is_finite() && got.dist(want) <= tol }

fn wide<T: Cx>() -> i32 { if T::SINGLE { 56 } else { 480 } }

/// Operand pairs, including related ones.
fn pair<T: Cx>(s: &mut Src) -> (T, T) {
  let w = wide::<T>();
  let a = cplx::<T>(s, w);
  let b = match s.u(10) {
    0 => a,
    1 => a.conj(),
    2 => T::of(-a.c()),
    3 => T::mk(a.c().im, a.c().re),
    4 => T::mk(real(s, w), 0.0),
    5 => T::mk(0.0, real(s, w)),
    _ => cplx::<T>(s, w)
  };
  (a, b)
}

fn arith<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (a, b) = pair::<T>(s);
  let op = s.u(4);
  let (ca, cb) = (a.c(), b.c());
  ctx.desc(|| format!("{:?} {} {:?}", a, ["+", "-", "*", "/"][op], b));
  let tiny = if T::SINGLE { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
  let by_val = |a: T, b: T| match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b };
  let by_assign = |mut a: T, b: T| { match op { 0 => a += b, 1 => a -= b, 2 => a *= b, _ => a /= b }; a };
  if op == 3 && cb == C::ZERO {
    ctx.label("division by zero");
    ctx.nt(true);
    for z in [T::mk(0.0, 0.0), T::mk(-0.0, 0.0), T::mk(0.0, -0.0)] {
      ensure!(guarded(|| by_val(a, z)).is_err(), "{:?} / {:?} did not panic", a, z);
      ensure!(guarded(|| by_assign(a, z)).is_err(), "{:?} /= {:?} did not panic", a, z);
      ensure!(guarded(|| T::ref_op(3, &a, &z)).is_err(), "&{:?} / &{:?} did not panic", a, z);
    }
    return Ok(());
  }
  let (want, tol) = match op {
    // sums are correctly rounded component by component
    0 => (ca + cb, 2.0 * T::EPS * (ca.abs() + cb.abs())),
    1 => (ca - cb, 2.0 * T::EPS * (ca.abs() + cb.abs())),
    2 => (ca * cb, 8.0 * T::EPS * ca.abs() * cb.abs()),
    _ => (C::new(ca.re * cb.re + ca.im * cb.im, ca.im * cb.re - ca.re * cb.im).scale(1.0 / cb.abs2()), 24.0 * T::EPS * ca.abs() / cb.abs())
  };
  let tol = tol + tiny;
  ctx.nt(ca.im != 0.0 && cb.im != 0.0 && ca.re != 0.0);
  ctx.label(["add", "sub", "mul", "div"][op]);
  let results = [("value", by_val(a, b)), ("reference", T::ref_op(op, &a, &b)), ("assignment", by_assign(a, b))];
  for (form, r) in results.iter() {
    ensure!(close(r.c(), want, tol), "{form} form gives {:?}, expected {:?} (allowed {:e})", r, want, tol);
    if op < 2 {
      let exact = if op == 0 { T::mk(ca.re + cb.re, ca.im + cb.im) } else { T::mk(ca.re - cb.re, ca.im - cb.im) };
      ensure!(*r == exact, "{form} form gives {:?}, expected exactly {:?}", r, exact);
    }
  }
  // small integers are exact in every form
  let small = |z: C| z.re.fract() == 0.0 && z.im.fract() == 0.0 && z.re.abs() < 1000.0 && z.im.abs() < 1000.0;
  if op == 2 && small(ca) && small(cb) {
    ctx.label("integer product");
    for (form, r) in results.iter() { ensure!(r.c() == want, "{form} form of an integer product gives {:?} instead of {:?}", r, want); }
  }
  // a chain of operations on an accumulator stays consistent with the value forms
  let c = cplx::<T>(s, 4);
  let mut acc = a;
  acc *= b; acc += c; acc -= b;
  let v = (a * b + c) - b;
  let t2 = 32.0 * T::EPS * (ca.abs() * cb.abs() + c.c().abs() + cb.abs()) + tiny;
  ensure!(close(acc.c(), v.c(), t2), "a *= b; a += c; a -= b gives {:?}, but a * b + c - b gives {:?}", acc, v);
  Ok(())
}

fn polar<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let w = wide::<T>();
  let (re, im) = (real(s, w), real(s, w));
  let z = T::mk(re, im);
  let c = z.c();
  ctx.desc(|| format!("{:?}", z));
  ctx.nt(c.re != 0.0 || c.im != 0.0);
  ctx.label(match (c.re > 0.0, c.im > 0.0, c.re == 0.0, c.im == 0.0) {
    (_, _, true, true) => "zero", (_, _, true, _) => "imaginary axis", (_, _, _, true) => "real axis",
    (true, true, ..) => "quadrant 1", (false, true, ..) => "quadrant 2", (false, false, ..) => "quadrant 3", _ => "quadrant 4" });
  ensure!(T::new(T::fp(c.re), T::fp(c.im)).bits() == z.bits(), "new does not keep the components of {:?}", z);
  ensure!(T::pf(z.re()) == c.re && T::pf(z.im()) == c.im, "re/im of {:?} are {:?} {:?}", z, z.re(), z.im());
  ensure!(z.conj().c() == c.conj(), "conj of {:?} is {:?}", z, z.conj());
  ensure!(z.conj().conj().bits() == z.bits(), "double conj of {:?}", z);
  let (n, n2) = (T::pf(z.norm()), T::pf(z.norm_sq()));
  ensure!((n - c.abs()).abs() <= 4.0 * T::EPS * c.abs(), "norm of {:?} is {n:e}, expected {:e}", z, c.abs());
  ensure!((n2 - c.abs2()).abs() <= 4.0 * T::EPS * c.abs2(), "norm_sq of {:?} is {n2:e}, expected {:e}", z, c.abs2());
  if c != C::ZERO {
    let ph = T::pf(z.phase());
    let want = c.im.atan2(c.re);
    ensure!((ph - want).abs() <= 4.0 * T::EPS * want.abs() + 1e-300, "phase of {:?} is {ph}, expected {want}", z);
    let back = T::newe(z.norm(), z.phase());
    ensure!(close(back.c(), c, 24.0 * T::EPS * c.abs()), "newe(norm, phase) of {:?} gives {:?}", z, back);
  }
  let (a, turn) = (s.sym(8.0), if s.one_in(4) { 200.0 } else { 7.0 });
  let p = s.sym(turn);
  let e = T::newe(T::fp(a), T::fp(p));
  let (af, pf) = (T::pf(T::fp(a)), T::pf(T::fp(p)));
  ensure!(close(e.c(), C::new(af * pf.cos(), af * pf.sin()), 8.0 * T::EPS * af.abs() + 1e-300), "newe({a}, {p}) gives {:?}", e);
  ensure!(T::unit().c() == C::new(1.0, 0.0) && T::iunit().c() == C::new(0.0, 1.0), "unit / iunit wrong");
  ensure!(T::pf(<T::Precision as Real>::unit()) == 1.0, "real unit is {:?}", T::pf(<T::Precision as Real>::unit()));
  ensure!(T::default().c() == C::ZERO, "default is not zero");
  let bits = s.range(1, if T::SINGLE { 24 } else { 53 });
  let k = if bits > 32 { (s.u(1 << (bits - 32)) << 32) | s.u(1 << 32) } else { s.u(1 << bits) };
  ensure!(T::usize_to_complex(k).c() == C::new(k as f64, 0.0), "usize_to_complex({k}) is {:?}", T::usize_to_complex(k));
  let rk = T::pf(<T::Precision as Real>::usize_to_real(k));
  ensure!(rk == k as f64, "usize_to_real({k}) is {rk}");
  Ok(())
}

fn ordering<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let w = wide::<T>();
  let a = cplx::<T>(s, w);
  let c = a.c();
  let b = match s.u(10) {
    0 => T::mk(c.im, c.re),
    1 => a.conj(),
    2 => T::of(-c),
    3 => T::mk(-c.im, c.re),
    4 => a,
    5 => T::mk(c.re * 2.0, c.im),
    6 => { let k = 1.0 + 64.0 * T::EPS; T::mk(c.re * k, c.im * k) }
    _ => cplx::<T>(s, w)
  };
  let d = b.c();
  ctx.desc(|| format!("{:?} vs {:?}", a, b));
  let sym = |z: C| { let (x, y) = (z.re.abs(), z.im.abs()); if x < y { (x, y) } else { (y, x) } };
  let (lt, le, gt, ge) = (a < b, a <= b, a > b, a >= b);
  let cmp = a.partial_cmp(&b);
  use std::cmp::Ordering::*;
  ensure!(cmp.is_some(), "finite numbers {:?} and {:?} do not compare", a, b);
  let cmp = cmp.unwrap();
  ensure!(lt == (cmp == Less) && gt == (cmp == Greater) && le == (cmp != Greater) && ge == (cmp != Less),
    "operators disagree on {:?} and {:?}: < {lt} <= {le} > {gt} >= {ge} cmp {:?}", a, b, cmp);
  ensure!(b.partial_cmp(&a) == Some(cmp.reverse()), "comparison of {:?} and {:?} is not antisymmetric", a, b);
  let (na, nb) = (c.abs(), d.abs());
  if sym(c) == sym(d) {
    ctx.label("equal magnitude"); ctx.nt(true);
    ensure!(cmp == Equal, "{:?} and {:?} have equal magnitude but compare as {:?}", a, b, cmp);
  } else if (na - nb).abs() > 16.0 * T::EPS * na.max(nb) {
    ctx.label("different magnitude"); ctx.nt(true);
    ensure!(cmp == if na < nb { Less } else { Greater }, "{:?} (|.| {na}) and {:?} (|.| {nb}) compare as {:?}", a, b, cmp);
  }
  ensure!(a == a && (a == b) == (c == d), "equality of {:?} and {:?}", a, b);
  Ok(())
}

/// An argument for an activation function.
fn arg<T: Cx>(s: &mut Src) -> T {
  let comp = |s: &mut Src| match s.u(8) {
    0 => 0.0,
    1 => s.pick(&[1.0, -1.0, 0.5, -0.5, 3.0, -3.0]),
    2 | 3 => s.sym(2.0),
    4 => s.sym(10.0),
    5 => s.sym(40.0),
    6 => { let t = s.pick(&[15.0, -15.0, 30.0, -30.0, 14.0, -14.0, 29.0, -29.0]); t + s.sym(0.5) }
    _ => { let w = if s.one_in(3) { if T::SINGLE { 50 } else { 200 } } else { 10 }; let e = s.u(2 * w + 1) as i32 - w as i32; (1.0 + s.unit()) * 2f64.powi(e) * if s.bool() { -1.0 } else { 1.0 } }
  };
  let (re, im) = (comp(s), comp(s));
  T::mk(re, im)
}

fn act_tol<T: Cx>(act: Act, z: C) -> f64 {
  match act {
    Act::None | Act::Relu | Act::ZRelu => 0.0,
    Act::Sigmoid => 1.5 * act.slack(T::SINGLE) + 8.0 * T::EPS,
    Act::Tanh => 8.0 * T::EPS,
    Act::ModZ => 16.0 * T::EPS,
    Act::Cardioid => 64.0 * T::EPS + 0.0 * z.re
  }
}

fn act_values<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let act = s.pick(&ACTS);
  let f = act_of(act);
  let n = if s.one_in(12) { s.u(300) } else { s.u(9) };
  let vals: Vec<T> = if n > 40 { cvec::<T>(s, n, 6.0) } else { (0..n).map(|_| arg::<T>(s)).collect() };
  let vals: Vec<T> = vals.into_iter().map(|z| if matches!(act, Act::ModZ | Act::Cardioid) && z.c() == C::ZERO { T::mk(0.25, -1.0) } else { z }).collect();
  ctx.desc(|| format!("{act:?} of {:?}", &vals[..vals.len().min(4)]));
  ctx.nt(n > 0);
  ctx.label(match act { Act::None => "identity", Act::ModZ => "z/|z|", Act::Sigmoid => "sigmoid", Act::Tanh => "tanh", Act::Relu => "relu", Act::ZRelu => "zrelu", Act::Cardioid => "cardioid" });
  let mut slice = vals.clone();
  T::activate_mut(&mut slice, &f);
  ensure!(slice.len() == n, "slice length changed");
  let rel = T::rel_func(&f);
  for (i, z) in vals.iter().enumerate() {
    let want = act.val(z.c());
    let tol = act_tol::<T>(act, z.c());
    for (form, r) in [("single value", z.activate(&f)), ("slice", slice[i]), ("released function", rel(*z))] {
      ensure!(close(r.c(), want, tol), "{act:?} of {:?} ({form}, index {i} of {n}) is {:?}, expected {:?} (allowed {tol:e})", z, r, want);
      if act == Act::Sigmoid {
        let c = r.c();
        ensure!(c.re > 0.0 && c.re < 1.0 && c.im > 0.0 && c.im < 1.0, "sigmoid of {:?} is {:?}, not strictly inside (0, 1)", z, r);
      }
    }
  }
  Ok(())
}

fn act_ders<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let act = s.pick(&ACTS);
  let f = act_of(act);
  let n = if s.one_in(12) { s.u(300) } else { s.u(9) };
  let vals: Vec<T> = if n > 40 { cvec::<T>(s, n, 3.0) } else { (0..n).map(|_| arg::<T>(s)).collect() };
  // stay where the activation is differentiable
  let min = if matches!(act, Act::ModZ | Act::Cardioid | Act::Relu | Act::ZRelu) { f64::MIN_POSITIVE } else { 1e-3 };
  let vals: Vec<T> = vals.into_iter().map(|z| if act.kink(z.c()) < min { T::mk(0.75, -0.5) } else { z }).collect();
  ctx.desc(|| format!("derivatives of {act:?} at {:?}", &vals[..vals.len().min(4)]));
  ctx.nt(n > 0);
  let (mut d, mut dc) = (vals.clone(), vals.clone());
  T::d_activate_mut(&mut d, &f);
  T::d_conj_activate_mut(&mut dc, &f);
  ensure!(d.len() == n && dc.len() == n, "slice length changed");
  let (rd, rc) = (T::rel_dfunc(&f), T::rel_dfunc_conj(&f));
  for (i, z) in vals.iter().enumerate() {
    let (wd, wc) = act.der(z.c());
    let tol = match act {
      Act::None | Act::Relu | Act::ZRelu => 0.0,
      Act::Sigmoid => 1.5 * act.slack(T::SINGLE) + 8.0 * T::EPS,
      Act::Tanh => 8.0 * T::EPS,
      Act::ModZ => 16.0 * T::EPS / z.c().abs(),
      Act::Cardioid => 128.0 * T::EPS / z.c().abs()
    };
    for (form, r, want) in [
      ("d single", z.d_activate(&f), wd), ("d slice", d[i], wd), ("d released", rd(*z), wd),
      ("d* single", z.d_conj_activate(&f), wc), ("d* slice", dc[i], wc), ("d* released", rc(*z), wc)
    ] {
      ensure!(close(r.c(), want, tol), "{form} of {act:?} at {:?} (index {i} of {n}) is {:?}, expected {:?} (allowed {tol:e})", z, r, want);
    }
  }
  Ok(())
}

/// Central differences of the library's own activation, in double precision.
fn act_fd(s: &mut Src, ctx: &mut Ctx) -> Res {
  let act = s.pick(&ACTS);
  let f = act_of(act);
  let z: Cf64 = moderate(s, 4.0);
  if act.kink(z.c()) < 0.05 { return ctx.discard(); }
  ctx.nt(true);
  ctx.desc(|| format!("{act:?} around {:?}", z));
  let h = 1e-5;
  let at = |dx: f64, dy: f64| Cf64 { x: z.x + dx, y: z.y + dy }.activate(&f).c();
  let fx = (at(h, 0.0) - at(-h, 0.0)).scale(0.5 / h);
  let fy = (at(0.0, h) - at(0.0, -h)).scale(0.5 / h);
  let i = C::new(0.0, 1.0);
  let (nd, nc) = ((fx - i * fy).scale(0.5), (fx + i * fy).scale(0.5));
  let tol = 1e-6 * (1.0 + 1.0 / act.kink(z.c()).powi(3).min(1e3));
  let tol = if act.kink(z.c()).is_finite() { (1e-6f64).max(2e-9 / act.kink(z.c()).powi(3)) } else { tol.min(1e-6) };
  let (d, c) = (z.d_activate(&f).c(), z.d_conj_activate(&f).c());
  ensure!(d.dist(nd) <= tol, "d {act:?} at {:?} is {:?}, but differences of the activation give {:?}", z, d, nd);
  ensure!(c.dist(nc) <= tol, "d* {act:?} at {:?} is {:?}, but differences of the activation give {:?}", z, c, nc);
  Ok(())
}

/// Shapes holding exactly n elements.
fn shape_for(s: &mut Src, n: usize) -> Shape {
  if s.bool() { return Shape::Vec(n); }
  let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
  let m = s.pick(&divs);
  let rest = n / m;
  let divs: Vec<usize> = (1..=rest).filter(|d| rest % d == 0).collect();
  let r = s.pick(&divs);
  Shape::Maps(m, r, rest / r)
}

fn targets<T: Cx>(s: &mut Src, n: usize, loss: Loss, p: &[T]) -> Vec<T> {
  match s.u(5) {
    0 if loss == Loss::Mse => p.to_vec(),
    1 | 2 => { let k = s.u(n); (0..n).map(|i| if i == k { T::unit() } else { T::default() }).collect() }
    3 => cvec::<T>(s, n, 1.0),
    _ => (0..n).map(|_| T::mk(s.unit(), if s.bool() { s.sym(1.0) } else { 0.0 })).collect()
  }
}

fn loss_case<T: Cx>(s: &mut Src) -> (Loss, Shape, Vec<T>, Vec<T>) {
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = if s.one_in(100) { s.range(1, 3000) } else { s.size(300) };
  let scale = match s.u(6) { 0 => 10.0, 1 => 30.0, 2 => 1000.0, 3 => 0.01, _ => 1.5 };
  let mut p = cvec::<T>(s, n, scale);
  // one element that dominates the others
  if s.one_in(8) { let k = s.u(n); p[k] = T::of(p[k].c().scale(8.0)); }
  let mut t = targets::<T>(s, n, loss, &p);
  if loss == Loss::Mse {
    // large, small and almost equal values
    let wide = T::EPS < 1e-10;
    match s.u(10) {
      0 => { let k = 2f64.powi(s.range(1, if wide { 100 } else { 40 }) as i32); for z in p.iter_mut().chain(&mut t) { *z = T::of(z.c().scale(k)); } }
      1 => { let k = 2f64.powi(-(s.range(1, 30) as i32)); for z in p.iter_mut().chain(&mut t) { *z = T::of(z.c().scale(k)); } }
      2 => { let k = 2f64.powi(-(s.range(1, if wide { 45 } else { 18 }) as i32)); for (z, q) in t.iter_mut().zip(&p) { let d = C { re: s.sym(1.0), im: s.sym(1.0) }.scale(k * q.c().abs()); *z = T::of(q.c() + d); } }
      _ => {}
    }
  }
  (loss, shape_for(s, n), t, p)
}

fn loss_values<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (loss, shape, t, p) = loss_case::<T>(s);
  let n = p.len();
  ctx.desc(|| format!("{loss:?} {shape:?} target {:?} prediction {:?}", &t[..n.min(3)], &p[..n.min(3)]));
  ctx.nt(true);
  ctx.label_if(n == 1, "one element");
  ctx.label_if(matches!(shape, Shape::Maps(..)), "feature maps");
  ctx.label(if loss == Loss::Mse { "mean square" } else { "cross entropy" });
  let f = loss_of(loss);
  let (ct, cp) = (cs(&t), cs(&p));
  let want = loss.val(&ct, &cp);
  let nf = n as f64;
  let tol = match loss {
    Loss::Mse => 4.0 * T::EPS * (nf + 8.0) * ct.iter().zip(&cp).map(|(a, b)| (a.abs() + b.abs()).powi(2)).sum::<f64>() / nf,
    Loss::Ce => {
      let mx = cp.iter().map(|z| z.abs2()).fold(0.0, f64::max);
      16.0 * T::EPS * (nf + 8.0) * ct.iter().map(|z| z.re.abs()).sum::<f64>() * (mx + nf.ln() + 1.0)
    }
  } + 1e-30;
  let got = T::loss(&io(shape, &t), &io(shape, &p), &f).map_err(|e| format!("loss refused matching features: {e:?}"))?;
  let got = T::pf(got);
  ensure!(got.is_finite(), "{loss:?} of {n} finite elements ({shape:?}) is {got}, expected {want}");
  ensure!((got - want).abs() <= tol, "{loss:?} of {n} elements ({shape:?}) is {got}, expected {want} (allowed {tol:e})");
  let rel = T::rel_loss(&f, &t, &p);
  ensure!((rel - want).abs() <= tol, "released {loss:?} of {n} elements is {rel}, expected {want}");
  let vec = T::pf(T::loss(&io(Shape::Vec(n), &t), &io(Shape::Vec(n), &p), &f).map_err(|e| format!("{e:?}"))?);
  ensure!((vec - got).abs() <= 2.0 * tol, "{loss:?} as a vector is {vec}, as {shape:?} {got}");
  // kinds do not mix
  let other = Shape::Maps(1, 1, n);
  ensure!(T::loss(&io(Shape::Vec(n), &t), &io(other, &p), &f).is_err(), "vector target accepted for feature maps");
  ensure!(T::loss(&io(other, &t), &io(Shape::Vec(n), &p), &f).is_err(), "feature map target accepted for a vector");
  Ok(())
}

fn loss_ders<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (loss, shape, t, p) = loss_case::<T>(s);
  let n = p.len();
  ctx.desc(|| format!("d {loss:?} {shape:?} target {:?} prediction {:?}", &t[..n.min(3)], &p[..n.min(3)]));
  ctx.nt(t != p);
  ctx.label(if loss == Loss::Mse { "mean square" } else { "cross entropy" });
  ctx.label_if(matches!(shape, Shape::Maps(..)), "feature maps");
  let f = loss_of(loss);
  let (ct, cp) = (cs(&t), cs(&p));
  let want = loss.grad(&ct, &cp);
  let mag = loss.grad_abs(&ct, &cp);
  let got = T::d_loss(&io(shape, &t), &io(shape, &p), &f).map_err(|e| format!("d_loss refused matching features: {e:?}"))?;
  let rel = T::rel_dloss(&f, &t, &p);
  ensure!(got.len() == n && rel.len() == n, "derivative has {} / {} entries for {n} elements", got.len(), rel.len());
  let tol = T::EPS * match loss { Loss::Mse => 4.0, Loss::Ce => 32.0 * (n as f64 + 4.0) };
  for i in 0..n {
    for (form, g) in [("d_loss", got[i]), ("released", rel[i])] {
      ensure!(close(g.c(), want[i], tol * mag[i] + 1e-30), "{form} {loss:?} entry {i} of {n} ({shape:?}) is {:?}, expected {:?} (allowed {:e})", g, want[i], tol * mag[i]);
    }
  }
  let other = Shape::Maps(1, 1, n);
  ensure!(T::d_loss(&io(Shape::Vec(n), &t), &io(other, &p), &f).is_err(), "vector target accepted for feature maps");
  ensure!(T::d_loss(&io(other, &t), &io(Shape::Vec(n), &p), &f).is_err(), "feature map target accepted for a vector");
  Ok(())
}

/// The derivative predicts the change of the library's own loss.
fn loss_fd(s: &mut Src, ctx: &mut Ctx) -> Res {
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = s.range(1, 12);
  let p = cvec::<Cf64>(s, n, 1.5);
  let t = targets::<Cf64>(s, n, loss, &p);
  let dir = cvec::<Cf64>(s, n, 1.0);
  ctx.desc(|| format!("{loss:?} {:?} {:?} direction {:?}", t, p, dir));
  ctx.nt(t != p);
  let f = loss_of(loss);
  let h = 1e-5;
  let at = |k: f64| -> Result<f64, String> {
    let q: Vec<Cf64> = p.iter().zip(&dir).map(|(a, d)| Cf64 { x: a.x + k * d.x, y: a.y + k * d.y }).collect();
    let v = Cf64::loss(&io(Shape::Vec(n), &t), &io(Shape::Vec(n), &q), &f).map_err(|e| format!("{e:?}"))?;
    // mean square derivatives belong to the sum
    Ok(if loss == Loss::Mse { v * n as f64 } else { v })
  };
  let num = (at(h)? - at(-h)?) / (2.0 * h);
  let g = Cf64::d_loss(&io(Shape::Vec(n), &t), &io(Shape::Vec(n), &p), &f).map_err(|e| format!("{e:?}"))?;
  ensure!(g.len() == n, "derivative has {} entries for {n} elements", g.len());
  let ana: f64 = g.iter().zip(&dir).map(|(a, d)| 2.0 * (a.c() * d.c()).re).sum();
  let scale: f64 = 1.0 + loss.grad_abs(&cs(&t), &cs(&p)).iter().sum::<f64>();
  ensure!((num - ana).abs() <= 2e-7 * scale, "{loss:?}: derivative predicts a slope of {ana}, the loss itself changes with {num}");
  Ok(())
}

fn one_hot_case(s: &mut Src) -> (usize, usize) {
  let n = if s.one_in(8) { 0 } else if s.one_in(30) { s.range(1, 5000) } else { s.size(300) };
  let k = match s.u(6) { 0 => n, 1 => n + 1, 2 => n.saturating_sub(1), 3 => n + s.size(300), 4 => s.pick(&[usize::MAX, 1 << 32, usize::MAX / 2]), _ => s.u(n.max(1)) };
  (n, k)
}

fn one_hot_real<T: Re>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (n, k) = one_hot_case(s);
  ctx.desc(|| format!("{} size {n} index {k}", T::NAME));
  ctx.nt(n > 0);
  ctx.label(if k < n { "in range" } else if k == n { "index equals size" } else { "beyond size" });
  let r = guarded(|| <T as Real>::gen_pred(n, k, &PredictModel::Sparse)).map_err(|m| format!("size {n} index {k} panics: {m}"))?;
  match r {
    Ok(v) => {
      ensure!(k < n, "index {k} accepted for size {n}");
      ensure!(v.len() == n && v.iter().enumerate().all(|(i, x)| x.f() == if i == k { 1.0 } else { 0.0 }), "size {n} index {k} gives {:?}", v);
    }
    Err(_) => ensure!(k >= n, "index {k} refused for size {n}")
  }
  Ok(())
}

fn one_hot_complex<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (n, k) = one_hot_case(s);
  ctx.desc(|| format!("{} size {n} index {k}", T::NAME));
  ctx.nt(n > 0);
  ctx.label(if k < n { "in range" } else if k == n { "index equals size" } else { "beyond size" });
  let r = guarded(|| <T as Complex>::gen_pred(n, k, &PredictModel::Sparse)).map_err(|m| format!("size {n} index {k} panics: {m}"))?;
  match r {
    Ok(v) => {
      ensure!(k < n, "index {k} accepted for size {n}");
      ensure!(v.len() == n && v.iter().enumerate().all(|(i, x)| x.c() == if i == k { C::new(1.0, 0.0) } else { C::ZERO }), "size {n} index {k} gives {:?}", v);
    }
    Err(_) => ensure!(k >= n, "index {k} refused for size {n}")
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let _ = std::marker::PhantomData::<Cf32>;
  let mut out = Vec::new();
  let mut v = Vec::new();
  both!(v, "arith", arith, 3_000_000, 40_000_000);
  out.push(Prop { id: "C01", rule: "operand pairs from special, integer, uniform and wide-exponent components (also equal, conjugate, opposite, swapped, real or imaginary second operand), all four operators in all forms; non-trivial: both operands have an imaginary part, or division by zero",
    assumptions: &["operands keep products and squared magnitudes in the normal range"], subs: v });
  let mut v = Vec::new();
  both!(v, "polar", polar, 3_000_000, 40_000_000);
  both!(v, "ordering", ordering, 3_000_000, 40_000_000);
  out.push(Prop { id: "C02", rule: "components special, integer, uniform or wide-exponent; comparisons also against swapped, conjugate, opposite and slightly scaled copies; non-trivial: non-zero, and equal or clearly different magnitudes for comparisons",
    assumptions: &["squared magnitudes stay in the normal range", "negative zero is not generated for phases"], subs: v });
  let mut v = Vec::new();
  both!(v, "values", act_values, 1_200_000, 30_000_000);
  out.push(Prop { id: "C03", rule: "activation x slice of 0..300 arguments, including saturation thresholds and the axes; non-trivial: non-empty slice", assumptions: &["arguments finite, non-zero for z/|z| and cardioid"], subs: v });
  let mut v = Vec::new();
  both!(v, "derivatives", act_ders, 1_200_000, 30_000_000);
  sub!(v, "differences", act_fd, 1_200_000, 30_000_000);
  out.push(Prop { id: "C04", rule: "activation x slice of 0..300 differentiable points against closed forms, and central differences of the library's own activation; non-trivial: non-empty slice", assumptions: &["points where the activation is differentiable"], subs: v });
  let mut v = Vec::new();
  both!(v, "values", loss_values, 1_200_000, 30_000_000);
  out.push(Prop { id: "C05", rule: "loss x 1..300 elements x vector or maps x prediction scale 0.01..1000 x targets (one-hot, complex, equal to the prediction); every case is non-trivial", assumptions: &[], subs: v });
  let mut v = Vec::new();
  both!(v, "derivatives", loss_ders, 1_200_000, 30_000_000);
  sub!(v, "slope", loss_fd, 1_200_000, 30_000_000);
  out.push(Prop { id: "C06", rule: "as C05, plus directional differences of the library's own loss; non-trivial: target differs from prediction", assumptions: &["the mean-square derivative is that of the sum of squares"], subs: v });
  let mut v = Vec::new();
  sub!(v, "real_f32", one_hot_real::<f32>, 800_000, 20_000_000);
  sub!(v, "real_f64", one_hot_real::<f64>, 800_000, 20_000_000);
  both!(v, "complex", one_hot_complex, 800_000, 20_000_000);
  out.push(Prop { id: "C24", rule: "size 0..300 x index inside, at, just beyond and far beyond the size; non-trivial: size above zero", assumptions: &[], subs: v });
  out
}
