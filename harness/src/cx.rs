//! Uniform access to the two complex types and the four scalar types.

use renplex::act::ComplexActFunc;
use renplex::opt::ComplexLossFunc;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::{BasicOperations, Complex, Real};

use crate::core::{Bulk, Src};
use crate::model::C;

/// A complex type of the library.
pub trait Cx: Complex + BasicOperations<Self> + PartialEq {
  const EPS: f64;
  const NAME: &'static str;
  const SINGLE: bool;
  fn mk(re: f64, im: f64) -> Self;
  fn c(&self) -> C;
  fn bits(&self) -> (u64, u64);
  fn pf(p: Self::Precision) -> f64;
  fn fp(x: f64) -> Self::Precision;
  /// a - conj(b) in the type's own arithmetic
  fn sub_conj(a: Self, b: Self) -> Self;
  fn of(c: C) -> Self { Self::mk(c.re, c.im) }
  /// the operator on references: 0 add, 1 sub, 2 mul, 3 div
  fn ref_op(op: usize, a: &Self, b: &Self) -> Self;
  fn rel_func(f: &ComplexActFunc) -> fn(Self) -> Self;
  fn rel_dfunc(f: &ComplexActFunc) -> fn(Self) -> Self;
  fn rel_dfunc_conj(f: &ComplexActFunc) -> fn(Self) -> Self;
  fn rel_loss(l: &ComplexLossFunc, t: &[Self], p: &[Self]) -> f64;
  fn rel_dloss(l: &ComplexLossFunc, t: &[Self], p: &[Self]) -> Vec<Self>;
}

macro_rules! lib_fns {
  ($f:ident, $df:ident, $dc:ident) => {
    fn ref_op(op: usize, a: &Self, b: &Self) -> Self { match op { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b } }
    fn rel_func(f: &ComplexActFunc) -> fn(Self) -> Self { f.$f() }
    fn rel_dfunc(f: &ComplexActFunc) -> fn(Self) -> Self { f.$df() }
    fn rel_dfunc_conj(f: &ComplexActFunc) -> fn(Self) -> Self { f.$dc() }
    fn rel_loss(l: &ComplexLossFunc, t: &[Self], p: &[Self]) -> f64 { l.$f()(t.iter(), p.iter()) as f64 }
    fn rel_dloss(l: &ComplexLossFunc, t: &[Self], p: &[Self]) -> Vec<Self> { l.$df()(t.iter(), p.iter()) }
  }
}

impl Cx for Cf32 {
  const EPS: f64 = f32::EPSILON as f64;
  const NAME: &'static str = "Cf32";
  const SINGLE: bool = true;
  fn mk(re: f64, im: f64) -> Self { Cf32 { x: re as f32, y: im as f32 } }
  fn c(&self) -> C { C::new(self.x as f64, self.y as f64) }
  fn bits(&self) -> (u64, u64) { (self.x.to_bits() as u64, self.y.to_bits() as u64) }
  fn pf(p: f32) -> f64 { p as f64 }
  fn fp(x: f64) -> f32 { x as f32 }
  fn sub_conj(a: Self, b: Self) -> Self { Cf32 { x: a.x - b.x, y: a.y + b.y } }
  lib_fns!(release_func_cf32, release_dfunc_cf32, release_dfunc_conj_cf32);
}

impl Cx for Cf64 {
  const EPS: f64 = f64::EPSILON;
  const NAME: &'static str = "Cf64";
  const SINGLE: bool = false;
  fn mk(re: f64, im: f64) -> Self { Cf64 { x: re, y: im } }
  fn c(&self) -> C { C::new(self.x, self.y) }
  fn bits(&self) -> (u64, u64) { (self.x.to_bits(), self.y.to_bits()) }
  fn pf(p: f64) -> f64 { p }
  fn fp(x: f64) -> f64 { x }
  fn sub_conj(a: Self, b: Self) -> Self { Cf64 { x: a.x - b.x, y: a.y + b.y } }
  lib_fns!(release_func_cf64, release_dfunc_cf64, release_dfunc_conj_cf64);
}

/// Any element type a matrix can hold here; reals are seen as complex with zero imaginary part.
pub trait Elem: BasicOperations<Self> + PartialEq {
  const EPS: f64;
  const NAME: &'static str;
  const REAL: bool;
  fn mk2(re: f64, im: f64) -> Self;
  fn c2(&self) -> C;
  fn b2(&self) -> (u64, u64);
}
impl Elem for f32 {
  const EPS: f64 = f32::EPSILON as f64; const NAME: &'static str = "f32"; const REAL: bool = true;
  fn mk2(re: f64, _im: f64) -> Self { re as f32 }
  fn c2(&self) -> C { C::new(*self as f64, 0.0) }
  fn b2(&self) -> (u64, u64) { (self.to_bits() as u64, 0) }
}
impl Elem for f64 {
  const EPS: f64 = f64::EPSILON; const NAME: &'static str = "f64"; const REAL: bool = true;
  fn mk2(re: f64, _im: f64) -> Self { re }
  fn c2(&self) -> C { C::new(*self, 0.0) }
  fn b2(&self) -> (u64, u64) { (self.to_bits(), 0) }
}
impl Elem for Cf32 {
  const EPS: f64 = f32::EPSILON as f64; const NAME: &'static str = "Cf32"; const REAL: bool = false;
  fn mk2(re: f64, im: f64) -> Self { Cx::mk(re, im) }
  fn c2(&self) -> C { self.c() }
  fn b2(&self) -> (u64, u64) { self.bits() }
}
impl Elem for Cf64 {
  const EPS: f64 = f64::EPSILON; const NAME: &'static str = "Cf64"; const REAL: bool = false;
  fn mk2(re: f64, im: f64) -> Self { Cx::mk(re, im) }
  fn c2(&self) -> C { self.c() }
  fn b2(&self) -> (u64, u64) { self.bits() }
}

/// Real scalar types with their one-hot and generator functions.
pub trait Re: Real + BasicOperations<Self> + PartialEq { const NAME: &'static str; fn f(&self) -> f64; }
impl Re for f32 { const NAME: &'static str = "f32"; fn f(&self) -> f64 { *self as f64 } }
impl Re for f64 { const NAME: &'static str = "f64"; fn f(&self) -> f64 { *self } }

/// A real component with special values, small integers and wide magnitudes.
/// `wide` is the exponent range (powers of two).
pub fn real(s: &mut Src, wide: i32) -> f64 {
  match s.u(10) {
    0 => 0.0,
    1 => s.pick(&[1.0, -1.0, 0.5, -0.5, 2.0, -2.0]),
    2 | 3 => s.u(9) as f64 - 4.0,
    4..=7 => s.sym(2.0),
    _ => {
      let e = s.u((2 * wide + 1) as usize) as i32 - wide;
      (1.0 + s.unit()) * 2f64.powi(e) * if s.bool() { -1.0 } else { 1.0 }
    }
  }
}

pub fn cplx<T: Cx>(s: &mut Src, wide: i32) -> T {
  T::mk(real(s, wide), real(s, wide))
}

/// A complex number with both components in (-a, a), never exactly zero.
pub fn moderate<T: Cx>(s: &mut Src, a: f64) -> T {
  let (re, im) = (s.sym(a), s.sym(a));
  if re == 0.0 && im == 0.0 { T::mk(0.5 * a, 0.25 * a) } else { T::mk(re, im) }
}

/// n complex values; above 48 the values come from one bulk choice.
pub fn cvec<T: Cx>(s: &mut Src, n: usize, a: f64) -> Vec<T> {
  if n > 48 {
    let mut b: Bulk = s.bulk();
    (0..n).map(|_| T::mk(b.sym(a), b.sym(a))).collect()
  } else {
    (0..n).map(|_| moderate::<T>(s, a)).collect()
  }
}

/// n complex values, now and then of a special form: all zero, one entry only, constant, real, imaginary, diagonal, small integers, sparse.
pub fn xvec<T: Cx>(s: &mut Src, n: usize, a: f64) -> Vec<T> {
  let one = |s: &mut Src| T::mk(s.sym(a), s.sym(a));
  match s.u(32) {
    1 => vec![T::default(); n],
    2 => { let k = s.u(n.max(1)); let z = one(s); (0..n).map(|i| if i == k { z } else { T::default() }).collect() }
    3 => { let z = one(s); vec![z; n] }
    4 => cvec::<T>(s, n, a).iter().map(|z| T::mk(z.c().re, 0.0)).collect(),
    5 => cvec::<T>(s, n, a).iter().map(|z| T::mk(0.0, z.c().im)).collect(),
    6 => { let sign = if s.bool() { 1.0 } else { -1.0 }; cvec::<T>(s, n, a).iter().map(|z| T::mk(z.c().re, sign * z.c().re)).collect() }
    7 => { let mut b: Bulk = s.bulk(); (0..n).map(|_| T::mk(b.u(5) as f64 - 2.0, b.u(5) as f64 - 2.0)).collect() }
    8 => { let mut b: Bulk = s.bulk(); cvec::<T>(s, n, a).into_iter().map(|z| if b.u(2) == 0 { z } else { T::default() }).collect() }
    _ => cvec::<T>(s, n, a)
  }
}

/// n values of an element type, integers included.
pub fn evec<T: Elem>(s: &mut Src, n: usize, a: f64) -> Vec<T> {
  if n > 48 {
    let mut b: Bulk = s.bulk();
    let ints = b.u(3) == 0;
    (0..n).map(|_| if ints { T::mk2(b.u(19) as f64 - 9.0, b.u(19) as f64 - 9.0) } else { T::mk2(b.sym(a), b.sym(a)) }).collect()
  } else {
    (0..n).map(|_| T::mk2(real(s, 6) * a, real(s, 6) * a)).collect()
  }
}

/// A factor for values: usually one, sometimes a small or a large power of two.
pub fn gain(s: &mut Src, down: usize, up: usize) -> f64 {
  match s.u(10) { 0 => 2f64.powi(-(s.range(1, down) as i32)), 1 => 2f64.powi(s.range(1, up) as i32), _ => 1.0 }
}
