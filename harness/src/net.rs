//! Building library layers and networks together with their reference model.

use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::matrix::Matrix;
use renplex::opt::ComplexLossFunc;

use crate::core::{guarded, Src};
use crate::cx::{cvec, xvec, Cx};
use crate::model::{Act, Feat, Layer, Loss, Model, Pool, Shape, ACTS, C};

pub fn act_of(a: Act) -> ComplexActFunc {
  match a {
    Act::None => ComplexActFunc::None,
    Act::ModZ => ComplexActFunc::ModZ,
    Act::Sigmoid => ComplexActFunc::RITSigmoid,
    Act::Tanh => ComplexActFunc::RITTanh,
    Act::Relu => ComplexActFunc::RITReLU,
    Act::ZRelu => ComplexActFunc::ZReLU,
    Act::Cardioid => ComplexActFunc::Cardioid
  }
}

pub fn loss_of(l: Loss) -> ComplexLossFunc {
  match l { Loss::Mse => ComplexLossFunc::MeanSquare, Loss::Ce => ComplexLossFunc::NormCrossEntropy }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Method { Uniform(usize), XgU(usize), XgN(usize), Xavier(usize), He(usize) }

impl Method {
  pub fn lib(self) -> InitMethod {
    match self {
      Method::Uniform(n) => InitMethod::Uniform(n),
      Method::XgU(n) => InitMethod::XavierGlorotU(n),
      Method::XgN(n) => InitMethod::XavierGlorotN(n),
      Method::Xavier(n) => InitMethod::Xavier(n),
      Method::He(n) => InitMethod::HeInit(n)
    }
  }
  pub fn gen(s: &mut Src, units: usize) -> Method {
    let n = units.max(1);
    match s.u(5) { 0 => Method::Uniform(1), 1 => Method::XgU(n), 2 => Method::XgN(n), 3 => Method::Xavier(n), _ => Method::He(n) }
  }
}

pub fn io<T: Cx>(shape: Shape, v: &[T]) -> IOType<T> {
  assert_eq!(shape.len(), v.len());
  match shape {
    Shape::Vec(_) => IOType::Scalar(v.to_vec()),
    Shape::Maps(n, r, c) => IOType::Matrix((0..n).map(|h| Matrix::from_body(v[h * r * c..(h + 1) * r * c].to_vec(), [r, c])).collect())
  }
}

/// Values of library features; `Err` if their shape is not the expected one.
pub fn unio<T: Cx>(x: &IOType<T>, shape: Shape) -> Result<Vec<T>, String> {
  match (x, shape) {
    (IOType::Scalar(v), Shape::Vec(n)) => {
      if v.len() != n { return Err(format!("vector of {} elements instead of {}", v.len(), n)); }
      Ok(v.clone())
    }
    (IOType::Matrix(m), Shape::Maps(n, r, c)) => {
      if m.len() != n { return Err(format!("{} maps instead of {}", m.len(), n)); }
      let mut out = Vec::new();
      for x in m {
        if x.get_shape() != [r, c] || x.get_body().len() != r * c { return Err(format!("map of shape {:?} with {} elements instead of {:?}", x.get_shape(), x.get_body().len(), [r, c])); }
        out.extend_from_slice(x.get_body());
      }
      Ok(out)
    }
    (IOType::Scalar(_), _) => Err("vector instead of maps".into()),
    (IOType::Matrix(_), _) => Err("maps instead of a vector".into())
  }
}

pub fn cs<T: Cx>(v: &[T]) -> Vec<C> { v.iter().map(|x| x.c()).collect() }
pub fn bits<T: Cx>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| x.bits()).collect() }

/// Flat raw values of any features, for bitwise comparison.
pub fn raw<T: Cx>(x: &IOType<T>) -> Vec<(u64, u64)> {
  match x {
    IOType::Scalar(v) => bits(v),
    IOType::Matrix(m) => m.iter().flat_map(|a| {
      let s = a.get_shape();
      let mut o = vec![(s[0] as u64, s[1] as u64)];
      o.extend(bits(a.get_body()));
      o
    }).collect()
  }
}

#[derive(Clone, Debug)]
pub enum Spec {
  Dense { inputs: usize, units: usize, act: Act, method: Method },
  Conv { ch: usize, filters: usize, kr: usize, kc: usize, act: Act, method: Method },
  Reduce { ch: usize, br: usize, bc: usize, pool: Pool, kr: usize, kc: usize, k: Vec<f64> },
  Flatten { n: usize, r: usize, c: usize }
}

impl Spec {
  pub fn short(&self) -> String {
    match self {
      Spec::Dense { inputs, units, act, method } => format!("Dense({inputs}->{units} {act:?} {method:?})"),
      Spec::Conv { ch, filters, kr, kc, act, method } => format!("Conv({ch}ch {filters}f {kr}x{kc} {act:?} {method:?})"),
      Spec::Reduce { ch, br, bc, pool, kr, kc, .. } => format!("Reduce({ch}ch {br}x{bc} {} kernel {kr}x{kc})", match pool { Pool::Linear(_) => "linear", Pool::MaxNorm => "max" }),
      Spec::Flatten { n, r, c } => format!("Flatten({n}x{r}x{c})")
    }
  }
  pub fn params(&self) -> (usize, usize) {
    match self {
      Spec::Dense { inputs, units, .. } => (inputs * units, *units),
      Spec::Conv { ch, filters, kr, kc, .. } => (ch * filters * kr * kc, *filters),
      _ => (0, 0)
    }
  }
  pub fn in_shape(&self) -> IOShape {
    match self {
      Spec::Dense { inputs, .. } => IOShape::Scalar(*inputs),
      Spec::Conv { ch, .. } | Spec::Reduce { ch, .. } => IOShape::Matrix(*ch),
      Spec::Flatten { n, .. } => IOShape::Matrix(*n)
    }
  }
  pub fn out_shape(&self) -> IOShape {
    match self {
      Spec::Dense { units, .. } => IOShape::Scalar(*units),
      Spec::Conv { filters, .. } => IOShape::Matrix(*filters),
      Spec::Reduce { ch, .. } => IOShape::Matrix(*ch),
      Spec::Flatten { n, r, c } => IOShape::Scalar(n * r * c)
    }
  }
}

pub fn pool_fn<T: Cx>(p: &Pool) -> Box<dyn Fn(&[T]) -> T + Send + Sync> {
  match p.clone() {
    Pool::Linear(co) => Box::new(move |b: &[T]| {
      assert!(b.len() == co.len(), "block of {} elements instead of {}", b.len(), co.len());
      let mut s = T::default();
      for (x, a) in b.iter().zip(co.iter()) { s += *x * T::mk(*a, 0.0); }
      s
    }),
    Pool::MaxNorm => Box::new(|b: &[T]| {
      let mut m = b[0];
      for x in b { if x.c().abs2() > m.c().abs2() { m = *x; } }
      m
    })
  }
}

pub fn kernel_of<T: Cx>(k: &[f64], kr: usize, kc: usize) -> Matrix<T> {
  Matrix::from_body(k.iter().map(|a| T::mk(*a, 0.0)).collect(), [kr, kc])
}

/// The layer freshly initialised from the seed (which is advanced).
pub fn fresh<T: Cx>(sp: &Spec, act: Option<Act>, seed: &mut u128) -> CLayer<T> {
  match sp {
    Spec::Dense { inputs, units, act: a, method } =>
      DenseCLayer::<T>::init(IOShape::Scalar(*inputs), *units, act_of(act.unwrap_or(*a)), method.lib(), seed).unwrap().wrap(),
    Spec::Conv { ch, filters, kr, kc, act: a, method } =>
      ConvCLayer::<T>::init(IOShape::Matrix(*ch), *filters, [*kr, *kc], act_of(act.unwrap_or(*a)), method.lib(), seed).unwrap().wrap(),
    Spec::Reduce { ch, br, bc, pool, kr, kc, k } =>
      Reduce::<T>::init(*ch, [*br, *bc], pool_fn::<T>(pool), kernel_of::<T>(k, *kr, *kc)).wrap(),
    Spec::Flatten { n, r, c } => Flatten::init([*r, *c], *n).wrap()
  }
}

/// Reads the weights of a freshly initialised linear layer (zero biases) by feeding unit inputs.
pub fn probe_weights<T: Cx>(sp: &Spec, seed: u128) -> Result<Vec<T>, String> {
  let mut sd = seed;
  let twin = fresh::<T>(sp, Some(Act::None), &mut sd);
  match sp {
    Spec::Dense { inputs, units, .. } => {
      let mut w = vec![T::default(); inputs * units];
      for i in 0..*inputs {
        let mut x = vec![T::default(); *inputs];
        x[i] = T::unit();
        let out = twin.foward(&IOType::Scalar(x)).map_err(|e| format!("{e:?}"))?;
        let v = unio(&out, Shape::Vec(*units))?;
        for u in 0..*units { w[u * inputs + i] = v[u]; }
      }
      Ok(w)
    }
    Spec::Conv { ch, filters, kr, kc, .. } => {
      let mut w = vec![T::default(); ch * filters * kr * kc];
      for h in 0..*ch { for u in 0..*kr { for v in 0..*kc {
        let mut x = vec![T::default(); ch * kr * kc];
        x[(h * kr + u) * kc + v] = T::unit();
        let out = twin.foward(&io(Shape::Maps(*ch, *kr, *kc), &x)).map_err(|e| format!("{e:?}"))?;
        let o = unio(&out, Shape::Maps(*filters, 1, 1))?;
        for f in 0..*filters { w[((f * ch + h) * kr + u) * kc + v] = o[f]; }
      } } }
      Ok(w)
    }
    _ => Ok(vec![])
  }
}

/// Parameters of a layer in the library's own precision.
#[derive(Clone, Debug)]
pub struct Params<T> { pub w: Vec<T>, pub b: Vec<T> }

pub fn to_model<T: Cx>(sp: &Spec, p: &Params<T>) -> Layer {
  match sp {
    Spec::Dense { inputs, units, act, .. } => Layer::Dense { units: *units, inputs: *inputs, w: cs(&p.w), b: cs(&p.b), act: *act },
    Spec::Conv { ch, filters, kr, kc, act, .. } => Layer::Conv { filters: *filters, ch: *ch, kr: *kr, kc: *kc, w: cs(&p.w), b: cs(&p.b), act: *act },
    Spec::Reduce { ch, br, bc, pool, kr, kc, k } => {
      // coefficients as the library sees them
      let rnd = |a: &f64| T::mk(*a, 0.0).c().re;
      let pool = match pool { Pool::Linear(co) => Pool::Linear(co.iter().map(rnd).collect()), p => p.clone() };
      Layer::Reduce { ch: *ch, br: *br, bc: *bc, pool, kr: *kr, kc: *kc, k: k.iter().map(rnd).collect() }
    }
    Spec::Flatten { n, r, c } => Layer::Flatten { n: *n, r: *r, c: *c }
  }
}

/// Applies an adjustment both to the layer and to the tracked parameters.
pub fn adjust<T: Cx>(l: &mut CLayer<T>, p: &mut Params<T>, dw: Vec<T>, db: Vec<T>) -> Result<(), String> {
  for (a, d) in p.w.iter_mut().zip(dw.iter()) { *a = T::sub_conj(*a, *d); }
  for (a, d) in p.b.iter_mut().zip(db.iter()) { *a = T::sub_conj(*a, *d); }
  l.neg_conj_adjustment(dw, db).map_err(|e| format!("valid adjustment refused: {e:?}"))
}

/// A library layer and its parameters: initialised from the seed, then moved by random adjustments.
pub fn build_layer<T: Cx>(s: &mut Src, sp: &Spec, seed: &mut u128, scale: f64) -> Result<(CLayer<T>, Params<T>), String> {
  let n = s.range(1, 2);
  moved_layer(s, sp, seed, scale, n)
}

fn moved_layer<T: Cx>(s: &mut Src, sp: &Spec, seed: &mut u128, scale: f64, adjustments: usize) -> Result<(CLayer<T>, Params<T>), String> {
  let start = *seed;
  let mut l = fresh::<T>(sp, None, seed);
  let (nw, nb) = sp.params();
  let mut p = Params { w: vec![], b: vec![] };
  if nw > 0 {
    p = Params { w: probe_weights::<T>(sp, start)?, b: vec![T::default(); nb] };
    for z in p.w.iter() { if !z.c().is_finite() { return Err(format!("initial weight {:?} is not finite", z)); } }
    for _ in 0..adjustments {
      let dw = cvec::<T>(s, nw, scale);
      let db = cvec::<T>(s, nb, scale);
      adjust(&mut l, &mut p, dw, db)?;
    }
  }
  Ok((l, p))
}

/// Modulus, factor and offset of the library's generator.
pub const P: u128 = (1 << 31) - 1;
pub const A: u128 = 1103515245;
pub const B: u128 = 12345;

pub fn modpow(mut b: u128, mut e: u128) -> u128 { let mut r = 1; while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; } r }

/// A seed whose k-th successor is the given state.
pub fn seed_before(state: u128, k: usize) -> u128 {
  let inv = modpow(A % P, P - 2);
  (0..k).fold(state, |x, _| (x + P - B) % P * inv % P)
}

/// Seeds of every size, and seeds that lead to the extreme states soon.
pub fn gen_seed(s: &mut Src) -> u128 {
  match s.u(10) {
    0 => s.u(10) as u128,
    1 => s.word() as u128,
    2 => s.u64() as u128,
    3 => s.u128(),
    4 => u128::MAX - s.u(1000) as u128,
    5 => (1u128 << s.range(1, 127)) + s.u(3) as u128 - 1,
    6 => { let k = s.range(1, 6); seed_before(0, k) }
    7 => { let k = s.range(1, 6); seed_before(P - 1 - s.u(4) as u128, k) }
    8 => { let k = s.range(1, 80); seed_before(s.pick(&[0, P - 1, 1]), k) }
    _ => P * s.word() as u128 + s.u(5) as u128
  }
}

pub struct Built<T> { pub net: CNetwork<T>, pub model: Model, pub specs: Vec<Spec> }

/// Options of the network generator.
pub struct NetOpt {
  pub max_layers: usize,
  pub min_layers: usize,
  pub acts: &'static [Act],
  pub max_pool: bool,
  /// cap on vector sizes
  pub vec: usize,
  /// cap on image sides
  pub img: usize
}

pub const SMOOTH: [Act; 3] = [Act::Tanh, Act::None, Act::Sigmoid];

pub fn odd_kernel(s: &mut Src) -> (usize, usize, Vec<f64>) {
  let kr = s.pick(&[3usize, 1, 3, 5]);
  let kc = if s.u(3) < 2 { kr } else { s.pick(&[1usize, 3, 5]) };
  let k = (0..kr * kc).map(|_| s.sym(1.0)).collect();
  (kr, kc, k)
}

/// A classifier of digit images: convolution, pooling, flatten and dense layers of the usual sizes.
fn digits(s: &mut Src, o: &NetOpt) -> (Shape, Vec<Spec>) {
  let act = |s: &mut Src| o.acts[s.u(o.acts.len())];
  let (k, filters) = (s.pick(&[5usize, 3]), s.range(1, 2));
  let side = (28 + 1 - k) / 2;
  let a = act(s);
  let mut specs = vec![Spec::Conv { ch: 1, filters, kr: k, kc: k, act: a, method: Method::gen(s, k * k) }];
  let (kr, kc, kn) = odd_kernel(s);
  let pool = if o.max_pool && s.bool() { Pool::MaxNorm } else { Pool::Linear(vec![0.25; 4]) };
  specs.push(Spec::Reduce { ch: filters, br: 2, bc: 2, pool, kr, kc, k: kn });
  specs.push(Spec::Flatten { n: filters, r: side, c: side });
  let inputs = filters * side * side;
  let hidden = if s.bool() { s.range(2, 8) } else { 0 };
  if hidden > 0 { let a = act(s); specs.push(Spec::Dense { inputs, units: hidden, act: a, method: Method::gen(s, inputs) }); }
  let last = if hidden > 0 { hidden } else { inputs };
  let a = act(s);
  specs.push(Spec::Dense { inputs: last, units: 10, act: a, method: Method::gen(s, last) });
  (Shape::Maps(1, 28, 28), specs)
}

/// A random chain of compatible layers for the given input.
pub fn gen_specs(s: &mut Src, o: &NetOpt) -> (Shape, Vec<Spec>) {
  if o.img >= 10 && o.max_layers >= 4 && s.one_in(200) { return digits(s, o); }
  let n = if o.max_layers > 1 { s.tail(o.min_layers, o.max_layers, o.max_layers + 5) } else { 1 };
  let mut shape = if s.u(5) < 2 {
    Shape::Vec(s.size(o.vec))
  } else {
    let side = |s: &mut Src, m: usize| if s.one_in(6) { s.range(1, m) } else { s.range(2, 7.min(m)) };
    Shape::Maps(s.tail(1, 3, 12), side(s, o.img), side(s, o.img))
  };
  let input = shape;
  let mut specs = Vec::new();
  while specs.len() < n {
    let act = |s: &mut Src| o.acts[s.u(o.acts.len())];
    let sp = match shape {
      Shape::Vec(i) => {
        let units = if s.one_in(5) { s.size(o.vec) } else { s.range(1, 5) };
        let a = act(s);
        Spec::Dense { inputs: i, units, act: a, method: Method::gen(s, i) }
      }
      Shape::Maps(c, r, w) => {
        // a chain that ends dense is the usual case
        let close = specs.len() + 2 == n && s.u(3) > 0;
        match if close { 9 } else { s.u(8) } {
          0..=3 => {
            let kr = s.tail(1, r.min(4), r.min(9)); let kc = s.tail(1, w.min(4), w.min(9));
            let a = act(s);
            Spec::Conv { ch: c, filters: s.tail(1, 3, 12), kr, kc, act: a, method: Method::gen(s, c * kr * kc) }
          }
          4 | 5 => {
            let divs = |s: &mut Src, n: usize| { let d: Vec<usize> = (1..=n.min(9)).filter(|d| n % d == 0).collect(); d[d.len() - 1 - s.u(d.len())] };
            let br = divs(s, r); let bc = divs(s, w);
            let (kr, kc, k) = odd_kernel(s);
            let pool = if o.max_pool && s.one_in(3) { Pool::MaxNorm } else { Pool::Linear((0..br * bc).map(|_| s.sym(1.0)).collect()) };
            Spec::Reduce { ch: c, br, bc, pool, kr, kc, k }
          }
          _ => Spec::Flatten { n: c, r, c: w }
        }
      }
    };
    shape = match (&sp, shape) {
      (Spec::Dense { units, .. }, _) => Shape::Vec(*units),
      (Spec::Conv { filters, kr, kc, .. }, Shape::Maps(_, r, c)) => Shape::Maps(*filters, r + 1 - kr, c + 1 - kc),
      (Spec::Reduce { br, bc, .. }, Shape::Maps(n, r, c)) => Shape::Maps(n, r / br, c / bc),
      (Spec::Flatten { n, r, c }, _) => Shape::Vec(n * r * c),
      _ => unreachable!()
    };
    specs.push(sp);
  }
  (input, specs)
}

pub fn build_net<T: Cx>(s: &mut Src, input: Shape, specs: Vec<Spec>) -> Result<Built<T>, String> {
  let mut seed: u128 = if s.one_in(3) { gen_seed(s) } else { 1 + s.word() as u128 };
  let mut net = CNetwork::<T>::new();
  let mut layers = Vec::new();
  let phased = specs.iter().any(|x| matches!(x, Spec::Dense { act: Act::ModZ | Act::Cardioid, .. } | Spec::Conv { act: Act::ModZ | Act::Cardioid, .. }));
  for (i, sp) in specs.iter().enumerate() {
    let fan = match sp { Spec::Dense { inputs, .. } => *inputs, Spec::Conv { ch, kr, kc, .. } => ch * kr * kc, _ => 1 } as f64;
    // zero biases can make a pre-activation exactly zero, where the phase is not defined
    let n = if phased || !s.one_in(8) { s.range(1, 2) } else { 0 };
    let (l, p) = moved_layer::<T>(s, sp, &mut seed, 1.0 / fan.sqrt(), n)?;
    layers.push(to_model(sp, &p));
    let r = if i == 0 { net.add_input(l) } else { net.add(l) };
    if let Err(e) = r { return Err(format!("compatible layer {} {} refused: {e:?}", i, sp.short())); }
  }
  Ok(Built { net, model: Model { input, layers }, specs })
}

pub fn describe(input: Shape, specs: &[Spec]) -> String {
  format!("{:?} -> {}", input, specs.iter().map(|x| x.short()).collect::<Vec<_>>().join(" -> "))
}

/// A batch in the library's precision and as the model sees it.
pub type Batch<T> = Vec<(Vec<T>, Vec<T>)>;

pub fn gen_batch<T: Cx>(s: &mut Src, n: usize, input: Shape, output: Shape, onehot: bool) -> Batch<T> {
  scaled_batch(s, n, input, output, onehot, 1.0, 1.0)
}

pub fn scaled_batch<T: Cx>(s: &mut Src, n: usize, input: Shape, output: Shape, onehot: bool, xs: f64, ts: f64) -> Batch<T> {
  (0..n).map(|_| {
    let x = xvec::<T>(s, input.len(), xs);
    let t = if onehot {
      let k = s.u(output.len());
      (0..output.len()).map(|i| if i == k { T::unit() } else { T::default() }).collect()
    } else { xvec::<T>(s, output.len(), ts) };
    (x, t)
  }).collect()
}

pub fn dataset<T: Cx>(b: &Batch<T>, input: Shape, output: Shape) -> Dataset<T, T> {
  let mut d = Dataset::new();
  for (x, t) in b { d.add_point((io(input, x), io(output, t))); }
  d
}

pub fn mbatch<T: Cx>(b: &Batch<T>) -> Vec<(Vec<C>, Vec<C>)> {
  b.iter().map(|(x, t)| (cs(x), cs(t))).collect()
}

/// Compares values with the model's, element by element, within its error bounds.
pub fn compare<T: Cx>(got: &[T], want: &Feat, what: &str) -> Result<(), String> {
  for (i, g) in got.iter().enumerate() {
    if want.e[i].is_infinite() { continue; }
    let d = g.c().dist(want.v[i]);
    if !(d <= want.e[i] + 1e-300) {
      return Err(format!("{what}: element {i} is {:?}, expected {:?} (difference {d:e}, allowed {:e})", g, want.v[i], want.e[i]));
    }
  }
  Ok(())
}

/// Forward through a library layer. `None` if it panics where its activation is undefined
/// (a pre-activation that is zero up to rounding, for z/|z| and the cardioid).
pub fn lib_forward<T: Cx>(lib: &CLayer<T>, x: &IOType<T>, want: &Feat, what: &str) -> Result<Option<IOType<T>>, String> {
  match guarded(|| lib.foward(x)) {
    Ok(r) => r.map(Some).map_err(|e| format!("{what}: input refused: {e:?}")),
    Err(e) => if want.e.iter().any(|e| e.is_infinite()) { Ok(None) } else { Err(format!("{what}: panic {e}")) }
  }
}

/// Compares the behaviour of one library layer with its model on probing inputs
/// that make every parameter visible. `we` bounds the parameter errors.
pub fn compare_layer<T: Cx>(s: &mut Src, lib: &CLayer<T>, model: &Layer, we: &[f64], what: &str) -> Result<(), String> {
  let (nw, nb) = model.params();
  if nw == 0 { return Ok(()); }
  let (shape, n) = match model {
    Layer::Dense { inputs, .. } => (Shape::Vec(*inputs), *inputs),
    Layer::Conv { ch, kr, kc, .. } => (Shape::Maps(*ch, *kr, *kc), ch * kr * kc),
    _ => unreachable!()
  };
  let _ = nb;
  let mut probes: Vec<Vec<T>> = vec![vec![T::default(); n]];
  let picks: Vec<usize> = if n <= 16 { (0..n).collect() } else { let mut b = s.bulk(); (0..16).map(|_| b.u(n)).chain([0, n - 1]).collect() };
  for i in picks {
    for (re, im) in [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0)] {
      let mut x = vec![T::default(); n];
      x[i] = T::mk(re * 4.0, im * 4.0);
      probes.push(x);
    }
  }
  let mut b = s.bulk();
  for _ in 0..2 { probes.push((0..n).map(|_| T::mk(b.sym(2.0), b.sym(2.0))).collect()); }
  for x in probes {
    let (want, _) = model.forward(&Feat::exact(shape, cs(&x)), T::EPS, Some(we));
    let Some(out) = lib_forward(lib, &io(shape, &x), &want, what)? else { continue };
    let got = unio(&out, want.shape)?;
    compare(&got, &want, what)?;
  }
  Ok(())
}

pub fn all_acts() -> &'static [Act] { &ACTS }
