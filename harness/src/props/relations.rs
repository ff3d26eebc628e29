//! C33..C36: networks that must behave alike, and networks given extreme values.

use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::random::{lcgf32, lcgf64};
use renplex::math::Real;

use crate::core::{guarded, Ctx, Prop, Res, Src};
use crate::cx::{cvec, gain, Cx};
use crate::model::{Act, Feat, Loss, Model, Pool, Shape, ACTS, C};
use crate::net::*;
use crate::{both, ensure, sub};

const NETS: NetOpt = NetOpt { max_layers: 5, min_layers: 2, acts: &ACTS, max_pool: true, vec: 40, img: 9 };
/// Without activations that are undefined at zero.
const PLAIN: [Act; 5] = [Act::Tanh, Act::None, Act::Sigmoid, Act::Relu, Act::ZRelu];
/// Activations that commute with conjugation.
const CONJ: [Act; 4] = [Act::Tanh, Act::None, Act::ModZ, Act::Cardioid];

/// A network with the given parameters.
fn net_of<T: Cx>(input: Shape, specs: &[Spec], params: &[Params<T>], seed: u128) -> Result<(CNetwork<T>, Model), String> {
  let mut seed = seed;
  let mut net = CNetwork::<T>::new();
  let mut layers = Vec::new();
  for (i, (sp, p)) in specs.iter().zip(params).enumerate() {
    let start = seed;
    let mut l = fresh::<T>(sp, None, &mut seed);
    if !p.w.is_empty() {
      // down to zero, then to the parameters; both are exact
      let w0 = probe_weights::<T>(sp, start)?;
      let mut q = Params { w: w0.clone(), b: vec![T::default(); p.b.len()] };
      let conj = |v: &[T], k: f64| v.iter().map(|z| T::mk(k * z.c().re, -k * z.c().im)).collect::<Vec<T>>();
      let nb = vec![T::default(); p.b.len()];
      adjust(&mut l, &mut q, conj(&w0, 1.0), nb)?;
      adjust(&mut l, &mut q, conj(&p.w, -1.0), conj(&p.b, -1.0))?;
    }
    layers.push(to_model(sp, p));
    let r = if i == 0 { net.add_input(l) } else { net.add(l) };
    if let Err(e) = r { return Err(format!("compatible layer {} {} refused: {e:?}", i, sp.short())); }
  }
  Ok((net, Model { input, layers }))
}

/// Values on the real (1) or imaginary (2) axis, or as they are.
fn on_axis<T: Cx>(axis: usize, v: Vec<T>) -> Vec<T> {
  v.into_iter().map(|z| match axis { 1 => T::mk(z.c().re, 0.0), 2 => T::mk(0.0, z.c().im), _ => z }).collect()
}

fn gen_params<T: Cx>(s: &mut Src, specs: &[Spec]) -> Vec<Params<T>> {
  specs.iter().map(|sp| {
    let (nw, nb) = sp.params();
    let fan = match sp { Spec::Dense { inputs, .. } => *inputs, Spec::Conv { ch, kr, kc, .. } => ch * kr * kc, _ => 1 } as f64;
    // now and then large pre-activations
    let k = match s.u(12) { 0 => 2f64.powi(s.range(1, 5) as i32), 1 => 2f64.powi(-(s.range(1, 6) as i32)), _ => 1.0 };
    let axis = s.u(40);
    Params { w: on_axis(axis, cvec::<T>(s, nw, 1.6 * k / fan.sqrt())), b: on_axis(axis, cvec::<T>(s, nb, 0.8 * k)) }
  }).collect()
}

fn labels(specs: &[Spec], ctx: &mut Ctx) {
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Conv { .. })), "with convolution");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Reduce { .. })), "with pooling");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Dense { .. })), "with dense");
}

fn pick_lr<T: Cx>(s: &mut Src) -> T {
  match s.u(24) { 1 => T::default(), 2 => T::mk(-0.1 - s.unit() * 0.2, 0.0), 3 => T::mk(0.0, -0.2), 4..=8 => T::mk(s.sym(0.4), s.sym(0.4)), 9..=13 => T::mk(0.0, 0.2), _ => T::mk(0.02 + s.unit() * 0.4, 0.0) }
}

fn predict<T: Cx>(net: &CNetwork<T>, input: Shape, out: Shape, x: &[T], what: &str) -> Result<Vec<T>, String> {
  let o = guarded(|| net.forward(&io(input, x))).map_err(|e| format!("{what}: prediction panics: {e}"))?;
  unio(&o.map_err(|e| format!("{what}: prediction refused: {e:?}"))?, out).map_err(|e| format!("{what}: {e}"))
}

fn loss_val<T: Cx>(net: &CNetwork<T>, input: Shape, out: Shape, batch: &Batch<T>, loss: Loss) -> Result<f64, String> {
  Ok(T::pf(net.loss(&dataset(batch, input, out), &loss_of(loss)).map_err(|e| format!("loss refused: {e:?}"))?))
}

fn train<T: Cx>(net: &mut CNetwork<T>, input: Shape, out: Shape, batch: &Batch<T>, loss: Loss, lr: T, what: &str) -> Res {
  let data = dataset(batch, input, out);
  guarded(|| net.gradient_opt(data, &loss_of(loss), lr)).map_err(|e| format!("{what}: training panics: {e}"))?.map_err(|e| format!("{what}: training refused: {e:?}"))
}

/// Values `got` agree with `base` seen through `map`, within `k` times the bounds.
fn same(got: &[C], base: &[C], want: &Feat, map: &dyn Fn(usize) -> (usize, bool), k: f64, what: &str) -> Res {
  ensure!(got.len() == base.len(), "{what}: {} values instead of {}", got.len(), base.len());
  for (i, g) in got.iter().enumerate() {
    let (j, conj) = map(i);
    let b = if conj { base[j].conj() } else { base[j] };
    if want.e[j].is_infinite() { continue; }
    let d = g.dist(b);
    ensure!(d <= k * want.e[j] + 1e-300, "{what}: value {i} is {:?} and should agree with {:?} (difference {d:e}, allowed {:e})", g, b, k * want.e[j]);
  }
  Ok(())
}

// ---------- C33 ----------

fn init_precision(s: &mut Src, ctx: &mut Ctx) -> Res {
  let seed = gen_seed(s);
  let n = match s.u(3) { 0 => 1, 1 => s.size(2000), _ => s.range(1, 64) };
  let m = match s.u(5) { 0 => Method::Uniform(n), 1 => Method::XgU(n), 2 => Method::XgN(n), 3 => Method::Xavier(n), _ => Method::He(n) };
  let sp = if s.bool() { Spec::Dense { inputs: s.tail(1, 12, 60), units: s.tail(1, 12, 60), act: Act::None, method: m } }
    else { Spec::Conv { ch: s.tail(1, 3, 8), filters: s.tail(1, 3, 8), kr: s.tail(1, 4, 8), kc: s.tail(1, 4, 8), act: Act::None, method: m } };
  ctx.desc(|| format!("{} from seed {seed} in both precisions", sp.short()));
  ctx.nt(true);
  let (mut a, mut b) = (seed, seed);
  let _ = fresh::<Cf32>(&sp, None, &mut a);
  let _ = fresh::<Cf64>(&sp, None, &mut b);
  ensure!(a == b, "{} from seed {seed}: the seed afterwards is {a} in single and {b} in double precision", sp.short());
  // plain draws
  let (mut c, mut d) = (seed, seed);
  for i in 0..s.range(1, 20) {
    let (x, y) = (lcgf32(&mut c) as f64, lcgf64(&mut d));
    ensure!((x - y).abs() <= 2e-7, "draw {i} from seed {seed} is {x} in single and {y} in double precision");
    ensure!(c == d, "draw {i} from seed {seed} leaves different seeds in the two precisions");
  }
  let scale = s.size(1000);
  let (mut c, mut d) = (seed, seed);
  for i in 0..s.range(1, 20) {
    let (x, y) = (<f32 as Real>::gen(&mut c, scale) as f64, <f64 as Real>::gen(&mut d, scale));
    ensure!((x - y).abs() <= 1e-6 * scale as f64, "real draw {i} from seed {seed} with scale {scale} is {x} in single and {y} in double precision");
    ensure!(c == d, "real draw {i} from seed {seed} leaves different seeds in the two precisions");
  }
  Ok(())
}

fn precision(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, specs) = gen_specs(s, &NETS);
  labels(&specs, ctx);
  let pa = gen_params::<Cf32>(s, &specs);
  let wide = |v: &[Cf32]| v.iter().map(|z| Cf64::of(z.c())).collect::<Vec<Cf64>>();
  let pb: Vec<Params<Cf64>> = pa.iter().map(|p| Params { w: wide(&p.w), b: wide(&p.b) }).collect();
  let seed = gen_seed(s);
  let (mut a, mut m) = net_of(input, &specs, &pa, seed)?;
  let (mut b, _) = net_of(input, &specs, &pb, seed)?;
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = s.range(1, 5);
  let out = m.out_shape();
  ctx.desc(|| format!("both precisions {loss:?} batch {n}: {}", describe(input, &specs)));
  let eps = Cf32::EPS;
  let mut we = m.no_err();
  let steps = s.range(0, 3);
  for k in 0..=steps {
    let onehot = loss == Loss::Ce && s.bool();
    let batch = { let k = gain(s, 6, 4); scaled_batch::<Cf32>(s, n, input, out, onehot, k, 1.0) };
    let other: Batch<Cf64> = batch.iter().map(|(x, t)| (wide(x), wide(t))).collect();
    let data = mbatch(&batch);
    for (p, q) in batch.iter().zip(&other) {
      let (want, ok) = m.acts(&cs(&p.0), eps, Some(&we));
      if !ok { ctx.label("too close to a discontinuity for values"); if k == 0 { return ctx.discard(); } else { return Ok(()); } }
      let x = predict(&a, input, out, &p.0, "single")?;
      let y = predict(&b, input, out, &q.0, "double")?;
      same(&cs(&x), &cs(&y), want.last().unwrap(), &|i| (i, false), 1.1, &format!("prediction of single against double precision after {k} steps"))?;
      ctx.nt(true);
    }
    let (la, lb) = (loss_val(&a, input, out, &batch, loss)?, loss_val(&b, input, out, &other, loss)?);
    let tol = 1.1 * m.loss_err(&data, loss, eps, Some(&we)) + 1e-300;
    ensure!((la - lb).abs() <= tol, "loss after {k} steps is {la} in single and {lb} in double precision (allowed {tol:e})");
    if k == steps { break; }
    let lr: Cf32 = pick_lr(s);
    if m.train(&data, loss, lr.c(), eps, &mut we).is_none() || we.iter().flatten().any(|e| !(*e < 0.05)) { return Ok(()); }
    train(&mut a, input, out, &batch, loss, lr, "single")?;
    train(&mut b, input, out, &other, loss, Cf64::of(lr.c()), "double")?;
    ctx.label("with training");
  }
  Ok(())
}

// ---------- C34 ----------

/// Lets two networks predict and train side by side; `exact` asks for equal values.
fn side_by_side<T: Cx>(s: &mut Src, ctx: &mut Ctx, a: (&mut CNetwork<T>, Model), b: &mut CNetwork<T>, exact: bool, what: &str) -> Res {
  let (net, mut m) = a;
  let input = m.input;
  let out = m.out_shape();
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = s.range(1, 5);
  let mut we = m.no_err();
  let steps = s.range(0, 3);
  for k in 0..=steps {
    let onehot = loss == Loss::Ce && s.bool();
    let batch = { let k = gain(s, 6, 4); scaled_batch::<T>(s, n, input, out, onehot, k, 1.0) };
    let data = mbatch(&batch);
    for (x, _) in &batch {
      let (want, ok) = m.acts(&cs(x), T::EPS, Some(&we));
      if !ok { ctx.label("too close to a discontinuity for values"); if k == 0 { return ctx.discard(); } else { return Ok(()); } }
      let p = predict(net, input, out, x, what)?;
      let q = predict(b, input, out, x, what)?;
      let f = want.last().unwrap();
      if exact { for i in 0..p.len() { ensure!(p[i].c() == q[i].c(), "{what}: prediction {i} after {k} steps is {:?} and {:?}", p[i], q[i]); } }
      else { same(&cs(&q), &cs(&p), f, &|i| (i, false), 2.0, &format!("{what}: prediction after {k} steps"))?; }
      ctx.nt(true);
    }
    let (la, lb) = (loss_val(net, input, out, &batch, loss)?, loss_val(b, input, out, &batch, loss)?);
    let tol = if exact { 0.0 } else { 2.0 * m.loss_err(&data, loss, T::EPS, Some(&we)) + 1e-300 };
    ensure!((la - lb).abs() <= tol, "{what}: loss after {k} steps is {la} and {lb}");
    if k == steps { break; }
    let lr: T = pick_lr(s);
    if m.train(&data, loss, lr.c(), T::EPS, &mut we).is_none() || we.iter().flatten().any(|e| !(*e < 0.05)) { return Ok(()); }
    train(net, input, out, &batch, loss, lr, what)?;
    train(b, input, out, &batch, loss, lr, what)?;
    ctx.label("with training");
  }
  Ok(())
}

/// A convolution with a kernel as large as the image against a dense layer on the flattened image.
fn full_kernel<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let ch = s.tail(1, 3, 8);
  let (r, c) = (s.tail(1, 4, 9), s.tail(1, 4, 9));
  let units = s.tail(1, 4, 12);
  let set = s.bool();
  let act = |s: &mut Src| if set { ACTS[s.u(ACTS.len())] } else { PLAIN[s.u(PLAIN.len())] };
  let inputs = ch * r * c;
  let (a0, method) = (act(s), Method::gen(s, inputs));
  let mut rest = vec![];
  let mut last = units;
  for _ in 0..s.u(3) { let u = s.tail(1, 4, 12); let a = act(s); rest.push(Spec::Dense { inputs: last, units: u, act: a, method: Method::gen(s, last) }); last = u; }
  let mut sa = vec![Spec::Conv { ch, filters: units, kr: r, kc: c, act: a0, method }, Spec::Flatten { n: units, r: 1, c: 1 }];
  let mut sb = vec![Spec::Flatten { n: ch, r, c }, Spec::Dense { inputs, units, act: a0, method }];
  sa.extend(rest.iter().cloned()); sb.extend(rest.iter().cloned());
  let input = Shape::Maps(ch, r, c);
  ctx.desc(|| format!("{} {} against {}", T::NAME, describe(input, &sa), describe(input, &sb)));
  ctx.label(if set { "given parameters" } else { "parameters from the seed" });
  let seed = gen_seed(s);
  let (mut a, m, mut b);
  if set {
    let pa = gen_params::<T>(s, &sa);
    let mut pb = pa.clone();
    pb.swap(0, 1);
    let x = net_of(input, &sa, &pa, seed)?;
    a = x.0; m = x.1;
    b = net_of(input, &sb, &pb, seed)?.0;
  } else {
    let build = |specs: &[Spec]| -> Result<(CNetwork<T>, Model), String> {
      let mut net = CNetwork::<T>::new();
      let mut sd = seed;
      let mut layers = vec![];
      for (i, sp) in specs.iter().enumerate() {
        let p = Params { w: probe_weights::<T>(sp, sd)?, b: vec![T::default(); sp.params().1] };
        layers.push(to_model(sp, &p));
        let l = fresh::<T>(sp, None, &mut sd);
        if i == 0 { net.add_input(l) } else { net.add(l) }.map_err(|e| format!("compatible layer refused: {e:?}"))?;
      }
      Ok((net, Model { input, layers }))
    };
    let x = build(&sa)?;
    a = x.0; m = x.1;
    b = build(&sb)?.0;
    if m.layers.iter().any(|l| l.clone().params_mut().is_some_and(|(w, _)| w.iter().any(|z| !z.is_finite() || z.abs() > 1e3))) { return ctx.discard(); }
  }
  side_by_side(s, ctx, (&mut a, m), &mut b, false, "full-size convolution against dense layer")
}

/// One-cell pooling with the unit kernel is transparent.
fn transparent<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, specs) = gen_specs(s, &NETS);
  if matches!(input, Shape::Vec(_)) { return ctx.discard(); }
  labels(&specs, ctx);
  let params = gen_params::<T>(s, &specs);
  let (mut sb, mut pb) = (vec![], vec![]);
  let mut ch = match input { Shape::Maps(n, _, _) => n, _ => 0 };
  let mut maps = true;
  let mut added = 0;
  for k in 0..=specs.len() {
    if maps {
      let want = if added == 0 && (k == specs.len() || matches!(specs[k], Spec::Flatten { .. })) { 1 } else { s.u(3).saturating_sub(1) };
      for _ in 0..want {
        let pool = if s.bool() { Pool::MaxNorm } else { Pool::Linear(vec![1.0]) };
        sb.push(Spec::Reduce { ch, br: 1, bc: 1, pool, kr: 1, kc: 1, k: vec![1.0] });
        pb.push(Params { w: vec![], b: vec![] });
        added += 1;
      }
    }
    if k == specs.len() { break; }
    match &specs[k] { Spec::Conv { filters, .. } => ch = *filters, Spec::Flatten { .. } | Spec::Dense { .. } => maps = false, _ => {} }
    sb.push(specs[k].clone()); pb.push(params[k].clone());
  }
  let seed = gen_seed(s);
  ctx.desc(|| format!("{} {} against {}", T::NAME, describe(input, &specs), describe(input, &sb)));
  let (mut a, m) = net_of(input, &specs, &params, seed)?;
  let (mut b, _) = net_of(input, &sb, &pb, seed)?;
  side_by_side(s, ctx, (&mut a, m), &mut b, true, "with one-cell pooling against without")
}

/// A 1x1 convolution is a dense layer applied to every pixel.
fn pixelwise<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let ch = s.tail(1, 4, 20);
  let (r, c) = (s.tail(1, 5, 14), s.tail(1, 5, 14));
  let units = s.tail(1, 4, 16);
  let act = ACTS[s.u(ACTS.len())];
  let method = Method::gen(s, ch);
  let conv = Spec::Conv { ch, filters: units, kr: 1, kc: 1, act, method };
  let dense = Spec::Dense { inputs: ch, units, act, method };
  ctx.desc(|| format!("{} {} on {r}x{c} against {} on every pixel", T::NAME, conv.short(), dense.short()));
  let p = gen_params::<T>(s, &[conv.clone()]);
  let seed = gen_seed(s);
  let input = Shape::Maps(ch, r, c);
  let (a, m) = net_of(input, &[conv], &p, seed)?;
  let (b, _) = net_of(Shape::Vec(ch), &[dense], &p, seed)?;
  let x = crate::cx::xvec::<T>(s, input.len(), 1.5);
  let (want, ok) = m.acts(&cs(&x), T::EPS, None);
  if !ok { return ctx.discard(); }
  let f = &want[1];
  let p = predict(&a, input, f.shape, &x, "1x1 convolution")?;
  ctx.nt(true);
  for i in 0..r * c {
    let xi: Vec<T> = (0..ch).map(|h| x[h * r * c + i]).collect();
    let y = predict(&b, Shape::Vec(ch), Shape::Vec(units), &xi, "dense layer on a pixel")?;
    for u in 0..units {
      let j = u * r * c + i;
      let d = p[j].c().dist(y[u].c());
      ensure!(d <= 2.0 * f.e[j] + 1e-300, "filter {u} at pixel {i} is {:?}, the dense layer gives {:?} (difference {d:e}, allowed {:e})", p[j], y[u], 2.0 * f.e[j]);
    }
  }
  Ok(())
}

// ---------- C35 ----------

/// How the features of the relabelled network relate to those of the other one.
struct Rel { perm: Vec<usize>, transposed: bool }

fn permutation(s: &mut Src, n: usize) -> Vec<usize> {
  let mut p: Vec<usize> = (0..n).collect();
  match s.u(4) {
    0 => {}
    1 => p.reverse(),
    2 => { let k = s.u(n); p.rotate_left(k); }
    _ => { let mut b = s.bulk(); for i in (1..n).rev() { let j = b.u(i + 1); p.swap(i, j); } }
  }
  p
}

impl Rel {
  /// Shape of the relabelled features, and for each of their elements the element of the others.
  fn view(&self, shape: Shape) -> (Shape, Vec<usize>) {
    match shape {
      Shape::Vec(n) => (Shape::Vec(n), self.perm.clone()),
      Shape::Maps(n, r, c) => {
        let (a, b) = if self.transposed { (c, r) } else { (r, c) };
        let mut v = Vec::with_capacity(n * r * c);
        for h in 0..n { for i in 0..a { for j in 0..b {
          let (y, x) = if self.transposed { (j, i) } else { (i, j) };
          v.push((self.perm[h] * r + y) * c + x);
        } } }
        (Shape::Maps(n, a, b), v)
      }
    }
  }
}

fn swap_cells(k: &[f64], r: usize, c: usize) -> Vec<f64> {
  (0..c).flat_map(|i| (0..r).map(move |j| (i, j))).map(|(i, j)| k[j * c + i]).collect()
}

fn relabel<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let conj = s.one_in(3);
  let transposed = s.one_in(3);
  let quarter = if s.one_in(3) { s.range(1, 3) } else { 0 };
  let permute = s.u(4) > 0 || !(conj || transposed || quarter > 0);
  let (input, specs) = gen_specs(s, &NetOpt { acts: if conj { &CONJ } else { &ACTS }, ..NETS });
  labels(&specs, ctx);
  let params = gen_params::<T>(s, &specs);
  let (mut sb, mut pb) = (vec![], vec![]);
  let transposed = transposed && matches!(input, Shape::Maps(..));
  let n0 = match input { Shape::Vec(n) | Shape::Maps(n, _, _) => n };
  let order = |s: &mut Src, n: usize| if permute { permutation(s, n) } else { (0..n).collect() };
  let mut rel = Rel { perm: order(s, n0), transposed };
  let (input2, from) = rel.view(input);
  // values of the relabelled network; the quarter turns of the input are undone by the first weights
  let op = |z: T| if conj { T::mk(z.c().re, -z.c().im) } else { z };
  let turn = |z: T, k: usize| (0..k).fold(z, |z, _| T::mk(-z.c().im, z.c().re));
  let mut undo = (4 - quarter) % 4;
  let mut shape = input;
  for (sp, p) in specs.iter().zip(&params) {
    match sp {
      Spec::Dense { inputs, units, .. } => {
        let out = order(s, *units);
        let mut w = Vec::with_capacity(p.w.len());
        for u in 0..*units { for i in 0..*inputs { w.push(turn(op(p.w[out[u] * inputs + rel.perm[i]]), undo)); } }
        pb.push(Params { w, b: out.iter().map(|u| op(p.b[*u])).collect() });
        sb.push(sp.clone());
        rel = Rel { perm: out, transposed: false };
        undo = 0;
        shape = Shape::Vec(*units);
      }
      Spec::Conv { ch, filters, kr, kc, act, method } => {
        let (_, r, c) = shape.maps();
        let out = order(s, *filters);
        let (a, b) = if transposed { (*kc, *kr) } else { (*kr, *kc) };
        let mut w = Vec::with_capacity(p.w.len());
        for f in 0..*filters { for h in 0..*ch { for i in 0..a { for j in 0..b {
          let (y, x) = if transposed { (j, i) } else { (i, j) };
          w.push(turn(op(p.w[((out[f] * ch + rel.perm[h]) * kr + y) * kc + x]), undo));
        } } } }
        pb.push(Params { w, b: out.iter().map(|u| op(p.b[*u])).collect() });
        sb.push(Spec::Conv { ch: *ch, filters: *filters, kr: a, kc: b, act: *act, method: *method });
        rel = Rel { perm: out, transposed };
        undo = 0;
        shape = Shape::Maps(*filters, r + 1 - kr, c + 1 - kc);
      }
      Spec::Reduce { ch, br, bc, pool, kr, kc, k } => {
        let (n, r, c) = shape.maps();
        pb.push(p.clone());
        sb.push(if transposed {
          let pool = match pool { Pool::Linear(co) => Pool::Linear(swap_cells(co, *br, *bc)), q => q.clone() };
          Spec::Reduce { ch: *ch, br: *bc, bc: *br, pool, kr: *kc, kc: *kr, k: swap_cells(k, *kr, *kc) }
        } else { sp.clone() });
        shape = Shape::Maps(n, r / br, c / bc);
      }
      Spec::Flatten { n, r, c } => {
        pb.push(p.clone());
        let (_, v) = rel.view(shape);
        sb.push(if transposed { Spec::Flatten { n: *n, r: *c, c: *r } } else { sp.clone() });
        rel = Rel { perm: v, transposed: false };
        shape = Shape::Vec(n * r * c);
      }
    }
  }
  // a turned input that meets no weights turns the output; those chains are not trainable anyway
  if undo != 0 { return ctx.discard(); }
  let (out2, to) = rel.view(shape);
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = s.range(1, 5);
  ctx.desc(|| format!("{} {loss:?} batch {n}, relabelled{}{}{}{}: {}", T::NAME, if permute { " units" } else { "" }, if conj { " conjugated" } else { "" }, if transposed { " transposed" } else { "" }, if quarter > 0 { " turned" } else { "" }, describe(input, &specs)));
  ctx.label_if(permute, "units in another order"); ctx.label_if(conj, "conjugated"); ctx.label_if(transposed, "images transposed"); ctx.label_if(quarter > 0, "inputs turned");
  let seed = gen_seed(s);
  let (mut a, mut m) = net_of(input, &specs, &params, seed)?;
  let (mut b, _) = net_of(input2, &sb, &pb, seed / 2 + 1)?;
  let out = m.out_shape();
  let mut we = m.no_err();
  let steps = s.range(0, 3);
  for k in 0..=steps {
    let onehot = loss == Loss::Ce && s.bool();
    let batch = { let k = gain(s, 6, 4); scaled_batch::<T>(s, n, input, out, onehot, k, 1.0) };
    let other: Batch<T> = batch.iter().map(|(x, t)| (from.iter().map(|i| turn(op(x[*i]), quarter)).collect(), to.iter().map(|i| op(t[*i])).collect())).collect();
    let data = mbatch(&batch);
    for (p, q) in batch.iter().zip(&other) {
      let (want, ok) = m.acts(&cs(&p.0), T::EPS, Some(&we));
      if !ok { ctx.label("too close to a discontinuity for values"); if k == 0 { return ctx.discard(); } else { return Ok(()); } }
      let x = predict(&a, input, out, &p.0, "original")?;
      let y = predict(&b, input2, out2, &q.0, "relabelled")?;
      same(&cs(&y), &cs(&x), want.last().unwrap(), &|i| (to[i], conj), 2.0, &format!("prediction of the relabelled network after {k} steps"))?;
      ctx.nt(true);
    }
    let (la, lb) = (loss_val(&a, input, out, &batch, loss)?, loss_val(&b, input2, out2, &other, loss)?);
    let tol = 2.0 * m.loss_err(&data, loss, T::EPS, Some(&we)) + 1e-300;
    ensure!((la - lb).abs() <= tol, "loss after {k} steps is {la}, of the relabelled network {lb} (allowed {tol:e})");
    if k == steps { break; }
    let lr: T = pick_lr(s);
    if m.train(&data, loss, lr.c(), T::EPS, &mut we).is_none() || we.iter().flatten().any(|e| !(*e < 0.05)) { return Ok(()); }
    train(&mut a, input, out, &batch, loss, lr, "original")?;
    train(&mut b, input2, out2, &other, loss, op(lr), "relabelled")?;
    ctx.label("with training");
  }
  Ok(())
}

// ---------- C36 ----------

/// Values far apart in size, within the range of the type.
fn finite<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let reach = if T::SINGLE { 40 } else { 300 };
  let limit = 2f64.powi(reach);
  let (input, specs) = gen_specs(s, &NETS);
  labels(&specs, ctx);
  let power = |s: &mut Src| match s.u(6) { 0 | 1 => 1.0, 2 => 2f64.powi(s.range(1, reach as usize) as i32), 3 => 2f64.powi(-(s.range(1, reach as usize) as i32)), 4 => 2f64.powi(s.range(1, 12) as i32), _ => 2f64.powi(-(s.range(1, 12) as i32)) };
  let grow = |v: &[T], k: f64| v.iter().map(|z| T::mk(z.c().re * k, z.c().im * k)).collect::<Vec<T>>();
  let mut params = gen_params::<T>(s, &specs);
  // now and then every number on one axis
  let axes = if s.one_in(12) { Some((1 + s.u(2), 1 + s.u(2), 1 + s.u(2))) } else { None };
  if let Some((w, b, _)) = axes { for p in params.iter_mut() { p.w = on_axis(w, std::mem::take(&mut p.w)); p.b = on_axis(b, std::mem::take(&mut p.b)); } }
  for p in params.iter_mut() { let k = power(s); p.w = grow(&p.w, k); let k = power(s); p.b = grow(&p.b, k); }
  let seed = 1 + s.word() as u128;
  // weights are taken to zero and then to their values, exactly
  let (mut net, m) = net_of(input, &specs, &params, seed)?;
  let out = m.out_shape();
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = s.range(1, 4);
  let onehot = loss == Loss::Ce && s.bool();
  let mut batch = gen_batch::<T>(s, n, input, out, onehot);
  if let Some((_, _, a)) = axes { for (x, _) in batch.iter_mut() { *x = on_axis(a, std::mem::take(x)); } }
  ctx.label_if(axes.is_some(), "values on the axes");
  for (x, t) in batch.iter_mut() { let k = power(s); *x = grow(x, k); if !onehot { let k = power(s); *t = grow(t, k); } }
  let lr: T = pick_lr(s);
  let lr = { let k = power(s); T::mk(lr.c().re * k, lr.c().im * k) };
  ctx.desc(|| format!("{} {loss:?} batch {n} lr {:?}: {} first input {:?}", T::NAME, lr, describe(input, &specs), batch[0].0[0]));
  let data = mbatch(&batch);
  // the exact values stay inside the range, and no phase of zero is asked for
  let mut big = 0f64;
  for (x, t) in &data {
    let mut cur = Feat::exact(input, x.clone());
    for l in &m.layers {
      if matches!(l.act(), Some(Act::ModZ | Act::Cardioid)) {
        let (q, mag, _) = l.pre(&cur, None);
        for i in 0..q.len() { if q[i].abs() <= 1.0 / limit || q[i].abs() <= 1e3 * T::EPS * mag[i] { return ctx.discard(); } }
      }
      if l.act().is_some() { let (_, mag, _) = l.pre(&cur, None); for x in mag { big = big.max(x); } }
      // which side of a jump rounding leaves a value on is open
      let (next, ok) = l.forward(&cur, T::EPS, None);
      if !ok { return ctx.discard(); }
      cur = next;
      for (z, e) in cur.v.iter().zip(&cur.e) { big = big.max(z.abs() + e); }
    }
    for z in t { big = big.max(z.abs()); }
  }
  if !(big < limit) { ctx.label("forward values out of range"); return ctx.discard(); }
  let check = |v: &[T], what: &str| -> Res { for (i, z) in v.iter().enumerate() { ensure!(z.c().is_finite(), "{what} {i} is {:?}", z); } Ok(()) };
  for (x, _) in &batch { check(&predict(&net, input, out, x, "extreme values")?, "prediction")?; }
  let l = loss_val(&net, input, out, &batch, loss)?;
  // the cross entropy works with squared norms, the mean square with squared differences
  ensure!(l.is_finite(), "the loss is {l}");
  ctx.nt(true);
  ctx.label_if(big > 1e6, "values above 1e6");
  let Some(st) = m.batch_grad(&data, loss, 0.0, None) else { return Ok(()) };
  let top = st.dwa.iter().flatten().fold(0f64, |a, x| a.max(*x));
  if !(top * lr.c().abs().max(1.0) < limit) { ctx.label("gradients out of range"); return Ok(()); }
  train(&mut net, input, out, &batch, loss, lr, "extreme values")?;
  ctx.label("with training");
  // parameters seen through small inputs, one layer at a time
  let small = vec![T::mk(0.5, 0.25); input.len()];
  for (k, l) in m.layers.iter().enumerate() {
    if l.params().0 == 0 || matches!(l.act(), Some(Act::ModZ | Act::Cardioid)) { continue; }
    let Ok(Ok((_, lib))) = guarded(|| net.intercept(io(input, &small), k)) else { continue };
    let shape = match &specs[k] { Spec::Dense { inputs, .. } => Shape::Vec(*inputs), Spec::Conv { ch, kr, kc, .. } => Shape::Maps(*ch, *kr, *kc), _ => unreachable!() };
    let x: Vec<T> = (0..shape.len()).map(|i| T::mk(1e-3, 1e-3 * (i % 3) as f64)).collect();
    let o = lib.foward(&io(shape, &x)).map_err(|e| format!("{e:?}"))?;
    let os = l.out_shape(shape);
    check(&unio(&o, os)?, &format!("after training: output of layer {k},"))?;
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let mut out = Vec::new();

  let mut v = Vec::new();
  sub!(v, "initial", init_precision, 60_000, 1_500_000);
  sub!(v, "networks", precision, 200_000, 2_500_000);
  out.push(Prop { id: "C33", rule: "seed x method x layer of up to 60 inputs and units drawn in both precisions, plain and scaled draws; random chains of 2..5 layers with the same parameters, batches of 1..5, 0..3 training steps run in both precisions side by side; non-trivial: seed or prediction compared",
    assumptions: &["rounding bounds from the reference model in single precision; cases next to a discontinuity discarded", "uniform initial weights are not compared: the two precisions use the draw with another sign convention"], subs: v });

  let mut v = Vec::new();
  both!(v, "full_kernel", full_kernel, 80_000, 1_200_000);
  both!(v, "transparent_pool", transparent, 80_000, 1_200_000);
  both!(v, "pixelwise", pixelwise, 60_000, 900_000);
  out.push(Prop { id: "C34", rule: "full-size convolutions (1..8 channels, 1..9 x 1..9) against flatten and dense, followed by 0..2 dense layers; random chains with and without inserted one-cell pooling; one-cell convolutions (1..20 channels and filters, images to 14) against a dense layer on every pixel; 0..3 training steps; non-trivial: values compared",
    assumptions: &["rounding bounds from the reference model, equality of values for one-cell pooling; cases next to a discontinuity discarded"], subs: v });

  let mut v = Vec::new();
  both!(v, "relabel", relabel, 150_000, 1_800_000);
  out.push(Prop { id: "C35", rule: "random chains of 2..5 layers and their image under a random combination of reordering, transposition, quarter turns and conjugation, batches of 1..5, 0..3 training steps side by side; non-trivial: values compared",
    assumptions: &["rounding bounds from the reference model; cases next to a discontinuity discarded"], subs: v });

  let mut v = Vec::new();
  both!(v, "finite", finite, 250_000, 1_800_000);
  out.push(Prop { id: "C36", rule: "random chains of 2..5 layers with weights, biases, inputs, targets and learning rate scaled by independent powers of two up to 2^40 (single) or 2^300 (double) and down to their reciprocals, values on the axes among them, prediction, loss and one step; non-trivial: exact values in range",
    assumptions: &["phases of pre-activations that are zero up to rounding are not asked for"], subs: v });
  out
}
