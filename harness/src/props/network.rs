//! C16..C21 and C29: networks, training and evaluation.

use renplex::dataset::Dataset;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::Cf64;

use crate::core::{guarded, harness_bug, Ctx, Prop, Res, Src};
use crate::cx::{cvec, gain, xvec, Cx};
use crate::model::{Act, Feat, Layer, Loss, Model, Pool, Shape, ACTS, C};
use crate::net::*;
use crate::{both, ensure};

const ANY: NetOpt = NetOpt { max_layers: 5, min_layers: 1, acts: &ACTS, max_pool: true, vec: 70, img: 12 };
const TRAIN: NetOpt = NetOpt { max_layers: 5, min_layers: 2, acts: &ACTS, max_pool: true, vec: 70, img: 10 };

fn labels(specs: &[Spec], ctx: &mut Ctx) {
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Conv { .. })), "with convolution");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Reduce { .. })), "with pooling");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Flatten { .. })), "with flatten");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Dense { .. })), "with dense");
  ctx.label_if(specs.iter().any(|s| matches!(s, Spec::Flatten { .. })) && specs.iter().any(|s| matches!(s, Spec::Conv { .. })) && specs.iter().any(|s| matches!(s, Spec::Dense { .. })), "convolution, flatten and dense");
  ctx.label(match specs.len() { 0 | 1 => "1 layer", 2 => "2 layers", 3 => "3 layers", 4 => "4 layers", _ => "5 or more layers" });
}

// ---------- C16 ----------

fn random_spec(s: &mut Src) -> Spec {
  match s.u(4) {
    0 => { let i = s.tail(1, 6, 90); Spec::Dense { inputs: i, units: s.tail(1, 6, 90), act: Act::Tanh, method: Method::gen(s, i) } }
    1 => { let ch = s.tail(1, 4, 12); Spec::Conv { ch, filters: s.tail(1, 4, 12), kr: s.tail(1, 3, 14), kc: s.tail(1, 3, 14), act: Act::Tanh, method: Method::gen(s, ch) } }
    2 => { let (kr, kc, k) = odd_kernel(s); Spec::Reduce { ch: s.tail(1, 4, 20), br: 1, bc: s.range(1, 2), pool: Pool::MaxNorm, kr, kc, k } }
    _ => Spec::Flatten { n: s.tail(1, 3, 20), r: s.tail(1, 2, 70), c: s.tail(1, 3, 70) }
  }
}

fn uninitialised<T: Cx>(s: &mut Src, want: Option<&IOShape>) -> CLayer<T> {
  let mut seed = 5;
  match (s.u(3), want) {
    (0, _) => ConvCLayer::<T>::init(IOShape::Matrix(0), 0, [2, 2], act_of(Act::Tanh), Method::Uniform(1).lib(), &mut seed).unwrap().wrap(),
    (1, Some(IOShape::Scalar(n))) => DenseCLayer::<T>::init(IOShape::Scalar(*n), 0, act_of(Act::Tanh), Method::Uniform(1).lib(), &mut seed).unwrap().wrap(),
    (1, _) => DenseCLayer::<T>::init(IOShape::Scalar(3), 0, act_of(Act::Tanh), Method::Uniform(1).lib(), &mut seed).unwrap().wrap(),
    _ => DenseCLayer::<T>::init(IOShape::Scalar(0), 0, act_of(Act::Tanh), Method::Uniform(1).lib(), &mut seed).unwrap().wrap()
  }
}

fn assembly<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, chain) = gen_specs(s, &NetOpt { vec: 20, img: 8, ..ANY });
  let mut net = CNetwork::<T>::new();
  let mut accepted: Vec<Spec> = Vec::new();
  // features stay consistent as long as the planned chain is followed
  let mut sane = true;
  let mut next = 0;
  let mut seed = 1 + s.word() as u128;
  let x = io(input, &cvec::<T>(s, input.len(), 1.0));
  let mut log = vec![];
  let mut refused = 0;
  let predict = |net: &CNetwork<T>| -> Option<Vec<(u64, u64)>> { guarded(|| net.forward(&x).ok().map(|o| raw(&o))).unwrap_or(None) };
  for _ in 0..s.range(1, 14) {
    let before = if sane { predict(&net) } else { None };
    let cur = accepted.last().map(|a| a.out_shape());
    let as_input = if accepted.is_empty() { !s.one_in(4) } else { s.one_in(5) };
    let kind = s.u(6);
    let (layer, spec) = match kind {
      0 => (uninitialised::<T>(s, cur.as_ref()), None),
      1 | 2 => { let sp = random_spec(s); (fresh::<T>(&sp, None, &mut seed), Some(sp)) }
      _ => if next < chain.len() { let sp = chain[next].clone(); (fresh::<T>(&sp, None, &mut seed), Some(sp)) }
        else { let sp = random_spec(s); (fresh::<T>(&sp, None, &mut seed), Some(sp)) }
    };
    let planned = kind > 2 && next < chain.len();
    let ok = match &spec {
      None => false,
      Some(sp) => if as_input { accepted.is_empty() } else { cur == Some(sp.in_shape()) }
    };
    let name = spec.as_ref().map(|x| x.short()).unwrap_or("an uninitialised layer".into());
    let what = format!("{} {name} after {} layers", if as_input { "add_input" } else { "add" }, accepted.len());
    let res = guarded(|| if as_input { net.add_input(layer) } else { net.add(layer) }).map_err(|e| format!("{what}: panic {e}"))?;
    ensure!(res.is_ok() == ok, "{what} (output shape {:?}): {:?}, expected {}", cur, res, if ok { "success" } else { "an error" });
    log.push(format!("{what}{}", if ok { "" } else { " (refused)" }));
    if ok {
      if planned && next == accepted.len() { next += 1; } else { sane = false; }
      accepted.push(spec.unwrap());
    } else {
      refused += 1;
      if sane { ensure!(predict(&net) == before, "{what} was refused but changed the prediction"); }
    }
    // declared shapes and counts
    let (i, o) = (net.get_input_shape(), net.get_output_shape());
    match (accepted.first(), accepted.last()) {
      (Some(a), Some(b)) => {
        ensure!(i.as_ref().ok() == Some(&a.in_shape()), "{what}: input shape {:?}, expected {:?}", i, a.in_shape());
        ensure!(o.as_ref().ok() == Some(&b.out_shape()), "{what}: output shape {:?}, expected {:?}", o, b.out_shape());
      }
      _ => ensure!(i.is_err() && o.is_err(), "{what}: an empty network declares {:?} {:?}", i, o)
    }
    let count: usize = accepted.iter().map(|a| a.params().0 + a.params().1).sum();
    ensure!(net.params_len() == count, "{what}: {} parameters, expected {count}", net.params_len());
  }
  ctx.desc(|| log.join("; "));
  ctx.nt(accepted.len() >= 2);
  ctx.label_if(refused > 0, "with refusals");
  ctx.label_if(accepted.len() >= 3, "three or more accepted");
  Ok(())
}

// ---------- C17 ----------

fn prediction<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  if s.one_in(50) {
    let net = CNetwork::<T>::new();
    ctx.label("empty network"); ctx.nt(true);
    let x = IOType::Scalar(cvec::<T>(s, 3, 1.0));
    let k = s.u(3);
    ctx.desc(|| format!("{} empty network, index {k}", T::NAME));
    ensure!(guarded(|| net.forward(&x).is_err()).map_err(|e| format!("forward of an empty network panics: {e}"))?, "empty network predicts");
    ensure!(guarded(|| net.collect_acts(x.clone()).is_err()).map_err(|e| format!("collect_acts of an empty network panics: {e}"))?, "empty network has activations");
    ensure!(guarded(|| net.intercept(x.clone(), k).is_err()).map_err(|e| format!("intercept of an empty network panics: {e}"))?, "empty network can be intercepted");
    return Ok(());
  }
  let (input, specs) = gen_specs(s, &ANY);
  ctx.desc(|| format!("{} {}", T::NAME, describe(input, &specs)));
  labels(&specs, ctx);
  let b = build_net::<T>(s, input, specs)?;
  let n = b.specs.len();
  let out = b.model.out_shape();
  let rounds = s.range(1, 2);
  let mut last: Option<Vec<T>> = None;
  for _ in 0..rounds {
    let x = match last.take() {
      // an input much like the one before
      Some(mut x) if s.bool() => {
        let (i, j) = (s.u(x.len()), s.u(x.len()));
        if s.bool() { x.swap(i, j); } else { x[i] = T::mk(s.sym(1.5), s.sym(1.5)); }
        ctx.label("input like the one before");
        x
      }
      _ => { let a = gain(s, 30, 10); xvec::<T>(s, input.len(), 1.5 * a) }
    };
    last = Some(x.clone());
    let (want, ok) = b.model.acts(&cs(&x), T::EPS, None);
    let fx = io(input, &x);
    let first = b.net.forward(&fx).map_err(|e| format!("prediction refused: {e:?}"))?;
    if ok { compare(&unio(&first, out)?, &want[n], "prediction")?; ctx.nt(true); }
    else { unio(&first, out)?; ctx.label("too close to a discontinuity for values"); }
    ensure!(raw(&fx) == raw(&io(input, &x)), "prediction changed its input");
    // all activations
    let acts = b.net.collect_acts(io(input, &x)).map_err(|e| format!("collect_acts refused: {e:?}"))?;
    ensure!(acts.len() == n + 1, "{} activations for {n} layers", acts.len());
    ensure!(raw(&acts[0]) == raw(&fx), "first activation is not the input");
    for k in 0..=n { let g = unio(&acts[k], want[k].shape).map_err(|e| format!("activation {k}: {e}"))?; if ok { compare(&g, &want[k], "collected activation")?; } }
    // intercepting
    let mut cur = fx.clone();
    for k in 0..n {
      let (f, l) = b.net.intercept(io(input, &x), k).map_err(|e| format!("intercept at {k} of {n} refused: {e:?}"))?;
      let g = unio(&f, want[k].shape).map_err(|e| format!("intercepted features at {k}: {e}"))?;
      if ok { compare(&g, &want[k], "intercepted features")?; }
      ensure!(l.get_input_shape() == b.specs[k].in_shape() && l.get_output_shape() == b.specs[k].out_shape() && l.params_len() == b.specs[k].params(), "intercept at {k} returns the wrong layer");
      cur = l.foward(&f).map_err(|e| format!("layer {k} refused its input: {e:?}"))?;
      let g = unio(&cur, want[k + 1].shape)?;
      if ok { compare(&g, &want[k + 1], "output of the intercepted layer")?; }
    }
    let _ = cur;
    for k in [n, n + 1, n + s.u(100), usize::MAX] {
      let r = guarded(|| b.net.intercept(io(input, &x), k).is_err()).map_err(|e| format!("intercept at {k} of {n} layers panics: {e}"))?;
      ensure!(r, "intercept at {k} of {n} layers accepted");
    }
    // purity
    let t = cvec::<T>(s, out.len(), 1.0);
    let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
    let data = dataset(&vec![(x.clone(), t)], input, out);
    let bits_of = |v: T::Precision| T::pf(v).to_bits();
    let l1 = bits_of(b.net.loss(&data, &loss_of(loss)).map_err(|e| format!("loss refused: {e:?}"))?);
    let a1 = if matches!(out, Shape::Vec(_)) { Some(bits_of(b.net.max_pred_test(&data))) } else { None };
    let again = raw(&b.net.forward(&fx).map_err(|e| format!("{e:?}"))?);
    ensure!(again == raw(&first), "second prediction differs: {:?} then {:?}", raw(&first), again);
    let l2 = bits_of(b.net.loss(&data, &loss_of(loss)).map_err(|e| format!("{e:?}"))?);
    ensure!(l1 == l2, "second loss differs");
    if s.one_in(10) && !b.specs.iter().any(|x| matches!(x, Spec::Reduce { .. })) || s.one_in(40) {
      ctx.label("concurrent calls");
      let expect = raw(&first);
      let (net, fx, data) = (&b.net, &fx, &data);
      let shared = Shared(net);
      let bad = covrt::aside(|| std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4).map(|i| { let shared = &shared; let expect = &expect; sc.spawn(move || {
          for _ in 0..6 {
            let net = shared.0;
            let r = guarded(|| match i % 3 {
              0 => raw(&net.forward(fx).unwrap()) == *expect,
              1 => raw(net.collect_acts(fx.clone()).unwrap().last().unwrap()) == *expect || !ok,
              _ => T::pf(net.loss(data, &loss_of(loss)).unwrap()).to_bits() == l1
            });
            if r != Ok(true) { return true; }
          }
          false
        }) }).collect();
        hs.into_iter().any(|h| h.join().unwrap_or(true))
      }));
      ensure!(!bad, "concurrent calls gave different results");
    }
    if let Some(a) = a1 { ensure!(bits_of(b.net.max_pred_test(&data)) == a, "second accuracy differs"); }
    ensure!(raw(&b.net.forward(&fx).map_err(|e| format!("{e:?}"))?) == raw(&first), "prediction changed by evaluation");
  }
  Ok(())
}

struct Shared<'a, T>(&'a CNetwork<T>);
// the closures given to pooling layers here only read
unsafe impl<T> Sync for Shared<'_, T> {}

// ---------- C18 ----------

/// Compares the reference gradients with differences of the reference loss.
fn self_check(s: &mut Src, m: &Model, data: &[(Vec<C>, Vec<C>)], loss: Loss) {
  if m.layers.iter().any(|l| matches!(l, Layer::Reduce { .. })) { return; }
  if m.layers.iter().any(|l| l.act().is_some_and(|a| !SMOOTH.contains(&a))) { return; }
  let Some(st) = m.batch_grad(data, loss, 0.0, None) else { return };
  let mut b = s.bulk();
  let dir: Vec<Vec<C>> = st.dw.iter().map(|d| d.iter().map(|_| C::new(b.sym(1.0), b.sym(1.0))).collect()).collect();
  let nout = if loss == Loss::Mse { m.out_shape().len() as f64 } else { 1.0 };
  let total = |k: f64| -> f64 {
    let mut q = m.clone();
    for (l, d) in q.layers.iter_mut().zip(&dir) {
      if let Some((w, bb)) = l.params_mut() { for (z, d) in w.iter_mut().chain(bb.iter_mut()).zip(d) { *z = *z + d.scale(k); } }
    }
    q.mean_loss(data, loss) * data.len() as f64 * nout
  };
  let h = 1e-5;
  let num = (total(h) - total(-h)) / (2.0 * h);
  let ana: f64 = st.dw.iter().flatten().zip(dir.iter().flatten()).map(|(a, d)| 2.0 * (*a * *d).re).sum();
  let size: f64 = 1.0 + st.dw.iter().flatten().map(|a| a.abs()).sum::<f64>() + total(0.0).abs();
  if (num - ana).abs() > 1e-3 * size { harness_bug(&format!("reference gradients are wrong: {num} by differences, {ana} by the reference")); }
}

/// Compares every trainable layer of a network with the model.
fn compare_net<T: Cx>(s: &mut Src, net: &CNetwork<T>, m: &Model, we: &[Vec<f64>], what: &str) -> Res {
  let zero = vec![T::mk(0.5, 0.25); m.input.len()];
  for k in 0..m.layers.len() {
    if m.layers[k].params().0 == 0 { continue; }
    let (_, l) = net.intercept(io(m.input, &zero), k).map_err(|e| format!("intercept: {e:?}"))?;
    compare_layer(s, l, &m.layers[k], &we[k], &format!("{what}: layer {k}"))?;
  }
  Ok(())
}

fn batch_size(s: &mut Src, cost: usize) -> usize {
  if cost < 60 && s.one_in(60) { return s.range(1, 400); }
  let most = (2000 / cost.max(1)).clamp(2, 70);
  match s.u(10) { 0 => s.range(1, most), 1 => 1, 2 | 3 => s.range(1, most.min(16)), _ => s.range(1, 6) }
}

fn net_cost(specs: &[Spec]) -> usize { specs.iter().map(|x| x.params().0).sum::<usize>() / 4 + 4 }

fn training<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, specs) = gen_specs(s, &TRAIN);
  labels(&specs, ctx);
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  ctx.label(if loss == Loss::Ce { "cross entropy" } else { "mean square" });
  let n = batch_size(s, net_cost(&specs));
  let b = build_net::<T>(s, input, specs)?;
  let (mut net, mut m) = (b.net, b.model);
  let out = m.out_shape();
  let steps = if n <= 8 && s.one_in(30) { s.range(4, 14) } else { s.range(1, 3) };
  ctx.desc(|| format!("{} {loss:?} batch {n} steps {steps}: {}", T::NAME, describe(input, &b.specs)));
  let mut we = m.no_err();
  for k in 0..steps {
    let lr: T = match s.u(25) { 10 => T::default(), 11 => T::mk(-0.05 - s.unit() * 0.2, 0.0), 12 => T::unit(), 0..=4 => T::mk(s.sym(0.3), s.sym(0.3)), 20..=24 => T::mk(s.sym(3.0), s.sym(3.0)), 5..=9 => T::mk(0.0, 0.2), _ => T::mk(0.01 + s.unit() * 0.3, 0.0) };
    let onehot = loss == Loss::Ce && s.bool();
    let (xs, ts) = (gain(s, 20, 6), gain(s, 20, 10));
    let batch = scaled_batch::<T>(s, n, input, out, onehot, xs, ts);
    // a step of ordinary size for large values
    let lr = if xs.max(ts) > 1.0 { let q = 1.0 / (xs * ts).max(1.0); T::mk(lr.c().re * q, lr.c().im * q) } else { lr };
    let data = mbatch(&batch);
    if k == 0 && xs == 1.0 && ts == 1.0 && s.one_in(20) { self_check(s, &m, &data, loss); }
    let Some(st) = m.train(&data, loss, lr.c(), T::EPS, &mut we) else { if k == 0 { return ctx.discard(); } else { break; } };
    if we.iter().flatten().any(|e| !(*e < 0.05)) { if k == 0 { return ctx.discard(); } else { break; } }
    net.gradient_opt(dataset(&batch, input, out), &loss_of(loss), lr).map_err(|e| format!("training refused: {e:?}"))?;
    compare_net(s, &net, &m, &we, &format!("after step {}", k + 1))?;
    ctx.nt(st.dw.iter().flatten().any(|z| z.abs() > 1e-6));
    ctx.label_if(k > 0, "several steps");
  }
  ctx.label_if(n > 8, "batch above 8");
  Ok(())
}

// ---------- C19 ----------

/// Two networks respond alike, within twice the bounds of the model.
fn agree<T: Cx>(s: &mut Src, a: &CNetwork<T>, b: &CNetwork<T>, m: &Model, we: Option<&[Vec<f64>]>, what: &str) -> Res {
  let zero = vec![T::mk(0.5, 0.25); m.input.len()];
  for k in 0..m.layers.len() {
    if m.layers[k].params().0 == 0 { continue; }
    let (_, la) = a.intercept(io(m.input, &zero), k).map_err(|e| format!("{e:?}"))?;
    let (_, lb) = b.intercept(io(m.input, &zero), k).map_err(|e| format!("{e:?}"))?;
    let shape = match &m.layers[k] { Layer::Dense { inputs, .. } => Shape::Vec(*inputs), Layer::Conv { ch, kr, kc, .. } => Shape::Maps(*ch, *kr, *kc), _ => unreachable!() };
    let mut bulk = s.bulk();
    for p in 0..6 + shape.len().min(10) {
      let x: Vec<T> = if p < 6 { (0..shape.len()).map(|_| T::mk(bulk.sym(2.0), bulk.sym(2.0))).collect() }
        else { let i = if shape.len() <= 10 { p - 6 } else { bulk.u(shape.len()) }; (0..shape.len()).map(|j| if j == i { T::mk(2.0, -1.5) } else { T::default() }).collect() };
      let (want, _) = m.layers[k].forward(&Feat::exact(shape, cs(&x)), T::EPS, we.map(|w| &w[k][..]));
      let Some(oa) = lib_forward(la, &io(shape, &x), &want, what)? else { continue };
      let Some(ob) = lib_forward(lb, &io(shape, &x), &want, what)? else { continue };
      let (oa, ob) = (unio(&oa, want.shape)?, unio(&ob, want.shape)?);
      for i in 0..oa.len() {
        if we.is_none() { ensure!(oa[i].c() == ob[i].c(), "{what}: layer {k} output {i} is {:?} instead of {:?}", ob[i], oa[i]); }
        else if want.e[i].is_finite() { ensure!(oa[i].c().dist(ob[i].c()) <= 2.0 * want.e[i] + 1e-300, "{what}: layer {k} output {i} is {:?} and {:?}", oa[i], ob[i]); }
      }
    }
  }
  Ok(())
}

fn batches<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let which = s.u(6);
  if which == 5 {
    ctx.label("fewer than two layers"); ctx.nt(true);
    let (input, specs) = gen_specs(s, &NetOpt { max_layers: 1, min_layers: 1, ..ANY });
    let none = s.one_in(4);
    let mut b = build_net::<T>(s, input, if none { vec![] } else { specs })?;
    let out = b.model.out_shape();
    ctx.desc(|| format!("{} training {} layers", T::NAME, b.specs.len()));
    let batch = gen_batch::<T>(s, 2, input, out, false);
    let f = |net: &CNetwork<T>| batch.iter().map(|p| net.forward(&io(input, &p.0)).ok().map(|o| raw(&o))).collect::<Vec<_>>();
    let before = f(&b.net);
    let data = dataset(&batch, input, out);
    let r = guarded(|| b.net.gradient_opt(data, &loss_of(Loss::Mse), T::mk(0.1, 0.0)).is_err()).map_err(|e| format!("training {} layers panics: {e}", b.specs.len()))?;
    ensure!(r, "a network of {} layers trained", b.specs.len());
    ensure!(f(&b.net) == before, "refused training changed the network");
    return Ok(());
  }
  let (input, specs) = gen_specs(s, &TRAIN);
  labels(&specs, ctx);
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let n = batch_size(s, net_cost(&specs)).max(2);
  let copy = s.clone();
  let mut a = build_net::<T>(s, input, specs.clone())?;
  let mut b = build_net::<T>(&mut copy.clone(), input, specs.clone())?;
  let mut m = a.model.clone();
  let out = m.out_shape();
  let lr: T = match s.u(3) { 0 => T::mk(s.sym(0.3), s.sym(0.3)), _ => T::mk(0.05 + s.unit() * 0.3, 0.0) };
  let onehot = loss == Loss::Ce && s.bool();
  let batch = gen_batch::<T>(s, n, input, out, onehot);
  ctx.desc(|| format!("{} {loss:?} batch {n}, variant {which}: {}", T::NAME, describe(input, &specs)));
  match which {
    0..=2 => {
      let mut we = m.no_err();
      if m.train(&mbatch(&batch), loss, lr.c(), T::EPS, &mut we).is_none() || we.iter().flatten().any(|e| !(*e < 0.05)) { return ctx.discard(); }
      let other = if which == 2 {
        ctx.label("repetition");
        let k = s.range(2, 4);
        match s.u(2) { 0 => (0..k).flat_map(|_| batch.clone()).collect::<Batch<T>>(), _ => batch.iter().flat_map(|p| vec![p.clone(); k]).collect() }
      } else {
        ctx.label("order");
        let mut o = batch.clone();
        match s.u(3) { 0 => o.reverse(), 1 => o.rotate_left(1), _ => { for i in (1..o.len()).rev() { let j = s.u(i + 1); o.swap(i, j); } } }
        o
      };
      ctx.nt(true);
      a.net.gradient_opt(dataset(&batch, input, out), &loss_of(loss), lr).map_err(|e| format!("{e:?}"))?;
      b.net.gradient_opt(dataset(&other, input, out), &loss_of(loss), lr).map_err(|e| format!("{e:?}"))?;
      // rounding grows with the longer batch
      for e in we.iter_mut().flatten() { *e *= 4.0; }
      agree(s, &a.net, &b.net, &m, Some(&we), if which == 2 { "repeated batch" } else { "reordered batch" })?;
    }
    3 => {
      // a kink in the batch gives unbounded but finite derivatives; only finite ones are interesting
      ctx.label("zero learning rate"); ctx.nt(true);
      if m.batch_grad(&mbatch(&batch), loss, T::EPS, None).is_none() { return ctx.discard(); }
      b.net.gradient_opt(dataset(&batch, input, out), &loss_of(loss), T::default()).map_err(|e| format!("{e:?}"))?;
      agree(s, &a.net, &b.net, &m, None, "zero learning rate")?;
    }
    _ => {
      ctx.label("perfect targets"); ctx.nt(true);
      if m.batch_grad(&mbatch(&batch), Loss::Mse, T::EPS, None).is_none() { return ctx.discard(); }
      let mut perfect = Vec::new();
      for (x, _) in batch.iter() { perfect.push((x.clone(), unio(&a.net.forward(&io(input, x)).map_err(|e| format!("{e:?}"))?, out)?)); }
      b.net.gradient_opt(dataset(&perfect, input, out), &loss_of(Loss::Mse), lr).map_err(|e| format!("{e:?}"))?;
      agree(s, &a.net, &b.net, &m, None, "perfect targets")?;
    }
  }
  Ok(())
}

// ---------- C20 ----------

/// The interpolation kernel that makes a linear pool back-propagate its exact gradient.
fn matched_kernel(br: usize, bc: usize, co: &[f64]) -> (usize, usize, Vec<f64>) {
  let side = |b: usize| if b % 2 == 0 { b + 1 } else { b };
  let centre = |b: usize| if b % 2 == 0 { b / 2 - 1 } else { b / 2 };
  let (kr, kc) = (side(br), side(bc));
  let mut k = vec![0.0; kr * kc];
  for r in 0..br { for c in 0..bc { k[(centre(br) + kr / 2 - r) * kc + centre(bc) + kc / 2 - c] = co[r * bc + c]; } }
  (kr, kc, k)
}

fn descent<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, mut specs) = gen_specs(s, &NetOpt { max_pool: false, vec: 20, img: 8, ..TRAIN });
  for sp in specs.iter_mut() {
    if let Spec::Reduce { br, bc, pool: Pool::Linear(co), kr, kc, k, .. } = sp { let (a, b, c) = matched_kernel(*br, *bc, co); *kr = a; *kc = b; *k = c; }
  }
  labels(&specs, ctx);
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  ctx.label(if loss == Loss::Ce { "cross entropy" } else { "mean square" });
  let n = s.range(1, 5);
  let copy = s.clone();
  let a = build_net::<T>(s, input, specs.clone())?;
  let m = a.model.clone();
  let out = m.out_shape();
  let batch = gen_batch::<T>(s, n, input, out, loss == Loss::Ce);
  let data = mbatch(&batch);
  ctx.desc(|| format!("{} {loss:?} batch {n}: {}", T::NAME, describe(input, &specs)));
  let Some(st) = m.batch_grad(&data, loss, T::EPS, None) else { return ctx.discard() };
  let nf = n as f64;
  let nout = if loss == Loss::Mse { out.len() as f64 } else { 1.0 };
  let g2: f64 = st.dw.iter().flatten().map(|z| z.scale(1.0 / nf).abs2()).sum();
  let l0 = m.mean_loss(&data, loss);
  // reported slope per unit of learning rate
  let slope = 2.0 * g2 / nout;
  if !(slope > 1e-6 * l0.abs()) || !(l0.abs() > 1e-9) { ctx.label("gradient almost zero"); return ctx.discard(); }
  // the reference decides how small is small enough
  let (first, tries, ratio_tol) = if T::SINGLE { (3e-2, 3, 0.1) } else { (1e-3, 6, 0.1) };
  let mut lr = first * l0.abs() / slope;
  let mut found = None;
  for _ in 0..tries {
    // decrease and how far rounding may move it
    let at = |lr: f64| -> Option<(f64, f64)> {
      let mut q = m.clone();
      let mut we = q.no_err();
      q.train(&data, loss, C::new(lr, 0.0), T::EPS, &mut we)?;
      Some((l0 - q.mean_loss(&data, loss), m.loss_err(&data, loss, T::EPS, None) + q.loss_err(&data, loss, T::EPS, Some(&we))))
    };
    if let (Some((d1, e1)), Some((d2, e2))) = (at(lr), at(lr / 2.0)) {
      if (d1 / (slope * lr) - 1.0).abs() < 0.05 && (d2 / (slope * lr / 2.0) - 1.0).abs() < 0.05 {
        if e1 < 0.2 * d1 && e2 < 0.2 * d2 { found = Some((lr, e1, e2)); }
        break;
      }
    }
    lr /= 5.0;
  }
  let Some((lr, e1, e2)) = found else { ctx.label("no step size in range"); return ctx.discard() };
  ctx.nt(true);
  let mut drops = Vec::new();
  for (k, e) in [(1.0, e1), (0.5, e2)] {
    let mut b = build_net::<T>(&mut copy.clone(), input, specs.clone())?;
    let d = dataset(&batch, input, out);
    let before = T::pf(b.net.loss(&d, &loss_of(loss)).map_err(|e| format!("{e:?}"))?);
    b.net.gradient_opt(d.clone(), &loss_of(loss), T::mk(lr * k, 0.0)).map_err(|e| format!("training refused: {e:?}"))?;
    let after = T::pf(b.net.loss(&d, &loss_of(loss)).map_err(|e| format!("{e:?}"))?);
    let want = slope * lr * k;
    ensure!(after < before, "{loss:?} loss went from {before} to {after} with learning rate {}, expected a decrease of {want:e}", lr * k);
    ensure!((before - after - want).abs() <= ratio_tol * want + e, "{loss:?} loss decreased by {:e} with learning rate {}, expected {want:e}", before - after, lr * k);
    drops.push(before - after);
  }
  let r = drops[0] / drops[1];
  let noise = (e1 + 2.0 * e2) / drops[1];
  ensure!((r - 2.0).abs() <= 0.3 + noise, "halving the learning rate divides the decrease by {r}");
  Ok(())
}

// ---------- C21 ----------

fn evaluation<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let flat = s.one_in(3);
  let (input, specs) = if flat {
    // prediction equals input: ties can be placed exactly
    let (n, r, c) = (s.tail(1, 3, 12), s.tail(1, 3, 12), s.tail(1, 4, 12));
    (Shape::Maps(n, r, c), vec![Spec::Flatten { n, r, c }])
  } else { gen_specs(s, &ANY) };
  let n = match s.u(6) { 0 => 1, 1 => s.range(1, 70), _ if net_cost(&specs) < 60 && s.one_in(60) => s.range(1, 600), _ => s.range(1, 8) };
  ctx.desc(|| format!("{} batch {n}: {}", T::NAME, describe(input, &specs)));
  labels(&specs, ctx);
  let b = build_net::<T>(s, input, specs)?;
  let out = b.model.out_shape();
  let mut batch: Batch<T> = Vec::new();
  for _ in 0..n {
    let mut x = cvec::<T>(s, input.len(), 1.0);
    if flat && s.bool() {
      let (i, j) = (s.u(x.len()), s.u(x.len()));
      let big = T::mk(2.0, 1.0);
      x[i] = big; x[j] = [big, T::mk(1.0, 2.0), T::mk(-2.0, 1.0), T::mk(-1.0, -2.0)][s.u(4)];
      if s.one_in(6) { x = vec![T::default(); x.len()]; }
    }
    let t = match s.u(4) {
      0 => cvec::<T>(s, out.len(), 1.0),
      1 => { let mut t = cvec::<T>(s, out.len(), 1.0); let (i, j) = (s.u(t.len()), s.u(t.len())); t[i] = T::mk(3.0, 0.0); t[j] = T::mk(0.0, -3.0); t }
      2 => { // target at the predicted index
        let p = b.net.forward(&io(input, &x)).map_err(|e| format!("{e:?}"))?;
        unio(&p, out)?
      }
      _ => { let k = s.u(out.len()); (0..out.len()).map(|i| if i == k { T::unit() } else { T::default() }).collect() }
    };
    batch.push((x, t));
  }
  let preds: Vec<Vec<T>> = batch.iter().map(|(x, _)| unio(&b.net.forward(&io(input, x)).map_err(|e| format!("{e:?}"))?, out)).collect::<Result<_, String>>()?;
  let data = dataset(&batch, input, out);
  let nf = n as f64;
  for loss in [Loss::Mse, Loss::Ce] {
    let (mut want, mut tol) = (0.0, 0.0);
    for (p, (_, t)) in preds.iter().zip(&batch) {
      let (ct, cp) = (cs(t), cs(p));
      want += loss.val(&ct, &cp) / nf;
      let m = out.len() as f64;
      tol += T::EPS * match loss {
        Loss::Mse => 4.0 * (m + nf + 8.0) * ct.iter().zip(&cp).map(|(a, b)| (a.abs() + b.abs()).powi(2)).sum::<f64>() / m,
        Loss::Ce => 16.0 * (m + nf + 8.0) * ct.iter().map(|z| z.re.abs()).sum::<f64>() * (cp.iter().map(|z| z.abs2()).fold(0.0, f64::max) + m.ln() + 1.0)
      } / nf;
    }
    let got = T::pf(b.net.loss(&data, &loss_of(loss)).map_err(|e| format!("loss refused: {e:?}"))?);
    ensure!((got - want).abs() <= tol + 1e-30, "{loss:?} of {n} points is {got}, expected {want} (allowed {tol:e})");
    let mut o = batch.clone();
    o.reverse();
    let rev = T::pf(b.net.loss(&dataset(&o, input, out), &loss_of(loss)).map_err(|e| format!("{e:?}"))?);
    ensure!((rev - want).abs() <= tol + 1e-30, "{loss:?} of the reversed batch is {rev}, expected {want}");
  }
  ctx.nt(n > 1);
  if matches!(out, Shape::Vec(_)) {
    // index of the largest magnitude; None if rounding could decide
    let best = |v: &[T]| -> Option<usize> {
      let a: Vec<f64> = v.iter().map(|z| z.c().abs2()).collect();
      let mut k = 0;
      for i in 0..a.len() { if a[i] > a[k] { k = i; } }
      let key = |z: C| { let (x, y) = (z.re.abs(), z.im.abs()); if x < y { (x, y) } else { (y, x) } };
      let mut first = k;
      for i in 0..a.len() {
        if key(v[i].c()) == key(v[k].c()) { first = first.min(i); }
        else if a[k] - a[i] <= 32.0 * T::EPS * a[k] { return None; }
      }
      Some(first)
    };
    let mut hits = 0; let mut sure = true; let mut ties = false;
    for (p, (_, t)) in preds.iter().zip(&batch) {
      let tie = |v: &[T]| { let a: Vec<f64> = v.iter().map(|z| z.c().abs2()).collect(); let m = a.iter().cloned().fold(0.0, f64::max); a.iter().filter(|x| **x == m).count() > 1 };
      ties |= tie(p) || tie(t);
      match (best(p), best(t)) { (Some(i), Some(j)) => if i == j { hits += 1 }, _ => sure = false }
    }
    ctx.label_if(ties, "with ties");
    let got = guarded(|| T::pf(b.net.max_pred_test(&data))).map_err(|e| format!("accuracy panics: {e}"))?;
    if sure {
      ctx.label("accuracy compared");
      let want = hits as f64 / nf;
      ensure!((got - want).abs() <= 4.0 * T::EPS, "accuracy is {got}, expected {hits} of {n}");
    } else { ensure!((0.0..=1.0).contains(&got), "accuracy is {got}"); }
    let mut o = batch.clone();
    o.rotate_left(n / 2);
    let rot = T::pf(b.net.max_pred_test(&dataset(&o, input, out)));
    ensure!((rot - got).abs() <= 4.0 * T::EPS, "accuracy depends on the order: {got} and {rot}");
  }
  Ok(())
}

/// Losses that cannot be computed are refused.
fn no_loss<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, specs) = gen_specs(s, &ANY);
  let b = build_net::<T>(s, input, specs)?;
  let out = b.model.out_shape();
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  ctx.nt(true);
  if s.one_in(3) {
    ctx.label("empty batch");
    ctx.desc(|| format!("{} {loss:?} of an empty batch: {}", T::NAME, describe(input, &b.specs)));
    let r = guarded(|| b.net.loss(&dataset::<T>(&vec![], input, out), &loss_of(loss)).map(T::pf)).map_err(|e| format!("loss of an empty batch panics: {e}"))?;
    ensure!(r.is_err(), "loss of an empty batch is {r:?}");
  } else {
    ctx.label("target of another kind");
    let n = s.range(1, 6);
    let batch = gen_batch::<T>(s, n, input, out, false);
    let bad = s.u(n);
    ctx.desc(|| format!("{} {loss:?} with target {bad} of {n} of another kind: {}", T::NAME, describe(input, &b.specs)));
    let mut d = Dataset::new();
    for (i, (x, t)) in batch.iter().enumerate() {
      let t = match out {
        Shape::Vec(m) if i == bad => io(if s.bool() { Shape::Maps(1, 1, m) } else { Shape::Maps(1, m, 1) }, t),
        Shape::Maps(..) if i == bad => io(Shape::Vec(t.len()), t),
        _ => io(out, t)
      };
      d.add_point((io(input, x), t));
    }
    let r = guarded(|| b.net.loss(&d, &loss_of(loss)).map(T::pf)).map_err(|e| format!("loss with a target of another kind panics: {e}"))?;
    ensure!(r.is_err(), "loss with a target of another kind is {r:?}");
  }
  Ok(())
}

// ---------- C32 ----------

fn aborted<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (input, specs) = gen_specs(s, &TRAIN);
  labels(&specs, ctx);
  let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
  let mut b = build_net::<T>(s, input, specs)?;
  let out = b.model.out_shape();
  let lr: T = T::mk(0.05 + s.unit() * 0.3, s.sym(0.1));
  let n = s.range(1, 6);
  let batch = gen_batch::<T>(s, n, input, out, false);
  let f = |net: &CNetwork<T>| -> Result<Vec<Vec<(u64, u64)>>, String> {
    batch.iter().map(|p| guarded(|| net.forward(&io(input, &p.0))).map_err(|e| e.to_string())?.map(|o| raw(&o)).map_err(|e| format!("{e:?}"))).collect()
  };
  let before = f(&b.net);
  let mut d = Dataset::new();
  let kind = s.u(5);
  let bad = s.u(n);
  if kind == 0 {
    ctx.label("empty batch");
    ctx.desc(|| format!("{} training on an empty batch: {}", T::NAME, describe(input, &b.specs)));
  } else {
    // a maximum number of misfits: input of another kind or length, or target of another kind
    for (i, (x, t)) in batch.iter().enumerate() {
      let (mut x, mut t) = (io(input, x), io(out, t));
      if i == bad {
        match (kind, input) {
          (1, Shape::Vec(m)) => x = io(Shape::Maps(1, 1, m), &cvec::<T>(s, m, 1.0)),
          (1, Shape::Maps(k, r, c)) => x = io(Shape::Vec(k * r * c), &cvec::<T>(s, k * r * c, 1.0)),
          (2, Shape::Vec(m)) => { let k = if s.bool() { m + 1 } else { m - 1 }; x = io(Shape::Vec(k), &cvec::<T>(s, k, 1.0)); }
          (2, Shape::Maps(k, r, c)) => {
            if !matches!(b.specs[0], Spec::Conv { .. }) { return ctx.discard(); }
            let q = if s.bool() { k + 1 } else { k - 1 };
            x = io(Shape::Maps(q, r, c), &cvec::<T>(s, q * r * c, 1.0));
          }
          _ => match out {
            Shape::Vec(m) => t = io(Shape::Maps(1, 1, m), &cvec::<T>(s, m, 1.0)),
            Shape::Maps(k, r, c) => t = io(Shape::Vec(k * r * c), &cvec::<T>(s, k * r * c, 1.0))
          }
        }
      }
      d.add_point((x, t));
    }
    ctx.label(match kind { 1 => "input of another kind", 2 => "input of another size", _ => "target of another kind" });
    ctx.label_if(bad + 1 == n && n > 1, "last point");
    ctx.desc(|| format!("{} {loss:?} misfit {kind} at {bad} of {n}: {}", T::NAME, describe(input, &b.specs)));
  }
  ctx.nt(true);
  let net = &mut b.net;
  let r = guarded(|| net.gradient_opt(d, &loss_of(loss), lr).is_ok());
  if kind > 0 { ensure!(r != Ok(true), "training on a point that does not fit reported success"); }
  else if let Err(e) = &r { return Err(format!("training on an empty batch panics: {e}")); }
  let after = f(&b.net);
  ensure!(before == after, "a training step that could not be carried out changed the predictions: {before:?} became {after:?}");
  // and the network still trains
  if s.one_in(4) {
    let mut m = b.model.clone();
    let mut we = m.no_err();
    if m.train(&mbatch(&batch), loss, lr.c(), T::EPS, &mut we).is_some() && we.iter().flatten().all(|e| *e < 0.05) {
      ctx.label("trained afterwards");
      b.net.gradient_opt(dataset(&batch, input, out), &loss_of(loss), lr).map_err(|e| format!("training afterwards refused: {e:?}"))?;
      compare_net(s, &b.net, &m, &we, "trained afterwards")?;
    }
  }
  Ok(())
}

// ---------- C29 ----------

/// A training run that can be carried out step by step; everything it does is decoded from the source.
struct Run<T> { s: Src, input: Shape, out: Shape, loss: Loss, lr: T, steps: usize, net: CNetwork<T>, obs: Vec<u64> }

impl<T: Cx> Run<T> {
  fn start(s: &Src) -> Result<Run<T>, String> {
    let mut s = s.clone();
    let (input, specs) = gen_specs(&mut s, &NetOpt { vec: 40, img: 9, ..TRAIN });
    let loss = if s.bool() { Loss::Ce } else { Loss::Mse };
    let b = build_net::<T>(&mut s, input, specs)?;
    let out = b.model.out_shape();
    let steps = s.range(2, 4);
    let lr = T::mk(0.02 + 0.1 * s.unit(), s.sym(0.05));
    Ok(Run { s, input, out, loss, lr, steps, net: b.net, obs: Vec::new() })
  }

  fn step(&mut self) -> Res {
    if self.steps == 0 { return Ok(()); }
    self.steps -= 1;
    let n = self.s.range(1, 5);
    let batch = gen_batch::<T>(&mut self.s, n, self.input, self.out, false);
    let d = dataset(&batch, self.input, self.out);
    self.net.gradient_opt(d.clone(), &loss_of(self.loss), self.lr).map_err(|e| format!("{e:?}"))?;
    self.obs.push(T::pf(self.net.loss(&d, &loss_of(self.loss)).map_err(|e| format!("{e:?}"))?).to_bits());
    if let Shape::Vec(_) = self.out { self.obs.push(T::pf(self.net.max_pred_test(&d)).to_bits()); }
    for (x, _) in batch.iter() { for (p, q) in raw(&self.net.forward(&io(self.input, x)).map_err(|e| format!("{e:?}"))?) { self.obs.push(p); self.obs.push(q); } }
    Ok(())
  }
}

fn run_of<T: Cx>(s: &Src, shared: Option<usize>) -> Result<Vec<u64>, String> {
  let mut r = Run::<T>::start(s)?;
  while r.steps > 0 {
    r.step()?;
    if shared.is_some() { std::thread::yield_now(); }
  }
  Ok(r.obs)
}

fn reproducible<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let base = s.clone();
  let first = run_of::<T>(&base, None)?;
  {
    let mut q = base.clone();
    let (input, specs) = gen_specs(&mut q, &NetOpt { vec: 40, img: 9, ..TRAIN });
    labels(&specs, ctx);
    ctx.desc(|| format!("{} {}", T::NAME, describe(input, &specs)));
    // distinct cases are told apart by everything the run consumes
    for _ in 0..8 { s.word(); }
  }
  ctx.nt(first.iter().any(|b| *b != 0));
  let again = run_of::<T>(&base, None)?;
  ensure!(first == again, "a second run from the same seed differs");
  if s.one_in(6) {
    ctx.label("on several threads");
    let results: Vec<Result<Vec<u64>, String>> = covrt::aside(|| std::thread::scope(|sc| {
      let hs: Vec<_> = (0..4).map(|i| { let base = base.clone(); sc.spawn(move || guarded(|| run_of::<T>(&base, Some(i))).and_then(|r| r)) }).collect();
      hs.into_iter().map(|h| h.join().unwrap_or(Err("thread died".into()))).collect()
    }));
    for r in results { ensure!(r? == first, "a run on another thread differs"); }
  }
  if s.one_in(6) {
    ctx.label("on the library's thread pool");
    let mut results: Vec<Result<Vec<u64>, String>> = (0..3).map(|_| Err("not run".into())).collect();
    let mut built = Run::<T>::start(&base)?;
    covrt::aside(|| rayon::scope(|sc| {
      for r in results.iter_mut() { let base = base.clone(); sc.spawn(move |_| *r = guarded(|| run_of::<T>(&base, None)).and_then(|r| r)); }
      // built here, trained there
      sc.spawn(|_| { let r = guarded(|| { while built.steps > 0 { built.step()?; } Ok(()) }).and_then(|r| r); if let Err(e) = r { built.obs = vec![]; built.steps = 0; let _ = e; } });
    }));
    for r in results { ensure!(r? == first, "a run on the thread pool differs"); }
    ensure!(built.obs == first, "training a network on another thread than it was built on differs");
  }
  if s.one_in(3) {
    // other networks built and trained in between do not matter, nor does what becomes of them
    ctx.label("interleaved with another network");
    let mut q = s.clone();
    let twin = q.bool();
    let mut a = Run::<T>::start(&base)?;
    let mut b = Run::<T>::start(if twin { &base } else { &q })?;
    let alone = if twin { first.clone() } else { run_of::<T>(&q, None)? };
    let mut b = Some({ b.obs.reserve(64); b });
    let (mut after, leave) = (None, q.one_in(3));
    while a.steps > 0 || b.as_ref().map_or(false, |b| b.steps > 0) {
      a.step()?;
      if let Some(r) = b.as_mut() { r.step()?; if r.steps == 0 { after = Some(r.obs.clone()); } }
      if leave && after.is_some() { b = None; }
    }
    ensure!(a.obs == first, "a run next to another network differs");
    if let Some(o) = after { ensure!(o == alone, "the other network's run differs"); }
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let _ = std::marker::PhantomData::<Cf64>;
  let mut out = Vec::new();
  let mut v = Vec::new();
  both!(v, "assembly", assembly, 800_000, 20_000_000);
  out.push(Prop { id: "C16", rule: "histories of 1..14 additions (input or inner; planned, random, incompatible and uninitialised layers); non-trivial: at least two accepted layers", assumptions: &["layers with some but not all dimensions zero are not built"], subs: v });
  let mut v = Vec::new();
  both!(v, "prediction", prediction, 120_000, 3_000_000);
  out.push(Prop { id: "C17", rule: "random chains of 1..5 layers with random parameters, every activation, interception at every index and beyond, repeated and concurrent evaluation; non-trivial: values compared with the reference", assumptions: &["input fits the network"], subs: v });
  let mut v = Vec::new();
  both!(v, "step", training, 75_000, 1_875_000);
  out.push(Prop { id: "C18", rule: "random chains of 2..5 layers, both losses, batches of 1..70, real and complex learning rates up to 3, 1..3 (rarely 14) steps, zero, sparse, constant, real and imaginary inputs and targets among random ones; every parameter compared through single-input responses; non-trivial: a gradient entry above 1e-6", assumptions: &["pre-activations away from kinks and ambiguous maxima", "interpolation kernels real"], subs: v });
  let mut v = Vec::new();
  both!(v, "batches", batches, 100_000, 2_500_000);
  out.push(Prop { id: "C19", rule: "as C18 with permuted and repeated batches, zero learning rate, targets equal to predictions, and networks of 0 or 1 layers; every kept case is non-trivial", assumptions: &["pre-activations away from kinks"], subs: v });
  let mut v = Vec::new();
  both!(v, "descent", descent, 80_000, 2_000_000);
  out.push(Prop { id: "C20", rule: "random chains of 2..5 layers (linear pools with their exact kernel), both losses, learning rate where the reference is in its linear regime; non-trivial: such a rate exists", assumptions: &["pooling layers only with the interpolation kernel that is their exact adjoint"], subs: v });
  let mut v = Vec::new();
  both!(v, "evaluation", evaluation, 160_000, 4_000_000);
  both!(v, "refusals", no_loss, 40_000, 1_000_000);
  out.push(Prop { id: "C21", rule: "random chains and identity networks with placed ties, batches of 1..70, both losses, accuracy for vector outputs; empty batches and targets of another kind; non-trivial: more than one point", assumptions: &["accuracy only of batches that are not empty", "accuracy only where rounding cannot decide the index"], subs: v });
  let mut v = Vec::new();
  both!(v, "runs", reproducible, 30_000, 750_000);
  out.push(Prop { id: "C29", rule: "random chain, seed and 2..4 training steps run twice, on four threads, and next to another network; non-trivial: observations not all zero", assumptions: &[], subs: v });
  let mut v = Vec::new();
  both!(v, "aborted", aborted, 100_000, 2_500_000);
  out.push(Prop { id: "C32", rule: "random chains of 2..5 layers, batches of 1..6 with one point of another kind or size at any position, empty batches; predictions compared bitwise, later training compared with the reference; every kept case is non-trivial", assumptions: &["an error and a panic both count as not carried out"], subs: v });
  out
}
