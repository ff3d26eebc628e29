//! C11..C15, C28 and C31: layers on their own.

use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::CLayer;
use renplex::init::InitMethod;
use renplex::math::matrix::Matrix;
use renplex::input::{IOShape, IOType};

use crate::core::{guarded, Ctx, Prop, Res, Src};
use crate::cx::{cvec, gain, xvec, Cx};
use crate::model::{Feat, Grads, Layer, Pool, Shape, ACTS, C};
use crate::net::*;
use crate::{both, ensure};

fn dense_spec(s: &mut Src) -> Spec {
  let (inputs, units) = if s.one_in(100) { (s.range(300, 1300), s.range(1, 2)) } else { match s.u(8) { 0 => (s.size(300), s.range(1, 4)), 1 => (s.range(1, 4), s.size(300)), 2 => (s.size(70), s.size(70)), _ => (s.range(1, 8), s.range(1, 8)) } };
  Spec::Dense { inputs, units, act: s.pick(&ACTS), method: Method::gen(s, inputs) }
}

/// A convolution and an image it fits.
fn conv_spec(s: &mut Src) -> (Spec, Shape) {
  if s.one_in(100) {
    // the size of a digit or a small photograph
    let (ch, filters, k) = (s.range(1, 3), s.range(1, 4), s.pick(&[3usize, 5, 3, 7]));
    let (r, c) = if s.bool() { (28, 28) } else { (s.range(20, 40), s.range(20, 40)) };
    return (Spec::Conv { ch, filters, kr: k, kc: k, act: s.pick(&ACTS), method: Method::gen(s, ch * k * k) }, Shape::Maps(ch, r, c));
  }
  let ch = s.tail(1, 4, 20); let filters = s.tail(1, 4, 20);
  let (kr, kc) = if s.one_in(4) { let k = s.tail(1, 4, 9); (k, k) } else { (s.tail(1, 5, 12), s.tail(1, 5, 12)) };
  let extra = |s: &mut Src| match s.u(8) { 0 => 0, 1 => s.u(20), _ => s.u(5) };
  let (mut r, mut c) = (kr + extra(s), kc + extra(s));
  // keeps the largest combinations affordable
  while ch * filters * kr * kc * (r + 1 - kr) * (c + 1 - kc) > 60_000 && (r > kr || c > kc) { r = kr + (r - kr) / 2; c = kc + (c - kc) / 2; }
  (Spec::Conv { ch, filters, kr, kc, act: s.pick(&ACTS), method: Method::gen(s, ch * kr * kc) }, Shape::Maps(ch, r, c))
}

fn reduce_spec(s: &mut Src) -> (Spec, Shape) {
  let ch = s.tail(1, 4, 20);
  let (br, bc) = if s.one_in(3) { let b = s.tail(1, 4, 12); (b, b) } else { (s.tail(1, 5, 12), s.tail(1, 5, 12)) };
  let (nr, nc) = (s.tail(1, 5, 14), s.tail(1, 5, 14));
  let (kr, kc, k) = odd_kernel(s);
  let pool = if s.one_in(4) { Pool::MaxNorm } else { Pool::Linear((0..br * bc).map(|_| s.sym(1.0)).collect()) };
  (Spec::Reduce { ch, br, bc, pool, kr, kc, k }, Shape::Maps(ch, nr * br, nc * bc))
}

fn fan(sp: &Spec) -> f64 { match sp { Spec::Dense { inputs, .. } => *inputs as f64, Spec::Conv { ch, kr, kc, .. } => (ch * kr * kc) as f64, _ => 1.0 } }

/// Declared shapes and parameter counts.
fn declared<T: Cx>(l: &CLayer<T>, sp: &Spec) -> Res {
  ensure!(l.get_input_shape() == sp.in_shape(), "declared input shape {:?} instead of {:?}", l.get_input_shape(), sp.in_shape());
  ensure!(l.get_output_shape() == sp.out_shape(), "declared output shape {:?} instead of {:?}", l.get_output_shape(), sp.out_shape());
  ensure!(l.params_len() == sp.params(), "parameter counts {:?} instead of {:?}", l.params_len(), sp.params());
  ensure!(!l.is_empty(), "initialised layer claims to be empty");
  ensure!(l.propagates() == !matches!(sp, Spec::Flatten { .. }), "propagates is {}", l.propagates());
  Ok(())
}

fn forward_check<T: Cx>(l: &CLayer<T>, m: &Layer, shape: Shape, x: &[T], what: &str) -> Res {
  let (want, _) = m.forward(&Feat::exact(shape, crate::net::cs(x)), T::EPS, None);
  let Some(out) = lib_forward(l, &io(shape, x), &want, what)? else { return Ok(()) };
  let got = unio(&out, want.shape).map_err(|e| format!("{what}: {e}"))?;
  compare(&got, &want, what)
}

fn trainable_forward<T: Cx>(s: &mut Src, ctx: &mut Ctx, sp: Spec, shape: Shape) -> Res {
  ctx.desc(|| format!("{} {} on {shape:?}", T::NAME, sp.short()));
  let (nw, nb) = sp.params();
  let mut seed = if s.one_in(4) { gen_seed(s) } else { s.word() as u128 };
  let start = seed;
  let scale = 1.0 / fan(&sp).sqrt();
  let mut l = fresh::<T>(&sp, None, &mut seed);
  let mut p = Params { w: probe_weights::<T>(&sp, start)?, b: vec![T::default(); nb] };
  ensure!(p.w.iter().all(|z| z.c().is_finite()), "initial weights not finite: {:?}", p.w);
  declared(&l, &sp)?;
  let rounds = if s.one_in(30) { s.range(4, 40) } else { s.u(4) };
  let a = gain(s, 30, 12);
  let mut xs: Vec<Vec<T>> = (0..s.range(1, 2)).map(|_| xvec::<T>(s, shape.len(), 2.0 * a)).collect();
  // an input that differs in one place only
  if s.one_in(4) { let mut x = xs[0].clone(); let i = s.u(x.len()); x[i] = T::mk(s.sym(2.0 * a), s.sym(2.0 * a)); xs.push(x); }
  let scale = scale * gain(s, 10, 6);
  for k in 0..=rounds {
    let m = to_model(&sp, &p);
    for x in xs.iter() { forward_check(&l, &m, shape, x, &format!("output after {k} adjustments"))?; }
    if k < rounds {
      let dw = xvec::<T>(s, nw, scale); let db = xvec::<T>(s, nb, scale);
      adjust(&mut l, &mut p, dw, db)?;
    }
  }
  declared(&l, &sp)?;
  // every parameter on its own, through unit inputs of the linear twin moved by the same adjustments
  compare_layer(s, &l, &to_model(&sp, &p), &vec![0.0; nw + nb], "single-input response")?;
  ctx.nt(nw > 1);
  ctx.label_if(rounds == 0, "as initialised");
  ctx.label_if(rounds > 0, "adjusted");
  Ok(())
}

fn dense_forward<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let sp = dense_spec(s);
  let Spec::Dense { inputs, units, .. } = sp.clone() else { unreachable!() };
  ctx.label_if(inputs > 64 || units > 64, "more than 64 wide");
  trainable_forward::<T>(s, ctx, sp.clone(), Shape::Vec(inputs))?;
  // maps are refused, whatever they hold
  let l = fresh::<T>(&sp, None, &mut 7);
  let maps = io(Shape::Maps(1, 1, inputs), &cvec::<T>(s, inputs, 1.0));
  let res = guarded(|| l.foward(&maps)).map_err(|e| format!("maps given to a dense layer: panic {e}"))?;
  ensure!(res.is_err(), "maps accepted by a dense layer");
  let many = io(Shape::Maps(inputs, 1, 1), &cvec::<T>(s, inputs, 1.0));
  ensure!(guarded(|| l.foward(&many)).map_err(|e| format!("maps given to a dense layer: panic {e}"))?.is_err(), "maps accepted by a dense layer");
  Ok(())
}

fn conv_forward<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (sp, shape) = conv_spec(s);
  let Spec::Conv { ch, kr, kc, .. } = sp.clone() else { unreachable!() };
  ctx.label_if(kr != kc, "non-square kernel");
  ctx.label_if(ch > 1, "several channels");
  trainable_forward::<T>(s, ctx, sp.clone(), shape)?;
  let l = fresh::<T>(&sp, None, &mut 7);
  let v = IOType::Scalar(cvec::<T>(s, shape.len(), 1.0));
  ensure!(guarded(|| l.foward(&v)).map_err(|e| format!("vector given to a convolution: panic {e}"))?.is_err(), "vector accepted by a convolution");
  let wrong = match s.u(4) { 0 => ch - 1, 1 => ch * 2, 2 => 0, _ => ch + 1 };
  if wrong != ch {
    let (_, r, c) = shape.maps();
    let x = io(Shape::Maps(wrong, r, c), &cvec::<T>(s, wrong * r * c, 1.0));
    let res = guarded(|| l.foward(&x)).map_err(|e| format!("{wrong} channels given to a convolution of {ch}: panic {e}"))?;
    ensure!(res.is_err(), "{wrong} channels accepted by a convolution of {ch}");
  }
  Ok(())
}

fn pool_flatten<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  if s.one_in(3) {
    let (n, r, c) = (s.tail(1, 5, 20), s.tail(1, 7, 30), s.tail(1, 7, 30));
    let sp = Spec::Flatten { n, r, c };
    ctx.desc(|| format!("{} {}", T::NAME, sp.short()));
    ctx.nt(n > 1 && r * c > 1);
    ctx.label("flatten");
    let l = fresh::<T>(&sp, None, &mut 1);
    declared(&l, &sp)?;
    let x = cvec::<T>(s, n * r * c, 2.0);
    let out = l.foward(&io(Shape::Maps(n, r, c), &x)).map_err(|e| format!("maps refused: {e:?}"))?;
    let got = unio(&out, Shape::Vec(n * r * c))?;
    ensure!(bits(&got) == bits(&x), "flatten of {n}x{r}x{c} gives {:?}, expected {:?}", got, x);
    ensure!(guarded(|| l.foward(&IOType::Scalar(x.clone()))).map_err(|e| format!("vector given to flatten: panic {e}"))?.is_err(), "vector accepted by flatten");
    return Ok(());
  }
  let (sp, shape) = reduce_spec(s);
  let Spec::Reduce { ch, br, bc, pool, kr, kc, .. } = sp.clone() else { unreachable!() };
  let (_, r, c) = shape.maps();
  ctx.desc(|| format!("{} {} on {shape:?}", T::NAME, sp.short()));
  ctx.nt(br * bc > 1 && ch * r * c > br * bc);
  ctx.label(if pool == Pool::MaxNorm { "maximum pool" } else { "linear pool" });
  ctx.label_if(kr != kc, "non-square kernel");
  ctx.label_if(br != bc, "non-square block");
  let l = fresh::<T>(&sp, None, &mut 1);
  let m = to_model::<T>(&sp, &Params { w: vec![], b: vec![] });
  declared(&l, &sp)?;
  let x = xvec::<T>(s, shape.len(), 2.0);
  let fx = Feat::exact(shape, cs(&x));
  let (want, ok) = m.forward(&fx, T::EPS, None);
  if ok { forward_check(&l, &m, shape, &x, "pooled output")?; }
  ensure!(guarded(|| l.foward(&IOType::Scalar(x.clone()))).map_err(|e| format!("vector given to pooling: panic {e}"))?.is_err(), "vector accepted by pooling");
  // backwards; both gradients are independent inputs
  let n = want.v.len();
  let g = xvec::<T>(s, n, 1.0);
  let gc: Vec<T> = if s.bool() { g.iter().map(|z| T::of(z.c().conj())).collect() } else { cvec::<T>(s, n, 1.0) };
  let (dw, db, dx, dxc) = l.compute_derivatives(&io(shape, &x), g.clone(), gc.clone()).map_err(|e| format!("derivatives refused: {e:?}"))?;
  ensure!(dw.is_empty() && db.is_empty(), "pooling returned {} and {} parameter derivatives", dw.len(), db.len());
  for (name, up, got) in [("gradient", &g, &dx), ("conjugate gradient", &gc, &dxc)] {
    let gr = m.backward(&fx, &cs(up), &vec![0.0; n], T::EPS, None).unwrap();
    ensure!(got.len() == gr.x.len(), "{name} has {} entries instead of {}", got.len(), gr.x.len());
    compare(got, &Feat { shape: Shape::Vec(gr.x.len()), v: gr.x, e: gr.xe }, name)?;
  }
  Ok(())
}

/// Maps of different sizes are each treated on their own.
fn uneven<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (mut sp, shape) = reduce_spec(s);
  let Spec::Reduce { ch, br, bc, .. } = &mut sp else { unreachable!() };
  *ch = s.tail(2, 4, 12);
  let (n, br, bc) = (*ch, *br, *bc);
  let (_, r, c) = shape.maps();
  let shapes: Vec<Shape> = (0..n).map(|_| if s.one_in(3) { Shape::Maps(1, r, c) } else { Shape::Maps(1, br * s.tail(1, 4, 9), bc * s.tail(1, 4, 9)) }).collect();
  ctx.nt(shapes.iter().any(|x| *x != shapes[0]));
  let flat = s.one_in(4);
  ctx.label(if flat { "flatten" } else { "pooling" });
  ctx.desc(|| format!("{} {} on {shapes:?}", T::NAME, if flat { "Flatten".into() } else { sp.short() }));
  let xs: Vec<Vec<T>> = shapes.iter().map(|x| xvec::<T>(s, x.len(), 2.0)).collect();
  let all = IOType::Matrix(xs.iter().zip(&shapes).map(|(x, sh)| { let (_, r, c) = sh.maps(); Matrix::from_body(x.clone(), [r, c]) }).collect());
  if flat {
    let l = fresh::<T>(&Spec::Flatten { n, r, c }, None, &mut 1);
    let out = l.foward(&all).map_err(|e| format!("maps refused: {e:?}"))?;
    let want = xs.concat();
    ensure!(bits(&unio(&out, Shape::Vec(want.len()))?) == bits(&want), "flatten of maps {shapes:?} is not their concatenation");
    return Ok(());
  }
  let l = fresh::<T>(&sp, None, &mut 1);
  let m = to_model::<T>(&sp, &Params { w: vec![], b: vec![] });
  let got = l.foward(&all).map_err(|e| format!("maps refused: {e:?}"))?;
  let IOType::Matrix(got) = got else { return Err("pooling returned a vector".into()) };
  ensure!(got.len() == n, "{} maps instead of {n}", got.len());
  let feats: Vec<Feat> = xs.iter().zip(&shapes).map(|(x, sh)| Feat::exact(*sh, cs(x))).collect();
  let mut sizes = Vec::new();
  for (i, (f, g)) in feats.iter().zip(got).enumerate() {
    let (want, ok) = m.forward(f, T::EPS, None);
    let v = unio(&IOType::Matrix(vec![g]), want.shape).map_err(|e| format!("map {i}: {e}"))?;
    sizes.push(v.len());
    if ok { compare(&v, &want, &format!("map {i} of the pooled output"))?; }
  }
  let gs: Vec<Vec<T>> = sizes.iter().map(|k| xvec::<T>(s, *k, 1.0)).collect();
  let gcs: Vec<Vec<T>> = sizes.iter().map(|k| cvec::<T>(s, *k, 1.0)).collect();
  let (dw, db, dx, dxc) = guarded(|| l.compute_derivatives(&all, gs.concat(), gcs.concat()).map_err(|e| format!("derivatives refused: {e:?}"))).map_err(|e| format!("derivatives: panic {e}"))??;
  ensure!(dw.is_empty() && db.is_empty(), "pooling returned {} and {} parameter derivatives", dw.len(), db.len());
  for (name, ups, got) in [("gradient", &gs, &dx), ("conjugate gradient", &gcs, &dxc)] {
    let total: usize = shapes.iter().map(|x| x.len()).sum();
    ensure!(got.len() == total, "{name} has {} entries instead of {total}", got.len());
    let mut at = 0;
    for (i, (f, up)) in feats.iter().zip(ups).enumerate() {
      let gr = m.backward(f, &cs(up), &vec![0.0; up.len()], T::EPS, None).unwrap();
      let k = gr.x.len();
      compare(&got[at..at + k], &Feat { shape: Shape::Vec(k), v: gr.x, e: gr.xe }, &format!("{name} of map {i}"))?;
      at += k;
    }
  }
  Ok(())
}

fn grads_check<T: Cx>(got: (Vec<T>, Vec<T>, Vec<T>, Vec<T>), gr: Grads) -> Res {
  let (dw, db, dx, dxc) = got;
  let conj: Vec<C> = gr.x.iter().map(|z| z.conj()).collect();
  for (name, g, v, e) in [("weight derivative", &dw, gr.w, gr.we), ("bias derivative", &db, gr.b, gr.be),
    ("input gradient", &dx, gr.x, gr.xe.clone()), ("conjugate input gradient", &dxc, conj, gr.xe)] {
    ensure!(g.len() == v.len(), "{name} has {} entries instead of {}", g.len(), v.len());
    compare(g, &Feat { shape: Shape::Vec(v.len()), v, e: e.iter().map(|x| 2.0 * x).collect() }, name)?;
  }
  Ok(())
}

fn backprop<T: Cx>(s: &mut Src, ctx: &mut Ctx, sp: Spec, shape: Shape) -> Result<Option<CLayer<T>>, String> {
  ctx.desc(|| format!("{} {} on {shape:?}", T::NAME, sp.short()));
  let mut seed = s.word() as u128;
  let (l, p) = build_layer::<T>(s, &sp, &mut seed, 1.0 / fan(&sp).sqrt())?;
  let m = to_model(&sp, &p);
  let x = { let a = gain(s, 30, 12); xvec::<T>(s, shape.len(), 1.5 * a) };
  let fx = Feat::exact(shape, cs(&x));
  let n = m.out_shape(shape).len();
  let g = { let a = gain(s, 40, 20); xvec::<T>(s, n, a) };
  let gc: Vec<T> = g.iter().map(|z| T::of(z.c().conj())).collect();
  let Some(gr) = m.backward(&fx, &cs(&g), &vec![0.0; n], T::EPS, None) else { return Ok(None) };
  let got = l.compute_derivatives(&io(shape, &x), g.clone(), gc).map_err(|e| format!("derivatives refused: {e:?}"))?;
  grads_check(got, gr)?;
  ctx.nt(sp.params().0 > 1);
  Ok(Some(l))
}

fn act_label(sp: &Spec, ctx: &mut Ctx) {
  if let Spec::Dense { act, .. } | Spec::Conv { act, .. } = sp {
    ctx.label(match act { crate::model::Act::None => "identity", crate::model::Act::ModZ => "z/|z|", crate::model::Act::Sigmoid => "sigmoid", crate::model::Act::Tanh => "tanh", crate::model::Act::Relu => "relu", crate::model::Act::ZRelu => "zrelu", crate::model::Act::Cardioid => "cardioid" });
  }
}

fn dense_backprop<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let sp = dense_spec(s);
  let Spec::Dense { inputs, units, .. } = sp.clone() else { unreachable!() };
  let Some(l) = backprop::<T>(s, ctx, sp.clone(), Shape::Vec(inputs))? else { return ctx.discard() };
  act_label(&sp, ctx);
  let x = IOType::Scalar(cvec::<T>(s, inputs, 1.0));
  let bad = match s.u(3) { 0 => units + 1, 1 => units - 1, _ => 2 * units };
  let (na, nb) = match s.u(3) { 0 => (bad, units), 1 => (units, bad), _ => (bad, bad) };
  let (a, b) = (cvec::<T>(s, na, 1.0), cvec::<T>(s, nb, 1.0));
  let res = guarded(|| l.compute_derivatives(&x, a, b).is_err()).map_err(|e| format!("gradients of length {na} and {nb} for {units} units: panic {e}"))?;
  ensure!(res, "gradients of length {na} and {nb} accepted for {units} units");
  Ok(())
}

fn conv_backprop<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (sp, shape) = conv_spec(s);
  let Spec::Conv { ch, filters, kr, kc, .. } = sp.clone() else { unreachable!() };
  if backprop::<T>(s, ctx, sp.clone(), shape)?.is_none() { return ctx.discard(); }
  act_label(&sp, ctx);
  ctx.label_if(kr != kc, "non-square kernel");
  ctx.label_if(ch > 1 && filters > 1, "several channels and filters");
  if let Shape::Maps(_, r, c) = shape { ctx.label_if(r != c, "non-square image"); }
  Ok(())
}

/// Directional differences of a random real loss through the library's own forward.
fn backprop_fd(s: &mut Src, ctx: &mut Ctx, sp: Spec, shape: Shape) -> Res {
  use renplex::math::cfloat::Cf64 as T;
  ctx.desc(|| format!("{} on {shape:?}", sp.short()));
  let mut seed = s.word() as u128;
  let copy = s.clone();
  let start = seed;
  let (mut l, p) = build_layer::<T>(s, &sp, &mut seed, 1.0 / fan(&sp).sqrt())?;
  let _ = (copy, start);
  let m = to_model(&sp, &p);
  let x = cvec::<T>(s, shape.len(), 1.5);
  let out = m.out_shape(shape);
  // L(a) = sum 2 Re(g a): dL/da = g
  let g = cvec::<T>(s, out.len(), 1.0);
  let gc: Vec<T> = g.iter().map(|z| T::of(z.c().conj())).collect();
  // far from kinks along the whole difference
  let (q, _, _) = m.pre(&Feat::exact(shape, cs(&x)), None);
  let act = m.act().unwrap();
  if q.iter().any(|z| act.kink(*z) < 0.02) { return ctx.discard(); }
  ctx.nt(true);
  let loss = |l: &CLayer<T>, x: &[T]| -> Result<f64, String> {
    let o = l.foward(&io(shape, x)).map_err(|e| format!("{e:?}"))?;
    Ok(unio(&o, out)?.iter().zip(&g).map(|(a, b)| 2.0 * (a.c() * b.c()).re).sum())
  };
  let (dw, db, dx, _) = l.compute_derivatives(&io(shape, &x), g.clone(), gc).map_err(|e| format!("{e:?}"))?;
  let h = 1e-6;
  // inputs
  let dir = cvec::<T>(s, x.len(), 1.0);
  let at = |k: f64| -> Vec<T> { x.iter().zip(&dir).map(|(a, d)| T { x: a.x + k * d.x, y: a.y + k * d.y }).collect() };
  let num = (loss(&l, &at(h))? - loss(&l, &at(-h))?) / (2.0 * h);
  let ana: f64 = dx.iter().zip(&dir).map(|(a, b)| 2.0 * (a.c() * b.c()).re).sum();
  let size: f64 = 1.0 + dx.iter().map(|a| a.c().abs()).sum::<f64>();
  let tol = 2e-5 * size * (1.0 + (x.len() as f64)) / 1.0;
  ensure!((num - ana).abs() <= tol.min(0.02 * size), "input gradient predicts a slope of {ana}, the layer itself changes with {num}");
  // parameters: an adjustment by a moves them by -conj(a)
  let (aw, ab) = (cvec::<T>(s, dw.len(), 1.0), cvec::<T>(s, db.len(), 1.0));
  let step = |k: f64, v: &[T]| -> Vec<T> { v.iter().map(|a| T { x: a.x * k, y: a.y * k }).collect() };
  l.neg_conj_adjustment(step(h, &aw), step(h, &ab)).map_err(|e| format!("{e:?}"))?;
  let fp = loss(&l, &x)?;
  l.neg_conj_adjustment(step(-2.0 * h, &aw), step(-2.0 * h, &ab)).map_err(|e| format!("{e:?}"))?;
  let fm = loss(&l, &x)?;
  let num = (fp - fm) / (2.0 * h);
  let ana: f64 = dw.iter().zip(&aw).chain(db.iter().zip(&ab)).map(|(a, b)| -2.0 * (a.c() * b.c().conj()).re).sum();
  let size: f64 = 1.0 + dw.iter().chain(db.iter()).map(|a| a.c().abs()).sum::<f64>();
  let tol = 2e-5 * size * (1.0 + dw.len() as f64);
  ensure!((num - ana).abs() <= tol.min(0.02 * size), "parameter derivatives predict a slope of {ana}, the layer itself changes with {num}");
  Ok(())
}

fn dense_fd(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (inputs, units) = (s.range(1, 6), s.range(1, 6));
  let sp = Spec::Dense { inputs, units, act: s.pick(&ACTS), method: Method::gen(s, inputs) };
  backprop_fd(s, ctx, sp, Shape::Vec(inputs))
}

fn conv_fd(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (ch, filters, kr, kc) = (s.range(1, 3), s.range(1, 3), s.range(1, 3), s.range(1, 3));
  let shape = Shape::Maps(ch, kr + s.u(3), kc + s.u(3));
  let sp = Spec::Conv { ch, filters, kr, kc, act: s.pick(&ACTS), method: Method::gen(s, ch * kr * kc) };
  backprop_fd(s, ctx, sp, shape)
}

// ---------- C28 ----------

fn refusals<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let mut seed = s.word() as u128;
  match s.u(5) {
    0 => {
      // wrong kind of input shape
      ctx.label("wrong kind at initialisation"); ctx.nt(true);
      let n = s.tail(1, 6, 100);
      ctx.desc(|| format!("{} initialisation with the wrong kind, size {n}", T::NAME));
      let units = s.tail(1, 6, 100);
      let r = guarded(|| DenseCLayer::<T>::init(IOShape::Matrix(n), units, ComplexActFunc::None, InitMethod::Uniform(1), &mut seed).is_err()).map_err(|e| format!("dense initialisation with maps panics: {e}"))?;
      ensure!(r, "dense layer initialised for {n} maps");
      let k = [s.tail(1, 4, 12), s.tail(1, 4, 12)];
      let r = guarded(|| ConvCLayer::<T>::init(IOShape::Scalar(n), units, k, ComplexActFunc::None, InitMethod::Uniform(1), &mut seed).is_err()).map_err(|e| format!("convolution initialisation with a vector panics: {e}"))?;
      ensure!(r, "convolution initialised for a vector of {n}");
    }
    1 => {
      let (sp, shape) = reduce_spec(s);
      ctx.desc(|| format!("{} adjusting {}", T::NAME, sp.short()));
      ctx.label("pooling"); ctx.nt(true);
      let mut l = fresh::<T>(&sp, None, &mut seed);
      let x = io(shape, &cvec::<T>(s, shape.len(), 1.0));
      let before = raw(&l.foward(&x).map_err(|e| format!("{e:?}"))?);
      let (nw, nb) = if s.bool() { (0, 0) } else { (s.tail(0, 4, 40), s.tail(0, 4, 40)) };
      let (a, b) = (cvec::<T>(s, nw, 1.0), cvec::<T>(s, nb, 1.0));
      guarded(|| l.neg_conj_adjustment(a, b)).map_err(|e| format!("adjusting a pooling layer panics: {e}"))?.map_err(|e| format!("adjusting a pooling layer refused: {e:?}"))?;
      ensure!(raw(&l.foward(&x).map_err(|e| format!("{e:?}"))?) == before, "adjusting a pooling layer changed its output");
      declared(&l, &sp)?;
    }
    _ => {
      let (sp, shape) = if s.bool() { let sp = dense_spec(s); let Spec::Dense { inputs, .. } = sp else { unreachable!() }; (sp, Shape::Vec(inputs)) } else { conv_spec(s) };
      ctx.desc(|| format!("{} wrong adjustment of {}", T::NAME, sp.short()));
      ctx.label(if matches!(sp, Spec::Dense { .. }) { "dense" } else { "convolution" });
      let (mut l, p) = build_layer::<T>(s, &sp, &mut seed, 1.0 / fan(&sp).sqrt())?;
      let (nw, nb) = sp.params();
      let off = |s: &mut Src, n: usize| { let m = match s.u(5) { 0 => n + 1, 1 => n - 1, 2 => 0, 3 => n * 2, _ => s.u(2 * n + 2) }; if m == n { n + 1 } else { m } };
      let (mw, mb) = match s.u(4) { 0 => (off(s, nw), nb), 1 => (nw, off(s, nb)), 2 => (nb, nw), _ => (off(s, nw), off(s, nb)) };
      if (mw, mb) == (nw, nb) { return ctx.discard(); }
      ctx.nt(true);
      let xs: Vec<IOType<T>> = (0..3).map(|_| io(shape, &cvec::<T>(s, shape.len(), 1.0))).collect();
      let all = |l: &CLayer<T>| -> Result<Vec<_>, String> { xs.iter().map(|x| Ok(raw(&l.foward(x).map_err(|e| format!("{e:?}"))?))).collect() };
      let before = all(&l)?;
      let (a, b) = (cvec::<T>(s, mw, 1.0), cvec::<T>(s, mb, 1.0));
      let res = guarded(|| l.neg_conj_adjustment(a, b)).map_err(|e| format!("adjustment of {mw} weights and {mb} biases for {nw} and {nb}: panic {e}"))?;
      ensure!(res.is_err(), "adjustment of {mw} weights and {mb} biases accepted for {nw} and {nb}");
      ensure!(all(&l)? == before, "refused adjustment of {mw} weights and {mb} biases (for {nw} and {nb}) changed the output");
      declared(&l, &sp)?;
      compare_layer(s, &l, &to_model(&sp, &p), &vec![0.0; nw + nb], "after a refused adjustment")?;
    }
  }
  Ok(())
}

// ---------- C31 ----------

/// Features of some other shape that the layer cannot take, and what is wrong with them.
fn unfit(s: &mut Src, sp: &Spec, shape: Shape, backward: bool) -> Option<(Shape, &'static str)> {
  let other = |s: &mut Src, n: usize| { let m = match s.u(6) { 0 => n + 1, 1 => n - 1, 2 => 0, 3 => 2 * n, 4 => 1, _ => s.u(2 * n + 2) }; if m == n { n + 1 } else { m } };
  match (sp, shape) {
    (Spec::Dense { .. }, Shape::Vec(n)) => Some(match s.u(3) {
      0 => (if s.bool() { Shape::Maps(1, 1, n) } else { Shape::Maps(n, 1, 1) }, "maps for a dense layer"),
      _ => (Shape::Vec(other(s, n)), "vector of another length")
    }),
    (Spec::Conv { kr, kc, .. }, Shape::Maps(n, r, c)) => match s.u(4) {
      0 => Some((Shape::Vec(n * r * c), "vector for a convolution")),
      1 => Some((Shape::Maps(other(s, n), r, c), "another number of maps")),
      _ => {
        let small = |s: &mut Src, k: usize| if s.bool() { k - 1 } else { s.range(1, k - 1) };
        match (*kr > 1, *kc > 1) {
          (true, true) if s.one_in(3) => Some((Shape::Maps(n, small(s, *kr), small(s, *kc)), "maps smaller than the kernel")),
          (true, cols) if !cols || s.bool() => Some((Shape::Maps(n, small(s, *kr), c), "maps with fewer rows than the kernel")),
          (_, true) => Some((Shape::Maps(n, r, small(s, *kc)), "maps with fewer columns than the kernel")),
          _ => None
        }
      }
    },
    (Spec::Reduce { br, bc, .. }, Shape::Maps(n, r, c)) => match s.u(4) {
      0 => Some((Shape::Vec(n * r * c), "vector for pooling")),
      1 if backward => Some((Shape::Maps(other(s, n), r, c), "another number of maps")),
      _ => {
        let off = |s: &mut Src, n: usize, b: usize| { let m = match s.u(3) { 0 => n + 1, 1 => n - 1, _ => n + s.range(1, b - 1) }; if m % b == 0 || m == 0 { n + 1 } else { m } };
        match (*br > 1, *bc > 1) {
          (true, true) if s.one_in(3) => Some((Shape::Maps(n, off(s, r, *br), off(s, c, *bc)), "maps not divided by the block")),
          (true, cols) if !cols || s.bool() => Some((Shape::Maps(n, off(s, r, *br), c), "rows not divided by the block")),
          (_, true) => Some((Shape::Maps(n, r, off(s, c, *bc)), "columns not divided by the block")),
          _ => None
        }
      }
    },
    _ => unreachable!()
  }
}

fn misfits<T: Cx>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (sp, shape) = match s.u(3) { 0 => { let sp = dense_spec(s); let Spec::Dense { inputs, .. } = sp else { unreachable!() }; (sp, Shape::Vec(inputs)) } 1 => conv_spec(s), _ => reduce_spec(s) };
  ctx.label(match sp { Spec::Dense { .. } => "dense", Spec::Conv { .. } => "convolution", _ => "pooling" });
  let mut seed = s.word() as u128;
  let (l, p) = build_layer::<T>(s, &sp, &mut seed, 1.0 / fan(&sp).sqrt())?;
  let out = to_model(&sp, &p).out_shape(shape).len();
  let x = io(shape, &cvec::<T>(s, shape.len(), 1.0));
  let look = |l: &CLayer<T>| guarded(|| l.foward(&x).map(|o| raw(&o)).map_err(|e| format!("{e:?}")));
  let before = look(&l);
  let what = s.u(3);
  if let (Spec::Conv { ch, filters, kr, kc, .. }, true) = (&sp, s.one_in(5)) {
    // one map of another size, with or without room for the kernel
    if *ch < 2 { return ctx.discard(); }
    let (_, r, c) = shape.maps();
    let (r2, c2) = match s.u(5) { 0 => (c, r), 1 => (r + s.u(2), c + 1), 2 => (s.range(1, r), c), 3 => (r, s.range(1, c)), _ => (s.range(1, *kr), s.range(1, *kc)) };
    if (r2, c2) == (r, c) { return ctx.discard(); }
    let odd = s.u(*ch);
    ctx.desc(|| format!("{} {} on {shape:?} with map {odd} of size {r2}x{c2}", T::NAME, sp.short()));
    ctx.label("maps of different sizes");
    let y = IOType::Matrix((0..*ch).map(|i| { let (a, b) = if i == odd { (r2, c2) } else { (r, c) }; Matrix::from_body(cvec::<T>(s, a * b, 1.0), [a, b]) }).collect());
    if what == 0 {
      let res = guarded(|| l.foward(&y).is_err()).map_err(|e| format!("maps of different sizes: panic {e}"))?;
      ensure!(res, "maps of different sizes accepted");
    } else {
      let seeming = filters * (r2 + 1).saturating_sub(*kr) * (c2 + 1).saturating_sub(*kc);
      let len = if s.bool() { seeming } else { out };
      let (a, b) = (cvec::<T>(s, len, 1.0), cvec::<T>(s, len, 1.0));
      let res = guarded(|| l.compute_derivatives(&y, a, b).is_err()).map_err(|e| format!("derivatives for maps of different sizes: panic {e}"))?;
      ensure!(res, "derivatives for maps of different sizes accepted");
    }
  } else if what == 0 {
    let Some((bad, why)) = unfit(s, &sp, shape, false) else { return ctx.discard() };
    ctx.desc(|| format!("{} {} forward with {bad:?}: {why}", T::NAME, sp.short()));
    let y = io(bad, &cvec::<T>(s, bad.len(), 1.0));
    let res = guarded(|| l.foward(&y).is_err()).map_err(|e| format!("forward of {bad:?} ({why}) through {}: panic {e}", sp.short()))?;
    ensure!(res, "forward of {bad:?} ({why}) accepted by {}", sp.short());
    ctx.label("forward");
  } else if what == 1 {
    let Some((bad, why)) = unfit(s, &sp, shape, true) else { return ctx.discard() };
    ctx.desc(|| format!("{} {} backward with {bad:?}: {why}", T::NAME, sp.short()));
    let y = io(bad, &cvec::<T>(s, bad.len(), 1.0));
    // as many gradients as the layer has outputs, or as these features would seem to have
    let seeming = match (&sp, bad) {
      (Spec::Reduce { br, bc, .. }, Shape::Maps(k, r, c)) => k * (r / br) * (c / bc),
      (Spec::Conv { filters, kr, kc, .. }, Shape::Maps(_, r, c)) => filters * (r + 1).saturating_sub(*kr) * (c + 1).saturating_sub(*kc),
      _ => bad.len()
    };
    let len = if s.bool() { seeming } else { out };
    let (a, b) = (cvec::<T>(s, len, 1.0), cvec::<T>(s, len, 1.0));
    let res = guarded(|| l.compute_derivatives(&y, a, b).is_err()).map_err(|e| format!("derivatives for {bad:?} ({why}) of {}: panic {e}", sp.short()))?;
    ensure!(res, "derivatives for {bad:?} ({why}) accepted by {}", sp.short());
    ctx.label("backward, features");
  } else {
    let bad = match s.u(6) { 0 => out + 1, 1 => out - 1, 2 => 0, 3 => 2 * out, 4 => out + s.range(1, 8), _ => s.u(2 * out + 2) };
    if bad == out { return ctx.discard(); }
    let (na, nb) = match s.u(3) { 0 => (bad, out), 1 => (out, bad), _ => (bad, bad) };
    ctx.desc(|| format!("{} {} on {shape:?}, gradients of {na} and {nb} instead of {out}", T::NAME, sp.short()));
    let (a, b) = (cvec::<T>(s, na, 1.0), cvec::<T>(s, nb, 1.0));
    let res = guarded(|| l.compute_derivatives(&x, a, b).is_err()).map_err(|e| format!("gradients of {na} and {nb} for {out} outputs of {}: panic {e}", sp.short()))?;
    ensure!(res, "gradients of {na} and {nb} accepted for {out} outputs of {}", sp.short());
    ctx.label("backward, gradients");
  }
  ctx.nt(true);
  ensure!(look(&l) == before, "the refusal changed the output for fitting input");
  declared(&l, &sp)?;
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let mut out = Vec::new();
  let mut v = Vec::new();
  both!(v, "forward", dense_forward, 120_000, 3_000_000);
  out.push(Prop { id: "C11", rule: "inputs and units up to 300, all activations and initialisations, 0..3 adjustments, outputs after each and single-input responses at the end; non-trivial: more than one weight", assumptions: &["input length fits"], subs: v });
  let mut v = Vec::new();
  both!(v, "forward", conv_forward, 90_000, 2_250_000);
  out.push(Prop { id: "C12", rule: "1..4 channels and filters, kernels 1..5 x 1..5, images up to 24, all activations and initialisations, 0..3 adjustments; wrong kinds and channel counts; non-trivial: more than one weight", assumptions: &["image at least as large as the kernel"], subs: v });
  let mut v = Vec::new();
  both!(v, "pool_flatten", pool_flatten, 400_000, 10_000_000);
  both!(v, "uneven", uneven, 100_000, 2_500_000);
  out.push(Prop { id: "C13", rule: "1..4 channels, blocks 1..5 x 1..5, odd kernels 1..5, position-weighted or maximum block functions, forward and backward; flatten of 1..5 maps; maps of one or of different sizes; non-trivial: several blocks of several cells, several maps, or maps of different sizes", assumptions: &["interpolation kernel odd-sized and real", "block divides the map"], subs: v });
  let mut v = Vec::new();
  both!(v, "gradients", dense_backprop, 480_000, 12_000_000);
  crate::sub!(v, "differences", dense_fd, 240_000, 6_000_000);
  out.push(Prop { id: "C14", rule: "layers as C11 with random adjusted parameters, inputs and gradients against closed-form Wirtinger derivatives, plus differences of the layer itself; wrong gradient lengths; non-trivial: more than one weight", assumptions: &["pre-activations away from kinks"], subs: v });
  let mut v = Vec::new();
  both!(v, "gradients", conv_backprop, 120_000, 3_000_000);
  crate::sub!(v, "differences", conv_fd, 160_000, 4_000_000);
  out.push(Prop { id: "C15", rule: "layers as C12 with random adjusted parameters, images and gradients against closed-form Wirtinger derivatives, plus differences of the layer itself; non-trivial: more than one weight", assumptions: &["pre-activations away from kinks"], subs: v });
  let mut v = Vec::new();
  both!(v, "refusals", refusals, 160_000, 4_000_000);
  out.push(Prop { id: "C28", rule: "dense and convolutional layers with weight and/or bias adjustments of wrong length, pooling adjustments, initialisation with the wrong kind; every kept case is non-trivial", assumptions: &[], subs: v });
  let mut v = Vec::new();
  both!(v, "misfits", misfits, 400_000, 10_000_000);
  out.push(Prop { id: "C31", rule: "layers as C11..C13 with features of the wrong kind, length, map count or size, or with one map of another size, forward and backward, and gradients of the wrong length; every kept case is non-trivial", assumptions: &["number of maps given to a pooling layer's forward not covered"], subs: v });
  out
}
