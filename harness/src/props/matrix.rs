//! C07..C10: matrices.

use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};

use crate::core::{guarded, Ctx, Prop, Res, Src};
use crate::cx::{evec, Cx, Elem};
use crate::model::{upsample_c, C};
use crate::{both, ensure, four, sub};

// ---------- C07: editing histories ----------

struct Table { rows: Vec<Vec<i64>>, cols: usize, cap: [usize; 2] }

impl Table {
  fn shape(&self) -> [usize; 2] { [self.rows.len(), self.cols] }
  fn flat(&self) -> Vec<i64> { self.rows.iter().flatten().copied().collect() }
}

/// Compares everything that can be observed.
fn observe(m: &mut Matrix<i64>, t: &Table, s: &mut Src, full: bool) -> Res {
  let [r, c] = t.shape();
  let flat = t.flat();
  ensure!(m.get_shape() == [r, c], "shape is {:?}, expected {:?}", m.get_shape(), [r, c]);
  ensure!(m.get_capacity() == t.cap, "capacity is {:?}, expected {:?}", m.get_capacity(), t.cap);
  ensure!(m.get_body() == flat, "content is {:?}, expected {:?}", m.get_body(), t.rows);
  ensure!(r <= m.get_capacity()[0] && c <= m.get_capacity()[1], "shape {:?} exceeds capacity {:?}", [r, c], m.get_capacity());
  ensure!(m.is_empty() == (r == 0 && t.cap == [0, 0]), "is_empty is {} for shape {:?} capacity {:?}", m.is_empty(), [r, c], t.cap);
  if !full { return Ok(()); }
  ensure!(m.get_body_as_mut() == flat, "mutable content differs");
  let got: Vec<Vec<i64>> = guarded(|| m.rows_as_iter().map(|x| x.to_vec()).collect()).map_err(|e| format!("row iteration of a {r}x{c} matrix panics: {e}"))?;
  ensure!(got == t.rows, "row iteration gives {:?}, expected {:?}", got, t.rows);
  let got: Vec<Vec<i64>> = guarded(|| m.rows_as_iter_mut().map(|x| x.to_vec()).collect()).map_err(|e| format!("mutable row iteration of a {r}x{c} matrix panics: {e}"))?;
  ensure!(got == t.rows, "mutable row iteration gives {:?}, expected {:?}", got, t.rows);
  let text = guarded(|| format!("{m}")).map_err(|e| format!("display of a {r}x{c} matrix panics: {e}"))?;
  let lines: Vec<&str> = text.lines().collect();
  let want: Vec<String> = t.rows.iter().map(|x| format!("{x:?}")).collect();
  ensure!(lines.len() >= r && lines[..r].iter().zip(&want).all(|(a, b)| a == b), "display shows {text:?}, expected rows {want:?}");
  ensure!(lines.len() <= r + 1, "display shows more than the rows and one line: {text:?}");
  // element access, inside and outside
  for _ in 0..3 {
    let (i, j) = (s.u(r + 2), s.u(c + 2));
    let want = t.rows.get(i).and_then(|x| x.get(j));
    ensure!(m.elm(i, j).ok() == want, "element ({i}, {j}) of a {r}x{c} matrix is {:?}, expected {:?}", m.elm(i, j), want);
    ensure!(m.elm_mut(i, j).ok().map(|x| *x) == want.copied(), "mutable element ({i}, {j}) wrong");
  }
  for i in [0, r.saturating_sub(1), r, r + 1, usize::MAX] {
    let want = t.rows.get(i).map(|x| &x[..]);
    ensure!(m.row(i).ok() == want, "row {i} of a {r}x{c} matrix is {:?}, expected {:?}", m.row(i), want);
    ensure!(m.row_as_mut(i).ok().map(|x| x.to_vec()) == want.map(|x| x.to_vec()), "mutable row {i} wrong");
    let mut buf = vec![-7; c];
    let ok = m.row_into_slice(i, &mut buf).is_ok();
    ensure!(ok == want.is_some(), "row_into_slice({i}) of a {r}x{c} matrix: accepted {ok}");
    ensure!(buf == want.map(|x| x.to_vec()).unwrap_or(vec![-7; c]), "row_into_slice({i}) gives {:?}", buf);
    let mut long = vec![-7; c + 1];
    ensure!(m.row_into_slice(i, &mut long).is_err() && long.iter().all(|x| *x == -7), "row_into_slice into a longer slice accepted");
  }
  for j in [0, c.saturating_sub(1), c, c + 1, usize::MAX] {
    let want: Option<Vec<i64>> = if j < c { Some(t.rows.iter().map(|x| x[j]).collect()) } else { None };
    ensure!(m.copy_col_into_vec(j).ok() == want, "column {j} of a {r}x{c} matrix is {:?}, expected {:?}", m.copy_col_into_vec(j), want);
    let mut buf = vec![-7; r];
    let ok = m.col_into_slice(j, &mut buf).is_ok();
    ensure!(ok == want.is_some(), "col_into_slice({j}) of a {r}x{c} matrix: accepted {ok}");
    ensure!(buf == want.unwrap_or(vec![-7; r]), "col_into_slice({j}) gives {:?}", buf);
    let mut long = vec![-7; r + 1];
    ensure!(m.col_into_slice(j, &mut long).is_err() && long.iter().all(|x| *x == -7), "col_into_slice into a longer slice accepted");
  }
  if r > 0 {
    let n = s.range(1, r);
    let i = s.u(r - n + 1);
    let got: Vec<Vec<i64>> = m.get_slider(i, n).map(|x| x.to_vec()).collect();
    ensure!(got == t.rows[i..i + n], "slider {i} of {n} rows gives {:?}, expected {:?}", got, &t.rows[i..i + n]);
  }
  let copy = m.clone();
  ensure!(copy.get_shape() == [r, c] && copy.body_into_iter().collect::<Vec<_>>() == flat, "clone differs");
  ensure!(m.clone().export_body() == flat, "exported body differs");
  Ok(())
}

fn par_rows(m: &Matrix<i64>, t: &Table) -> Res {
  use rayon::iter::{IndexedParallelIterator, ParallelIterator};
  let got: Vec<Vec<i64>> = covrt::aside(|| guarded(|| m.rows_as_par_chunks().map(|x| x.to_vec()).collect())).map_err(|e| format!("parallel rows of a {:?} matrix panic: {e}", t.shape()))?;
  ensure!(got == t.rows, "parallel rows give {:?}, expected {:?}", got, t.rows);
  let n = covrt::aside(|| guarded(|| m.rows_as_par_chunks().enumerate().filter(|(i, x)| t.rows[*i] == *x).count())).map_err(|e| format!("parallel rows panic: {e}"))?;
  ensure!(n == t.rows.len(), "parallel rows out of order");
  Ok(())
}

fn history(s: &mut Src, ctx: &mut Ctx) -> Res {
  let mut next = 0i64;
  let mut fresh = |n: usize| -> Vec<i64> { (0..n).map(|_| { next += 1; next }).collect() };
  let (mut m, mut t) = match s.u(16) {
    0 => (Matrix::<i64>::new(), Table { rows: vec![], cols: 0, cap: [0, 0] }),
    1 | 2 => {
      let (r, c) = (s.range(1, 5), s.range(1, 5));
      let rows: Vec<Vec<i64>> = (0..r).map(|_| fresh(c)).collect();
      (Matrix::from_body(rows.concat(), [r, c]), Table { rows, cols: c, cap: [r, c] })
    }
    3 if s.one_in(3) => {
      // a large matrix that is filled already
      let cap = [s.range(20, 120), s.range(10, 60)];
      let (r, c) = (s.range(1, cap[0] - 1), s.range(1, cap[1] - 1));
      let (mut m, rows) = (Matrix::with_capacity(cap), (0..r).map(|_| fresh(c)).collect::<Vec<_>>());
      for row in rows.iter() { m.add_row(row.clone()).map_err(|e| format!("add_row of {c} to a matrix of capacity {cap:?}: {e:?}"))?; }
      (m, Table { rows, cols: c, cap })
    }
    _ => { let lo = if s.u(10) == 9 { 0 } else { 1 }; let cap = if s.one_in(8) { [s.range(8, 40), s.range(8, 20)] } else { [s.range(lo, 8), s.range(1, 8)] }; (Matrix::with_capacity(cap), Table { rows: vec![], cols: 0, cap }) }
  };
  let mut log = vec![format!("start {:?} cap {:?}", t.shape(), t.cap)];
  observe(&mut m, &t, s, true)?;
  let steps = s.range(1, 30);
  // deletion and deallocation give up all spare capacity, so they come late
  let grow = s.u(20);
  let (mut added, mut refused) = (0, 0);
  for step in 0..steps {
    let [r, c] = t.shape();
    let fits = |s: &mut Src, n: usize, cap: usize| match s.u(6) { 0 => if n > 0 && s.one_in(4) { 0 } else { s.range(1, 10) }, 1 => n + 1, 2 => n.saturating_sub(1).max(1), _ => if n == 0 { s.range(1, cap.max(1)) } else { n } };
    let what;
    match if step < grow { [0, 3, 5, 9][s.u(4)] } else { s.u(10) } {
      0..=2 => {
        let n = fits(s, c, t.cap[1]);
        let row = fresh(n);
        let ok = (r == 0 || n == c) && r < t.cap[0] && n <= t.cap[1];
        let keep = row.clone();
        what = format!("add_row of {n} to {r}x{c} (capacity {:?})", t.cap);
        let res = m.add_row(row);
        ensure!(res.is_ok() == ok, "{what}: {:?}, expected {}", res, if ok { "success" } else { "an error" });
        if ok { t.rows.push(keep); t.cols = n; added += 1; } else { refused += 1; }
      }
      3 | 4 => {
        let n = fits(s, c, t.cap[1]);
        let mut row = fresh(n);
        let ok = (r == 0 || n == c) && r < t.cap[0] && n <= t.cap[1];
        let keep = row.clone();
        what = format!("add_mut_row of {n} to {r}x{c} (capacity {:?})", t.cap);
        let res = m.add_mut_row(&mut row);
        ensure!(res.is_ok() == ok, "{what}: {:?}, expected {}", res, if ok { "success" } else { "an error" });
        if ok { ensure!(row.is_empty(), "{what}: row not flushed: {:?}", row); t.rows.push(keep); t.cols = n; added += 1; }
        else { ensure!(row == keep, "{what}: refused, but the row became {:?}", row); refused += 1; }
      }
      5 | 6 => {
        let n = fits(s, r, t.cap[0]);
        let mut col = fresh(n);
        // columns need an existing row
        let ok = r > 0 && n == r && c < t.cap[1];
        let keep = col.clone();
        what = format!("add_col of {n} to {r}x{c} (capacity {:?})", t.cap);
        let res = guarded(|| m.add_col(&mut col)).map_err(|e| format!("{what} panics: {e}"))?;
        ensure!(res.is_ok() == ok, "{what}: {:?}, expected {}", res, if ok { "success" } else { "an error" });
        if ok { ensure!(col.is_empty(), "{what}: column not consumed: {:?}", col); for (x, v) in t.rows.iter_mut().zip(keep) { x.push(v); } t.cols += 1; added += 1; }
        else { ensure!(col == keep, "{what}: refused, but the column became {:?}", col); refused += 1; }
      }
      7 => {
        let i = if s.one_in(4) { r + s.u(2) } else { s.u(r + 1) };
        what = format!("del_row {i} of {r}x{c}");
        let res = m.del_row(i);
        if i < r {
          let row = t.rows.remove(i);
          ensure!(res.as_ref().ok() == Some(&row), "{what} returned {:?}, expected {:?}", res, row);
          if t.rows.is_empty() { t.cols = 0; }
          t.cap = t.shape();
          // how much capacity a deletion leaves is not part of the property: adopt it if it is sane
          let cap = m.get_capacity();
          ensure!(cap[0] >= t.rows.len() && cap[1] >= t.cols, "{what}: capacity {:?} below the shape {:?}", cap, t.shape());
          t.cap = [cap[0], cap[1]];
        } else { ensure!(res.is_err(), "{what} accepted"); refused += 1; }
      }
      8 => {
        what = "dealloc".to_string();
        m.dealloc();
        t.cap = t.shape();
      }
      _ => {
        let (i, j) = (s.u(r + 1), s.u(c + 1));
        next_write(&mut m, &mut t, i, j, s)?;
        what = format!("write ({i}, {j})");
      }
    }
    log.push(what);
    let full = step + 1 == steps || s.one_in(3);
    observe(&mut m, &t, s, full).map_err(|e| format!("after {}: {e}", log.last().unwrap()))?;
  }
  if s.one_in(20) { par_rows(&m, &t)?; }
  ctx.nt(added >= 2);
  ctx.label_if(refused > 0, "with refusals");
  ctx.label_if(t.rows.is_empty(), "ends empty");
  ctx.label_if(added >= 6, "six or more additions");
  ctx.desc(|| log.join(", "));
  Ok(())
}

fn next_write(m: &mut Matrix<i64>, t: &mut Table, i: usize, j: usize, s: &mut Src) -> Res {
  let v = -(s.u(1000) as i64) - 10;
  let [r, c] = t.shape();
  match s.u(4) {
    0 => {
      let res = m.elm_mut(i, j);
      ensure!(res.is_ok() == (i < r && j < c), "elm_mut({i}, {j}) of {r}x{c}: {:?}", res);
      if let Ok(x) = res { *x = v; t.rows[i][j] = v; }
    }
    1 => {
      let res = m.row_as_mut(i);
      ensure!(res.is_ok() == (i < r), "row_as_mut({i}) of {r}x{c}: {:?}", res);
      if let Ok(x) = res { if j < c { x[j] = v; t.rows[i][j] = v; } }
    }
    2 => if i < r && j < c {
      m.get_body_as_mut()[i * c + j] = v;
      t.rows[i][j] = v;
    },
    _ => if i < r && j < c {
      m.rows_as_iter_mut().nth(i).unwrap()[j] = v;
      t.rows[i][j] = v;
    }
  }
  Ok(())
}

// ---------- C08: arithmetic ----------

fn cs<T: Elem>(v: &[T]) -> Vec<C> { v.iter().map(|x| x.c2()).collect() }
fn bits<T: Elem>(v: &[T]) -> Vec<(u64, u64)> { v.iter().map(|x| x.b2()).collect() }

fn near<T: Elem>(got: &[T], want: &[C], tol: &[f64], what: &str) -> Res {
  ensure!(got.len() == want.len(), "{what}: {} elements instead of {}", got.len(), want.len());
  for i in 0..got.len() {
    let d = got[i].c2().dist(want[i]);
    ensure!(d <= tol[i] + 1e-300, "{what}: element {i} is {:?}, expected {:?} (allowed {:e})", got[i], want[i], tol[i]);
  }
  Ok(())
}

fn dims(s: &mut Src, max: usize) -> (usize, usize) {
  if s.one_in(80) { let (a, b) = (s.range(1, 4), s.range(1, 2000)); return if s.bool() { (a, b) } else { (b, a) }; }
  let r = s.size(max); let c = s.size(max);
  // keep the area bounded
  if r * c > 20_000 { (r.min(120), c.min(120)) } else { (r, c) }
}

fn other_len(s: &mut Src, n: usize) -> usize { let m = match s.u(4) { 0 => n + 1, 1 => n.saturating_sub(1), 2 => 0, _ => n * 2 + s.u(3) }; if m == n { n + 1 } else { m } }

fn nonzero<T: Elem>(s: &mut Src) -> T {
  let z = evec::<T>(s, 1, 1.0)[0];
  if z.c2() == C::ZERO { T::mk2(-1.5, 0.5) } else { z }
}

fn cdiv(a: C, b: C) -> C { C::new(a.re * b.re + a.im * b.im, a.im * b.re - a.re * b.im).scale(1.0 / b.abs2()) }

fn matrix_ops<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (r, c) = dims(s, 260);
  let a = evec::<T>(s, r * c, 1.0);
  let x = evec::<T>(s, c, 1.0);
  let m = Matrix::from_body(a.clone(), [r, c]);
  let ca = cs(&a);
  ctx.desc(|| format!("{} {r}x{c} {:?} with {:?}", T::NAME, &a[..a.len().min(4)], &x[..x.len().min(4)]));
  ctx.nt(r * c > 1);
  ctx.label_if(r * c > 64, "more than 64 elements");
  let intact = |m: &Matrix<T>, what: &str| -> Res { ensure!(m.get_shape() == [r, c] && bits(m.get_body()) == bits(&a), "{what} changed the matrix"); Ok(()) };
  match s.u(6) {
    0 | 1 => {
      ctx.label("matrix vector product");
      let cx = cs(&x);
      let want: Vec<C> = (0..r).map(|i| (0..c).fold(C::ZERO, |q, j| q + ca[i * c + j] * cx[j])).collect();
      let tol: Vec<f64> = (0..r).map(|i| 2.0 * T::EPS * (c as f64 + 4.0) * (0..c).map(|j| ca[i * c + j].abs() * cx[j].abs()).sum::<f64>()).collect();
      let got = m.mul_slice(&x).map_err(|e| format!("mul_slice refused: {e:?}"))?;
      near(&got, &want, &tol, "mul_slice")?;
      let got = m.mul_vec(x.clone()).map_err(|e| format!("mul_vec refused: {e:?}"))?;
      near(&got, &want, &tol, "mul_vec")?;
      let k = other_len(s, c);
      let bad = evec::<T>(s, k, 1.0);
      ensure!(m.mul_slice(&bad).is_err(), "mul_slice of {r}x{c} with {} elements accepted", bad.len());
      ensure!(m.mul_vec(bad.clone()).is_err(), "mul_vec of {r}x{c} with {} elements accepted", bad.len());
      intact(&m, "product")?;
    }
    2 => {
      ctx.label("matrix sum");
      let b = evec::<T>(s, r * c, 1.0);
      let cb = cs(&b);
      let mut q = m.clone();
      let rhs = Matrix::from_body(b.clone(), [r, c]);
      q.add_mut(&rhs).map_err(|e| format!("add_mut refused: {e:?}"))?;
      let want: Vec<C> = ca.iter().zip(&cb).map(|(x, y)| *x + *y).collect();
      let tol: Vec<f64> = ca.iter().zip(&cb).map(|(x, y)| 2.0 * T::EPS * (x.abs() + y.abs())).collect();
      ensure!(q.get_shape() == [r, c], "add_mut changed the shape");
      near(q.get_body(), &want, &tol, "add_mut")?;
      ensure!(bits(rhs.get_body()) == bits(&b) && rhs.get_shape() == [r, c], "add_mut changed its argument");
      // a never-filled matrix adopts, a never-filled argument changes nothing
      let mut e = Matrix::<T>::new();
      e.add_mut(&m).map_err(|e| format!("adding to an empty matrix refused: {e:?}"))?;
      intact(&e, "adding to an empty matrix")?;
      let mut k = m.clone();
      k.add_mut(&Matrix::new()).map_err(|e| format!("adding an empty matrix refused: {e:?}"))?;
      intact(&k, "adding an empty matrix")?;
      // misfits, also with the same number of elements
      let (r2, c2) = match s.u(4) { 0 if r != c => (c, r), 1 => (r + 1, c), 2 => (r, c + 1), _ => if r > 1 { (1, r * c) } else { (r + 1, c + 2) } };
      if (r2, c2) != (r, c) {
        let bad = Matrix::from_body(evec::<T>(s, r2 * c2, 1.0), [r2, c2]);
        let mut k = m.clone();
        ensure!(k.add_mut(&bad).is_err(), "adding {r2}x{c2} to {r}x{c} accepted");
        intact(&k, "a refused sum")?;
      }
    }
    3 => {
      ctx.label("matrix scalar sum");
      let z = evec::<T>(s, 1, 1.0)[0];
      let mut q = m.clone();
      q.add_mut_scalar(z).map_err(|e| format!("{e:?}"))?;
      let want: Vec<C> = ca.iter().map(|x| *x + z.c2()).collect();
      let tol: Vec<f64> = ca.iter().map(|x| 2.0 * T::EPS * (x.abs() + z.c2().abs())).collect();
      near(q.get_body(), &want, &tol, "add_mut_scalar")?;
      ensure!(q.get_shape() == [r, c], "shape changed");
    }
    4 => {
      ctx.label("matrix scalar product");
      let z = evec::<T>(s, 1, 1.0)[0];
      let mut q = m.clone();
      q.mul_mut_scalar(z).map_err(|e| format!("{e:?}"))?;
      let want: Vec<C> = ca.iter().map(|x| *x * z.c2()).collect();
      let tol: Vec<f64> = ca.iter().map(|x| 8.0 * T::EPS * x.abs() * z.c2().abs()).collect();
      near(q.get_body(), &want, &tol, "mul_mut_scalar")?;
      ensure!(q.get_shape() == [r, c], "shape changed");
    }
    _ => {
      ctx.label("matrix scalar quotient");
      let z = nonzero::<T>(s);
      let mut q = m.clone();
      q.div_mut_scalar(z).map_err(|e| format!("{e:?}"))?;
      let want: Vec<C> = ca.iter().map(|x| cdiv(*x, z.c2())).collect();
      let tol: Vec<f64> = ca.iter().map(|x| 16.0 * T::EPS * x.abs() / z.c2().abs()).collect();
      near(q.get_body(), &want, &tol, "div_mut_scalar")?;
      ensure!(q.get_shape() == [r, c], "shape changed");
    }
  }
  Ok(())
}

fn slice_ops<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let n = if s.one_in(12) { 0 } else if s.one_in(80) { s.range(1, 5000) } else { s.size(600) };
  let a = evec::<T>(s, n, 1.0);
  let b = evec::<T>(s, n, 1.0);
  let (ca, cb) = (cs(&a), cs(&b));
  ctx.desc(|| format!("{} {n} elements {:?} with {:?}", T::NAME, &a[..n.min(4)], &b[..n.min(4)]));
  ctx.nt(n > 0);
  let k = other_len(s, n);
  let bad = evec::<T>(s, k, 1.0);
  let sum: Vec<C> = ca.iter().zip(&cb).map(|(x, y)| *x + *y).collect();
  let sum_tol: Vec<f64> = ca.iter().zip(&cb).map(|(x, y)| 2.0 * T::EPS * (x.abs() + y.abs())).collect();
  let prod: Vec<C> = ca.iter().zip(&cb).map(|(x, y)| *x * *y).collect();
  let prod_tol: Vec<f64> = ca.iter().zip(&cb).map(|(x, y)| 8.0 * T::EPS * x.abs() * y.abs()).collect();
  let mut q = a.clone();
  q.add_slice_mut(&b).map_err(|e| format!("add_slice_mut refused: {e:?}"))?;
  near(&q, &sum, &sum_tol, "add_slice_mut")?;
  near(&a.add_slice(&b).map_err(|e| format!("add_slice refused: {e:?}"))?, &sum, &sum_tol, "add_slice")?;
  let mut q = a.clone();
  q.mul_slice_mut(&b).map_err(|e| format!("mul_slice_mut refused: {e:?}"))?;
  near(&q, &prod, &prod_tol, "mul_slice_mut")?;
  near(&SliceOps::mul_slice(&a[..], &b).map_err(|e| format!("mul_slice refused: {e:?}"))?, &prod, &prod_tol, "mul_slice")?;
  let z = evec::<T>(s, 1, 1.0)[0];
  let mut q = a.clone();
  q.mul_mut_scalar(z).map_err(|e| format!("{e:?}"))?;
  near(&q, &ca.iter().map(|x| *x * z.c2()).collect::<Vec<_>>(), &ca.iter().map(|x| 8.0 * T::EPS * x.abs() * z.c2().abs()).collect::<Vec<_>>(), "mul_mut_scalar")?;
  let z = nonzero::<T>(s);
  let mut q = a.clone();
  q.div_mut_scalar(z).map_err(|e| format!("{e:?}"))?;
  near(&q, &ca.iter().map(|x| cdiv(*x, z.c2())).collect::<Vec<_>>(), &ca.iter().map(|x| 16.0 * T::EPS * x.abs() / z.c2().abs()).collect::<Vec<_>>(), "div_mut_scalar")?;
  let dot = a.scalar_prod(&b);
  let tol = 2.0 * T::EPS * (n as f64 + 4.0) * ca.iter().zip(&cb).map(|(x, y)| x.abs() * y.abs()).sum::<f64>();
  near(&[dot], &[prod.iter().fold(C::ZERO, |q, x| q + *x)], &[tol], "scalar_prod")?;
  // misfits
  let mut q = a.clone();
  ensure!(q.add_slice_mut(&bad).is_err() && bits(&q) == bits(&a), "add_slice_mut of {n} and {} elements accepted or changed the slice", bad.len());
  ensure!(q.mul_slice_mut(&bad).is_err() && bits(&q) == bits(&a), "mul_slice_mut of {n} and {} elements accepted or changed the slice", bad.len());
  ensure!(SliceOps::mul_slice(&a[..], &bad).is_err(), "mul_slice of {n} and {} elements accepted", bad.len());
  if n > 0 { ensure!(a.add_slice(&bad).is_err(), "add_slice of {n} and {} elements accepted", bad.len()); }
  // reshaping
  if n > 0 {
    let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let r = s.pick(&divs);
    let m = a.to_matrix([r, n / r]).map_err(|e| format!("to_matrix refused: {e:?}"))?;
    ensure!(m.get_shape() == [r, n / r] && bits(m.get_body()) == bits(&a), "to_matrix gives {:?} {:?}", m.get_shape(), m.get_body());
    let (r2, c2) = (r + s.u(2), n / r + 1);
    ensure!(a.to_matrix([r2, c2]).is_err(), "{n} elements accepted as {r2}x{c2}");
    let short = [r, (n / r).saturating_sub(1)];
    ensure!(a.to_matrix(short).is_err(), "{n} elements accepted as {:?}", short);
  }
  Ok(())
}

// ---------- C09: convolution, padding, flipping ----------

fn conv<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let side = |s: &mut Src| if s.one_in(12) { s.range(1, 70) } else { s.range(1, 9) };
  let (r, c) = (side(s), side(s));
  let (kr, kc) = match s.u(8) { 0 => (r, c), 1 => (s.range(1, r + 2), s.range(1, c + 2)), 2 => (1, s.range(1, c)), 3 => (s.range(1, r), 1), _ => (s.range(1, r.min(5)), s.range(1, c.min(5))) };
  let a = evec::<T>(s, r * c, 1.0);
  let k = evec::<T>(s, kr * kc, 1.0);
  ctx.desc(|| format!("{} {r}x{c} with kernel {kr}x{kc}: {:?} {:?}", T::NAME, &a[..a.len().min(4)], &k[..k.len().min(4)]));
  let m = Matrix::from_body(a.clone(), [r, c]);
  let km = Matrix::from_body(k.clone(), [kr, kc]);
  let res = guarded(|| m.convolution(&km)).map_err(|e| format!("convolution of {r}x{c} with {kr}x{kc} panics: {e}"))?;
  if kr > r || kc > c {
    ctx.label("kernel too large"); ctx.nt(true);
    ensure!(res.is_err(), "kernel {kr}x{kc} accepted for {r}x{c}");
  } else {
    ctx.nt(kr * kc > 1 && r * c > 1);
    ctx.label_if(kr != kc, "non-square kernel");
    ctx.label_if(r * c > 256, "large");
    let out = res.map_err(|e| format!("kernel {kr}x{kc} refused for {r}x{c}: {e:?}"))?;
    let (or, oc) = (r + 1 - kr, c + 1 - kc);
    ensure!(out.get_shape() == [or, oc], "convolution of {r}x{c} with {kr}x{kc} has shape {:?}", out.get_shape());
    let (ca, ck) = (cs(&a), cs(&k));
    let (mut want, mut tol) = (Vec::new(), Vec::new());
    for i in 0..or { for j in 0..oc {
      let (mut q, mut e) = (C::ZERO, 0.0);
      for u in 0..kr { for v in 0..kc { let (x, y) = (ca[(i + u) * c + j + v], ck[u * kc + v]); q = q + x * y; e += x.abs() * y.abs(); } }
      want.push(q); tol.push(2.0 * T::EPS * ((kr * kc) as f64 + 4.0) * e);
    } }
    near(out.get_body(), &want, &tol, "convolution")?;
  }
  ensure!(bits(m.get_body()) == bits(&a) && bits(km.get_body()) == bits(&k), "convolution changed an operand");
  // padding
  let (pr, pc) = (s.tail(0, 4, 24), s.tail(0, 4, 24));
  let p = m.clone().pad((pr, pc));
  let (nr, nc) = (r + 2 * pr, c + 2 * pc);
  ensure!(p.get_shape() == [nr, nc] && p.get_body().len() == nr * nc, "padding {r}x{c} by ({pr}, {pc}) gives {:?} with {} elements", p.get_shape(), p.get_body().len());
  for i in 0..nr { for j in 0..nc {
    let inside = i >= pr && i < pr + r && j >= pc && j < pc + c;
    let want = if inside { a[(i - pr) * c + j - pc] } else { T::default() };
    ensure!(p.get_body()[i * nc + j].b2() == want.b2(), "padding {r}x{c} by ({pr}, {pc}): ({i}, {j}) is {:?}, expected {:?}", p.get_body()[i * nc + j], want);
  } }
  // flipping
  let f = m.flip().map_err(|e| format!("flip refused: {e:?}"))?;
  ensure!(f.get_shape() == [r, c], "flip of {r}x{c} has shape {:?}", f.get_shape());
  for i in 0..r { for j in 0..c {
    ensure!(f.get_body()[i * c + j].b2() == a[(r - 1 - i) * c + (c - 1 - j)].b2(), "flip of {r}x{c}: ({i}, {j}) is {:?}", f.get_body()[i * c + j]);
  } }
  let ff = f.flip().map_err(|e| format!("second flip refused: {e:?}"))?;
  ensure!(bits(ff.get_body()) == bits(&a) && ff.get_shape() == [r, c], "flipping twice does not give the original");
  Ok(())
}

/// The conjugate convolution is a convolution with the conjugated kernel.
fn cconv<T: Cx + Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let side = |s: &mut Src| if s.one_in(12) { s.range(1, 40) } else { s.range(1, 9) };
  let (r, c) = (side(s), side(s));
  let (kr, kc) = match s.u(8) { 0 => (r, c), 1 => (s.range(1, r + 2), s.range(1, c + 2)), 2 => (1, s.range(1, c)), 3 => (s.range(1, r), 1), _ => (s.range(1, r.min(5)), s.range(1, c.min(5))) };
  let a = evec::<T>(s, r * c, 1.0);
  let k = evec::<T>(s, kr * kc, 1.0);
  ctx.desc(|| format!("{} {r}x{c} with conjugated kernel {kr}x{kc}: {:?} {:?}", <T as Cx>::NAME, &a[..a.len().min(4)], &k[..k.len().min(4)]));
  let (m, km) = (Matrix::from_body(a.clone(), [r, c]), Matrix::from_body(k.clone(), [kr, kc]));
  let res = guarded(|| m.cconvolution(&km)).map_err(|e| format!("conjugate convolution of {r}x{c} with {kr}x{kc} panics: {e}"))?;
  if kr > r || kc > c {
    ctx.label("kernel too large"); ctx.nt(true);
    ensure!(res.is_err(), "kernel {kr}x{kc} accepted for {r}x{c}");
    return Ok(());
  }
  ctx.nt(kr * kc > 1 && r * c > 1);
  let out = res.map_err(|e| format!("kernel {kr}x{kc} refused for {r}x{c}: {e:?}"))?;
  let (or, oc) = (r + 1 - kr, c + 1 - kc);
  ensure!(out.get_shape() == [or, oc], "conjugate convolution of {r}x{c} with {kr}x{kc} has shape {:?}", out.get_shape());
  let (ca, ck) = (cs(&a), cs(&k));
  let (mut want, mut tol) = (Vec::new(), Vec::new());
  for i in 0..or { for j in 0..oc {
    let (mut q, mut e) = (C::ZERO, 0.0);
    for u in 0..kr { for v in 0..kc { let (x, y) = (ca[(i + u) * c + j + v], ck[u * kc + v].conj()); q = q + x * y; e += x.abs() * y.abs(); } }
    want.push(q); tol.push(2.0 * <T as Cx>::EPS * ((kr * kc) as f64 + 4.0) * e);
  } }
  near(out.get_body(), &want, &tol, "conjugate convolution")?;
  ensure!(bits(m.get_body()) == bits(&a) && bits(km.get_body()) == bits(&k), "conjugate convolution changed an operand");
  Ok(())
}

// ---------- C10: blocks ----------

fn blocks<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (br, bc) = if s.one_in(3) { let b = s.tail(1, 6, 20); (b, b) } else { (s.tail(1, 6, 20), s.tail(1, 6, 20)) };
  let (nr, nc) = if s.one_in(16) { (s.range(1, 30), s.range(1, 30)) } else { (s.range(1, 5), s.range(1, 5)) };
  let (r, c) = (nr * br, nc * bc);
  let a = evec::<T>(s, r * c, 1.0);
  ctx.desc(|| format!("{} {r}x{c} in blocks {br}x{bc} {:?}", T::NAME, &a[..a.len().min(4)]));
  ctx.nt(br * bc > 1 && nr * nc > 1);
  ctx.label_if(br != bc, "non-square block");
  ctx.label_if(br % 2 == 0 || bc % 2 == 0, "even block side");
  let m = Matrix::from_body(a.clone(), [r, c]);
  // position-weighted function: every element and its place in the block matter
  let co: Vec<T> = (0..br * bc).map(|i| T::mk2(1.0 + i as f64 * 0.5, i as f64 * 0.25)).collect();
  let f = |b: &[T]| -> T {
    if b.len() != co.len() { return T::mk2(f64::NAN, f64::NAN); }
    let mut q = T::default();
    for (x, y) in b.iter().zip(co.iter()) { q += *x * *y; }
    q
  };
  let out = m.block_reduce(&[br, bc], f).map_err(|e| format!("block {br}x{bc} refused for {r}x{c}: {e:?}"))?;
  ensure!(out.get_shape() == [nr, nc] && out.get_body().len() == nr * nc, "reducing {r}x{c} by {br}x{bc} gives shape {:?}", out.get_shape());
  for i in 0..nr { for j in 0..nc {
    let mut blk = Vec::new();
    for u in 0..br { for v in 0..bc { blk.push(a[(i * br + u) * c + j * bc + v]); } }
    let want = f(&blk);
    let got = out.get_body()[i * nc + j];
    ensure!(got.b2() == want.b2(), "block ({i}, {j}) of {r}x{c} by {br}x{bc} is {:?}, expected {:?}", got, want);
  } }
  // other functions
  let last = m.block_reduce(&[br, bc], |b: &[T]| b[b.len() - 1]).map_err(|e| format!("{e:?}"))?;
  for i in 0..nr { for j in 0..nc {
    ensure!(last.get_body()[i * nc + j].b2() == a[((i + 1) * br - 1) * c + (j + 1) * bc - 1].b2(), "last element of block ({i}, {j}) wrong");
  } }
  ensure!(bits(m.get_body()) == bits(&a) && m.get_shape() == [r, c], "block_reduce changed the matrix");
  // misfits
  let (wr, wc) = (s.range(1, r + 2), s.range(1, c + 2));
  let ok = r % wr == 0 && c % wc == 0;
  let res = guarded(|| m.block_reduce(&[wr, wc], |b: &[T]| b[0])).map_err(|e| format!("block {wr}x{wc} for {r}x{c} panics: {e}"))?;
  ensure!(res.is_ok() == ok, "block {wr}x{wc} for {r}x{c}: {}", if ok { "refused" } else { "accepted" });
  ctx.label_if(!ok, "misfit checked");
  Ok(())
}

fn upsampling<T: Elem>(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (br, bc) = if s.one_in(3) { let b = s.tail(1, 6, 20); (b, b) } else { (s.tail(1, 6, 20), s.tail(1, 6, 20)) };
  let (r, c) = if s.one_in(16) { (s.range(1, 24), s.range(1, 24)) } else { (s.range(1, 5), s.range(1, 5)) };
  let (kr, kc) = match s.u(6) { 0 | 1 => { let k = s.pick(&[1usize, 3, 5, 7]); (k, k) } 2 => (s.range(1, 6), s.range(1, 6)), _ => (2 * s.tail(0, 3, 8) + 1, 2 * s.tail(0, 3, 8) + 1) };
  let a = evec::<T>(s, r * c, 1.0);
  let k = evec::<T>(s, kr * kc, 1.0);
  ctx.desc(|| format!("{} {r}x{c} by {br}x{bc} kernel {kr}x{kc} {:?} {:?}", T::NAME, &a[..a.len().min(4)], &k[..k.len().min(4)]));
  let m = Matrix::from_body(a.clone(), [r, c]);
  let km = Matrix::from_body(k.clone(), [kr, kc]);
  let res = guarded(|| m.fractional_upsampling(&[br, bc], &km)).map_err(|e| format!("up-sampling {r}x{c} by {br}x{bc} with kernel {kr}x{kc} panics: {e}"))?;
  if kr % 2 == 0 || kc % 2 == 0 {
    ctx.label("even kernel"); ctx.nt(true);
    ensure!(res.is_err(), "kernel {kr}x{kc} accepted");
    return Ok(());
  }
  ctx.nt(br * bc > 1);
  ctx.label_if(br != bc, "non-square block");
  ctx.label_if(kr != kc, "non-square kernel");
  ctx.label_if(kr > r * br || kc > c * bc, "kernel larger than the result");
  ctx.label(match kr { 1 => "kernel height 1", 3 => "kernel height 3", _ => "kernel height 5 or 7" });
  let out = res.map_err(|e| format!("up-sampling {r}x{c} by {br}x{bc} with kernel {kr}x{kc} refused: {e:?}"))?;
  ensure!(out.get_shape() == [r * br, c * bc], "up-sampling {r}x{c} by {br}x{bc} with kernel {kr}x{kc} gives shape {:?}", out.get_shape());
  let want = upsample_c(&cs(&a), r, c, br, bc, &cs(&k), kr, kc);
  let (aa, ka): (Vec<C>, Vec<C>) = (cs(&a).iter().map(|x| C::new(x.abs(), 0.0)).collect(), cs(&k).iter().map(|x| C::new(x.abs(), 0.0)).collect());
  let tol: Vec<f64> = upsample_c(&aa, r, c, br, bc, &ka, kr, kc).iter().map(|x| 2.0 * T::EPS * ((kr * kc) as f64 + 4.0) * x.re).collect();
  near(out.get_body(), &want, &tol, "up-sampling")?;
  // a single one in the middle shows the pure placement
  let mut id = vec![T::default(); kr * kc];
  id[(kr / 2) * kc + kc / 2] = T::mk2(1.0, 0.0);
  let out = m.fractional_upsampling(&[br, bc], &Matrix::from_body(id, [kr, kc])).map_err(|e| format!("{e:?}"))?;
  let centre = |b: usize| if b % 2 == 0 { b / 2 - 1 } else { b / 2 };
  for i in 0..r * br { for j in 0..c * bc {
    let at = i % br == centre(br) && j % bc == centre(bc);
    let want = if at { a[(i / br) * c + j / bc] } else { T::default() };
    ensure!(out.get_body()[i * c * bc + j] == want, "placement of {r}x{c} by {br}x{bc}: ({i}, {j}) is {:?}, expected {:?}", out.get_body()[i * c * bc + j], want);
  } }
  ensure!(bits(m.get_body()) == bits(&a), "up-sampling changed the matrix");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let mut out = Vec::new();
  let mut v = Vec::new();
  sub!(v, "history", history, 2_000_000, 40_000_000);
  out.push(Prop { id: "C07", rule: "start (empty, with capacity, from body) x 1..30 operations (row, column, deletion, write, deallocation; fitting and misfitting lengths) against a table, full observation at the end and after a third of the steps; non-trivial: at least two successful additions",
    assumptions: &["rows and columns have at least one element"], subs: v });
  let mut v = Vec::new();
  four!(v, "matrix", matrix_ops, 400_000, 10_000_000);
  four!(v, "slice", slice_ops, 400_000, 10_000_000);
  out.push(Prop { id: "C08", rule: "element type x shape up to 260x260 x operation, plus misfitting operands (same element count included); non-trivial: more than one element", assumptions: &["divisors non-zero", "dot products only of equal lengths"], subs: v });
  let mut v = Vec::new();
  four!(v, "convolution", conv, 400_000, 10_000_000);
  both!(v, "conjugate", cconv, 200_000, 5_000_000);
  out.push(Prop { id: "C09", rule: "element type x matrix side 1..70 x kernel from one cell to larger than the matrix x padding 0..24, conjugate convolution for the complex types; non-trivial: kernel and matrix larger than one cell, or kernel too large", assumptions: &["no dimension is zero"], subs: v });
  let mut v = Vec::new();
  four!(v, "blocks", blocks, 150_000, 3_750_000);
  four!(v, "upsampling", upsampling, 150_000, 3_750_000);
  out.push(Prop { id: "C10", rule: "element type x block side 1..20 x block count x kernel side 1..17 odd or even; non-trivial: block larger than one cell, or an even kernel", assumptions: &["no dimension is zero"], subs: v });
  out
}
