//! C02..C06
use renplex::math::matrix::{Matrix, SliceOps, SliceToMatrix};
use renplex::math::cfloat::{Cf32, Cf64};
use crate::ctx::*;
use crate::gf::G;
use crate::layers::block_fn;
use crate::refm::*;

// ---------------------------------------------------------------- C02
trait El: Clone + PartialEq + std::fmt::Debug { fn mk(k: usize) -> Self; const N: &'static str; }
impl El for i64 { fn mk(k: usize) -> i64 { k as i64 } const N: &'static str = "i64"; }
impl El for String { fn mk(k: usize) -> String { format!("e{}", k) } const N: &'static str = "string"; }
impl El for u8 { fn mk(k: usize) -> u8 { (k % 3) as u8 } const N: &'static str = "u8"; }

fn snap<T: Clone>(m: &Matrix<T>) -> (Vec<T>, Vec<usize>, Vec<usize>) {
  (m.get_body().to_vec(), m.get_shape().to_vec(), m.get_capacity().to_vec())
}

fn history<T: El>(seed: u64, steps: usize, big: bool) -> Result<(), String> {
  let mut r = Rng(seed);
  let mut fresh = 0usize;
  let mut mk = |n: usize| -> Vec<T> { (0..n).map(|_| { fresh += 1; T::mk(fresh) }).collect() };
  let mut trace = String::new();
  // model
  let (mut rows, mut cols, mut cap, mut body);
  let mut m: Matrix<T>;
  let top = if big { 40 } else { 5 };
  match r.range(0, 3) {
    0 => { m = Matrix::new(); rows = 0; cols = 0; cap = [0, 0]; body = vec![]; trace += "new" }
    1 => {
      rows = r.range(0, top); cols = if rows == 0 { 0 } else { r.range(0, top) };
      body = mk(rows * cols); cap = [rows, cols];
      m = Matrix::from_body(body.clone(), [rows, cols]);
      trace += &format!("from_body {}x{}", rows, cols);
    }
    _ => {
      cap = [r.range(0, top + 1), r.range(0, top + 1)]; rows = 0; cols = 0; body = vec![];
      m = Matrix::with_capacity(cap);
      trace += &format!("with_capacity {:?}", cap);
    }
  }
  for _ in 0..steps {
    let op = r.range(0, 9);
    let before = snap(&m);
    let exp_ok;
    match op {
      0..=2 => {
        let n = if r.range(0, 3) > 0 { cols } else { r.range(0, top + 1) };
        let row = mk(n);
        trace += &format!("; add_row({})", n);
        let want = (n == cols || (rows == 0 && cols == 0)) && rows + 1 <= cap[0] && n <= cap[1];
        let got = m.add_row(row.clone()).is_ok();
        same(&format!("{}: accepted", trace), &got, &want)?;
        exp_ok = want;
        if want { rows += 1; cols = n; body.extend(row); }
      }
      3..=4 => {
        let n = if r.range(0, 3) > 0 { cols } else { r.range(0, top + 1) };
        let mut row = mk(n);
        let keep = row.clone();
        trace += &format!("; add_mut_row({})", n);
        let want = (n == cols || (rows == 0 && cols == 0)) && rows + 1 <= cap[0] && n <= cap[1];
        let got = m.add_mut_row(&mut row).is_ok();
        same(&format!("{}: accepted", trace), &got, &want)?;
        exp_ok = want;
        if want { rows += 1; cols = n; body.extend(keep); same(&format!("{}: row flushed", trace), &row.len(), &0)?; }
        else { same(&format!("{}: row untouched", trace), &row, &keep)?; }
      }
      5..=6 => {
        let n = if r.range(0, 3) > 0 { rows } else { r.range(0, top + 1) };
        let mut col = mk(n);
        let keep = col.clone();
        trace += &format!("; add_col({})", n);
        let want = n == rows && cols + 1 <= cap[1];
        let got = m.add_col(&mut col).is_ok();
        same(&format!("{}: accepted", trace), &got, &want)?;
        exp_ok = want;
        if want {
          let mut nb = vec![];
          for i in 0..rows { nb.extend_from_slice(&body[i * cols..(i + 1) * cols]); nb.push(keep[i].clone()) }
          body = nb; cols += 1;
        } else { same(&format!("{}: column untouched", trace), &col, &keep)?; }
      }
      7..=8 => {
        let i = r.range(0, rows + 1);
        trace += &format!("; del_row({})", i);
        let want = i < rows;
        let got = m.del_row(i);
        same(&format!("{}: accepted", trace), &got.is_ok(), &want)?;
        exp_ok = want;
        if want {
          let out: Vec<T> = body.drain(i * cols..(i + 1) * cols).collect();
          same(&format!("{}: removed row", trace), &got.unwrap(), &out)?;
          rows -= 1;
          if rows == 0 { cols = 0 }
          cap = [rows, cols];
        }
      }
      _ => { trace += "; dealloc"; m.dealloc(); exp_ok = true; cap = [rows, cols]; }
    }
    let after = snap(&m);
    if !exp_ok { same(&format!("{}: rejected edit left the matrix as it was", trace), &after, &before)?; }
    same(&format!("{}: body", trace), &after.0, &body)?;
    same(&format!("{}: shape", trace), &after.1, &vec![rows, cols])?;
    same(&format!("{}: capacity", trace), &after.2, &cap.to_vec())?;
    ensure(rows <= cap[0] && cols <= cap[1], || format!("{}: shape {}x{} above capacity {:?}", trace, rows, cols, cap))?;
  }
  Ok(())
}

pub fn c02(c: &mut Ctx) {
  let n = if c.thorough { 60000 } else { 12000 };
  let mut r = c.rng("c02");
  for k in 0..n {
    let s = r.next();
    let steps = 1 + k % 14;
    let big = k % 10 == 9;
    match k % 3 {
      0 => c.case(format!("history i64 seed={} steps={} big={}", s, steps, big), || history::<i64>(s, steps, big)),
      1 => c.case(format!("history String seed={} steps={} big={}", s, steps, big), || history::<String>(s, steps, big)),
      _ => c.case(format!("history u8 seed={} steps={} big={}", s, steps, big), || history::<u8>(s, steps, big)),
    }
  }
  for (rows, cols) in [(300, 200), (1, 2000), (2000, 1), (64, 64), (129, 65)] {
    c.case(format!("large edits {}x{}", rows, cols), || {
      let mut m: Matrix<i64> = Matrix::with_capacity([rows + 1, cols + 1]);
      let mut body = vec![];
      for i in 0..rows {
        let row: Vec<i64> = (0..cols).map(|j| (i * 7919 + j) as i64).collect();
        body.extend(row.clone());
        if i % 2 == 0 { m.add_row(row).map_err(|e| format!("{:?}", e))? } else { let mut row = row; m.add_mut_row(&mut row).map_err(|e| format!("{:?}", e))? }
      }
      same("body", &m.get_body().to_vec(), &body)?;
      let mut col: Vec<i64> = (0..rows).map(|i| -(i as i64) - 1).collect();
      m.add_col(&mut col).map_err(|e| format!("{:?}", e))?;
      for i in 0..rows { body.insert(i * (cols + 1) + cols, -(i as i64) - 1) }
      same("body after add_col", &m.get_body().to_vec(), &body)?;
      let at = rows / 2;
      let out = m.del_row(at).map_err(|e| format!("{:?}", e))?;
      let want: Vec<i64> = body.drain(at * (cols + 1)..(at + 1) * (cols + 1)).collect();
      same("removed", &out, &want)?;
      same("body after del_row", &m.get_body().to_vec(), &body)?;
      same("shape", &m.get_shape().to_vec(), &if rows == 1 { vec![0, 0] } else { vec![rows - 1, cols + 1] })
    });
  }
}

// ---------------------------------------------------------------- C03
fn access(rows: usize, cols: usize, big: bool) -> Result<(), String> {
  let body: Vec<i64> = (0..rows * cols).map(|k| (k as i64) * 3 + 1).collect();
  let mk = || Matrix::from_body(body.clone(), [rows, cols]);
  let m = mk();
  same("get_body", &m.get_body().to_vec(), &body)?;
  same("get_shape", &m.get_shape().to_vec(), &vec![rows, cols])?;
  same("get_capacity", &m.get_capacity().to_vec(), &vec![rows, cols])?;
  same("is_empty", &m.is_empty(), &(rows == 0 && cols == 0))?;
  let far = [usize::MAX, usize::MAX / 2, rows + cols + 7];
  let is: Vec<usize> = if big { vec![0, rows / 2, rows - 1, rows] } else { (0..rows + 2).collect() };
  let js: Vec<usize> = if big { vec![0, cols / 2, cols - 1, cols] } else { (0..cols + 2).collect() };
  for &i in is.iter().chain(far.iter()) {
    for &j in js.iter().chain(far.iter()) {
      let want = if i < rows && j < cols { Some(body[i * cols + j]) } else { None };
      same(&format!("elm({},{})", i, j), &m.elm(i, j).ok().cloned(), &want)?;
      let mut mm = mk();
      match mm.elm_mut(i, j) {
        Ok(e) => {
          same(&format!("elm_mut({},{})", i, j), &Some(*e), &want)?;
          *e = -77;
          let mut b = body.clone(); b[i * cols + j] = -77;
          same(&format!("write through elm_mut({},{})", i, j), &mm.get_body().to_vec(), &b)?;
          same("shape after write", &mm.get_shape().to_vec(), &vec![rows, cols])?;
        }
        Err(_) => same(&format!("elm_mut({},{})", i, j), &None, &want)?,
      }
    }
    let want = if i < rows { Some(body[i * cols..(i + 1) * cols].to_vec()) } else { None };
    same(&format!("row({})", i), &m.row(i).ok().map(|x| x.to_vec()), &want)?;
    let mut mm = mk();
    match mm.row_as_mut(i) {
      Ok(s) => {
        same(&format!("row_as_mut({})", i), &Some(s.to_vec()), &want)?;
        for x in s.iter_mut() { *x = -*x }
        let mut b = body.clone();
        for x in b[i * cols..(i + 1) * cols].iter_mut() { *x = -*x }
        same(&format!("write through row_as_mut({})", i), &mm.get_body().to_vec(), &b)?;
      }
      Err(_) => same(&format!("row_as_mut({})", i), &None, &want)?,
    }
    for n in [cols, cols + 1, cols.saturating_sub(1)] {
      let mut dst = vec![-5i64; n];
      let ok = m.row_into_slice(i, &mut dst).is_ok();
      same(&format!("row_into_slice({}) len {}", i, n), &ok, &(i < rows && n == cols))?;
      same(&format!("row_into_slice({}) len {} contents", i, n), &dst, &if ok { want.clone().unwrap() } else { vec![-5i64; n] })?;
    }
  }
  for &j in js.iter().chain(far.iter()) {
    let want: Option<Vec<i64>> = if j < cols { Some((0..rows).map(|i| body[i * cols + j]).collect()) } else { None };
    same(&format!("copy_col_into_vec({})", j), &m.copy_col_into_vec(j).ok(), &want)?;
    for n in [rows, rows + 1, rows.saturating_sub(1)] {
      let mut dst = vec![-5i64; n];
      let ok = m.col_into_slice(j, &mut dst).is_ok();
      same(&format!("col_into_slice({}) len {}", j, n), &ok, &(j < cols && n == rows))?;
      same(&format!("col_into_slice({}) len {} contents", j, n), &dst, &if ok { want.clone().unwrap() } else { vec![-5i64; n] })?;
    }
  }
  if cols > 0 {
    let rows_want: Vec<Vec<i64>> = (0..rows).map(|i| body[i * cols..(i + 1) * cols].to_vec()).collect();
    same("rows_as_iter", &m.rows_as_iter().map(|x| x.to_vec()).collect::<Vec<_>>(), &rows_want)?;
    {
      use rayon::prelude::*;
      same("rows_as_par_chunks", &m.rows_as_par_chunks().map(|x| x.to_vec()).collect::<Vec<_>>(), &rows_want)?;
    }
    let mut mm = mk();
    let mut seen = vec![];
    for (i, row) in mm.rows_as_iter_mut().enumerate() { seen.push(row.to_vec()); if i % 2 == 0 { for x in row { *x += 1000 } } }
    same("rows_as_iter_mut", &seen, &rows_want)?;
    let mut b = body.clone();
    for i in (0..rows).step_by(2) { for x in b[i * cols..(i + 1) * cols].iter_mut() { *x += 1000 } }
    same("write through rows_as_iter_mut", &mm.get_body().to_vec(), &b)?;
    let bands: Vec<(usize, usize)> = if big { vec![(0, rows), (rows / 2, 1), (rows / 3, rows / 3)] } else {
      (0..=rows).flat_map(|i| (0..=rows - i).map(move |n| (i, n))).collect() };
    for (i, n) in bands {
      same(&format!("get_slider({},{})", i, n), &m.get_slider(i, n).map(|x| x.to_vec()).collect::<Vec<_>>(), &rows_want[i..i + n].to_vec())?;
    }
  }
  let mut mm = mk();
  let k = rows * cols / 2;
  if rows * cols > 0 { mm.get_body_as_mut()[k] = -9; }
  let mut b = body.clone();
  if rows * cols > 0 { b[k] = -9; }
  same("get_body_as_mut", &mm.get_body().to_vec(), &b)?;
  same("export_body", &mk().export_body(), &body)?;
  same("body_into_iter", &mk().body_into_iter().collect::<Vec<_>>(), &body)?;
  for s in [[rows, cols], [cols, rows], [rows + 1, cols], [rows, cols + 1], [1, rows * cols], [rows * cols, 1]] {
    let got = body.to_matrix(s);
    let ok = s[0] * s[1] == body.len();
    same(&format!("to_matrix({:?})", s), &got.is_ok(), &ok)?;
    if let Ok(g) = got {
      same("to_matrix body", &g.get_body().to_vec(), &body)?;
      same("to_matrix shape", &g.get_shape().to_vec(), &s.to_vec())?;
    }
  }
  Ok(())
}

pub fn c03(c: &mut Ctx) {
  let top = if c.thorough { 12 } else { 8 };
  for rows in 0..=top { for cols in 0..=top {
    c.case(format!("access {}x{}", rows, cols), || access(rows, cols, false));
  } }
  for (rows, cols) in [(1, 70), (70, 1), (33, 40), (128, 3), (3, 300), (257, 129), (1000, 17)] {
    c.case(format!("access {}x{}", rows, cols), || access(rows, cols, true));
  }
}

// ---------------------------------------------------------------- C04
fn lens(thorough: bool) -> Vec<usize> {
  let mut v: Vec<usize> = (0..=if thorough { 140 } else { 40 }).collect();
  v.extend([63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 10007, 32769, 70001]);
  v
}

fn slices<T: Num>(s: u64, n: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let a: Vec<T> = vals(&mut r, n);
  let b: Vec<T> = vals(&mut r, n);
  let k = loop { let k = T::any(&mut r); if k != T::default() { break k } };
  let zip = |f: &dyn Fn(T, T) -> T| -> Vec<T> { a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect() };
  let sum = zip(&|x, y| x + y);
  let prod = zip(&|x, y| x * y);
  let mut t = a.clone();
  t.add_slice_mut(&b).map_err(|e| format!("add_slice_mut {:?}", e))?;
  same("add_slice_mut", &t, &sum)?;
  same("add_slice", &a.add_slice(&b).map_err(|e| format!("add_slice {:?}", e))?, &sum)?;
  let mut t = a.clone();
  t.mul_slice_mut(&b).map_err(|e| format!("mul_slice_mut {:?}", e))?;
  same("mul_slice_mut", &t, &prod)?;
  same("mul_slice", &a.mul_slice(&b).map_err(|e| format!("mul_slice {:?}", e))?, &prod)?;
  let mut t = a.clone();
  t.mul_mut_scalar(k).map_err(|e| format!("mul_mut_scalar {:?}", e))?;
  same("mul_mut_scalar", &t, &a.iter().map(|x| *x * k).collect())?;
  let mut t = a.clone();
  t.div_mut_scalar(k).map_err(|e| format!("div_mut_scalar {:?}", e))?;
  same("div_mut_scalar", &t, &a.iter().map(|x| *x / k).collect())?;
  same("scalar_prod", &a.scalar_prod(&b), &dot(&a, &b))?;
  for m in [n + 1, n.wrapping_sub(1), n / 2, n + 8, 0] {
    if m == n || m == usize::MAX { continue }
    let o: Vec<T> = vals(&mut r, m);
    let mut t = a.clone();
    ensure(t.add_slice_mut(&o).is_err() && t == a, || format!("add_slice_mut of lengths {} and {}", n, m))?;
    ensure(t.mul_slice_mut(&o).is_err() && t == a, || format!("mul_slice_mut of lengths {} and {}", n, m))?;
    ensure(a.mul_slice(&o).is_err(), || format!("mul_slice of lengths {} and {}", n, m))?;
    match a.add_slice(&o) {
      Ok(v) => ensure(n == 0 && v == o, || format!("add_slice of lengths {} and {}", n, m))?,
      Err(_) => ensure(n != 0, || "add_slice refused an empty left-hand side".to_string())?,
    }
  }
  Ok(())
}

fn mats<T: Num>(s: u64, rows: usize, cols: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let a: M<T> = M::rnd(&mut r, rows, cols);
  let b: M<T> = M::rnd(&mut r, rows, cols);
  let k = loop { let k = T::any(&mut r); if k != T::default() { break k } };
  let mut t = a.real();
  t.add_mut(&b.real()).map_err(|e| format!("add_mut {:?}", e))?;
  a.add(&b).is(&t).map_err(|e| format!("add_mut: {}", e))?;
  let map = |f: &dyn Fn(T) -> T| M { r: rows, c: cols, d: a.d.iter().map(|x| f(*x)).collect() };
  let mut t = a.real(); t.add_mut_scalar(k).map_err(|e| format!("{:?}", e))?;
  map(&|x| x + k).is(&t).map_err(|e| format!("add_mut_scalar: {}", e))?;
  let mut t = a.real(); t.mul_mut_scalar(k).map_err(|e| format!("{:?}", e))?;
  map(&|x| x * k).is(&t).map_err(|e| format!("mul_mut_scalar: {}", e))?;
  let mut t = a.real(); t.div_mut_scalar(k).map_err(|e| format!("{:?}", e))?;
  map(&|x| x / k).is(&t).map_err(|e| format!("div_mut_scalar: {}", e))?;
  if rows * cols > 0 {
    for (r2, c2) in [(rows + 1, cols), (rows, cols + 1), (cols, rows), (rows * cols, 1)] {
      if (r2, c2) == (rows, cols) { continue }
      let o: M<T> = M::rnd(&mut r, r2, c2);
      let mut t = a.real();
      ensure(t.add_mut(&o.real()).is_err(), || format!("add_mut of {}x{} and {}x{} accepted", rows, cols, r2, c2))?;
      a.is(&t).map_err(|e| format!("refused add_mut changed the matrix: {}", e))?;
    }
    let mut t = a.real(); t.add_mut(&Matrix::new()).map_err(|e| format!("add_mut empty {:?}", e))?;
    a.is(&t).map_err(|e| format!("add_mut of an empty matrix: {}", e))?;
    let mut t: Matrix<T> = Matrix::new(); t.add_mut(&a.real()).map_err(|e| format!("add_mut to empty {:?}", e))?;
    a.is(&t).map_err(|e| format!("add_mut to an empty matrix: {}", e))?;
    same("capacity after add_mut to empty", &t.get_capacity().to_vec(), &vec![rows, cols])?;
  }
  if cols > 0 {
    let v: Vec<T> = vals(&mut r, cols);
    let want: Vec<T> = (0..rows).map(|i| dot(&a.d[i * cols..(i + 1) * cols], &v)).collect();
    let m = a.real();
    same("mul_vec", &m.mul_vec(v.clone()).map_err(|e| format!("mul_vec {:?}", e))?, &want)?;
    same("mul_slice", &m.mul_slice(&v).map_err(|e| format!("mul_slice {:?}", e))?, &want)?;
    a.is(&m).map_err(|e| format!("matrix changed by mul: {}", e))?;
    for n in [cols + 1, cols - 1, rows] {
      if n == cols { continue }
      let v: Vec<T> = vals(&mut r, n);
      ensure(m.mul_slice(&v).is_err(), || format!("mul_slice of {} columns with length {}", cols, n))?;
      ensure(m.mul_vec(v).is_err(), || format!("mul_vec of {} columns with length {}", cols, n))?;
    }
  }
  Ok(())
}

pub fn c04(c: &mut Ctx) {
  let mut r = c.rng("c04");
  let reps = if c.thorough { 4 } else { 1 };
  for n in lens(c.thorough) { for rep in 0..reps {
    let s = r.next();
    c.case(format!("slices exact len={} seed={}", n, s), || slices::<G>(s, n));
    if n < 2000 && rep == 0 {
      c.case(format!("slices cf32 len={} seed={}", n, s), || slices::<Cf32>(s, n));
      c.case(format!("slices cf64 len={} seed={}", n, s), || slices::<Cf64>(s, n));
    }
  } }
  let top = if c.thorough { 14 } else { 9 };
  let mut shapes: Vec<(usize, usize)> = (0..=top).flat_map(|a| (0..=top).map(move |b| (a, b))).collect();
  shapes.extend([(1, 1000), (1000, 1), (64, 64), (65, 129), (300, 40), (17, 600)]);
  for (a, b) in shapes { for _ in 0..reps {
    let s = r.next();
    c.case(format!("matrix exact {}x{} seed={}", a, b, s), || mats::<G>(s, a, b));
    c.case(format!("matrix cf32 {}x{} seed={}", a, b, s), || mats::<Cf32>(s, a, b));
    c.case(format!("matrix cf64 {}x{} seed={}", a, b, s), || mats::<Cf64>(s, a, b));
  } }
}

// ---------------------------------------------------------------- C05
fn conv1<T: Num>(s: u64, h: usize, w: usize, kh: usize, kw: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let a: M<T> = M::rnd(&mut r, h, w);
  let k: M<T> = M::rnd(&mut r, kh, kw);
  let (ra, rk) = (a.real(), k.real());
  let got = ra.convolution(&rk);
  if kh > h || kw > w {
    ensure(got.is_err(), || format!("kernel {}x{} accepted on {}x{}", kh, kw, h, w))?;
  } else {
    a.conv(&k).is(&got.map_err(|e| format!("convolution refused: {:?}", e))?)?;
    let ck = M { r: kh, c: kw, d: k.d.iter().map(|x| x.conj()).collect() };
    a.conv(&ck).is(&ra.cconvolution(&rk).map_err(|e| format!("cconvolution refused: {:?}", e))?).map_err(|e| format!("conjugate variant: {}", e))?;
  }
  a.is(&ra).map_err(|e| format!("input changed: {}", e))?;
  k.is(&rk).map_err(|e| format!("kernel changed: {}", e))
}

pub fn c05(c: &mut Ctx) {
  let mut r = c.rng("c05");
  let top = if c.thorough { 8 } else { 6 };
  let mut v = vec![];
  for h in 1..=top { for w in 1..=top { for kh in 1..=h + 1 { for kw in 1..=w + 1 { v.push((h, w, kh, kw)) } } } }
  v.extend([(28, 28, 3, 3), (28, 28, 5, 5), (40, 33, 7, 2), (64, 70, 3, 3), (1, 300, 1, 9), (300, 1, 17, 1), (33, 33, 33, 33), (20, 20, 1, 1), (50, 9, 3, 9), (130, 5, 2, 4), (12, 40, 11, 17), (20, 70, 5, 64), (70, 20, 64, 3)]);
  for (h, w, kh, kw) in v {
    let s = r.next();
    c.case(format!("conv exact {}x{} * {}x{} seed={}", h, w, kh, kw, s), || conv1::<G>(s, h, w, kh, kw));
    if (h + w) % 3 == 0 {
      c.case(format!("conv cf32 {}x{} * {}x{} seed={}", h, w, kh, kw, s), || conv1::<Cf32>(s, h, w, kh, kw));
      c.case(format!("conv cf64 {}x{} * {}x{} seed={}", h, w, kh, kw, s), || conv1::<Cf64>(s, h, w, kh, kw));
    }
  }
}

// ---------------------------------------------------------------- C06
fn flip_pad<T: Num>(s: u64, h: usize, w: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let a: M<T> = M::rnd(&mut r, h, w);
  let ra = a.real();
  a.flip().is(&ra.flip().map_err(|e| format!("{:?}", e))?).map_err(|e| format!("flip: {}", e))?;
  a.is(&ra).map_err(|e| format!("flip changed its operand: {}", e))?;
  for p0 in 0..4 { for p1 in 0..4 {
    a.pad((p0, p1)).is(&a.real().pad((p0, p1))).map_err(|e| format!("pad({},{}): {}", p0, p1, e))?;
  } }
  let p = (r.range(0, 9), r.range(0, 9));
  a.pad(p).is(&a.real().pad(p)).map_err(|e| format!("pad{:?}: {}", p, e))
}

fn reduce1<T: Num>(s: u64, h: usize, w: usize, b: [usize; 2]) -> Result<(), String> {
  let mut r = Rng(s);
  let a: M<T> = M::rnd(&mut r, h, w);
  let ra = a.real();
  for f in 0..4u8 {
    let bf = block_fn::<T>(f);
    let got = ra.block_reduce(&b, &bf);
    if h % b[0] != 0 || w % b[1] != 0 {
      ensure(got.is_err(), || format!("block {:?} accepted on {}x{}", b, h, w))?;
    } else {
      a.reduce(b, &bf).is(&got.map_err(|e| format!("block_reduce refused {:?}", e))?).map_err(|e| format!("block_reduce {:?} fn{}: {}", b, f, e))?;
    }
  }
  a.is(&ra).map_err(|e| format!("block_reduce changed its operand: {}", e))
}

fn up1<T: Num>(s: u64, h: usize, w: usize, b: [usize; 2], kh: usize, kw: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let a: M<T> = M::rnd(&mut r, h, w);
  let k: M<T> = M::rnd(&mut r, kh, kw);
  let ra = a.real();
  let got = ra.fractional_upsampling(&b, &k.real());
  if kh % 2 == 0 || kw % 2 == 0 {
    return ensure(got.is_err(), || format!("even kernel {}x{} accepted", kh, kw));
  }
  a.upsample(b, &k).is(&got.map_err(|e| format!("refused {:?}", e))?)?;
  a.is(&ra).map_err(|e| format!("up-sampling changed its operand: {}", e))
}

pub fn c06(c: &mut Ctx) {
  let mut r = c.rng("c06");
  let top = if c.thorough { 8 } else { 5 };
  let mut shapes: Vec<(usize, usize)> = (1..=top).flat_map(|a| (1..=top).map(move |b| (a, b))).collect();
  shapes.extend([(28, 28), (1, 90), (90, 1), (33, 20), (64, 65)]);
  for (h, w) in shapes {
    let s = r.next();
    c.case(format!("flip/pad exact {}x{} seed={}", h, w, s), || flip_pad::<G>(s, h, w));
    c.case(format!("flip/pad cf32 {}x{} seed={}", h, w, s), || flip_pad::<Cf32>(s, h, w));
  }
  for h in 1..=9usize { for w in 1..=9usize { for b0 in 1..=h { for b1 in 1..=w {
    if (h % b0 != 0 || w % b1 != 0) && (h + w + b0 + b1) % 4 != 0 { continue }
    let s = r.next();
    c.case(format!("block_reduce exact {}x{} by {}x{} seed={}", h, w, b0, b1, s), || reduce1::<G>(s, h, w, [b0, b1]));
  } } } }
  for (h, w, b0, b1) in [(28, 28, 2, 2), (64, 48, 8, 16), (100, 30, 10, 3), (12, 200, 3, 100), (3, 3, 5, 3), (3, 3, 3, 6), (24, 64, 12, 32), (70, 70, 35, 70)] {
    let s = r.next();
    c.case(format!("block_reduce exact {}x{} by {}x{} seed={}", h, w, b0, b1, s), || reduce1::<G>(s, h, w, [b0, b1]));
    c.case(format!("block_reduce cf64 {}x{} by {}x{} seed={}", h, w, b0, b1, s), || reduce1::<Cf64>(s, h, w, [b0, b1]));
  }
  for h in 1..=3usize { for w in 1..=3usize { for b0 in 1..=5usize { for b1 in 1..=5usize {
    for (kh, kw) in [(1, 1), (3, 3), (1, 3), (3, 1), (5, 3), (5, 5), (2, 3), (3, 4), (7, 5)] {
      if !c.thorough && (h + w + b0 + b1 + kh) % 2 == 0 && h + w > 3 { continue }
      let s = r.next();
      c.case(format!("upsample exact {}x{} block {}x{} kernel {}x{} seed={}", h, w, b0, b1, kh, kw, s), || up1::<G>(s, h, w, [b0, b1], kh, kw));
    }
  } } } }
  for (h, w, b0, b1, kh, kw) in [(13, 13, 2, 2, 3, 3), (7, 20, 3, 4, 5, 5), (9, 8, 6, 7, 9, 11), (1, 1, 40, 33, 1, 3), (20, 1, 9, 8, 3, 1)] {
    let s = r.next();
    c.case(format!("upsample exact {}x{} block {}x{} kernel {}x{} seed={}", h, w, b0, b1, kh, kw, s), || up1::<G>(s, h, w, [b0, b1], kh, kw));
    c.case(format!("upsample cf32 {}x{} block {}x{} kernel {}x{} seed={}", h, w, b0, b1, kh, kw, s), || up1::<Cf32>(s, h, w, [b0, b1], kh, kw));
  }
}
