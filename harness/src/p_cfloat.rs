//! C01, C13, C12 (per-value part), C14, C15 (generators): code over floats.
use renplex::act::ComplexActFunc;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::random::{lcgf32, lcgf64, lcgi};
use renplex::math::{Complex, Real};
use renplex::init::{InitMethod, PredictModel};
use renplex::opt::ComplexLossFunc;
use crate::ctx::*;

pub type Z = (f64, f64);
pub fn zmul(a: Z, b: Z) -> Z { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
pub fn zabs(a: Z) -> f64 { a.0.hypot(a.1) }

/// Bridge to the two concrete types.
pub trait Cx: Complex + renplex::math::BasicOperations<Self> + PartialEq {
  const N: &'static str;
  const EPS: f64;
  const MAXEXP: f64;
  fn mk(z: Z) -> Self;
  fn z(&self) -> Z;
  fn refops(a: &Self, b: &Self) -> [Result<Self, String>; 4];
  fn pr(p: Self::Precision) -> f64;
  fn rp(x: f64) -> Self::Precision;
  fn act(f: &ComplexActFunc, v: &Self) -> [Self; 3];
  fn rel(f: &ComplexActFunc, v: &Self) -> [Self; 3];
  fn act_sl(f: &ComplexActFunc, v: &[Self]) -> [Vec<Self>; 3];
  fn loss_(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Result<f64, String>;
  fn d_loss_(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Result<Vec<Self>, String>;
}
macro_rules! cx { ($t:ty, $p:ty, $n:expr, $me:expr, $cv:ident, $cd:ident, $cc:ident, $rf:ident, $rd:ident, $rc:ident, $sv:ident, $sd:ident, $sc:ident) => {
  impl Cx for $t {
    const N: &'static str = $n;
    const EPS: f64 = <$p>::EPSILON as f64;
    const MAXEXP: f64 = $me;
    fn mk(z: Z) -> Self { Self { x: z.0 as $p, y: z.1 as $p } }
    fn z(&self) -> Z { (self.x as f64, self.y as f64) }
    fn refops(a: &Self, b: &Self) -> [Result<Self, String>; 4] { [quiet(|| a + b), quiet(|| a - b), quiet(|| a * b), quiet(|| a / b)] }
    fn pr(p: $p) -> f64 { p as f64 }
    fn rp(x: f64) -> $p { x as $p }
    fn act(f: &ComplexActFunc, v: &Self) -> [Self; 3] { [f.$cv(v), f.$cd(v), f.$cc(v)] }
    fn rel(f: &ComplexActFunc, v: &Self) -> [Self; 3] { [f.$rf()(*v), f.$rd()(*v), f.$rc()(*v)] }
    fn act_sl(f: &ComplexActFunc, v: &[Self]) -> [Vec<Self>; 3] {
      let (mut a, mut b, mut c) = (v.to_vec(), v.to_vec(), v.to_vec());
      f.$sv(&mut a); f.$sd(&mut b); f.$sc(&mut c);
      [a, b, c]
    }
    fn loss_(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Result<f64, String> {
      let a = Self::loss(t, p, f).map(|x| x as f64).map_err(|e| format!("{:?}", e));
      let b = f.$sv(t, p).map(|x| x as f64).map_err(|e| format!("{:?}", e));
      if a != b && !(a.as_ref().map_or(false, |x| x.is_nan()) && b.as_ref().map_or(false, |x| x.is_nan())) { panic!("loss() gives {:?} but the loss function {:?}", a, b) }
      a
    }
    fn d_loss_(f: &ComplexLossFunc, t: &IOType<Self>, p: &IOType<Self>) -> Result<Vec<Self>, String> {
      let a = Self::d_loss(t, p, f).map_err(|e| format!("{:?}", e));
      let b = f.$sd(t, p).map_err(|e| format!("{:?}", e));
      if a != b { panic!("d_loss() gives {:?} but the loss function {:?}", a, b) }
      a
    }
  }
} }
cx!(Cf32, f32, "cf32", 9.0, compute_val_cf32, compute_d_val_cf32, compute_d_conj_val_cf32, release_func_cf32, release_dfunc_cf32, release_dfunc_conj_cf32, compute_cf32, compute_d_cf32, compute_d_conj_cf32);
cx!(Cf64, f64, "cf64", 70.0, compute_val_cf64, compute_d_val_cf64, compute_d_conj_val_cf64, release_func_cf64, release_dfunc_cf64, release_dfunc_conj_cf64, compute_cf64, compute_d_cf64, compute_d_conj_cf64);

pub fn close(what: &str, got: Z, want: Z, tol: f64) -> Result<(), String> {
  let d = (got.0 - want.0).abs().max((got.1 - want.1).abs());
  if d <= tol && got.0.is_finite() && got.1.is_finite() { Ok(()) } else { Err(format!("{}: got {:?} expected {:?} (tolerance {:e})", what, got, want, tol)) }
}
fn num(r: &mut Rng, me: f64, wide: bool) -> f64 {
  let s = if r.range(0, 1) == 0 { -1.0 } else { 1.0 };
  let e = if wide { (2.0 * r.f() - 1.0) * me } else { 2.0 * r.f() - 1.0 };
  s * 10f64.powf(e)
}

fn c01_pair<T: Cx>(a: Z, b: Z) -> Result<(), String> {
  let (x, y) = (T::mk(a), T::mk(b));
  let (a, b) = (x.z(), y.z());
  let nb = b.0 * b.0 + b.1 * b.1;
  let (aa, ab) = (zabs(a), zabs(b));
  let e = 16.0 * T::EPS;
  let want = [(a.0 + b.0, a.1 + b.1), (a.0 - b.0, a.1 - b.1), zmul(a, b), ((a.0 * b.0 + a.1 * b.1) / nb, (a.1 * b.0 - a.0 * b.1) / nb)];
  let tol = [e * (aa + ab), e * (aa + ab), e * aa * ab, e * aa / ab];
  let val = [quiet(|| x + y), quiet(|| x - y), quiet(|| x * y), quiet(|| x / y)];
  let asg = [
    quiet(|| { let mut t = x; t += y; t }), quiet(|| { let mut t = x; t -= y; t }),
    quiet(|| { let mut t = x; t *= y; t }), quiet(|| { let mut t = x; t /= y; t }),
  ];
  let rf = T::refops(&x, &y);
  for (form, got) in [("by value", &val), ("by reference", &rf), ("compound assignment", &asg)] {
    for k in 0..4 {
      let name = format!("{:?} {} {:?} {}", a, ["+", "-", "*", "/"][k], b, form);
      if k == 3 && b == (0.0, 0.0) {
        ensure(got[k].is_err(), || format!("{}: division by zero gave {:?}", name, got[k]))?;
      } else {
        close(&name, got[k].as_ref().map_err(|m| format!("{} panicked {}", name, m))?.z(), want[k], tol[k])?;
      }
    }
  }
  Ok(())
}

fn c01_unary<T: Cx>(a: Z) -> Result<(), String> {
  let x = T::mk(a);
  let a = x.z();
  let e = 8.0 * T::EPS;
  same("conj", &x.conj().z(), &(a.0, -a.1))?;
  same("re, im", &(T::pr(x.re()), T::pr(x.im())), &a)?;
  let n = a.0 * a.0 + a.1 * a.1;
  close("norm_sq", (T::pr(x.norm_sq()), 0.0), (n, 0.0), e * n)?;
  close("norm", (T::pr(x.norm()), 0.0), (zabs(a), 0.0), e * zabs(a))?;
  if n != 0.0 {
    let ph = a.1.atan2(a.0);
    close("phase", (T::pr(x.phase()), 0.0), (ph, 0.0), 16.0 * T::EPS)?;
    let back = T::newe(x.norm(), x.phase());
    close("newe(norm, phase)", back.z(), a, 32.0 * T::EPS * zabs(a))?;
  }
  let m = T::new(T::rp(a.0), T::rp(a.1));
  same("new", &m.z(), &a)?;
  let p = T::newe(T::rp(2.5), T::rp(a.1.rem_euclid(6.0) - 3.0));
  let q = a.1.rem_euclid(6.0) - 3.0;
  let q = T::pr(T::rp(q));
  close("newe", p.z(), (2.5 * q.cos(), 2.5 * q.sin()), 64.0 * T::EPS)?;
  Ok(())
}

fn c01_cmp<T: Cx>(a: Z, b: Z, exact: bool) -> Result<(), String> {
  let (x, y) = (T::mk(a), T::mk(b));
  let (na, nb) = (zabs(x.z()), zabs(y.z()));
  if !exact && (na - nb).abs() <= 1e-5 * (na + nb) { return Ok(()) }
  let (n, m) = if exact { (a.0 * a.0 + a.1 * a.1, b.0 * b.0 + b.1 * b.1) } else { (na, nb) };
  same(&format!("{:?} < {:?}", a, b), &(x < y), &(n < m))?;
  same(&format!("{:?} > {:?}", a, b), &(x > y), &(n > m))?;
  same(&format!("{:?} <= {:?}", a, b), &(x <= y), &(n <= m))?;
  same(&format!("{:?} >= {:?}", a, b), &(x >= y), &(n >= m))?;
  same(&format!("partial_cmp {:?} {:?}", a, b), &x.partial_cmp(&y), &n.partial_cmp(&m))
}

fn c01_t<T: Cx>(c: &mut Ctx) {
  let mut r = c.rng("c01");
  c.case(format!("{} constants", T::N), || {
    same("default", &T::default().z(), &(0.0, 0.0))?;
    same("unit", &T::unit().z(), &(1.0, 0.0))?;
    same("iunit", &T::iunit().z(), &(0.0, 1.0))?;
    same("norm of 0", &T::pr(T::default().norm()), &0.0)?;
    for n in [0usize, 1, 2, 3, 10, 255, 256, 1000, 65535, 65536, 1 << 20, 1 << 24, 1 << 31, 1 << 32, (1 << 32) + (1 << 20), 3 << 40, 1 << 53, 1 << 63, usize::MAX] {
      same(&format!("usize_to_complex({})", n), &T::usize_to_complex(n).z(), &(n as f64, 0.0))?;
      same(&format!("usize_to_real({})", n), &T::pr(T::Precision::usize_to_real(n)), &(n as f64))?;
    }
    same("real unit", &T::pr(T::Precision::unit()), &1.0)
  });
  let g: Vec<f64> = if c.thorough { (-6..=6).map(|x| x as f64).collect() } else { vec![-5.0, -3.0, -1.0, 0.0, 1.0, 2.0, 4.0] };
  for &a in &g { for &b in &g {
    c.case(format!("{} unary {:?}", T::N, (a, b)), || c01_unary::<T>((a, b)));
    for &x in &g { for &y in &g {
      c.case(format!("{} pair {:?} {:?}", T::N, (a, b), (x, y)), || { c01_pair::<T>((a, b), (x, y))?; c01_cmp::<T>((a, b), (x, y), true) });
    } }
  } }
  for (a, b) in [((3.0, 4.0), (5.0, 0.0)), ((3.0, 4.0), (-5.0, 0.0)), ((0.0, 5.0), (-4.0, 3.0)), ((1e-3, 0.0), (0.0, -0.0)), ((7.0, -24.0), (25.0, 0.0)), ((-7.0, 24.0), (24.0, 7.0)), ((0.0, 0.0), (-0.0, -0.0)), ((5.0, 1.0), (0.0, -0.0))] {
    c.case(format!("{} special {:?} {:?}", T::N, a, b), || { c01_pair::<T>(a, b)?; if a.0.fract() == 0.0 { c01_cmp::<T>(a, b, true)? } Ok(()) });
  }
  let n = if c.thorough { 400000 } else { 40000 };
  for k in 0..n {
    let wide = k % 2 == 0;
    let mut v = [0.0f64; 4];
    for q in v.iter_mut() { *q = num(&mut r, T::MAXEXP, wide) }
    if wide && k % 4 == 0 { // same order of magnitude
      v[1] = v[0] * (2.0 * r.f() - 1.0); v[2] = v[0] * (2.0 * r.f() - 1.0); v[3] = v[0] * (2.0 * r.f() - 1.0);
      if v.iter().any(|x| x.abs() < 10f64.powf(-T::MAXEXP)) { continue }
    }
    if k % 7 == 0 { v[r.range(0, 3)] = 0.0 }
    let (a, b) = ((v[0], v[1]), (v[2], v[3]));
    c.case(format!("{} random {:?} {:?}", T::N, a, b), || { if b != (0.0, 0.0) { c01_pair::<T>(a, b)? } c01_unary::<T>(a)?; c01_cmp::<T>(a, b, false) });
  }
}
pub fn c01(c: &mut Ctx) { c01_t::<Cf32>(c); c01_t::<Cf64>(c); }

// ---------------------------------------------------------------- C13
pub const ACTS: [ComplexActFunc; 7] = [ComplexActFunc::None, ComplexActFunc::ModZ, ComplexActFunc::RITSigmoid, ComplexActFunc::RITTanh, ComplexActFunc::RITReLU, ComplexActFunc::ZReLU, ComplexActFunc::Cardioid];

fn sig(x: f64) -> f64 { 1.0 / (1.0 + (-x).exp()) }
/// Value, d/dz, d/dz*, each with its tolerance.
fn act_ref(f: &ComplexActFunc, z: Z, eps: f64) -> [(Z, f64); 3] {
  use ComplexActFunc as A;
  let (x, y) = z;
  let n = zabs(z);
  let e = 64.0 * eps;
  match f {
    A::None => [(z, e * n), ((1.0, 0.0), e), ((0.0, 0.0), e)],
    A::ModZ => {
      let u = (x / n, y / n);
      let u2 = zmul(u, u);
      [(u, e), ((0.5 / n, 0.0), e / n), ((-0.5 / n * u2.0, -0.5 / n * u2.1), e / n)]
    }
    A::RITSigmoid => {
      let d = |v: f64| sig(v) * (1.0 - sig(v));
      let s = 2e-6 + e;
      [((sig(x), sig(y)), s), (((d(x) + d(y)) / 2.0, 0.0), s), (((d(x) - d(y)) / 2.0, 0.0), s)]
    }
    A::RITTanh => {
      let d = |v: f64| { let t = 1.0 / v.cosh(); t * t };
      [((x.tanh(), y.tanh()), e), (((d(x) + d(y)) / 2.0, 0.0), e), (((d(x) - d(y)) / 2.0, 0.0), e)]
    }
    A::RITReLU => {
      let d = |v: f64| if v.is_sign_negative() { 0.0 } else { 1.0 };
      [((x.max(0.0), y.max(0.0)), e * n), (((d(x) + d(y)) / 2.0, 0.0), e), (((d(x) - d(y)) / 2.0, 0.0), e)]
    }
    A::ZReLU => {
      let on = !x.is_sign_negative() && !y.is_sign_negative();
      [(if on { z } else { (0.0, 0.0) }, e * n), (if on { (1.0, 0.0) } else { (0.0, 0.0) }, e), ((0.0, 0.0), e)]
    }
    A::Cardioid => {
      let p = y.atan2(x);
      let (s, c) = (p.sin(), p.cos());
      // df/dp of 2(1+cos p)(cos p + i sin p)
      let g = (2.0 * (-s * c - (1.0 + c) * s), 2.0 * (-s * s + (1.0 + c) * c));
      let fx = (-s / n * g.0, -s / n * g.1);
      let fy = (c / n * g.0, c / n * g.1);
      let d = ((fx.0 + fy.1) / 2.0, (fx.1 - fy.0) / 2.0);
      let dc = ((fx.0 - fy.1) / 2.0, (fx.1 + fy.0) / 2.0);
      [((2.0 * (1.0 + c) * c, 2.0 * (1.0 + c) * s), 4.0 * e), (d, 8.0 * e / n), (dc, 8.0 * e / n)]
    }
  }
}

fn act_point<T: Cx>(f: &ComplexActFunc, z: Z) -> Result<(), String> {
  let v = T::mk(z);
  let z = v.z();
  if zabs(z) == 0.0 && matches!(f, ComplexActFunc::ModZ | ComplexActFunc::Cardioid) { return Ok(()) }
  let want = act_ref(f, z, T::EPS);
  let single = T::act(f, &v);
  let tr = [v.activate(f), v.d_activate(f), v.d_conj_activate(f)];
  let rel = T::rel(f, &v);
  // on the axes the one-sided ReLU derivative depends on the sign of zero; both one-sided values are accepted
  let kink = (z.0 == 0.0 || z.1 == 0.0) && matches!(f, ComplexActFunc::RITReLU | ComplexActFunc::ZReLU);
  for (form, got) in [("compute_val", &single), ("Complex method", &tr), ("released function", &rel)] {
    for k in 0..3 {
      if kink && k > 0 { continue }
      close(&format!("{:?} {} at {:?} ({})", f, ["value", "derivative", "conjugate derivative"][k], z, form), got[k].z(), want[k].0, want[k].1)?;
    }
  }
  Ok(())
}

fn act_slice<T: Cx>(f: &ComplexActFunc, zs: &[Z]) -> Result<(), String> {
  let v: Vec<T> = zs.iter().map(|z| T::mk(*z)).collect();
  let sl = T::act_sl(f, &v);
  let (mut a, mut b, mut c) = (v.clone(), v.clone(), v.clone());
  T::activate_mut(&mut a, f); T::d_activate_mut(&mut b, f); T::d_conj_activate_mut(&mut c, f);
  let tr = [a, b, c];
  for (form, got) in [("compute", &sl), ("Complex method", &tr)] {
    for k in 0..3 {
      same(&format!("{:?} slice length ({})", f, form), &got[k].len(), &v.len())?;
      for (i, x) in v.iter().enumerate() {
        let w = T::act(f, x)[k];
        let n = zabs(w.z()).max(1.0);
        close(&format!("{:?} {} slice element {} of {} at {:?} ({})", f, k, i, v.len(), x.z(), form), got[k][i].z(), w.z(), 4.0 * T::EPS * n)?;
      }
    }
  }
  Ok(())
}

fn c13_t<T: Cx>(c: &mut Ctx) {
  let mut r = c.rng("c13");
  let mut g: Vec<f64> = vec![-40.0, -31.0, -30.0, -29.5, -16.0, -15.0, -14.5, -7.0, -2.0, -1.0, -0.5, -1e-3, 0.0, 1e-3, 0.5, 1.0, 2.0, 7.0, 14.5, 15.0, 16.0, 29.5, 30.0, 31.0, 40.0];
  if c.thorough { for k in -40..=40 { g.push(k as f64 + 0.25) } }
  for f in ACTS.iter() {
    for &x in &g { for &y in &g {
      c.case(format!("{} {:?} at ({:?},{:?})", T::N, f, x, y), || act_point::<T>(f, (x, y)));
    } }
    for k in 0..if c.thorough { 60000 } else { 5000 } {
      let z = if k % 2 == 0 { (num(&mut r, 3.0, true), num(&mut r, 3.0, true)) } else { (10.0 * (2.0 * r.f() - 1.0), 10.0 * (2.0 * r.f() - 1.0)) };
      c.case(format!("{} {:?} random {:?}", T::N, f, z), || act_point::<T>(f, z));
    }
    let mut ls: Vec<usize> = (0..=40).collect();
    ls.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4099]);
    for n in ls {
      let mut zs: Vec<Z> = (0..n).map(|_| (6.0 * (2.0 * r.f() - 1.0), 6.0 * (2.0 * r.f() - 1.0))).collect();
      if n > 3 { let k = r.range(1, n - 1); zs[k] = zs[0]; zs[n - 1] = (20.0, -35.0) }
      c.case(format!("{} {:?} slice of {} seed={}", T::N, f, n, c.seed), || act_slice::<T>(f, &zs));
    }
  }
}
pub fn c13(c: &mut Ctx) { c13_t::<Cf32>(c); c13_t::<Cf64>(c); }

// ---------------------------------------------------------------- C12
fn io<T: Cx>(v: &[Z], maps: Option<&[(usize, usize)]>) -> IOType<T> {
  let v: Vec<T> = v.iter().map(|z| T::mk(*z)).collect();
  match maps {
    None => IOType::Scalar(v),
    Some(ms) => {
      let mut at = 0;
      IOType::Matrix(ms.iter().map(|(r, c)| { let m = Matrix::from_body(v[at..at + r * c].to_vec(), [*r, *c]); at += r * c; m }).collect())
    }
  }
}

fn loss_case<T: Cx>(t: &[Z], p: &[Z], maps: Option<&[(usize, usize)]>, known: &mut bool) -> Result<(), String> {
  let n = t.len();
  let tv: Vec<Z> = t.iter().map(|z| T::mk(*z).z()).collect();
  let pv: Vec<Z> = p.iter().map(|z| T::mk(*z).z()).collect();
  let (ti, pi) = (io::<T>(t, maps), io::<T>(p, maps));
  let k = 8.0 + n as f64;
  // mean square
  let ms = tv.iter().zip(pv.iter()).map(|(a, b)| (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sum::<f64>() / n as f64;
  let got = T::loss_(&ComplexLossFunc::MeanSquare, &ti, &pi)?;
  let size = tv.iter().chain(pv.iter()).map(|z| zabs(*z).powi(2)).fold(0.0, f64::max);
  close("mean-square loss", (got, 0.0), (ms, 0.0), 8.0 * k * T::EPS * size.max(ms))?;
  let d = T::d_loss_(&ComplexLossFunc::MeanSquare, &ti, &pi)?;
  same("mean-square derivative length", &d.len(), &n)?;
  for i in 0..n {
    close(&format!("mean-square derivative {}", i), d[i].z(), (pv[i].0 - tv[i].0, -(pv[i].1 - tv[i].1)), 8.0 * T::EPS * (zabs(pv[i]) + zabs(tv[i])))?;
  }
  // cross entropy
  let ex: Vec<f64> = pv.iter().map(|z| (z.0 * z.0 + z.1 * z.1).exp()).collect();
  let sum: f64 = ex.iter().sum();
  let ce: f64 = -(0..n).map(|i| tv[i].0 * (ex[i] / sum).ln()).sum::<f64>();
  let got = T::loss_(&ComplexLossFunc::NormCrossEntropy, &ti, &pi)?;
  let mag: f64 = (0..n).map(|i| (tv[i].0 * (ex[i] / sum).ln()).abs() + tv[i].0.abs()).sum::<f64>();
  close("cross-entropy loss", (got, 0.0), (ce, 0.0), 64.0 * k * T::EPS * (mag + 1.0))?;
  let d = T::d_loss_(&ComplexLossFunc::NormCrossEntropy, &ti, &pi)?;
  same("cross-entropy derivative length", &d.len(), &n)?;
  let st: f64 = tv.iter().map(|z| z.0).sum();
  let mut ok = true;
  let mut asis = true;
  let mut first = String::new();
  for i in 0..n {
    let s = ex[i] / sum * st - tv[i].0;
    let want = (s * pv[i].0, -s * pv[i].1);
    let tol = 256.0 * k * T::EPS * (1.0 + zabs(pv[i])) * (1.0 + mag);
    if let Err(e) = close(&format!("cross-entropy derivative {}", i), d[i].z(), want, tol) { ok = false; if first.is_empty() { first = e } }
    if close("", d[i].z(), (pv[i].0 - tv[i].0, -(pv[i].1 - tv[i].1)), 8.0 * T::EPS * (zabs(pv[i]) + zabs(tv[i]))).is_err() { asis = false }
  }
  if !ok {
    // recorded defect: the cross-entropy derivative is the mean-square one
    if asis { *known = true } else { return Err(first) }
  }
  Ok(())
}

pub fn c12_t<T: Cx>(c: &mut Ctx) {
  let mut r = c.rng("c12");
  let mut ls: Vec<usize> = (1..=24).collect();
  ls.extend([31, 32, 33, 63, 64, 65, 100, 128, 129, 257, 1000, 4097]);
  let reps = if c.thorough { 40 } else { 6 };
  let mut known = false;
  for n in ls { for rep in 0..reps {
    let sc = if rep % 3 == 0 { 0.5 } else { 1.8 };
    let mut p: Vec<Z> = (0..n).map(|_| (sc * (2.0 * r.f() - 1.0), sc * (2.0 * r.f() - 1.0))).collect();
    let mut t: Vec<Z> = if rep % 2 == 0 {
      let k = r.range(0, n - 1); (0..n).map(|i| (if i == k { 1.0 } else { 0.0 }, 0.0)).collect()
    } else { (0..n).map(|_| (2.0 * r.f() - 1.0, 2.0 * r.f() - 1.0)).collect() };
    if rep % 5 == 4 { let k = r.range(0, n - 1); p[k] = (0.0, 0.0); t[r.range(0, n - 1)] = p[r.range(0, n - 1)] }
    let maps: Option<Vec<(usize, usize)>> = if rep % 2 == 1 && n > 1 {
      let a = r.range(1, n - 1);
      let f = |m: usize| { for d in 2..m { if m % d == 0 { return (d, m / d) } } (1, m) };
      Some(vec![f(a), f(n - a)])
    } else { None };
    c.case(format!("{} losses n={} rep={} maps={:?} seed={}", T::N, n, rep, maps, c.seed), || loss_case::<T>(&t, &p, maps.as_deref(), &mut known));
  } }
  c.case(format!("{} vector against maps", T::N), || {
    let a = [(0.5, 0.25), (1.0, 0.0), (0.0, 0.0), (0.0, -1.0)];
    let (v, m) = (io::<T>(&a, None), io::<T>(&a, Some(&[(2, 2)])));
    for f in [ComplexLossFunc::MeanSquare, ComplexLossFunc::NormCrossEntropy] {
      for (t, p) in [(&v, &m), (&m, &v)] {
        ensure(T::loss_(&f, t, p).is_err(), || format!("{:?} of a vector and maps accepted", f))?;
        ensure(T::d_loss_(&f, t, p).is_err(), || format!("{:?} derivative of a vector and maps accepted", f))?;
      }
    }
    Ok(())
  });
  if known { c.known.push(format!("property=C12 {}: the derivative of the cross-entropy loss is the mean-square derivative conj(prediction - target)", T::N)) }
}
pub fn c12_values(c: &mut Ctx) { c12_t::<Cf32>(c); c12_t::<Cf64>(c); }

// ---------------------------------------------------------------- C14
const A: u128 = 1103515245;
const B: u128 = 12345;
const MM: u128 = (1u128 << 31) - 1;
fn step(s: u128) -> u128 { (A * (s % MM) + B) % MM }
fn inv_mod(a: u128) -> u128 { let mut r = 1u128; let (mut b, mut e) = (a % MM, MM - 2); while e > 0 { if e & 1 == 1 { r = r * b % MM } b = b * b % MM; e >>= 1 } r }

fn rng_case(s0: u128, steps: usize, limits: &[u128]) -> Result<(), String> {
  let (mut a, mut b) = (s0, s0);
  let mut m = s0;
  for k in 0..steps {
    let x = quiet(|| { let v = lcgf32(&mut a); v }).map_err(|e| format!("lcgf32 from seed {} panicked at call {}: {}", s0, k, e))?;
    let y = quiet(|| { let v = lcgf64(&mut b); v }).map_err(|e| format!("lcgf64 from seed {} panicked at call {}: {}", s0, k, e))?;
    for &l in limits {
      let mut i = m;
      let v = quiet(|| lcgi(&mut i, l)).map_err(|e| format!("lcgi from seed {} limit {} panicked: {}", m, l, e))?;
      same(&format!("lcgi seed after {}", m), &i, &step(m))?;
      ensure((v as u128) < l, || format!("lcgi from seed {} limit {} gave index {}", m, l, v))?;
      let want = step(m) * l / MM;
      same(&format!("lcgi from seed {} limit {}", m, l), &(v as u128), &want)?;
    }
    m = step(m);
    same(&format!("lcgf32 seed after {} calls from {}", k + 1, s0), &a, &m)?;
    same(&format!("lcgf64 seed after {} calls from {}", k + 1, s0), &b, &m)?;
    let v = m as f64 / (1u64 << 31) as f64;
    close(&format!("lcgf32 at new seed {}", m), (x as f64, 0.0), (v, 0.0), 2e-7)?;
    close(&format!("lcgf64 at new seed {}", m), (y, 0.0), (v, 0.0), 1e-15)?;
    ensure((0.0..=1.0).contains(&x) && (0.0..=1.0).contains(&y), || format!("value outside [0,1]: {} {}", x, y))?;
  }
  Ok(())
}

pub fn c14(c: &mut Ctx) {
  let mut r = c.rng("c14");
  let lim: Vec<u128> = vec![1, 2, 3, 8, 10, 11, 100, 255, 256, 1000, 65537, 1 << 31, (1 << 31) - 1, (1 << 32) + 5, (1u128 << 53) + 1, u64::MAX as u128, 1u128 << 64];
  let mut seeds: Vec<u128> = vec![0, 1, 2, 12345, MM - 1, MM, MM + 1, 2 * MM, 1 << 31, u32::MAX as u128, u64::MAX as u128, (1u128 << 97), u128::MAX / A, u128::MAX / A + 1, (u128::MAX - B) / A + 1, u128::MAX - 1, u128::MAX];
  let ai = inv_mod(A);
  for t in [0u128, 1, 2, 3, MM / 8, MM / 2, MM / 2 + 1, MM - 3, MM - 2, MM - 1] { seeds.push((t + MM - B % MM) % MM * ai % MM) }
  for l in [3u128, 8, 10, 100] { for k in 1..l.min(10) {
    let edge = (k * MM + l - 1) / l;
    for t in [edge - 1, edge] { seeds.push((t % MM + MM - B % MM) % MM * ai % MM) }
  } }
  let n = if c.thorough { 60000 } else { 4000 };
  for k in 0..n {
    let s = ((r.next() as u128) << 64) | r.next() as u128;
    seeds.push(match k % 4 { 0 => s, 1 => s >> 64, 2 => s % MM, _ => s >> r.range(0, 127) });
  }
  for s in seeds {
    let mut l = lim.clone();
    l.push(1 + (r.next() as u128) % 1000);
    l.push(1 + (r.next() as u128));
    c.case(format!("generators from seed {}", s), || rng_case(s, 4, &l));
  }
  c.case("equal seeds give equal sequences, indices spread over the range".to_string(), || {
    let (mut a, mut b) = (99u128, 99u128);
    let mut seen = [0usize; 10];
    for _ in 0..2000 { let (x, y) = (lcgi(&mut a, 10), lcgi(&mut b, 10)); same("sequence", &x, &y)?; seen[x] += 1; }
    ensure(seen.iter().all(|n| *n > 50), || format!("index counts {:?}", seen))
  });
}

// ---------------------------------------------------------------- C15 values
fn draw(s: &mut u128) -> f64 { *s = step(*s); *s as f64 / (1u64 << 31) as f64 }

/// Bounds, and Box-Muller radius, for one generated weight.
fn gen_case<T: Cx>(method: usize, arg: usize, seed: u128) -> Result<(), String> {
  let m = match method { 0 => InitMethod::Uniform(arg), 1 => InitMethod::XavierGlorotU(arg), 2 => InitMethod::Xavier(arg), 3 => InitMethod::HeInit(arg), _ => InitMethod::XavierGlorotN(arg) };
  let mut s = seed;
  let w: T = m.gen(&mut s);
  let z = w.z();
  ensure(z.0.is_finite() && z.1.is_finite(), || format!("weight {:?} from seed {}", z, seed))?;
  let mut s2 = seed;
  let w2: T = m.gen(&mut s2);
  ensure(w == w2 && s == s2, || format!("not reproducible from seed {}", seed))?;
  let direct: T = { let mut q = seed; match method { 0 => T::gen(&mut q, arg), 1 => T::gen_xagu(&mut q, arg), 2 => T::gen_xa(&mut q, arg), 3 => T::gen_he(&mut q, arg), _ => T::gen_xagn(&mut q, arg) } };
  same("InitMethod and generator", &w, &direct)?;
  let a = arg as f64;
  let tol = 1.0 + 64.0 * T::EPS;
  let n = zabs(z);
  match method {
    0 => ensure(n <= a * tol, || format!("|{:?}| above the scale {}", z, arg))?,
    1 => ensure(n <= (6.0 / a).sqrt() * tol, || format!("|{:?}| above sqrt(6/{})", z, arg))?,
    2 => ensure(n <= (12.0 / a).sqrt() * tol, || format!("|{:?}| above sqrt(12/{})", z, arg))?,
    _ => {
      // the radius is the Box-Muller normal of the first two draws
      let mut q = seed;
      let u1 = draw(&mut q).max(1e-45);
      let u2 = draw(&mut q);
      let r = ((-2.0 * u1.ln()).max(0.0).sqrt() * (2.0 * std::f64::consts::PI * u2).cos() * (2.0 / a).sqrt()).abs();
      if step(seed) != 0 {
        let lim = ((-2.0 * u1.ln()).max(0.0).sqrt() * (2.0 / a).sqrt()).max((2.0 / a).sqrt());
        ensure((n - r).abs() <= 2e-3 * lim + 1e-6, || format!("radius {} from seed {}, Box-Muller radius {}", n, seed, r))?;
      }
    }
  }
  ensure(s != seed || step(seed) == seed, || "seed not advanced".to_string())
}

/// The weights of many seeds fill the disc: every quarter of the circle, and radii up to the bound.
fn spread_case<T: Cx>(method: usize, arg: usize, seeds: &[u128]) -> Result<(), String> {
  let m = match method { 0 => InitMethod::Uniform(arg), 1 => InitMethod::XavierGlorotU(arg), 2 => InitMethod::Xavier(arg), 3 => InitMethod::HeInit(arg), _ => InitMethod::XavierGlorotN(arg) };
  let a = arg as f64;
  let bound = match method { 0 => a, 1 => (6.0 / a).sqrt(), 2 => (12.0 / a).sqrt(), _ => (2.0 / a).sqrt() };
  let (mut quarter, mut top) = ([0usize; 4], 0.0f64);
  for &s in seeds {
    let mut q = s;
    let w: T = m.gen(&mut q);
    let z = w.z();
    quarter[(if z.0 < 0.0 { 1 } else { 0 }) + (if z.1 < 0.0 { 2 } else { 0 })] += 1;
    top = top.max(zabs(z));
  }
  let n = seeds.len();
  ensure(quarter.iter().all(|k| *k * 100 > n * 18 && *k * 100 < n * 32), || format!("of {} weights the quarters of the circle get {:?}", n, quarter))?;
  ensure(top > 0.95 * bound, || format!("of {} weights the largest modulus is {}, the range goes to {}", n, top, bound))
}

pub fn c15_values(c: &mut Ctx) {
  let mut r = c.rng("c15v");
  let many: Vec<u128> = (0..2000).map(|_| r.next() as u128).collect();
  for method in 0..5 { for arg in [1usize, 7, 100] {
    c.case(format!("cf32 spread of method {} argument {}", method, arg), || spread_case::<Cf32>(method, arg, &many));
    c.case(format!("cf64 spread of method {} argument {}", method, arg), || spread_case::<Cf64>(method, arg, &many));
  } }
  let ai = inv_mod(A);
  let back = |t: u128| (t + MM - B % MM) % MM * ai % MM;
  let mut seeds = vec![0u128, 1, 12345, u128::MAX, u64::MAX as u128, MM - 1];
  for t in [0u128, 1, 2, 3, MM - 1, MM - 2, MM / 2, MM / 4] { seeds.push(back(t)); seeds.push(back(back(t))); seeds.push(back(back(back(t)))) }
  for _ in 0..if c.thorough { 4000 } else { 300 } { seeds.push(((r.next() as u128) << 64) | r.next() as u128) }
  for method in 0..5 { for arg in [1usize, 2, 3, 7, 10, 100, 784, 65536] { for &s in &seeds {
    c.case(format!("cf32 method {} argument {} seed {}", method, arg, s), || gen_case::<Cf32>(method, arg, s));
    c.case(format!("cf64 method {} argument {} seed {}", method, arg, s), || gen_case::<Cf64>(method, arg, s));
  } } }
  for &s in seeds.iter().take(60) { for scale in [1usize, 2, 10, 1000] {
    c.case(format!("real generator scale {} seed {}", scale, s), || {
      let (mut a, mut b) = (s, s);
      let x = <f32 as Real>::gen(&mut a, scale) as f64;
      let y = <f64 as Real>::gen(&mut b, scale);
      let want = { let mut q = s; scale as f64 * (2.0 * draw(&mut q) - 1.0) };
      ensure((x - want).abs() <= 1e-5 * scale as f64 && (y - want).abs() <= 1e-12 * scale as f64, || format!("{} {} drawn for {}", x, y, want))?;
      ensure(x.abs() <= scale as f64 * (1.0 + 1e-6) && y.abs() <= scale as f64 * (1.0 + 1e-12), || format!("{} {} outside the scale {}", x, y, scale))?;
      same("seeds", &a, &b)
    });
  } }
}

// ---------------------------------------------------------------- C16 one-hot
pub fn onehot(c: &mut Ctx) {
  let mut ns: Vec<usize> = (0..=20).collect();
  ns.extend([64, 100, 257, 1000, 5000]);
  for n in ns {
    let mut ks: Vec<usize> = if n <= 20 { (0..n + 3).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    ks.push(usize::MAX);
    for k in ks {
      c.case(format!("one-hot size {} class {}", n, k), || {
        fn chk<V: PartialEq + std::fmt::Debug>(name: &str, got: Result<Vec<V>, String>, n: usize, k: usize, one: V, zero: V) -> Result<(), String> {
          match got {
            Err(_) => ensure(k >= n, || format!("{}: class {} of {} refused", name, k, n)),
            Ok(v) => {
              ensure(k < n, || format!("{}: class {} of {} accepted", name, k, n))?;
              same(&format!("{} length", name), &v.len(), &n)?;
              for (i, x) in v.iter().enumerate() { ensure(*x == *(if i == k { &one } else { &zero }), || format!("{}: entry {} of {} is {:?} for class {}", name, i, n, x, k))? }
              Ok(())
            }
          }
        }
        let m = PredictModel::Sparse;
        chk("f32", <f32 as Real>::gen_pred(n, k, &m).map_err(|e| format!("{:?}", e)), n, k, 1.0, 0.0)?;
        chk("f64", <f64 as Real>::gen_pred(n, k, &m).map_err(|e| format!("{:?}", e)), n, k, 1.0, 0.0)?;
        chk("cf32", <Cf32 as Complex>::gen_pred(n, k, &m).map_err(|e| format!("{:?}", e)), n, k, Cf32 { x: 1.0, y: 0.0 }, Cf32 { x: 0.0, y: 0.0 })?;
        chk("cf64", <Cf64 as Complex>::gen_pred(n, k, &m).map_err(|e| format!("{:?}", e)), n, k, Cf64 { x: 1.0, y: 0.0 }, Cf64 { x: 0.0, y: 0.0 })
      });
    }
  }
}
