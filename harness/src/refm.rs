//! Independent reference definitions (plain nested loops).
use renplex::act::ComplexActFunc;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::{BasicOperations, Complex};
use crate::ctx::Rng;
use crate::gf::{G, P};

pub trait Num: Complex + BasicOperations<Self> + PartialEq {
  const NAME: &'static str;
  fn any(r: &mut Rng) -> Self;
  fn acts() -> Vec<ComplexActFunc>;
  fn push_gen(v: &[Self]);
}
impl Num for G {
  const NAME: &'static str = "exact";
  fn any(r: &mut Rng) -> G { G { a: r.next() % P, b: r.next() % P } }
  fn acts() -> Vec<ComplexActFunc> {
    use ComplexActFunc::*;
    vec![None, ModZ, RITSigmoid, RITTanh, RITReLU, ZReLU, Cardioid]
  }
  fn push_gen(v: &[G]) { crate::gf::QUEUE.with(|q| q.borrow_mut().extend(v.iter().cloned())) }
}
fn si(r: &mut Rng) -> i32 { r.range(0, 8) as i32 - 4 }
impl Num for Cf32 {
  const NAME: &'static str = "cf32";
  fn any(r: &mut Rng) -> Cf32 { Cf32 { x: si(r) as f32, y: si(r) as f32 } }
  fn acts() -> Vec<ComplexActFunc> { use ComplexActFunc::*; vec![None, RITReLU, ZReLU] }
  fn push_gen(_: &[Cf32]) {}
}
impl Num for Cf64 {
  const NAME: &'static str = "cf64";
  fn any(r: &mut Rng) -> Cf64 { Cf64 { x: si(r) as f64, y: si(r) as f64 } }
  fn acts() -> Vec<ComplexActFunc> { use ComplexActFunc::*; vec![None, RITReLU, ZReLU] }
  fn push_gen(_: &[Cf64]) {}
}

/// Values of one case: random, sparse, constant, or with repeated entries.
pub fn vals<T: Num>(r: &mut Rng, n: usize) -> Vec<T> {
  let mode = r.range(0, 9);
  let c = T::any(r);
  let pool: Vec<T> = (0..3).map(|_| T::any(r)).collect();
  (0..n).map(|_| match mode {
    0 => if r.range(0, 2) == 0 { T::any(r) } else { T::default() },
    1 => c,
    2 => pool[r.range(0, 2)],
    3 => if r.range(0, 3) == 0 { T::unit() } else { T::default() },
    _ => T::any(r),
  }).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct M<T> { pub r: usize, pub c: usize, pub d: Vec<T> }

impl<T: Num> M<T> {
  pub fn rnd(g: &mut Rng, r: usize, c: usize) -> M<T> { M { r, c, d: vals(g, r * c) } }
  pub fn new(r: usize, c: usize, d: Vec<T>) -> M<T> { assert_eq!(d.len(), r * c); M { r, c, d } }
  pub fn zero(r: usize, c: usize) -> M<T> { M { r, c, d: vec![T::default(); r * c] } }
  pub fn at(&self, i: usize, j: usize) -> T { self.d[i * self.c + j] }
  pub fn real(&self) -> Matrix<T> { Matrix::from_body(self.d.clone(), [self.r, self.c]) }
  pub fn is(&self, m: &Matrix<T>) -> Result<(), String> {
    if m.get_shape() != [self.r, self.c] {
      return Err(format!("shape got {:?} expected [{}, {}]", m.get_shape(), self.r, self.c))
    }
    if m.get_body() != &self.d[..] {
      let k = m.get_body().iter().zip(self.d.iter()).position(|(a, b)| a != b);
      return Err(format!("body of {}x{} differs (len {}) at {:?}: got {:?} expected {:?}", self.r, self.c, m.get_body().len(), k,
        k.map(|k| m.get_body()[k]), k.map(|k| self.d[k])))
    }
    Ok(())
  }
  pub fn conv(&self, k: &M<T>) -> M<T> {
    let (r, c) = (self.r - k.r + 1, self.c - k.c + 1);
    let mut o = M::zero(r, c);
    for i in 0..r { for j in 0..c {
      let mut acc = T::default();
      for u in 0..k.r { for v in 0..k.c { acc = acc + self.at(i + u, j + v) * k.at(u, v); } }
      o.d[i * c + j] = acc;
    } }
    o
  }
  pub fn flip(&self) -> M<T> {
    let mut o = self.clone();
    for i in 0..self.r { for j in 0..self.c { o.d[i * self.c + j] = self.at(self.r - 1 - i, self.c - 1 - j) } }
    o
  }
  pub fn pad(&self, p: (usize, usize)) -> M<T> {
    let mut o = M::zero(self.r + 2 * p.0, self.c + 2 * p.1);
    for i in 0..self.r { for j in 0..self.c { let c = o.c; o.d[(i + p.0) * c + j + p.1] = self.at(i, j) } }
    o
  }
  pub fn add(&self, o: &M<T>) -> M<T> {
    M { r: self.r, c: self.c, d: self.d.iter().zip(o.d.iter()).map(|(a, b)| *a + *b).collect() }
  }
  pub fn reduce(&self, b: [usize; 2], f: &dyn Fn(&[T]) -> T) -> M<T> {
    let (r, c) = (self.r / b[0], self.c / b[1]);
    let mut o = M::zero(r, c);
    for i in 0..r { for j in 0..c {
      let mut blk = Vec::new();
      for u in 0..b[0] { for v in 0..b[1] { blk.push(self.at(i * b[0] + u, j * b[1] + v)) } }
      o.d[i * c + j] = f(&blk);
    } }
    o
  }
  pub fn upsample(&self, b: [usize; 2], k: &M<T>) -> M<T> {
    let mut z = M::zero(self.r * b[0], self.c * b[1]);
    for i in 0..self.r { for j in 0..self.c {
      let c = z.c;
      z.d[(i * b[0] + (b[0] - 1) / 2) * c + j * b[1] + (b[1] - 1) / 2] = self.at(i, j);
    } }
    z.pad(((k.r - 1) / 2, (k.c - 1) / 2)).conv(k)
  }
}

pub fn dot<T: Num>(a: &[T], b: &[T]) -> T {
  let mut acc = T::default();
  for i in 0..a.len() { acc = acc + a[i] * b[i] }
  acc
}

#[derive(Clone, Debug, PartialEq)]
pub enum IO<T> { V(Vec<T>), F(Vec<M<T>>) }

impl<T: Num> IO<T> {
  pub fn real(&self) -> IOType<T> {
    match self {
      IO::V(v) => IOType::Scalar(v.clone()),
      IO::F(f) => IOType::Matrix(f.iter().map(|m| m.real()).collect()),
    }
  }
  pub fn flat(&self) -> Vec<T> {
    match self { IO::V(v) => v.clone(), IO::F(f) => f.iter().flat_map(|m| m.d.clone()).collect() }
  }
  pub fn is(&self, o: &IOType<T>) -> Result<(), String> {
    match (self, o) {
      (IO::V(a), IOType::Scalar(b)) => crate::ctx::same("vector", b, a),
      (IO::F(a), IOType::Matrix(b)) => {
        crate::ctx::same("number of maps", &b.len(), &a.len())?;
        for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() { x.is(y).map_err(|e| format!("map {}: {}", k, e))? }
        Ok(())
      }
      _ => Err("wrong kind of output".to_string()),
    }
  }
}

pub fn shape_is(s: &IOShape, kind: char, n: usize) -> Result<(), String> {
  let want = if kind == 'V' { IOShape::Scalar(n) } else { IOShape::Matrix(n) };
  if *s == want { Ok(()) } else { Err(format!("shape got {:?} expected {:?}", s, want)) }
}
