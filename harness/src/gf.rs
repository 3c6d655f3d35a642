//! Exact stand-in for a complex number: GF(p^2) = GF(p)[i], p = 2^61 - 1, with
//! conjugation i -> -i. Ring identities that hold here for random values hold
//! as polynomial identities up to a probability of about degree/p.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ops::*;
use renplex::act::ComplexActFunc;
use renplex::err::{LossCalcError, PredicionError};
use renplex::init::PredictModel;
use renplex::input::IOType;
use renplex::math::{Complex, Real};
use renplex::opt::ComplexLossFunc;

pub const P: u64 = (1u64 << 61) - 1;

fn red(x: u128) -> u64 { (x % P as u128) as u64 }
pub fn mulp(a: u64, b: u64) -> u64 { red(a as u128 * b as u128) }
pub fn addp(a: u64, b: u64) -> u64 { red(a as u128 + b as u128) }
pub fn subp(a: u64, b: u64) -> u64 { red(a as u128 + (P - b) as u128) }
pub fn powp(mut a: u64, mut e: u64) -> u64 {
  let mut r = 1;
  while e > 0 { if e & 1 == 1 { r = mulp(r, a) } a = mulp(a, a); e >>= 1; }
  r
}
pub fn invp(a: u64) -> u64 { if a == 0 { panic!("Division by zero in GF.") } powp(a, P - 2) }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct R(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct G { pub a: u64, pub b: u64 }

impl std::fmt::Debug for R { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::fmt::Display for R { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::fmt::Debug for G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}+{}i", self.a, self.b) } }
impl std::fmt::Display for G { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}+{}i", self.a, self.b) } }
impl Default for R { fn default() -> Self { R(0) } }
impl Default for G { fn default() -> Self { G { a: 0, b: 0 } } }
impl PartialOrd for R { fn partial_cmp(&self, o: &R) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl PartialOrd for G { fn partial_cmp(&self, o: &G) -> Option<std::cmp::Ordering> { self.norm_sq().0.partial_cmp(&o.norm_sq().0) } }

impl Add for R { type Output = R; fn add(self, o: R) -> R { R(addp(self.0, o.0)) } }
impl Sub for R { type Output = R; fn sub(self, o: R) -> R { R(subp(self.0, o.0)) } }
impl Mul for R { type Output = R; fn mul(self, o: R) -> R { R(mulp(self.0, o.0)) } }
impl Div for R { type Output = R; fn div(self, o: R) -> R { R(mulp(self.0, invp(o.0))) } }
impl Add for G { type Output = G; fn add(self, o: G) -> G { G { a: addp(self.a, o.a), b: addp(self.b, o.b) } } }
impl Sub for G { type Output = G; fn sub(self, o: G) -> G { G { a: subp(self.a, o.a), b: subp(self.b, o.b) } } }
impl Mul for G { type Output = G; fn mul(self, o: G) -> G {
  G { a: subp(mulp(self.a, o.a), mulp(self.b, o.b)), b: addp(mulp(self.a, o.b), mulp(self.b, o.a)) } } }
impl Div for G { type Output = G; fn div(self, o: G) -> G {
  let n = invp(addp(mulp(o.a, o.a), mulp(o.b, o.b)));
  let c = self * G { a: o.a, b: subp(0, o.b) };
  G { a: mulp(c.a, n), b: mulp(c.b, n) } } }
macro_rules! asg { ($t:ty) => {
  impl AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o } }
  impl SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = *self - o } }
  impl MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = *self * o } }
  impl DivAssign for $t { fn div_assign(&mut self, o: $t) { *self = *self / o } }
} }
asg!(R); asg!(G);

pub fn mix(xs: &[u64]) -> u64 {
  let mut h = 0x243F6A8885A308D3u64;
  for x in xs {
    h ^= *x;
    h = (h ^ (h >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94D049BB133111EB);
    h = (h ^ (h >> 31)).wrapping_add(0x9E3779B97F4A7C15);
  }
  h
}
pub fn hg(xs: &[u64]) -> G {
  let a = mix(xs);
  G { a: a % P, b: mix(&[a, 77]) % P }
}

pub fn fidx(f: &ComplexActFunc) -> u64 {
  match f {
    ComplexActFunc::None => 0, ComplexActFunc::ModZ => 1, ComplexActFunc::RITSigmoid => 2,
    ComplexActFunc::RITTanh => 3, ComplexActFunc::RITReLU => 4, ComplexActFunc::ZReLU => 5,
    ComplexActFunc::Cardioid => 6,
  }
}
pub fn lidx(f: &ComplexLossFunc) -> u64 {
  match f { ComplexLossFunc::MeanSquare => 0, ComplexLossFunc::NormCrossEntropy => 1 }
}

thread_local! {
  /// Values handed out by the `gen*` methods before falling back to the seed.
  pub static QUEUE: RefCell<VecDeque<G>> = RefCell::new(VecDeque::new());
}

pub fn gen_oracle(tag: u64, seed: &mut u128, arg: usize) -> G {
  if let Some(v) = QUEUE.with(|q| q.borrow_mut().pop_front()) { return v }
  *seed = (*seed).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
  hg(&[tag, *seed as u64, (*seed >> 64) as u64, arg as u64])
}

impl Real for R {
  fn unit() -> R { R(1) }
  fn usize_to_real(n: usize) -> R { R(n as u64 % P) }
  fn gen(seed: &mut u128, scale: usize) -> R { R(gen_oracle(1, seed, scale).a) }
  fn gen_pred(size: usize, k: usize, _m: &PredictModel) -> Result<Vec<R>, PredicionError> {
    if k >= size { return Err(PredicionError::CriticalIndexOverflow) }
    let mut v = vec![R(0); size]; v[k] = R(1); Ok(v)
  }
}

pub fn flat<T: Copy>(x: &IOType<T>) -> Vec<T> {
  match x {
    IOType::Scalar(v) => v.clone(),
    IOType::Matrix(ms) => ms.iter().flat_map(|m| m.get_body().to_vec()).collect(),
  }
}

impl Complex for G {
  type Precision = R;
  fn new(re: R, im: R) -> G { G { a: re.0, b: im.0 } }
  fn newe(a: R, p: R) -> G { hg(&[90, a.0, p.0]) }
  fn usize_to_complex(n: usize) -> G { G { a: n as u64 % P, b: 0 } }
  fn unit() -> G { G { a: 1, b: 0 } }
  fn iunit() -> G { G { a: 0, b: 1 } }
  fn re(&self) -> R { R(self.a) }
  fn im(&self) -> R { R(self.b) }
  fn norm(&self) -> R { R(hg(&[91, self.norm_sq().0]).a) }
  fn norm_sq(&self) -> R { R(addp(mulp(self.a, self.a), mulp(self.b, self.b))) }
  fn phase(&self) -> R { R(hg(&[92, self.a, self.b]).a) }
  fn conj(&self) -> G { G { a: self.a, b: subp(0, self.b) } }
  fn gen(seed: &mut u128, s: usize) -> G { gen_oracle(10, seed, s) }
  fn gen_he(seed: &mut u128, s: usize) -> G { gen_oracle(11, seed, s) }
  fn gen_xa(seed: &mut u128, s: usize) -> G { gen_oracle(12, seed, s) }
  fn gen_xagu(seed: &mut u128, s: usize) -> G { gen_oracle(13, seed, s) }
  fn gen_xagn(seed: &mut u128, s: usize) -> G { gen_oracle(14, seed, s) }
  fn gen_pred(size: usize, k: usize, _m: &PredictModel) -> Result<Vec<G>, PredicionError> {
    if k >= size { return Err(PredicionError::CriticalIndexOverflow) }
    let mut v = vec![G::default(); size]; v[k] = G::unit(); Ok(v)
  }
  fn activate(&self, f: &ComplexActFunc) -> G {
    if fidx(f) == 0 { *self } else { hg(&[20, fidx(f), self.a, self.b]) }
  }
  fn d_activate(&self, f: &ComplexActFunc) -> G {
    if fidx(f) == 0 { G::unit() } else { hg(&[21, fidx(f), self.a, self.b]) }
  }
  fn d_conj_activate(&self, f: &ComplexActFunc) -> G {
    if fidx(f) == 0 { G::default() } else { hg(&[22, fidx(f), self.a, self.b]) }
  }
  fn activate_mut(v: &mut [G], f: &ComplexActFunc) { for x in v { *x = x.activate(f) } }
  fn d_activate_mut(v: &mut [G], f: &ComplexActFunc) { for x in v { *x = x.d_activate(f) } }
  fn d_conj_activate_mut(v: &mut [G], f: &ComplexActFunc) { for x in v { *x = x.d_conj_activate(f) } }
  fn loss(t: &IOType<G>, p: &IOType<G>, f: &ComplexLossFunc) -> Result<R, LossCalcError> {
    let mut acc = vec![30, lidx(f)];
    for x in flat(t) { acc.push(x.a); acc.push(x.b) }
    acc.push(31);
    for x in flat(p) { acc.push(x.a); acc.push(x.b) }
    Ok(R(hg(&acc).a))
  }
  fn d_loss(t: &IOType<G>, p: &IOType<G>, f: &ComplexLossFunc) -> Result<Vec<G>, LossCalcError> {
    let (t, p) = (flat(t), flat(p));
    Ok(p.iter().enumerate().map(|(i, x)| {
      let y = t.get(i).cloned().unwrap_or_default();
      hg(&[32, lidx(f), i as u64, x.a, x.b, y.a, y.b])
    }).collect())
  }
}
