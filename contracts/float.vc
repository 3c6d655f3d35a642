@raw
// ---------------------------------------------------------------- floats as real numbers
// A float is its real value; rounding, overflow and the special values are left out
// (listed as an assumption). Division by zero, and functions outside their domain, have
// no specified value.

/// functions of analysis; what is assumed of them is stated as axioms below, the rest is proved
pub uninterp spec fn r_sqrt(x: real) -> real;
pub uninterp spec fn r_exp(x: real) -> real;
pub uninterp spec fn r_ln(x: real) -> real;
pub uninterp spec fn r_sin(x: real) -> real;
pub uninterp spec fn r_cos(x: real) -> real;
pub uninterp spec fn r_atan2(y: real, x: real) -> real;
pub uninterp spec fn r_pi() -> real;
/// the value of a quotient with zero divisor
pub uninterp spec fn r_div0(x: real) -> real;
pub open spec fn rdiv(x: real, y: real) -> real { if y == 0real { r_div0(x) } else { x / y } }
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub uninterp spec fn r_pow_other(x: real, n: int) -> real;
pub open spec fn rpow(x: real, n: int) -> real {
  if n == 0 { 1real } else if n == 1 { x } else if n == 2 { x * x } else if n == 3 { x * x * x } else { r_pow_other(x, n) }
}
pub open spec fn two_pow(n: nat) -> real decreases n { if n == 0 { 1real } else { 2real * two_pow((n - 1) as nat) } }
/// the smallest positive normal number of a precision
#[verifier::opaque]
pub open spec fn r_tiny32() -> real { 1real / two_pow(126) }
#[verifier::opaque]
pub open spec fn r_tiny64() -> real { 1real / two_pow(1022) }

pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures r_sqrt(x) >= 0real, r_sqrt(x) * r_sqrt(x) == x;
pub axiom fn ax_exp_add(x: real, y: real) ensures r_exp(x + y) == r_exp(x) * r_exp(y);
pub axiom fn ax_exp_tangent(x: real) ensures 1real + x <= r_exp(x);
pub axiom fn ax_ln(x: real) requires x > 0real ensures r_exp(r_ln(x)) == x;
pub axiom fn ax_trig(x: real) ensures r_sin(x) * r_sin(x) + r_cos(x) * r_cos(x) == 1real;
pub axiom fn ax_trig_double(x: real) ensures r_sin(2real * x) == 2real * r_sin(x) * r_cos(x);
pub axiom fn ax_pi() ensures 3.14real < r_pi() < 3.15real;
/// the angle of a point: in (-pi, pi], and the point is its distance times the unit vector of the angle
pub axiom fn ax_atan2(y: real, x: real)
  ensures
    -r_pi() < r_atan2(y, x) <= r_pi(),
    r_sqrt(x * x + y * y) * r_cos(r_atan2(y, x)) == x,
    r_sqrt(x * x + y * y) * r_sin(r_atan2(y, x)) == y;

// ---- the exponential, from its addition law and the tangent at zero
#[verifier::spinoff_prover]
pub proof fn lem_exp_zero() ensures r_exp(0real) == 1real
{
  ax_exp_tangent(0real);
  ax_exp_add(0real, 0real);
  let z = r_exp(0real);
  assert(0real + 0real == 0real);
  assert(z == 1real) by(nonlinear_arith) requires z == z * z, z >= 1real;
}
#[verifier::spinoff_prover]
pub proof fn lem_exp_pos(x: real) ensures r_exp(x) > 0real, r_exp(x) * r_exp(-x) == 1real
{
  lem_exp_zero();
  ax_exp_add(x, -x);
  ax_exp_add(x / 2real, x / 2real);
  let (y, z, h) = (r_exp(x), r_exp(-x), r_exp(x / 2real));
  assert(x + -x == 0real && x / 2real + x / 2real == x);
  assert(h * h >= 0real) by(nonlinear_arith);
  assert(y != 0real) by(nonlinear_arith) requires y * z == 1real;
}
#[verifier::spinoff_prover]
pub proof fn lem_exp_mono(x: real, y: real) requires x <= y ensures r_exp(x) <= r_exp(y)
{
  ax_exp_add(x, y - x);
  ax_exp_tangent(y - x);
  lem_exp_pos(x);
  let (p, q) = (r_exp(x), r_exp(y - x));
  assert(x + (y - x) == y);
  assert(p <= p * q) by(nonlinear_arith) requires p > 0real, q >= 1real;
}
/// near zero the exponential lies between 1 + x and 1 / (1 - x)
#[verifier::spinoff_prover]
pub proof fn lem_exp_near(x: real) requires x < 1real ensures 1real + x <= r_exp(x), r_exp(x) * (1real - x) <= 1real
{
  ax_exp_tangent(x);
  ax_exp_tangent(-x);
  lem_exp_pos(x);
  let (p, q, r) = (r_exp(x), r_exp(-x), 1real - x);
  assert(p * r <= p * q) by(nonlinear_arith) requires p > 0real, r <= q;
}
#[verifier::spinoff_prover]
pub proof fn lem_exp_double(x: real, lo: real, hi: real)
  requires 0real < lo <= r_exp(x) <= hi
  ensures lo * lo <= r_exp(2real * x) <= hi * hi
{
  ax_exp_add(x, x);
  let p = r_exp(x);
  assert(x + x == 2real * x);
  assert(lo * lo <= p * p) by(nonlinear_arith) requires 0real < lo <= p;
  assert(p * p <= hi * hi) by(nonlinear_arith) requires 0real < p <= hi;
}
/// one step of squaring with rounded bounds
#[verifier::spinoff_prover]
pub proof fn lem_exp_up(x: real, lo: real, hi: real, lo2: real, hi2: real)
  requires 0real < lo <= r_exp(x) <= hi, lo2 <= lo * lo, hi * hi <= hi2
  ensures lo2 <= r_exp(2real * x) <= hi2
{ lem_exp_double(x, lo, hi); }
#[verifier::spinoff_prover]
pub proof fn lem_exp_one() ensures r_exp(0real) == 1real, 2.7real < r_exp(1real) < 2.72real
{
  lem_exp_zero();
  let x = 1real / 1024real;
  lem_exp_near(x);
  let p = r_exp(x);
  assert(p <= 1.00097752real) by(nonlinear_arith) requires p * (1real - 1real / 1024real) <= 1real;
  lem_exp_up(1real / 1024real, (1real + 1real / 1024real), 1.00097752real, 1.00195407real, 1.00195600real);
  assert(2real * (1real / 1024real) == 1real / 512real);
  lem_exp_up(1real / 512real, 1.00195407real, 1.00195600real, 1.00391195real, 1.00391583real);
  assert(2real * (1real / 512real) == 1real / 256real);
  lem_exp_up(1real / 256real, 1.00391195real, 1.00391583real, 1.00783920real, 1.00784700real);
  assert(2real * (1real / 256real) == 1real / 128real);
  lem_exp_up(1real / 128real, 1.00783920real, 1.00784700real, 1.01573985real, 1.01575558real);
  assert(2real * (1real / 128real) == 1real / 64real);
  lem_exp_up(1real / 64real, 1.01573985real, 1.01575558real, 1.03172744real, 1.03175940real);
  assert(2real * (1real / 64real) == 1real / 32real);
  lem_exp_up(1real / 32real, 1.03172744real, 1.03175940real, 1.06446151real, 1.06452746real);
  assert(2real * (1real / 32real) == 1real / 16real);
  lem_exp_up(1real / 16real, 1.06446151real, 1.06452746real, 1.13307830real, 1.13321872real);
  assert(2real * (1real / 16real) == 1real / 8real);
  lem_exp_up(1real / 8real, 1.13307830real, 1.13321872real, 1.28386643real, 1.28418467real);
  assert(2real * (1real / 8real) == 1real / 4real);
  lem_exp_up(1real / 4real, 1.28386643real, 1.28418467real, 1.64831301real, 1.64913027real);
  assert(2real * (1real / 4real) == 1real / 2real);
  lem_exp_up(1real / 2real, 1.64831301real, 1.64913027real, 2.71693577real, 2.71963065real);
  assert(2real * (1real / 2real) == 1real / 1real);
}
#[verifier::spinoff_prover]
pub proof fn lem_ln_neg(x: real) requires 0real < x <= 1real ensures r_ln(x) <= 0real
{ ax_ln(x); ax_exp_tangent(r_ln(x)); }
// ---- hyperbolic functions
#[verifier::opaque]
pub open spec fn r_cosh(x: real) -> real { (r_exp(x) + r_exp(-x)) / 2real }
#[verifier::opaque]
pub open spec fn r_tanh(x: real) -> real { (r_exp(x) - r_exp(-x)) / (r_exp(x) + r_exp(-x)) }
#[verifier::spinoff_prover]
pub proof fn lem_cosh_pos(x: real) ensures r_cosh(x) >= 1real
{
  reveal(r_cosh);
  lem_exp_pos(x);
  let (p, q) = (r_exp(x), r_exp(-x));
  assert(p + q >= 2real) by(nonlinear_arith) requires p * q == 1real, p > 0real;
}
#[verifier::spinoff_prover]
pub proof fn lem_two_pow(n: nat) ensures two_pow(n) >= 1real, n > 0 ==> two_pow(n) >= 2real decreases n
{ if n > 0 { lem_two_pow((n - 1) as nat); } }
#[verifier::spinoff_prover]
pub proof fn lem_inv(a: real) requires a >= 2real ensures 0real < 1real / a < 1real
{ assert(0real < 1real / a < 1real) by(nonlinear_arith) requires a >= 2real; }
#[verifier::spinoff_prover]
pub proof fn lem_tiny() ensures 0real < r_tiny32() < 1real, 0real < r_tiny64() < 1real
{
  reveal(r_tiny32); reveal(r_tiny64);
  lem_two_pow(126); lem_two_pow(1022);
  lem_inv(two_pow(126)); lem_inv(two_pow(1022));
}

pub open spec fn sgn_ok(x: real, pos: bool) -> bool { (x > 0real ==> pos) && (x < 0real ==> !pos) }
@for F=F32,F64 f=f32,f64 T=32,64
@raw
pub struct $F { pub g: Ghost<real> }
impl Clone for $F { fn clone(&self) -> (r: $F) ensures r == *self { *self } }
impl Copy for $F {}
pub open spec fn mk_$f(x: real) -> $F { $F { g: Ghost(x) } }
impl vstd::std_specs::ops::AddSpecImpl<$F> for $F {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, r: $F) -> bool { true }
  open spec fn add_spec(self, r: $F) -> $F { mk_$f(self.v() + r.v()) }
}
impl std::ops::Add for $F { type Output = $F; #[verifier::external_body] fn add(self, r: $F) -> $F { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<$F> for $F {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, r: $F) -> bool { true }
  open spec fn sub_spec(self, r: $F) -> $F { mk_$f(self.v() - r.v()) }
}
impl std::ops::Sub for $F { type Output = $F; #[verifier::external_body] fn sub(self, r: $F) -> $F { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<$F> for $F {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, r: $F) -> bool { true }
  open spec fn mul_spec(self, r: $F) -> $F { mk_$f(self.v() * r.v()) }
}
impl std::ops::Mul for $F { type Output = $F; #[verifier::external_body] fn mul(self, r: $F) -> $F { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<$F> for $F {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, r: $F) -> bool { true }
  open spec fn div_spec(self, r: $F) -> $F { mk_$f(rdiv(self.v(), r.v())) }
}
impl std::ops::Div for $F { type Output = $F; #[verifier::external_body] fn div(self, r: $F) -> $F { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for $F {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> $F { mk_$f(-self.v()) }
}
impl std::ops::Neg for $F { type Output = $F; #[verifier::external_body] fn neg(self) -> $F { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<$F> for $F {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, r: $F) -> bool { true }
  open spec fn add_assign_spec(&self, r: $F) -> &$F { &mk_$f(self.v() + r.v()) }
}
impl std::ops::AddAssign for $F { #[verifier::external_body] fn add_assign(&mut self, r: $F) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<$F> for $F {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, r: $F) -> bool { true }
  open spec fn sub_assign_spec(&self, r: $F) -> &$F { &mk_$f(self.v() - r.v()) }
}
impl std::ops::SubAssign for $F { #[verifier::external_body] fn sub_assign(&mut self, r: $F) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<$F> for $F {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, r: $F) -> bool { true }
  open spec fn mul_assign_spec(&self, r: $F) -> &$F { &mk_$f(self.v() * r.v()) }
}
impl std::ops::MulAssign for $F { #[verifier::external_body] fn mul_assign(&mut self, r: $F) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<$F> for $F {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, r: $F) -> bool { true }
  open spec fn div_assign_spec(&self, r: $F) -> &$F { &mk_$f(rdiv(self.v(), r.v())) }
}
impl std::ops::DivAssign for $F { #[verifier::external_body] fn div_assign(&mut self, r: $F) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<$F> for $F {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, r: &$F) -> bool { self.v() == r.v() }
}
impl PartialEq for $F { #[verifier::external_body] fn eq(&self, r: &$F) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<$F> for $F {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, r: &$F) -> Option<core::cmp::Ordering> { Some(r_cmp(self.v(), r.v())) }
}
impl PartialOrd for $F { #[verifier::external_body] fn partial_cmp(&self, r: &$F) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl $F {
  pub open spec fn v(self) -> real { self.g@ }
  #[verifier::external_body]
  pub fn lit(g: Ghost<real>) -> (r: $F) ensures r.v() == g@ { unimplemented!() }
  #[verifier::external_body]
  pub fn default() -> (r: $F) ensures r.v() == 0real { unimplemented!() }
  #[verifier::external_body]
  pub fn pi() -> (r: $F) ensures r.v() == r_pi() { unimplemented!() }
  #[verifier::external_body]
  pub fn min_positive() -> (r: $F) ensures r.v() == r_tiny$T() { unimplemented!() }
  #[verifier::external_body]
  pub fn powi(self, n: i32) -> (r: $F) ensures r.v() == rpow(self.v(), n as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn sqrt(self) -> (r: $F) requires self.v() >= 0real ensures r.v() == r_sqrt(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn exp(self) -> (r: $F) ensures r.v() == r_exp(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn ln(self) -> (r: $F) requires self.v() > 0real ensures r.v() == r_ln(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn sin(self) -> (r: $F) ensures r.v() == r_sin(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn cos(self) -> (r: $F) ensures r.v() == r_cos(self.v()) { unimplemented!() }
  pub fn sin_cos(self) -> (r: ($F, $F)) ensures r.0.v() == r_sin(self.v()), r.1.v() == r_cos(self.v()) { (self.sin(), self.cos()) }
  #[verifier::external_body]
  pub fn tanh(self) -> (r: $F) ensures r.v() == r_tanh(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn cosh(self) -> (r: $F) ensures r.v() == r_cosh(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn atan2(self, x: $F) -> (r: $F) ensures r.v() == r_atan2(self.v(), x.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn abs(self) -> (r: $F) ensures r.v() == rabs(self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn hypot(self, x: $F) -> (r: $F) ensures r.v() == r_sqrt(self.v() * self.v() + x.v() * x.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn recip(self) -> (r: $F) ensures r.v() == rdiv(1real, self.v()) { unimplemented!() }
  #[verifier::external_body]
  pub fn mul_add(self, a: $F, b: $F) -> (r: $F) ensures r.v() == self.v() * a.v() + b.v() { unimplemented!() }
  #[verifier::external_body]
  pub fn max(self, x: $F) -> (r: $F) ensures r.v() == (if self.v() >= x.v() { self.v() } else { x.v() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn min(self, x: $F) -> (r: $F) ensures r.v() == (if self.v() <= x.v() { self.v() } else { x.v() }) { unimplemented!() }
  /// true of positive numbers, false of negative ones; for zero it depends on the sign bit
  #[verifier::external_body]
  pub fn is_sign_positive(self) -> (r: bool) ensures sgn_ok(self.v(), r) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_sign_negative(self) -> (r: bool) ensures sgn_ok(self.v(), !r) { unimplemented!() }
}
@endfor
@raw
pub open spec fn r_cmp(a: real, b: real) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// integer casts keep the value
pub trait VFloat: Sized {
  spec fn fval(self) -> real;
  fn vto_f32(self) -> (r: F32) ensures r.v() == self.fval();
  fn vto_f64(self) -> (r: F64) ensures r.v() == self.fval();
}
@for I=usize,u128,u64,u32,u8,i32,i64
@raw
impl VFloat for $I {
  open spec fn fval(self) -> real { self as real }
  #[verifier::external_body]
  fn vto_f32(self) -> F32 { unimplemented!() }
  #[verifier::external_body]
  fn vto_f64(self) -> F64 { unimplemented!() }
}
@endfor
@for F=F32,F64
@raw
impl VFloat for $F {
  open spec fn fval(self) -> real { self.v() }
  #[verifier::external_body]
  fn vto_f32(self) -> F32 { unimplemented!() }
  #[verifier::external_body]
  fn vto_f64(self) -> F64 { unimplemented!() }
}
@endfor
@raw
/// ends the call
#[verifier::external_body]
pub fn vpanic() -> ! ensures false { panic!() }
