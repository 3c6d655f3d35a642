@raw
// ---------------------------------------------------------------- complex numbers
/// a complex number as its real and imaginary part
pub struct Z { pub re: real, pub im: real }
pub open spec fn zc(re: real, im: real) -> Z { Z { re, im } }
pub open spec fn zadd(a: Z, b: Z) -> Z { zc(a.re + b.re, a.im + b.im) }
pub open spec fn zsub(a: Z, b: Z) -> Z { zc(a.re - b.re, a.im - b.im) }
pub open spec fn zmul(a: Z, b: Z) -> Z { zc(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re) }
pub open spec fn zconj(a: Z) -> Z { zc(a.re, -a.im) }
/// squared absolute value
pub open spec fn znsq(a: Z) -> real { a.re * a.re + a.im * a.im }
pub open spec fn znorm(a: Z) -> real { r_sqrt(znsq(a)) }
/// a / b = a conj(b) / |b|^2
pub open spec fn zdiv(a: Z, b: Z) -> Z { zc(rdiv(a.re * b.re + a.im * b.im, znsq(b)), rdiv(a.im * b.re - a.re * b.im, znsq(b))) }
pub open spec fn zpolar(a: real, p: real) -> Z { zc(a * r_cos(p), a * r_sin(p)) }
pub open spec fn zphase(a: Z) -> real { r_atan2(a.im, a.re) }
pub open spec fn znz(a: Z) -> bool { a.re != 0real || a.im != 0real }
/// whether a division by zero, which panics, is in the caller's contract: nothing is known
/// about it, so a caller has to show its divisor is not zero while the operators themselves
/// have to cope with every divisor
pub uninterp spec fn zero_div_expected() -> bool;

pub proof fn lem_nsq(a: Z)
  ensures znsq(a) >= 0real, znz(a) <==> znsq(a) != 0real, znz(a) <==> znsq(a) > 0real
{
  assert(a.re * a.re >= 0real) by(nonlinear_arith);
  assert(a.im * a.im >= 0real) by(nonlinear_arith);
  if a.re != 0real { assert(a.re * a.re > 0real) by(nonlinear_arith) requires a.re != 0real; }
  if a.im != 0real { assert(a.im * a.im > 0real) by(nonlinear_arith) requires a.im != 0real; }
}
/// other ways to write a quotient
#[verifier::spinoff_prover]
pub proof fn lem_quo_forms(n: real, d: real)
  requires d != 0real
  ensures n * rdiv(1real, d) == rdiv(n, d)
{ assert(n * (1real / d) == n / d) by(nonlinear_arith) requires d != 0real; }
pub proof fn lem_div_forms(a: Z, b: Z)
  ensures znz(b) ==> ({ let (n, m, d) = (a.re * b.re + a.im * b.im, a.im * b.re - a.re * b.im, znsq(b)); n * rdiv(1real, d) == rdiv(n, d) && m * rdiv(1real, d) == rdiv(m, d) })
{
  lem_nsq(b);
  if znz(b) {
    lem_quo_forms(a.re * b.re + a.im * b.im, znsq(b));
    lem_quo_forms(a.im * b.re - a.re * b.im, znsq(b));
  }
}
/// a difference taken the other way round has the same modulus
#[verifier::spinoff_prover]
pub proof fn lem_nsq_sym(a: Z, b: Z)
  ensures znsq(zsub(a, b)) == znsq(zsub(b, a))
{
  let (x, y) = (a.re - b.re, a.im - b.im);
  assert((-x) * (-x) == x * x) by(nonlinear_arith);
  assert((-y) * (-y) == y * y) by(nonlinear_arith);
}
pub proof fn lem_norm(a: Z)
  ensures znorm(a) >= 0real, znorm(a) * znorm(a) == znsq(a), znz(a) <==> znorm(a) > 0real
{
  lem_nsq(a);
  ax_sqrt(znsq(a));
  let n = znorm(a);
  if n == 0real { assert(n * n == 0real) by(nonlinear_arith) requires n == 0real; } else { assert(n * n > 0real) by(nonlinear_arith) requires n != 0real; }
}
/// multiplication as an opaque function: what follows is left to congruence and linear arithmetic, with
/// the few facts about products proved one by one
#[verifier::opaque]
pub open spec fn ml(a: real, b: real) -> real { a * b }
proof fn lem_ml(a: real, b: real)
  ensures ml(a, b) == a * b
{ reveal(ml); }
proof fn lem_comm(a: real, b: real)
  ensures ml(a, b) == ml(b, a)
{
  lem_ml(a, b);
  lem_ml(b, a);
  assert(a * b == b * a) by(nonlinear_arith);
}
proof fn lem_assoc(a: real, b: real, c: real)
  ensures ml(ml(a, b), c) == ml(a, ml(b, c))
{
  let (u, v) = (ml(a, b), ml(b, c));
  lem_ml(a, b);
  lem_ml(b, c);
  lem_ml(u, c);
  lem_ml(a, v);
  assert(u * c == a * v) by(nonlinear_arith) requires u == a * b, v == b * c;
}
proof fn lem_swap(a: real, b: real, c: real)
  ensures ml(ml(a, b), c) == ml(ml(a, c), b)
{
  lem_assoc(a, b, c);
  lem_assoc(a, c, b);
  lem_comm(b, c);
}
proof fn lem_dist(a: real, b: real, c: real)
  ensures ml(a + b, c) == ml(a, c) + ml(b, c), ml(a - b, c) == ml(a, c) - ml(b, c), ml(c, a + b) == ml(c, a) + ml(c, b)
{
  lem_ml(a, c);
  lem_ml(b, c);
  lem_ml(a + b, c);
  lem_ml(a - b, c);
  assert((a + b) * c == a * c + b * c) by(nonlinear_arith);
  assert((a - b) * c == a * c - b * c) by(nonlinear_arith);
  lem_comm(c, a);
  lem_comm(c, b);
  lem_comm(c, a + b);
}
proof fn lem_cancel(u: real, v: real, d: real)
  requires ml(u, d) == ml(v, d), d != 0real
  ensures u == v
{
  lem_dist(u, v, d);
  let w = u - v;
  lem_ml(w, d);
  assert(w == 0real) by(nonlinear_arith) requires w * d == 0real, d != 0real;
}
proof fn lem_quot(x: real, y: real, p: real, q: real, r: real, i: real, d: real)
  requires ml(x, d) == ml(p, r) + ml(q, i), ml(y, d) == ml(q, r) - ml(p, i), d == ml(r, r) + ml(i, i), d != 0real
  ensures ml(x, r) - ml(y, i) == p, ml(x, i) + ml(y, r) == q
{
  lem_dist(ml(x, r), ml(y, i), d);
  lem_dist(ml(x, i), ml(y, r), d);
  lem_swap(x, r, d);
  lem_swap(y, i, d);
  lem_swap(x, i, d);
  lem_swap(y, r, d);
  lem_dist(ml(p, r), ml(q, i), r);
  lem_dist(ml(p, r), ml(q, i), i);
  lem_dist(ml(q, r), ml(p, i), r);
  lem_dist(ml(q, r), ml(p, i), i);
  lem_swap(q, i, r);
  lem_swap(p, i, r);
  lem_assoc(p, r, r);
  lem_assoc(p, i, i);
  lem_assoc(q, r, r);
  lem_assoc(q, i, i);
  lem_dist(ml(r, r), ml(i, i), p);
  lem_dist(ml(r, r), ml(i, i), q);
  lem_cancel(ml(x, r) - ml(y, i), p, d);
  lem_cancel(ml(x, i) + ml(y, r), q, d);
}
/// the quotient is the number that gives the dividend back
pub proof fn lem_div_inverts(a: Z, b: Z)
  requires znz(b)
  ensures zmul(zdiv(a, b), b) == a
{
  lem_nsq(b);
  let d = znsq(b);
  let (p, q) = (a.re * b.re + a.im * b.im, a.im * b.re - a.re * b.im);
  let (x, y) = (p / d, q / d);
  assert(x * d == p) by(nonlinear_arith) requires x == p / d, d != 0real;
  assert(y * d == q) by(nonlinear_arith) requires y == q / d, d != 0real;
  lem_ml(x, d);
  lem_ml(y, d);
  lem_ml(a.re, b.re);
  lem_ml(a.im, b.im);
  lem_ml(a.im, b.re);
  lem_ml(a.re, b.im);
  lem_ml(b.re, b.re);
  lem_ml(b.im, b.im);
  lem_quot(x, y, a.re, a.im, b.re, b.im, d);
  lem_ml(x, b.re);
  lem_ml(y, b.im);
  lem_ml(x, b.im);
  lem_ml(y, b.re);
}
/// polar construction inverts norm and phase
pub proof fn lem_polar(a: Z)
  ensures zpolar(znorm(a), zphase(a)) == a
{ ax_atan2(a.im, a.re); }
@for C=Cf32,Cf64 c=cf32,cf64 F=F32,F64 f=f32,f64
@file math/cfloat/mod.rs mode=$f
@item $C
@raw
impl Clone for $C { fn clone(&self) -> (r: $C) ensures r == *self { *self } }
impl Copy for $C {}
pub open spec fn mk_$c(z: Z) -> $C { $C { x: mk_$f(z.re), y: mk_$f(z.im) } }
impl $C {
  pub open spec fn z(self) -> Z { Z { re: self.x.v(), im: self.y.v() } }
}
impl vstd::std_specs::ops::AddSpecImpl<$C> for $C {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, r: $C) -> bool { true }
  open spec fn add_spec(self, r: $C) -> $C { mk_$c(zadd(self.z(), r.z())) }
}
impl vstd::std_specs::ops::SubSpecImpl<$C> for $C {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, r: $C) -> bool { true }
  open spec fn sub_spec(self, r: $C) -> $C { mk_$c(zsub(self.z(), r.z())) }
}
impl vstd::std_specs::ops::MulSpecImpl<$C> for $C {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, r: $C) -> bool { true }
  open spec fn mul_spec(self, r: $C) -> $C { mk_$c(zmul(self.z(), r.z())) }
}
impl vstd::std_specs::ops::DivSpecImpl<$C> for $C {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, r: $C) -> bool { zero_div_expected() || znz(r.z()) }
  open spec fn div_spec(self, r: $C) -> $C { mk_$c(zdiv(self.z(), r.z())) }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<$C> for $C {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, r: $C) -> bool { true }
  open spec fn add_assign_spec(&self, r: $C) -> &$C { &mk_$c(zadd(self.z(), r.z())) }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<$C> for $C {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, r: $C) -> bool { true }
  open spec fn sub_assign_spec(&self, r: $C) -> &$C { &mk_$c(zsub(self.z(), r.z())) }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<$C> for $C {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, r: $C) -> bool { true }
  open spec fn mul_assign_spec(&self, r: $C) -> &$C { &mk_$c(zmul(self.z(), r.z())) }
}
impl vstd::std_specs::ops::DivAssignSpecImpl<$C> for $C {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, r: $C) -> bool { zero_div_expected() || znz(r.z()) }
  open spec fn div_assign_spec(&self, r: $C) -> &$C { &mk_$c(zdiv(self.z(), r.z())) }
}
impl<'a, 'b> vstd::std_specs::ops::AddSpecImpl<&'b $C> for &'a $C {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, r: &'b $C) -> bool { true }
  open spec fn add_spec(self, r: &'b $C) -> $C { mk_$c(zadd(self.z(), r.z())) }
}
impl<'a, 'b> vstd::std_specs::ops::SubSpecImpl<&'b $C> for &'a $C {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, r: &'b $C) -> bool { true }
  open spec fn sub_spec(self, r: &'b $C) -> $C { mk_$c(zsub(self.z(), r.z())) }
}
impl<'a, 'b> vstd::std_specs::ops::MulSpecImpl<&'b $C> for &'a $C {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, r: &'b $C) -> bool { true }
  open spec fn mul_spec(self, r: &'b $C) -> $C { mk_$c(zmul(self.z(), r.z())) }
}
impl<'a, 'b> vstd::std_specs::ops::DivSpecImpl<&'b $C> for &'a $C {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, r: &'b $C) -> bool { zero_div_expected() || znz(r.z()) }
  open spec fn div_spec(self, r: &'b $C) -> $C { mk_$c(zdiv(self.z(), r.z())) }
}
@fn Add@$C::add
@ensures
  r.z() == zadd(self.z(), rhs.z()),
@fn Sub@$C::sub
@ensures
  r.z() == zsub(self.z(), rhs.z()),
@fn Mul@$C::mul
@ensures
  r.z() == zmul(self.z(), rhs.z()),
@fn Div@$C::div
@maypanic
@ensures
  znz(rhs.z()),
  r.z() == zdiv(self.z(), rhs.z()),
@begin
  proof { lem_nsq(rhs.z()); lem_div_forms(self.z(), rhs.z()); }
@fn AddAssign@$C::add_assign
@ensures
  final(self).z() == zadd(old(self).z(), rhs.z()),
@fn SubAssign@$C::sub_assign
@ensures
  final(self).z() == zsub(old(self).z(), rhs.z()),
@fn MulAssign@$C::mul_assign
@ensures
  final(self).z() == zmul(old(self).z(), rhs.z()),
@fn DivAssign@$C::div_assign
@maypanic
@ensures
  znz(rhs.z()),
  final(self).z() == zdiv(old(self).z(), rhs.z()),
@begin
  proof { lem_nsq(rhs.z()); lem_div_forms(self.z(), rhs.z()); }
@fn Add@&$C::add
@ensures
  r.z() == zadd(self.z(), rhs.z()),
@fn Sub@&$C::sub
@ensures
  r.z() == zsub(self.z(), rhs.z()),
@fn Mul@&$C::mul
@ensures
  r.z() == zmul(self.z(), rhs.z()),
@fn Div@&$C::div
@maypanic
@ensures
  znz(rhs.z()),
  r.z() == zdiv(self.z(), rhs.z()),
@begin
  proof { lem_nsq(rhs.z()); lem_div_forms(self.z(), rhs.z()); }
@fn Default@$C::default
@ensures
  r.z() == zc(0real, 0real),
@fn PartialOrd@$C::ge
@ensures
  r == (znsq(self.z()) >= znsq(other.z())),
@fn PartialOrd@$C::gt
@ensures
  r == (znsq(self.z()) > znsq(other.z())),
@fn PartialOrd@$C::le
@ensures
  r == (znsq(self.z()) <= znsq(other.z())),
@fn PartialOrd@$C::lt
@ensures
  r == (znsq(self.z()) < znsq(other.z())),
@fn PartialOrd@$C::partial_cmp
@ensures
  r == Some(r_cmp(znsq(self.z()), znsq(other.z()))),
@file math/mod.rs mode=$f
@fn Complex@$C::new
@ensures
  r.z() == zc(re.v(), im.v()),
@fn Complex@$C::newe
@ensures
  r.z() == zpolar(a.v(), p.v()),
@fn Complex@$C::usize_to_complex
@ensures
  r.z() == zc(num as real, 0real),
@fn Complex@$C::unit
@ensures
  r.z() == zc(1real, 0real),
@fn Complex@$C::iunit
@ensures
  r.z() == zc(0real, 1real),
@fn Complex@$C::re
@ensures
  r.v() == self.z().re,
@fn Complex@$C::im
@ensures
  r.v() == self.z().im,
@fn Complex@$C::norm
@ensures
  r.v() == znorm(self.z()),
  r.v() >= 0real,
  r.v() * r.v() == znsq(self.z()),
@begin
  proof { lem_norm(self.z()); lem_nsq(self.z()); }
@fn Complex@$C::norm_sq
@ensures
  r.v() == znsq(self.z()),
@fn Complex@$C::phase
@ensures
  r.v() == zphase(self.z()),
  -r_pi() < r.v() <= r_pi(),
  zpolar(znorm(self.z()), r.v()) == self.z(),
@begin
  proof { lem_polar(self.z()); ax_atan2(self.z().im, self.z().re); }
@fn Complex@$C::conj
@ensures
  r.z() == zconj(self.z()),
@endfor
