@raw
// ---------------------------------------------------------------- drawing single numbers (C15)
/// the number in [0, 1] made from a state of the generator
pub open spec fn unif(s: int) -> real { rdiv(s as real, 2147483648real) }
/// a point at radius r lies on the circle of that radius
pub proof fn lem_circle(r: real, phi: real)
  ensures znsq(zpolar(r, phi)) == r * r
{
  ax_trig(phi);
  let (c, s) = (r_cos(phi), r_sin(phi));
  assert((r * c) * (r * c) + (r * s) * (r * s) == (r * r) * (s * s + c * c)) by(nonlinear_arith);
  assert((r * r) * (s * s + c * c) == r * r) by(nonlinear_arith) requires s * s + c * c == 1real;
}
/// u times a with u between -1 and 1 has at most the square of a
pub proof fn lem_within(u: real, a: real)
  requires -1real <= u <= 1real
  ensures (u * a) * (u * a) <= a * a
{
  assert((u * a) * (u * a) == (u * u) * (a * a)) by(nonlinear_arith);
  assert(0real <= u * u <= 1real) by(nonlinear_arith) requires -1real <= u <= 1real;
  assert(a * a >= 0real) by(nonlinear_arith);
  let (x, y) = (u * u, a * a);
  assert(x * y <= y) by(nonlinear_arith) requires x <= 1real, y >= 0real;
}
/// the square of the Box-Muller radius with variance w from the two numbers u and v
pub open spec fn normal_sq(u: real, v: real, w: real) -> real { -2real * r_ln(u) * (r_cos(2real * v * r_pi()) * r_cos(2real * v * r_pi())) * w }
pub proof fn lem_normal(u: real, v: real, w: real)
  requires 0real < u <= 1real, w >= 0real
  ensures ({ let r = r_sqrt(-2real * r_ln(u)) * r_cos(2real * v * r_pi()) * r_sqrt(w); r * r == normal_sq(u, v, w) })
{
  lem_ln_neg(u);
  ax_sqrt(-2real * r_ln(u));
  ax_sqrt(w);
  let (a, c, b) = (r_sqrt(-2real * r_ln(u)), r_cos(2real * v * r_pi()), r_sqrt(w));
  assert((a * c * b) * (a * c * b) == (a * a) * (c * c) * (b * b)) by(nonlinear_arith);
}
pub proof fn lem_over(n: real, k: real)
  requires n > 0real, k > 0real
  ensures rdiv(k, n) > 0real, rdiv(1real, n) > 0real, rdiv(1real, n) * k == rdiv(k, n)
{
  assert(k / n > 0real) by(nonlinear_arith) requires n > 0real, k > 0real;
  assert(1real / n > 0real) by(nonlinear_arith) requires n > 0real;
  assert((1real / n) * k == k / n) by(nonlinear_arith) requires n > 0real;
}
pub open spec fn lcg2(s: int) -> int { lcg(lcg(s)) }
pub open spec fn lcg3(s: int) -> int { lcg(lcg(lcg(s))) }
pub proof fn lem_unif(s: int)
  requires s >= 0
  ensures 0 <= lcg(s) < 2147483647, 0real <= unif(lcg(s)) <= 1real
{
  lem_lcg(s);
  let x = lcg(s) as real;
  assert(0real <= x / 2147483648real <= 1real) by(nonlinear_arith) requires 0real <= x <= 2147483648real;
}
pub proof fn lem_even(u: real, a: real)
  requires 0real <= u <= 1real, a >= 0real
  ensures -a <= 2real * a * u - a <= a
{
  assert(0real <= a * u <= a) by(nonlinear_arith) requires 0real <= u <= 1real, a >= 0real;
  assert(2real * a * u == 2real * (a * u)) by(nonlinear_arith);
}
/// the angle drawn from a state
pub open spec fn angle(s: int) -> real { 2real * unif(s) * r_pi() }
/// the number lies within the disc whose radius has this square
#[verifier::opaque]
pub open spec fn in_disc(a: Z, sq: real) -> bool { znsq(a) <= sq }
/// the number lies on the circle whose radius has this square
#[verifier::opaque]
pub open spec fn on_circle(a: Z, sq: real) -> bool { znsq(a) == sq }
/// the number lies on the line through the origin with this angle
#[verifier::opaque]
pub open spec fn on_line(a: Z, phi: real) -> bool { exists |m: real| a == #[trigger] zpolar(m, phi) }
/// a radius drawn evenly from [0, a] or from [-a, a], kept whole
#[verifier::opaque]
pub open spec fn half_radius(u: real, a: real) -> real { u * a }
#[verifier::opaque]
pub open spec fn full_radius(u: real, a: real) -> real { 2real * u * a - a }
pub proof fn lem_radius(u: real, a: real)
  ensures
    full_radius(u, a) == 2real * u * a - a, full_radius(u, a) == 2real * a * u - a,
    half_radius(u, a) == u * a, half_radius(u, a) == a * u,
{
  reveal(full_radius);
  reveal(half_radius);
  assert(2real * u * a == 2real * a * u) by(nonlinear_arith);
  assert(u * a == a * u) by(nonlinear_arith);
}
pub proof fn lem_line(m: real, phi: real)
  ensures on_line(zc(m * r_cos(phi), m * r_sin(phi)), phi)
{
  reveal(on_line);
  assert(zc(m * r_cos(phi), m * r_sin(phi)) == zpolar(m, phi));
}
pub proof fn lem_flat_draw(s: int, sq: real, a: real, r: real, phi: real)
  requires s >= 0, r == full_radius(unif(lcg(s)), a) || r == half_radius(unif(lcg(s)), a), a * a == sq
  ensures in_disc(zc(r * r_cos(phi), r * r_sin(phi)), sq), on_line(zc(r * r_cos(phi), r * r_sin(phi)), phi)
{
  reveal(in_disc);
  lem_line(r, phi);
  lem_unif(s);
  let u = unif(lcg(s));
  lem_radius(u, a);
  lem_circle(r, phi);
  if r == half_radius(u, a) {
    lem_within(u, a);
  } else {
    let d = 2real * u - 1real;
    assert(r == d * a) by(nonlinear_arith) requires r == 2real * u * a - a, d == 2real * u - 1real;
    lem_within(d, a);
  }
}
pub proof fn lem_normal_draw(s: int, u: real, w: real, r: real, phi: real)
  requires s >= 0, 0real < u <= 1real, w >= 0real, r == r_sqrt(-2real * r_ln(u)) * r_cos(angle(lcg2(s))) * r_sqrt(w)
  ensures on_circle(zc(r * r_cos(phi), r * r_sin(phi)), normal_sq(u, unif(lcg2(s)), w)), on_line(zc(r * r_cos(phi), r * r_sin(phi)), phi)
{
  reveal(on_circle);
  lem_line(r, phi);
  lem_circle(r, phi);
  lem_normal(u, unif(lcg2(s)), w);
}
@for C=Cf32,Cf64 F=F32,F64 f=f32,f64 T=32,64
@raw
/// the first number drawn, kept off zero where its logarithm is needed
pub open spec fn pos_$f(s: int) -> real { if unif(s) >= r_tiny$T() { unif(s) } else { r_tiny$T() } }
@file math/mod.rs mode=$f
@fn Real@$f::gen
@ensures
  *final(seed) == lcg(*old(seed) as int),
  -(scale as real) <= r.v() <= scale as real,
  r.v() == full_radius(unif(lcg(*old(seed) as int)), scale as real),
@begin
  proof { lem_unif(*seed as int); lem_even(unif(lcg(*seed as int)), scale as real); lem_radius(unif(lcg(*seed as int)), scale as real); }

@fn Complex@$C::gen
@ensures
  *final(seed) == lcg2(*old(seed) as int),
  in_disc(r.z(), (scale as real) * (scale as real)),
  on_line(r.z(), angle(lcg2(*old(seed) as int))),
@begin
  let ghost s0 = *seed as int;
  proof { lem_radius(unif(lcg(s0)), scale as real); }
@tail
  proof { lem_flat_draw(s0, (scale as real) * (scale as real), scale as real, r.v(), phi.v()); }

@fn Complex@$C::gen_he
@requires
  i_units > 0,
@ensures
  *final(seed) == lcg3(*old(seed) as int),
  on_circle(r.z(), normal_sq(pos_$f(lcg(*old(seed) as int)), unif(lcg2(*old(seed) as int)), rdiv(2real, i_units as real))),
  on_line(r.z(), angle(lcg3(*old(seed) as int))),
@begin
  let ghost s0 = *seed as int;
  proof { lem_tiny(); lem_unif(s0); lem_ln_neg(pos_$f(lcg(s0))); lem_over(i_units as real, 2real); }
@tail
  proof { lem_normal_draw(s0, pos_$f(lcg(s0)), rdiv(2real, i_units as real), r.v(), phi.v()); }

@fn Complex@$C::gen_xa
@requires
  i_units > 0,
@ensures
  *final(seed) == lcg2(*old(seed) as int),
  in_disc(r.z(), rdiv(12real, i_units as real)),
  on_line(r.z(), angle(lcg2(*old(seed) as int))),
@begin
  let ghost s0 = *seed as int;
  let ghost a = r_sqrt(rdiv(12real, i_units as real));
  proof { lem_over(i_units as real, 12real); ax_sqrt(rdiv(12real, i_units as real)); lem_radius(unif(lcg(s0)), a); }
@tail
  proof { lem_flat_draw(s0, rdiv(12real, i_units as real), a, r.v(), phi.v()); }

@fn Complex@$C::gen_xagu
@requires
  io_units > 0,
@ensures
  *final(seed) == lcg2(*old(seed) as int),
  in_disc(r.z(), rdiv(6real, io_units as real)),
  on_line(r.z(), angle(lcg2(*old(seed) as int))),
@begin
  let ghost s0 = *seed as int;
  let ghost a = r_sqrt(rdiv(6real, io_units as real));
  proof { lem_over(io_units as real, 6real); ax_sqrt(rdiv(6real, io_units as real)); lem_radius(unif(lcg(s0)), a); }
@tail
  proof { lem_flat_draw(s0, rdiv(6real, io_units as real), a, r.v(), phi.v()); }

@fn Complex@$C::gen_xagn
@requires
  io_units > 0,
@ensures
  *final(seed) == lcg3(*old(seed) as int),
  on_circle(r.z(), normal_sq(pos_$f(lcg(*old(seed) as int)), unif(lcg2(*old(seed) as int)), rdiv(2real, io_units as real))),
  on_line(r.z(), angle(lcg3(*old(seed) as int))),
@begin
  let ghost s0 = *seed as int;
  proof { lem_tiny(); lem_unif(s0); lem_ln_neg(pos_$f(lcg(s0))); lem_over(io_units as real, 2real); }
@tail
  proof { lem_normal_draw(s0, pos_$f(lcg(s0)), rdiv(2real, io_units as real), r.v(), phi.v()); }
@endfor
