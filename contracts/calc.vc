@raw
// ---------------------------------------------------------------- derivatives
pub open spec fn pos(e: real) -> bool { e > 0real }
pub open spec fn within(h: real, d: real) -> bool { -d < h < d }
/// d is the derivative of f at x
#[verifier::opaque]
pub open spec fn has_deriv(f: spec_fn(real) -> real, x: real, d: real) -> bool {
  forall|e: real| #[trigger] pos(e) ==> exists|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(f(x + h) - f(x) - d * h) <= e * rabs(h)
}
/// the same function of one variable
pub open spec fn same(f: spec_fn(real) -> real, g: spec_fn(real) -> real) -> bool { forall|t: real| #[trigger] f(t) == g(t) }

/// near x the function is linear
pub proof fn lem_d_local(h: spec_fn(real) -> real, x: real, d: real, rad: real)
  requires rad > 0real, forall|u: real| #[trigger] within(u, rad) ==> h(x + u) == h(x) + d * u
  ensures has_deriv(h, x, d)
{
  reveal(has_deriv);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] pos(dl) && forall|u: real| #[trigger] within(u, dl) ==> rabs(h(x + u) - h(x) - d * u) <= e * rabs(u) by {
    assert(pos(rad));
    assert forall|u: real| #[trigger] within(u, rad) implies rabs(h(x + u) - h(x) - d * u) <= e * rabs(u) by {
      assert(e * rabs(u) >= 0real) by(nonlinear_arith) requires e > 0real, rabs(u) >= 0real;
    }
  }
}
pub proof fn lem_d_const(h: spec_fn(real) -> real, x: real, c: real)
  requires forall|t: real| #[trigger] h(t) == c
  ensures has_deriv(h, x, 0real)
{ lem_d_local(h, x, 0real, 1real); }
pub proof fn lem_d_id(h: spec_fn(real) -> real, x: real)
  requires forall|t: real| #[trigger] h(t) == t
  ensures has_deriv(h, x, 1real)
{ lem_d_local(h, x, 1real, 1real); }

// ---- products of reals
#[verifier::spinoff_prover]
pub proof fn lem_abs_mul(a: real, b: real) ensures rabs(a * b) == rabs(a) * rabs(b)
{ assert(rabs(a * b) == rabs(a) * rabs(b)) by(nonlinear_arith); }
#[verifier::spinoff_prover]
pub proof fn lem_mul_le(a: real, b: real, c: real) requires a <= b, 0real <= c ensures a * c <= b * c
{ assert(a * c <= b * c) by(nonlinear_arith) requires a <= b, 0real <= c; }
#[verifier::spinoff_prover]
pub proof fn lem_mul_ge0(a: real, b: real) requires 0real <= a, 0real <= b ensures 0real <= a * b
{ assert(0real <= a * b) by(nonlinear_arith) requires 0real <= a, 0real <= b; }
#[verifier::spinoff_prover]
pub proof fn lem_mul_pos(a: real, b: real) requires 0real < a, 0real < b ensures 0real < a * b
{ assert(0real < a * b) by(nonlinear_arith) requires 0real < a, 0real < b; }
#[verifier::spinoff_prover]
pub proof fn lem_qmul(a: real, b: real) requires b != 0real ensures (a / b) * b == a
{ assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real; }
#[verifier::spinoff_prover]
pub proof fn lem_qpos(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real, (a / b) * b == a
{ let q = a / b; lem_qmul(a, b); assert(q > 0real) by(nonlinear_arith) requires q * b == a, a > 0real, b > 0real; }
/// a quotient is what its product with the divisor says
#[verifier::spinoff_prover]
pub proof fn lem_qis(a: real, b: real, q: real) requires b != 0real, q * b == a ensures a / b == q
{ assert(a / b == q) by(nonlinear_arith) requires b != 0real, q * b == a; }
pub open spec fn rmin(a: real, b: real) -> real { if a < b { a } else { b } }

/// the remainder of the linear approximation
pub open spec fn rest(f: spec_fn(real) -> real, x: real, d: real, u: real) -> real { f(x + u) - f(x) - d * u }
pub open spec fn close(f: spec_fn(real) -> real, x: real, d: real, e: real, dl: real) -> bool {
  pos(dl) && forall|u: real| #[trigger] within(u, dl) ==> rabs(rest(f, x, d, u)) <= e * rabs(u)
}
#[verifier::spinoff_prover]
pub proof fn lem_delta(f: spec_fn(real) -> real, x: real, d: real, e: real) -> (dl: real)
  requires has_deriv(f, x, d), e > 0real
  ensures close(f, x, d, e, dl)
{
  reveal(has_deriv);
  assert(pos(e));
  let dl = choose|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(f(x + h) - f(x) - d * h) <= e * rabs(h);
  dl
}
#[verifier::spinoff_prover]
pub proof fn lem_has(f: spec_fn(real) -> real, x: real, d: real)
  requires forall|e: real| #[trigger] pos(e) ==> exists|dl: real| #[trigger] close(f, x, d, e, dl)
  ensures has_deriv(f, x, d)
{
  reveal(has_deriv);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(f(x + h) - f(x) - d * h) <= e * rabs(h) by {
    let dl = choose|dl: real| #[trigger] close(f, x, d, e, dl);
    assert(pos(dl));
    assert forall|h: real| #[trigger] within(h, dl) implies rabs(f(x + h) - f(x) - d * h) <= e * rabs(h) by { assert(rabs(rest(f, x, d, h)) <= e * rabs(h)); }
  }
}
/// two functions that agree near a point have the same derivative there
#[verifier::spinoff_prover]
pub proof fn lem_d_near(f: spec_fn(real) -> real, h: spec_fn(real) -> real, x: real, d: real, rad: real)
  requires has_deriv(f, x, d), rad > 0real, forall|u: real| #[trigger] within(u, rad) ==> h(x + u) == f(x + u)
  ensures has_deriv(h, x, d)
{
  assert(within(0real, rad) && x + 0real == x);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, d, e, dl) by {
    let dl = lem_delta(f, x, d, e);
    let m = rmin(dl, rad);
    assert forall|u: real| #[trigger] within(u, m) implies rabs(rest(h, x, d, u)) <= e * rabs(u) by {
      assert(within(u, dl) && within(u, rad));
      assert(rabs(rest(f, x, d, u)) <= e * rabs(u));
    }
    assert(close(h, x, d, e, m));
  }
  lem_has(h, x, d);
}

// ---- rules of differentiation
#[verifier::spinoff_prover]
pub proof fn lem_d_sum(f: spec_fn(real) -> real, a: real, g: spec_fn(real) -> real, b: real, h: spec_fn(real) -> real, x: real)
  requires has_deriv(f, x, a), has_deriv(g, x, b), forall|t: real| #[trigger] h(t) == f(t) + g(t)
  ensures has_deriv(h, x, a + b)
{
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, a + b, e, dl) by {
    let (p, q) = (lem_delta(f, x, a, e / 2real), lem_delta(g, x, b, e / 2real));
    let m = rmin(p, q);
    assert forall|u: real| #[trigger] within(u, m) implies rabs(rest(h, x, a + b, u)) <= e * rabs(u) by {
      assert(within(u, p) && within(u, q));
      let (r, s, w) = (rest(f, x, a, u), rest(g, x, b, u), rabs(u));
      assert((a + b) * u == a * u + b * u) by(nonlinear_arith);
      assert((e / 2real) * w + (e / 2real) * w == e * w) by(nonlinear_arith);
      assert(rest(h, x, a + b, u) == r + s);
    }
    assert(close(h, x, a + b, e, m));
  }
  lem_has(h, x, a + b);
}
/// the remainder of a product, from the remainders r and s of its factors
#[verifier::spinoff_prover]
pub proof fn lem_prod_rest(f: real, g: real, a: real, b: real, u: real, r: real, s: real)
  ensures (f + a * u + r) * (g + b * u + s) - f * g - (a * g + f * b) * u == g * r + f * s + (a * u + r) * (b * u + s)
{
  let (y, z) = (a * u + r, b * u + s);
  assert((f + y) * (g + z) == f * g + f * z + y * g + y * z) by(nonlinear_arith);
  assert(f * z == f * (b * u) + f * s) by(nonlinear_arith) requires z == b * u + s;
  assert(y * g == g * (a * u) + g * r) by(nonlinear_arith) requires y == a * u + r;
  assert((a * g + f * b) * u == g * (a * u) + f * (b * u)) by(nonlinear_arith);
}
/// |a u + r| is at most (|a| + 1) |u| when |r| <= |u|
#[verifier::spinoff_prover]
pub proof fn lem_step(a: real, u: real, r: real, e: real)
  requires rabs(r) <= e * rabs(u), 0real < e <= 1real
  ensures rabs(a * u + r) <= (rabs(a) + 1real) * rabs(u)
{
  lem_abs_mul(a, u);
  lem_mul_le(e, 1real, rabs(u));
  let (c, w) = (rabs(a), rabs(u));
  assert((c + 1real) * w == c * w + 1real * w) by(nonlinear_arith);
}
#[verifier::spinoff_prover]
pub proof fn lem_d_mul(f: spec_fn(real) -> real, a: real, g: spec_fn(real) -> real, b: real, h: spec_fn(real) -> real, x: real)
  requires has_deriv(f, x, a), has_deriv(g, x, b), forall|t: real| #[trigger] h(t) == f(t) * g(t)
  ensures has_deriv(h, x, a * g(x) + f(x) * b)
{
  let d = a * g(x) + f(x) * b;
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, d, e, dl) by {
    let n = rabs(f(x)) + rabs(g(x)) + 1real;
    let k = (rabs(a) + 1real) * (rabs(b) + 1real);
    lem_mul_pos(rabs(a) + 1real, rabs(b) + 1real);
    lem_qpos(e / 2real, n);
    lem_qpos(e / 2real, k);
    let e1 = rmin(1real, (e / 2real) / n);
    let (p, q) = (lem_delta(f, x, a, e1), lem_delta(g, x, b, e1));
    let m = rmin(rmin(p, q), (e / 2real) / k);
    assert forall|u: real| #[trigger] within(u, m) implies rabs(rest(h, x, d, u)) <= e * rabs(u) by {
      assert(within(u, p) && within(u, q));
      let (r, s, w) = (rest(f, x, a, u), rest(g, x, b, u), rabs(u));
      let (y, z) = (a * u + r, b * u + s);
      assert(f(x + u) == f(x) + y && g(x + u) == g(x) + z);
      lem_prod_rest(f(x), g(x), a, b, u, r, s);
      let t1 = g(x) * r; let t2 = f(x) * s; let t3 = y * z;
      assert(rest(h, x, d, u) == t1 + t2 + t3);
      lem_abs_mul(g(x), r); lem_abs_mul(f(x), s); lem_abs_mul(y, z);
      lem_step(a, u, r, e1); lem_step(b, u, s, e1);
      lem_two(rabs(f(x)), rabs(g(x)), rabs(r), rabs(s), e1 * w);
      // e1 w n <= e/2 w
      lem_mul_le(e1, (e / 2real) / n, n);
      lem_mul_le(e1 * n, e / 2real, w);
      assert((e1 * w) * n == (e1 * n) * w) by(nonlinear_arith);
      // |y z| <= k w w <= e/2 w
      lem_four(rabs(y), rabs(a) + 1real, rabs(z), rabs(b) + 1real, w);
      lem_mul_le(w, (e / 2real) / k, k);
      lem_mul_le(w * k, e / 2real, w);
      assert((k * w) * w == (w * k) * w) by(nonlinear_arith);
      assert((e / 2real) * w + (e / 2real) * w == e * w) by(nonlinear_arith);
    }
    assert(close(h, x, d, e, m));
  }
  lem_has(h, x, d);
}
#[verifier::spinoff_prover]
pub proof fn lem_two(f: real, g: real, r: real, s: real, c: real)
  requires 0real <= f, 0real <= g, 0real <= r <= c, 0real <= s <= c
  ensures g * r + f * s <= c * (f + g + 1real)
{
  lem_mul_le(r, c, g); lem_mul_le(s, c, f);
  assert(c * (f + g + 1real) == c * f + c * g + c) by(nonlinear_arith);
  assert(g * r == r * g && f * s == s * f) by(nonlinear_arith);
}
#[verifier::spinoff_prover]
pub proof fn lem_four(y: real, a: real, z: real, b: real, w: real)
  requires 0real <= y <= a * w, 0real <= z <= b * w, 0real <= w, 0real <= a, 0real <= b
  ensures y * z <= ((a * b) * w) * w
{
  lem_mul_le(y, a * w, z);
  lem_mul_ge0(a, w);
  lem_mul_le(z, b * w, a * w);
  assert(z * (a * w) == (a * w) * z) by(nonlinear_arith);
  assert((b * w) * (a * w) == ((a * b) * w) * w) by(nonlinear_arith);
}
/// the remainder of a reciprocal: g moves to gg = g + b u + s
#[verifier::spinoff_prover]
pub proof fn lem_recip_rest(g: real, gg: real, b: real, u: real, s: real)
  requires g != 0real, gg == g + b * u + s, gg != 0real
  ensures (1real / gg - 1real / g - (-b / (g * g)) * u) * (gg * (g * g)) == (b * u) * (b * u + s) - g * s
{
  let (i, j) = (1real / gg, 1real / g);
  let q = g * g;
  assert(q != 0real) by(nonlinear_arith) requires q == g * g, g != 0real;
  let c = -b / q;
  lem_qmul(1real, gg); lem_qmul(1real, g); lem_qmul(-b, q);
  assert(i * (gg * q) == q) by(nonlinear_arith) requires i * gg == 1real;
  assert(j * (gg * q) == gg * g) by(nonlinear_arith) requires j * g == 1real, q == g * g;
  assert((c * u) * (gg * q) == -(b * u) * gg) by(nonlinear_arith) requires c * q == -b;
  let big = gg * q;
  assert((i - j - c * u) * big == i * big - j * big - (c * u) * big) by(nonlinear_arith);
  let bu = b * u;
  assert(q - gg * g + bu * gg == bu * (bu + s) - g * s) by(nonlinear_arith) requires q == g * g, gg == g + bu + s;
  assert(-(b * u) * gg == -(bu * gg)) by(nonlinear_arith) requires bu == b * u;
}
#[verifier::spinoff_prover]
pub proof fn lem_d_recip(g: spec_fn(real) -> real, b: real, h: spec_fn(real) -> real, x: real)
  requires has_deriv(g, x, b), g(x) != 0real, forall|t: real| #[trigger] h(t) == 1real / g(t)
  ensures
    has_deriv(h, x, -b / (g(x) * g(x))),
    exists|rad: real| #[trigger] pos(rad) && forall|u: real| #[trigger] within(u, rad) ==> g(x + u) != 0real,
{
  let d = -b / (g(x) * g(x));
  let y = g(x);
  let n = rabs(y);
  let k = rabs(b) * (rabs(b) + 1real) + 1real;
  lem_mul_ge0(rabs(b), rabs(b) + 1real);
  let q = n * n;
  lem_mul_pos(n, n);
  let c = q * n;
  lem_mul_pos(q, n);
  lem_abs_mul(y, y);
  lem_qpos(n / 2real, rabs(b) + 1real);
  let rad0 = (n / 2real) / (rabs(b) + 1real);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, d, e, dl) && forall|u: real| #[trigger] within(u, dl) ==> g(x + u) != 0real by {
    lem_mul_pos(e, q);
    lem_mul_pos(e, c);
    let (eq, ec) = (e * q, e * c);
    assert(eq / 4real > 0real && ec / 4real > 0real);
    let e1 = rmin(1real, (e * q) / 4real);
    lem_qpos((e * c) / 4real, k);
    let p = lem_delta(g, x, b, e1);
    let m = rmin(rmin(p, rad0), ((e * c) / 4real) / k);
    assert forall|u: real| #[trigger] within(u, m) implies g(x + u) != 0real && rabs(rest(h, x, d, u)) <= e * rabs(u) by {
      assert(within(u, p));
      let (s, w) = (rest(g, x, b, u), rabs(u));
      let gg = g(x + u);
      lem_step(b, u, s, e1);
      // gg stays away from zero
      lem_mul_le(w, rad0, rabs(b) + 1real);
      assert((rabs(b) + 1real) * w == w * (rabs(b) + 1real)) by(nonlinear_arith);
      assert(gg == y + (b * u + s));
      assert(rabs(gg) >= n / 2real && gg != 0real);
      lem_recip_rest(y, gg, b, u, s);
      let big = gg * (y * y);
      let r = rest(h, x, d, u);
      assert(r == 1real / gg - 1real / y - d * u);
      let (t1, t2) = ((b * u) * (b * u + s), y * s);
      assert(r * big == t1 - t2);
      lem_abs_mul(r, big); lem_abs_mul(gg, y * y); lem_abs_mul(b * u, b * u + s); lem_abs_mul(y, s); lem_abs_mul(b, u);
      // |big| >= c / 2
      let z = rabs(big);
      lem_mul_le(n / 2real, rabs(gg), q);
      assert((n / 2real) * q == c / 2real) by(nonlinear_arith) requires c == q * n;
      // |t1| <= (k - 1) w w
      lem_four(rabs(b * u), rabs(b), rabs(b * u + s), rabs(b) + 1real, w);
      // w k <= e c / 4
      lem_mul_le(w, ((e * c) / 4real) / k, k);
      lem_mul_le(w * k, (e * c) / 4real, w);
      lem_mul_ge0(w, w);
      let k1 = rabs(b) * (rabs(b) + 1real);
      assert((k1 * w) * w + w * w == (w * k) * w) by(nonlinear_arith) requires k == k1 + 1real;
      // |t2| <= e1 w n <= e c / 4 w
      lem_mul_le(rabs(s), e1 * w, n);
      lem_mul_ge0(w, n);
      lem_mul_le(e1, (e * q) / 4real, w * n);
      assert(e1 * (w * n) == (e1 * w) * n) by(nonlinear_arith);
      assert(((e * q) / 4real) * (w * n) == ((e * c) / 4real) * w) by(nonlinear_arith) requires c == q * n;
      assert(n * rabs(s) == rabs(s) * n) by(nonlinear_arith);
      let v = rabs(r);
      assert(v * z <= ((e * c) / 2real) * w) by { let ec = e * c; assert((ec / 4real) * w + (ec / 4real) * w == (ec / 2real) * w) by(nonlinear_arith); }
      lem_last(v, z, e, c, w);
    }
    assert(close(h, x, d, e, m));
  }
  assert(pos(1real));
  let m = choose|dl: real| #[trigger] close(h, x, d, 1real, dl) && forall|u: real| #[trigger] within(u, dl) ==> g(x + u) != 0real;
  assert(pos(m));
  lem_has(h, x, d);
}
/// from v z <= e c/2 w with z >= c/2 > 0 follows v <= e w
#[verifier::spinoff_prover]
pub proof fn lem_last(v: real, z: real, e: real, c: real, w: real)
  requires 0real <= v, z >= c / 2real, c > 0real, e > 0real, w >= 0real, v * z <= ((e * c) / 2real) * w
  ensures v <= e * w
{
  let y = c / 2real;
  lem_mul_le(y, z, v);
  assert(z * v == v * z) by(nonlinear_arith);
  assert(((e * c) / 2real) * w == y * (e * w)) by(nonlinear_arith) requires y == c / 2real;
  let q = e * w;
  assert(v <= q) by(nonlinear_arith) requires y * v <= y * q, y > 0real;
}
#[verifier::spinoff_prover]
pub proof fn lem_d_div(f: spec_fn(real) -> real, a: real, g: spec_fn(real) -> real, b: real, h: spec_fn(real) -> real, x: real)
  requires has_deriv(f, x, a), has_deriv(g, x, b), g(x) != 0real, forall|t: real| #[trigger] h(t) == rdiv(f(t), g(t))
  ensures has_deriv(h, x, (a * g(x) - f(x) * b) / (g(x) * g(x)))
{
  let i = |t: real| 1real / g(t);
  lem_d_recip(g, b, i, x);
  let j = |t: real| f(t) * i(t);
  let c = -b / (g(x) * g(x));
  lem_d_mul(f, a, i, c, j, x);
  let rad = choose|rad: real| #[trigger] pos(rad) && forall|u: real| #[trigger] within(u, rad) ==> g(x + u) != 0real;
  assert forall|u: real| #[trigger] within(u, rad) implies h(x + u) == j(x + u) by {
    let (p, q) = (f(x + u), g(x + u));
    assert(h(x + u) == p / q);
    assert(p / q == p * (1real / q)) by(nonlinear_arith) requires q != 0real;
  }
  lem_d_near(j, h, x, a * i(x) + f(x) * c, rad);
  let (y, z) = (f(x), g(x));
  let q = z * z;
  assert(q != 0real) by(nonlinear_arith) requires q == z * z, z != 0real;
  let k = 1real / z;
  lem_qmul(1real, z); lem_qmul(-b, q);
  assert((a * k) * q == a * z) by(nonlinear_arith) requires k * z == 1real, q == z * z;
  assert((y * c) * q == -(y * b)) by(nonlinear_arith) requires c * q == -b;
  let s = a * k + y * c;
  assert(s * q == (a * k) * q + (y * c) * q) by(nonlinear_arith) requires s == a * k + y * c;
  lem_qis(a * z - y * b, q, s);
}
/// the remainder of a square root: s*s moves to ss*ss = s*s + a u + r
#[verifier::spinoff_prover]
pub proof fn lem_sqrt_rest(s: real, ss: real, a: real, u: real, r: real)
  requires s > 0real, ss >= 0real, ss * ss == s * s + a * u + r
  ensures
    (ss - s) * (ss + s) == a * u + r,
    (ss - s - (a / (2real * s)) * u) * ((2real * s) * (ss + s)) == (2real * s) * r - (a * u) * (ss - s),
{
  assert((ss - s) * (ss + s) == ss * ss - s * s) by(nonlinear_arith);
  let t = 2real * s;
  let c = a / t;
  lem_qmul(a, t);
  let (x, y) = (ss - s, ss + s);
  let (au, cu, ty) = (a * u, c * u, t * y);
  assert((x - cu) * ty == x * ty - cu * ty) by(nonlinear_arith);
  assert(x * ty == t * (x * y)) by(nonlinear_arith) requires ty == t * y;
  assert(cu * t == (c * t) * u) by(nonlinear_arith) requires cu == c * u;
  assert(cu * ty == (cu * t) * y) by(nonlinear_arith) requires ty == t * y;
  assert(t * (au + r) == t * au + t * r) by(nonlinear_arith);
  assert(t * au == au * y - au * x) by(nonlinear_arith) requires t == y - x;
}
#[verifier::spinoff_prover]
pub proof fn lem_d_sqrt(f: spec_fn(real) -> real, a: real, h: spec_fn(real) -> real, x: real)
  requires has_deriv(f, x, a), f(x) > 0real, forall|t: real| #[trigger] h(t) == r_sqrt(f(t))
  ensures has_deriv(h, x, a / (2real * r_sqrt(f(x))))
{
  let y = f(x);
  let s = r_sqrt(y);
  ax_sqrt(y);
  assert(s > 0real) by(nonlinear_arith) requires s * s == y, y > 0real, s >= 0real;
  let d = a / (2real * s);
  let k = rabs(a) * (rabs(a) + 1real) + 1real;
  lem_mul_ge0(rabs(a), rabs(a) + 1real);
  let q = s * s;
  let c = q * s;
  lem_mul_pos(q, s);
  lem_qpos(y, rabs(a) + 1real);
  let rad0 = y / (rabs(a) + 1real);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, d, e, dl) by {
    lem_mul_pos(e, s);
    lem_mul_pos(e, c);
    lem_qpos(e * c, k);
    let e1 = rmin(1real, (e * s) / 2real);
    let p = lem_delta(f, x, a, e1);
    let m = rmin(rmin(p, rad0), (e * c) / k);
    assert forall|u: real| #[trigger] within(u, m) implies rabs(rest(h, x, d, u)) <= e * rabs(u) by {
      assert(within(u, p));
      let (r, w) = (rest(f, x, a, u), rabs(u));
      let yy = f(x + u);
      lem_step(a, u, r, e1);
      lem_mul_le(w, rad0, rabs(a) + 1real);
      assert((rabs(a) + 1real) * w == w * (rabs(a) + 1real)) by(nonlinear_arith);
      assert(yy == y + (a * u + r) && yy >= 0real);
      let ss = r_sqrt(yy);
      ax_sqrt(yy);
      lem_sqrt_rest(s, ss, a, u, r);
      let big = (2real * s) * (ss + s);
      let v = rest(h, x, d, u);
      assert(v == ss - s - d * u);
      let o = rabs(ss - s);
      lem_abs_mul(ss - s, ss + s);
      lem_abs_mul(a * u, ss - s); lem_abs_mul(a, u); lem_abs_mul(2real * s, r); lem_abs_mul(v, big);
      // |ss - s| s <= (|a| + 1) w
      lem_mul_le(s, ss + s, o);
      assert(s * o == o * s && (ss + s) * o == o * (ss + s)) by(nonlinear_arith);
      // big >= 2 q
      assert(big >= 2real * q) by(nonlinear_arith) requires big == (2real * s) * (ss + s), q == s * s, s > 0real, ss >= 0real;
      // |v| big s <= 2 q |r| + |a| w (|a| + 1) w
      let z = rabs(v);
      let t = rabs(r);
      assert(z * big <= (2real * s) * t + (rabs(a) * w) * o);
      lem_mul_le(z * big, (2real * s) * t + (rabs(a) * w) * o, s);
      let aw = rabs(a) * w;
      lem_mul_ge0(rabs(a), w);
      lem_mul_le(o * s, (rabs(a) + 1real) * w, aw);
      assert(((2real * s) * t + aw * o) * s == 2real * (q * t) + (o * s) * aw) by(nonlinear_arith) requires q == s * s;
      // 2 q t <= e c w, and (k - 1) w w <= e c w
      lem_mul_le(t, e1 * w, q);
      lem_mul_ge0(w, q);
      lem_mul_le(e1, (e * s) / 2real, w * q);
      assert(e1 * (w * q) == (e1 * w) * q && q * t == t * q) by(nonlinear_arith);
      assert(((e * s) / 2real) * (w * q) == ((e * c) / 2real) * w) by(nonlinear_arith) requires c == q * s;
      lem_mul_le(w, (e * c) / k, k);
      lem_mul_le(w * k, e * c, w);
      lem_mul_ge0(w, w);
      let k1 = rabs(a) * (rabs(a) + 1real);
      assert(((rabs(a) + 1real) * w) * aw == (k1 * w) * w) by(nonlinear_arith) requires aw == rabs(a) * w, k1 == rabs(a) * (rabs(a) + 1real);
      assert((k1 * w) * w + w * w == (w * k) * w) by(nonlinear_arith) requires k == k1 + 1real;
      let ec = e * c;
      assert(2real * ((ec / 2real) * w) == ec * w) by(nonlinear_arith);
      assert((z * big) * s <= 2real * (ec * w));
      // so |v| 2 c <= 2 e c w
      lem_mul_ge0(z, s);
      lem_mul_le(2real * q, big, z * s);
      assert((2real * q) * (z * s) == 2real * (c * z)) by(nonlinear_arith) requires c == q * s;
      assert(big * (z * s) == (z * big) * s) by(nonlinear_arith);
      let ew = e * w;
      assert(ec * w == c * ew) by(nonlinear_arith) requires ec == e * c, ew == e * w;
      assert(z <= ew) by(nonlinear_arith) requires c * z <= c * ew, c > 0real;
    }
    assert(close(h, x, d, e, m));
  }
  lem_has(h, x, d);
}
#[verifier::spinoff_prover]
pub proof fn lem_d_exp(h: spec_fn(real) -> real, x: real)
  requires forall|t: real| #[trigger] h(t) == r_exp(t)
  ensures has_deriv(h, x, r_exp(x))
{
  let c = r_exp(x);
  lem_exp_pos(x);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] close(h, x, c, e, dl) by {
    lem_qpos(e, 2real * c);
    let m = rmin(0.5real, e / (2real * c));
    assert forall|u: real| #[trigger] within(u, m) implies rabs(rest(h, x, c, u)) <= e * rabs(u) by {
      ax_exp_add(x, u);
      lem_exp_near(u);
      let p = r_exp(u);
      let o = p - 1real - u;
      let (w, uu) = (rabs(u), u * u);
      // p (1 - u) <= 1 gives o (1 - u) <= u u
      assert(o * (1real - u) <= uu) by(nonlinear_arith) requires p * (1real - u) <= 1real, o == p - 1real - u, uu == u * u;
      assert(o <= 2real * uu) by(nonlinear_arith) requires o * (1real - u) <= uu, o >= 0real, -0.5real < u < 0.5real;
      lem_abs_mul(u, u);
      assert(rest(h, x, c, u) == c * o) by(nonlinear_arith) requires rest(h, x, c, u) == c * p - c - c * u, o == p - 1real - u;
      lem_mul_ge0(c, o);
      lem_mul_le(o, 2real * uu, c);
      assert(o * c == c * o && (2real * uu) * c == (w * (2real * c)) * w) by(nonlinear_arith) requires uu == w * w;
      lem_mul_le(w, e / (2real * c), 2real * c);
      lem_mul_le(w * (2real * c), e, w);
    }
    assert(close(h, x, c, e, m));
  }
  lem_has(h, x, c);
}
#[verifier::spinoff_prover]
pub proof fn lem_d_tanh(h: spec_fn(real) -> real, x: real)
  requires forall|t: real| #[trigger] h(t) == r_tanh(t)
  ensures has_deriv(h, x, 1real / (r_cosh(x) * r_cosh(x)))
{
  let ex = |t: real| r_exp(t);
  let one = |t: real| 1real;
  // tanh = 1 - 2 / (1 + e^2x)
  let ee = |t: real| ex(t) * ex(t);
  let dn = |t: real| one(t) + ee(t);
  let mt = |t: real| -2real;
  let fr = |t: real| rdiv(mt(t), dn(t));
  let p = r_exp(x);
  lem_exp_pos(x);
  lem_d_exp(ex, x);
  lem_d_const(one, x, 1real);
  lem_d_const(mt, x, -2real);
  lem_d_mul(ex, p, ex, p, ee, x);
  let pp = p * p;
  lem_d_sum(one, 0real, ee, p * p + p * p, dn, x);
  lem_mul_pos(p, p);
  let n = 1real + pp;
  lem_d_div(mt, 0real, dn, 0real + (p * p + p * p), fr, x);
  let d = (0real * n - -2real * (0real + (pp + pp))) / (n * n);
  assert forall|t: real| #[trigger] h(t) == one(t) + fr(t) by {
    reveal(r_tanh);
    lem_exp_pos(t);
    let (a, b) = (r_exp(t), r_exp(-t));
    let aa = a * a;
    lem_mul_pos(a, a);
    let r = rdiv(-2real, 1real + aa);
    assert(r * (1real + aa) == -2real) by { lem_qmul(-2real, 1real + aa); }
    assert((1real + r) * (a + b) == a - b) by {
      assert((a + b) * a == aa + 1real) by(nonlinear_arith) requires aa == a * a, a * b == 1real;
      let w = (1real + r) * (a + b);
      assert(w * a == (aa + 1real) + r * (1real + aa)) by(nonlinear_arith) requires w == (1real + r) * (a + b), (a + b) * a == aa + 1real;
      assert((a - b) * a == aa - 1real) by(nonlinear_arith) requires aa == a * a, a * b == 1real;
      let v = a - b;
      assert(w == v) by(nonlinear_arith) requires w * a == v * a, a > 0real;
    }
    lem_exp_pos(-t);
    lem_qis(a - b, a + b, 1real + r);
  }
  lem_d_sum(one, 0real, fr, d, h, x);
  // the value: 4 pp / n^2 = 1 / cosh^2
  lem_cosh_pos(x);
  reveal(r_cosh);
  let q = r_exp(-x);
  let c = r_cosh(x);
  let cc = c * c;
  lem_mul_pos(c, c);
  let nn = n * n;
  lem_mul_pos(n, n);
  assert(2real * c * p == n) by(nonlinear_arith) requires 2real * c == p + q, p * q == 1real, n == 1real + p * p;
  assert(4real * pp * cc == nn) by(nonlinear_arith) requires 2real * c * p == n, pp == p * p, cc == c * c, nn == n * n;
  lem_qmul(4real * pp, nn);
  let k = (4real * pp) / nn;
  assert(k * cc == 1real) by(nonlinear_arith) requires k * nn == 4real * pp, 4real * pp * cc == nn, nn > 0real;
  lem_qis(1real, cc, k);
  assert(0real * n - -2real * (0real + (pp + pp)) == 4real * pp);
  assert(d == k);
}

/// the partial derivatives of a complex function at z
pub open spec fn partials(f: spec_fn(Z) -> Z, z: Z, ux: real, uy: real, vx: real, vy: real) -> bool {
  &&& has_deriv(|t: real| f(zc(t, z.im)).re, z.re, ux)
  &&& has_deriv(|t: real| f(zc(z.re, t)).re, z.im, uy)
  &&& has_deriv(|t: real| f(zc(t, z.im)).im, z.re, vx)
  &&& has_deriv(|t: real| f(zc(z.re, t)).im, z.im, vy)
}
/// 1/2 (df/dx - i df/dy)
pub open spec fn wz(ux: real, uy: real, vx: real, vy: real) -> Z { zc((ux + vy) * 0.5real, (vx - uy) * 0.5real) }
/// 1/2 (df/dx + i df/dy)
pub open spec fn wc(ux: real, uy: real, vx: real, vy: real) -> Z { zc((ux - vy) * 0.5real, (vx + uy) * 0.5real) }
pub open spec fn is_wirt(f: spec_fn(Z) -> Z, z: Z, w: Z) -> bool {
  exists|ux: real, uy: real, vx: real, vy: real| #[trigger] partials(f, z, ux, uy, vx, vy) && w == wz(ux, uy, vx, vy)
}
pub open spec fn is_wirt_conj(f: spec_fn(Z) -> Z, z: Z, w: Z) -> bool {
  exists|ux: real, uy: real, vx: real, vy: real| #[trigger] partials(f, z, ux, uy, vx, vy) && w == wc(ux, uy, vx, vy)
}
pub open spec fn z_close(a: Z, b: Z, tol: real) -> bool { rabs(a.re - b.re) <= tol && rabs(a.im - b.im) <= tol }

// ---------------------------------------------------------------- the activations
pub open spec fn f_id() -> spec_fn(Z) -> Z { |z: Z| z }
pub open spec fn f_modz() -> spec_fn(Z) -> Z { |z: Z| zc(rdiv(z.re, znorm(z)), rdiv(z.im, znorm(z))) }
pub open spec fn sig(t: real) -> real { rdiv(r_exp(t), 1real + r_exp(t)) }
pub open spec fn relu(t: real) -> real { if t > 0real { t } else { 0real } }
pub open spec fn f_sig() -> spec_fn(Z) -> Z { |z: Z| zc(sig(z.re), sig(z.im)) }
pub open spec fn f_tanh() -> spec_fn(Z) -> Z { |z: Z| zc(r_tanh(z.re), r_tanh(z.im)) }
pub open spec fn f_relu() -> spec_fn(Z) -> Z { |z: Z| zc(relu(z.re), relu(z.im)) }
pub open spec fn f_zrelu() -> spec_fn(Z) -> Z { |z: Z| if z.re >= 0real && z.im >= 0real { z } else { zc(0real, 0real) } }
/// 2 (1 + cos phi) e^(i phi)
pub open spec fn f_card() -> spec_fn(Z) -> Z { |z: Z| zc(2real * (1real + r_cos(zphase(z))) * r_cos(zphase(z)), 2real * (1real + r_cos(zphase(z))) * r_sin(zphase(z))) }

/// where the sigmoid may be replaced by a constant
pub open spec fn large(t: real) -> bool { t >= 15real || t <= -15real }
pub open spec fn is_sig(t: real, s: real) -> bool {
  &&& !large(t) ==> s == sig(t)
  &&& large(t) ==> 0real <= s <= 1real && rabs(s - sig(t)) <= 0.000002real
}
pub open spec fn dsig(t: real) -> real { sig(t) * (1real - sig(t)) }
pub open spec fn is_dsig(t: real, s: real) -> bool {
  &&& !large(t) ==> s == dsig(t)
  &&& large(t) ==> rabs(s - dsig(t)) <= 0.000005real
}
/// one-sided at zero
pub open spec fn is_drelu(t: real, d: real) -> bool { (t > 0real ==> d == 1real) && (t < 0real ==> d == 0real) && (t == 0real ==> d == 0real || d == 1real) }

/// w is the value of the activation at z
pub open spec fn act_is(a: ComplexActFunc, z: Z, w: Z) -> bool {
  match a {
    ComplexActFunc::None => w == f_id()(z),
    ComplexActFunc::ModZ => w == f_modz()(z),
    ComplexActFunc::RITSigmoid => is_sig(z.re, w.re) && is_sig(z.im, w.im),
    ComplexActFunc::RITTanh => w == f_tanh()(z),
    ComplexActFunc::RITReLU => w == f_relu()(z),
    // on the axes that bound the quadrant the sign of zero decides
    ComplexActFunc::ZReLU => w == f_zrelu()(z) || (z.re >= 0real && z.im >= 0real && (z.re == 0real || z.im == 0real) && w == zc(0real, 0real)),
    ComplexActFunc::Cardioid => w == f_card()(z),
  }
}
/// arguments the activation is defined for
pub open spec fn act_dom(a: ComplexActFunc, z: Z) -> bool { a is ModZ || a is Cardioid ==> znz(z) }
/// w is the (conjugate) derivative of the activation at z
pub open spec fn dact_is(a: ComplexActFunc, z: Z, w: Z) -> bool {
  match a {
    ComplexActFunc::None => is_wirt(f_id(), z, w),
    ComplexActFunc::ModZ => is_wirt(f_modz(), z, w),
    ComplexActFunc::RITSigmoid => exists|e: Z| #[trigger] is_wirt(f_sig(), z, e) && z_close(w, e, if large(z.re) || large(z.im) { 0.000005real } else { 0real }),
    ComplexActFunc::RITTanh => is_wirt(f_tanh(), z, w),
    ComplexActFunc::RITReLU => {
      &&& z.re != 0real && z.im != 0real ==> is_wirt(f_relu(), z, w)
      &&& exists|p: real, q: real| #[trigger] relu_pair(z, p, q) && w == wz(p, 0real, 0real, q)
    }
    ComplexActFunc::ZReLU => (z.re > 0real && z.im > 0real) || z.re < 0real || z.im < 0real ==> is_wirt(f_zrelu(), z, w),
    ComplexActFunc::Cardioid => is_wirt(f_card(), z, w),
  }
}
pub open spec fn relu_pair(z: Z, p: real, q: real) -> bool { is_drelu(z.re, p) && is_drelu(z.im, q) }
pub open spec fn dcact_is(a: ComplexActFunc, z: Z, w: Z) -> bool {
  match a {
    ComplexActFunc::None => is_wirt_conj(f_id(), z, w),
    ComplexActFunc::ModZ => is_wirt_conj(f_modz(), z, w),
    ComplexActFunc::RITSigmoid => exists|e: Z| #[trigger] is_wirt_conj(f_sig(), z, e) && z_close(w, e, if large(z.re) || large(z.im) { 0.000005real } else { 0real }),
    ComplexActFunc::RITTanh => is_wirt_conj(f_tanh(), z, w),
    ComplexActFunc::RITReLU => {
      &&& z.re != 0real && z.im != 0real ==> is_wirt_conj(f_relu(), z, w)
      &&& exists|p: real, q: real| #[trigger] relu_pair(z, p, q) && w == wc(p, 0real, 0real, q)
    }
    ComplexActFunc::ZReLU => (z.re > 0real && z.im > 0real) || z.re < 0real || z.im < 0real ==> is_wirt_conj(f_zrelu(), z, w),
    ComplexActFunc::Cardioid => is_wirt_conj(f_card(), z, w),
  }
}

/// the four partial derivatives follow from those of the separate parts
pub proof fn lem_split(f: spec_fn(Z) -> Z, g: spec_fn(real) -> real, z: Z, p: real, q: real)
  requires forall|w: Z| #[trigger] f(w) == zc(g(w.re), g(w.im)), has_deriv(g, z.re, p), has_deriv(g, z.im, q)
  ensures partials(f, z, p, 0real, 0real, q)
{
  let a = |t: real| f(zc(t, z.im)).re;
  let b = |t: real| f(zc(z.re, t)).re;
  let c = |t: real| f(zc(t, z.im)).im;
  let d = |t: real| f(zc(z.re, t)).im;
  lem_ext(g, a, z.re, p);
  lem_d_const(b, z.im, g(z.re));
  lem_d_const(c, z.re, g(z.im));
  lem_ext(g, d, z.im, q);
}
pub proof fn lem_ext(f: spec_fn(real) -> real, g: spec_fn(real) -> real, x: real, d: real)
  requires has_deriv(f, x, d), forall|t: real| #[trigger] g(t) == f(t)
  ensures has_deriv(g, x, d)
{
  reveal(has_deriv);
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(g(x + h) - g(x) - d * h) <= e * rabs(h) by {
    let dl = choose|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(f(x + h) - f(x) - d * h) <= e * rabs(h);
    assert(pos(dl));
    assert forall|h: real| #[trigger] within(h, dl) implies rabs(g(x + h) - g(x) - d * h) <= e * rabs(h) by { assert(g(x + h) == f(x + h)); }
  }
}
pub proof fn lem_id(z: Z)
  ensures is_wirt(f_id(), z, zc(1real, 0real)), is_wirt_conj(f_id(), z, zc(0real, 0real))
{
  let g = |t: real| t;
  lem_d_id(g, z.re);
  lem_d_id(g, z.im);
  assert forall|w: Z| #[trigger] f_id()(w) == zc(g(w.re), g(w.im)) by {}
  lem_split(f_id(), g, z, 1real, 1real);
}
pub proof fn lem_sig_range(t: real)
  ensures 0real < sig(t) < 1real
{
  lem_exp_pos(t);
  let e = r_exp(t);
  assert(0real < e / (1real + e) < 1real) by(nonlinear_arith) requires e > 0real;
}
/// other ways to write the sigmoid
#[verifier::spinoff_prover]
pub proof fn lem_sig_forms(t: real)
  ensures rdiv(1real, 1real + r_exp(-t)) == sig(t), 1real - rdiv(1real, 1real + r_exp(t)) == sig(t), 1real + r_exp(-t) != 0real, 1real + r_exp(t) != 0real
{
  lem_exp_pos(t);
  lem_exp_pos(-t);
  let (e, f) = (r_exp(t), r_exp(-t));
  assert((1real / (1real + f)) * (1real + e) == e) by(nonlinear_arith) requires e > 0real, f > 0real, e * f == 1real;
  lem_qis(e, 1real + e, 1real / (1real + f));
  assert((1real - 1real / (1real + e)) * (1real + e) == e) by(nonlinear_arith) requires e > 0real;
  lem_qis(e, 1real + e, 1real - 1real / (1real + e));
}
/// and its derivative
pub proof fn lem_dsig_forms(a: real, b: real) ensures a * (1real - b) == a - a * b, a * (1real - b) == (1real - b) * a
{ assert(a * (1real - b) == a - a * b) by(nonlinear_arith); assert(a * (1real - b) == (1real - b) * a) by(nonlinear_arith); }
pub proof fn lem_exp15()
  ensures r_exp(15real) > 2000000real
{
  lem_exp_one();
  ax_exp_add(1real, 1real); ax_exp_add(2real, 2real); ax_exp_add(4real, 4real); ax_exp_add(8real, 4real); ax_exp_add(12real, 2real); ax_exp_add(14real, 1real);
  let e1 = r_exp(1real);
  let e2 = r_exp(2real);
  let e4 = r_exp(4real);
  let e8 = r_exp(8real);
  let e12 = r_exp(12real);
  let e14 = r_exp(14real);
  let e15 = r_exp(15real);
  assert(e2 > 7.2real) by(nonlinear_arith) requires e1 > 2.7real, e2 == e1 * e1;
  assert(e4 > 51real) by(nonlinear_arith) requires e2 > 7.2real, e4 == e2 * e2;
  assert(e8 > 2600real) by(nonlinear_arith) requires e4 > 51real, e8 == e4 * e4;
  assert(e12 > 132600real) by(nonlinear_arith) requires e8 > 2600real, e4 > 51real, e12 == e8 * e4;
  assert(e14 > 950000real) by(nonlinear_arith) requires e12 > 132600real, e2 > 7.2real, e14 == e12 * e2;
  assert(e15 > 2000000real) by(nonlinear_arith) requires e14 > 950000real, e1 > 2.7real, e15 == e14 * e1;
}
/// how far the sigmoid is from its limits
pub proof fn lem_sig_large(t: real)
  ensures 0real < sig(t) < 1real, t >= 15real ==> sig(t) > 0.9999995real, t <= -15real ==> sig(t) < 0.0000005real
{
  lem_sig_range(t);
  lem_exp15();
  lem_exp_pos(t);
  let e = r_exp(t);
  if t >= 15real {
    lem_exp_mono(15real, t);
    assert(e / (1real + e) > 0.9999995real) by(nonlinear_arith) requires e > 2000000real;
  }
  if t <= -15real {
    lem_exp_mono(t, -15real);
    ax_exp_add(15real, -15real);
    lem_exp_one();
    lem_exp_pos(-15real);
    let (a, b) = (r_exp(15real), r_exp(-15real));
    assert(b < 0.0000005real) by(nonlinear_arith) requires a > 2000000real, b > 0real, a * b == 1real;
    assert(e / (1real + e) < 0.0000005real) by(nonlinear_arith) requires 0real < e < 0.0000005real;
  }
}
pub proof fn lem_d_sig(t: real)
  ensures has_deriv(|u: real| sig(u), t, dsig(t))
{
  let ex = |u: real| r_exp(u);
  let one = |u: real| 1real;
  let den = |u: real| 1real + r_exp(u);
  let h = |u: real| sig(u);
  lem_d_exp(ex, t);
  lem_d_const(one, t, 1real);
  lem_d_sum(one, 0real, ex, r_exp(t), den, t);
  lem_exp_pos(t);
  lem_d_div(ex, r_exp(t), den, 0real + r_exp(t), h, t);
  let e = r_exp(t);
  assert((e * (1real + e) - e * (0real + e)) / ((1real + e) * (1real + e)) == (e / (1real + e)) * (1real - e / (1real + e))) by(nonlinear_arith) requires e > 0real;
}
/// a product of two values near the sigmoid and its complement
pub proof fn lem_dsig_close(t: real, a: real, b: real)
  requires is_sig(t, a), is_sig(t, b)
  ensures is_dsig(t, a * (1real - b))
{
  lem_sig_large(t);
  if large(t) {
    let s = sig(t);
    let e = 0.000002real;
    assert(rabs(a * (1real - b) - s * (1real - s)) <= 0.000005real) by(nonlinear_arith)
      requires -e <= a - s <= e, -e <= b - s <= e, 0real <= a <= 1real, 0real <= b <= 1real, 0real < s < 1real, e == 0.000002real,
        rabs(a * (1real - b) - s * (1real - s)) == a * (1real - b) - s * (1real - s) || rabs(a * (1real - b) - s * (1real - s)) == -(a * (1real - b) - s * (1real - s));
  }
}
pub proof fn lem_sig(z: Z)
  ensures
    is_wirt(f_sig(), z, wz(dsig(z.re), 0real, 0real, dsig(z.im))),
    is_wirt_conj(f_sig(), z, wc(dsig(z.re), 0real, 0real, dsig(z.im)))
{
  let g = |u: real| sig(u);
  lem_d_sig(z.re);
  lem_d_sig(z.im);
  assert forall|w: Z| #[trigger] f_sig()(w) == zc(g(w.re), g(w.im)) by {}
  lem_split(f_sig(), g, z, dsig(z.re), dsig(z.im));
}
pub open spec fn dtanh(t: real) -> real { rdiv(1real, r_cosh(t) * r_cosh(t)) }
pub proof fn lem_tanh(z: Z)
  ensures
    is_wirt(f_tanh(), z, wz(dtanh(z.re), 0real, 0real, dtanh(z.im))),
    is_wirt_conj(f_tanh(), z, wc(dtanh(z.re), 0real, 0real, dtanh(z.im)))
{
  let g = |u: real| r_tanh(u);
  lem_d_tanh(g, z.re);
  lem_d_tanh(g, z.im);
  lem_cosh(z.re);
  lem_cosh(z.im);
  assert forall|w: Z| #[trigger] f_tanh()(w) == zc(g(w.re), g(w.im)) by {}
  lem_split(f_tanh(), g, z, dtanh(z.re), dtanh(z.im));
}
pub proof fn lem_cosh(t: real)
  ensures r_cosh(t) * r_cosh(t) != 0real
{ lem_cosh_pos(t); let c = r_cosh(t); assert(c * c > 0real) by(nonlinear_arith) requires c >= 1real; }
/// 1 - tanh^2 = 1 / cosh^2
#[verifier::spinoff_prover]
pub proof fn lem_tanh_sq(t: real)
  ensures (1real - r_tanh(t) * r_tanh(t)) * (r_cosh(t) * r_cosh(t)) == 1real
{
  reveal(r_cosh);
  reveal(r_tanh);
  lem_exp_pos(t);
  lem_exp_pos(-t);
  let (e, f, c) = (r_exp(t), r_exp(-t), r_cosh(t));
  let (s, d) = (e + f, e - f);
  let q = d / s;
  let (qq, cc, ss, dd) = (q * q, c * c, s * s, d * d);
  assert(ss - dd == 4real) by(nonlinear_arith) requires e * f == 1real, s == e + f, d == e - f, ss == s * s, dd == d * d;
  lem_qmul(d, s);
  assert(qq * ss == dd) by(nonlinear_arith) requires q * s == d, qq == q * q, ss == s * s, dd == d * d;
  assert(4real * cc == ss) by(nonlinear_arith) requires 2real * c == s, cc == c * c, ss == s * s;
  assert((1real - qq) * cc == 1real) by(nonlinear_arith) requires qq * ss == dd, ss - dd == 4real, 4real * cc == ss;
}
#[verifier::spinoff_prover]
pub proof fn lem_half_q(c: real)
  requires c != 0real
  ensures 0.5real / c == 0.5real * (1real / c)
{ assert(0.5real / c == 0.5real * (1real / c)) by(nonlinear_arith) requires c != 0real; }
#[verifier::spinoff_prover]
pub proof fn lem_sq_q(c: real)
  requires c != 0real, c * c != 0real
  ensures (1real / c) * (1real / c) == 1real / (c * c)
{
  let v = 1real / c;
  let cc = c * c;
  lem_qmul(1real, c);
  assert((v * v) * cc == 1real) by(nonlinear_arith) requires v * c == 1real, cc == c * c;
  lem_qis(1real, cc, v * v);
}
/// other ways to write the derivative of tanh
#[verifier::spinoff_prover]
pub proof fn lem_dtanh_forms(t: real)
  ensures dtanh(t) == 1real - r_tanh(t) * r_tanh(t), rdiv(0.5real, r_cosh(t) * r_cosh(t)) == 0.5real * dtanh(t), rdiv(1real, r_cosh(t)) * rdiv(1real, r_cosh(t)) == dtanh(t)
{
  lem_cosh_pos(t);
  lem_cosh(t);
  lem_tanh_sq(t);
  lem_qis(1real, r_cosh(t) * r_cosh(t), 1real - r_tanh(t) * r_tanh(t));
  lem_half_q(r_cosh(t) * r_cosh(t));
  lem_sq_q(r_cosh(t));
}
pub proof fn lem_drelu(t: real)
  requires t != 0real
  ensures has_deriv(|u: real| relu(u), t, if t > 0real { 1real } else { 0real })
{ lem_d_local(|u: real| relu(u), t, if t > 0real { 1real } else { 0real }, rabs(t)); }
pub proof fn lem_relu(z: Z, p: real, q: real)
  requires relu_pair(z, p, q)
  ensures
    z.re != 0real && z.im != 0real ==> is_wirt(f_relu(), z, wz(p, 0real, 0real, q)) && is_wirt_conj(f_relu(), z, wc(p, 0real, 0real, q))
{
  if z.re != 0real && z.im != 0real {
    let g = |u: real| relu(u);
    lem_drelu(z.re);
    lem_drelu(z.im);
    assert forall|w: Z| #[trigger] f_relu()(w) == zc(g(w.re), g(w.im)) by {}
    lem_split(f_relu(), g, z, p, q);
  }
}
pub proof fn lem_relu_all(z: Z)
  ensures
    forall|p: real, q: real| #[trigger] relu_pair(z, p, q) && z.re != 0real && z.im != 0real ==> is_wirt(f_relu(), z, wz(p, 0real, 0real, q)) && is_wirt_conj(f_relu(), z, wc(p, 0real, 0real, q)),
    forall|p: real, q: real| #![trigger is_drelu(z.re, p), is_drelu(z.im, q)] is_drelu(z.re, p) && is_drelu(z.im, q) ==> relu_pair(z, p, q),
{
  assert forall|p: real, q: real| #[trigger] relu_pair(z, p, q) && z.re != 0real && z.im != 0real implies is_wirt(f_relu(), z, wz(p, 0real, 0real, q)) && is_wirt_conj(f_relu(), z, wc(p, 0real, 0real, q)) by { lem_relu(z, p, q); }
}
pub proof fn lem_zrelu(z: Z)
  ensures
    z.re > 0real && z.im > 0real ==> is_wirt(f_zrelu(), z, zc(1real, 0real)) && is_wirt_conj(f_zrelu(), z, zc(0real, 0real)),
    z.re < 0real || z.im < 0real ==> is_wirt(f_zrelu(), z, zc(0real, 0real)) && is_wirt_conj(f_zrelu(), z, zc(0real, 0real))
{
  let f = f_zrelu();
  let a = |t: real| f(zc(t, z.im)).re;
  let b = |t: real| f(zc(z.re, t)).re;
  let c = |t: real| f(zc(t, z.im)).im;
  let d = |t: real| f(zc(z.re, t)).im;
  if z.re > 0real && z.im > 0real {
    lem_d_local(a, z.re, 1real, z.re);
    lem_d_local(b, z.im, 0real, z.im);
    lem_d_local(c, z.re, 0real, z.re);
    lem_d_local(d, z.im, 1real, z.im);
    assert(partials(f, z, 1real, 0real, 0real, 1real));
  } else if z.re < 0real || z.im < 0real {
    let rx = if z.re < 0real { -z.re } else { 1real };
    let ry = if z.im < 0real { -z.im } else { 1real };
    lem_d_local(a, z.re, 0real, rx);
    lem_d_local(b, z.im, 0real, ry);
    lem_d_local(c, z.re, 0real, rx);
    lem_d_local(d, z.im, 0real, ry);
    assert(partials(f, z, 0real, 0real, 0real, 0real));
  }
}

// z / |z| and what is built from it
/// the unit vector of z along its coordinates: derivatives in one direction. `s` is the
/// coordinate that moves, `o` the other one.
pub proof fn lem_d_unit(s: real, o: real, hs: spec_fn(real) -> real, ho: spec_fn(real) -> real)
  requires
    s * s + o * o > 0real,
    forall|t: real| #[trigger] hs(t) == rdiv(t, r_sqrt(t * t + o * o)),
    forall|t: real| #[trigger] ho(t) == rdiv(o, r_sqrt(t * t + o * o)),
  ensures
    r_sqrt(s * s + o * o) > 0real,
    has_deriv(hs, s, (o / r_sqrt(s * s + o * o)) * (o / r_sqrt(s * s + o * o)) / r_sqrt(s * s + o * o)),
    has_deriv(ho, s, -((o / r_sqrt(s * s + o * o)) * (s / r_sqrt(s * s + o * o)) / r_sqrt(s * s + o * o))),
{
  let id = |t: real| t;
  let oo = |t: real| o * o;
  let ot = |t: real| o;
  let tt = |t: real| t * t;
  let q = |t: real| t * t + o * o;
  let n = |t: real| r_sqrt(t * t + o * o);
  lem_d_id(id, s);
  lem_d_const(oo, s, o * o);
  lem_d_const(ot, s, o);
  lem_d_mul(id, 1real, id, 1real, tt, s);
  lem_d_sum(tt, 1real * s + s * 1real, oo, 0real, q, s);
  lem_d_sqrt(q, 1real * s + s * 1real + 0real, n, s);
  ax_sqrt(s * s + o * o);
  let m = r_sqrt(s * s + o * o);
  assert(m != 0real) by(nonlinear_arith) requires m * m == s * s + o * o, s * s + o * o > 0real;
  let dn = (1real * s + s * 1real + 0real) / (2real * m);
  assert(dn == s / m) by(nonlinear_arith) requires dn == (1real * s + s * 1real + 0real) / (2real * m), m > 0real;
  lem_d_div(id, 1real, n, dn, hs, s);
  lem_d_div(ot, 0real, n, dn, ho, s);
  assert((1real * m - s * dn) / (m * m) == (o / m) * (o / m) / m) by(nonlinear_arith) requires dn == s / m, m > 0real, m * m == s * s + o * o;
  assert((0real * m - o * dn) / (m * m) == -((o / m) * (s / m) / m)) by(nonlinear_arith) requires dn == s / m, m > 0real;
}
pub proof fn lem_modz_parts(z: Z)
  requires znz(z)
  ensures ({
    let n = znorm(z);
    let (c, s) = (z.re / n, z.im / n);
    &&& n > 0real
    &&& c * c + s * s == 1real
    &&& partials(f_modz(), z, s * s / n, -(c * s / n), -(s * c / n), c * c / n)
  })
{
  lem_norm(z);
  lem_nsq(z);
  let f = f_modz();
  let a = |t: real| f(zc(t, z.im)).re;
  let b = |t: real| f(zc(z.re, t)).re;
  let c = |t: real| f(zc(t, z.im)).im;
  let d = |t: real| f(zc(z.re, t)).im;
  lem_d_unit(z.re, z.im, a, c);
  lem_d_unit(z.im, z.re, d, b);
  let n = znorm(z);
  let (p, q) = (z.re / n, z.im / n);
  assert(p * p + q * q == 1real) by(nonlinear_arith) requires p == z.re / n, q == z.im / n, n > 0real, n * n == z.re * z.re + z.im * z.im;
  assert(z.im * z.im + z.re * z.re == znsq(z));
}
pub proof fn lem_modz(z: Z)
  requires znz(z)
  ensures
    znz(zconj(z)), znz(zc(znorm(z), 0real)), znz(zc(-(2real * znorm(z)), 0real)),
    f_modz()(z) == zdiv(z, zc(znorm(z), 0real)),
    is_wirt(f_modz(), z, zc(rdiv(1real, 2real * znorm(z)), 0real)),
    is_wirt_conj(f_modz(), z, zdiv(zdiv(z, zconj(z)), zc(-(2real * znorm(z)), 0real))),
{
  lem_modz_parts(z);
  lem_norm(z);
  lem_nsq(z);
  let n = znorm(z);
  let (x, y) = (z.re, z.im);
  let (c, s) = (x / n, y / n);
  let d = n * n + 0real * 0real;
  assert(d != 0real) by(nonlinear_arith) requires n > 0real, d == n * n + 0real * 0real;
  assert((x * n + y * 0real) / d == x / n) by(nonlinear_arith) requires n > 0real, d == n * n + 0real * 0real, d != 0real;
  assert((y * n - x * 0real) / d == y / n) by(nonlinear_arith) requires n > 0real, d == n * n + 0real * 0real, d != 0real;
  assert((s * s / n + c * c / n) * 0.5real == 1real / (2real * n)) by(nonlinear_arith) requires c * c + s * s == 1real, n > 0real;
  assert((-(s * c / n) - (-(c * s / n))) * 0.5real == 0real) by(nonlinear_arith) requires n > 0real;
  // z / conj(z) = z^2 / |z|^2
  let zz = zconj(z);
  lem_nsq(zz);
  assert(znsq(zz) == n * n) by(nonlinear_arith) requires n * n == x * x + y * y, zz.re == x, zz.im == -y, znsq(zz) == zz.re * zz.re + zz.im * zz.im;
  let q = zdiv(z, zz);
  assert(q.re == c * c - s * s) by(nonlinear_arith) requires q.re == (x * x + y * (-y)) / (n * n), c == x / n, s == y / n, n > 0real;
  assert(q.im == 2real * (s * c)) by(nonlinear_arith) requires q.im == (y * x - x * (-y)) / (n * n), c == x / n, s == y / n, n > 0real;
  let m = -(2real * n);
  let k = zc(m, 0real);
  lem_nsq(k);
  let w = zdiv(q, k);
  assert(znsq(k) == 4real * (n * n)) by(nonlinear_arith) requires znsq(k) == m * m + 0real * 0real, m == -(2real * n);
  assert(w.re == (s * s / n - c * c / n) * 0.5real) by(nonlinear_arith)
    requires w.re == (q.re * m + q.im * 0real) / (4real * (n * n)), m == -(2real * n), q.re == c * c - s * s, n > 0real;
  assert(w.im == (-(s * c / n) + (-(c * s / n))) * 0.5real) by(nonlinear_arith)
    requires w.im == (q.im * m - q.re * 0real) / (4real * (n * n)), m == -(2real * n), q.im == 2real * (s * c), n > 0real;
  assert(w == wc(s * s / n, -(c * s / n), -(s * c / n), c * c / n));
  assert(zc(rdiv(1real, 2real * n), 0real) == wz(s * s / n, -(c * s / n), -(s * c / n), c * c / n));
}
/// agreement near the point is enough
pub proof fn lem_ext_near(f: spec_fn(real) -> real, g: spec_fn(real) -> real, x: real, d: real, rad: real)
  requires has_deriv(f, x, d), rad > 0real, forall|h: real| #[trigger] within(h, rad) ==> g(x + h) == f(x + h)
  ensures has_deriv(g, x, d)
{
  reveal(has_deriv);
  assert(within(0real, rad));
  assert(x + 0real == x);
  assert(g(x) == f(x));
  assert forall|e: real| #[trigger] pos(e) implies exists|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(g(x + h) - g(x) - d * h) <= e * rabs(h) by {
    let dl = choose|dl: real| #[trigger] pos(dl) && forall|h: real| #[trigger] within(h, dl) ==> rabs(f(x + h) - f(x) - d * h) <= e * rabs(h);
    let m = if dl < rad { dl } else { rad };
    assert(pos(m));
    assert forall|h: real| #[trigger] within(h, m) implies rabs(g(x + h) - g(x) - d * h) <= e * rabs(h) by { assert(within(h, rad)); assert(within(h, dl)); }
  }
}
/// cosine and sine of the phase are the coordinates of z / |z|
pub proof fn lem_phase(z: Z)
  requires znz(z)
  ensures
    znorm(z) > 0real,
    r_cos(zphase(z)) == z.re / znorm(z), r_sin(zphase(z)) == z.im / znorm(z),
    r_cos(zphase(z)) == f_modz()(z).re, r_sin(zphase(z)) == f_modz()(z).im,
{
  lem_norm(z);
  ax_atan2(z.im, z.re);
  let (n, c, s) = (znorm(z), r_cos(zphase(z)), r_sin(zphase(z)));
  assert(z.re / n == c) by(nonlinear_arith) requires n > 0real, n * c == z.re;
  assert(z.im / n == s) by(nonlinear_arith) requires n > 0real, n * s == z.im;
}
/// 2 (1 + c) c and 2 (1 + c) s along one direction
pub proof fn lem_d_card(kc: spec_fn(real) -> real, a: real, ks: spec_fn(real) -> real, b: real, fre: spec_fn(real) -> real, fim: spec_fn(real) -> real, x: real)
  requires
    has_deriv(kc, x, a), has_deriv(ks, x, b),
    forall|t: real| #[trigger] fre(t) == 2real * (1real + kc(t)) * kc(t),
    forall|t: real| #[trigger] fim(t) == 2real * (1real + kc(t)) * ks(t),
  ensures
    has_deriv(fre, x, 2real * a * (1real + 2real * kc(x))),
    has_deriv(fim, x, 2real * (a * ks(x) + (1real + kc(x)) * b)),
{
  let one = |t: real| 1real;
  let two = |t: real| 2real;
  let k1 = |t: real| 1real + kc(t);
  let k2 = |t: real| 2real * (1real + kc(t));
  lem_d_const(one, x, 1real);
  lem_d_const(two, x, 2real);
  lem_d_sum(one, 0real, kc, a, k1, x);
  lem_d_mul(two, 0real, k1, 0real + a, k2, x);
  let e = 0real * k1(x) + 2real * (0real + a);
  lem_d_mul(k2, e, kc, a, fre, x);
  lem_d_mul(k2, e, ks, b, fim, x);
  let (c, s) = (kc(x), ks(x));
  assert(e == 2real * a) by(nonlinear_arith) requires e == 0real * (1real + c) + 2real * (0real + a);
  assert(e * c + (2real * (1real + c)) * a == 2real * a * (1real + 2real * c)) by(nonlinear_arith) requires e == 2real * a;
  assert(e * s + (2real * (1real + c)) * b == 2real * (a * s + (1real + c) * b)) by(nonlinear_arith) requires e == 2real * a;
}
/// a neighbourhood of a coordinate that stays away from zero when the other one is zero
pub open spec fn safe_rad(s: real) -> real { if s == 0real { 1real } else { rabs(s) } }
pub proof fn lem_card(z: Z)
  requires znz(z)
  ensures ({
    let n = znorm(z);
    let p = zphase(z);
    let (c, s) = (r_cos(p), r_sin(p));
    let re = s + r_sin(2real * p);
    let im = 2real * (c * c) + c - 1real;
    let (xf, yf) = (rdiv(s, n), rdiv(c, n));
    &&& n > 0real
    &&& partials(f_card(), z, 2real * xf * re, -2real * yf * re, -2real * xf * im, 2real * yf * im)
  })
{
  lem_modz_parts(z);
  lem_phase(z);
  let n = znorm(z);
  let p = zphase(z);
  let (c, s) = (r_cos(p), r_sin(p));
  ax_trig_double(p);
  let m = f_modz();
  let f = f_card();
  // along x
  let (mx, my) = (|t: real| m(zc(t, z.im)).re, |t: real| m(zc(t, z.im)).im);
  let kx = |t: real| r_cos(zphase(zc(t, z.im)));
  let ky = |t: real| r_sin(zphase(zc(t, z.im)));
  assert forall|h: real| #[trigger] within(h, safe_rad(z.re)) implies kx(z.re + h) == mx(z.re + h) && ky(z.re + h) == my(z.re + h) by { lem_phase(zc(z.re + h, z.im)); }
  lem_ext_near(mx, kx, z.re, s * s / n, safe_rad(z.re));
  lem_ext_near(my, ky, z.re, -(s * c / n), safe_rad(z.re));
  lem_d_card(kx, s * s / n, ky, -(s * c / n), |t: real| f(zc(t, z.im)).re, |t: real| f(zc(t, z.im)).im, z.re);
  // along y
  let (nx, ny) = (|t: real| m(zc(z.re, t)).re, |t: real| m(zc(z.re, t)).im);
  let lx = |t: real| r_cos(zphase(zc(z.re, t)));
  let ly = |t: real| r_sin(zphase(zc(z.re, t)));
  assert forall|h: real| #[trigger] within(h, safe_rad(z.im)) implies lx(z.im + h) == nx(z.im + h) && ly(z.im + h) == ny(z.im + h) by { lem_phase(zc(z.re, z.im + h)); }
  lem_ext_near(nx, lx, z.im, -(c * s / n), safe_rad(z.im));
  lem_ext_near(ny, ly, z.im, c * c / n, safe_rad(z.im));
  lem_d_card(lx, -(c * s / n), ly, c * c / n, |t: real| f(zc(z.re, t)).re, |t: real| f(zc(z.re, t)).im, z.im);
  let re = s + r_sin(2real * p);
  let im = 2real * (c * c) + c - 1real;
  let (xf, yf) = (s / n, c / n);
  assert(2real * (s * s / n) * (1real + 2real * c) == 2real * xf * re) by(nonlinear_arith) requires xf == s / n, n > 0real, re == s + 2real * s * c;
  assert(2real * (-(c * s / n)) * (1real + 2real * c) == -2real * yf * re) by(nonlinear_arith) requires yf == c / n, n > 0real, re == s + 2real * s * c;
  assert(2real * ((s * s / n) * s + (1real + c) * (-(s * c / n))) == -2real * xf * im) by(nonlinear_arith) requires xf == s / n, n > 0real, im == 2real * (c * c) + c - 1real, c * c + s * s == 1real;
  assert(2real * ((-(c * s / n)) * s + (1real + c) * (c * c / n)) == 2real * yf * im) by(nonlinear_arith) requires yf == c / n, n > 0real, im == 2real * (c * c) + c - 1real, c * c + s * s == 1real;
}
