@raw
// ---------------------------------------------------------------- synthetic signals (C18)
#[verifier::inline]
pub open spec fn ww(v: Vec<(F32, F32, F32)>) -> Seq<(F32, F32, F32)> { v@ }
#[verifier::inline]
pub open spec fn zw(v: Vec<Cf32>) -> Seq<Cf32> { v@ }
#[verifier::inline]
pub open spec fn fw(v: Vec<F32>) -> Seq<F32> { v@ }
/// amplitude and frequency between 0.1 and 1, phase between 0 and 2 pi
#[verifier::opaque]
pub open spec fn is_wave(w: (F32, F32, F32)) -> bool { 0.1real <= w.0.v() <= 1real && 0.1real <= w.1.v() <= 1real && 0real <= w.2.v() <= 2real * r_pi() }
pub proof fn lem_wave(a: real, w: real, p: real)
  requires 0real <= a <= 1real, 0real <= w <= 1real, 0real <= p <= 1real
  ensures is_wave((mk_f32(a * 0.9real + 0.1real), mk_f32(w * 0.9real + 0.1real), mk_f32(2real * r_pi() * p)))
{
  reveal(is_wave);
  ax_pi();
  let q = 2real * r_pi();
  assert(0real <= q * p <= q) by(nonlinear_arith) requires 0real <= p <= 1real, q >= 0real;
}
/// the j-th of the equally spaced moments from 0 to 4 pi
pub open spec fn moment(n: usize, j: int) -> real { rdiv(4real * r_pi(), n as real) * (j as real) }
/// the sum of the first k rotating waves at moment t
pub open spec fn waves_at(ws: Seq<(F32, F32, F32)>, t: real, k: int) -> Z
  decreases k
{
  if k <= 0 { zc(0real, 0real) } else { zadd(waves_at(ws, t, k - 1), zpolar(ws[k - 1].0.v(), ws[k - 1].1.v() * t + ws[k - 1].2.v())) }
}
/// m is the largest modulus among the first n values (0 if there are none)
#[verifier::opaque]
pub open spec fn is_peak(s: Seq<Cf32>, n: int, m: real) -> bool {
  &&& 0 <= n <= s.len() && m >= 0real
  &&& forall |j: int| 0 <= j < n ==> znorm((#[trigger] s[j]).z()) <= m
  &&& m == 0real || exists |j: int| 0 <= j < n && znorm((#[trigger] s[j]).z()) == m
}
pub proof fn lem_peak(s: Seq<Cf32>, n: int, a: real, b: real)
  requires is_peak(s, n, a), 0 <= n < s.len(), b == if znorm(s[n].z()) > a { znorm(s[n].z()) } else { a }
  ensures is_peak(s, n + 1, b)
{
  reveal(is_peak);
  if znorm(s[n].z()) > a { assert(znorm(s[n].z()) == b); }
}
/// the values over their largest modulus m, or the values themselves when all are zero
pub open spec fn scaled(x: Z, m: real) -> Z { if m == 0real { x } else { zc(x.re / m, x.im / m) } }
/// the values are those of the waves, scaled, and the largest modulus is 1 or all are zero
#[verifier::opaque]
pub open spec fn is_clean_by(s: Seq<Cf32>, n: usize, ws: Seq<(F32, F32, F32)>, m: real) -> bool {
  &&& s.len() == n && 1 <= ws.len() <= 8
  &&& forall |i: int| 0 <= i < ws.len() ==> is_wave(#[trigger] ws[i])
  &&& forall |j: int| 0 <= j < n ==> (#[trigger] s[j]).z() == scaled(waves_at(ws, moment(n, j), ws.len() as int), m)
  &&& forall |j: int| 0 <= j < n ==> znsq((#[trigger] s[j]).z()) <= 1real
  &&& m != 0real ==> exists |j: int| 0 <= j < n && znsq((#[trigger] s[j]).z()) == 1real
  &&& m == 0real ==> forall |j: int| 0 <= j < n ==> (#[trigger] s[j]).z() == zc(0real, 0real)
}
#[verifier::opaque]
pub open spec fn is_clean(s: Seq<Cf32>, n: usize) -> bool { exists |ws: Seq<(F32, F32, F32)>, m: real| #[trigger] is_clean_by(s, n, ws, m) }
pub proof fn lem_over_real(x: Z, m: real)
  requires m > 0real, znorm(x) <= m
  ensures
    zdiv(x, zc(m, 0real)) == zc(x.re / m, x.im / m), znsq(zc(x.re / m, x.im / m)) <= 1real,
    znorm(x) == m ==> znsq(zc(x.re / m, x.im / m)) == 1real,
    znz(zc(m, 0real)),
{
  lem_norm(x);
  lem_nsq(x);
  let (a, b, q) = (x.re, x.im, m * m);
  assert(q > 0real) by(nonlinear_arith) requires m > 0real, q == m * m;
  assert(znsq(zc(m, 0real)) == q);
  let (u, v) = (a / m, b / m);
  assert(u * m == a && v * m == b) by(nonlinear_arith) requires m > 0real, u == a / m, v == b / m;
  assert((a * m) / q == u) by(nonlinear_arith) requires u * m == a, q == m * m, q > 0real;
  assert((b * m) / q == v) by(nonlinear_arith) requires v * m == b, q == m * m, q > 0real;
  assert(a * m + b * 0real == a * m && b * m - a * 0real == b * m) by(nonlinear_arith);
  let k = u * u + v * v;
  assert(k * q == a * a + b * b) by(nonlinear_arith) requires u * m == a, v * m == b, q == m * m, k == u * u + v * v;
  let n = znorm(x);
  assert(n * n <= q) by(nonlinear_arith) requires 0real <= n <= m, q == m * m;
  assert(k <= 1real) by(nonlinear_arith) requires k * q <= q, q > 0real;
  if n == m { assert(k == 1real) by(nonlinear_arith) requires k * q == q, q > 0real; }
}
pub proof fn lem_null(x: Z)
  requires znorm(x) <= 0real
  ensures x == zc(0real, 0real)
{
  lem_norm(x);
  lem_nsq(x);
  let (a, b) = (x.re, x.im);
  let n = znorm(x);
  assert(n * n == 0real) by(nonlinear_arith) requires n == 0real;
  assert(a == 0real && b == 0real) by(nonlinear_arith) requires a * a + b * b == 0real;
}
pub proof fn lem_clean(ws: Seq<(F32, F32, F32)>, o: Seq<Cf32>, s: Seq<Cf32>, m: real, n: usize)
  requires
    1 <= ws.len() <= 8, o.len() == n, s.len() == n,
    forall |i: int| 0 <= i < ws.len() ==> is_wave(#[trigger] ws[i]),
    forall |j: int| 0 <= j < n ==> (#[trigger] o[j]).z() == waves_at(ws, moment(n, j), ws.len() as int),
    is_peak(o, n as int, m),
    forall |j: int| 0 <= j < n ==> (#[trigger] s[j]).z() == if m == 0real { o[j].z() } else { zdiv(o[j].z(), zc(m, 0real)) },
  ensures is_clean(s, n)
{
  reveal(is_peak);
  assert forall |j: int| 0 <= j < n implies (#[trigger] s[j]).z() == scaled(o[j].z(), m) && znsq(s[j].z()) <= 1real && (m == 0real ==> s[j].z() == zc(0real, 0real)) && (m != 0real && znorm(o[j].z()) == m ==> znsq(s[j].z()) == 1real) by {
    if m == 0real { lem_null(o[j].z()); assert(0real * 0real + 0real * 0real == 0real); } else { lem_over_real(o[j].z(), m); }
  }
  if m != 0real {
    let j = choose |j: int| 0 <= j < n && znorm((#[trigger] o[j]).z()) == m;
    assert(znsq(s[j].z()) == 1real);
  }
  assert(is_clean_by(s, n, ws, m)) by { reveal(is_clean_by); }
  reveal(is_clean);
}
/// the Box-Muller pair
pub open spec fn bm_cos(u: real, v: real) -> real { r_sqrt(-2real * r_ln(u)) * r_cos(2real * r_pi() * v) }
pub open spec fn bm_sin(u: real, v: real) -> real { r_sqrt(-2real * r_ln(u)) * r_sin(2real * r_pi() * v) }
/// the noise level at a value: the threshold and a twentieth of it for each unit of modulus
pub open spec fn level(thr: real, x: Z) -> real { thr + rdiv(thr, 20real) * znorm(x) }
/// c is x moved by a normal amount of that level in some direction
#[verifier::opaque]
pub open spec fn moved_by(c: Z, x: Z, thr: real, u: real, v: real, p: real) -> bool {
  0real < u <= 1real && 0real <= v <= 1real && 0real <= p <= 1real
    && (c == zadd(x, zpolar(bm_cos(u, v) * level(thr, x), 2real * r_pi() * p)) || c == zadd(x, zpolar(bm_sin(u, v) * level(thr, x), 2real * r_pi() * p)))
}
#[verifier::opaque]
pub open spec fn noisy_at(c: Cf32, x: Cf32, thr: real) -> bool {
  &&& exists |u: real, v: real, p: real| #[trigger] moved_by(c.z(), x.z(), thr, u, v, p)
  &&& thr == 0real ==> c.z() == x.z()
}
pub proof fn lem_noisy(c: Cf32, x: Cf32, thr: real, u: real, v: real, p: real)
  requires
    0real < u <= 1real, 0real <= v <= 1real, 0real <= p <= 1real,
    c.z() == zadd(x.z(), zpolar(bm_cos(u, v) * level(thr, x.z()), 2real * r_pi() * p)) || c.z() == zadd(x.z(), zpolar(bm_sin(u, v) * level(thr, x.z()), 2real * r_pi() * p)),
  ensures noisy_at(c, x, thr)
{
  assert(moved_by(c.z(), x.z(), thr, u, v, p)) by { reveal(moved_by); }
  if thr == 0real {
    let n = znorm(x.z());
    assert(0real / 20real * n == 0real) by(nonlinear_arith);
    assert(level(thr, x.z()) == 0real);
    let (g, h, q) = (bm_cos(u, v), bm_sin(u, v), 2real * r_pi() * p);
    let (co, si) = (r_cos(q), r_sin(q));
    assert(g * 0real == 0real && h * 0real == 0real && 0real * co == 0real && 0real * si == 0real) by(nonlinear_arith);
  }
  reveal(noisy_at);
}
pub open spec fn r_max(a: real, b: real) -> real { if a < b { b } else { a } }
/// the state of the generator gives a positive first number and its logarithm is not positive
pub proof fn lem_first(s: int)
  requires s >= 0
  ensures
    0real < r_max(unif(lcg(s)), r_tiny32()) <= 1real, -2real * r_ln(r_max(unif(lcg(s)), r_tiny32())) >= 0real,
    0real <= unif(lcg2(s)) <= 1real, lcg(s) >= 0, lcg2(s) >= 0,
{
  lem_unif(s);
  lem_unif(lcg(s));
  lem_tiny();
  lem_ln_neg(r_max(unif(lcg(s)), r_tiny32()));
}
/// a point of the batch: the corrupted signal as input, the clean one as target
pub open spec fn good_point(x: IOType<Cf32>, y: IOType<Cf32>, n: usize, thr: real) -> bool {
  &&& x is Scalar && y is Scalar && x->Scalar_0@.len() == n && is_clean(y->Scalar_0@, n)
  &&& forall |j: int| 0 <= j < n ==> noisy_at(#[trigger] x->Scalar_0@[j], y->Scalar_0@[j], thr)
}
#[verifier::opaque]
pub open spec fn good_batch(d: Dataset<Cf32, Cf32>, k: int, n: usize, thr: real) -> bool {
  d.inputs@.len() == k && d.target@.len() == k && forall |i: int| 0 <= i < k ==> good_point(#[trigger] d.inputs@[i], d.target@[i], n, thr)
}
pub proof fn lem_batch(d: Dataset<Cf32, Cf32>, e: Dataset<Cf32, Cf32>, k: int, n: usize, thr: real, x: IOType<Cf32>, y: IOType<Cf32>)
  requires good_batch(d, k, n, thr), good_point(x, y, n, thr), e.inputs@ == d.inputs@.push(x), e.target@ == d.target@.push(y)
  ensures good_batch(e, k + 1, n, thr)
{ reveal(good_batch); }

@file dataset/mod.rs mode=f32
@fn Dataset::signal_reconstruction
@attr #[verifier::loop_isolation(false)]
@requires
  samples % 2 == 0,
@ensures
  good_batch(r.0, batch_size as int, samples, noise_threshold.v()), good_batch(r.1, batch_size as int, samples, noise_threshold.v()),
@loop 0
  n_0 == samples, fw(out_0).len() == i_0,
  forall |j: int| 0 <= j < i_0 ==> (#[trigger] fw(out_0)[j]).v() == moment(samples, j),
@pre 1
  proof { reveal(good_batch); }
@loop 1
  good_batch(train_batch, i_1 as int, samples, noise_threshold.v()), good_batch(test_batch, i_1 as int, samples, noise_threshold.v()),
@start 1
  let ghost was = (train_batch, test_batch);
@end 1
  proof {
    let k = i_1 as int;
    lem_batch(was.0, train_batch, k, samples, noise_threshold.v(), train_batch.inputs@[k], train_batch.target@[k]);
    lem_batch(was.1, test_batch, k, samples, noise_threshold.v(), test_batch.inputs@[k], test_batch.target@[k]);
  }
@loop 2
  ww(out_2).len() == i_2,
  forall |i: int| 0 <= i < i_2 ==> is_wave(#[trigger] ww(out_2)[i]),
@start 2
  let ghost s0_2 = *train_seed as int;
  proof { lem_unif(s0_2); lem_unif(lcg(s0_2)); lem_unif(lcg2(s0_2)); lem_wave(unif(lcg(s0_2)), unif(lcg2(s0_2)), unif(lcg3(s0_2))); }
@end 2
  assert(is_wave(ww(out_2)[i_2 as int]));
@loop 4
  zw(out_4).len() == i_4, n_4 == samples,
  forall |j: int| 0 <= j < i_4 ==> (#[trigger] zw(out_4)[j]).z() == waves_at(train_waves@, moment(samples, j), train_waves@.len() as int),
@loop 5
  n_5 == train_waves@.len(), time.v() == moment(samples, i_4 as int),
  acc_5.z() == waves_at(train_waves@, time.v(), i_5 as int),
@loop 6
  n_6 == samples, clean_signal@.len() == samples, s_6_0.s@ == clean_signal@, s_6_0.p == 0,
  is_peak(clean_signal@, i_6 as int, acc_6.v()),
@pre 6
  proof { reveal(is_peak); }
@end 6
  proof { lem_peak(clean_signal@, i_6 as int, acc_6_was, acc_6.v()); }
@start 6
  let ghost acc_6_was = acc_6.v();
@pre 7
  let ghost orig_7 = s_7_0@;
@loop 7
  s_7_0@.len() == samples, n_7 == samples,
  forall |j: int| 0 <= j < samples ==> (#[trigger] s_7_0@[j]).z() == if j < i_7 { zdiv(orig_7[j].z(), zc(train_max.v(), 0real)) } else { orig_7[j].z() },
@post 7
  proof { lem_clean(train_waves@, orig_7, clean_signal@, train_max.v(), samples); }
@pre 8
  proof { if train_max.v() == 0real { lem_clean(train_waves@, clean_signal@, clean_signal@, 0real, samples); } }
@loop 3
  ww(out_3).len() == i_3,
  forall |i: int| 0 <= i < i_3 ==> is_wave(#[trigger] ww(out_3)[i]),
@start 3
  let ghost s0_3 = *test_seed as int;
  proof { lem_unif(s0_3); lem_unif(lcg(s0_3)); lem_unif(lcg2(s0_3)); lem_wave(unif(lcg(s0_3)), unif(lcg2(s0_3)), unif(lcg3(s0_3))); }
@end 3
  assert(is_wave(ww(out_3)[i_3 as int]));
@loop 8
  zw(out_8).len() == i_8, n_8 == samples,
  forall |j: int| 0 <= j < i_8 ==> (#[trigger] zw(out_8)[j]).z() == waves_at(test_waves@, moment(samples, j), test_waves@.len() as int),
@loop 9
  n_9 == test_waves@.len(), time.v() == moment(samples, i_8 as int),
  acc_9.z() == waves_at(test_waves@, time.v(), i_9 as int),
@loop 10
  n_10 == samples, clean_signal_t@.len() == samples, s_10_0.s@ == clean_signal_t@, s_10_0.p == 0,
  is_peak(clean_signal_t@, i_10 as int, acc_10.v()),
@pre 10
  proof { reveal(is_peak); }
@end 10
  proof { lem_peak(clean_signal_t@, i_10 as int, acc_10_was, acc_10.v()); }
@start 10
  let ghost acc_10_was = acc_10.v();
@pre 11
  let ghost orig_11 = s_11_0@;
@loop 11
  s_11_0@.len() == samples, n_11 == samples,
  forall |j: int| 0 <= j < samples ==> (#[trigger] s_11_0@[j]).z() == if j < i_11 { zdiv(orig_11[j].z(), zc(test_max.v(), 0real)) } else { orig_11[j].z() },
@post 11
  proof { lem_clean(test_waves@, orig_11, clean_signal_t@, test_max.v(), samples); }
@pre 12
  proof { if test_max.v() == 0real { lem_clean(test_waves@, clean_signal_t@, clean_signal_t@, 0real, samples); }
    lem_chunks(samples as int / 2, 2); assert(is_clean(clean_signal@, samples)); }
@loop 12
  n_12 == samples / 2, zw(out_12).len() == 2 * i_12,
  forall |j: int| 0 <= j < 2 * i_12 ==> noisy_at(#[trigger] zw(out_12)[j], clean_signal@[j], noise_threshold.v()),
@start 12
  let ghost s0_12 = *test_seed as int;
  let ghost q0_12 = *train_seed as int;
  proof { lem_first(s0_12); lem_unif(q0_12); lem_unif(lcg(q0_12)); }
@end 12
  proof {
    let (u, v) = (r_max(unif(lcg(s0_12)), r_tiny32()), unif(lcg2(s0_12)));
    let k = 2 * i_12 as int;
    lem_noisy(zw(out_12)[k], clean_signal@[k], noise_threshold.v(), u, v, unif(lcg(q0_12)));
    lem_noisy(zw(out_12)[k + 1], clean_signal@[k + 1], noise_threshold.v(), u, v, unif(lcg2(q0_12)));
  }
@pre 13
  proof { lem_chunks(samples as int / 2, 2); assert(is_clean(clean_signal_t@, samples)); }
@loop 13
  n_13 == samples / 2, zw(out_13).len() == 2 * i_13,
  forall |j: int| 0 <= j < 2 * i_13 ==> noisy_at(#[trigger] zw(out_13)[j], clean_signal_t@[j], noise_threshold.v()),
@start 13
  let ghost s0_13 = *test_seed as int;
  let ghost q0_13 = lcg2(s0_13);
  proof { lem_first(s0_13); lem_unif(q0_13); lem_unif(lcg(q0_13)); }
@end 13
  proof {
    let (u, v) = (r_max(unif(lcg(s0_13)), r_tiny32()), unif(lcg2(s0_13)));
    let k = 2 * i_13 as int;
    lem_noisy(zw(out_13)[k], clean_signal_t@[k], noise_threshold.v(), u, v, unif(lcg(q0_13)));
    lem_noisy(zw(out_13)[k + 1], clean_signal_t@[k + 1], noise_threshold.v(), u, v, unif(lcg2(q0_13)));
  }
