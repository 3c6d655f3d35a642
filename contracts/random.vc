@file math/random/mod.rs mode=f32
@raw
global size_of usize == 8;
pub assume_specification [u128::pow] (b: u128, e: u32) -> (r: u128)
  requires vstd::arithmetic::power::pow(b as int, e as nat) <= u128::MAX
  ensures r == vstd::arithmetic::power::pow(b as int, e as nat);
/// one step of the generator
#[verifier::opaque]
pub open spec fn lcg(s: int) -> int { (1103515245 * s + 12345) % 2147483647 }
pub proof fn lem_lcg(s: int)
  requires s >= 0
  ensures 0 <= lcg(s) < 2147483647, (1103515245 * (s % 2147483647) + 12345) % 2147483647 == lcg(s)
{
  reveal(lcg);
  let m = 2147483647int;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, m);
  let q = s / m;
  assert(1103515245 * s + 12345 == (1103515245 * (s % m) + 12345) + m * (1103515245 * q)) by(nonlinear_arith) requires s == m * q + s % m;
  vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(1103515245 * q, 1103515245 * (s % m) + 12345, m);
}
pub proof fn lem_p31()
  ensures vstd::arithmetic::power::pow(2, 31) == 2147483648
{ reveal(vstd::arithmetic::power::pow); assert(vstd::arithmetic::power::pow(2, 31) == 2147483648) by(compute); }
/// the index: seed scaled from 0..2^31-2 to 0..limit
#[verifier::opaque]
pub open spec fn lcg_idx(s: int, limit: int) -> int { s * limit / 2147483647 }
pub proof fn lem_lcgi(s: int, limit: int)
  requires 0 <= s < 2147483647, limit >= 1
  ensures 0 <= lcg_idx(s, limit) < limit, 0 <= s * limit <= 2147483646 * limit, lcg_idx(s, limit) == s * limit / 2147483647
{
  reveal(lcg_idx);
  assert(0 <= s * limit <= 2147483646 * limit) by(nonlinear_arith) requires 0 <= s <= 2147483646, limit >= 1;
  assert(s * limit < 2147483647 * limit);
  let m = 2147483647int;
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s * limit, m);
  assert(lcg_idx(s, limit) < limit) by(nonlinear_arith) requires s * limit < m * limit, s * limit == m * lcg_idx(s, limit) + (s * limit) % m, (s * limit) % m >= 0, m == 2147483647;
  assert(lcg_idx(s, limit) >= 0) by(nonlinear_arith) requires s * limit >= 0, s * limit == m * lcg_idx(s, limit) + (s * limit) % m, (s * limit) % m < m, m == 2147483647;
}
/// monotone in the seed, and the extreme seeds give the first and (for limits the seed can resolve) the last index
pub proof fn lem_lcgi_mono(a: int, b: int, limit: int)
  requires 0 <= a <= b < 2147483647, limit >= 1
  ensures lcg_idx(a, limit) <= lcg_idx(b, limit), lcg_idx(0, limit) == 0, limit <= 2147483647 ==> lcg_idx(2147483646, limit) == limit - 1
{
  reveal(lcg_idx);
  assert(a * limit <= b * limit) by(nonlinear_arith) requires a <= b, limit >= 1;
  vstd::arithmetic::div_mod::lemma_div_is_ordered(a * limit, b * limit, 2147483647);
  if limit <= 2147483647 {
    let m = 2147483647int;
    assert(2147483646 * limit == m * (limit - 1) + (m - limit)) by(nonlinear_arith) requires m == 2147483647;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(2147483646 * limit, m, limit - 1, m - limit);
  }
}
@fn lcgf32
@ensures
  *final(seed) == lcg(*old(seed) as int),
  r.v() == rdiv(*final(seed) as real, 2147483648real),
  0real <= r.v() <= 1real,
@begin
  proof { lem_p31(); assert((1u128 << 31u128) == 2147483648u128) by(bit_vector); lem_lcg(*seed as int); }
@fn lcgf64 mode=f64
@ensures
  *final(seed) == lcg(*old(seed) as int),
  r.v() == rdiv(*final(seed) as real, 2147483648real),
  0real <= r.v() <= 1real,
@begin
  proof { lem_p31(); assert((1u128 << 31u128) == 2147483648u128) by(bit_vector); lem_lcg(*seed as int); }
@fn lcgi
@requires
  1 <= limit <= 0x1_0000_0000_0000_0000,
@ensures
  *final(seed) == lcg(*old(seed) as int),
  r == lcg_idx(*final(seed) as int, limit as int),
  r < limit,
@begin
  proof { lem_p31(); assert((1u128 << 31u128) == 2147483648u128) by(bit_vector); lem_lcg(*seed as int); lem_lcgi(lcg(*seed as int), limit as int); }
