@file math/matrix/mod.rs mode=gen
@fn Matrix::flip
@requires
  mwf(*self),
@ensures
  r is Ok, mwf(r->Ok_0), r->Ok_0.shape == self.shape, r->Ok_0.capacity == self.shape,
  forall |i: int, j: int| 0 <= i < self.shape[0] && 0 <= j < self.shape[1] ==> #[trigger] at(r->Ok_0, i, j) == at(*self, self.shape[0] - 1 - i, self.shape[1] - 1 - j),
@loop 0
  flipped@.len() == i_0 * shape[1],
  forall |x: int, y: int| 0 <= x < i_0 && 0 <= y < shape[1] ==> #[trigger] flipped@[x * shape[1] + y] == at(*self, shape[0] - 1 - x, shape[1] - 1 - y),
@start 0
  proof { lem_row(i_0 as int, shape[0] as int, shape[1] as int); }
@loop 1
  flipped@.len() == i_0 * shape[1] + i_1,
  forall |x: int, y: int| 0 <= x < i_0 && 0 <= y < shape[1] ==> #[trigger] flipped@[x * shape[1] + y] == at(*self, shape[0] - 1 - x, shape[1] - 1 - y),
  forall |y: int| 0 <= y < i_1 ==> #[trigger] flipped@[i_0 * shape[1] + y] == at(*self, shape[0] - 1 - i_0, shape[1] - 1 - y),
@start 1
  let ghost f_before = flipped@;
@end 1
  proof {
    assert forall |x: int, y: int| 0 <= x < i_0 && 0 <= y < shape[1] implies #[trigger] flipped@[x * shape[1] + y] == at(*self, shape[0] - 1 - x, shape[1] - 1 - y) by { lem_idx(x, y, i_0 as int, shape[1] as int); assert(flipped@[x * shape[1] + y] == f_before[x * shape[1] + y]); }
  }

@raw
pub open spec fn is_pad(r: Matrix<Elem>, m: Matrix<Elem>, p0: int, p1: int) -> bool {
  mwf(r) && r.shape[0] == m.shape[0] + 2 * p0 && r.shape[1] == m.shape[1] + 2 * p1
    && forall |i: int, j: int| 0 <= i < r.shape[0] && 0 <= j < r.shape[1] ==> #[trigger] at(r, i, j) == (if p0 <= i < p0 + m.shape[0] && p1 <= j < p1 + m.shape[1] { at(m, i - p0, j - p1) } else { e_zero() })
}
pub open spec fn zs(n: int) -> Seq<Elem> { Seq::new(n as nat, |k: int| e_zero()) }

@file math/matrix/mod.rs mode=elem
@fn Matrix::pad
@requires
  mwf(self), self.shape[0] + 2 * pad.0 <= usize::MAX, self.shape[1] + 2 * pad.1 <= usize::MAX, (self.shape[0] + 2 * pad.0) * (self.shape[1] + 2 * pad.1) <= usize::MAX,
@ensures
  is_pad(r, self, pad.0 as int, pad.1 as int),
@pre 0
  let ghost m = self;
  let ghost w = padded_cols as int;
  let ghost c = shape[1] as int;
  proof { assert(self_body@.subrange(0 * c, self_body@.len() as int) =~= self_body@); }
@loop 0
  out_0@.len() == i_0 * w,
  self_body@ == m.body@.subrange((if i_0 <= pad.0 { 0 } else if i_0 <= pad.0 + shape[0] { i_0 - pad.0 } else { shape[0] as int }) * c, m.body@.len() as int),
  forall |i: int, j: int| 0 <= i < i_0 && 0 <= j < w ==> #[trigger] out_0@[i * w + j] == (if pad.0 <= i < pad.0 + shape[0] && pad.1 <= j < pad.1 + shape[1] { at(m, i - pad.0, j - pad.1) } else { e_zero() }),
@start 0
  let ghost out_b = out_0@;
  let ghost body_b = self_body@;
  proof { if pad.0 <= i_0 < pad.0 + shape[0] { lem_row(i_0 - pad.0, shape[0] as int, c); } }
@end 0
  proof {
    lem_grow(out_b, it_0@, i_0 as int, w, n_0 as int);
    if pad.0 <= i_0 < pad.0 + shape[0] {
      assert(self_body@ =~= m.body@.subrange((i_0 - pad.0 + 1) * c, m.body@.len() as int));
      assert(it_0@ =~= zs(pad.1 as int) + body_b.subrange(0, c) + zs(pad.1 as int));
      assert forall |j: int| 0 <= j < w implies #[trigger] it_0@[j] == (if pad.1 <= j < pad.1 + shape[1] { at(m, i_0 - pad.0, j - pad.1) } else { e_zero() }) by { }
    }
  }

@raw
/// a reducing function given by the user
#[verifier::external_body]
pub struct BlockFn { x: u8 }
pub uninterp spec fn bf(f: BlockFn, s: Seq<Elem>) -> Elem;
impl BlockFn {
  #[verifier::external_body]
  pub fn vcall(&self, s: &[Elem]) -> (r: Elem) ensures r == bf(*self, s@) { unimplemented!() }
}
/// the first n rows of the block of width w whose upper left corner is (i0, j0)
pub open spec fn blk(m: Matrix<Elem>, i0: int, j0: int, w: int, n: int) -> Seq<Elem>
  decreases n
{
  if n <= 0 { Seq::empty() } else { blk(m, i0, j0, w, n - 1) + row_of(m, i0 + n - 1).subrange(j0, j0 + w) }
}
pub open spec fn is_block_reduce(r: Matrix<Elem>, m: Matrix<Elem>, b0: int, b1: int, f: BlockFn) -> bool {
  mwf(r) && r.shape[0] * b0 == m.shape[0] && r.shape[1] * b1 == m.shape[1]
    && forall |i: int, j: int| 0 <= i < r.shape[0] && 0 <= j < r.shape[1] ==> #[trigger] at(r, i, j) == bf(f, blk(m, i * b0, j * b1, b1, b0))
}
/// the row iterators of the blocks starting at row i0: the first k of them one block further
pub open spec fn sliders<'a>(v: Seq<VChunks<'a, Elem>>, m: Matrix<Elem>, i0: int, b1: int, n: int, p: int, k: int) -> bool {
  forall |a: int| 0 <= a < n ==> (#[trigger] v[a]).s@ == row_of(m, i0 + a) && v[a].c == b1 && v[a].p == (if a < k { p + 1 } else { p })
}
pub proof fn lem_divides(a: int, b: int)
  requires 0 <= a, 0 < b, a % b == 0
  ensures (a / b) * b == a, 0 <= a / b <= a
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
  assert((a / b) * b == b * (a / b)) by(nonlinear_arith);
  assert(0 <= a / b <= a) by(nonlinear_arith) requires 0 <= a, 0 < b;
}

@fn Matrix::block_reduce
@requires
  mwf(*self), self.shape[0] > 0, self.shape[1] > 0, block_size@.len() == 2, block_size@[0] > 0, block_size@[1] > 0,
@ensures
  r is Ok <==> (self.shape[0] % block_size@[0] == 0 && self.shape[1] % block_size@[1] == 0),
  r is Ok ==> is_block_reduce(r->Ok_0, *self, block_size@[0] as int, block_size@[1] as int, *block_func),
@begin
  let ghost b0 = block_size@[0] as int;
  let ghost b1 = block_size@[1] as int;
  let ghost c = self.shape[1] as int;
  proof {
    if self.shape[0] % block_size@[0] == 0 { lem_divides(self.shape[0] as int, b0); }
    if self.shape[1] % block_size@[1] == 0 { lem_divides(self.shape[1] as int, b1); }
    lem_chunks(self.shape[0] as int, c);
    assert(self.shape[0] / block_size@[0] == 0 ==> self.shape[0] / block_size@[0] * b0 == 0) by(nonlinear_arith);
    assert(self.shape[1] / block_size@[1] == 0 ==> self.shape[1] / block_size@[1] * b1 == 0) by(nonlinear_arith);
    assert((self.shape[0] / block_size@[0]) * b0 == self.shape[0] ==> b0 <= self.shape[0]) by(nonlinear_arith) requires self.shape[0] > 0, b0 > 0, b0 == block_size@[0];
    assert((self.shape[1] / block_size@[1]) * b1 == self.shape[1] ==> b1 <= self.shape[1]) by(nonlinear_arith) requires self.shape[1] > 0, b1 > 0, b1 == block_size@[1];
  }
@before let mut result_body
  let ghost nr = n_rows as int;
  let ghost nc = n_cols as int;
  proof {
    assert(nr * nc <= self.shape[0] * self.shape[1]) by(nonlinear_arith) requires 0 <= nr <= self.shape[0], 0 <= nc <= self.shape[1];
    lem_chunks(nc, b1);
    assert(b0 * b1 <= self.shape[0] * self.shape[1]) by(nonlinear_arith) requires 0 <= b0 <= self.shape[0], 0 <= b1 <= self.shape[1];
  }
@loop 0
  matrix_rows.s@ == self.body@, matrix_rows.c == self.shape[1], matrix_rows.p == i_0 * b0,
  result_body@.len() == i_0 * nc,
  forall |i: int, j: int| 0 <= i < i_0 && 0 <= j < nc ==> #[trigger] result_body@[i * nc + j] == bf(*block_func, blk(*self, i * b0, j * b1, b1, b0)),
@start 0
  proof { lem_row(i_0 as int, nr, b0); lem_row(i_0 as int, nr, nc); }
@loop 1
  matrix_rows.s@ == self.body@, matrix_rows.c == self.shape[1], matrix_rows.p == i_0 * b0 + i_1,
  slider_rows@.len() == i_1,
  sliders(slider_rows@, *self, i_0 * b0, b1, i_1 as int, 0, 0),
@start 1
  proof { lem_row(i_0 * b0 + i_1, self.shape[0] as int, c); }
@loop 2
  slider_rows@.len() == b0,
  sliders(slider_rows@, *self, i_0 * b0, b1, b0, i_2 as int, 0),
  result_body@.len() == i_0 * nc + i_2,
  forall |i: int, j: int| 0 <= i < i_0 && 0 <= j < nc ==> #[trigger] result_body@[i * nc + j] == bf(*block_func, blk(*self, i * b0, j * b1, b1, b0)),
  forall |j: int| 0 <= j < i_2 ==> #[trigger] result_body@[i_0 * nc + j] == bf(*block_func, blk(*self, i_0 * b0, j * b1, b1, b0)),
@start 2
  let ghost rb = result_body@;
  proof { lem_row(i_2 as int, nc, b1); }
@loop 3
  s_3_0@.len() == b0,
  sliders(s_3_0@, *self, i_0 * b0, b1, b0, i_2 as int, i_3 as int),
  block@ == blk(*self, i_0 * b0, i_2 * b1, b1, i_3 as int),
@start 3
  proof { lem_row(i_0 * b0 + i_3, self.shape[0] as int, c); }
@end 2
  proof {
    assert forall |x: int, y: int| 0 <= x < i_0 && 0 <= y < nc implies #[trigger] result_body@[x * nc + y] == bf(*block_func, blk(*self, x * b0, y * b1, b1, b0)) by { lem_idx(x, y, i_0 as int, nc); assert(result_body@[x * nc + y] == rb[x * nc + y]); }
  }

@raw
/// every value followed by right zeros and preceded by left ones
pub open spec fn urow(row: Seq<Elem>, l: int, rt: int, n: int) -> Seq<Elem>
  decreases n
{
  if n <= 0 { Seq::empty() } else { urow(row, l, rt, n - 1) + zs(l) + seq![row[n - 1]] + zs(rt) }
}
pub open spec fn ublk(m: Matrix<Elem>, up: int, bot: int, l: int, rt: int, w: int, n: int) -> Seq<Elem>
  decreases n
{
  if n <= 0 { Seq::empty() } else { ublk(m, up, bot, l, rt, w, n - 1) + zs(up * w) + urow(row_of(m, n - 1), l, rt, m.shape[1] as int) + zs(bot * w) }
}
/// u spreads the values of m over blocks of b0 x b1, each in the middle of its block
pub open spec fn is_spread(u: Matrix<Elem>, m: Matrix<Elem>, b0: int, b1: int) -> bool {
  mwf(u) && u.shape[0] == m.shape[0] * b0 && u.shape[1] == m.shape[1] * b1
    && forall |i: int, a: int, j: int, b: int| 0 <= i < m.shape[0] && 0 <= a < b0 && 0 <= j < m.shape[1] && 0 <= b < b1 ==>
      #[trigger] at(u, i * b0 + a, j * b1 + b) == (if a == (b0 - 1) / 2 && b == (b1 - 1) / 2 { at(m, i, j) } else { e_zero() })
}
pub proof fn lem_urow(row: Seq<Elem>, l: int, rt: int, n: int)
  requires 0 <= l, 0 <= rt, 0 <= n <= row.len()
  ensures
    urow(row, l, rt, n).len() == n * (l + 1 + rt),
    forall |j: int, b: int| 0 <= j < n && 0 <= b < l + 1 + rt ==> #[trigger] urow(row, l, rt, n)[j * (l + 1 + rt) + b] == (if b == l { row[j] } else { e_zero() }),
  decreases n
{
  if n > 0 {
    lem_urow(row, l, rt, n - 1);
    let w = l + 1 + rt;
    lem_succ(n - 1, w);
    let q = urow(row, l, rt, n - 1);
    let s = urow(row, l, rt, n);
    assert forall |j: int, b: int| 0 <= j < n && 0 <= b < w implies #[trigger] s[j * w + b] == (if b == l { row[j] } else { e_zero() }) by {
      lem_idx(j, b, n, w);
      if j < n - 1 { lem_idx(j, b, n - 1, w); assert(s[j * w + b] == q[j * w + b]); }
    }
  }
}
pub proof fn lem_ublk(m: Matrix<Elem>, up: int, bot: int, l: int, rt: int, w: int, n: int)
  requires mwf(m), 0 <= up, 0 <= bot, 0 <= l, 0 <= rt, w == m.shape[1] * (l + 1 + rt), 0 <= n <= m.shape[0]
  ensures
    ublk(m, up, bot, l, rt, w, n).len() == (n * (up + 1 + bot)) * w,
    forall |i: int, a: int, y: int| 0 <= i < n && 0 <= a < up + 1 + bot && 0 <= y < w ==> #[trigger] ublk(m, up, bot, l, rt, w, n)[(i * (up + 1 + bot) + a) * w + y] == (if a == up { urow(row_of(m, i), l, rt, m.shape[1] as int)[y] } else { e_zero() }),
  decreases n
{
  let b0 = up + 1 + bot;
  assert(0 <= w) by(nonlinear_arith) requires w == m.shape[1] * (l + 1 + rt), 0 <= l, 0 <= rt;
  assert(n == 0 ==> (n * b0) * w == 0) by(nonlinear_arith);
  if n > 0 {
    lem_ublk(m, up, bot, l, rt, w, n - 1);
    lem_row(n - 1, m.shape[0] as int, m.shape[1] as int);
    let ur = urow(row_of(m, n - 1), l, rt, m.shape[1] as int);
    lem_urow(row_of(m, n - 1), l, rt, m.shape[1] as int);
    let q = ublk(m, up, bot, l, rt, w, n - 1);
    let s = ublk(m, up, bot, l, rt, w, n);
    let h = ((n - 1) * b0) * w;
    assert((n * b0) * w == h + up * w + w + bot * w && 0 <= up * w && 0 <= bot * w) by(nonlinear_arith) requires h == ((n - 1) * b0) * w, b0 == up + 1 + bot, 0 <= up, 0 <= bot, 0 <= w;
    assert(q.len() == h && ur.len() == w && s == q + zs(up * w) + ur + zs(bot * w));
    assert(s.len() == (n * b0) * w);
    assert forall |i: int, a: int, y: int| 0 <= i < n && 0 <= a < b0 && 0 <= y < w implies #[trigger] s[(i * b0 + a) * w + y] == (if a == up { urow(row_of(m, i), l, rt, m.shape[1] as int)[y] } else { e_zero() }) by {
      if i < n - 1 {
        lem_idx(i, a, n - 1, b0);
        lem_idx(i * b0 + a, y, (n - 1) * b0, w);
        assert(s[(i * b0 + a) * w + y] == q[(i * b0 + a) * w + y]);
      } else {
        assert((i * b0 + a) * w == h + a * w && (a < up ==> a * w + w <= up * w) && (a > up ==> up * w + w <= a * w) && (a > up ==> a * w + w <= up * w + w + bot * w)) by(nonlinear_arith) requires h == ((n - 1) * b0) * w, i == n - 1, b0 == up + 1 + bot, 0 <= a < b0, 0 <= w;
        assert(0 <= a * w) by(nonlinear_arith) requires 0 <= a, 0 <= w;
        if a == up { assert(s[h + up * w + y] == ur[y]); }
      }
    }
  }
}
pub proof fn lem_spread(u: Matrix<Elem>, m: Matrix<Elem>, up: int, bot: int, l: int, rt: int)
  requires
    mwf(m), 0 <= up, 0 <= bot, 0 <= l, 0 <= rt, up == (up + bot) / 2, l == (l + rt) / 2,
    u.shape[0] == m.shape[0] * (up + 1 + bot), u.shape[1] == m.shape[1] * (l + 1 + rt),
    u.body@ == ublk(m, up, bot, l, rt, u.shape[1] as int, m.shape[0] as int),
  ensures is_spread(u, m, up + 1 + bot, l + 1 + rt)
{
  let b0 = up + 1 + bot;
  let b1 = l + 1 + rt;
  let w = u.shape[1] as int;
  lem_ublk(m, up, bot, l, rt, w, m.shape[0] as int);
  assert forall |i: int, a: int, j: int, b: int| 0 <= i < m.shape[0] && 0 <= a < b0 && 0 <= j < m.shape[1] && 0 <= b < b1 implies
      #[trigger] at(u, i * b0 + a, j * b1 + b) == (if a == (b0 - 1) / 2 && b == (b1 - 1) / 2 { at(m, i, j) } else { e_zero() }) by {
    lem_idx(j, b, m.shape[1] as int, b1);
    lem_row(i, m.shape[0] as int, m.shape[1] as int);
    lem_urow(row_of(m, i), l, rt, m.shape[1] as int);
    assert(u.body@[(i * b0 + a) * w + (j * b1 + b)] == (if a == up { urow(row_of(m, i), l, rt, m.shape[1] as int)[j * b1 + b] } else { e_zero() }));
  }
}

@fn Matrix::fractional_upsampling
@requires
  mwf(*self), self.shape[0] > 0, self.shape[1] > 0, block_size@.len() == 2, block_size@[0] > 0, block_size@[1] > 0,
  mwf(*kernel), kernel.shape[0] > 0, kernel.shape[1] > 0,
  self.shape[0] * block_size@[0] + kernel.shape[0] <= usize::MAX, self.shape[1] * block_size@[1] + kernel.shape[1] <= usize::MAX,
  (self.shape[0] * block_size@[0] + kernel.shape[0]) * (self.shape[1] * block_size@[1] + kernel.shape[1]) <= usize::MAX,
@ensures
  r is Ok <==> (kernel.shape[0] % 2 == 1 && kernel.shape[1] % 2 == 1),
  r is Ok ==> exists |u: Matrix<Elem>, p: Matrix<Elem>| is_spread(u, *self, block_size@[0] as int, block_size@[1] as int) && #[trigger] is_pad(p, u, (kernel.shape[0] - 1) / 2, (kernel.shape[1] - 1) / 2) && #[trigger] is_conv(r->Ok_0, p, *kernel),
@begin
  let ghost b0 = block_size@[0] as int;
  let ghost b1 = block_size@[1] as int;
  let ghost c = self.shape[1] as int;
  let ghost w = c * b1;
  let ghost (up, bo) = ((b0 - 1) / 2, b0 - 1 - (b0 - 1) / 2);
  let ghost (l, rt) = ((b1 - 1) / 2, b1 - 1 - (b1 - 1) / 2);
  proof { lem_chunks(self.shape[0] as int, c); 
    assert(1 <= self.shape[0] * b0 && 1 <= w) by(nonlinear_arith) requires w == c * b1, c >= 1, b1 >= 1, b0 >= 1, self.shape[0] >= 1;
    lem_big(self.shape[0] * b0, kernel.shape[0] as int, w, kernel.shape[1] as int); }
@pre 0
  proof { assert(zs(0) =~= Seq::<Elem>::empty()); assert(res@ =~= Seq::<Elem>::empty()); }
@loop 0
  matrix_rows.s@ == self.body@, matrix_rows.c == self.shape[1], matrix_rows.p == i_0,
  res@ == ublk(*self, up, bo, l, rt, w, i_0 as int),
@start 0
  let ghost r0 = res@;
  let ghost row = row_of(*self, i_0 as int);
  proof { lem_row(i_0 as int, self.shape[0] as int, c); assert(0 * w == 0); assert(r0 + zs(0) =~= r0); }
@loop 1
  res@ == r0 + zs(i_1 * w),
@end 1
  proof { lem_succ(i_1 as int, w); assert(0 <= i_1 * w) by(nonlinear_arith) requires i_1 >= 0, w >= 0; assert(res@ =~= r0 + zs((i_1 + 1) * w)); }
@pre 2
  proof { assert(res@ =~= r0 + zs(up * w) + urow(row, l, rt, 0)); }
@loop 2
  res@ == r0 + zs(up * w) + urow(row, l, rt, i_2 as int),
@start 2
  let ghost r2 = res@;
@end 2
  proof { assert(res@ =~= r0 + zs(up * w) + urow(row, l, rt, i_2 + 1)); }
@pre 3
  let ghost r3 = r0 + zs(up * w) + urow(row, l, rt, c);
  proof { assert(res@ =~= r3 + zs(0)); }
@loop 3
  res@ == r3 + zs(i_3 * w),
@end 3
  proof { lem_succ(i_3 as int, w); assert(0 <= i_3 * w) by(nonlinear_arith) requires i_3 >= 0, w >= 0; assert(res@ =~= r3 + zs((i_3 + 1) * w)); }
@post 0
  proof {
    lem_ublk(*self, up, bo, l, rt, w, self.shape[0] as int);
    assert(up + 1 + bo == b0 && l + 1 + rt == b1);
  }
@before let kernel_shape
  proof {
    lem_spread(matrix_res, *self, up, bo, l, rt);
    assert(is_spread(matrix_res, *self, b0, b1));
  }
