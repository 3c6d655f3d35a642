@file math/matrix/mod.rs mode=elem
@raw
/// the a-th kernel row against the window at (i, j): sum over b < n of m[i+a][j+b] k[a][b]
pub open spec fn win_row(m: Matrix<Elem>, k: Matrix<Elem>, i: int, j: int, a: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(win_row(m, k, i, j, a, n - 1), e_mul(at(m, i + a, j + n - 1), at(k, a, n - 1))) }
}
/// the sum of the first n kernel rows against the window at (i, j)
pub open spec fn win(m: Matrix<Elem>, k: Matrix<Elem>, i: int, j: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(win(m, k, i, j, n - 1), win_row(m, k, i, j, n - 1, k.shape[1] as int)) }
}
/// the convolution value at (i, j)
pub open spec fn conv_at(m: Matrix<Elem>, k: Matrix<Elem>, i: int, j: int) -> Elem { win(m, k, i, j, k.shape[0] as int) }
pub open spec fn is_conv(r: Matrix<Elem>, m: Matrix<Elem>, k: Matrix<Elem>) -> bool {
  mwf(r) && r.shape[0] == m.shape[0] - k.shape[0] + 1 && r.shape[1] == m.shape[1] - k.shape[1] + 1 && r.capacity == r.shape
    && forall |i: int, j: int| 0 <= i < r.shape[0] && 0 <= j < r.shape[1] ==> #[trigger] at(r, i, j) == conv_at(m, k, i, j)
}
pub open spec fn is_conj(c: Matrix<Elem>, k: Matrix<Elem>) -> bool {
  c.shape[0] == k.shape[0] && c.shape[1] == k.shape[1] && c.body@.len() == k.body@.len() && forall |x: int| 0 <= x < k.body@.len() ==> #[trigger] c.body@[x] == e_conj(k.body@[x])
}
pub proof fn lem_dot_win(m: Matrix<Elem>, k: Matrix<Elem>, w: Seq<Elem>, v: Seq<Elem>, i: int, j: int, a: int, n: int)
  requires
    0 <= n <= k.shape[1], w.len() == k.shape[1], v.len() == k.shape[1],
    forall |b: int| 0 <= b < k.shape[1] ==> #[trigger] w[b] == at(m, i + a, j + b),
    forall |b: int| 0 <= b < k.shape[1] ==> #[trigger] v[b] == at(k, a, b),
  ensures dot(w, v, n) == win_row(m, k, i, j, a, n)
  decreases n
{
  if n > 0 { lem_dot_win(m, k, w, v, i, j, a, n - 1); }
}
/// a chunk of the slider is a row of the matrix, a chunk of the kernel a row of the kernel
pub proof fn lem_slider(m: Matrix<Elem>, k: Matrix<Elem>, s: &[Elem], ks: &[Elem], i: int, a: int)
  requires
    mwf(m), mwf(k), 0 <= i, 0 <= a < k.shape[0], i + k.shape[0] <= m.shape[0], 0 < k.shape[1] <= m.shape[1],
    s@ == m.body@.subrange(i * m.shape[1], (i + k.shape[0]) * m.shape[1]), ks@ == k.body@,
  ensures
    0 <= a * m.shape[1], a * m.shape[1] + m.shape[1] <= s@.len(),
    s@.len() == k.shape[0] * m.shape[1],
    0 <= a * k.shape[1], a * k.shape[1] + k.shape[1] <= ks@.len(),
    ({ let x = sub_ref(s, a * m.shape[1], a * m.shape[1] + m.shape[1])@; x.len() == m.shape[1] && forall |b: int| 0 <= b < m.shape[1] ==> #[trigger] x[b] == at(m, i + a, b) }),
    ({ let y = sub_ref(ks, a * k.shape[1], a * k.shape[1] + k.shape[1])@; y.len() == k.shape[1] && forall |b: int| 0 <= b < k.shape[1] ==> #[trigger] y[b] == at(k, a, b) }),
{
  let c = m.shape[1] as int;
  lem_span(i, k.shape[0] as int, m.shape[0] as int, c);
  lem_row(a, k.shape[0] as int, c);
  lem_row(a, k.shape[0] as int, k.shape[1] as int);
  lem_span(i, a, m.shape[0] as int, c);
  assert((i + a) * c == i * c + a * c);
  let x = sub_ref(s, a * c, a * c + c)@;
  assert forall |b: int| 0 <= b < c implies #[trigger] x[b] == at(m, i + a, b) by { lem_idx(i + a, b, m.shape[0] as int, c); }
}
/// a new row at the end leaves the earlier ones where they are
pub proof fn lem_grow(o: Seq<Elem>, row: Seq<Elem>, i: int, w: int, n: int)
  requires 0 <= i < n, 0 <= w, o.len() == i * w, row.len() == w
  ensures
    (o + row).len() == (i + 1) * w,
    forall |x: int, y: int| 0 <= x < i && 0 <= y < w ==> #[trigger] (o + row)[x * w + y] == o[x * w + y],
    forall |y: int| 0 <= y < w ==> (o + row)[i * w + y] == row[y],
{
  lem_row(i, n, w);
  assert forall |x: int, y: int| 0 <= x < i && 0 <= y < w implies #[trigger] (o + row)[x * w + y] == o[x * w + y] by { lem_idx(x, y, i, w); }
}

@fn Matrix::convolution
@requires
  mwf(*self), mwf(*kernel), kernel.shape[0] > 0, kernel.shape[1] > 0,
@ensures
  r is Ok <==> (kernel.shape[0] <= self.shape[0] && kernel.shape[1] <= self.shape[1]),
  r is Ok ==> is_conv(r->Ok_0, *self, *kernel),
@begin
  proof { lem_sides(*self); lem_sides(*kernel); }
@pre 0
  let ghost fw = final_shape[1] as int;
@loop 0
  out_0@.len() == i_0 * fw,
  forall |x: int, y: int| 0 <= x < i_0 && 0 <= y < fw ==> #[trigger] out_0@[x * fw + y] == conv_at(*self, *kernel, x, y),
@pre 1
  proof {
    lem_span(i_0 as int, kernel.shape[0] as int, self.shape[0] as int, self.shape[1] as int);
    lem_chunks(kernel.shape[0] as int, self.shape[1] as int);
    lem_chunks(kernel.shape[0] as int, kernel.shape[1] as int);
  }
@loop 1
  acc_1@.len() == fw,
  forall |y: int| 0 <= y < fw ==> #[trigger] acc_1@[y] == win(*self, *kernel, i_0 as int, y, i_1 as int),
@start 1
  proof { lem_slider(*self, *kernel, s_1_0.s, s_1_1.s, i_0 as int, i_1 as int); }
@loop 2
  out_2@.len() == i_2,
  forall |y: int| 0 <= y < i_2 ==> #[trigger] out_2@[y] == win_row(*self, *kernel, i_0 as int, y, i_1 as int, kernel.shape[1] as int),
@start 2
  proof { lem_dot_win(*self, *kernel, full_row@.subrange(i_2 as int, i_2 + kernel.shape[1]), kernel_row@, i_0 as int, i_2 as int, i_1 as int, kernel.shape[1] as int); }
@end 0
  proof { lem_grow(out_0_before, it_0@, i_0 as int, fw, n_0 as int); }
@start 0
  let ghost out_0_before = out_0@;
@post 0
  proof {
    lem_span(0, final_shape[0] as int, self.shape[0] as int, self.shape[1] as int);
    assert(final_shape[0] * final_shape[1] <= self.shape[0] * self.shape[1]) by(nonlinear_arith) requires final_shape[0] <= self.shape[0], final_shape[1] <= self.shape[1];
  }

@fn Matrix::cconvolution
@requires
  mwf(*self), mwf(*kernel), kernel.shape[0] > 0, kernel.shape[1] > 0, kernel.shape[0] <= self.shape[0], kernel.shape[1] <= self.shape[1],
@ensures
  r is Ok, exists |k: Matrix<Elem>| mwf(k) && #[trigger] is_conj(k, *kernel) && is_conv(r->Ok_0, *self, k),
@begin
  proof { lem_sides(*self); lem_sides(*kernel); }
@loop 0
  out_0@.len() == i_0, forall |x: int| 0 <= x < i_0 ==> #[trigger] out_0@[x] == e_conj(kernel.body@[x]),
@pre 1
  proof { assert(is_conj(conj_kernel, *kernel)); }
  let ghost fw = final_shape[1] as int;
@loop 1
  out_1@.len() == i_1 * fw,
  forall |x: int, y: int| 0 <= x < i_1 && 0 <= y < fw ==> #[trigger] out_1@[x * fw + y] == conv_at(*self, conj_kernel, x, y),
@pre 2
  proof {
    lem_span(i_1 as int, kernel.shape[0] as int, self.shape[0] as int, self.shape[1] as int);
    lem_chunks(kernel.shape[0] as int, self.shape[1] as int);
    lem_chunks(kernel.shape[0] as int, kernel.shape[1] as int);
  }
@loop 2
  acc_2@.len() == fw,
  forall |y: int| 0 <= y < fw ==> #[trigger] acc_2@[y] == win(*self, conj_kernel, i_1 as int, y, i_2 as int),
@start 2
  proof { lem_slider(*self, conj_kernel, s_2_0.s, s_2_1.s, i_1 as int, i_2 as int); }
@loop 3
  out_3@.len() == i_3,
  forall |y: int| 0 <= y < i_3 ==> #[trigger] out_3@[y] == win_row(*self, conj_kernel, i_1 as int, y, i_2 as int, kernel.shape[1] as int),
@start 3
  proof { lem_dot_win(*self, conj_kernel, full_row@.subrange(i_3 as int, i_3 + kernel.shape[1]), kernel_row@, i_1 as int, i_3 as int, i_2 as int, kernel.shape[1] as int); }
@end 1
  proof { lem_grow(out_1_before, it_1@, i_1 as int, fw, n_1 as int); }
@start 1
  let ghost out_1_before = out_1@;
@post 1
  proof {
    lem_span(0, final_shape[0] as int, self.shape[0] as int, self.shape[1] as int);
    assert(final_shape[0] * final_shape[1] <= self.shape[0] * self.shape[1]) by(nonlinear_arith) requires final_shape[0] <= self.shape[0], final_shape[1] <= self.shape[1];
  }
