@raw
// ---------------------------------------------------------------- gradients (C08)
/// the values of a sequence made of n pieces of length s: piece z / s, position z % s
pub open spec fn by2(o: Seq<Elem>, n: int, s: int, f: spec_fn(int, int) -> Elem) -> bool {
  o.len() == n * s && forall |z: int| 0 <= z < n * s ==> #[trigger] o[z] == f(z / s, z % s)
}
pub proof fn lem_cat(o: Seq<Elem>, row: Seq<Elem>, k: int, s: int, f: spec_fn(int, int) -> Elem)
  requires 0 <= k, by2(o, k, s, f), row.len() == s, forall |p: int| 0 <= p < s ==> #[trigger] row[p] == f(k, p)
  ensures by2(o + row, k + 1, s, f)
{
  lem_succ(k, s);
  assert forall |z: int| 0 <= z < (k + 1) * s implies #[trigger] (o + row)[z] == f(z / s, z % s) by {
    if z >= k * s { lem_unidx(k, z - k * s, s); assert((o + row)[z] == row[z - k * s]); } else { assert((o + row)[z] == o[z]); }
  }
}
/// the p-th value of piece k
pub proof fn lem_by2(o: Seq<Elem>, n: int, s: int, f: spec_fn(int, int) -> Elem, k: int, p: int)
  requires by2(o, n, s, f), 0 <= k < n, 0 <= p < s
  ensures 0 <= k * s + p < o.len(), o[k * s + p] == f(k, p)
{
  lem_idx(k, p, n, s);
  lem_unidx(k, p, s);
}
/// piece k
pub proof fn lem_piece(o: Seq<Elem>, n: int, s: int, f: spec_fn(int, int) -> Elem, k: int)
  requires by2(o, n, s, f), 0 <= k < n, 0 <= s
  ensures
    0 <= k * s, k * s + s == (k + 1) * s, (k + 1) * s <= o.len(),
    forall |p: int| 0 <= p < s ==> #[trigger] o.subrange(k * s, (k + 1) * s)[p] == f(k, p),
{
  lem_row(k, n, s);
  assert forall |p: int| 0 <= p < s implies #[trigger] o.subrange(k * s, (k + 1) * s)[p] == f(k, p) by { lem_by2(o, n, s, f, k, p); }
}
/// s(0) + s(1) + ...
pub open spec fn fsum(s: spec_fn(int) -> Elem, n: int) -> Elem
  decreases n
{
  if n <= 1 { s(0) } else { e_add(fsum(s, n - 1), s(n - 1)) }
}
/// the convolution of a with b (h by w) at (i, j), for functions of row and column
pub open spec fn frow(a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem, i: int, j: int, r: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(frow(a, b, i, j, r, n - 1), e_mul(a(i + r, j + n - 1), b(r, n - 1))) }
}
pub open spec fn fwin(a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem, i: int, j: int, w: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(fwin(a, b, i, j, w, n - 1), frow(a, b, i, j, n - 1, w)) }
}
pub open spec fn fconv(a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem, i: int, j: int, h: int, w: int) -> Elem { fwin(a, b, i, j, w, h) }
/// a is what the matrix holds
pub open spec fn mis(m: Matrix<Elem>, a: spec_fn(int, int) -> Elem) -> bool {
  forall |i: int, j: int| 0 <= i < m.shape[0] && 0 <= j < m.shape[1] ==> #[trigger] at(m, i, j) == a(i, j)
}
pub proof fn lem_frow(m: Matrix<Elem>, k: Matrix<Elem>, a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem, i: int, j: int, r: int, n: int)
  requires mis(m, a), mis(k, b), 0 <= i, 0 <= j, 0 <= r < k.shape[0], 0 <= n <= k.shape[1], i + k.shape[0] <= m.shape[0], j + k.shape[1] <= m.shape[1]
  ensures win_row(m, k, i, j, r, n) == frow(a, b, i, j, r, n)
  decreases n
{
  if n > 0 { lem_frow(m, k, a, b, i, j, r, n - 1); assert(at(m, i + r, j + n - 1) == a(i + r, j + n - 1)); assert(at(k, r, n - 1) == b(r, n - 1)); }
}
pub proof fn lem_fwin(m: Matrix<Elem>, k: Matrix<Elem>, a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem, i: int, j: int, n: int)
  requires mis(m, a), mis(k, b), 0 <= i, 0 <= j, 0 <= n <= k.shape[0], i + k.shape[0] <= m.shape[0], j + k.shape[1] <= m.shape[1]
  ensures win(m, k, i, j, n) == fwin(a, b, i, j, k.shape[1] as int, n)
  decreases n
{
  if n > 0 { lem_fwin(m, k, a, b, i, j, n - 1); lem_frow(m, k, a, b, i, j, n - 1, k.shape[1] as int); }
}
/// the body of a convolution, by position
pub proof fn lem_fconv(r: Matrix<Elem>, m: Matrix<Elem>, k: Matrix<Elem>, a: spec_fn(int, int) -> Elem, b: spec_fn(int, int) -> Elem)
  requires is_conv(r, m, k), mis(m, a), mis(k, b), 0 < k.shape[0] <= m.shape[0], 0 < k.shape[1] <= m.shape[1]
  ensures forall |p: int| 0 <= p < r.body@.len() ==> #[trigger] r.body@[p] == fconv(a, b, p / r.shape[1] as int, p % r.shape[1] as int, k.shape[0] as int, k.shape[1] as int)
{
  broadcast use bl_conv;
  assert forall |p: int| 0 <= p < r.body@.len() implies #[trigger] r.body@[p] == fconv(a, b, p / r.shape[1] as int, p % r.shape[1] as int, k.shape[0] as int, k.shape[1] as int) by {
    lem_reidx(p, r.shape[0] as int, r.shape[1] as int);
    lem_fwin(m, k, a, b, p / r.shape[1] as int, p % r.shape[1] as int, k.shape[0] as int);
  }
}
pub open spec fn mapf(m: Matrix<Elem>) -> spec_fn(int, int) -> Elem { |i: int, j: int| at(m, i, j) }
pub open spec fn flipf(m: Matrix<Elem>) -> spec_fn(int, int) -> Elem { |i: int, j: int| at(m, m.shape[0] - 1 - i, m.shape[1] - 1 - j) }
/// a (h by w) with a zero border
pub open spec fn padf(a: spec_fn(int, int) -> Elem, h: int, w: int, p0: int, p1: int) -> spec_fn(int, int) -> Elem {
  |i: int, j: int| if p0 <= i < p0 + h && p1 <= j < p1 + w { a(i - p0, j - p1) } else { e_zero() }
}
/// the values of a sequence as a map of width w
pub open spec fn seqf(s: spec_fn(int) -> Elem, w: int) -> spec_fn(int, int) -> Elem { |i: int, j: int| s(i * w + j) }
pub open spec fn conjs(c: Seq<Elem>, s: Seq<Elem>) -> bool { c.len() == s.len() && forall |z: int| 0 <= z < s.len() ==> #[trigger] c[z] == e_conj(s[z]) }

// dense: dL/dq of unit i
pub open spec fn ddq(l: DenseCLayer<Elem>, x: Seq<Elem>, g: Seq<Elem>, gc: Seq<Elem>, i: int) -> Elem {
  e_add(e_mul(e_dact(l.func, dense_q(l, x, i)), g[i]), e_mul(e_conj(e_dcact(l.func, dense_q(l, x, i))), gc[i]))
}
pub open spec fn ddw(l: DenseCLayer<Elem>, x: Seq<Elem>, g: Seq<Elem>, gc: Seq<Elem>) -> spec_fn(int, int) -> Elem { |i: int, j: int| e_mul(x[j], ddq(l, x, g, gc, i)) }
/// the gradient of input j from the first n units
pub open spec fn ddx(l: DenseCLayer<Elem>, x: Seq<Elem>, g: Seq<Elem>, gc: Seq<Elem>, j: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(ddx(l, x, g, gc, j, n - 1), e_mul(at(l.weights, n - 1, j), ddq(l, x, g, gc, n - 1))) }
}
pub open spec fn dense_grad(l: DenseCLayer<Elem>, x: Seq<Elem>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>) -> bool {
  let (u, n) = (l.weights.shape[0] as int, l.weights.shape[1] as int);
  by2(o.0@, u, n, ddw(l, x, g, gc))
    && o.1@.len() == u && (forall |i: int| 0 <= i < u ==> #[trigger] o.1@[i] == ddq(l, x, g, gc, i))
    && o.2@.len() == n && (forall |j: int| 0 <= j < n ==> #[trigger] o.2@[j] == ddx(l, x, g, gc, j, u))
    && conjs(o.3@, o.2@)
}

// convolution: everything of filter f at output position p
pub open spec fn cos(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> int { oh(l, x) * ow(l, x) }
pub open spec fn cq(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> spec_fn(int, int) -> Elem { |f: int, p: int| conv_q(l, x, f, p / ow(l, x), p % ow(l, x)) }
/// the two parts of dL/dq
pub open spec fn ct1(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>) -> spec_fn(int, int) -> Elem { |f: int, p: int| e_mul(e_dact(l.func, cq(l, x)(f, p)), g[f * cos(l, x) + p]) }
pub open spec fn ct2(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, gc: Seq<Elem>) -> spec_fn(int, int) -> Elem { |f: int, p: int| e_mul(e_conj(e_dcact(l.func, cq(l, x)(f, p))), gc[f * cos(l, x) + p]) }
pub open spec fn cdq(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, f: int) -> spec_fn(int) -> Elem { |p: int| e_add(ct1(l, x, g)(f, p), ct2(l, x, gc)(f, p)) }
pub open spec fn at1(t: spec_fn(int, int) -> Elem, f: int) -> spec_fn(int) -> Elem { |p: int| t(f, p) }
/// the gradient of kernel value p of channel c of filter f
pub open spec fn cdk(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, f: int, c: int, p: int) -> Elem {
  e_add(fconv(mapf(x[c]), seqf(at1(ct1(l, x, g), f), ow(l, x)), p / kw(l), p % kw(l), oh(l, x), ow(l, x)),
        fconv(mapf(x[c]), seqf(at1(ct2(l, x, gc), f), ow(l, x)), p / kw(l), p % kw(l), oh(l, x), ow(l, x)))
}
pub open spec fn cdkf(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, f: int) -> spec_fn(int, int) -> Elem { |c: int, p: int| cdk(l, x, g, gc, f, c, p) }
pub open spec fn cdkk(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>) -> spec_fn(int, int) -> Elem { |f: int, r: int| cdk(l, x, g, gc, f, r / (kh(l) * kw(l)), r % (kh(l) * kw(l))) }
/// the gradient of input value p of channel c from filter f alone
pub open spec fn cdx1(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, f: int) -> spec_fn(int, int) -> Elem {
  |c: int, p: int| fconv(padf(seqf(cdq(l, x, g, gc, f), ow(l, x)), oh(l, x), ow(l, x), kh(l) - 1, kw(l) - 1), flipf(at(l.kernels, f, c)), p / x[0].shape[1] as int, p % x[0].shape[1] as int, kh(l), kw(l))
}
/// ... and from the first n filters
pub open spec fn cdx(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, c: int, p: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(cdx(l, x, g, gc, c, p, n - 1), cdx1(l, x, g, gc, n - 1)(c, p)) }
}
pub open spec fn cdxf(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, n: int) -> spec_fn(int, int) -> Elem { |c: int, p: int| cdx(l, x, g, gc, c, p, n) }
pub open spec fn conv_grad(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>) -> bool {
  let (nf, nc) = (l.kernels.shape[0] as int, l.kernels.shape[1] as int);
  by2(o.0@, nf, nc * (kh(l) * kw(l)), cdkk(l, x, g, gc))
    && o.1@.len() == nf && (forall |f: int| 0 <= f < nf ==> #[trigger] o.1@[f] == fsum(cdq(l, x, g, gc, f), cos(l, x)))
    && by2(o.2@, nc, x[0].shape[0] * x[0].shape[1], cdxf(l, x, g, gc, nf))
    && conjs(o.3@, o.2@)
}
pub open spec fn conv_big(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> bool {
  x[0].shape[0] + kh(l) <= usize::MAX && x[0].shape[1] + kw(l) <= usize::MAX && (x[0].shape[0] + kh(l)) * (x[0].shape[1] + kw(l)) <= usize::MAX
    && x[0].shape[0] * x[0].shape[1] * x.len() <= usize::MAX
}

// reduce: the incoming gradient spread over the blocks and interpolated
pub open spec fn rh(l: Reduce<Elem>, x: Seq<Matrix<Elem>>) -> int { x[0].shape[0] as int / l.block_size[0] as int }
pub open spec fn rw(l: Reduce<Elem>, x: Seq<Matrix<Elem>>) -> int { x[0].shape[1] as int / l.block_size[1] as int }
pub open spec fn spreadf(s: spec_fn(int, int) -> Elem, b0: int, b1: int) -> spec_fn(int, int) -> Elem {
  |i: int, j: int| if i % b0 == (b0 - 1) / 2 && j % b1 == (b1 - 1) / 2 { s(i / b0, j / b1) } else { e_zero() }
}
pub open spec fn seqm(s: Seq<Elem>, w: int) -> spec_fn(int, int) -> Elem { |i: int, j: int| s[i * w + j] }
pub open spec fn rdx(l: Reduce<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>) -> spec_fn(int, int) -> Elem {
  |c: int, p: int| fconv(
    padf(spreadf(seqm(g.subrange(c * (rh(l, x) * rw(l, x)), (c + 1) * (rh(l, x) * rw(l, x))), rw(l, x)), l.block_size[0] as int, l.block_size[1] as int), x[0].shape[0] as int, x[0].shape[1] as int, (l.interp_kernel.shape[0] - 1) / 2, (l.interp_kernel.shape[1] - 1) / 2),
    mapf(l.interp_kernel), p / x[0].shape[1] as int, p % x[0].shape[1] as int, l.interp_kernel.shape[0] as int, l.interp_kernel.shape[1] as int)
}
pub open spec fn reduce_grad(l: Reduce<Elem>, x: Seq<Matrix<Elem>>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>) -> bool {
  o.0@.len() == 0 && o.1@.len() == 0
    && by2(o.2@, x.len() as int, x[0].shape[0] * x[0].shape[1], rdx(l, x, g))
    && by2(o.3@, x.len() as int, x[0].shape[0] * x[0].shape[1], rdx(l, x, gc))
}
pub open spec fn reduce_big(l: Reduce<Elem>, x: Seq<Matrix<Elem>>) -> bool {
  x[0].shape[0] + l.interp_kernel.shape[0] <= usize::MAX && x[0].shape[1] + l.interp_kernel.shape[1] <= usize::MAX && (x[0].shape[0] + l.interp_kernel.shape[0]) * (x[0].shape[1] + l.interp_kernel.shape[1]) <= usize::MAX
}

/// what upsampling computes, by position in the body
pub broadcast proof fn bl_up(r: Matrix<Elem>, p: Matrix<Elem>, u: Matrix<Elem>, m: Matrix<Elem>, k: Matrix<Elem>, b0: int, b1: int, z: int)
  requires
    #[trigger] is_conv(r, p, k), #[trigger] is_pad(p, u, (k.shape[0] - 1) / 2, (k.shape[1] - 1) / 2), #[trigger] is_spread(u, m, b0, b1),
    mwf(m), m.shape[0] > 0, m.shape[1] > 0, b0 > 0, b1 > 0, k.shape[0] % 2 == 1, k.shape[1] % 2 == 1, 0 <= z < r.body@.len(),
  ensures
    #[trigger] r.body@[z] == fconv(padf(spreadf(seqm(m.body@, m.shape[1] as int), b0, b1), u.shape[0] as int, u.shape[1] as int, (k.shape[0] - 1) / 2, (k.shape[1] - 1) / 2),
      mapf(k), z / r.shape[1] as int, z % r.shape[1] as int, k.shape[0] as int, k.shape[1] as int)
{
  let sp = spreadf(seqm(m.body@, m.shape[1] as int), b0, b1);
  assert(u.shape[0] > 0 && u.shape[1] > 0) by(nonlinear_arith) requires u.shape[0] == m.shape[0] * b0, u.shape[1] == m.shape[1] * b1, m.shape[0] > 0, m.shape[1] > 0, b0 > 0, b1 > 0;
  assert forall |i: int, j: int| 0 <= i < u.shape[0] && 0 <= j < u.shape[1] implies #[trigger] at(u, i, j) == sp(i, j) by {
    lem_reidx(i, m.shape[0] as int, b0);
    lem_reidx(j, m.shape[1] as int, b1);
    assert(at(u, (i / b0) * b0 + i % b0, (j / b1) * b1 + j % b1) == (if i % b0 == (b0 - 1) / 2 && j % b1 == (b1 - 1) / 2 { at(m, i / b0, j / b1) } else { e_zero() }));
  }
  assert(mis(p, padf(sp, u.shape[0] as int, u.shape[1] as int, (k.shape[0] - 1) / 2, (k.shape[1] - 1) / 2)));
  lem_fconv(r, p, k, padf(sp, u.shape[0] as int, u.shape[1] as int, (k.shape[0] - 1) / 2, (k.shape[1] - 1) / 2), mapf(k));
}
/// the number of values the layer puts out for the input
pub open spec fn out_n(l: CLayer<Elem>, x: IOType<Elem>) -> int {
  match l {
    CLayer::Dense(d) => d.weights.shape[0] as int,
    CLayer::Convolutional(c) => c.kernels.shape[0] * cos(c, x->Matrix_0@),
    CLayer::Reduce(r) => r.input_features_len * (rh(r, x->Matrix_0@) * rw(r, x->Matrix_0@)),
    CLayer::Flatten(f) => f.input_size.0[0] * f.input_size.0[1] * f.input_size.1,
  }
}
/// an input the layer accepts, small enough to pad
pub open spec fn grad_in(l: CLayer<Elem>, x: IOType<Elem>) -> bool {
  in_shape(l) == io_shape(x) && fits(l, x) && match l {
    CLayer::Convolutional(c) => conv_big(c, x->Matrix_0@),
    CLayer::Reduce(r) => reduce_big(r, x->Matrix_0@),
    _ => true,
  }
}
pub open spec fn is_grad(l: CLayer<Elem>, x: IOType<Elem>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>) -> bool {
  match l {
    CLayer::Dense(d) => dense_grad(d, x->Scalar_0@, g, gc, o),
    CLayer::Convolutional(c) => conv_grad(c, x->Matrix_0@, g, gc, o),
    CLayer::Reduce(r) => reduce_grad(r, x->Matrix_0@, g, gc, o),
    CLayer::Flatten(f) => false,
  }
}
/// b is a with the conjugate of g taken away
pub open spec fn stepped(a: Seq<Elem>, b: Seq<Elem>, g: Seq<Elem>) -> bool {
  a.len() == b.len() && a.len() == g.len() && forall |z: int| 0 <= z < a.len() ==> #[trigger] b[z] == e_sub(a[z], e_conj(g[z]))
}
pub open spec fn dense_adj(a: DenseCLayer<Elem>, b: DenseCLayer<Elem>, dw: Seq<Elem>, db: Seq<Elem>) -> bool {
  b.weights.shape == a.weights.shape && b.weights.capacity == a.weights.capacity && b.func == a.func && stepped(a.weights.body@, b.weights.body@, dw) && stepped(a.biases@, b.biases@, db)
}
pub open spec fn kern_adj(a: Matrix<Elem>, b: Matrix<Elem>, dw: Seq<Elem>) -> bool {
  b.shape == a.shape && b.capacity == a.capacity && stepped(a.body@, b.body@, dw)
}
pub open spec fn conv_adj(a: ConvCLayer<Elem>, b: ConvCLayer<Elem>, dw: Seq<Elem>, db: Seq<Elem>) -> bool {
  let s = kh(a) * kw(a);
  b.kernels.shape == a.kernels.shape && b.kernels.capacity == a.kernels.capacity && b.func == a.func && b.input_features_len == a.input_features_len
    && b.kernels.body@.len() == a.kernels.body@.len() && dw.len() == a.kernels.body@.len() * s
    && (forall |k: int| 0 <= k < a.kernels.body@.len() ==> kern_adj(a.kernels.body@[k], #[trigger] b.kernels.body@[k], dw.subrange(k * s, (k + 1) * s)))
    && stepped(a.biases@, b.biases@, db)
}
/// the layer b is the layer a after the adjustment
pub open spec fn is_adj(a: CLayer<Elem>, b: CLayer<Elem>, dw: Seq<Elem>, db: Seq<Elem>) -> bool {
  match (a, b) {
    (CLayer::Dense(p), CLayer::Dense(q)) => dense_adj(p, q, dw, db),
    (CLayer::Convolutional(p), CLayer::Convolutional(q)) => conv_adj(p, q, dw, db),
    (CLayer::Reduce(p), CLayer::Reduce(q)) => p == q,
    _ => false,
  }
}
pub open spec fn cl_same(a: CLayer<Elem>, b: CLayer<Elem>) -> bool {
  match (a, b) {
    (CLayer::Dense(p), CLayer::Dense(q)) => msame(p.weights, q.weights) && p.biases@ == q.biases@ && p.func == q.func,
    (CLayer::Convolutional(p), CLayer::Convolutional(q)) => msame(p.kernels, q.kernels) && p.biases@ == q.biases@ && p.func == q.func && p.input_features_len == q.input_features_len,
    _ => a == b,
  }
}

@file cvnn/layer/dense.rs mode=elem
@fn DenseCLayer::compute_q
@requires
  dense_wf(*self), input@.len() == self.weights.shape[1],
@ensures
  r@.len() == self.weights.shape[0], forall |i: int| 0 <= i < self.weights.shape[0] ==> #[trigger] r@[i] == dense_q(*self, input@, i),

@fn DenseCLayer::compute_derivatives
@requires
  dense_wf(*self), grad_in(CLayer::Dense(*self), *previous_act),
@ensures
  r is Ok <==> dlda@.len() == self.weights.shape[0] && dlda_conj@.len() == self.weights.shape[0],
  r is Ok ==> is_grad(CLayer::Dense(*self), *previous_act, dlda@, dlda_conj@, r->Ok_0),
@begin
  let ghost x = previous_act->Scalar_0@;
  let ghost (g, gc) = (dlda@, dlda_conj@);
  let ghost c = self.weights.shape[1] as int;
@loop 0
  out_0@.len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == e_mul(e_dact(self.func, dense_q(*self, x, k)), g[k]),
@loop 1
  out_1@.len() == i_1,
  forall |k: int| 0 <= k < i_1 ==> #[trigger] out_1@[k] == e_mul(e_conj(e_dcact(self.func, dense_q(*self, x, k))), gc[k]),
@pre 2
  proof { lem_chunks(self.weights.shape[0] as int, c); assert(0 * c == 0); }
@loop 2
  by2(dldw@, i_2 as int, c, ddw(*self, x, g, gc)),
  dldb@.len() == i_2, forall |k: int| 0 <= k < i_2 ==> #[trigger] dldb@[k] == ddq(*self, x, g, gc, k),
  new_dlda@.len() == c, forall |j: int| 0 <= j < c ==> #[trigger] new_dlda@[j] == ddx(*self, x, g, gc, j, i_2 as int),
@start 2
  let ghost dw0 = dldw@;
  let ghost mut row: Seq<Elem> = Seq::empty();
  proof { lem_row(i_2 as int, self.weights.shape[0] as int, c); }
@loop 3
  out_3@.len() == i_3, forall |j: int| 0 <= j < i_3 ==> #[trigger] out_3@[j] == e_mul(x[j], ddq(*self, x, g, gc, i_2 as int)),
@post 3
  proof { row = out_3@; }
@loop 4
  out_4@.len() == i_4, forall |j: int| 0 <= j < i_4 ==> #[trigger] out_4@[j] == e_mul(at(self.weights, i_2 as int, j), ddq(*self, x, g, gc, i_2 as int)),
@end 2
  proof { lem_cat(dw0, row, i_2 as int, c, ddw(*self, x, g, gc)); }
@loop 5
  out_5@.len() == i_5, forall |j: int| 0 <= j < i_5 ==> #[trigger] out_5@[j] == e_conj(new_dlda@[j]),

@fn DenseCLayer::neg_conj_adjustment
@requires
  dense_wf(*old(self)),
@ensures
  r is Ok <==> dldw@.len() == old(self).weights.body@.len() && dldb@.len() == old(self).biases@.len(),
  r is Ok ==> dense_adj(*old(self), *final(self), dldw@, dldb@),
  r is Err ==> cl_same(CLayer::Dense(*old(self)), CLayer::Dense(*final(self))),
@loop 0
  s_0_0@.len() == old(self).weights.body@.len(),
  forall |k: int| 0 <= k < i_0 ==> #[trigger] s_0_0@[k] == e_sub(old(self).weights.body@[k], e_conj(dldw@[k])),
  forall |k: int| i_0 <= k < s_0_0@.len() ==> #[trigger] s_0_0@[k] == old(self).weights.body@[k],
@loop 1
  s_1_0@.len() == old(self).biases@.len(),
  forall |k: int| 0 <= k < i_1 ==> #[trigger] s_1_0@[k] == e_sub(old(self).biases@[k], e_conj(dldb@[k])),
  forall |k: int| i_1 <= k < s_1_0@.len() ==> #[trigger] s_1_0@[k] == old(self).biases@[k],

@file cvnn/layer/conv.rs mode=elem
@fn ConvCLayer::compute_q
@requires
  conv_wf(*self), conv_in(*self, input@),
@ensures
  by2(r@, self.kernels.shape[0] as int, cos(*self, input@), cq(*self, input@)),
@before let output_features_flat
  let ghost x = input@;
  let ghost (h, w) = (oh(*self, x), ow(*self, x));
  proof {
    lem_kernel(*self, 0, 0);
    assert(kshape(x[0], x[0].shape[0] as int, x[0].shape[1] as int));
    lem_chunks(self.kernels.shape[0] as int, self.kernels.shape[1] as int);
    lem_shrink(x[0].shape[0] as int, x[0].shape[1] as int, h, w);
    assert(0 * cos(*self, x) == 0);
  }
@loop 0
  by2(out_0@, i_0 as int, cos(*self, x), cq(*self, x)),
@start 0
  let ghost mut a1: Matrix<Elem> = arbitrary();
  let ghost o0 = out_0@;
  proof { lem_kernel(*self, i_0 as int, 0); }
@pre 1
  proof { assert forall |i: int, j: int| 0 <= i < h && 0 <= j < w implies #[trigger] at(init_matrix, i, j) == e_zero() by { lem_idx(i, j, h, w); } }
@loop 1
  kshape(acc_1, h, w),
  forall |i: int, j: int| 0 <= i < h && 0 <= j < w ==> #[trigger] at(acc_1, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 as int),
@start 1
  let ghost a0 = acc_1;
  proof { lem_kernel(*self, i_0 as int, i_1 as int); }
@end 1
  proof {
    broadcast use bl_conv;
    assert forall |i: int, j: int| 0 <= i < h && 0 <= j < w implies #[trigger] at(acc_1, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 + 1) by {
      lem_unidx(i, j, w);
      lem_idx(i, j, h, w);
      assert(at(a0, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 as int));
    }
  }
@post 1
  proof { a1 = acc_1; }
@end 0
  proof {
    assert forall |p: int| 0 <= p < cos(*self, x) implies #[trigger] it_0@[p] == cq(*self, x)(i_0 as int, p) by {
      lem_reidx(p, h, w);
      assert(at(a1, p / w, p % w) == conv_ch(*self, x, i_0 as int, p / w, p % w, self.kernels.shape[1] as int));
    }
    lem_cat(o0, it_0@, i_0 as int, cos(*self, x), cq(*self, x));
  }

@fn ConvCLayer::compute_derivatives
@requires
  conv_wf(*self), grad_in(CLayer::Convolutional(*self), *previous_act),
  dlda@.len() == out_n(CLayer::Convolutional(*self), *previous_act), dlda_conj@.len() == out_n(CLayer::Convolutional(*self), *previous_act),
@ensures
  r is Ok, is_grad(CLayer::Convolutional(*self), *previous_act, dlda@, dlda_conj@, r->Ok_0),
@begin
  let ghost x = previous_act->Matrix_0@;
  let ghost (g, gc) = (dlda@, dlda_conj@);
  let ghost (h, w, s) = (oh(*self, x), ow(*self, x), cos(*self, x));
  let ghost (nf, nc) = (self.kernels.shape[0] as int, self.kernels.shape[1] as int);
  let ghost (k0, k1, ks) = (kh(*self), kw(*self), kh(*self) * kw(*self));
  let ghost (i0, i1, is) = (x[0].shape[0] as int, x[0].shape[1] as int, x[0].shape[0] * x[0].shape[1]);
  let ghost t1 = ct1(*self, x, g);
  let ghost t2 = ct2(*self, x, gc);
  proof {
    lem_kernel(*self, 0, 0);
    assert(kshape(x[0], x[0].shape[0] as int, x[0].shape[1] as int));
    lem_chunks(nf, nc);
    lem_shrink(i0, i1, h, w);
    assert(s > 0) by(nonlinear_arith) requires s == h * w, h > 0, w > 0;
    assert(k0 * k1 > 0) by(nonlinear_arith) requires k0 > 0, k1 > 0;
    assert(i0 * i1 > 0) by(nonlinear_arith) requires i0 > 0, i1 > 0;
  }
@loop 0
  out_0@.len() == i_0,
  forall |z: int| 0 <= z < i_0 ==> #[trigger] out_0@[z] == t1(z / s, z % s),
@start 0
  proof { lem_reidx(i_0 as int, nf, s); }
@loop 1
  out_1@.len() == i_1,
  forall |z: int| 0 <= z < i_1 ==> #[trigger] out_1@[z] == t2(z / s, z % s),
@start 1
  proof { lem_reidx(i_1 as int, nf, s); }
@pre 2
  let ghost (full1, full2) = (dlda_dadq@, dlda_conj_da_conj_dq@);
  proof {
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s, nf);
    assert(is * nc == nc * is) by(nonlinear_arith);
    assert(0 * s == 0 && 0 * (nc * ks) == 0);
    assert(full1.subrange(0 * s, full1.len() as int) =~= full1);
    assert(full2.subrange(0 * s, full2.len() as int) =~= full2);
    assert(i0 + k0 - 1 == h + 2 * (k0 - 1) && i1 + k1 - 1 == w + 2 * (k1 - 1));
    lem_shrink(i0 + k0, i1 + k1, i0 + k0 - 1, i1 + k1 - 1);
  }
@loop 2
  dlda_dadq@ == full1.subrange(i_2 * s, full1.len() as int),
  dlda_conj_da_conj_dq@ == full2.subrange(i_2 * s, full2.len() as int),
  by2(dldk@, i_2 as int, nc * ks, cdkk(*self, x, g, gc)),
  dldb@.len() == i_2, forall |f: int| 0 <= f < i_2 ==> #[trigger] dldb@[f] == fsum(cdq(*self, x, g, gc, f), s),
  by2(new_dlda@, nc, is, cdxf(*self, x, g, gc, i_2 as int)),
@start 2
  let ghost f = i_2 as int;
  let ghost dk0 = dldk@;
  let ghost nd0 = new_dlda@;
  let ghost mut row4: Seq<Elem> = Seq::empty();
  let ghost mut row5: Seq<Elem> = Seq::empty();
  proof { lem_piece(full1, nf, s, t1, f); lem_piece(full2, nf, s, t2, f); lem_kernel(*self, f, 0); }
@pre 3
  proof {
    assert(dlda_dadq_feat.body@ =~= full1.subrange(f * s, (f + 1) * s));
    assert(dlda_conj_da_conj_dq_feat.body@ =~= full2.subrange(f * s, (f + 1) * s));
    assert(dlda_dadq@ =~= full1.subrange((f + 1) * s, full1.len() as int));
    assert(dlda_conj_da_conj_dq@ =~= full2.subrange((f + 1) * s, full2.len() as int));
    assert forall |i: int, j: int| 0 <= i < h && 0 <= j < w implies #[trigger] at(dlda_dadq_feat, i, j) == seqf(at1(t1, f), w)(i, j) by { lem_idx(i, j, h, w); }
    assert forall |i: int, j: int| 0 <= i < h && 0 <= j < w implies #[trigger] at(dlda_conj_da_conj_dq_feat, i, j) == seqf(at1(t2, f), w)(i, j) by { lem_idx(i, j, h, w); }
  }
@loop 3
  out_3@.len() == i_3,
  forall |c: int| 0 <= c < i_3 ==> kshape(#[trigger] out_3@[c], k0, k1) && mis(out_3@[c], flipf(at(self.kernels, f, c))),
@start 3
  proof { lem_kernel(*self, f, i_3 as int); }
@pre 4
  let ghost fdq = seqf(cdq(*self, x, g, gc, f), w);
  let ghost fpad = padf(fdq, h, w, k0 - 1, k1 - 1);
  proof {
    assert forall |i: int, j: int| 0 <= i < h && 0 <= j < w implies #[trigger] at(dldq_feat, i, j) == fdq(i, j) by { lem_idx(i, j, h, w); }
    assert(mis(dldq_padded, fpad));
    assert(0 * ks == 0);
  }
@loop 4
  by2(out_4@, i_4 as int, ks, cdkf(*self, x, g, gc, f)),
@start 4
  let ghost o4 = out_4@;
@end 4
  proof {
    broadcast use bl_conv;
    assert forall |p: int| 0 <= p < ks implies #[trigger] it_4@[p] == cdkf(*self, x, g, gc, f)(i_4 as int, p) by {
      lem_reidx(p, k0, k1);
      lem_fwin(x[i_4 as int], dlda_dadq_feat, mapf(x[i_4 as int]), seqf(at1(t1, f), w), p / k1, p % k1, h);
      lem_fwin(x[i_4 as int], dlda_conj_da_conj_dq_feat, mapf(x[i_4 as int]), seqf(at1(t2, f), w), p / k1, p % k1, h);
    }
    lem_cat(o4, it_4@, i_4 as int, ks, cdkf(*self, x, g, gc, f));
  }
@post 4
  proof { row4 = out_4@; }
@pre 5
  let ghost fpad = padf(seqf(cdq(*self, x, g, gc, f), w), h, w, k0 - 1, k1 - 1);
  proof { assert(0 * is == 0); assert(mis(dldq_padded, fpad)); }
@loop 5
  by2(out_5@, i_5 as int, is, cdx1(*self, x, g, gc, f)),
@start 5
  let ghost o5 = out_5@;
@end 5
  proof {
    broadcast use bl_conv;
    assert forall |p: int| 0 <= p < is implies #[trigger] it_5@[p] == cdx1(*self, x, g, gc, f)(i_5 as int, p) by {
      lem_reidx(p, i0, i1);
      lem_fwin(dldq_padded, fliped_filter@[i_5 as int], fpad, flipf(at(self.kernels, f, i_5 as int)), p / i1, p % i1, k0);
    }
    lem_cat(o5, it_5@, i_5 as int, is, cdx1(*self, x, g, gc, f));
  }
@post 5
  proof { row5 = out_5@; }
@pre 6
  proof { assert forall |p: int| 0 <= p < s implies #[trigger] s_6_0.v@[p] == cdq(*self, x, g, gc, f)(p) by { assert(full1.subrange(f * s, (f + 1) * s)[p] == t1(f, p)); assert(full2.subrange(f * s, (f + 1) * s)[p] == t2(f, p)); } }
@loop 6
  1 <= i_6, acc_6 == fsum(cdq(*self, x, g, gc, f), i_6 as int),
@end 2
  proof {
    lem_cat(dk0, row4, f, nc * ks, cdkk(*self, x, g, gc));
    assert forall |z: int| 0 <= z < nc * is implies #[trigger] new_dlda@[z] == cdxf(*self, x, g, gc, f + 1)(z / is, z % is) by { assert(nd0[z] == cdxf(*self, x, g, gc, f)(z / is, z % is)); assert(row5[z] == cdx1(*self, x, g, gc, f)(z / is, z % is)); }
  }
@loop 7
  out_7@.len() == i_7, forall |j: int| 0 <= j < i_7 ==> #[trigger] out_7@[j] == e_conj(new_dlda@[j]),

@fn ConvCLayer::neg_conj_adjustment
@requires
  conv_wf(*old(self)), params_fit(CLayer::Convolutional(*old(self))),
@ensures
  r is Ok <==> dldw@.len() == n_params(CLayer::Convolutional(*old(self))).0 && dldb@.len() == old(self).biases@.len(),
  r is Ok ==> conv_adj(*old(self), *final(self), dldw@, dldb@),
  r is Err ==> cl_same(CLayer::Convolutional(*old(self)), CLayer::Convolutional(*final(self))),
@begin
  let ghost ob = old(self).kernels.body@;
  let ghost (n, s) = (ob.len() as int, kh(*old(self)) * kw(*old(self)));
  proof { lem_flat(ob, n, kh(*old(self)), kw(*old(self))); lem_shrink(kh(*old(self)), kw(*old(self)), 0, 0); assert(0 * s == 0); }
@loop 0
  s_0_0@.len() == n, cnt_0 == i_0 * s,
  forall |k: int| 0 <= k < i_0 ==> kern_adj(ob[k], #[trigger] s_0_0@[k], dldw@.subrange(k * s, (k + 1) * s)),
  forall |k: int| i_0 <= k < n ==> #[trigger] s_0_0@[k] == ob[k],
@start 0
  proof { lem_row(i_0 as int, n, s); assert(kshape(ob[i_0 as int], kh(*old(self)), kw(*old(self)))); }
@loop 1
  cnt_0 == i_0 * s + i_1, s_1_0@.len() == s,
  forall |p: int| 0 <= p < i_1 ==> #[trigger] s_1_0@[p] == e_sub(ob[i_0 as int].body@[p], e_conj(dldw@[i_0 * s + p])),
  forall |p: int| i_1 <= p < s ==> #[trigger] s_1_0@[p] == ob[i_0 as int].body@[p],
@end 0
  proof { assert(kern_adj(ob[i_0 as int], s_0_0@[i_0 as int], dldw@.subrange(i_0 * s, (i_0 + 1) * s))); }
@loop 2
  s_2_0@.len() == old(self).biases@.len(),
  forall |k: int| 0 <= k < i_2 ==> #[trigger] s_2_0@[k] == e_sub(old(self).biases@[k], e_conj(dldb@[k])),
  forall |k: int| i_2 <= k < s_2_0@.len() ==> #[trigger] s_2_0@[k] == old(self).biases@[k],

@file cvnn/layer/reduce.rs mode=elem
@fn Reduce::compute_derivatives
@requires
  reduce_wf(*self), grad_in(CLayer::Reduce(*self), *previous_act),
  dlda@.len() == out_n(CLayer::Reduce(*self), *previous_act), dlda_conj@.len() == out_n(CLayer::Reduce(*self), *previous_act),
@ensures
  r is Ok, is_grad(CLayer::Reduce(*self), *previous_act, dlda@, dlda_conj@, r->Ok_0),
@begin
  let ghost x = previous_act->Matrix_0@;
  let ghost (g, gc) = (dlda@, dlda_conj@);
  let ghost n = x.len() as int;
  let ghost (h, w) = (rh(*self, x), rw(*self, x));
  let ghost s = h * w;
  let ghost (i0, i1, is) = (x[0].shape[0] as int, x[0].shape[1] as int, x[0].shape[0] * x[0].shape[1]);
  proof {
    assert(kshape(x[0], i0, i1));
    lem_divides(i0, self.block_size[0] as int);
    lem_divides(i1, self.block_size[1] as int);
    assert(h > 0) by(nonlinear_arith) requires h * self.block_size[0] == i0, i0 > 0, self.block_size[0] > 0;
    assert(w > 0) by(nonlinear_arith) requires w * self.block_size[1] == i1, i1 > 0, self.block_size[1] > 0;
    assert(s > 0) by(nonlinear_arith) requires s == h * w, h > 0, w > 0;
    lem_shrink(i0, i1, h, w);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s, n);
    lem_chunks(n, s);
    assert(0 * is == 0);
  }
@loop 0
  by2(new_dlda@, i_0 as int, is, rdx(*self, x, g)),
  by2(new_dlda_conj@, i_0 as int, is, rdx(*self, x, gc)),
  dlda_feats.s@ == g, dlda_feats.c == s, dlda_feats.p == i_0,
  dlda_conj_feats.s@ == gc, dlda_conj_feats.c == s, dlda_conj_feats.p == i_0,
@start 0
  let ghost (nd0, ndc0) = (new_dlda@, new_dlda_conj@);
  proof { lem_row(i_0 as int, n, s); assert(kshape(x[i_0 as int], i0, i1)); lem_row(i_0 as int, i_0 + 1, is); }
@loop 1
  out_1@.len() == i_1,
  forall |k: int| 0 <= k < i_1 ==> #[trigger] out_1@[k] == x[0].shape[k] as int / self.block_size[k] as int,
@end 0
  proof {
    broadcast use bl_up;
    let c = i_0 as int;
    let (r1, r2) = (new_dlda@.subrange(c * is, (c + 1) * is), new_dlda_conj@.subrange(c * is, (c + 1) * is));
    assert forall |p: int| 0 <= p < is implies #[trigger] r1[p] == rdx(*self, x, g)(c, p) by { }
    assert forall |p: int| 0 <= p < is implies #[trigger] r2[p] == rdx(*self, x, gc)(c, p) by { }
    assert(new_dlda@ =~= nd0 + r1);
    assert(new_dlda_conj@ =~= ndc0 + r2);
    lem_cat(nd0, r1, c, is, rdx(*self, x, g));
    lem_cat(ndc0, r2, c, is, rdx(*self, x, gc));
  }

@fn Reduce::neg_conj_adjustment
@ensures
  r is Ok, *final(self) == *old(self),

@file cvnn/layer/mod.rs mode=elem
@fn CLayer::compute_derivatives
@requires
  cl_wf(*self), has_grad(*self), grad_in(*self, *previous_act),
  !(*self is Dense) ==> dlda@.len() == out_n(*self, *previous_act) && dlda_conj@.len() == out_n(*self, *previous_act),
@ensures
  r is Ok <==> dlda@.len() == out_n(*self, *previous_act) && dlda_conj@.len() == out_n(*self, *previous_act),
  r is Ok ==> is_grad(*self, *previous_act, dlda@, dlda_conj@, r->Ok_0),

@fn CLayer::neg_conj_adjustment
@requires
  cl_wf(*old(self)), has_grad(*old(self)), params_fit(*old(self)),
@ensures
  (r is Ok) <==> ((*old(self) is Reduce) || (dldw@.len() == n_params(*old(self)).0 && dldb@.len() == n_params(*old(self)).1)),
  r is Ok ==> is_adj(*old(self), *final(self), dldw@, dldb@),
  r is Err ==> cl_same(*old(self), *final(self)),

