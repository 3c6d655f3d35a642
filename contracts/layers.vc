@file err/mod.rs
@item LayerForwardError #[derive(Debug)]
@item LayerInitError #[derive(Debug)]
@item GradientError #[derive(Debug)]
@file cvnn/layer/dense.rs
@item DenseCLayer
@file cvnn/layer/conv.rs
@item ConvCLayer
@file cvnn/layer/reduce.rs
@item Reduce
@file cvnn/layer/flatten.rs
@item Flatten
@file cvnn/layer/mod.rs
@item CLayer
@item ComplexDerivatives
@raw
/// the value, derivative and conjugate derivative of an activation (their formulas are C13)
pub uninterp spec fn e_act(f: ComplexActFunc, x: Elem) -> Elem;
pub uninterp spec fn e_dact(f: ComplexActFunc, x: Elem) -> Elem;
pub uninterp spec fn e_dcact(f: ComplexActFunc, x: Elem) -> Elem;
impl Elem {
  #[verifier::external_body]
  pub fn activate_mut(vals: &mut [Elem], func: &ComplexActFunc)
    ensures final(vals)@.len() == old(vals)@.len(), forall |k: int| 0 <= k < old(vals)@.len() ==> #[trigger] final(vals)@[k] == e_act(*func, old(vals)@[k])
  { unimplemented!() }
  #[verifier::external_body]
  pub fn d_activate(&self, func: &ComplexActFunc) -> (r: Elem) ensures r == e_dact(*func, *self) { unimplemented!() }
  #[verifier::external_body]
  pub fn d_conj_activate(&self, func: &ComplexActFunc) -> (r: Elem) ensures r == e_dcact(*func, *self) { unimplemented!() }
}

impl<T: Copy> Clone for Matrix<T> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r.body@ == self.body@, r.shape == self.shape, r.capacity == self.capacity { unimplemented!() }
}

// ---------------------------------------------------------------- what the layers compute
pub open spec fn dense_wf(l: DenseCLayer<Elem>) -> bool {
  mwf(l.weights) && l.weights.shape[0] > 0 && l.weights.shape[1] > 0 && l.biases.len() == l.weights.shape[0]
}
/// the pre-activation of unit i
pub open spec fn dense_q(l: DenseCLayer<Elem>, x: Seq<Elem>, i: int) -> Elem { e_add(dot(row_of(l.weights, i), x, l.weights.shape[1] as int), l.biases@[i]) }
pub open spec fn dense_fwd(l: DenseCLayer<Elem>, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  x is Scalar && x->Scalar_0@.len() == l.weights.shape[1] && y is Scalar && y->Scalar_0@.len() == l.weights.shape[0]
    && forall |i: int| 0 <= i < l.weights.shape[0] ==> #[trigger] y->Scalar_0@[i] == e_act(l.func, dense_q(l, x->Scalar_0@, i))
}
pub open spec fn kshape(m: Matrix<Elem>, h: int, w: int) -> bool { mwf(m) && m.shape[0] == h && m.shape[1] == w }
/// height and width of the kernels
pub open spec fn kh(l: ConvCLayer<Elem>) -> int { l.kernels.body@[0].shape[0] as int }
pub open spec fn kw(l: ConvCLayer<Elem>) -> int { l.kernels.body@[0].shape[1] as int }
pub open spec fn conv_wf(l: ConvCLayer<Elem>) -> bool {
  mwf(l.kernels) && l.kernels.shape[0] > 0 && l.kernels.shape[1] > 0 && l.biases.len() == l.kernels.shape[0] && l.input_features_len == l.kernels.shape[1]
    && kh(l) > 0 && kw(l) > 0 && forall |k: int| 0 <= k < l.kernels.body@.len() ==> kshape(#[trigger] l.kernels.body@[k], kh(l), kw(l))
}
/// maps of equal size
pub open spec fn maps(x: Seq<Matrix<Elem>>) -> bool {
  x.len() > 0 && forall |k: int| 0 <= k < x.len() ==> kshape(#[trigger] x[k], x[0].shape[0] as int, x[0].shape[1] as int)
}
pub open spec fn conv_in(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> bool {
  maps(x) && x.len() == l.kernels.shape[1] && kh(l) <= x[0].shape[0] && kw(l) <= x[0].shape[1]
}
/// the sum over the first n channels of the convolution with filter f, at (i, j)
pub open spec fn conv_ch(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, f: int, i: int, j: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(conv_ch(l, x, f, i, j, n - 1), conv_at(x[n - 1], at(l.kernels, f, n - 1), i, j)) }
}
pub open spec fn conv_q(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, f: int, i: int, j: int) -> Elem { e_add(conv_ch(l, x, f, i, j, l.kernels.shape[1] as int), l.biases@[f]) }
/// height and width of the output maps
pub open spec fn oh(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> int { x[0].shape[0] - kh(l) + 1 }
pub open spec fn ow(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>) -> int { x[0].shape[1] - kw(l) + 1 }
pub open spec fn conv_map(l: ConvCLayer<Elem>, x: Seq<Matrix<Elem>>, f: int, m: Matrix<Elem>) -> bool {
  kshape(m, oh(l, x), ow(l, x)) && forall |i: int, j: int| 0 <= i < oh(l, x) && 0 <= j < ow(l, x) ==> #[trigger] at(m, i, j) == e_act(l.func, conv_q(l, x, f, i, j))
}
pub open spec fn conv_fwd(l: ConvCLayer<Elem>, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  x is Matrix && x->Matrix_0@.len() == l.kernels.shape[1] && y is Matrix && y->Matrix_0@.len() == l.kernels.shape[0]
    && forall |f: int| 0 <= f < l.kernels.shape[0] ==> conv_map(l, x->Matrix_0@, f, #[trigger] y->Matrix_0@[f])
}
pub open spec fn reduce_wf(l: Reduce<Elem>) -> bool {
  l.block_size[0] > 0 && l.block_size[1] > 0 && l.input_features_len > 0
    && mwf(l.interp_kernel) && l.interp_kernel.shape[0] % 2 == 1 && l.interp_kernel.shape[1] % 2 == 1
}
pub open spec fn reduce_in(l: Reduce<Elem>, x: Seq<Matrix<Elem>>) -> bool {
  maps(x) && x[0].shape[0] > 0 && x[0].shape[1] > 0 && x[0].shape[0] % l.block_size[0] == 0 && x[0].shape[1] % l.block_size[1] == 0
}
pub open spec fn reduce_fwd(l: Reduce<Elem>, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  x is Matrix && x->Matrix_0@.len() == l.input_features_len && y is Matrix && y->Matrix_0@.len() == l.input_features_len
    && forall |k: int| 0 <= k < l.input_features_len ==> is_block_reduce(#[trigger] y->Matrix_0@[k], x->Matrix_0@[k], l.block_size[0] as int, l.block_size[1] as int, l.block_func)
}
/// the bodies of the first n maps one after the other
pub open spec fn flat(x: Seq<Matrix<Elem>>, n: int) -> Seq<Elem>
  decreases n
{
  if n <= 0 { Seq::empty() } else { flat(x, n - 1) + x[n - 1].body@ }
}
pub open spec fn flatten_in(l: Flatten, x: Seq<Matrix<Elem>>) -> bool {
  forall |k: int| 0 <= k < x.len() ==> kshape(#[trigger] x[k], l.input_size.0[0] as int, l.input_size.0[1] as int)
}
pub open spec fn flatten_wf(l: Flatten) -> bool {
  l.input_size.0[0] * l.input_size.0[1] <= usize::MAX && l.input_size.0[0] * l.input_size.0[1] * l.input_size.1 <= usize::MAX
}
pub open spec fn flatten_fwd(l: Flatten, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  x is Matrix && x->Matrix_0@.len() == l.input_size.1 && y is Scalar && y->Scalar_0@ == flat(x->Matrix_0@, l.input_size.1 as int)
}
/// the number of values in the first n matrices
pub open spec fn ksum(x: Seq<Matrix<Elem>>, n: int) -> int
  decreases n
{
  if n <= 0 { 0 } else { ksum(x, n - 1) + x[n - 1].shape[0] * x[n - 1].shape[1] }
}
pub proof fn lem_ksum(x: Seq<Matrix<Elem>>, a: int, b: int)
  requires 0 <= a <= b <= x.len()
  ensures 0 <= ksum(x, a) <= ksum(x, b)
  decreases b
{
  if 0 < a { lem_ksum(x, a - 1, a - 1); assert(0 <= x[a - 1].shape[0] * x[a - 1].shape[1]) by(nonlinear_arith) requires 0 <= x[a - 1].shape[0], 0 <= x[a - 1].shape[1]; }
  if a < b { lem_ksum(x, a, b - 1); assert(0 <= x[b - 1].shape[0] * x[b - 1].shape[1]) by(nonlinear_arith) requires 0 <= x[b - 1].shape[0], 0 <= x[b - 1].shape[1]; }
}
pub proof fn lem_flat(x: Seq<Matrix<Elem>>, n: int, h: int, w: int)
  requires 0 <= n <= x.len(), forall |k: int| 0 <= k < x.len() ==> kshape(#[trigger] x[k], h, w)
  ensures
    flat(x, n).len() == n * (h * w), ksum(x, n) == n * (h * w),
    forall |k: int, p: int| 0 <= k < n && 0 <= p < h * w ==> #[trigger] flat(x, n)[k * (h * w) + p] == x[k].body@[p],
  decreases n
{
  if n > 0 {
    lem_flat(x, n - 1, h, w);
    lem_succ(n - 1, h * w);
    let s = h * w;
    let q = flat(x, n - 1);
    assert(kshape(x[n - 1], h, w));
    assert forall |k: int, p: int| 0 <= k < n && 0 <= p < s implies #[trigger] flat(x, n)[k * s + p] == x[k].body@[p] by {
      if k < n - 1 { lem_idx(k, p, n - 1, s); assert(flat(x, n)[k * s + p] == q[k * s + p]); }
    }
  } else { assert(0 * (h * w) == 0); }
}
/// a wrapped layer
pub open spec fn cl_wf(l: CLayer<Elem>) -> bool {
  match l { CLayer::Dense(d) => dense_wf(d), CLayer::Convolutional(c) => conv_wf(c), CLayer::Reduce(r) => reduce_wf(r), CLayer::Flatten(f) => flatten_wf(f) }
}
/// the input, when it has the kind and number of features the layer asks for, has the map sizes it needs
pub open spec fn fits(l: CLayer<Elem>, x: IOType<Elem>) -> bool {
  x is Matrix ==> match l {
    CLayer::Dense(d) => true,
    CLayer::Convolutional(c) => x->Matrix_0@.len() == c.kernels.shape[1] ==> conv_in(c, x->Matrix_0@),
    CLayer::Reduce(r) => x->Matrix_0@.len() == r.input_features_len ==> reduce_in(r, x->Matrix_0@),
    CLayer::Flatten(f) => x->Matrix_0@.len() == f.input_size.1 ==> flatten_in(f, x->Matrix_0@),
  }
}
pub open spec fn is_fwd(l: CLayer<Elem>, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  match l { CLayer::Dense(d) => dense_fwd(d, x, y), CLayer::Convolutional(c) => conv_fwd(c, x, y), CLayer::Reduce(r) => reduce_fwd(r, x, y), CLayer::Flatten(f) => flatten_fwd(f, x, y) }
}
pub open spec fn in_shape(l: CLayer<Elem>) -> IOShape {
  match l { CLayer::Dense(d) => IOShape::Scalar(d.weights.shape[1]), CLayer::Convolutional(c) => IOShape::Matrix(c.input_features_len), CLayer::Reduce(r) => IOShape::Matrix(r.input_features_len), CLayer::Flatten(f) => IOShape::Matrix(f.input_size.1) }
}
pub open spec fn out_shape(l: CLayer<Elem>) -> IOShape {
  match l { CLayer::Dense(d) => IOShape::Scalar(d.biases.len()), CLayer::Convolutional(c) => IOShape::Matrix(c.kernels.shape[0]), CLayer::Reduce(r) => IOShape::Matrix(r.input_features_len), CLayer::Flatten(f) => IOShape::Scalar((f.input_size.0[0] * f.input_size.0[1] * f.input_size.1) as usize) }
}
pub open spec fn out_ok(l: CLayer<Elem>) -> bool { match l { CLayer::Flatten(f) => flatten_wf(f), _ => true } }
pub open spec fn io_shape(x: IOType<Elem>) -> IOShape { match x { IOType::Scalar(v) => IOShape::Scalar(v.len()), IOType::Matrix(m) => IOShape::Matrix(m.len()) } }
/// number of weights and of biases
pub open spec fn n_params(l: CLayer<Elem>) -> (int, int) {
  match l {
    CLayer::Dense(d) => (d.weights.shape[0] * d.weights.shape[1], d.biases@.len() as int),
    CLayer::Convolutional(c) => (ksum(c.kernels.body@, c.kernels.body@.len() as int), c.biases@.len() as int),
    _ => (0, 0),
  }
}
pub open spec fn params_fit(l: CLayer<Elem>) -> bool { n_params(l).0 <= usize::MAX && n_params(l).1 <= usize::MAX }
/// nothing to compute with
pub open spec fn cl_empty(l: CLayer<Elem>) -> bool {
  match l {
    CLayer::Dense(d) => (d.weights.shape[0] == 0 && d.weights.shape[1] == 0) || d.biases@.len() == 0,
    CLayer::Convolutional(c) => c.kernels.shape[0] == 0 && c.kernels.shape[1] == 0,
    _ => false,
  }
}
pub open spec fn has_grad(l: CLayer<Elem>) -> bool { !(l is Flatten) }
pub proof fn lem_kernel(l: ConvCLayer<Elem>, f: int, c: int)
  requires conv_wf(l), 0 <= f < l.kernels.shape[0], 0 <= c < l.kernels.shape[1]
  ensures kshape(at(l.kernels, f, c), kh(l), kw(l)), row_of(l.kernels, f).len() == l.kernels.shape[1], row_of(l.kernels, f)[c] == at(l.kernels, f, c), 0 <= f * l.kernels.shape[1], f * l.kernels.shape[1] + l.kernels.shape[1] <= l.kernels.body@.len()
{
  lem_idx(f, c, l.kernels.shape[0] as int, l.kernels.shape[1] as int);
}
pub proof fn lem_unidx(i: int, j: int, c: int)
  requires 0 <= i, 0 <= j < c
  ensures (i * c + j) / c == i, (i * c + j) % c == j
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * c + j, c, i, j);
}
pub proof fn lem_reidx(p: int, r: int, c: int)
  requires 0 <= p < r * c, 0 < c
  ensures 0 <= p / c < r, 0 <= p % c < c, (p / c) * c + p % c == p
{
  vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, c);
  assert((p / c) * c == c * (p / c)) by(nonlinear_arith);
  assert(0 <= p / c < r) by(nonlinear_arith) requires 0 <= p < r * c, 0 < c, p == c * (p / c) + p % c, 0 <= p % c;
}
/// the values of a convolution by position in the body
pub broadcast proof fn bl_conv(r: Matrix<Elem>, m: Matrix<Elem>, k: Matrix<Elem>, p: int)
  requires #[trigger] is_conv(r, m, k), 0 <= p < r.body@.len(), r.shape[1] > 0
  ensures #[trigger] r.body@[p] == conv_at(m, k, p / r.shape[1] as int, p % r.shape[1] as int)
{
  lem_reidx(p, r.shape[0] as int, r.shape[1] as int);
  assert(r.body@[p] == at(r, p / r.shape[1] as int, p % r.shape[1] as int));
}
pub proof fn lem_shrink(a: int, b: int, a2: int, b2: int)
  requires 0 <= a2 <= a, 0 <= b2 <= b
  ensures 0 <= a2 * b2 <= a * b
{
  assert(0 <= a2 * b2 <= a * b) by(nonlinear_arith) requires 0 <= a2 <= a, 0 <= b2 <= b;
}

@file cvnn/layer/dense.rs mode=elem
@fn DenseCLayer::is_empty
@ensures
  r == cl_empty(CLayer::Dense(*self)),

@fn DenseCLayer::propagates
@ensures
  r == has_grad(CLayer::Dense(*self)),

@fn DenseCLayer::params_len
@requires
  cl_wf(CLayer::Dense(*self)), params_fit(CLayer::Dense(*self)),
@ensures
  r.0 == n_params(CLayer::Dense(*self)).0, r.1 == n_params(CLayer::Dense(*self)).1,

@fn DenseCLayer::get_input_shape
@ensures
  r == in_shape(CLayer::Dense(*self)),

@fn DenseCLayer::get_output_shape
@requires
  out_ok(CLayer::Dense(*self)),
@ensures
  r == out_shape(CLayer::Dense(*self)),

@fn DenseCLayer::wrap
@ensures
  r == CLayer::<Elem>::Dense(self),

@fn DenseCLayer::forward
@requires
  cl_wf(CLayer::Dense(*self)), fits(CLayer::Dense(*self), *input_type),
@ensures
  r is Ok <==> in_shape(CLayer::Dense(*self)) == io_shape(*input_type),
  r is Ok ==> is_fwd(CLayer::Dense(*self), *input_type, r->Ok_0) && io_shape(r->Ok_0) == out_shape(CLayer::Dense(*self)),

@file cvnn/layer/conv.rs mode=elem
@fn ConvCLayer::is_empty
@ensures
  r == cl_empty(CLayer::Convolutional(*self)),

@fn ConvCLayer::propagates
@ensures
  r == has_grad(CLayer::Convolutional(*self)),

@fn ConvCLayer::params_len
@requires
  cl_wf(CLayer::Convolutional(*self)), params_fit(CLayer::Convolutional(*self)),
@ensures
  r.0 == n_params(CLayer::Convolutional(*self)).0, r.1 == n_params(CLayer::Convolutional(*self)).1,
@loop 0
  kernel_params == ksum(self.kernels.body@, i_0 as int),
@start 0
  proof { lem_ksum(self.kernels.body@, i_0 + 1, self.kernels.body@.len() as int); lem_ksum(self.kernels.body@, 0, i_0 as int); }

@fn ConvCLayer::get_input_shape
@ensures
  r == in_shape(CLayer::Convolutional(*self)),

@fn ConvCLayer::get_output_shape
@requires
  out_ok(CLayer::Convolutional(*self)),
@ensures
  r == out_shape(CLayer::Convolutional(*self)),

@fn ConvCLayer::wrap
@ensures
  r == CLayer::<Elem>::Convolutional(self),

@fn ConvCLayer::forward
@requires
  cl_wf(CLayer::Convolutional(*self)), fits(CLayer::Convolutional(*self), *input_type),
@ensures
  r is Ok <==> in_shape(CLayer::Convolutional(*self)) == io_shape(*input_type),
  r is Ok ==> is_fwd(CLayer::Convolutional(*self), *input_type, r->Ok_0) && io_shape(r->Ok_0) == out_shape(CLayer::Convolutional(*self)),
@before let output_features
  let ghost x = input@;
  proof {
    lem_kernel(*self, 0, 0);
    assert(kshape(x[0], x[0].shape[0] as int, x[0].shape[1] as int));
    lem_chunks(self.kernels.shape[0] as int, self.kernels.shape[1] as int);
    lem_shrink(x[0].shape[0] as int, x[0].shape[1] as int, oh(*self, x), ow(*self, x));
  }
@loop 0
  out_0@.len() == i_0,
  forall |f: int| 0 <= f < i_0 ==> conv_map(*self, x, f, #[trigger] out_0@[f]),
@start 0
  let ghost mut a1: Matrix<Elem> = arbitrary();
  proof { lem_kernel(*self, i_0 as int, 0); }
@loop 1
  kshape(acc_1, oh(*self, x), ow(*self, x)),
  forall |i: int, j: int| 0 <= i < oh(*self, x) && 0 <= j < ow(*self, x) ==> #[trigger] at(acc_1, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 as int),
@pre 1
  proof { assert forall |i: int, j: int| 0 <= i < oh(*self, x) && 0 <= j < ow(*self, x) implies #[trigger] at(init_matrix, i, j) == e_zero() by { lem_idx(i, j, oh(*self, x), ow(*self, x)); } }
@start 1
  let ghost a0 = acc_1;
  proof { lem_kernel(*self, i_0 as int, i_1 as int); }
@end 1
  proof {
    broadcast use bl_conv;
    assert forall |i: int, j: int| 0 <= i < oh(*self, x) && 0 <= j < ow(*self, x) implies #[trigger] at(acc_1, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 + 1) by {
      lem_unidx(i, j, ow(*self, x));
      lem_idx(i, j, oh(*self, x), ow(*self, x));
      assert(at(a0, i, j) == conv_ch(*self, x, i_0 as int, i, j, i_1 as int));
    }
  }
@post 1
  proof { a1 = acc_1; }
@end 0
  proof {
    assert forall |i: int, j: int| 0 <= i < oh(*self, x) && 0 <= j < ow(*self, x) implies #[trigger] at(it_0, i, j) == e_act(self.func, conv_q(*self, x, i_0 as int, i, j)) by {
      lem_idx(i, j, oh(*self, x), ow(*self, x));
      assert(at(a1, i, j) == conv_ch(*self, x, i_0 as int, i, j, self.kernels.shape[1] as int));
    }
  }

@file cvnn/layer/reduce.rs mode=elem
@fn Reduce::is_empty
@ensures
  r == cl_empty(CLayer::Reduce(*self)),

@fn Reduce::propagates
@ensures
  r == has_grad(CLayer::Reduce(*self)),

@fn Reduce::params_len
@requires
  cl_wf(CLayer::Reduce(*self)), params_fit(CLayer::Reduce(*self)),
@ensures
  r.0 == n_params(CLayer::Reduce(*self)).0, r.1 == n_params(CLayer::Reduce(*self)).1,

@fn Reduce::get_input_shape
@ensures
  r == in_shape(CLayer::Reduce(*self)),

@fn Reduce::get_output_shape
@requires
  out_ok(CLayer::Reduce(*self)),
@ensures
  r == out_shape(CLayer::Reduce(*self)),

@fn Reduce::wrap
@ensures
  r == CLayer::<Elem>::Reduce(self),

@fn Reduce::foward
@requires
  cl_wf(CLayer::Reduce(*self)), fits(CLayer::Reduce(*self), *input_type),
@ensures
  r is Ok <==> in_shape(CLayer::Reduce(*self)) == io_shape(*input_type),
  r is Ok ==> is_fwd(CLayer::Reduce(*self), *input_type, r->Ok_0) && io_shape(r->Ok_0) == out_shape(CLayer::Reduce(*self)),
@loop 0
  new_features@.len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> is_block_reduce(#[trigger] new_features@[k], features@[k], self.block_size[0] as int, self.block_size[1] as int, self.block_func),

@file cvnn/layer/flatten.rs mode=elem
@fn Flatten::is_empty
@ensures
  r == cl_empty(CLayer::Flatten(*self)),

@fn Flatten::propagates
@ensures
  r == has_grad(CLayer::Flatten(*self)),

@fn Flatten::get_input_shape
@ensures
  r == in_shape(CLayer::Flatten(*self)),

@fn Flatten::get_output_shape
@requires
  out_ok(CLayer::Flatten(*self)),
@ensures
  r == out_shape(CLayer::Flatten(*self)),

@fn Flatten::wrap
@ensures
  r == CLayer::<Elem>::Flatten(self),

@fn Flatten::foward
@requires
  cl_wf(CLayer::Flatten(*self)), fits(CLayer::Flatten(*self), *input_type),
@ensures
  r is Ok <==> in_shape(CLayer::Flatten(*self)) == io_shape(*input_type),
  r is Ok ==> is_fwd(CLayer::Flatten(*self), *input_type, r->Ok_0) && io_shape(r->Ok_0) == out_shape(CLayer::Flatten(*self)),
@loop 0
  out_0@ == flat(features@, i_0 as int),
@post 0
  proof { lem_flat(features@, features@.len() as int, self.input_size.0[0] as int, self.input_size.0[1] as int); }

@file cvnn/layer/mod.rs mode=elem
@fn CLayer::is_empty
@ensures
  r == cl_empty(*self),

@fn CLayer::propagates
@ensures
  r == has_grad(*self),

@fn CLayer::get_input_shape
@ensures
  r == in_shape(*self),

@fn CLayer::get_output_shape
@requires
  out_ok(*self),
@ensures
  r == out_shape(*self),

@fn CLayer::params_len
@requires
  cl_wf(*self), params_fit(*self),
@ensures
  r.0 == n_params(*self).0, r.1 == n_params(*self).1,

@fn CLayer::foward
@requires
  cl_wf(*self), fits(*self, *input_type),
@ensures
  r is Ok <==> in_shape(*self) == io_shape(*input_type),
  r is Ok ==> is_fwd(*self, *input_type, r->Ok_0) && io_shape(r->Ok_0) == out_shape(*self),

