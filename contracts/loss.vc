@raw
// ---------------------------------------------------------------- losses (C12)
/// the sum of |t - p|^2 over the first n components
pub open spec fn sq_sum(t: Seq<Z>, p: Seq<Z>, n: int) -> real
  decreases n
{
  if n <= 0 { 0real } else { sq_sum(t, p, n - 1) + znsq(zsub(t[n - 1], p[n - 1])) }
}
/// the mean-square loss
pub open spec fn mean_sq(t: Seq<Z>, p: Seq<Z>) -> real { rdiv(sq_sum(t, p, p.len() as int), p.len() as real) }
/// the denominator of the softmax of the squared absolute values
pub open spec fn exp_sum(p: Seq<Z>, n: int) -> real
  decreases n
{
  if n <= 0 { 0real } else { exp_sum(p, n - 1) + r_exp(znsq(p[n - 1])) }
}
pub open spec fn softmax(p: Seq<Z>, k: int) -> real { rdiv(r_exp(znsq(p[k])), exp_sum(p, p.len() as int)) }
/// minus the sum of re(t) ln softmax(p) over the first n components
pub open spec fn ce_sum(t: Seq<Z>, p: Seq<Z>, n: int) -> real
  decreases n
{
  if n <= 0 { 0real } else { ce_sum(t, p, n - 1) - t[n - 1].re * r_ln(softmax(p, n - 1)) }
}
pub open spec fn loss_of(f: ComplexLossFunc, t: Seq<Z>, p: Seq<Z>) -> real {
  match f { ComplexLossFunc::MeanSquare => mean_sq(t, p), ComplexLossFunc::NormCrossEntropy => ce_sum(t, p, p.len() as int) }
}
/// the sum of the real parts of the targets
pub open spec fn re_sum(t: Seq<Z>, n: int) -> real
  decreases n
{
  if n <= 0 { 0real } else { re_sum(t, n - 1) + t[n - 1].re }
}
/// the derivative of the mean-square loss, up to the constant factor the code leaves out
pub open spec fn d_sq(t: Seq<Z>, p: Seq<Z>, k: int) -> Z { zconj(zsub(p[k], t[k])) }
/// the derivative of the cross entropy
pub open spec fn d_ce(t: Seq<Z>, p: Seq<Z>, k: int) -> Z {
  let c = softmax(p, k) * re_sum(t, p.len() as int) - t[k].re;
  zc(c * p[k].re, -(c * p[k].im))
}
/// what is handed to back-propagation, component k of it. For the cross entropy the code hands out the
/// derivative of the mean-square loss: known finding, either is let pass
pub open spec fn dloss_ok(f: ComplexLossFunc, t: Seq<Z>, p: Seq<Z>, k: int, r: Z) -> bool {
  match f { ComplexLossFunc::MeanSquare => r == d_sq(t, p, k), ComplexLossFunc::NormCrossEntropy => r == d_sq(t, p, k) || r == d_ce(t, p, k) }
}
pub open spec fn is_dloss(f: ComplexLossFunc, t: Seq<Z>, p: Seq<Z>, r: Seq<Z>) -> bool {
  r.len() == p.len() && forall |k: int| 0 <= k < p.len() ==> dloss_ok(f, t, p, k, #[trigger] r[k])
}
pub proof fn lem_exp_sum(p: Seq<Z>, n: int)
  ensures exp_sum(p, n) >= 0real, n > 0 ==> exp_sum(p, n) > 0real
  decreases n
{
  if n > 0 { lem_exp_sum(p, n - 1); lem_exp_pos(znsq(p[n - 1])); }
}
pub proof fn lem_softmax(p: Seq<Z>, k: int)
  requires 0 <= k < p.len()
  ensures exp_sum(p, p.len() as int) > 0real, softmax(p, k) > 0real
{
  lem_exp_sum(p, p.len() as int);
  lem_exp_pos(znsq(p[k]));
  let (a, b) = (r_exp(znsq(p[k])), exp_sum(p, p.len() as int));
  assert(a / b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real;
}
@for C=Cf32,Cf64 c=cf32,cf64 F=F32,F64 f=f32,f64
@raw
/// the components as pairs of reals
pub open spec fn zs_$c<'a, S: VSrc<It = &'a $C>>(s: S) -> Seq<Z> { Seq::new(s.sn(), |k: int| s.sat(k).z()) }
pub open spec fn zw_$c(v: Vec<$C>) -> Seq<Z> { zv_$c(v@) }
#[verifier::inline]
pub open spec fn cv_$c(v: Vec<$C>) -> Seq<$C> { v@ }
#[verifier::inline]
pub open spec fn fv_$f(v: Vec<$F>) -> Seq<$F> { v@ }
pub broadcast proof fn bl_zs_$c<'a>(i: VIter<'a, $C>)
  requires i.p == 0
  ensures #[trigger] zs_$c(i) == zv_$c(i.s@)
{ assert(zs_$c(i) =~= zv_$c(i.s@)); }
pub open spec fn zv_$c(s: Seq<$C>) -> Seq<Z> { Seq::new(s.len(), |k: int| s[k].z()) }
/// the components of the first n maps, one map after the other
pub open spec fn mcat_$c(s: Seq<Matrix<$C>>, n: int) -> Seq<$C>
  decreases n
{
  if n <= 0 { Seq::empty() } else { mcat_$c(s, n - 1) + s[n - 1].body@ }
}
pub open spec fn zio_$c(x: IOType<$C>) -> Seq<Z> { match x { IOType::Scalar(v) => zv_$c(v@), IOType::Matrix(m) => zv_$c(mcat_$c(m@, m@.len() as int)) } }
/// a vector against a vector, or maps against maps
pub open spec fn alike_$c(a: IOType<$C>, b: IOType<$C>) -> bool { a is Scalar <==> b is Scalar }

@file opt/mod.rs mode=$f
@fn sq_error_$c
@ensures
  r.v() == znsq(zsub(targ.z(), pred.z())),
@begin
  proof { lem_nsq_sym(targ.z(), pred.z()); }

@fn d_sq_error_$c
@ensures
  r.z() == zconj(zsub(pred.z(), targ.z())),

@fn mean_sq_loss_$c
@requires
  targ.sn() == pred.sn(), pred.sn() > 0,
@ensures
  r.v() == mean_sq(zs_$c(targ), zs_$c(pred)),
@loop 0
  acc_0.v() == sq_sum(zs_$c(targ), zs_$c(pred), i_0 as int), len == i_0,

@fn d_mean_sq_loss_$c
@requires
  targ.sn() == pred.sn(),
@ensures
  r@.len() == pred.sn(), forall |k: int| 0 <= k < pred.sn() ==> (#[trigger] zw_$c(r)[k]) == d_sq(zs_$c(targ), zs_$c(pred), k),
@loop 0
  cv_$c(out_0).len() == i_0, forall |k: int| 0 <= k < i_0 ==> (#[trigger] cv_$c(out_0)[k]).z() == d_sq(zs_$c(targ), zs_$c(pred), k),

@fn norm_ce_loss_$c
@requires
  targ.sn() == pred.sn(), pred.sn() > 0,
@ensures
  r.v() == ce_sum(zs_$c(targ), zs_$c(pred), pred.sn() as int),
@loop 0
  fv_$f(out_0).len() == i_0, forall |k: int| 0 <= k < i_0 ==> (#[trigger] fv_$f(out_0)[k]).v() == r_exp(znsq(zs_$c(pred)[k])),
@loop 1
  acc_1.v() == exp_sum(zs_$c(pred), i_1 as int),
@loop 2
  acc_2.v() == ce_sum(zs_$c(targ), zs_$c(pred), i_2 as int),
@start 2
  proof { lem_softmax(zs_$c(pred), i_2 as int); }

@fn d_norm_ce_loss_$c
@requires
  targ.sn() == pred.sn(),
@ensures
  is_dloss(ComplexLossFunc::NormCrossEntropy, zs_$c(targ), zs_$c(pred), zw_$c(r)),

@fn ComplexLossFunc::release_func_$c
@requires
  eta_0.sn() == eta_1.sn(), eta_1.sn() > 0,
@ensures
  r.v() == loss_of(*self, zs_$c(eta_0), zs_$c(eta_1)),

@fn ComplexLossFunc::release_dfunc_$c
@requires
  eta_0.sn() == eta_1.sn(),
@ensures
  is_dloss(*self, zs_$c(eta_0), zs_$c(eta_1), zw_$c(r)),

@fn ComplexLossFunc::compute_$c
@requires
  alike_$c(*target, *prediction) ==> zio_$c(*target).len() == zio_$c(*prediction).len() && zio_$c(*prediction).len() > 0,
@ensures
  r is Ok <==> alike_$c(*target, *prediction),
  r is Ok ==> r->Ok_0.v() == loss_of(*self, zio_$c(*target), zio_$c(*prediction)),
@begin
  proof { broadcast use bl_zs_$c; }
@loop 0
  cv_$c(out_0) == mcat_$c(pred@, i_0 as int),
@loop 1
  cv_$c(out_1) == mcat_$c(targ@, i_1 as int),

@fn ComplexLossFunc::compute_d_$c
@requires
  alike_$c(*target, *prediction) ==> zio_$c(*target).len() == zio_$c(*prediction).len(),
@ensures
  r is Ok <==> alike_$c(*target, *prediction),
  r is Ok ==> is_dloss(*self, zio_$c(*target), zio_$c(*prediction), zw_$c(r->Ok_0)),
@begin
  proof { broadcast use bl_zs_$c; }
@loop 0
  cv_$c(out_0) == mcat_$c(pred@, i_0 as int),
@loop 1
  cv_$c(out_1) == mcat_$c(targ@, i_1 as int),

@file math/mod.rs mode=$f
@fn Complex@$C::loss
@requires
  alike_$c(*target, *prediction) ==> zio_$c(*target).len() == zio_$c(*prediction).len() && zio_$c(*prediction).len() > 0,
@ensures
  r is Ok <==> alike_$c(*target, *prediction),
  r is Ok ==> r->Ok_0.v() == loss_of(*loss_func, zio_$c(*target), zio_$c(*prediction)),

@fn Complex@$C::d_loss
@requires
  alike_$c(*target, *prediction) ==> zio_$c(*target).len() == zio_$c(*prediction).len(),
@ensures
  r is Ok <==> alike_$c(*target, *prediction),
  r is Ok ==> is_dloss(*loss_func, zio_$c(*target), zio_$c(*prediction), zw_$c(r->Ok_0)),
@endfor
