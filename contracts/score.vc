@raw
// ---------------------------------------------------------------- scores of a network (C12, C16)
/// a real number of the element's precision
#[verifier::external_body]
pub struct Prec { x: u8 }
pub uninterp spec fn p_add(a: Prec, b: Prec) -> Prec;
pub uninterp spec fn p_div(a: Prec, b: Prec) -> Prec;
/// a number as a real
pub uninterp spec fn p_of(n: int) -> Prec;
impl Clone for Prec { #[verifier::external_body] fn clone(&self) -> (r: Prec) ensures r == *self { unimplemented!() } }
impl Copy for Prec {}
impl vstd::std_specs::ops::AddSpecImpl<Prec> for Prec {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, r: Prec) -> bool { true }
  open spec fn add_spec(self, r: Prec) -> Prec { p_add(self, r) }
}
impl std::ops::Add for Prec { type Output = Prec; #[verifier::external_body] fn add(self, r: Prec) -> Prec { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<Prec> for Prec {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, r: Prec) -> bool { true }
  open spec fn div_spec(self, r: Prec) -> Prec { p_div(self, r) }
}
impl std::ops::Div for Prec { type Output = Prec; #[verifier::external_body] fn div(self, r: Prec) -> Prec { unimplemented!() } }
impl Prec {
  #[verifier::external_body]
  pub fn usize_to_real(n: usize) -> (r: Prec) ensures r == p_of(n as int) { unimplemented!() }
}
/// the loss of a prediction (its formula is C12's contract on Cf32 and Cf64)
pub uninterp spec fn e_loss(f: ComplexLossFunc, t: Seq<Elem>, p: Seq<Elem>) -> Prec;
impl Elem {
  #[verifier::external_body]
  pub fn loss(target: &IOType<Elem>, prediction: &IOType<Elem>, func: &ComplexLossFunc) -> (r: Result<Prec, LossCalcError>)
    requires same_kind(*target, *prediction) ==> comps(*target).len() == comps(*prediction).len() && comps(*prediction).len() > 0
    ensures r is Ok <==> same_kind(*target, *prediction), r is Ok ==> r->Ok_0 == e_loss(*func, comps(*target), comps(*prediction))
  { unimplemented!() }
}
/// elements are ordered by their absolute value (C01), which is zero for zero and never less
pub uninterp spec fn e_abs(a: Elem) -> real;
pub broadcast axiom fn ax_abs(a: Elem) ensures #[trigger] e_abs(a) >= 0real, e_abs(e_zero()) == 0real;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Elem {
  open spec fn obeys_eq_spec() -> bool { false }
  open spec fn eq_spec(&self, r: &Elem) -> bool { arbitrary() }
}
impl PartialEq for Elem { #[verifier::external_body] fn eq(&self, r: &Elem) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Elem {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, r: &Elem) -> Option<core::cmp::Ordering> {
    Some(if e_abs(*self) < e_abs(*r) { core::cmp::Ordering::Less } else if e_abs(*self) > e_abs(*r) { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal })
  }
}
impl PartialOrd for Elem { #[verifier::external_body] fn partial_cmp(&self, r: &Elem) -> Option<core::cmp::Ordering> { unimplemented!() } }

/// the network's prediction on x is y
pub open spec fn is_pred(l: Seq<CLayer<Elem>>, x: IOType<Elem>, y: IOType<Elem>) -> bool {
  exists |s: Seq<IOType<Elem>>| #[trigger] is_chain(l, s) && s.len() == l.len() + 1 && s[0] == x && s[s.len() - 1] == y
}
pub open spec fn are_preds(l: Seq<CLayer<Elem>>, d: Dataset<Elem, Elem>, y: Seq<IOType<Elem>>, n: int) -> bool {
  y.len() == n && forall |k: int| 0 <= k < n ==> is_pred(l, d.inputs@[k], #[trigger] y[k])
}
/// the predictions on the batch can be compared with the targets
pub open spec fn comparable(l: Seq<CLayer<Elem>>, x: IOType<Elem>, t: IOType<Elem>) -> bool {
  runs(l, x) && forall |s: Seq<IOType<Elem>>| #[trigger] is_chain(l, s) && s[0] == x && s.len() == l.len() + 1 ==>
    same_kind(t, s[s.len() - 1]) && comps(t).len() == comps(s[s.len() - 1]).len() && comps(t).len() > 0
}
/// the sum of the losses of the first n points
pub open spec fn loss_sum(f: ComplexLossFunc, t: Seq<IOType<Elem>>, y: Seq<IOType<Elem>>, n: int) -> Prec
  decreases n
{
  let a = e_loss(f, comps(t[n - 1]), comps(y[n - 1]));
  if n <= 1 { a } else { p_add(loss_sum(f, t, y, n - 1), a) }
}
/// the index of the first of the first n elements with the largest absolute value
pub open spec fn first_max(s: Seq<Elem>, n: int) -> int
  decreases n
{
  if n <= 1 { 0 } else { let k = first_max(s, n - 1); if e_abs(s[n - 1]) > e_abs(s[k]) { n - 1 } else { k } }
}
pub proof fn lem_first_max(s: Seq<Elem>, n: int)
  requires 0 < n <= s.len()
  ensures
    0 <= first_max(s, n) < n,
    forall |j: int| 0 <= j < n ==> e_abs(#[trigger] s[j]) <= e_abs(s[first_max(s, n)]),
    forall |j: int| 0 <= j < first_max(s, n) ==> e_abs(#[trigger] s[j]) < e_abs(s[first_max(s, n)]),
  decreases n
{
  if n > 1 { lem_first_max(s, n - 1); }
}
pub open spec fn hit(t: IOType<Elem>, y: IOType<Elem>) -> int { if first_max(comps(t), comps(t).len() as int) == first_max(comps(y), comps(y).len() as int) { 1 } else { 0 } }
/// how many of the first n predictions have their largest component where the target has it
pub open spec fn hits(t: Seq<IOType<Elem>>, y: Seq<IOType<Elem>>, n: int) -> int
  decreases n
{
  if n <= 0 { 0 } else { hits(t, y, n - 1) + hit(t[n - 1], y[n - 1]) }
}
#[verifier::inline]
pub open spec fn uv(v: Vec<usize>) -> Seq<usize> { v@ }
#[verifier::inline]
pub open spec fn pv(v: Vec<Prec>) -> Seq<Prec> { v@ }

@file cvnn/network/mod.rs mode=elem
@fn CNetwork::loss
@requires
  layers_wf(self.layers@), self.layers@.len() > 0, paired(*data), data.inputs@.len() > 0,
  forall |k: int| 0 <= k < data.inputs@.len() ==> comparable(self.layers@, #[trigger] data.inputs@[k], data.target@[k]),
@ensures
  r is Ok,
  exists |y: Seq<IOType<Elem>>| #[trigger] are_preds(self.layers@, *data, y, data.inputs@.len() as int) && r->Ok_0 == p_div(loss_sum(*loss_func, data.target@, y, y.len() as int), p_of(y.len() as int)),
@begin
  let ghost ls = self.layers@;
  let ghost mut ys: Seq<IOType<Elem>> = Seq::empty();
@loop 0
  are_preds(ls, *data, ys, i_0 as int), pv(loss_vals).len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] pv(loss_vals)[k] == e_loss(*loss_func, comps(data.target@[k]), comps(ys[k])),
@start 0
  let ghost y0 = ys;
  proof { assert(comparable(ls, data.inputs@[i_0 as int], data.target@[i_0 as int])); }
@before loss_vals.push
  proof { assert(is_pred(ls, data.inputs@[i_0 as int], prediction)); ys = ys.push(prediction); }
@end 0
  proof {
    assert forall |k: int| 0 <= k < i_0 + 1 implies #[trigger] pv(loss_vals)[k] == e_loss(*loss_func, comps(data.target@[k]), comps(ys[k])) by { if k < i_0 { assert(ys[k] == y0[k]); } }
    assert forall |k: int| 0 <= k < i_0 + 1 implies is_pred(ls, data.inputs@[k], #[trigger] ys[k]) by { if k < i_0 { assert(ys[k] == y0[k]); } }
  }
@loop 1
  acc_1 == loss_sum(*loss_func, data.target@, ys, i_1 as int), i_1 >= 1,

@fn CNetwork::max_pred_test
@requires
  layers_wf(self.layers@), self.layers@.len() > 0, paired(*data), data.inputs@.len() > 0,
  forall |k: int| 0 <= k < data.inputs@.len() ==> comparable(self.layers@, #[trigger] data.inputs@[k], data.target@[k]) && data.target@[k] is Scalar,
@ensures
  exists |y: Seq<IOType<Elem>>| #[trigger] are_preds(self.layers@, *data, y, data.inputs@.len() as int) && r == p_div(p_of(hits(data.target@, y, y.len() as int)), p_of(y.len() as int)),
@begin
  let ghost ls = self.layers@;
  let ghost mut ys: Seq<IOType<Elem>> = Seq::empty();
  proof { broadcast use ax_abs; }
@loop 0
  are_preds(ls, *data, ys, i_0 as int), uv(results).len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] uv(results)[k] == hit(data.target@[k], ys[k]),
@start 0
  let ghost y0 = ys;
  proof { assert(comparable(ls, data.inputs@[i_0 as int], data.target@[i_0 as int])); }
@pre 1
  proof { assert(is_pred(ls, data.inputs@[i_0 as int], prediction)); ys = ys.push(prediction); }
@loop 1
  acc_1.0 == first_max(pred@, i_1 as int), i_1 == 0 ==> acc_1.1 == e_zero(), i_1 > 0 ==> acc_1.0 < i_1 && e_abs(acc_1.1) == e_abs(pred@[acc_1.0 as int]),
@loop 2
  acc_2.0 == first_max(targ@, i_2 as int), i_2 == 0 ==> acc_2.1 == e_zero(), i_2 > 0 ==> acc_2.0 < i_2 && e_abs(acc_2.1) == e_abs(targ@[acc_2.0 as int]),
@end 0
  proof {
    assert forall |k: int| 0 <= k < i_0 + 1 implies #[trigger] uv(results)[k] == hit(data.target@[k], ys[k]) by { if k < i_0 { assert(ys[k] == y0[k]); } }
    assert forall |k: int| 0 <= k < i_0 + 1 implies is_pred(ls, data.inputs@[k], #[trigger] ys[k]) by { if k < i_0 { assert(ys[k] == y0[k]); } }
  }
@loop 3
  acc_3 == hits(data.target@, ys, i_3 as int), acc_3 <= i_3,
