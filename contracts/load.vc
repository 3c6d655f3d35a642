@raw
// ---------------------------------------------------------------- reading files (C17)
#[verifier::inline]
pub open spec fn ew2(v: Vec<Elem>) -> Seq<Elem> { v@ }
/// the number an integer stands for, and one
pub uninterp spec fn e_num(n: usize) -> Elem;
pub uninterp spec fn e_one() -> Elem;
pub open spec fn hot(v: Seq<Elem>, n: int, k: int) -> bool { v.len() == n && forall |j: int| 0 <= j < n ==> #[trigger] v[j] == if j == k { e_one() } else { e_zero() } }
impl Elem {
  #[verifier::external_body]
  pub fn usize_to_real(n: usize) -> (r: Elem) ensures r == e_num(n) { unimplemented!() }
  #[verifier::external_body]
  pub fn usize_to_complex(n: usize) -> (r: Elem) ensures r == e_num(n) { unimplemented!() }
  /// proved for the four number types in pred.vc
  #[verifier::external_body]
  pub fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> (r: Result<Vec<Elem>, PredicionError>)
    ensures r is Ok <==> critical_index < size, r is Ok ==> hot(r->Ok_0@, size as int, critical_index as int)
  { unimplemented!() }
}
/// the input and the target are image and label number k of the files
pub open spec fn is_image(x: IOType<Elem>, d: Seq<u8>, k: int) -> bool {
  x is Matrix && x->Matrix_0@.len() == 1 && kshape(x->Matrix_0@[0], 28, 28)
    && forall |i: int| 0 <= i < 784 ==> #[trigger] x->Matrix_0@[0].body@[i] == e_div(e_num(d[16 + 784 * k + i] as usize), e_num(255))
}
pub open spec fn is_label(x: IOType<Elem>, l: Seq<u8>, k: int) -> bool { x is Scalar && hot(x->Scalar_0@, 10, l[8 + k] as int) }
/// the points are those number k, k + 1, ... of the files
pub open spec fn loaded(b: Dataset<Elem, Elem>, d: Seq<u8>, l: Seq<u8>, k: int) -> bool {
  &&& b.inputs@.len() == b.target@.len()
  &&& forall |j: int| 0 <= j < b.inputs@.len() ==> is_image(#[trigger] b.inputs@[j], d, k + j)
  &&& forall |j: int| 0 <= j < b.target@.len() ==> is_label(#[trigger] b.target@[j], l, k + j)
}
/// headers present, labels of ten classes
pub open spec fn readable(d: File, l: File) -> bool {
  &&& d.bytes().len() >= 16 && 8 <= l.bytes().len() < usize::MAX && 0 <= d.pos() <= d.bytes().len() && 0 <= l.pos() <= l.bytes().len()
  &&& forall |i: int| 8 <= i < l.bytes().len() ==> #[trigger] l.bytes()[i] <= 9
}
/// both files stand before point number t - 8
pub open spec fn in_step(d: File, l: File, t: int) -> bool { l.pos() == t && t >= 8 && d.pos() == 16 + 784 * (t - 8) }
/// one of the files is used up
pub open spec fn used_up(d: File, l: File, t: int) -> bool { l.pos() == t && t >= 8 && (d.pos() == d.bytes().len() || l.pos() == l.bytes().len()) }
pub open spec fn at_start(d: File, l: File, t: int) -> bool { t == 0 && d.pos() == 0 && l.pos() == 0 }
pub open spec fn tracked(d: File, l: File, t: int) -> bool { at_start(d, l, t) || in_step(d, l, t) || used_up(d, l, t) }
pub open spec fn first_point(t: int) -> int { if t == 0 { 0 } else { t - 8 } }
@for n=minist_as_batch,minist_as_complex_batch
@file dataset/mod.rs mode=elem
@fn Dataset::$n
@attr #[verifier::allow_complex_invariants]
@requires
  readable(*data_file, *label_file), tracked(*data_file, *label_file, *tracker as int),
@ensures
  final(data_file).bytes() == old(data_file).bytes(), final(label_file).bytes() == old(label_file).bytes(),
  readable(*final(data_file), *final(label_file)),
  loaded(r, old(data_file).bytes(), old(label_file).bytes(), first_point(*old(tracker) as int)),
  r.inputs@.len() <= batch_size,
  final(label_file).pos() == *final(tracker),
  in_step(*final(data_file), *final(label_file), *final(tracker) as int) && *final(tracker) == 8 + first_point(*old(tracker) as int) + r.inputs@.len()
    || used_up(*final(data_file), *final(label_file), *final(tracker) as int),
  r.inputs@.len() < batch_size ==> *final(tracker) == 60008 || used_up(*final(data_file), *final(label_file), *final(tracker) as int),
@begin
  let ghost (d0, l0, k0) = (data_file.bytes(), label_file.bytes(), first_point(*tracker as int));
@loop 0
  data_file.bytes() == d0, label_file.bytes() == l0, readable(*data_file, *label_file), loaded(data_batch, d0, l0, k0), label_file.pos() == *tracker,
@head 0
  data_batch.inputs@.len() == i_0 && in_step(*data_file, *label_file, *tracker as int) && *tracker == 8 + k0 + i_0
    || data_batch.inputs@.len() == 0 && used_up(*data_file, *label_file, *tracker as int),
@leave 0
  data_batch.inputs@.len() <= n_0,
  in_step(*data_file, *label_file, *tracker as int) && *tracker == 8 + k0 + data_batch.inputs@.len() || used_up(*data_file, *label_file, *tracker as int),
  data_batch.inputs@.len() < n_0 ==> *tracker == 60008 || used_up(*data_file, *label_file, *tracker as int),
@loop 1
  ew2(out_1).len() == i_1, forall |i: int| 0 <= i < i_1 ==> #[trigger] ew2(out_1)[i] == e_div(e_num(image_buffer@[i] as usize), e_num(255)),
@endfor
