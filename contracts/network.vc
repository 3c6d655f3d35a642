@file err/mod.rs
@item ForwardError #[derive(Debug)]
@item LayerAdditionError #[derive(Debug)]
@file cvnn/network/mod.rs
@item CNetwork
@raw
// ---------------------------------------------------------------- building (C09)
/// every layer takes what the one before it puts out
pub open spec fn linked(s: Seq<CLayer<Elem>>) -> bool { forall |k: int| 0 < k < s.len() ==> in_shape(#[trigger] s[k]) == out_shape(s[k - 1]) }
pub open spec fn outs_ok(s: Seq<CLayer<Elem>>) -> bool { forall |k: int| 0 <= k < s.len() ==> out_ok(#[trigger] s[k]) }
pub open spec fn layers_wf(s: Seq<CLayer<Elem>>) -> bool { forall |k: int| 0 <= k < s.len() ==> cl_wf(#[trigger] s[k]) && params_fit(s[k]) }
/// the number of parameters of the first n layers
pub open spec fn psum(s: Seq<CLayer<Elem>>, n: int) -> int
  decreases n
{
  if n <= 0 { 0 } else { psum(s, n - 1) + n_params(s[n - 1]).0 + n_params(s[n - 1]).1 }
}
pub proof fn lem_nparams(l: CLayer<Elem>)
  ensures 0 <= n_params(l).0, 0 <= n_params(l).1
{
  match l {
    CLayer::Dense(d) => { lem_shrink(d.weights.shape[0] as int, d.weights.shape[1] as int, 0, 0); }
    CLayer::Convolutional(c) => { lem_ksum(c.kernels.body@, 0, c.kernels.body@.len() as int); }
    _ => { }
  }
}
pub proof fn lem_psum(s: Seq<CLayer<Elem>>, a: int, b: int)
  requires 0 <= a <= b <= s.len()
  ensures 0 <= psum(s, a) <= psum(s, b)
  decreases b
{
  if 0 < a { lem_psum(s, a - 1, a - 1); lem_nparams(s[a - 1]); }
  if a < b { lem_psum(s, a, b - 1); lem_nparams(s[b - 1]); }
}
// ---------------------------------------------------------------- inference (C10)
/// each value of the sequence is the output of its layer on the value before
pub open spec fn is_chain(l: Seq<CLayer<Elem>>, s: Seq<IOType<Elem>>) -> bool {
  1 <= s.len() <= l.len() + 1 && forall |k: int| 0 <= k < s.len() - 1 ==> is_fwd(l[k], s[k], #[trigger] s[k + 1])
}
/// the input is one the network can take: whatever reaches a layer has the kind and sizes the layer needs
pub open spec fn runs(l: Seq<CLayer<Elem>>, x: IOType<Elem>) -> bool {
  forall |s: Seq<IOType<Elem>>| #[trigger] is_chain(l, s) && s[0] == x && s.len() <= l.len() ==> in_shape(l[s.len() - 1]) == io_shape(s[s.len() - 1]) && fits(l[s.len() - 1], s[s.len() - 1])
}
pub proof fn lem_chain(l: Seq<CLayer<Elem>>, s: Seq<IOType<Elem>>, y: IOType<Elem>)
  requires is_chain(l, s), s.len() <= l.len(), is_fwd(l[s.len() - 1], s[s.len() - 1], y)
  ensures is_chain(l, s.push(y)), s.push(y)[0] == s[0], s.push(y).len() == s.len() + 1, s.push(y)[s.len() as int] == y
{
  let t = s.push(y);
  assert forall |k: int| 0 <= k < t.len() - 1 implies is_fwd(l[k], t[k], #[trigger] t[k + 1]) by { if k < s.len() - 1 { assert(t[k + 1] == s[k + 1]); } }
}

@file cvnn/network/mod.rs mode=elem
@fn CNetwork::new
@ensures
  r.layers@.len() == 0,

@fn CNetwork::params_len
@requires
  layers_wf(self.layers@), psum(self.layers@, self.layers@.len() as int) <= usize::MAX,
@ensures
  r == psum(self.layers@, self.layers@.len() as int),
@loop 0
  len == psum(self.layers@, i_0 as int),
@start 0
  proof { lem_psum(self.layers@, i_0 + 1, self.layers@.len() as int); lem_psum(self.layers@, 0, i_0 as int); lem_nparams(self.layers@[i_0 as int]); }

@fn CNetwork::get_input_shape
@ensures
  r is Err <==> self.layers@.len() == 0,
  r is Err ==> r->Err_0 is MissingInput,
  r is Ok ==> r->Ok_0 == in_shape(self.layers@[0]),

@fn CNetwork::get_output_shape
@requires
  outs_ok(self.layers@),
@ensures
  r is Err <==> self.layers@.len() == 0,
  r is Err ==> r->Err_0 is MissingInput,
  r is Ok ==> r->Ok_0 == out_shape(self.layers@[self.layers@.len() - 1]),

@fn CNetwork::add_input
@ensures
  r is Ok <==> old(self).layers@.len() == 0 && !cl_empty(layer),
  r is Ok ==> final(self).layers@ =~= seq![layer] && linked(final(self).layers@),
  match r {
    Ok(_) => true,
    Err(e) => final(self).layers@ == old(self).layers@ && match e { LayerAdditionError::ExistentInput => old(self).layers@.len() > 0, LayerAdditionError::MissingInitialization => cl_empty(layer), _ => false },
  },

@fn CNetwork::add
@requires
  outs_ok(old(self).layers@), linked(old(self).layers@),
@ensures
  r is Ok <==> old(self).layers@.len() > 0 && !cl_empty(layer) && out_shape(old(self).layers@[old(self).layers@.len() - 1]) == in_shape(layer),
  r is Ok ==> final(self).layers@ == old(self).layers@.push(layer) && linked(final(self).layers@),
  match r {
    Ok(_) => true,
    Err(e) => final(self).layers@ == old(self).layers@ && match e { LayerAdditionError::MissingInput => old(self).layers@.len() == 0, LayerAdditionError::MissingInitialization => cl_empty(layer), LayerAdditionError::IncompatibleIO => old(self).layers@.len() > 0 && out_shape(old(self).layers@[old(self).layers@.len() - 1]) != in_shape(layer), _ => false },
  },

@fn CNetwork::forward
@requires
  layers_wf(self.layers@), runs(self.layers@, *input_type),
@ensures
  r is Ok <==> self.layers@.len() > 0,
  r is Err ==> r->Err_0 is MissingLayers,
  r is Ok ==> exists |s: Seq<IOType<Elem>>| #[trigger] is_chain(self.layers@, s) && s.len() == self.layers@.len() + 1 && s[0] == *input_type && s[s.len() - 1] == r->Ok_0,
@begin
  let ghost mut s: Seq<IOType<Elem>> = seq![*input_type];
  proof { assert(is_chain(self.layers@, s)); }
@before if layers_len > 1
  proof { lem_chain(self.layers@, s, output); s = s.push(output); }
@loop 0
  is_chain(self.layers@, s), s.len() == i_0 + 2, s[0] == *input_type, s[s.len() - 1] == acc_0,
@end 0
  proof { lem_chain(self.layers@, s, acc_0); s = s.push(acc_0); }

@fn CNetwork::intercept
@unreachable post 0
@unreachable tail
@requires
  layers_wf(self.layers@), runs(self.layers@, input_type),
@ensures
  r is Ok <==> index < self.layers@.len(),
  r is Err ==> r->Err_0 is InvalidLayerIndex,
  r is Ok ==> *r->Ok_0.1 == self.layers@[index as int],
  r is Ok ==> exists |s: Seq<IOType<Elem>>| #[trigger] is_chain(self.layers@, s) && s.len() == index + 1 && s[0] == input_type && s[s.len() - 1] == r->Ok_0.0,
@begin
  let ghost x = input_type;
  let ghost mut s: Seq<IOType<Elem>> = seq![x];
  proof { assert(is_chain(self.layers@, s)); }
@loop 0
  i_0 <= index,
  is_chain(self.layers@, s), s.len() == i_0 + 1, s[0] == x, s[s.len() - 1] == previous_act,
@end 0
  proof { lem_chain(self.layers@, s, previous_act); s = s.push(previous_act); }

@fn CNetwork::collect_acts
@requires
  layers_wf(self.layers@), runs(self.layers@, input_type),
@ensures
  r is Ok <==> self.layers@.len() > 0,
  r is Err ==> r->Err_0 is MissingLayers,
  r is Ok ==> is_chain(self.layers@, r->Ok_0@) && r->Ok_0@.len() == self.layers@.len() + 1 && r->Ok_0@[0] == input_type,
@loop 0
  is_chain(self.layers@, outs@), outs@.len() == i_0 + 1, outs@[0] == input_type,
@start 0
  let ghost o0 = outs@;
@end 0
  proof { lem_chain(self.layers@, o0, outs@[i_0 + 1]); assert(outs@ =~= o0.push(outs@[i_0 + 1])); }
