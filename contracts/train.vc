@raw
// ---------------------------------------------------------------- training (C11)
/// the derivative of the loss by the components of the prediction (its formula is C12)
pub uninterp spec fn e_dloss(f: ComplexLossFunc, t: Seq<Elem>, p: Seq<Elem>) -> Seq<Elem>;
/// a number as an element
pub uninterp spec fn e_cplx(n: int) -> Elem;
impl Elem {
  #[verifier::external_body]
  pub fn d_loss(target: &IOType<Elem>, prediction: &IOType<Elem>, func: &ComplexLossFunc) -> (r: Result<Vec<Elem>, LossCalcError>)
    ensures
      r is Ok <==> same_kind(*target, *prediction),
      r is Ok ==> r->Ok_0@ == e_dloss(*func, comps(*target), comps(*prediction)),
      r is Ok && comps(*target).len() == comps(*prediction).len() ==> r->Ok_0@.len() == comps(*prediction).len(),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn usize_to_complex(x: usize) -> (r: Elem) ensures r == e_cplx(x as int) { unimplemented!() }
}
pub proof fn lem_out(l: CLayer<Elem>, x: IOType<Elem>, y: IOType<Elem>)
  requires cl_wf(l), in_shape(l) == io_shape(x), fits(l, x), is_fwd(l, x, y)
  ensures comps(y).len() == out_n(l, x)
{
  match l {
    CLayer::Dense(d) => { }
    CLayer::Convolutional(c) => {
      let (xs, ys) = (x->Matrix_0@, y->Matrix_0@);
      assert forall |k: int| 0 <= k < ys.len() implies kshape(#[trigger] ys[k], oh(c, xs), ow(c, xs)) by { assert(conv_map(c, xs, k, ys[k])); }
      lem_flat(ys, ys.len() as int, oh(c, xs), ow(c, xs));
    }
    CLayer::Reduce(r) => {
      let (xs, ys) = (x->Matrix_0@, y->Matrix_0@);
      let (b0, b1) = (r.block_size[0] as int, r.block_size[1] as int);
      assert forall |k: int| 0 <= k < ys.len() implies kshape(#[trigger] ys[k], rh(r, xs), rw(r, xs)) by {
        assert(is_block_reduce(ys[k], xs[k], b0, b1, r.block_func));
        assert(kshape(xs[k], xs[0].shape[0] as int, xs[0].shape[1] as int));
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(ys[k].shape[0] as int, b0);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(ys[k].shape[1] as int, b1);
      }
      lem_flat(ys, ys.len() as int, rh(r, xs), rw(r, xs));
    }
    CLayer::Flatten(f) => {
      let xs = x->Matrix_0@;
      let s = f.input_size.0[0] * f.input_size.0[1];
      lem_flat(xs, xs.len() as int, f.input_size.0[0] as int, f.input_size.0[1] as int);
      assert(f.input_size.1 * s == s * f.input_size.1) by(nonlinear_arith);
    }
  }
}
pub proof fn lem_in(l: CLayer<Elem>, x: IOType<Elem>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>)
  requires cl_wf(l), grad_in(l, x), is_grad(l, x, g, gc, o)
  ensures o.2@.len() == comps(x).len(), o.3@.len() == comps(x).len(), o.0@.len() == n_params(l).0, o.1@.len() == n_params(l).1
{
  match l {
    CLayer::Dense(d) => { }
    CLayer::Convolutional(c) => {
      let xs = x->Matrix_0@;
      lem_flat(xs, xs.len() as int, xs[0].shape[0] as int, xs[0].shape[1] as int);
      let ks = c.kernels.body@;
      lem_flat(ks, ks.len() as int, kh(c), kw(c));
      let (nf, nc, s) = (c.kernels.shape[0] as int, c.kernels.shape[1] as int, kh(c) * kw(c));
      assert(nf * (nc * s) == (nf * nc) * s) by(nonlinear_arith);
    }
    CLayer::Reduce(r) => {
      let xs = x->Matrix_0@;
      lem_flat(xs, xs.len() as int, xs[0].shape[0] as int, xs[0].shape[1] as int);
    }
    CLayer::Flatten(f) => { }
  }
}
pub broadcast proof fn bl_grad(l: CLayer<Elem>, x: IOType<Elem>, g: Seq<Elem>, gc: Seq<Elem>, o: ComplexDerivatives<Elem>)
  requires cl_wf(l), grad_in(l, x), #[trigger] is_grad(l, x, g, gc, o)
  ensures o.2@.len() == comps(x).len(), o.3@.len() == comps(x).len(), o.0@.len() == n_params(l).0, o.1@.len() == n_params(l).1
{ lem_in(l, x, g, gc, o); }
pub open spec fn vlen(v: Vec<Vec<Elem>>) -> int { v@.len() as int }
/// one point taken forward and back: activations s, gradients d by each activation, and the gradients o of each layer
pub ghost struct Pass { pub s: Seq<IOType<Elem>>, pub d: Seq<(Seq<Elem>, Seq<Elem>)>, pub o: Seq<ComplexDerivatives<Elem>> }
/// the loss derivative taken back through the layers from the last down to layer a
pub open spec fn back_to(l: Seq<CLayer<Elem>>, f: ComplexLossFunc, t: IOType<Elem>, g: Pass, a: int) -> bool {
  let n = l.len() as int;
  g.d.len() == n + 1 && g.o.len() == n
    && g.d[n].0 == e_dloss(f, comps(t), comps(g.s[n])) && conjs(g.d[n].1, g.d[n].0)
    && forall |k: int| a <= k < n ==> if has_grad(#[trigger] l[k]) { is_grad(l[k], g.s[k], g.d[k + 1].0, g.d[k + 1].1, g.o[k]) && g.d[k] == (g.o[k].2@, g.o[k].3@) } else { g.d[k] == g.d[k + 1] }
}
pub open spec fn is_pass(l: Seq<CLayer<Elem>>, f: ComplexLossFunc, x: IOType<Elem>, t: IOType<Elem>, g: Pass) -> bool {
  is_chain(l, g.s) && g.s.len() == l.len() + 1 && g.s[0] == x && back_to(l, f, t, g, 0)
}
/// the gradient of weight z (bias z) of layer k summed over the first n points
pub open spec fn wsum(g: Seq<Pass>, k: int, z: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(wsum(g, k, z, n - 1), g[n - 1].o[k].0@[z]) }
}
pub open spec fn bsum(g: Seq<Pass>, k: int, z: int, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(bsum(g, k, z, n - 1), g[n - 1].o[k].1@[z]) }
}
pub proof fn lem_wsum(g: Seq<Pass>, h: Pass, k: int, z: int, n: int)
  requires 0 <= n <= g.len()
  ensures wsum(g.push(h), k, z, n) == wsum(g, k, z, n), bsum(g.push(h), k, z, n) == bsum(g, k, z, n)
  decreases n
{
  if n > 0 { lem_wsum(g, h, k, z, n - 1); assert(g.push(h)[n - 1] == g[n - 1]); }
}
/// the step taken in layer k: lr / n times the summed gradient
pub open spec fn wstep(l: Seq<CLayer<Elem>>, g: Seq<Pass>, lr: Elem, k: int) -> Seq<Elem> { Seq::new(n_params(l[k]).0 as nat, |z: int| e_mul(wsum(g, k, z, g.len() as int), e_div(lr, e_cplx(g.len() as int)))) }
pub open spec fn bstep(l: Seq<CLayer<Elem>>, g: Seq<Pass>, lr: Elem, k: int) -> Seq<Elem> { Seq::new(n_params(l[k]).1 as nat, |z: int| e_mul(bsum(g, k, z, g.len() as int), e_div(lr, e_cplx(g.len() as int)))) }
pub open spec fn is_step(l: Seq<CLayer<Elem>>, m: Seq<CLayer<Elem>>, g: Seq<Pass>, lr: Elem, k: int) -> bool {
  if has_grad(l[k]) { is_adj(l[k], m[k], wstep(l, g, lr, k), bstep(l, g, lr, k)) } else { m[k] == l[k] }
}
pub open spec fn is_update(l: Seq<CLayer<Elem>>, m: Seq<CLayer<Elem>>, f: ComplexLossFunc, d: Dataset<Elem, Elem>, lr: Elem, g: Seq<Pass>) -> bool {
  g.len() == d.inputs@.len() && m.len() == l.len()
    && (forall |p: int| 0 <= p < g.len() ==> is_pass(l, f, d.inputs@[p], d.target@[p], #[trigger] g[p]))
    && (forall |k: int| 0 <= k < l.len() ==> is_step(l, m, g, lr, k) && #[trigger] l[k] == l[k])
}
/// the point is one the network can be trained on: every layer can take what reaches it, the target has the kind and size of the output
pub open spec fn trains(l: Seq<CLayer<Elem>>, x: IOType<Elem>, t: IOType<Elem>) -> bool {
  forall |s: Seq<IOType<Elem>>| #[trigger] is_chain(l, s) && s[0] == x ==>
    if s.len() <= l.len() { grad_in(l[s.len() - 1], s[s.len() - 1]) } else { same_kind(t, s[s.len() - 1]) && comps(t).len() == comps(s[s.len() - 1]).len() }
}
/// the k-th activation of a chain is one its layer can take
pub proof fn lem_at(l: Seq<CLayer<Elem>>, x: IOType<Elem>, t: IOType<Elem>, s: Seq<IOType<Elem>>, k: int)
  requires trains(l, x, t), is_chain(l, s), s[0] == x, 0 <= k < s.len(), k < l.len()
  ensures grad_in(l[k], s[k])
{
  let q = s.subrange(0, k + 1);
  assert forall |j: int| 0 <= j < q.len() - 1 implies is_fwd(l[j], q[j], #[trigger] q[j + 1]) by { assert(q[j + 1] == s[j + 1]); }
  assert(is_chain(l, q));
}

@file cvnn/network/mod.rs mode=elem
@fn CNetwork::gradient_opt
@requires
  layers_wf(old(self).layers@), psum(old(self).layers@, old(self).layers@.len() as int) <= usize::MAX,
  paired(data), data.inputs@.len() > 0,
  forall |p: int| 0 <= p < data.inputs@.len() ==> trains(old(self).layers@, #[trigger] data.inputs@[p], data.target@[p]),
@ensures
  r is Ok <==> old(self).layers@.len() > 1,
  r is Err ==> r->Err_0 is MissingLayers && *final(self) == *old(self),
  r is Ok ==> exists |g: Seq<Pass>| #[trigger] is_update(old(self).layers@, final(self).layers@, *loss_func, data, lr, g),
@begin
  let ghost ls = old(self).layers@;
  let ghost (xs, ts) = (data.inputs@, data.target@);
  let ghost n = ls.len() as int;
  let ghost mut gs: Seq<Pass> = Seq::empty();
@loop 0
  vlen(dldw_per_layer) == i_0, vlen(dldb_per_layer) == i_0,
  _total_params <= psum(ls, i_0 as int),
  forall |k: int| 0 <= k < i_0 ==> (#[trigger] dldw_per_layer@[k])@ == Seq::new(n_params(ls[k]).0 as nat, |z: int| e_zero()),
  forall |k: int| 0 <= k < i_0 ==> (#[trigger] dldb_per_layer@[k])@ == Seq::new(n_params(ls[k]).1 as nat, |z: int| e_zero()),
@start 0
  proof { lem_psum(ls, i_0 + 1, n); lem_psum(ls, 0, i_0 as int); lem_nparams(ls[i_0 as int]); }
@end 0
  proof {
    if !has_grad(ls[i_0 as int]) {
      assert(dldw_per_layer@[i_0 as int]@ =~= Seq::new(n_params(ls[i_0 as int]).0 as nat, |z: int| e_zero()));
      assert(dldb_per_layer@[i_0 as int]@ =~= Seq::new(n_params(ls[i_0 as int]).1 as nat, |z: int| e_zero()));
    }
  }
@pre 1
  proof { assert forall |k: int| 0 <= k < n implies 0 <= n_params(#[trigger] ls[k]).0 && 0 <= n_params(ls[k]).1 by { lem_nparams(ls[k]); } }
@loop 1
  gs.len() == i_1, dldw_per_layer@.len() == n, dldb_per_layer@.len() == n,
  forall |p: int| 0 <= p < i_1 ==> is_pass(ls, *loss_func, xs[p], ts[p], #[trigger] gs[p]),
  forall |k: int| 0 <= k < n ==> (#[trigger] dldw_per_layer@[k])@.len() == n_params(ls[k]).0 && (has_grad(ls[k]) ==> forall |z: int| 0 <= z < n_params(ls[k]).0 ==> #[trigger] dldw_per_layer@[k]@[z] == wsum(gs, k, z, i_1 as int)),
  forall |k: int| 0 <= k < n ==> (#[trigger] dldb_per_layer@[k])@.len() == n_params(ls[k]).1 && (has_grad(ls[k]) ==> forall |z: int| 0 <= z < n_params(ls[k]).1 ==> #[trigger] dldb_per_layer@[k]@[z] == bsum(gs, k, z, i_1 as int)),
@start 1
  let ghost (w0, b0) = (dldw_per_layer@, dldb_per_layer@);
  let ghost mut g = Pass { s: Seq::empty(), d: Seq::new((n + 1) as nat, |k: int| (Seq::<Elem>::empty(), Seq::<Elem>::empty())), o: Seq::new(n as nat, |k: int| arbitrary::<ComplexDerivatives<Elem>>()) };
  proof { assert(trains(ls, xs[i_1 as int], ts[i_1 as int])); assert(runs(ls, xs[i_1 as int])); }
@before let prediction
  proof { g.s = activations.v@; }
@loop 2
  out_2@.len() == i_2, forall |z: int| 0 <= z < i_2 ==> #[trigger] out_2@[z] == e_conj(dlda@[z]),
@pre 3
  proof {
    g.d = g.d.update(n, (dlda@, dlda_conj@));
    lem_at(ls, xs[i_1 as int], ts[i_1 as int], g.s, n - 1);
    assert(is_fwd(ls[n - 1], g.s[n - 1], g.s[n - 1 + 1]));
    lem_out(ls[n - 1], g.s[n - 1], g.s[n]);
  }
@loop 3
  is_chain(ls, g.s), g.s.len() == n + 1, g.s[0] == xs[i_1 as int],
  back_to(ls, *loss_func, ts[i_1 as int], g, n - i_3),
  g.d[n - i_3] == (dlda@, dlda_conj@),
  dlda@.len() == comps(g.s[n - i_3]).len(), dlda_conj@.len() == comps(g.s[n - i_3]).len(),
  dldw_per_layer@.len() == n, dldb_per_layer@.len() == n,
  forall |k: int| 0 <= k < n ==> (#[trigger] dldw_per_layer@[k])@.len() == n_params(ls[k]).0 && (k < n - i_3 ==> dldw_per_layer@[k] == w0[k]) && (k >= n - i_3 && has_grad(ls[k]) ==> forall |z: int| 0 <= z < n_params(ls[k]).0 ==> #[trigger] dldw_per_layer@[k]@[z] == e_add(w0[k]@[z], g.o[k].0@[z])),
  forall |k: int| 0 <= k < n ==> (#[trigger] dldb_per_layer@[k])@.len() == n_params(ls[k]).1 && (k < n - i_3 ==> dldb_per_layer@[k] == b0[k]) && (k >= n - i_3 && has_grad(ls[k]) ==> forall |z: int| 0 <= z < n_params(ls[k]).1 ==> #[trigger] dldb_per_layer@[k]@[z] == e_add(b0[k]@[z], g.o[k].1@[z])),
@start 3
  let ghost g0 = g;
  let ghost k = n - 1 - i_3;
  proof {
    lem_at(ls, xs[i_1 as int], ts[i_1 as int], g.s, k);
    assert(is_fwd(ls[k], g.s[k], g.s[k + 1]));
    lem_out(ls[k], g.s[k], g.s[k + 1]);
    broadcast use bl_grad;
  }
@end 3
  proof {
    if has_grad(ls[k]) {
      let (ww, bb) = (dldw_per_layer@[k]@, dldb_per_layer@[k]@);
      let o = choose |o: ComplexDerivatives<Elem>| #[trigger] is_grad(ls[k], g.s[k], g.d[k + 1].0, g.d[k + 1].1, o) && o.2@ == dlda@ && o.3@ == dlda_conj@
        && ww.len() == o.0@.len() && bb.len() == o.1@.len()
        && (forall |z: int| 0 <= z < ww.len() ==> #[trigger] ww[z] == e_add(w0[k]@[z], o.0@[z])) && (forall |z: int| 0 <= z < bb.len() ==> #[trigger] bb[z] == e_add(b0[k]@[z], o.1@[z]));
      lem_in(ls[k], g.s[k], g.d[k + 1].0, g.d[k + 1].1, o);
      g.d = g.d.update(k, (dlda@, dlda_conj@));
      g.o = g.o.update(k, o);
    } else { g.d = g.d.update(k, (dlda@, dlda_conj@)); }
    assert forall |j: int| k <= j < n implies if has_grad(#[trigger] ls[j]) { is_grad(ls[j], g.s[j], g.d[j + 1].0, g.d[j + 1].1, g.o[j]) && g.d[j] == (g.o[j].2@, g.o[j].3@) } else { g.d[j] == g.d[j + 1] } by { if j > k { assert(g.d[j] == g0.d[j] && g.d[j + 1] == g0.d[j + 1] && g.o[j] == g0.o[j]); } }
  }
@end 1
  proof {
    let h = gs;
    gs = h.push(g);
    assert forall |k: int, z: int| 0 <= k < n && has_grad(ls[k]) && 0 <= z < n_params(ls[k]).0 implies #[trigger] dldw_per_layer@[k]@[z] == wsum(gs, k, z, i_1 + 1) by { lem_wsum(h, g, k, z, i_1 as int); assert(w0[k]@[z] == wsum(h, k, z, i_1 as int)); }
    assert forall |k: int, z: int| 0 <= k < n && has_grad(ls[k]) && 0 <= z < n_params(ls[k]).1 implies #[trigger] dldb_per_layer@[k]@[z] == bsum(gs, k, z, i_1 + 1) by { lem_wsum(h, g, k, z, i_1 as int); assert(b0[k]@[z] == bsum(h, k, z, i_1 as int)); }
  }
@loop 4
  s_4_3@.len() == n,
  forall |k: int| 0 <= k < i_4 ==> is_step(ls, s_4_3@, gs, lr, k) && #[trigger] s_4_3@[k] == s_4_3@[k],
  forall |k: int| i_4 <= k < n ==> #[trigger] s_4_3@[k] == ls[k],
@start 4
  let ghost m0 = s_4_3@;
@end 4
  proof {
    let k = i_4 as int;
    let m = s_4_3@;
    if has_grad(ls[k]) {
      let (dw, db) = choose |dw: Seq<Elem>, db: Seq<Elem>| #[trigger] is_adj(ls[k], m[k], dw, db) && dw.len() == n_params(ls[k]).0 && db.len() == n_params(ls[k]).1
        && (forall |z: int| 0 <= z < dw.len() ==> #[trigger] dw[z] == e_mul(wsum(gs, k, z, gs.len() as int), scale_param)) && (forall |z: int| 0 <= z < db.len() ==> #[trigger] db[z] == e_mul(bsum(gs, k, z, gs.len() as int), scale_param));
      assert(dw =~= wstep(ls, gs, lr, k));
      assert(db =~= bstep(ls, gs, lr, k));
    }
    assert forall |j: int| 0 <= j <= k implies is_step(ls, m, gs, lr, j) && #[trigger] m[j] == m[j] by { if j < k { assert(m[j] == m0[j]); } }
  }
@post 4
  proof { assert(is_update(ls, self.layers@, *loss_func, data, lr, gs)); }
