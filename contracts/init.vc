@raw
// ---------------------------------------------------------------- drawing the weights of a layer (C15)
/// the number a method draws from a seed, and the seed it leaves behind (bounds and laws of both: draw.vc)
pub uninterp spec fn e_gen(m: InitMethod, s: u128) -> Elem;
pub uninterp spec fn e_seed(m: InitMethod, s: u128) -> u128;
/// methods that divide by their argument need a positive one
pub open spec fn meth_ok(m: InitMethod) -> bool {
  match m {
    InitMethod::Uniform(_) => true,
    InitMethod::XavierGlorotU(n) => n > 0,
    InitMethod::XavierGlorotN(n) => n > 0,
    InitMethod::Xavier(n) => n > 0,
    InitMethod::HeInit(n) => n > 0,
  }
}
impl Elem {
  #[verifier::external_body]
  pub fn gen(seed: &mut u128, scale: usize) -> (r: Elem)
    ensures r == e_gen(InitMethod::Uniform(scale), *old(seed)), *final(seed) == e_seed(InitMethod::Uniform(scale), *old(seed))
  { unimplemented!() }
  #[verifier::external_body]
  pub fn gen_xagu(seed: &mut u128, io_units: usize) -> (r: Elem)
    requires io_units > 0
    ensures r == e_gen(InitMethod::XavierGlorotU(io_units), *old(seed)), *final(seed) == e_seed(InitMethod::XavierGlorotU(io_units), *old(seed))
  { unimplemented!() }
  #[verifier::external_body]
  pub fn gen_xagn(seed: &mut u128, io_units: usize) -> (r: Elem)
    requires io_units > 0
    ensures r == e_gen(InitMethod::XavierGlorotN(io_units), *old(seed)), *final(seed) == e_seed(InitMethod::XavierGlorotN(io_units), *old(seed))
  { unimplemented!() }
  #[verifier::external_body]
  pub fn gen_xa(seed: &mut u128, i_units: usize) -> (r: Elem)
    requires i_units > 0
    ensures r == e_gen(InitMethod::Xavier(i_units), *old(seed)), *final(seed) == e_seed(InitMethod::Xavier(i_units), *old(seed))
  { unimplemented!() }
  #[verifier::external_body]
  pub fn gen_he(seed: &mut u128, i_units: usize) -> (r: Elem)
    requires i_units > 0
    ensures r == e_gen(InitMethod::HeInit(i_units), *old(seed)), *final(seed) == e_seed(InitMethod::HeInit(i_units), *old(seed))
  { unimplemented!() }
}
/// the seed after n draws
pub open spec fn seed_at(m: InitMethod, s: u128, n: int) -> u128
  decreases n
{
  if n <= 0 { s } else { e_seed(m, seed_at(m, s, n - 1)) }
}
/// the numbers are the draws number k, k + 1, ...
pub open spec fn drawn(m: InitMethod, s: u128, k: int, x: Seq<Elem>) -> bool {
  forall |i: int| 0 <= i < x.len() ==> #[trigger] x[i] == e_gen(m, seed_at(m, s, k + i))
}
pub open spec fn kdrawn(m: InitMethod, s: u128, h: int, w: int, x: Seq<Matrix<Elem>>) -> bool {
  forall |k: int| 0 <= k < x.len() ==> kshape(#[trigger] x[k], h, w) && drawn(m, s, k * (h * w), x[k].body@)
}
#[verifier::inline]
pub open spec fn ew(v: Vec<Elem>) -> Seq<Elem> { v@ }
#[verifier::inline]
pub open spec fn kv(v: Vec<Matrix<Elem>>) -> Seq<Matrix<Elem>> { v@ }
pub open spec fn zeros(x: Seq<Elem>) -> bool { forall |i: int| 0 <= i < x.len() ==> #[trigger] x[i] == e_zero() }
pub proof fn lem_steps(a: int, n: int)
  ensures (a + 1) * n == a * n + n, 0 * n == 0, a >= 0 && n >= 0 ==> a * n >= 0
{
  assert((a + 1) * n == a * n + n) by(nonlinear_arith);
  assert(a >= 0 && n >= 0 ==> a * n >= 0) by(nonlinear_arith);
}
pub proof fn lem_steps_to(a: int, b: int, n: int)
  requires 0 <= a <= b, n >= 0
  ensures a * n <= b * n
{
  assert(a * n <= b * n) by(nonlinear_arith) requires 0 <= a <= b, n >= 0;
}
@file init/mod.rs
@fn InitMethod::gen mode=elem
@requires
  meth_ok(*self),
@ensures
  r == e_gen(*self, *old(seed)),
  *final(seed) == e_seed(*self, *old(seed)),
@file cvnn/layer/dense.rs mode=elem
@fn DenseCLayer::init
@requires
  meth_ok(method), units > 0,
  input_shape is Scalar ==> input_shape->Scalar_0 > 0 && units * input_shape->Scalar_0 <= usize::MAX,
@ensures
  r is Ok <==> input_shape is Scalar,
  r is Err ==> r->Err_0 is InvalidInputShape && *final(seed) == *old(seed),
  r is Ok ==> dense_wf(r->Ok_0) && r->Ok_0.weights.shape[0] == units && r->Ok_0.weights.shape[1] == input_shape->Scalar_0 && r->Ok_0.func == func,
  r is Ok ==> zeros(r->Ok_0.biases@) && drawn(method, *old(seed), 0, r->Ok_0.weights.body@),
  r is Ok ==> *final(seed) == seed_at(method, *old(seed), units * input_shape->Scalar_0),
@loop 0
  meth_ok(method),
  ew(body).len() == i_0 * inputs, ew(biases).len() == i_0, zeros(ew(biases)),
  drawn(method, *old(seed), 0, ew(body)), *seed == seed_at(method, *old(seed), ew(body).len() as int),
@loop 1
  ew(body).len() == i_0 * inputs + i_1, ew(biases).len() == i_0, zeros(ew(biases)),
  drawn(method, *old(seed), 0, ew(body)), *seed == seed_at(method, *old(seed), ew(body).len() as int),
@start 0
  proof { lem_steps(i_0 as int, inputs as int); }

@file cvnn/layer/conv.rs mode=elem
@fn ConvCLayer::init
@requires
  meth_ok(kernel_method), filters_len > 0, kernel_size[0] > 0, kernel_size[1] > 0,
  input_shape is Matrix ==> input_shape->Matrix_0 > 0 && filters_len * input_shape->Matrix_0 <= usize::MAX,
  kernel_size[0] * kernel_size[1] <= usize::MAX,
@ensures
  r is Ok <==> input_shape is Matrix,
  r is Err ==> r->Err_0 is InvalidInputShape && *final(seed) == *old(seed),
  r is Ok ==> conv_wf(r->Ok_0) && r->Ok_0.kernels.shape[0] == filters_len && r->Ok_0.kernels.shape[1] == input_shape->Matrix_0 && r->Ok_0.func == func,
  r is Ok ==> kh(r->Ok_0) == kernel_size[0] && kw(r->Ok_0) == kernel_size[1],
  r is Ok ==> zeros(r->Ok_0.biases@) && kdrawn(kernel_method, *old(seed), kernel_size[0] as int, kernel_size[1] as int, r->Ok_0.kernels.body@),
  r is Ok ==> *final(seed) == seed_at(kernel_method, *old(seed), (filters_len * input_shape->Matrix_0) * (kernel_size[0] * kernel_size[1])),
@loop 0
  kv(kernels).len() == i_0 * input_features_len, kdrawn(kernel_method, *old(seed), kernel_size[0] as int, kernel_size[1] as int, kv(kernels)),
  *seed == seed_at(kernel_method, *old(seed), kv(kernels).len() * (kernel_size[0] * kernel_size[1])),
  ew(biases).len() == 0,
@start 0
  proof { lem_steps(i_0 as int, input_features_len as int); }
@loop 1
  kv(kernels).len() == i_0 * input_features_len + i_1, kdrawn(kernel_method, *old(seed), kernel_size[0] as int, kernel_size[1] as int, kv(kernels)),
  *seed == seed_at(kernel_method, *old(seed), kv(kernels).len() * (kernel_size[0] * kernel_size[1])),
@start 1
  let ghost base = kv(kernels).len() * (kernel_size[0] * kernel_size[1]);
  proof { lem_steps(kv(kernels).len() as int, (kernel_size[0] * kernel_size[1]) as int); }
@loop 2
  ew(kernel).len() == i_2 * kernel_size[1], drawn(kernel_method, *old(seed), base, ew(kernel)),
  *seed == seed_at(kernel_method, *old(seed), base + ew(kernel).len()),
@start 2
  proof { lem_steps(i_2 as int, kernel_size[1] as int); }
@loop 3
  ew(kernel).len() == i_2 * kernel_size[1] + i_3, drawn(kernel_method, *old(seed), base, ew(kernel)),
  *seed == seed_at(kernel_method, *old(seed), base + ew(kernel).len()),
@loop 4
  ew(biases).len() == i_4, zeros(ew(biases)),
@post 4
  proof { lem_steps_to(1, filters_len as int, input_features_len as int); assert(kshape(kv(kernels)[0], kernel_size[0] as int, kernel_size[1] as int)); }
