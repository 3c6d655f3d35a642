// ---------------------------------------------------------------- the abstract number type
/// An element: any type with the operations of `Complex + BasicOperations`. The operations
/// are uninterpreted, so what is proved holds whatever they compute.
#[verifier::external_body]
pub struct Elem { x: u8 }
pub uninterp spec fn e_add(a: Elem, b: Elem) -> Elem;
pub uninterp spec fn e_sub(a: Elem, b: Elem) -> Elem;
pub uninterp spec fn e_mul(a: Elem, b: Elem) -> Elem;
pub uninterp spec fn e_div(a: Elem, b: Elem) -> Elem;
pub uninterp spec fn e_zero() -> Elem;
pub uninterp spec fn e_conj(a: Elem) -> Elem;
pub uninterp spec fn e_gt(a: Elem, b: Elem) -> bool;
impl Clone for Elem { #[verifier::external_body] fn clone(&self) -> (r: Elem) ensures r == *self { unimplemented!() } }
impl Copy for Elem {}
/// addition and multiplication commute (true of every number type the crate has)
pub broadcast axiom fn ax_add_comm(a: Elem, b: Elem) ensures #[trigger] e_add(a, b) == e_add(b, a);
pub broadcast axiom fn ax_mul_comm(a: Elem, b: Elem) ensures #[trigger] e_mul(a, b) == e_mul(b, a);

impl vstd::std_specs::ops::AddSpecImpl<Elem> for Elem {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, r: Elem) -> bool { true }
  open spec fn add_spec(self, r: Elem) -> Elem { e_add(self, r) }
}
impl std::ops::Add for Elem { type Output = Elem; #[verifier::external_body] fn add(self, r: Elem) -> Elem { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<Elem> for Elem {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, r: Elem) -> bool { true }
  open spec fn sub_spec(self, r: Elem) -> Elem { e_sub(self, r) }
}
impl std::ops::Sub for Elem { type Output = Elem; #[verifier::external_body] fn sub(self, r: Elem) -> Elem { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<Elem> for Elem {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, r: Elem) -> bool { true }
  open spec fn mul_spec(self, r: Elem) -> Elem { e_mul(self, r) }
}
impl std::ops::Mul for Elem { type Output = Elem; #[verifier::external_body] fn mul(self, r: Elem) -> Elem { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<Elem> for Elem {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, r: Elem) -> bool { true }
  open spec fn div_spec(self, r: Elem) -> Elem { e_div(self, r) }
}
impl std::ops::Div for Elem { type Output = Elem; #[verifier::external_body] fn div(self, r: Elem) -> Elem { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Elem> for Elem {
  open spec fn obeys_add_assign_spec() -> bool { true }
  open spec fn add_assign_req(&self, r: Elem) -> bool { true }
  open spec fn add_assign_spec(&self, r: Elem) -> &Elem { &e_add(*self, r) }
}
impl std::ops::AddAssign for Elem { #[verifier::external_body] fn add_assign(&mut self, r: Elem) { unimplemented!() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Elem> for Elem {
  open spec fn obeys_sub_assign_spec() -> bool { true }
  open spec fn sub_assign_req(&self, r: Elem) -> bool { true }
  open spec fn sub_assign_spec(&self, r: Elem) -> &Elem { &e_sub(*self, r) }
}
impl std::ops::SubAssign for Elem { #[verifier::external_body] fn sub_assign(&mut self, r: Elem) { unimplemented!() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Elem> for Elem {
  open spec fn obeys_mul_assign_spec() -> bool { true }
  open spec fn mul_assign_req(&self, r: Elem) -> bool { true }
  open spec fn mul_assign_spec(&self, r: Elem) -> &Elem { &e_mul(*self, r) }
}
impl std::ops::MulAssign for Elem { #[verifier::external_body] fn mul_assign(&mut self, r: Elem) { unimplemented!() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Elem> for Elem {
  open spec fn obeys_div_assign_spec() -> bool { true }
  open spec fn div_assign_req(&self, r: Elem) -> bool { true }
  open spec fn div_assign_spec(&self, r: Elem) -> &Elem { &e_div(*self, r) }
}
impl std::ops::DivAssign for Elem { #[verifier::external_body] fn div_assign(&mut self, r: Elem) { unimplemented!() } }
impl Elem {
  #[verifier::external_body]
  pub fn default() -> (r: Elem) ensures r == e_zero() { unimplemented!() }
  #[verifier::external_body]
  pub fn conj(&self) -> (r: Elem) ensures r == e_conj(*self) { unimplemented!() }
}
