@file dataset/mod.rs mode=gen
@item Dataset
@raw
// ---------------------------------------------------------------- data batches (C16)
/// inputs and targets are paired by position
pub open spec fn paired<B, T>(d: Dataset<B, T>) -> bool { d.inputs@.len() == d.target@.len() }
/// the components of an input or output, in order
pub open spec fn comps(x: IOType<Elem>) -> Seq<Elem> { match x { IOType::Scalar(v) => v@, IOType::Matrix(m) => flat(m@, m@.len() as int) } }
pub open spec fn same_kind(a: IOType<Elem>, b: IOType<Elem>) -> bool { a is Scalar <==> b is Scalar }

@file dataset/mod.rs mode=gen
@fn Dataset::new
@ensures
  r.inputs@.len() == 0, r.target@.len() == 0,

@fn Dataset::get_n_points
@ensures
  r == self.inputs@.len(),

@fn Dataset::get_point
@requires
  i < self.inputs@.len(), paired(*self),
@ensures
  *r.0 == self.inputs@[i as int], *r.1 == self.target@[i as int],

@fn Dataset::points_as_iter
@ensures
  r.0.s@ == self.inputs@, r.0.p == 0, r.1.s@ == self.target@, r.1.p == 0,

@fn Dataset::points_into_iter
@ensures
  r.0.v@ == self.inputs@, r.1.v@ == self.target@,

@fn Dataset::add_point
@ensures
  final(self).inputs@ == old(self).inputs@.push(point.0), final(self).target@ == old(self).target@.push(point.1),

@file input/mod.rs mode=gen
@fn IOType::release_vec
@ensures
  r is Ok <==> self is Scalar, r is Ok ==> r->Ok_0 == self->Scalar_0, r is Err ==> r->Err_0 is InvalidType,

@fn IOType::release_maps
@ensures
  r is Ok <==> self is Matrix, r is Ok ==> r->Ok_0 == self->Matrix_0, r is Err ==> r->Err_0 is InvalidType,

@fn IOType::as_slice
@requires
  self is Scalar,
@ensures
  r@ == self->Scalar_0@,

@fn IOType::as_mut
@requires
  *old(self) is Scalar,
@ensures
  r@ == (*old(self))->Scalar_0@, *final(self) is Scalar, (*final(self))->Scalar_0@ == final(r)@, final(r)@.len() == r@.len(),

@file input/mod.rs mode=elem
@fn IOType::to_vec
@requires
  self is Scalar,
@ensures
  r@ == self->Scalar_0@,
