@file math/matrix/err.rs
@item AccessError #[derive(Debug)]
@item UpdateError #[derive(Debug)]
@item DeletionError #[derive(Debug)]
@item OperationError #[derive(Debug)]
@file math/matrix/mod.rs mode=gen
@item Matrix
@raw
/// the body is the row-major image of the shape
pub open spec fn mwf<T>(m: Matrix<T>) -> bool { m.body.len() == m.shape[0] * m.shape[1] }
/// a vector of elements that take memory has at most isize::MAX of them
pub axiom fn ax_alloc(v: Vec<Elem>) ensures v@.len() <= isize::MAX;
/// so the sides of a matrix that is not empty stay well below usize::MAX
pub proof fn lem_sides(m: Matrix<Elem>)
  requires mwf(m)
  ensures m.shape[1] > 0 ==> m.shape[0] <= isize::MAX, m.shape[0] > 0 ==> m.shape[1] <= isize::MAX
{
  ax_alloc(m.body);
  let (a, b) = (m.shape[0] as int, m.shape[1] as int);
  assert(b > 0 ==> a <= a * b) by(nonlinear_arith) requires a >= 0;
  assert(a > 0 ==> b <= a * b) by(nonlinear_arith) requires b >= 0;
}
/// the value at row i, column j
pub open spec fn at<T>(m: Matrix<T>, i: int, j: int) -> T { m.body@[i * m.shape[1] + j] }
/// the row i
pub open spec fn row_of<T>(m: Matrix<T>, i: int) -> Seq<T> { m.body@.subrange(i * m.shape[1], (i + 1) * m.shape[1]) }
/// same rows, columns and values
pub open spec fn msame<T>(a: Matrix<T>, b: Matrix<T>) -> bool { a.shape[0] == b.shape[0] && a.shape[1] == b.shape[1] && a.body@ =~= b.body@ && a.capacity[0] == b.capacity[0] && a.capacity[1] == b.capacity[1] }

pub proof fn lem_idx(i: int, j: int, r: int, c: int)
  requires 0 <= i < r, 0 <= j < c
  ensures 0 <= i * c, 0 <= i * c + j < r * c, (i + 1) * c == i * c + c, i * c + c <= r * c
{
  assert(0 <= i * c && i * c + j < r * c && (i + 1) * c == i * c + c && i * c + c <= r * c) by(nonlinear_arith) requires 0 <= i < r, 0 <= j < c;
}
pub proof fn lem_row(i: int, r: int, c: int)
  requires 0 <= i < r, 0 <= c
  ensures 0 <= i * c, (i + 1) * c == i * c + c, i * c + c <= r * c
{
  assert(0 <= i * c && (i + 1) * c == i * c + c && i * c + c <= r * c) by(nonlinear_arith) requires 0 <= i < r, 0 <= c;
}
pub proof fn lem_succ(a: int, c: int)
  ensures (a + 1) * c == a * c + c
{
  assert((a + 1) * c == a * c + c) by(nonlinear_arith);
}
pub proof fn lem_addrow(r: int, c: int, r2: int, c2: int)
  requires r2 == r + 1, c2 == c || (r == 0 && c == 0)
  ensures r2 * c2 == r * c + c2
{
  assert(r2 * c2 == r * c + c2) by(nonlinear_arith) requires r2 == r + 1, c2 == c || (r == 0 && c == 0);
}
pub proof fn lem_big(a: int, x: int, b: int, y: int)
  requires 0 <= a, 0 <= b, 0 < x, 0 < y
  ensures a * b <= (a + x) * (b + y), (a + (x - 1)) * (b + (y - 1)) <= (a + x) * (b + y)
{
  assert(a * b <= (a + x) * (b + y) && (a + (x - 1)) * (b + (y - 1)) <= (a + x) * (b + y)) by(nonlinear_arith) requires 0 <= a, 0 <= b, 0 < x, 0 < y;
}
pub proof fn lem_delrow(r: int, c: int, r2: int, c2: int)
  requires r2 == r - 1, c2 == (if r2 == 0 { 0 } else { c })
  ensures r2 * c2 == r * c - c
{
  assert(r2 * c2 == r * c - c) by(nonlinear_arith) requires r2 == r - 1, c2 == (if r2 == 0 { 0 } else { c });
}
pub proof fn lem_chunks(r: int, c: int)
  requires 0 <= r, 0 < c
  ensures nchunks(r * c, c) == r
{
  vstd::arithmetic::div_mod::lemma_div_multiples_vanish(r, c);
  vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r, c);
  assert(r * c == c * r) by(nonlinear_arith);
}

pub open spec fn m_empty<T>(m: Matrix<T>) -> bool { m.body@.len() == 0 && m.shape[0] == 0 && m.shape[1] == 0 && m.capacity[0] == 0 && m.capacity[1] == 0 }
/// ((0 + a0 b0) + a1 b1) + ...
pub open spec fn dot(a: Seq<Elem>, b: Seq<Elem>, n: int) -> Elem
  decreases n
{
  if n <= 0 { e_zero() } else { e_add(dot(a, b, n - 1), e_mul(a[n - 1], b[n - 1])) }
}
pub proof fn lem_span(i: int, n: int, r: int, c: int)
  requires 0 <= i, 0 <= n, i + n <= r, 0 <= c
  ensures 0 <= i * c, 0 <= n * c, i * c + n * c == (i + n) * c, (i + n) * c <= r * c
{
  assert(0 <= i * c && 0 <= n * c && i * c + n * c == (i + n) * c && (i + n) * c <= r * c) by(nonlinear_arith) requires 0 <= i, 0 <= n, i + n <= r, 0 <= c;
}
/// the body after the first k rows got their new last value
pub open spec fn col_seq<T>(b: Seq<T>, v: Seq<T>, r: int, c: int, k: int) -> Seq<T>
  decreases k
{
  if k <= 0 { b } else { col_seq(b, v, r, c, k - 1).insert((k - 1) * (c + 1) + c, v[k - 1]) }
}
pub proof fn lem_col_inv<T>(b: Seq<T>, v: Seq<T>, r: int, c: int, k: int)
  requires 0 <= k <= r, 0 <= c, b.len() == r * c, v.len() == r
  ensures
    col_seq(b, v, r, c, k).len() == r * c + k,
    k < r ==> k * (c + 1) + c <= r * c + k,
    k * (c + 1) <= r * c + k,
    forall |x: int, y: int| 0 <= x < k && 0 <= y <= c ==> #[trigger] col_seq(b, v, r, c, k)[x * (c + 1) + y] == (if y < c { b[x * c + y] } else { v[x] }),
    forall |z: int| k * (c + 1) <= z < r * c + k ==> #[trigger] col_seq(b, v, r, c, k)[z] == b[z - k],
  decreases k
{
  assert(k * (c + 1) == k * c + k && k * c <= r * c && (k < r ==> k * c + c <= r * c)) by(nonlinear_arith) requires 0 <= k <= r, 0 <= c;
  if k > 0 {
    lem_col_inv(b, v, r, c, k - 1);
    let p = (k - 1) * (c + 1);
    assert(p == (k - 1) * c + k - 1 && p + c + 1 == k * (c + 1)) by(nonlinear_arith) requires p == (k - 1) * (c + 1);
    let q = col_seq(b, v, r, c, k - 1);
    let s = col_seq(b, v, r, c, k);
    assert((k - 1) * c + c <= r * c) by(nonlinear_arith) requires k <= r, 0 <= c;
    assert(s == q.insert(p + c, v[k - 1]));
    assert forall |x: int, y: int| 0 <= x < k && 0 <= y <= c implies #[trigger] s[x * (c + 1) + y] == (if y < c { b[x * c + y] } else { v[x] }) by {
      if x < k - 1 {
        assert(0 <= x * (c + 1) && x * (c + 1) + y < (k - 1) * (c + 1)) by(nonlinear_arith) requires 0 <= x < k - 1, 0 <= y <= c;
        assert(s[x * (c + 1) + y] == q[x * (c + 1) + y]);
      } else {
        assert(x * (c + 1) == p);
        if y < c { assert(s[p + y] == q[p + y]); assert(q[p + y] == b[p + y - (k - 1)]); }
      }
    }
    assert forall |z: int| k * (c + 1) <= z < r * c + k implies #[trigger] s[z] == b[z - k] by { assert(s[z] == q[z - 1]); assert(q[z - 1] == b[z - 1 - (k - 1)]); }
  }
}
pub proof fn lem_col_start<T>(b: Seq<T>, v: Seq<T>, r: int, c: int)
  requires v.len() == r
  ensures v.reverse() == v.subrange(0, v.len() as int).reverse()
{ assert(v.subrange(0, v.len() as int) =~= v); }
pub proof fn lem_col_step<T>(b: Seq<T>, v: Seq<T>, r: int, c: int, k: int)
  requires 0 <= k < r, 0 <= c, b.len() == r * c, v.len() == r
  ensures
    k * (c + 1) + c <= r * c + k, 0 <= k * (c + 1) <= (c + 1) * r, k * (c + 1) + (c + 1) <= (c + 1) * r,
    col_seq(b, v, r, c, k).len() == r * c + k,
    v.subrange(k, r).reverse().len() == r - k,
    v.subrange(k, r).reverse().last() == v[k],
    v.subrange(k, r).reverse().drop_last() == v.subrange(k + 1, r).reverse(),
    ({ let q = col_seq(b, v, r, c, k); let p = k * (c + 1) + c; q.subrange(0, p) + seq![v[k]] + q.subrange(p, q.len() as int) == col_seq(b, v, r, c, k + 1) }),
{
  lem_col_inv(b, v, r, c, k);
  assert(0 <= k * (c + 1) <= (c + 1) * r && k * (c + 1) + (c + 1) <= (c + 1) * r) by(nonlinear_arith) requires 0 <= k < r, 0 <= c;
  assert(v.subrange(k, r).reverse().drop_last() =~= v.subrange(k + 1, r).reverse());
  let q = col_seq(b, v, r, c, k);
  let p = k * (c + 1) + c;
  assert(q.subrange(0, p) + seq![v[k]] + q.subrange(p, q.len() as int) =~= q.insert(p, v[k]));
}
pub proof fn lem_col_done<T>(b: Seq<T>, v: Seq<T>, r: int, c: int)
  requires 0 <= r, 0 <= c, b.len() == r * c, v.len() == r
  ensures
    col_seq(b, v, r, c, r).len() == r * (c + 1),
    forall |x: int, y: int| 0 <= x < r && 0 <= y <= c ==> #[trigger] col_seq(b, v, r, c, r)[x * (c + 1) + y] == (if y < c { b[x * c + y] } else { v[x] }),
{
  lem_col_inv(b, v, r, c, r);
  assert(r * (c + 1) == r * c + r) by(nonlinear_arith);
}

@fn Matrix::new
@ensures
  r.body@.len() == 0, r.shape[0] == 0, r.shape[1] == 0, r.capacity[0] == 0, r.capacity[1] == 0,

@fn Matrix::with_capacity
@requires
  capacity[0] * capacity[1] <= usize::MAX,
@ensures
  r.body@.len() == 0, r.shape[0] == 0, r.shape[1] == 0, r.capacity == capacity,

@fn Matrix::is_empty
@ensures
  r == (self.body@.len() == 0 && self.shape[0] == 0 && self.shape[1] == 0 && self.capacity[0] == 0 && self.capacity[1] == 0),

@fn Matrix::from_body
@ensures
  r.body@ == body@, r.shape == shape, r.capacity == shape,

@fn Matrix::export_body
@ensures
  r@ == self.body@,

@fn Matrix::get_body
@ensures
  r@ == self.body@,

@fn Matrix::get_body_as_mut
@ensures
  r@ == old(self).body@, final(self).body@ == final(r)@, final(r)@.len() == r@.len(),
  final(self).shape == old(self).shape, final(self).capacity == old(self).capacity,

@fn Matrix::get_shape
@ensures
  r@ == self.shape@,

@fn Matrix::get_capacity
@ensures
  r@ == self.capacity@,

@fn Matrix::dealloc
@ensures
  final(self).body@ == old(self).body@, final(self).shape == old(self).shape, final(self).capacity == old(self).shape,

@fn Matrix::elm
@requires
  mwf(*self),
@ensures
  r is Ok <==> (i < self.shape[0] && j < self.shape[1]),
  r is Ok ==> *r->Ok_0 == at(*self, i as int, j as int),
@begin
  proof { if i < self.shape[0] && j < self.shape[1] { lem_idx(i as int, j as int, self.shape[0] as int, self.shape[1] as int); } }

@fn Matrix::elm_mut
@requires
  mwf(*old(self)),
@ensures
  r is Ok <==> (i < old(self).shape[0] && j < old(self).shape[1]),
  match r {
    Ok(p) => *p == at(*old(self), i as int, j as int) && final(self).body@ == old(self).body@.update(i * old(self).shape[1] + j, *final(p)) && final(self).shape == old(self).shape && final(self).capacity == old(self).capacity,
    Err(_) => *final(self) == *old(self),
  },
@begin
  proof { if i < self.shape[0] && j < self.shape[1] { lem_idx(i as int, j as int, self.shape[0] as int, self.shape[1] as int); } }

@fn Matrix::row
@requires
  mwf(*self),
@ensures
  r is Ok <==> i < self.shape[0],
  r is Ok ==> r->Ok_0@ == row_of(*self, i as int),
@begin
  proof { if i < self.shape[0] { lem_row(i as int, self.shape[0] as int, self.shape[1] as int); } }

@fn Matrix::row_as_mut
@requires
  mwf(*old(self)),
@ensures
  r is Ok <==> i < old(self).shape[0],
  match r {
    Ok(p) => p@ == row_of(*old(self), i as int) && final(self).shape == old(self).shape && final(self).capacity == old(self).capacity
      && final(p)@.len() == p@.len()
      && final(self).body@ == old(self).body@.subrange(0, i * old(self).shape[1]) + final(p)@ + old(self).body@.subrange((i + 1) * old(self).shape[1], old(self).body@.len() as int),
    Err(_) => *final(self) == *old(self),
  },
@begin
  proof { if i < self.shape[0] { lem_row(i as int, self.shape[0] as int, self.shape[1] as int); } }

@fn Matrix::add_row
@requires
  mwf(*old(self)), old(self).shape[0] < usize::MAX,
@ensures
  r is Ok <==> ((row@.len() == old(self).shape[1] || (old(self).shape[0] == 0 && old(self).shape[1] == 0)) && old(self).shape[0] < old(self).capacity[0] && row@.len() <= old(self).capacity[1]),
  r is Err ==> msame(*final(self), *old(self)),
  r is Ok ==> mwf(*final(self)) && final(self).shape[0] == old(self).shape[0] + 1 && final(self).shape[1] == row@.len() && final(self).capacity == old(self).capacity && final(self).body@ == old(self).body@ + row@,
@tail
  proof { lem_addrow(old(self).shape[0] as int, old(self).shape[1] as int, self.shape[0] as int, self.shape[1] as int); }

@fn Matrix::add_mut_row
@requires
  mwf(*old(self)),
@ensures
  r is Ok <==> ((old(row)@.len() == old(self).shape[1] || (old(self).shape[0] == 0 && old(self).shape[1] == 0)) && old(self).shape[0] < old(self).capacity[0] && old(row)@.len() <= old(self).capacity[1]),
  r is Err ==> msame(*final(self), *old(self)) && final(row)@ == old(row)@,
  r is Ok ==> mwf(*final(self)) && final(self).shape[0] == old(self).shape[0] + 1 && final(self).shape[1] == old(row)@.len() && final(self).capacity == old(self).capacity && final(self).body@ == old(self).body@ + old(row)@ && final(row)@.len() == 0,
@tail
  proof { lem_addrow(old(self).shape[0] as int, old(self).shape[1] as int, self.shape[0] as int, self.shape[1] as int); }

@fn Matrix::del_row
@requires
  mwf(*old(self)),
@ensures
  r is Ok <==> i < old(self).shape[0],
  r is Err ==> msame(*final(self), *old(self)),
  r is Ok ==> mwf(*final(self)) && r->Ok_0@ == row_of(*old(self), i as int)
    && final(self).body@ == old(self).body@.subrange(0, i * old(self).shape[1]) + old(self).body@.subrange((i + 1) * old(self).shape[1], old(self).body@.len() as int)
    && final(self).shape[0] == old(self).shape[0] - 1
    && final(self).shape[1] == (if old(self).shape[0] == 1 { 0 } else { old(self).shape[1] })
    && final(self).capacity == final(self).shape,
@begin
  proof { if i < self.shape[0] { lem_row(i as int, self.shape[0] as int, self.shape[1] as int); } }
@tail
  proof { lem_delrow(old(self).shape[0] as int, old(self).shape[1] as int, self.shape[0] as int, self.shape[1] as int); }

@fn Matrix::add_col
@requires
  mwf(*old(self)), (old(self).shape[1] + 1) * old(self).shape[0] <= usize::MAX,
@ensures
  r is Ok <==> (old(col)@.len() == old(self).shape[0] && old(self).shape[1] < old(self).capacity[1]),
  r is Err ==> msame(*final(self), *old(self)) && final(col)@ == old(col)@,
  r is Ok ==> mwf(*final(self)) && final(self).shape[0] == old(self).shape[0] && final(self).shape[1] == old(self).shape[1] + 1 && final(self).capacity == old(self).capacity && final(col)@.len() == 0
    && forall |x: int, y: int| 0 <= x < old(self).shape[0] && 0 <= y <= old(self).shape[1] ==> #[trigger] at(*final(self), x, y) == (if y < old(self).shape[1] { at(*old(self), x, y) } else { old(col)@[x] }),
@pre 0
  proof { lem_col_start(old(self).body@, old(col)@, old(self).shape[0] as int, old(self).shape[1] as int); }
@loop 0
  self.shape[0] == old(self).shape[0], self.shape[1] == old(self).shape[1] + 1, self.capacity == old(self).capacity,
  col@ == old(col)@.subrange(i_0 as int, old(col)@.len() as int).reverse(),
  self.body@ == col_seq(old(self).body@, old(col)@, old(self).shape[0] as int, old(self).shape[1] as int, i_0 as int),
@start 0
  proof { lem_col_step(old(self).body@, old(col)@, old(self).shape[0] as int, old(self).shape[1] as int, i_0 as int); }
@post 0
  proof { lem_col_done(old(self).body@, old(col)@, old(self).shape[0] as int, old(self).shape[1] as int); 
    assert forall |x: int, y: int| 0 <= x < old(self).shape[0] && 0 <= y <= old(self).shape[1] implies #[trigger] at(*self, x, y) == (if y < old(self).shape[1] { at(*old(self), x, y) } else { old(col)@[x] }) by {} }

@# ---------------------------------------------------------------- access
@fn Matrix::rows_as_iter
@requires
  self.shape[1] > 0,
@ensures
  r.s@ == self.body@, r.c == self.shape[1], r.p == 0,

@fn Matrix::rows_as_par_chunks
@requires
  self.shape[1] > 0,
@ensures
  r.s@ == self.body@, r.c == self.shape[1], r.p == 0,

@fn Matrix::rows_as_iter_mut
@requires
  old(self).shape[1] > 0,
@ensures
  r.s@ == old(self).body@, r.c == old(self).shape[1], final(self).body@ == final(r.s)@, final(r.s)@.len() == r.s@.len(), final(self).shape == old(self).shape, final(self).capacity == old(self).capacity,

@fn Matrix::get_slider
@requires
  mwf(*self), self.shape[1] > 0, i + rows <= self.shape[0],
@ensures
  r.s@ == self.body@.subrange(i * self.shape[1], (i + rows) * self.shape[1]), r.c == self.shape[1], r.p == 0,
@begin
  proof { lem_span(i as int, rows as int, self.shape[0] as int, self.shape[1] as int); }

@fn Matrix::body_into_iter
@ensures
  r.v@ == self.body@,

@fn Matrix::row_into_slice
@requires
  mwf(*self),
@ensures
  r is Ok <==> (i < self.shape[0] && old(result)@.len() == self.shape[1]),
  r is Ok ==> final(result)@ == row_of(*self, i as int),
  r is Err ==> final(result)@ == old(result)@,
@begin
  proof { if i < self.shape[0] { lem_row(i as int, self.shape[0] as int, self.shape[1] as int); } }

@fn Matrix::col_into_slice
@requires
  mwf(*self),
@ensures
  r is Ok <==> (j < self.shape[1] && old(result)@.len() == self.shape[0]),
  final(result)@.len() == old(result)@.len(),
  r is Ok ==> forall |x: int| 0 <= x < self.shape[0] ==> #[trigger] final(result)@[x] == at(*self, x, j as int),
  r is Err ==> final(result)@ == old(result)@,
@loop 0
  result@.len() == old(result)@.len(),
  forall |x: int| 0 <= x < i_0 ==> #[trigger] result@[x] == at(*self, x, j as int),
@start 0
  proof { lem_idx(i_0 as int, j as int, self.shape[0] as int, self.shape[1] as int); }

@fn Matrix::copy_col_into_vec
@requires
  mwf(*self),
@ensures
  r is Ok <==> j < self.shape[1],
  r is Ok ==> r->Ok_0@.len() == self.shape[0] && forall |x: int| 0 <= x < self.shape[0] ==> #[trigger] r->Ok_0@[x] == at(*self, x, j as int),
@loop 0
  result@.len() == i_0,
  forall |x: int| 0 <= x < i_0 ==> #[trigger] result@[x] == at(*self, x, j as int),
@start 0
  proof { lem_idx(i_0 as int, j as int, self.shape[0] as int, self.shape[1] as int); }

@fn SliceToMatrix@slice::to_matrix
@requires
  shape[0] * shape[1] <= usize::MAX,
@ensures
  r is Ok <==> self@.len() == shape[0] * shape[1],
  r is Ok ==> r->Ok_0.body@ == self@ && r->Ok_0.shape == shape && r->Ok_0.capacity == shape,

@# ---------------------------------------------------------------- element-wise
@file math/matrix/mod.rs mode=elem
@fn Matrix::add_mut
@requires
  mwf(*old(self)), mwf(*rhs),
@ensures
  r is Err <==> ((old(self).shape[0] != rhs.shape[0] || old(self).shape[1] != rhs.shape[1]) && !m_empty(*old(self)) && !m_empty(*rhs)),
  r is Err ==> msame(*final(self), *old(self)),
  r is Ok && m_empty(*old(self)) ==> msame(*final(self), *rhs),
  r is Ok && !m_empty(*old(self)) && m_empty(*rhs) ==> msame(*final(self), *old(self)),
  r is Ok && !m_empty(*old(self)) && !m_empty(*rhs) ==> final(self).shape == old(self).shape && final(self).capacity == old(self).capacity && final(self).body@.len() == old(self).body@.len()
    && forall |k: int| 0 <= k < old(self).body@.len() ==> #[trigger] final(self).body@[k] == e_add(old(self).body@[k], rhs.body@[k]),
@loop 0
  s_0_0@.len() == old(self).body@.len(),
  forall |k: int| 0 <= k < i_0 ==> #[trigger] s_0_0@[k] == e_add(old(self).body@[k], rhs.body@[k]),
  forall |k: int| i_0 <= k < s_0_0@.len() ==> #[trigger] s_0_0@[k] == old(self).body@[k],

@for N=add,mul,div
@fn Matrix::$N_mut_scalar
@ensures
  r is Ok, final(self).shape == old(self).shape, final(self).capacity == old(self).capacity, final(self).body@.len() == old(self).body@.len(),
  forall |k: int| 0 <= k < old(self).body@.len() ==> #[trigger] final(self).body@[k] == e_$N(old(self).body@[k], rhs),
@loop 0
  s_0_0@.len() == old(self).body@.len(),
  forall |k: int| 0 <= k < i_0 ==> #[trigger] s_0_0@[k] == e_$N(old(self).body@[k], rhs),
  forall |k: int| i_0 <= k < s_0_0@.len() ==> #[trigger] s_0_0@[k] == old(self).body@[k],

@endfor
@for N=add,mul
@fn SliceOps@slice::$N_slice_mut
@ensures
  final(self)@.len() == old(self)@.len(),
  r is Ok <==> old(self)@.len() == rhs@.len(),
  r is Err ==> final(self)@ == old(self)@,
  r is Ok ==> forall |k: int| 0 <= k < rhs@.len() ==> #[trigger] final(self)@[k] == e_$N(old(self)@[k], rhs@[k]),
@loop 0
  s_0_0@.len() == old(self)@.len(),
  forall |k: int| 0 <= k < i_0 ==> #[trigger] s_0_0@[k] == e_$N(old(self)@[k], rhs@[k]),
  forall |k: int| i_0 <= k < s_0_0@.len() ==> #[trigger] s_0_0@[k] == old(self)@[k],

@endfor
@for N=mul,div
@fn SliceOps@slice::$N_mut_scalar
@ensures
  r is Ok, final(self)@.len() == old(self)@.len(),
  forall |k: int| 0 <= k < old(self)@.len() ==> #[trigger] final(self)@[k] == e_$N(old(self)@[k], rhs),
@loop 0
  s_0_0@.len() == old(self)@.len(),
  forall |k: int| 0 <= k < i_0 ==> #[trigger] s_0_0@[k] == e_$N(old(self)@[k], rhs),
  forall |k: int| i_0 <= k < s_0_0@.len() ==> #[trigger] s_0_0@[k] == old(self)@[k],

@endfor
@fn SliceOps@slice::add_slice
@ensures
  r is Ok <==> (self@.len() == 0 || self@.len() == rhs@.len()),
  r is Ok ==> r->Ok_0@.len() == rhs@.len(),
  r is Ok ==> forall |k: int| 0 <= k < rhs@.len() ==> #[trigger] r->Ok_0@[k] == (if self@.len() == 0 { rhs@[k] } else { e_add(self@[k], rhs@[k]) }),
@loop 0
  out_0@.len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == e_add(self@[k], rhs@[k]),

@fn SliceOps@slice::mul_slice
@ensures
  r is Ok <==> self@.len() == rhs@.len(),
  r is Ok ==> r->Ok_0@.len() == rhs@.len(),
  r is Ok ==> forall |k: int| 0 <= k < rhs@.len() ==> #[trigger] r->Ok_0@[k] == e_mul(self@[k], rhs@[k]),
@loop 0
  out_0@.len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == e_mul(self@[k], rhs@[k]),

@fn SliceOps@slice::scalar_prod
@ensures
  r == dot(self@, rhs@, if self@.len() < rhs@.len() { self@.len() as int } else { rhs@.len() as int }),
@loop 0
  acc_0 == dot(self@, rhs@, i_0 as int),

@for N=mul_vec,mul_slice
@fn Matrix::$N
@requires
  mwf(*self), self.shape[1] > 0,
@ensures
  r is Ok <==> rhs@.len() == self.shape[1],
  r is Ok ==> r->Ok_0@.len() == self.shape[0],
  r is Ok ==> forall |i: int| 0 <= i < self.shape[0] ==> #[trigger] r->Ok_0@[i] == dot(row_of(*self, i), rhs@, self.shape[1] as int),
@pre 0
  proof { lem_chunks(self.shape[0] as int, self.shape[1] as int); }
@loop 0
  out_0@.len() == i_0,
  forall |k: int| 0 <= k < i_0 ==> #[trigger] out_0@[k] == dot(row_of(*self, k), rhs@, self.shape[1] as int),
@start 0
  proof { lem_row(i_0 as int, self.shape[0] as int, self.shape[1] as int); }
@loop 1
  acc_1 == dot(row_of(*self, i_0 as int), rhs@, i_1 as int),

@endfor
