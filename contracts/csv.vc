@raw
// ---------------------------------------------------------------- writing tables (C19)
/// the first k values, each followed by a comma
pub open spec fn cells(s: Seq<Elem>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { cells(s, k - 1) + (e_text(s[k - 1]) + seq![',']) } }
/// the first k values, each after a comma
pub open spec fn fields(s: Seq<Elem>, k: int) -> Seq<char> decreases k { if k <= 0 { Seq::empty() } else { fields(s, k - 1) + (seq![','] + e_text(s[k - 1])) } }
/// the first k rows of a table of the given width
pub open spec fn rows_text(b: Seq<Elem>, w: int, k: int) -> Seq<char> decreases k {
  if k <= 0 { Seq::empty() } else { rows_text(b, w, k - 1) + (cells(b.subrange((k - 1) * w, k * w), w) + seq!['\n']) }
}
/// one point: the values of the input, then those of the target, with commas between
pub open spec fn point_text(x: Seq<Elem>, y: Seq<Elem>) -> Seq<char> { e_text(x[0]) + fields(x.drop_first(), x.len() - 1) + fields(y, y.len() as int) + seq!['\n'] }
pub open spec fn points_text(d: Dataset<Elem, Elem>, k: int) -> Seq<char> decreases k {
  if k <= 0 { Seq::empty() } else { points_text(d, k - 1) + point_text(d.inputs@[k - 1]->Scalar_0@, d.target@[k - 1]->Scalar_0@) }
}
/// a data set of vectors with at least one input value per point
pub open spec fn tabular(d: Dataset<Elem, Elem>) -> bool {
  &&& paired(d)
  &&& forall |i: int| 0 <= i < d.inputs@.len() ==> #[trigger] d.inputs@[i] is Scalar && d.inputs@[i]->Scalar_0@.len() > 0
  &&& forall |i: int| 0 <= i < d.target@.len() ==> #[trigger] d.target@[i] is Scalar
}

/// the files with one of them holding the text
pub open spec fn holding(d: Disk, o: Disk, n: Seq<char>, t: Seq<char>) -> bool { d.files() =~= o.files().insert(n, t) && d.faults() == o.faults() }

@file math/matrix/mod.rs mode=elem
@fn Matrix::to_csv
@disk
@requires
  mwf(*self), self.shape[1] > 0,
@ensures
  r is Ok <==> final(disk).faults() == old(disk).faults(),
  r is Ok ==> holding(*final(disk), *old(disk), path@, rows_text(self.body@, self.shape[1] as int, self.shape[0] as int)),
@attr #[verifier::loop_isolation(false)]
@begin
  let ghost nm = path@;
  let ghost w = self.shape[1] as int;
@pre 0
  proof { lem_chunks(self.shape[0] as int, w); }
  assert(disk.files()[nm] =~= rows_text(self.body@, w, 0));
@loop 0
  n_0 == self.shape[0], file.name() == nm,
  holding(*disk, *old(disk), nm, rows_text(self.body@, w, i_0 as int)),
@start 0
  let ghost rw = self.body@.subrange(i_0 * w, (i_0 + 1) * w);
  let ghost done = rows_text(self.body@, w, i_0 as int);
  proof { lem_row(i_0 as int, self.shape[0] as int, w); }
@pre 1
  assert(done + cells(rw, 0) =~= done);
@loop 1
  n_1 == w, file.name() == nm,
  holding(*disk, *old(disk), nm, done + cells(rw, i_1 as int)),
@end 1
  assert(disk.files()[nm] =~= done + cells(rw, i_1 + 1));
@end 0
  assert(disk.files()[nm] =~= rows_text(self.body@, w, i_0 + 1));

@file dataset/mod.rs mode=elem
@fn Dataset::to_csv
@disk
@requires
  tabular(*self),
@ensures
  r is Ok <==> final(disk).faults() == old(disk).faults(),
  r is Ok ==> holding(*final(disk), *old(disk), name@, points_text(*self, self.inputs@.len() as int)),
@attr #[verifier::loop_isolation(false)]
@begin
  let ghost nm = name@;
@pre 0
  assert(disk.files()[nm] =~= points_text(*self, 0));
@loop 0
  n_0 == self.inputs@.len(), file.name() == nm,
  holding(*disk, *old(disk), nm, points_text(*self, i_0 as int)),
@start 0
  let ghost done = points_text(*self, i_0 as int);
  let ghost xs = self.inputs@[i_0 as int]->Scalar_0@;
  let ghost ys = self.target@[i_0 as int]->Scalar_0@;
@pre 1
  assert(disk.files()[nm] =~= done + e_text(xs[0]) + fields(xs.drop_first(), 0));
@loop 1
  n_1 == xs.len() - 1, file.name() == nm,
  holding(*disk, *old(disk), nm, done + e_text(xs[0]) + fields(xs.drop_first(), i_1 as int)),
@end 1
  assert(disk.files()[nm] =~= done + e_text(xs[0]) + fields(xs.drop_first(), i_1 + 1));
@pre 2
  let ghost half = done + e_text(xs[0]) + fields(xs.drop_first(), xs.len() - 1);
  assert(half + fields(ys, 0) =~= half);
@loop 2
  n_2 == ys.len(), file.name() == nm,
  holding(*disk, *old(disk), nm, half + fields(ys, i_2 as int)),
@end 2
  assert(disk.files()[nm] =~= half + fields(ys, i_2 + 1));
@end 0
  assert(disk.files()[nm] =~= points_text(*self, i_0 + 1));
