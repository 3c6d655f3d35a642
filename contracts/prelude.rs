#![verifier::loop_isolation(false)]
#![allow(unused)]
#![allow(non_camel_case_types)]
use vstd::prelude::*;
pub mod base {
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- slices and iterators
// Stand-ins for the std iterator API, written out on top of the few functions marked
// external_body (trusted to behave as std does) and of vstd's specifications.

/// the slice made of positions a..b
pub uninterp spec fn sub_ref<'a, T>(s: &'a [T], a: int, b: int) -> &'a [T];
pub broadcast axiom fn ax_sub_ref<T>(s: &[T], a: int, b: int)
  requires 0 <= a <= b <= s@.len()
  ensures #[trigger] sub_ref(s, a, b)@ == s@.subrange(a, b);
#[verifier::external_body]
pub fn vsub_ref<'a, T>(s: &'a [T], a: usize, b: usize) -> (r: &'a [T])
  requires a <= b <= s@.len()
  ensures r == sub_ref(s, a as int, b as int)
{ unimplemented!() }
/// what is written through a borrowed slice leaves its length alone
#[verifier::external_body]
pub fn vsame_len<'a, T>(s: &'a mut [T]) -> (r: &'a mut [T])
  ensures r@ == old(s)@, final(s)@ == final(r)@, final(r)@.len() == r@.len()
{ unimplemented!() }

pub uninterp spec fn moved<T>(s: Seq<T>) -> Vec<T>;

pub trait VSrc: Sized {
  type It;
  spec fn sn(&self) -> nat;
  spec fn sat(&self, i: int) -> Self::It;
  fn vn(&self) -> (r: usize) ensures r == self.sn();
  fn vat(&self, i: usize) -> (r: Self::It) requires i < self.sn() ensures r == self.sat(i as int);
}
pub struct VIter<'a, T> { pub s: &'a [T], pub p: usize }
impl<'a, T> VSrc for VIter<'a, T> {
  type It = &'a T;
  open spec fn sn(&self) -> nat { if self.p <= self.s@.len() { (self.s@.len() - self.p) as nat } else { 0 } }
  open spec fn sat(&self, i: int) -> &'a T { &self.s@[self.p + i] }
  fn vn(&self) -> (r: usize) { if self.p <= self.s.len() { self.s.len() - self.p } else { 0 } }
  fn vat(&self, i: usize) -> (r: &'a T) { let n = self.s.len(); &self.s[self.p + i] }
}
impl<'a, T> VIter<'a, T> {
  pub fn next(&mut self) -> (r: Option<&'a T>)
    ensures
      final(self).s == old(self).s,
      old(self).sn() > 0 ==> r == Some(old(self).sat(0)) && final(self).p == old(self).p + 1,
      old(self).sn() == 0 ==> r is None && final(self).p == old(self).p,
  {
    if self.p < self.s.len() { let x = &self.s[self.p]; self.p = self.p + 1; Some(x) } else { None }
  }
  pub fn len(&self) -> (r: usize) ensures r == self.sn() { self.vn() }
}
/// number of chunks of length c in a slice of length l (the last one may be short)
pub open spec fn nchunks(l: int, c: int) -> int { if l % c == 0 { l / c } else { l / c + 1 } }
pub proof fn lem_nchunks(l: int, c: int, k: int)
  requires c > 0, l >= 0, 0 <= k < nchunks(l, c)
  ensures 0 <= k * c < l, k < l
{
  assert(l == c * (l / c) + l % c && 0 <= l % c < c) by(nonlinear_arith) requires c > 0;
  assert((l / c) * c == c * (l / c)) by(nonlinear_arith);
  if l % c == 0 {
    assert((k + 1) * c <= (l / c) * c) by(nonlinear_arith) requires k + 1 <= l / c, c > 0;
    assert((k + 1) * c == k * c + c) by(nonlinear_arith);
  } else {
    assert(k * c <= (l / c) * c) by(nonlinear_arith) requires k <= l / c, c > 0;
  }
  assert(k * c >= k) by(nonlinear_arith) requires k >= 0, c > 0;
}
pub struct VChunks<'a, T> { pub s: &'a [T], pub c: usize, pub p: usize }
impl<'a, T> VSrc for VChunks<'a, T> {
  type It = &'a [T];
  open spec fn sn(&self) -> nat { if self.c == 0 || self.p > nchunks(self.s@.len() as int, self.c as int) { 0 } else { (nchunks(self.s@.len() as int, self.c as int) - self.p) as nat } }
  open spec fn sat(&self, i: int) -> &'a [T] {
    let a = (self.p + i) * self.c;
    sub_ref(self.s, a, if a + self.c <= self.s@.len() { a + self.c } else { self.s@.len() as int })
  }
  fn vn(&self) -> (r: usize) {
    if self.c == 0 { return 0; }
    let l = self.s.len();
    assert(l / self.c <= l) by(nonlinear_arith) requires self.c > 0, l >= 0;
    if l % self.c != 0 { assert(l / self.c < l) by(nonlinear_arith) requires self.c > 0, l >= 0, l % self.c != 0; }
    let n = if l % self.c == 0 { l / self.c } else { l / self.c + 1 };
    if self.p > n { 0 } else { n - self.p }
  }
  fn vat(&self, i: usize) -> (r: &'a [T]) {
    let l = self.s.len();
    let n = self.vn();
    proof { lem_nchunks(l as int, self.c as int, self.p + i); }
    let a = (self.p + i) * self.c;
    let b = if self.c <= l - a { a + self.c } else { l };
    vsub_ref(self.s, a, b)
  }
}
impl<'a, T> VChunks<'a, T> {
  pub fn next(&mut self) -> (r: Option<&'a [T]>)
    ensures
      final(self).s == old(self).s, final(self).c == old(self).c,
      old(self).sn() > 0 ==> r == Some(old(self).sat(0)) && final(self).p == old(self).p + 1,
      old(self).sn() == 0 ==> r is None && final(self).p == old(self).p,
  { let (l, n) = (self.s.len(), self.vn()); if n > 0 { proof { lem_nchunks(self.s@.len() as int, self.c as int, self.p as int); } let x = self.vat(0); self.p = self.p + 1; Some(x) } else { None } }
  pub fn len(&self) -> (r: usize) ensures r == self.sn() { self.vn() }
}
pub struct VWindows<'a, T> { pub s: &'a [T], pub w: usize }
impl<'a, T> VSrc for VWindows<'a, T> {
  type It = &'a [T];
  open spec fn sn(&self) -> nat { if self.w == 0 || self.w > self.s@.len() { 0 } else { (self.s@.len() - self.w + 1) as nat } }
  open spec fn sat(&self, i: int) -> &'a [T] { sub_ref(self.s, i, i + self.w) }
  fn vn(&self) -> (r: usize) { let l = self.s.len(); if self.w == 0 || self.w > l { 0 } else { l - self.w + 1 } }
  fn vat(&self, i: usize) -> (r: &'a [T]) { let l = self.s.len(); vsub_ref(self.s, i, i + self.w) }
}
pub struct VChunksMut<'a, T> { pub s: &'a mut [T], pub c: usize }
/// an owned vector being consumed
pub struct VOwn<T> { pub v: Vec<T> }
impl<T> VSrc for VOwn<T> {
  type It = T;
  open spec fn sn(&self) -> nat { self.v@.len() }
  open spec fn sat(&self, i: int) -> T { self.v@[i] }
  fn vn(&self) -> (r: usize) { self.v.len() }
  #[verifier::external_body]
  fn vat(&self, i: usize) -> (r: T) { unimplemented!() }
}
impl<T> VOwn<T> {
  pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { self.v.len() }
  pub fn vrev(self) -> (r: VRev<T>) ensures r.v == self.v, r.p == 0 { VRev { v: self.v, p: 0 } }
}
/// an owned vector being consumed from its end
pub struct VRev<T> { pub v: Vec<T>, pub p: usize }
impl<T> VSrc for VRev<T> {
  type It = T;
  open spec fn sn(&self) -> nat { if self.p <= self.v@.len() { (self.v@.len() - self.p) as nat } else { 0 } }
  open spec fn sat(&self, i: int) -> T { self.v@[self.v@.len() - 1 - self.p - i] }
  fn vn(&self) -> (r: usize) { if self.p <= self.v.len() { self.v.len() - self.p } else { 0 } }
  #[verifier::external_body]
  fn vat(&self, i: usize) -> (r: T) { unimplemented!() }
}
impl<T> VRev<T> {
  pub fn next(&mut self) -> (r: Option<T>)
    ensures
      final(self).v == old(self).v,
      old(self).sn() > 0 ==> r == Some(old(self).sat(0)) && final(self).p == old(self).p + 1,
      old(self).sn() == 0 ==> r is None && final(self).p == old(self).p,
  { let n = self.vn(); if n > 0 { let m = self.v.len(); let x = self.vat(0); self.p = self.p + 1; Some(x) } else { None } }
}
pub trait VIntoIter: Sized { type S: VSrc; spec fn sinto(self) -> Self::S; fn vinto(self) -> (r: Self::S) ensures r == self.sinto(); }
impl<S: VSrc> VIntoIter for S { type S = S; open spec fn sinto(self) -> S { self } fn vinto(self) -> S { self } }
impl<'a, T> VIntoIter for &'a [T] { type S = VIter<'a, T>; open spec fn sinto(self) -> VIter<'a, T> { VIter { s: self, p: 0 } } fn vinto(self) -> VIter<'a, T> { VIter { s: self, p: 0 } } }
impl<'a, T> VIntoIter for &'a Vec<T> {
  type S = VIter<'a, T>;
  open spec fn sinto(self) -> VIter<'a, T> { VIter { s: vec_ref(self), p: 0 } }
  #[verifier::external_body]
  fn vinto(self) -> VIter<'a, T> { unimplemented!() }
}
pub uninterp spec fn vec_ref<'a, T>(v: &'a Vec<T>) -> &'a [T];
pub broadcast axiom fn ax_vec_ref<T>(v: &Vec<T>)
  ensures #[trigger] vec_ref(v)@ == v@;
impl<T> VIntoIter for Vec<T> { type S = VOwn<T>; open spec fn sinto(self) -> VOwn<T> { VOwn { v: self } } fn vinto(self) -> VOwn<T> { VOwn { v: self } } }

/// borrowing operations of slices and vectors
pub trait VSeq {
  type E;
  spec fn sseq(&self) -> Seq<Self::E>;
  fn viter<'a>(&'a self) -> (r: VIter<'a, Self::E>) ensures r.s@ == self.sseq(), r.p == 0;
  fn vchunks<'a>(&'a self, c: usize) -> (r: VChunks<'a, Self::E>) requires c > 0 ensures r.s@ == self.sseq(), r.p == 0, r.c == c;
  fn vwindows<'a>(&'a self, w: usize) -> (r: VWindows<'a, Self::E>) requires w > 0 ensures r.s@ == self.sseq(), r.w == w;
  fn vall<'a>(&'a self) -> (r: &'a [Self::E]) ensures r@ == self.sseq();
  fn vsub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [Self::E]) requires lo <= hi <= self.sseq().len() ensures r@ == self.sseq().subrange(lo as int, hi as int);
  fn vfrom<'a>(&'a self, lo: usize) -> (r: &'a [Self::E]) requires lo <= self.sseq().len() ensures r@ == self.sseq().subrange(lo as int, self.sseq().len() as int);
  fn vmut<'a>(&'a mut self) -> (r: &'a mut [Self::E]) ensures r@ == old(self).sseq(), final(self).sseq() == final(r)@, final(r)@.len() == r@.len();
  fn vchunks_mut<'a>(&'a mut self, c: usize) -> (r: VChunksMut<'a, Self::E>) requires c > 0 ensures r.s@ == old(self).sseq(), r.c == c, final(self).sseq() == final(r.s)@, final(r.s)@.len() == r.s@.len();
  fn vsub_mut<'a>(&'a mut self, lo: usize, hi: usize) -> (r: &'a mut [Self::E])
    requires lo <= hi <= old(self).sseq().len()
    ensures
      r@ == old(self).sseq().subrange(lo as int, hi as int),
      final(r)@.len() == r@.len(),
      final(self).sseq() == old(self).sseq().subrange(0, lo as int) + final(r)@ + old(self).sseq().subrange(hi as int, old(self).sseq().len() as int);
}
impl<T> VSeq for [T] {
  type E = T;
  open spec fn sseq(&self) -> Seq<T> { self@ }
  fn viter<'a>(&'a self) -> (r: VIter<'a, T>) { VIter { s: self, p: 0 } }
  fn vchunks<'a>(&'a self, c: usize) -> (r: VChunks<'a, T>) { VChunks { s: self, c, p: 0 } }
  fn vwindows<'a>(&'a self, w: usize) -> (r: VWindows<'a, T>) { VWindows { s: self, w } }
  fn vall<'a>(&'a self) -> (r: &'a [T]) { self }
  fn vsub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [T]) { vstd::slice::slice_subrange(self, lo, hi) }
  fn vfrom<'a>(&'a self, lo: usize) -> (r: &'a [T]) { let s = self; let n = s.len(); vstd::slice::slice_subrange(s, lo, n) }
  fn vmut<'a>(&'a mut self) -> (r: &'a mut [T]) { vsame_len(self) }
  fn vsub_mut<'a>(&'a mut self, lo: usize, hi: usize) -> (r: &'a mut [T]) { let s = self.vmut(); let (a, b) = s.split_at_mut(hi); let (c, d) = vsame_len(a).split_at_mut(lo); vsame_len(d) }
  fn vchunks_mut<'a>(&'a mut self, c: usize) -> (r: VChunksMut<'a, T>) { VChunksMut { s: self.vmut(), c } }
}
impl<T> VSeq for Vec<T> {
  type E = T;
  open spec fn sseq(&self) -> Seq<T> { self@ }
  fn viter<'a>(&'a self) -> (r: VIter<'a, T>) { VIter { s: self.as_slice(), p: 0 } }
  fn vchunks<'a>(&'a self, c: usize) -> (r: VChunks<'a, T>) { VChunks { s: self.as_slice(), c, p: 0 } }
  fn vwindows<'a>(&'a self, w: usize) -> (r: VWindows<'a, T>) { VWindows { s: self.as_slice(), w } }
  fn vall<'a>(&'a self) -> (r: &'a [T]) { self.as_slice() }
  fn vsub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [T]) { vstd::slice::slice_subrange(self.as_slice(), lo, hi) }
  fn vfrom<'a>(&'a self, lo: usize) -> (r: &'a [T]) { let s = self.as_slice(); let n = s.len(); vstd::slice::slice_subrange(s, lo, n) }
  fn vmut<'a>(&'a mut self) -> (r: &'a mut [T]) { vsame_len(self.as_mut_slice()) }
  fn vsub_mut<'a>(&'a mut self, lo: usize, hi: usize) -> (r: &'a mut [T]) { let s = self.vmut(); let (a, b) = s.split_at_mut(hi); let (c, d) = vsame_len(a).split_at_mut(lo); vsame_len(d) }
  fn vchunks_mut<'a>(&'a mut self, c: usize) -> (r: VChunksMut<'a, T>) { VChunksMut { s: self.vmut(), c } }
}
impl<T, const N: usize> VSeq for [T; N] {
  type E = T;
  open spec fn sseq(&self) -> Seq<T> { self@ }
  fn viter<'a>(&'a self) -> (r: VIter<'a, T>) { VIter { s: vstd::array::array_as_slice(self), p: 0 } }
  fn vchunks<'a>(&'a self, c: usize) -> (r: VChunks<'a, T>) { VChunks { s: vstd::array::array_as_slice(self), c, p: 0 } }
  fn vwindows<'a>(&'a self, w: usize) -> (r: VWindows<'a, T>) { VWindows { s: vstd::array::array_as_slice(self), w } }
  fn vall<'a>(&'a self) -> (r: &'a [T]) { vstd::array::array_as_slice(self) }
  fn vsub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [T]) { vstd::slice::slice_subrange(vstd::array::array_as_slice(self), lo, hi) }
  fn vfrom<'a>(&'a self, lo: usize) -> (r: &'a [T]) { let s = vstd::array::array_as_slice(self); let n = s.len(); vstd::slice::slice_subrange(s, lo, n) }
  fn vmut<'a>(&'a mut self) -> (r: &'a mut [T]) { vsame_len(self.as_mut_slice()) }
  fn vsub_mut<'a>(&'a mut self, lo: usize, hi: usize) -> (r: &'a mut [T]) { let s = self.vmut(); let (a, b) = s.split_at_mut(hi); let (c, d) = vsame_len(a).split_at_mut(lo); vsame_len(d) }
  fn vchunks_mut<'a>(&'a mut self, c: usize) -> (r: VChunksMut<'a, T>) { VChunksMut { s: self.vmut(), c } }
}
pub assume_specification<T, const N: usize>[ <[T; N]>::as_mut_slice ](s: &mut [T; N]) -> (r: &mut [T])
  ensures r@ == old(s)@, final(s)@ == final(r)@;
/// copies of the elements of a slice
pub fn vcopy<T: Copy>(s: &[T]) -> (r: Vec<T>)
  ensures r@ == s@
{
  let mut r: Vec<T> = Vec::new();
  let n = s.len();
  let mut k = 0;
  while k < n
    invariant k <= n, n == s@.len(), r@ == s@.subrange(0, k as int),
    decreases n - k,
  {
    r.push(s[k]);
    k = k + 1;
    assert(s@.subrange(0, k as int) =~= s@.subrange(0, k - 1).push(s@[k - 1]));
  }
  assert(s@.subrange(0, k as int) =~= s@);
  r
}
/// what a vector can be extended by
pub trait VToSeq<T>: Sized {
  spec fn tseq(self) -> Seq<T>;
  fn tvec(self) -> (r: Vec<T>) ensures r@ == self.tseq();
}
impl<T> VToSeq<T> for Vec<T> { open spec fn tseq(self) -> Seq<T> { self@ } fn tvec(self) -> (r: Vec<T>) { self } }
impl<T> VToSeq<T> for VOwn<T> { open spec fn tseq(self) -> Seq<T> { self.v@ } fn tvec(self) -> (r: Vec<T>) { self.v } }
impl<'a, T: Copy> VToSeq<T> for &'a Vec<T> { open spec fn tseq(self) -> Seq<T> { self@ } fn tvec(self) -> (r: Vec<T>) { vcopy(self.as_slice()) } }
impl<'a, T: Copy> VToSeq<T> for &'a [T] { open spec fn tseq(self) -> Seq<T> { self@ } fn tvec(self) -> (r: Vec<T>) { vcopy(self) } }
impl<'a, T: Copy> VToSeq<T> for VIter<'a, T> {
  open spec fn tseq(self) -> Seq<T> { if self.p <= self.s@.len() { self.s@.subrange(self.p as int, self.s@.len() as int) } else { Seq::empty() } }
  fn tvec(self) -> (r: Vec<T>) { let n = self.s.len(); if self.p <= n { vcopy(vstd::slice::slice_subrange(self.s, self.p, n)) } else { Vec::new() } }
}
impl<T> VToSeq<T> for Option<T> {
  open spec fn tseq(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
  fn tvec(self) -> (r: Vec<T>) { match self { Some(x) => vlit1(x), None => Vec::new() } }
}
impl<T: Copy, const N: usize> VToSeq<T> for [T; N] { open spec fn tseq(self) -> Seq<T> { self@ } fn tvec(self) -> (r: Vec<T>) { vcopy(vstd::array::array_as_slice(&self)) } }
pub trait VGrow<T> {
  spec fn gseq(&self) -> Seq<T>;
  fn vextend<X: VToSeq<T>>(&mut self, x: X) ensures final(self).gseq() == old(self).gseq() + x.tseq();
  fn vdrain(&mut self, lo: usize, hi: usize) -> (r: Vec<T>)
    requires lo <= hi <= old(self).gseq().len()
    ensures
      r@ == old(self).gseq().subrange(lo as int, hi as int),
      final(self).gseq() == old(self).gseq().subrange(0, lo as int) + old(self).gseq().subrange(hi as int, old(self).gseq().len() as int);
  fn vsplice<X: VToSeq<T>>(&mut self, lo: usize, hi: usize, x: X)
    requires lo <= hi <= old(self).gseq().len()
    ensures final(self).gseq() == old(self).gseq().subrange(0, lo as int) + x.tseq() + old(self).gseq().subrange(hi as int, old(self).gseq().len() as int);
}
impl<T> VGrow<T> for Vec<T> {
  open spec fn gseq(&self) -> Seq<T> { self@ }
  fn vextend<X: VToSeq<T>>(&mut self, x: X) { let mut y = x.tvec(); self.append(&mut y); }
  fn vdrain(&mut self, lo: usize, hi: usize) -> (r: Vec<T>) { let mut t = self.split_off(lo); let mut u = t.split_off(hi - lo); self.append(&mut u); t }
  fn vsplice<X: VToSeq<T>>(&mut self, lo: usize, hi: usize, x: X) {
    let mut t = self.split_off(lo);
    let mut u = t.split_off(hi - lo);
    let mut y = x.tvec();
    self.append(&mut y);
    self.append(&mut u);
  }
}
#[verifier::external_body]
pub fn vrep<T>(x: T, n: usize) -> (r: Vec<T>)
  ensures r@ == Seq::new(n as nat, |k: int| x)
{ unimplemented!() }
/// any truth value (only used by the vacuity probes)
#[verifier::external_body]
pub fn vany() -> bool { unimplemented!() }
pub fn vlit1<T>(x: T) -> (r: Vec<T>)
  ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); v }
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
  ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
  ensures r@ == s@;
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
  ensures r == (match o { Some(x) => Some(*x), None => None });

