@raw
// ---------------------------------------------------------------- files and texts (C17, C19)
#[derive(Debug)]
#[verifier::external_body]
pub struct IoFault { x: u8 }
/// an open file: its name, and for reading its bytes and the place reached
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
  pub uninterp spec fn bytes(&self) -> Seq<u8>;
  pub uninterp spec fn pos(&self) -> int;
  /// a read of a regular file without faults: as many bytes as there are, at most the buffer
  #[verifier::external_body]
  pub fn read<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<usize, IoFault>)
    ensures
      r is Ok, final(self).bytes() == old(self).bytes(), final(self).pos() == old(self).pos() + r->Ok_0,
      0 <= old(self).pos() <= old(self).bytes().len() ==> r->Ok_0 == (if N <= old(self).bytes().len() - old(self).pos() { N as int } else { old(self).bytes().len() - old(self).pos() }),
      forall |i: int| 0 <= i < N ==> #[trigger] final(buf)@[i] == if i < r->Ok_0 { old(self).bytes()[old(self).pos() + i] } else { old(buf)@[i] },
  { unimplemented!() }
  pub uninterp spec fn name(&self) -> Seq<char>;
  /// creates or empties the file of that name, or reports a fault
  #[verifier::external_body]
  pub fn create<P: VDisp>(path: P, disk: &mut Disk) -> (r: Result<File, IoFault>)
    ensures
      r is Ok ==> r->Ok_0.name() == path.txt() && final(disk).files() == old(disk).files().insert(path.txt(), Seq::empty()) && final(disk).faults() == old(disk).faults(),
      r is Err ==> final(disk).faults() == old(disk).faults() + 1,
  { unimplemented!() }
  /// all of the text is added to the file, or a fault is reported
  #[verifier::external_body]
  pub fn vwrite<X: VDisp>(&mut self, t: &X, disk: &mut Disk) -> (r: Result<(), IoFault>)
    ensures
      final(self).name() == old(self).name(),
      r is Ok ==> final(disk).files() == old(disk).files().insert(old(self).name(), old(disk).files()[old(self).name()] + t.txt()) && final(disk).faults() == old(disk).faults(),
      r is Err ==> final(disk).faults() == old(disk).faults() + 1,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vflush(&mut self, disk: &mut Disk) -> (r: Result<(), IoFault>)
    ensures
      final(self).name() == old(self).name(),
      r is Ok ==> final(disk).files() == old(disk).files() && final(disk).faults() == old(disk).faults(),
      r is Err ==> final(disk).faults() == old(disk).faults() + 1,
  { unimplemented!() }
}
/// the contents of the files, and how many operations on them failed so far
#[verifier::external_body]
pub struct Disk { x: u8 }
impl Disk {
  pub uninterp spec fn files(&self) -> Map<Seq<char>, Seq<char>>;
  pub uninterp spec fn faults(&self) -> nat;
}
/// a buffer in front of a file: what was written to it reaches the file when it is flushed
#[verifier::external_body]
pub struct VBuf { x: u8 }
impl VBuf {
  pub uninterp spec fn name(&self) -> Seq<char>;
  pub uninterp spec fn held(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn new(f: File) -> (r: VBuf) ensures r.name() == f.name(), r.held() == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn vwrite<X: VDisp>(&mut self, t: &X, disk: &mut Disk) -> (r: Result<(), IoFault>)
    ensures
      final(self).name() == old(self).name(),
      r is Ok ==> final(disk).files() == old(disk).files() && final(self).held() == old(self).held() + t.txt() && final(disk).faults() == old(disk).faults(),
      r is Err ==> final(disk).faults() == old(disk).faults() + 1,
  { unimplemented!() }
  #[verifier::external_body]
  pub fn vflush(&mut self, disk: &mut Disk) -> (r: Result<(), IoFault>)
    ensures
      final(self).name() == old(self).name(),
      r is Ok ==> final(disk).files() == old(disk).files().insert(old(self).name(), old(disk).files()[old(self).name()] + old(self).held()) && final(self).held() == Seq::<char>::empty() && final(disk).faults() == old(disk).faults(),
      r is Err ==> final(disk).faults() == old(disk).faults() + 1,
  { unimplemented!() }
}
/// values with a printed form
pub trait VDisp: Sized {
  spec fn txt(&self) -> Seq<char>;
  /// the printed form asked for by a format specification
  spec fn txt_as(&self, f: Seq<char>) -> Seq<char>;
}
pub uninterp spec fn e_text(x: Elem) -> Seq<char>;
pub uninterp spec fn e_text_as(x: Elem, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn s_text_as(x: Seq<char>, f: Seq<char>) -> Seq<char>;
pub uninterp spec fn n_text(x: usize) -> Seq<char>;
pub uninterp spec fn n_text_as(x: usize, f: Seq<char>) -> Seq<char>;
impl VDisp for Elem { open spec fn txt(&self) -> Seq<char> { e_text(*self) } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { e_text_as(*self, f) } }
impl VDisp for usize { open spec fn txt(&self) -> Seq<char> { n_text(*self) } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { n_text_as(*self, f) } }
impl VDisp for char { open spec fn txt(&self) -> Seq<char> { seq![*self] } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { s_text_as(seq![*self], f) } }
impl VDisp for String { open spec fn txt(&self) -> Seq<char> { self@ } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { s_text_as(self@, f) } }
impl<'a, X: VDisp> VDisp for &'a X { open spec fn txt(&self) -> Seq<char> { (**self).txt() } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { (**self).txt_as(f) } }
/// a text being put together
#[verifier::external_body]
pub struct VText { x: u8 }
pub uninterp spec fn t_text(x: VText) -> Seq<char>;
impl VDisp for VText { open spec fn txt(&self) -> Seq<char> { t_text(*self) } open spec fn txt_as(&self, f: Seq<char>) -> Seq<char> { s_text_as(self.txt(), f) } }
impl VText {
  #[verifier::external_body]
  pub fn new() -> (r: VText) ensures r.txt() == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn of<X: VDisp>(x: X) -> (r: VText) ensures r.txt() == x.txt() { unimplemented!() }
  #[verifier::external_body]
  pub fn vch(self, c: char) -> (r: VText) ensures r.txt() == self.txt().push(c) { unimplemented!() }
  #[verifier::external_body]
  pub fn vdisp<X: VDisp>(self, x: &X) -> (r: VText) ensures r.txt() == self.txt() + x.txt() { unimplemented!() }
  #[verifier::external_body]
  pub fn vdisp_as<X: VDisp>(self, f: &VText, x: &X) -> (r: VText) ensures r.txt() == self.txt() + x.txt_as(f.txt()) { unimplemented!() }
  #[verifier::external_body]
  pub fn vpush_str<X: VDisp>(&mut self, x: &X) ensures final(self).txt() == old(self).txt() + x.txt() { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, c: char) ensures final(self).txt() == old(self).txt().push(c) { unimplemented!() }
}
