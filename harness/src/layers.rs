//! Reference layers, forward and backward, and their construction through the public interface.
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, flatten::Flatten, reduce::Reduce, CLayer};
use renplex::init::InitMethod;
use renplex::input::IOShape;
use crate::ctx::Rng;
use crate::refm::*;

#[derive(Clone, Debug)]
pub enum L<T> {
  Dense { w: M<T>, b: Vec<T>, f: ComplexActFunc },
  Conv { k: Vec<Vec<M<T>>>, b: Vec<T>, f: ComplexActFunc },
  Reduce { n: usize, blk: [usize; 2], bf: u8, ker: M<T> },
  Flat { r: usize, c: usize, n: usize },
}

pub fn block_fn<T: Num>(id: u8) -> Box<dyn Fn(&[T]) -> T> {
  match id {
    0 => Box::new(|b: &[T]| {
      let mut acc = T::default();
      for (i, x) in b.iter().enumerate() { acc = acc + T::usize_to_complex(i + 1) * *x }
      acc
    }),
    1 => Box::new(|b: &[T]| b[0]),
    2 => Box::new(|b: &[T]| b[b.len() - 1]),
    _ => Box::new(|b: &[T]| {
      let mut acc = T::default();
      for x in b { acc = acc + *x }
      acc + T::usize_to_complex(b.len())
    }),
  }
}

impl<T: Num> L<T> {
  pub fn dense(r: &mut Rng, inp: usize, units: usize, f: ComplexActFunc) -> L<T> {
    L::Dense { w: M::rnd(r, units, inp), b: vals(r, units), f }
  }
  pub fn conv(r: &mut Rng, ch: usize, filters: usize, kr: usize, kc: usize, f: ComplexActFunc) -> L<T> {
    L::Conv { k: (0..filters).map(|_| (0..ch).map(|_| M::rnd(r, kr, kc)).collect()).collect(), b: vals(r, filters), f }
  }
  pub fn name(&self) -> String {
    match self {
      L::Dense { w, f, .. } => format!("dense({}->{},{:?})", w.c, w.r, f),
      L::Conv { k, f, .. } => format!("conv({}ch,{}f,{}x{},{:?})", k[0].len(), k.len(), k[0][0].r, k[0][0].c, f),
      L::Reduce { n, blk, bf, ker } => format!("reduce({},{:?},fn{},{}x{})", n, blk, bf, ker.r, ker.c),
      L::Flat { r, c, n } => format!("flatten({}x{}x{})", n, r, c),
    }
  }
  pub fn flat_params(&self) -> (Vec<T>, Vec<T>) {
    match self {
      L::Dense { w, b, .. } => (w.d.clone(), b.clone()),
      L::Conv { k, b, .. } => (k.iter().flat_map(|f| f.iter().flat_map(|m| m.d.clone())).collect(), b.clone()),
      _ => (vec![], vec![]),
    }
  }
  pub fn set_params(&mut self, nw: &[T], nb: &[T]) {
    match self {
      L::Dense { w, b, .. } => { w.d.copy_from_slice(nw); b.copy_from_slice(nb) }
      L::Conv { k, b, .. } => {
        let mut it = nw.iter();
        for f in k { for m in f { for x in m.d.iter_mut() { *x = *it.next().unwrap() } } }
        b.copy_from_slice(nb)
      }
      _ => {}
    }
  }
  /// The real layer holding these parameters: zero weights from the initialiser,
  /// then one adjustment by minus the conjugate.
  pub fn build(&self) -> CLayer<T> {
    let neg = |v: &Vec<T>| -> Vec<T> { v.iter().map(|x| T::default() - x.conj()).collect() };
    let seed = &mut 7u128;
    let (pw, pb) = self.flat_params();
    T::push_gen(&vec![T::default(); pw.len()]);
    match self {
      L::Dense { w, f, .. } => {
        let mut l: DenseCLayer<T> = DenseCLayer::init(IOShape::Scalar(w.c), w.r, *f, InitMethod::Uniform(0), seed).unwrap();
        l.neg_conj_adjustment(neg(&pw), neg(&pb)).unwrap();
        l.wrap()
      }
      L::Conv { k, f, .. } => {
        let mut l: ConvCLayer<T> = ConvCLayer::init(IOShape::Matrix(k[0].len()), k.len(), [k[0][0].r, k[0][0].c], *f, InitMethod::Uniform(0), seed).unwrap();
        l.neg_conj_adjustment(neg(&pw), neg(&pb)).unwrap();
        l.wrap()
      }
      L::Reduce { n, blk, bf, ker } => Reduce::init(*n, *blk, block_fn::<T>(*bf), ker.real()).wrap(),
      L::Flat { r, c, n } => Flatten::init([*r, *c], *n).wrap(),
    }
  }
  pub fn inp(&self) -> (char, usize) {
    match self {
      L::Dense { w, .. } => ('V', w.c),
      L::Conv { k, .. } => ('F', k[0].len()),
      L::Reduce { n, .. } => ('F', *n),
      L::Flat { n, .. } => ('F', *n),
    }
  }
  pub fn out(&self) -> (char, usize) {
    match self {
      L::Dense { w, .. } => ('V', w.r),
      L::Conv { k, .. } => ('F', k.len()),
      L::Reduce { n, .. } => ('F', *n),
      L::Flat { n, r, c } => ('V', n * r * c),
    }
  }
  pub fn n_params(&self) -> (usize, usize) { let (w, b) = self.flat_params(); (w.len(), b.len()) }
  pub fn propagates(&self) -> bool { !matches!(self, L::Flat { .. }) }

  pub fn pre(&self, x: &IO<T>) -> IO<T> {
    match (self, x) {
      (L::Dense { w, b, .. }, IO::V(x)) =>
        IO::V((0..w.r).map(|i| dot(&w.d[i * w.c..(i + 1) * w.c], x) + b[i]).collect()),
      (L::Conv { k, b, .. }, IO::F(x)) => IO::F(k.iter().zip(b.iter()).map(|(ks, b)| {
        let mut acc = x[0].conv(&ks[0]);
        for c in 1..x.len() { acc = acc.add(&x[c].conv(&ks[c])) }
        for v in acc.d.iter_mut() { *v = *v + *b }
        acc
      }).collect()),
      _ => panic!("reference: wrong input"),
    }
  }
  pub fn forward(&self, x: &IO<T>) -> IO<T> {
    match self {
      L::Dense { f, .. } | L::Conv { f, .. } => match self.pre(x) {
        IO::V(v) => IO::V(v.iter().map(|q| q.activate(f)).collect()),
        IO::F(v) => IO::F(v.into_iter().map(|m| M { r: m.r, c: m.c, d: m.d.iter().map(|q| q.activate(f)).collect() }).collect()),
      },
      L::Reduce { blk, bf, .. } => match x {
        IO::F(v) => IO::F(v.iter().map(|m| m.reduce(*blk, &block_fn::<T>(*bf))).collect()),
        _ => panic!("reference: wrong input"),
      },
      L::Flat { .. } => IO::V(x.flat()),
    }
  }
  /// (dw, db, dx, dx*)
  pub fn backward(&self, x: &IO<T>, d: &[T], dc: &[T]) -> (Vec<T>, Vec<T>, Vec<T>, Vec<T>) {
    match self {
      L::Dense { w, f, .. } => {
        let q = self.pre(x).flat();
        let x = x.flat();
        let dq: Vec<T> = (0..w.r).map(|i| q[i].d_activate(f) * d[i] + q[i].d_conj_activate(f).conj() * dc[i]).collect();
        let mut dw = vec![];
        for i in 0..w.r { for j in 0..w.c { dw.push(x[j] * dq[i]) } }
        let dx: Vec<T> = (0..w.c).map(|j| { let mut a = T::default(); for i in 0..w.r { a = a + w.at(i, j) * dq[i] } a }).collect();
        let dxc = dx.iter().map(|v| v.conj()).collect();
        (dw, dq, dx, dxc)
      }
      L::Conv { k, f, .. } => {
        let IO::F(qs) = self.pre(x) else { panic!() };
        let IO::F(xs) = x else { panic!() };
        let (or, oc) = (qs[0].r, qs[0].c);
        let (kr, kc) = (k[0][0].r, k[0][0].c);
        let n = or * oc;
        let dq: Vec<M<T>> = qs.iter().enumerate().map(|(fi, q)| M::new(or, oc, (0..n).map(|t|
          q.d[t].d_activate(f) * d[fi * n + t] + q.d[t].d_conj_activate(f).conj() * dc[fi * n + t]).collect())).collect();
        let mut dk = vec![];
        let mut db = vec![];
        for fi in 0..k.len() {
          for c in 0..xs.len() { for u in 0..kr { for v in 0..kc {
            let mut a = T::default();
            for i in 0..or { for j in 0..oc { a = a + xs[c].at(i + u, j + v) * dq[fi].at(i, j) } }
            dk.push(a);
          } } }
          let mut a = T::default();
          for t in 0..n { a = a + dq[fi].d[t] }
          db.push(a);
        }
        let mut dx = vec![];
        for c in 0..xs.len() { for a in 0..xs[c].r { for b in 0..xs[c].c {
          let mut s = T::default();
          for fi in 0..k.len() { for u in 0..kr { for v in 0..kc {
            if a >= u && b >= v && a - u < or && b - v < oc { s = s + k[fi][c].at(u, v) * dq[fi].at(a - u, b - v) }
          } } }
          dx.push(s);
        } } }
        let dxc = dx.iter().map(|v| v.conj()).collect();
        (dk, db, dx, dxc)
      }
      L::Reduce { blk, ker, .. } => {
        let IO::F(xs) = x else { panic!() };
        let up = |d: &[T]| -> Vec<T> {
          let mut o = vec![]; let mut at = 0;
          for m in xs {
            let (r, c) = (m.r / blk[0], m.c / blk[1]);
            o.extend(M::new(r, c, d[at..at + r * c].to_vec()).upsample(*blk, ker).d);
            at += r * c;
          }
          o
        };
        (vec![], vec![], up(d), up(dc))
      }
      L::Flat { .. } => (vec![], vec![], d.to_vec(), dc.to_vec()),
    }
  }
}
