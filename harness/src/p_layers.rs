//! C07, C08, C15 (layer part)
use renplex::act::ComplexActFunc;
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, flatten::Flatten, reduce::Reduce, CLayer};
use renplex::init::InitMethod;
use renplex::input::IOShape;
use renplex::math::cfloat::{Cf32, Cf64};
use crate::ctx::*;
use crate::gf::G;
use crate::layers::*;
use crate::refm::*;

/// A layer together with a matching input.
#[derive(Clone)]
pub struct Lx<T> { pub l: L<T>, pub x: IO<T> }

pub fn maps<T: Num>(r: &mut Rng, n: usize, h: usize, w: usize) -> IO<T> { IO::F((0..n).map(|_| M::rnd(r, h, w)).collect()) }

/// Layer configurations: kind k, small or larger sizes.
pub fn pick<T: Num>(r: &mut Rng, kind: usize, big: bool) -> Lx<T> {
  let acts = T::acts();
  let f = acts[r.range(0, acts.len() - 1)];
  match kind {
    0 => {
      let (i, u) = if big { (r.range(1, 150), r.range(1, 90)) } else { (r.range(1, 7), r.range(1, 6)) };
      Lx { l: L::dense(r, i, u, f), x: IO::V(vals(r, i)) }
    }
    1 => {
      let (ch, fl) = if big { (r.range(1, 5), r.range(1, 9)) } else { (r.range(1, 3), r.range(1, 3)) };
      let (kr, kc) = if big { (r.range(1, 6), r.range(1, 6)) } else { (r.range(1, 3), r.range(1, 3)) };
      let (h, w) = (kr + r.range(0, if big { 14 } else { 3 }), kc + r.range(0, if big { 14 } else { 3 }));
      Lx { l: L::conv(r, ch, fl, kr, kc, f), x: maps(r, ch, h, w) }
    }
    2 => {
      let n = r.range(1, if big { 12 } else { 3 });
      let blk = [r.range(1, if big { 6 } else { 3 }), r.range(1, if big { 6 } else { 3 })];
      let (h, w) = (blk[0] * r.range(1, 4), blk[1] * r.range(1, 4));
      let (ka, kb) = (1 + 2 * r.range(0, 2), 1 + 2 * r.range(0, 2));
      let ker = M::rnd(r, ka, kb);
      Lx { l: L::Reduce { n, blk, bf: r.range(0, 3) as u8, ker }, x: maps(r, n, h, w) }
    }
    _ => {
      let (n, h, w) = if big { (r.range(1, 20), r.range(1, 15), r.range(1, 15)) } else { (r.range(1, 4), r.range(1, 4), r.range(1, 4)) };
      Lx { l: L::Flat { r: h, c: w, n }, x: maps(r, n, h, w) }
    }
  }
}

fn wrapped_agrees<T: Num>(w: &CLayer<T>, l: &L<T>) -> Result<(), String> {
  // the inner layer, asked directly
  let (i, o, p, e, pr) = match w {
    CLayer::Dense(d) => (d.get_input_shape(), d.get_output_shape(), d.params_len(), d.is_empty(), d.propagates()),
    CLayer::Convolutional(d) => (d.get_input_shape(), d.get_output_shape(), d.params_len(), d.is_empty(), d.propagates()),
    CLayer::Reduce(d) => (d.get_input_shape(), d.get_output_shape(), d.params_len(), d.is_empty(), d.propagates()),
    CLayer::Flatten(d) => (d.get_input_shape(), d.get_output_shape(), (0, 0), d.is_empty(), d.propagates()),
  };
  same("wrapped input shape", &w.get_input_shape(), &i)?;
  same("wrapped output shape", &w.get_output_shape(), &o)?;
  same("wrapped parameter count", &w.params_len(), &p)?;
  same("wrapped emptiness", &w.is_empty(), &e)?;
  same("wrapped propagates", &w.propagates(), &pr)?;
  shape_is(&i, l.inp().0, l.inp().1).map_err(|e| format!("declared input: {}", e))?;
  shape_is(&o, l.out().0, l.out().1).map_err(|e| format!("declared output: {}", e))?;
  same("parameter count", &p, &l.n_params())?;
  same("emptiness", &e, &false)?;
  same("propagates", &pr, &l.propagates())?;
  match (w, l) {
    (CLayer::Dense(_), L::Dense { .. }) | (CLayer::Convolutional(_), L::Conv { .. }) | (CLayer::Reduce(_), L::Reduce { .. }) | (CLayer::Flatten(_), L::Flat { .. }) => Ok(()),
    _ => Err("wrapped into another kind of layer".to_string()),
  }
}

fn fwd<T: Num>(s: u64, kind: usize, big: bool) -> Result<(), String> {
  let mut r = Rng(s);
  let t: Lx<T> = pick(&mut r, kind, big);
  let name = t.l.name();
  let real = t.l.build();
  let tag = |e: String| format!("{}: {}", name, e);
  wrapped_agrees(&real, &t.l).map_err(tag)?;
  let want = t.l.forward(&t.x);
  let xin = t.x.real();
  let direct = match &real {
    CLayer::Dense(d) => d.forward(&xin), CLayer::Convolutional(d) => d.forward(&xin),
    CLayer::Reduce(d) => d.foward(&xin), CLayer::Flatten(d) => d.foward(&xin),
  };
  want.is(&direct.map_err(|e| format!("{}: refused {:?}", name, e))?).map_err(tag)?;
  want.is(&real.foward(&xin).map_err(|e| format!("{}: refused {:?}", name, e))?).map_err(|e| format!("{} wrapped: {}", name, e))?;
  t.x.is(&xin).map_err(|e| format!("{}: input changed: {}", name, e))?;
  match (&want, t.l.out()) { (IO::V(v), ('V', n)) if v.len() == n => {} (IO::F(v), ('F', n)) if v.len() == n => {} _ => return Err(format!("{}: declared output shape", name)) }
  // wrong kind, wrong number of features
  let (k, n) = t.l.inp();
  let mut bad: Vec<IO<T>> = vec![];
  if k == 'V' {
    bad.push(maps(&mut r, 1, 1, n)); bad.push(maps(&mut r, n, 2, 2));
    for m in [n + 1, n.wrapping_sub(1), 2 * n, 0] { if m != n && m < 1000 { bad.push(IO::V(vals(&mut r, m))) } }
  } else {
    let IO::F(x) = &t.x else { unreachable!() };
    bad.push(IO::V(t.x.flat())); bad.push(IO::V(vals(&mut r, n)));
    for m in [n + 1, n - 1, 2 * n, 0] { if m != n { bad.push(maps(&mut r, m, x[0].r, x[0].c)) } }
  }
  for b in bad {
    let res = quiet(|| real.foward(&b.real()).is_err());
    let d = match &b { IO::V(v) => format!("vector of {}", v.len()), IO::F(f) => format!("{} maps", f.len()) };
    match res { Ok(true) => {} Ok(false) => return Err(format!("{}: accepted a {}", name, d)), Err(p) => return Err(format!("{}: panicked on a {}: {}", name, d, p)) }
  }
  Ok(())
}

pub fn c07(c: &mut Ctx) {
  let mut r = c.rng("c07");
  let n = if c.thorough { 12000 } else { 1800 };
  for k in 0..n {
    let s = r.next();
    let (kind, big) = (k % 4, k % 9 == 8);
    match (k / 4) % 4 {
      2 => c.case(format!("forward cf32 kind={} big={} seed={}", kind, big, s), || fwd::<Cf32>(s, kind, big)),
      3 => c.case(format!("forward cf64 kind={} big={} seed={}", kind, big, s), || fwd::<Cf64>(s, kind, big)),
      _ => c.case(format!("forward exact kind={} big={} seed={}", kind, big, s), || fwd::<G>(s, kind, big)),
    }
  }
  for (i, u) in [(1, 1), (1, 64), (64, 1), (257, 33), (33, 257), (784, 100), (1025, 3), (3, 1025)] {
    c.case(format!("dense {}->{}", i, u), || {
      let mut r = Rng((i * 1000 + u) as u64);
      let l: L<G> = L::dense(&mut r, i, u, ComplexActFunc::Cardioid);
      let x = IO::V(vals(&mut r, i));
      l.forward(&x).is(&l.build().foward(&x.real()).map_err(|e| format!("{:?}", e))?)
    });
  }
  for (ch, fl, kr, kc, h, w) in [(1, 4, 3, 3, 28, 28), (9, 2, 2, 5, 12, 13), (2, 17, 1, 1, 6, 6), (3, 3, 8, 3, 20, 9), (16, 1, 3, 3, 8, 8)] {
    c.case(format!("conv {}ch {}f {}x{} on {}x{}", ch, fl, kr, kc, h, w), || {
      let mut r = Rng((ch * 1000 + fl) as u64);
      let l: L<G> = L::conv(&mut r, ch, fl, kr, kc, ComplexActFunc::ZReLU);
      let x = maps(&mut r, ch, h, w);
      l.forward(&x).is(&l.build().foward(&x.real()).map_err(|e| format!("{:?}", e))?)
    });
  }
}

/// Parameters of a layer read back through its behaviour: q = W x + b probed with unit
/// inputs. Only for the identity activation or through the exact type's derivatives, so the
/// probes use the gradient with respect to the input instead: dL/dx for dL/da = e_i.
pub fn probe<T: Num>(real: &CLayer<T>, l: &L<T>) -> Result<(), String> {
  let mut r = Rng(0xABCDEF);
  for round in 0..2 {
    let x: IO<T> = match l {
      L::Dense { w, .. } => if round == 0 { IO::V(vec![T::default(); w.c]) } else { IO::V(T_rand(&mut r, w.c)) },
      L::Conv { k, .. } => {
        let (h, w) = (k[0][0].r + round, k[0][0].c + 2 * round);
        IO::F((0..k[0].len()).map(|_| M::new(h, w, if round == 0 { vec![T::default(); h * w] } else { T_rand(&mut r, h * w) })).collect())
      }
      _ => return Ok(()),
    };
    l.forward(&x).is(&real.foward(&x.real()).map_err(|e| format!("{:?}", e))?).map_err(|e| format!("parameters differ (probe {}): {}", round, e))?;
    let n = l.forward(&x).flat().len();
    for _ in 0..2 {
      let d: Vec<T> = T_rand(&mut r, n);
      let dc: Vec<T> = d.iter().map(|v| v.conj()).collect();
      let want = l.backward(&x, &d, &dc);
      let got = real.compute_derivatives(&x.real(), d, dc).map_err(|e| format!("{:?}", e))?;
      same("parameters differ (gradient probe)", &got.2, &want.2)?;
    }
  }
  Ok(())
}
#[allow(non_snake_case)]
fn T_rand<T: Num>(r: &mut Rng, n: usize) -> Vec<T> { (0..n).map(|_| T::any(r)).collect() }

fn bwd<T: Num>(s: u64, kind: usize, big: bool, act: Option<ComplexActFunc>) -> Result<(), String> {
  let mut r = Rng(s);
  let mut t: Lx<T> = pick(&mut r, kind, big);
  if let Some(a) = act { match &mut t.l { L::Dense { f, .. } | L::Conv { f, .. } => *f = a, _ => {} } }
  let name = t.l.name();
  let real = t.l.build();
  let n = t.l.forward(&t.x).flat().len();
  let d: Vec<T> = vals(&mut r, n);
  let dc: Vec<T> = if r.range(0, 2) == 0 { vals(&mut r, n) } else { d.iter().map(|v| v.conj()).collect() };
  let want = t.l.backward(&t.x, &d, &dc);
  let xin = t.x.real();
  let got = match &real {
    CLayer::Dense(l) => l.compute_derivatives(&xin, d.clone(), dc.clone()),
    CLayer::Convolutional(l) => l.compute_derivatives(&xin, d.clone(), dc.clone()),
    CLayer::Reduce(l) => l.compute_derivatives(&xin, d.clone(), dc.clone()),
    _ => unreachable!(),
  }.map_err(|e| format!("{}: refused {:?}", name, e))?;
  let again = real.compute_derivatives(&xin, d.clone(), dc.clone()).map_err(|e| format!("{}: refused {:?}", name, e))?;
  for (form, g) in [("", &got), (" (wrapped)", &again)] {
    same(&format!("{}{}: weight gradient", name, form), &g.0, &want.0)?;
    same(&format!("{}{}: bias gradient", name, form), &g.1, &want.1)?;
    same(&format!("{}{}: input gradient", name, form), &g.2, &want.2)?;
    same(&format!("{}{}: conjugate input gradient", name, form), &g.3, &want.3)?;
  }
  if kind == 0 {
    for (a, b) in [(n + 1, n), (n, n + 1), (n - 1, n), (n, n - 1), (n + 1, n + 1)] {
      let res = quiet(|| real.compute_derivatives(&xin, vals(&mut r, a), vals(&mut r, b)).is_err());
      ensure(res == Ok(true), || format!("{}: gradients of sizes {} and {} for {} outputs: {:?}", name, a, b, n, res))?;
    }
  }
  Ok(())
}

fn adjust<T: Num>(s: u64, kind: usize, big: bool) -> Result<(), String> {
  let mut r = Rng(s);
  let t: Lx<T> = pick(&mut r, kind, big);
  let name = t.l.name();
  let mut real = t.l.build();
  let (nw, nb) = t.l.n_params();
  probe(&real, &t.l).map_err(|e| format!("{} before: {}", name, e))?;
  for (a, b) in [(nw + 1, nb), (nw, nb + 1), (nw - 1, nb), (nw, nb - 1), (nw + 1, nb - 1), (0, nb), (nw, 0), (nb, nw)] {
    if (a, b) == (nw, nb) { continue }
    let res = quiet(|| real.neg_conj_adjustment(vals(&mut r, a), vals(&mut r, b)).is_err());
    ensure(res == Ok(true), || format!("{}: adjustment of sizes {} and {} for {} and {} parameters: {:?}", name, a, b, nw, nb, res))?;
    probe(&real, &t.l).map_err(|e| format!("{}: refused adjustment changed the layer: {}", name, e))?;
  }
  let (dw, db): (Vec<T>, Vec<T>) = (vals(&mut r, nw), vals(&mut r, nb));
  let mut l2 = t.l.clone();
  let (w, b) = t.l.flat_params();
  let nw2: Vec<T> = w.iter().zip(dw.iter()).map(|(a, d)| *a - d.conj()).collect();
  let nb2: Vec<T> = b.iter().zip(db.iter()).map(|(a, d)| *a - d.conj()).collect();
  l2.set_params(&nw2, &nb2);
  if r.range(0, 1) == 0 { real.neg_conj_adjustment(dw, db) } else {
    match &mut real { CLayer::Dense(d) => d.neg_conj_adjustment(dw, db), CLayer::Convolutional(d) => d.neg_conj_adjustment(dw, db), _ => unreachable!() }
  }.map_err(|e| format!("{}: refused {:?}", name, e))?;
  probe(&real, &l2).map_err(|e| format!("{} after: {}", name, e))?;
  wrapped_agrees(&real, &l2)
}

pub fn c08(c: &mut Ctx) {
  let mut r = c.rng("c08");
  let n = if c.thorough { 12000 } else { 1500 };
  for k in 0..n {
    let s = r.next();
    let (kind, big) = (k % 3, k % 10 == 9);
    match (k / 3) % 4 {
      2 => c.case(format!("gradients cf32 kind={} big={} seed={}", kind, big, s), || bwd::<Cf32>(s, kind, big, None)),
      3 => c.case(format!("gradients cf64 kind={} big={} seed={}", kind, big, s), || bwd::<Cf64>(s, kind, big, None)),
      _ => c.case(format!("gradients exact kind={} big={} seed={}", kind, big, s), || bwd::<G>(s, kind, big, None)),
    }
  }
  for a in G::acts() { for kind in 0..2 {
    let s = r.next();
    c.case(format!("gradients exact kind={} act={:?} seed={}", kind, a, s), || bwd::<G>(s, kind, false, Some(a)));
  } }
  for k in 0..n / 4 {
    let s = r.next();
    let (kind, big) = (k % 2, k % 10 == 9);
    if k % 4 == 3 { c.case(format!("adjust cf32 kind={} big={} seed={}", kind, big, s), || adjust::<Cf32>(s, kind, false)) }
    else { c.case(format!("adjust exact kind={} big={} seed={}", kind, big, s), || adjust::<G>(s, kind, big)) }
  }
  for (i, u) in [(1, 1), (1, 40), (40, 1), (129, 17), (300, 3), (3, 300)] {
    c.case(format!("dense gradients {}->{}", i, u), || {
      let mut r = Rng((i * 777 + u) as u64);
      let l: L<G> = L::dense(&mut r, i, u, ComplexActFunc::Cardioid);
      let x = IO::V(vals(&mut r, i));
      let (d, dc): (Vec<G>, Vec<G>) = (vals(&mut r, u), vals(&mut r, u));
      let want = l.backward(&x, &d, &dc);
      let got = l.build().compute_derivatives(&x.real(), d, dc).map_err(|e| format!("{:?}", e))?;
      same("weights", &got.0, &want.0)?; same("biases", &got.1, &want.1)?; same("input", &got.2, &want.2)?; same("conjugate input", &got.3, &want.3)
    });
  }
}

// ---------------------------------------------------------------- C15 layers
fn init_layer<T: Num>(s: u64, kind: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let mi = r.range(0, 4);
  let arg = r.range(1, 300);
  let mk = || match mi { 0 => InitMethod::Uniform(arg), 1 => InitMethod::XavierGlorotU(arg), 2 => InitMethod::Xavier(arg), 3 => InitMethod::HeInit(arg), _ => InitMethod::XavierGlorotN(arg) };
  let seed0 = ((r.next() as u128) << 64) | r.next() as u128;
  let f = ComplexActFunc::None;
  // expected weights: sequential draws with the same method
  let (real, l, seed): (CLayer<T>, L<T>, u128);
  if kind == 0 {
    let (i, u) = (r.range(1, 12), r.range(1, 12));
    let mut q = seed0;
    let w: Vec<T> = (0..i * u).map(|_| mk().gen(&mut q)).collect();
    l = L::Dense { w: M::new(u, i, w), b: vec![T::default(); u], f };
    let mut sd = seed0;
    real = DenseCLayer::init(IOShape::Scalar(i), u, f, mk(), &mut sd).map_err(|e| format!("{:?}", e))?.wrap();
    same("seed after initialisation", &sd, &q)?;
    seed = sd;
    let mut sd = seed0;
    ensure(DenseCLayer::<T>::init(IOShape::Matrix(i), u, f, mk(), &mut sd).is_err(), || "dense layer on feature maps accepted".to_string())?;
  } else {
    let (ch, fl, kr, kc) = (r.range(1, 4), r.range(1, 4), r.range(1, 4), r.range(1, 4));
    let mut q = seed0;
    let k: Vec<Vec<M<T>>> = (0..fl).map(|_| (0..ch).map(|_| M::new(kr, kc, (0..kr * kc).map(|_| mk().gen(&mut q)).collect())).collect()).collect();
    l = L::Conv { k, b: vec![T::default(); fl], f };
    let mut sd = seed0;
    real = ConvCLayer::init(IOShape::Matrix(ch), fl, [kr, kc], f, mk(), &mut sd).map_err(|e| format!("{:?}", e))?.wrap();
    same("seed after initialisation", &sd, &q)?;
    seed = sd;
    let mut sd = seed0;
    ensure(ConvCLayer::<T>::init(IOShape::Scalar(ch), fl, [kr, kc], f, mk(), &mut sd).is_err(), || "convolution on a vector accepted".to_string())?;
  }
  ensure(seed != seed0, || "seed not advanced".to_string())?;
  wrapped_agrees(&real, &l)?;
  if T::NAME == "exact" { return probe(&real, &l) }
  // floats: read single weights with unit inputs (exact with the identity activation and zero bias)
  match &l {
    L::Dense { w, .. } => for j in 0..w.c {
      let mut x = vec![T::default(); w.c]; x[j] = T::unit();
      let want: Vec<T> = (0..w.r).map(|i| w.at(i, j)).collect();
      same(&format!("weights of input {}", j), &crate::gf::flat(&real.foward(&IO::V(x).real()).map_err(|e| format!("{:?}", e))?), &want)?;
    },
    L::Conv { k, .. } => for ch in 0..k[0].len() { for u in 0..k[0][0].r { for v in 0..k[0][0].c {
      let x: Vec<M<T>> = (0..k[0].len()).map(|q| { let mut m = M::zero(k[0][0].r, k[0][0].c); if q == ch { m.d[u * k[0][0].c + v] = T::unit() } m }).collect();
      let want: Vec<T> = k.iter().map(|f| f[ch].at(u, v)).collect();
      same(&format!("kernel values at channel {} ({},{})", ch, u, v), &crate::gf::flat(&real.foward(&IO::F(x).real()).map_err(|e| format!("{:?}", e))?), &want)?;
    } } },
    _ => {}
  }
  Ok(())
}

pub fn c15_layers(c: &mut Ctx) {
  let mut r = c.rng("c15l");
  for k in 0..if c.thorough { 4000 } else { 900 } {
    let s = r.next();
    let kind = k % 2;
    match (k / 2) % 3 {
      0 => c.case(format!("init exact kind={} seed={}", kind, s), || init_layer::<G>(s, kind)),
      1 => c.case(format!("init cf32 kind={} seed={}", kind, s), || init_layer::<Cf32>(s, kind)),
      _ => c.case(format!("init cf64 kind={} seed={}", kind, s), || init_layer::<Cf64>(s, kind)),
    }
  }
  for (i, u) in [(100, 70), (1, 500), (500, 1), (300, 30)] {
    c.case(format!("dense init {}x{}", u, i), || {
      let mut sd = 5u128; let mut q = 5u128;
      let w: Vec<G> = (0..i * u).map(|_| InitMethod::HeInit(i).gen(&mut q)).collect();
      let l = L::Dense { w: M::new(u, i, w), b: vec![G::default(); u], f: ComplexActFunc::None };
      let real = DenseCLayer::<G>::init(IOShape::Scalar(i), u, ComplexActFunc::None, InitMethod::HeInit(i), &mut sd).map_err(|e| format!("{:?}", e))?.wrap();
      probe(&real, &l)
    });
  }
  let _ = (Flatten::init([1, 1], 1), Reduce::<G>::init(1, [1, 1], block_fn::<G>(0), M::<G>::zero(1, 1).real()));
}
