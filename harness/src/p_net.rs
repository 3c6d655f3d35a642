//! C09, C10, C11, C12 (network loss), C16 (accuracy)
use renplex::cvnn::layer::{conv::ConvCLayer, dense::DenseCLayer, CLayer};
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::act::ComplexActFunc;
use renplex::init::InitMethod;
use renplex::input::{IOShape, IOType};
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::Complex;
use renplex::opt::ComplexLossFunc;
use crate::ctx::*;
use crate::gf::G;
use crate::layers::*;
use crate::p_cfloat::{close, Cx};
use crate::p_layers::{maps, pick, probe};
use crate::refm::*;

/// A network that fits together: optional conv/reduce stages on maps, flatten, dense layers.
pub fn net<T: Num>(r: &mut Rng, min: usize, vector_out: bool) -> (Vec<L<T>>, IO<T>) {
  let acts = T::acts();
  let mut ls: Vec<L<T>> = vec![];
  let x: IO<T>;
  if r.range(0, 1) == 0 {
    let n = r.range(1, 5);
    x = IO::V(vals(r, n));
    let mut cur = n;
    for _ in 0..r.range(min.max(1), min.max(1) + 3) {
      let u = if r.range(0, 2) == 0 { cur } else { r.range(1, 5) };
      let q = acts[r.range(0, acts.len() - 1)];
      ls.push(L::dense(r, cur, u, q));
      cur = u;
    }
  } else {
    let (mut ch, mut h, mut w) = (r.range(1, 2), r.range(4, 8), r.range(4, 8));
    x = maps(r, ch, h, w);
    for _ in 0..r.range(0, 2) {
      if r.range(0, 1) == 0 && h > 2 && w > 2 {
        let (kr, kc, fl) = (r.range(1, 3.min(h)), r.range(1, 3.min(w)), r.range(1, 3));
        let q = acts[r.range(0, acts.len() - 1)];
      ls.push(L::conv(r, ch, fl, kr, kc, q));
        ch = fl; h -= kr - 1; w -= kc - 1;
      } else {
        let blk = [if h % 2 == 0 { 2 } else { 1 }, if w % 2 == 0 { 2 } else if w % 3 == 0 { 3 } else { 1 }];
        let (ka, kb) = (1 + 2 * r.range(0, 1), 1 + 2 * r.range(0, 1));
        let ker = M::rnd(r, ka, kb);
        ls.push(L::Reduce { n: ch, blk, bf: r.range(0, 3) as u8, ker });
        h /= blk[0]; w /= blk[1];
      }
    }
    if vector_out || r.range(0, 2) > 0 || ls.len() < min {
      ls.push(L::Flat { r: h, c: w, n: ch });
      let mut cur = ch * h * w;
      for _ in 0..r.range(min.saturating_sub(ls.len()), 2) {
        let u = r.range(1, 5);
        let q = acts[r.range(0, acts.len() - 1)];
      ls.push(L::dense(r, cur, u, q));
        cur = u;
      }
    }
  }
  (ls, x)
}

pub fn assemble<T: Num>(ls: &[L<T>]) -> Result<CNetwork<T>, String> {
  let mut n = CNetwork::new();
  for (i, l) in ls.iter().enumerate() {
    if i == 0 { n.add_input(l.build()) } else { n.add(l.build()) }.map_err(|e| format!("layer {} {} refused: {:?}", i, l.name(), e))?
  }
  Ok(n)
}
fn names<T: Num>(ls: &[L<T>]) -> String { ls.iter().map(|l| l.name()).collect::<Vec<_>>().join(" > ") }
fn fresh_input<T: Num>(r: &mut Rng, like: &IO<T>) -> IO<T> {
  match like { IO::V(v) => IO::V(vals(r, v.len())), IO::F(f) => maps(r, f.len(), f[0].r, f[0].c) }
}
fn acts_ref<T: Num>(ls: &[L<T>], x: &IO<T>) -> Vec<IO<T>> {
  let mut o = vec![x.clone()];
  for l in ls { let n = l.forward(o.last().unwrap()); o.push(n) }
  o
}

// ---------------------------------------------------------------- C09
fn empty_layer<T: Num>(k: usize) -> CLayer<T> {
  let s = &mut 3u128;
  if k == 0 { DenseCLayer::init(IOShape::Scalar(0), 0, ComplexActFunc::None, InitMethod::Uniform(1), s).unwrap().wrap() }
  else { ConvCLayer::init(IOShape::Matrix(0), 0, [2, 2], ComplexActFunc::None, InitMethod::Uniform(1), s).unwrap().wrap() }
}

fn build_history<T: Num>(s: u64) -> Result<(), String> {
  let mut r = Rng(s);
  let mut n: CNetwork<T> = CNetwork::new();
  let mut model: Vec<L<T>> = vec![];
  let mut tr = String::new();
  for _ in 0..r.range(1, 9) {
    let kind = r.range(0, 3);
    // one time in ten an uninitialised layer
    let uninit = r.range(0, 9) == 0;
    let mut l: L<T> = pick(&mut r, kind, false).l;
    if !uninit && !model.is_empty() && r.range(0, 3) > 0 {
      // make it fit
      let (k, m) = model.last().unwrap().out();
      l = if k == 'V' { let u = r.range(1, 5); L::dense(&mut r, m, u, ComplexActFunc::None) } else {
        match r.range(0, 2) {
          0 => { let f = r.range(1, 3); L::conv(&mut r, m, f, 1, 2, ComplexActFunc::None) }
          1 => L::Reduce { n: m, blk: [1, 2], bf: 1, ker: M::rnd(&mut r, 1, 1) },
          _ => L::Flat { r: 2, c: 2, n: m },
        }
      };
    } else if !uninit && !model.is_empty() && r.range(0, 2) == 0 {
      // right count, wrong kind
      let (k, m) = model.last().unwrap().out();
      l = if k == 'F' { L::dense(&mut r, m, 2, ComplexActFunc::None) } else { L::Reduce { n: m, blk: [1, 2], bf: 1, ker: M::rnd(&mut r, 1, 1) } };
    }
    let input = if model.is_empty() { r.range(0, 2) > 0 } else { r.range(0, 4) == 0 };
    let real = if uninit { empty_layer::<T>(r.range(0, 1)) } else { l.build() };
    let before = format!("{:?}", n);
    let got = if input { n.add_input(real) } else { n.add(real) };
    tr += &format!("; {}({})", if input { "add_input" } else { "add" }, if uninit { "uninitialised".to_string() } else { l.name() });
    let want: Vec<&str> = if input {
      if !model.is_empty() { if uninit { vec!["ExistentInput", "MissingInitialization"] } else { vec!["ExistentInput"] } } else if uninit { vec!["MissingInitialization"] } else { vec!["ok"] }
    } else if model.is_empty() { if uninit { vec!["MissingInput", "MissingInitialization"] } else { vec!["MissingInput"] } }
    else if uninit { vec!["MissingInitialization", "IncompatibleIO"] }
    else if model.last().unwrap().out() != l.inp() { vec!["IncompatibleIO"] } else { vec!["ok"] };
    let g = match &got { Ok(()) => "ok".to_string(), Err(e) => format!("{:?}", e) };
    ensure(want.contains(&g.as_str()), || format!("{}: got {} expected {:?}", tr, g, want))?;
    if g == "ok" { model.push(l) } else { same(&format!("{}: refused layer changed the network", tr), &format!("{:?}", n), &before)? }
    // reports
    match (n.get_input_shape(), model.first()) {
      (Ok(s), Some(l)) => shape_is(&s, l.inp().0, l.inp().1).map_err(|e| format!("{}: input {}", tr, e))?,
      (Err(_), None) => {}
      (a, _) => return Err(format!("{}: input shape {:?}", tr, a)),
    }
    match (n.get_output_shape(), model.last()) {
      (Ok(s), Some(l)) => shape_is(&s, l.out().0, l.out().1).map_err(|e| format!("{}: output {}", tr, e))?,
      (Err(_), None) => {}
      (a, _) => return Err(format!("{}: output shape {:?}", tr, a)),
    }
    let p: usize = model.iter().map(|l| l.n_params().0 + l.n_params().1).sum();
    same(&format!("{}: parameter count", tr), &n.params_len(), &p)?;
  }
  // the layers really are the accepted ones, in order
  for (k, l) in model.iter().enumerate() {
    if k > 0 { break }
    let x: IO<T> = match l.inp() { ('V', m) => IO::V(vals(&mut r, m)), (_, m) => maps(&mut r, m, 6, 6) };
    let (_, lr) = n.intercept(x.real(), 0).map_err(|e| format!("{:?}", e))?;
    probe(lr, l).map_err(|e| format!("{}: layer {}: {}", tr, k, e))?;
  }
  Ok(())
}

pub fn c09(c: &mut Ctx) {
  let mut r = c.rng("c09");
  for k in 0..if c.thorough { 12000 } else { 2500 } {
    let s = r.next();
    if k % 4 == 3 { c.case(format!("construction cf32 seed={}", s), || build_history::<Cf32>(s)) }
    else { c.case(format!("construction exact seed={}", s), || build_history::<G>(s)) }
  }
  for depth in [10usize, 40, 130] {
    c.case(format!("deep network of {} layers", depth), || {
      let mut r = Rng(depth as u64);
      let ls: Vec<L<G>> = (0..depth).map(|i| { let (a, b) = (1 + i % 3, 1 + (i + 1) % 3); L::dense(&mut r, a, b, ComplexActFunc::None) }).collect();
      let mut n = assemble(&ls)?;
      same("parameters", &n.params_len(), &ls.iter().map(|l| l.n_params().0 + l.n_params().1).sum())?;
      ensure(n.add(L::<G>::dense(&mut r, 9, 1, ComplexActFunc::None).build()).is_err(), || "misfit accepted".to_string())?;
      shape_is(&n.get_output_shape().map_err(|e| format!("{:?}", e))?, 'V', 1 + depth % 3)
    });
  }
}

// ---------------------------------------------------------------- C10
fn infer<T: Num>(s: u64) -> Result<(), String> {
  let mut r = Rng(s);
  let (ls, x) = net::<T>(&mut r, 1, false);
  if ls.is_empty() { return Ok(()) }
  let nm = names(&ls);
  let tag = |e: String| format!("{}: {}", nm, e);
  let n = assemble(&ls).map_err(tag)?;
  let before = format!("{:?}", n);
  let want = acts_ref(&ls, &x);
  want.last().unwrap().is(&n.forward(&x.real()).map_err(|e| format!("{}: {:?}", nm, e))?).map_err(|e| format!("{}: prediction: {}", nm, e))?;
  let acts = n.collect_acts(x.real()).map_err(|e| format!("{}: {:?}", nm, e))?;
  same(&format!("{}: number of activations", nm), &acts.len(), &want.len())?;
  for (k, (a, w)) in acts.iter().zip(want.iter()).enumerate() { w.is(a).map_err(|e| format!("{}: activation {}: {}", nm, k, e))? }
  for k in 0..ls.len() {
    let (a, l) = n.intercept(x.real(), k).map_err(|e| format!("{}: intercept {}: {:?}", nm, k, e))?;
    want[k].is(&a).map_err(|e| format!("{}: intercept {}: {}", nm, k, e))?;
    probe(l, &ls[k]).map_err(|e| format!("{}: intercept {} layer: {}", nm, k, e))?;
    shape_is(&l.get_output_shape(), ls[k].out().0, ls[k].out().1).map_err(|e| format!("{}: intercept {} layer: {}", nm, k, e))?;
  }
  for k in [ls.len(), ls.len() + 1, usize::MAX] {
    let res = quiet(|| n.intercept(x.real(), k).is_err());
    ensure(res == Ok(true), || format!("{}: intercept at {} of {} layers: {:?}", nm, k, ls.len(), res))?;
  }
  same(&format!("{}: network after inference", nm), &format!("{:?}", n), &before)
}

pub fn c10(c: &mut Ctx) {
  let mut r = c.rng("c10");
  c.case("empty network".to_string(), || {
    let n: CNetwork<G> = CNetwork::new();
    let x = IOType::Scalar(vec![G::unit()]);
    ensure(quiet(|| n.forward(&x).is_err()) == Ok(true), || "forward of an empty network".to_string())?;
    ensure(quiet(|| n.collect_acts(x.clone()).is_err()) == Ok(true), || "activations of an empty network".to_string())?;
    ensure(quiet(|| n.intercept(x.clone(), 0).is_err()) == Ok(true), || "intercept in an empty network".to_string())
  });
  for k in 0..if c.thorough { 10000 } else { 1800 } {
    let s = r.next();
    match k % 5 {
      3 => c.case(format!("inference cf32 seed={}", s), || infer::<Cf32>(s)),
      _ => c.case(format!("inference exact seed={}", s), || infer::<G>(s)),
    }
  }
  for depth in [1usize, 2, 9, 17, 33, 70] {
    c.case(format!("deep network of {} layers", depth), || {
      let mut r = Rng(depth as u64);
      let ls: Vec<L<G>> = (0..depth).map(|i| { let (a, b) = (1 + i % 3, 1 + (i + 1) % 3); L::dense(&mut r, a, b, ComplexActFunc::Cardioid) }).collect();
      let n = assemble(&ls)?;
      let x = IO::V(vals(&mut r, 1));
      let want = acts_ref(&ls, &x);
      want[depth].is(&n.forward(&x.real()).map_err(|e| format!("{:?}", e))?)?;
      let acts = n.collect_acts(x.real()).map_err(|e| format!("{:?}", e))?;
      same("activations", &acts.len(), &(depth + 1))?;
      for k in 0..=depth { want[k].is(&acts[k])? }
      for k in 0..depth { want[k].is(&n.intercept(x.real(), k).map_err(|e| format!("{:?}", e))?.0)? }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- C11
fn train_ref<T: Num>(ls: &[L<T>], data: &[(IO<T>, IO<T>)], f: &ComplexLossFunc, lr: T) -> Vec<L<T>> {
  let mut acc: Vec<(Vec<T>, Vec<T>)> = ls.iter().map(|l| { let (a, b) = l.n_params(); (vec![T::default(); a], vec![T::default(); b]) }).collect();
  for (x, t) in data {
    let a = acts_ref(ls, x);
    let mut d = T::d_loss(&t.real(), &a.last().unwrap().real(), f).unwrap();
    let mut dc: Vec<T> = d.iter().map(|v| v.conj()).collect();
    for k in (0..ls.len()).rev() {
      let (dw, db, dx, dxc) = ls[k].backward(&a[k], &d, &dc);
      for (p, q) in acc[k].0.iter_mut().zip(dw.iter()) { *p = *p + *q }
      for (p, q) in acc[k].1.iter_mut().zip(db.iter()) { *p = *p + *q }
      d = dx; dc = dxc;
    }
  }
  let sc = lr / T::usize_to_complex(data.len());
  ls.iter().zip(acc.iter()).map(|(l, (gw, gb))| {
    let mut l2 = l.clone();
    let (w, b) = l.flat_params();
    let w: Vec<T> = w.iter().zip(gw.iter()).map(|(p, g)| *p - (*g * sc).conj()).collect();
    let b: Vec<T> = b.iter().zip(gb.iter()).map(|(p, g)| *p - (*g * sc).conj()).collect();
    l2.set_params(&w, &b);
    l2
  }).collect()
}

fn dataset<T: Num>(data: &[(IO<T>, IO<T>)]) -> Dataset<T, T> {
  let mut d = Dataset::new();
  for (x, t) in data { d.add_point((x.real(), t.real())) }
  d
}

fn train<T: Num>(s: u64) -> Result<(), String> {
  let mut r = Rng(s);
  let (mut ls, x) = net::<T>(&mut r, 2, r_bool(s));
  if ls.len() < 2 { return Ok(()) }
  let float = T::NAME != "exact";
  if float { for l in ls.iter_mut() { match l { L::Dense { f, .. } | L::Conv { f, .. } => *f = ComplexActFunc::None, _ => {} } } }
  let nm = names(&ls);
  let mut n = assemble(&ls).map_err(|e| format!("{}: {}", nm, e))?;
  let f = if r.range(0, 1) == 0 { ComplexLossFunc::MeanSquare } else { ComplexLossFunc::NormCrossEntropy };
  for step in 0..r.range(1, 2) {
    if float && step == 1 { break }
    let b = if float { [1usize, 2, 4][r.range(0, 2)] } else { r.range(1, 5) };
    let data: Vec<(IO<T>, IO<T>)> = (0..b).map(|_| {
      let xi = fresh_input(&mut r, &x);
      let y = acts_ref(&ls, &xi).pop().unwrap();
      let t = match y { IO::V(v) => IO::V(vals(&mut r, v.len())), IO::F(f) => maps(&mut r, f.len(), f[0].r, f[0].c) };
      (xi, t)
    }).collect();
    let lr = T::any(&mut r);
    if float {
      // integers stay exact only while the gradients are small
      let big = data.iter().any(|(x, _)| acts_ref(&ls, x).iter().any(|a| a.flat().iter().any(|v| v.norm_sq() > <T as Complex>::Precision::usize_to_real_(1 << 16))));
      if big { return Ok(()) }
    }
    let want = train_ref(&ls, &data, &f, lr);
    n.gradient_opt(dataset(&data), &f, lr).map_err(|e| format!("{}: {:?}", nm, e))?;
    for k in 0..ls.len() {
      let (_, l) = n.intercept(x.real(), k).map_err(|e| format!("{}: {:?}", nm, e))?;
      if float { approx_params(l, &want[k]) } else { probe(l, &want[k]) }.map_err(|e| format!("{}: batch {} step {}: layer {} {}: {}", nm, b, step, k, ls[k].name(), e))?;
      same(&format!("{}: layer {} parameter count", nm, k), &l.params_len(), &want[k].n_params())?;
    }
    ls = want;
  }
  Ok(())
}
fn r_bool(s: u64) -> bool { s & 1 == 0 }

trait ToReal { fn usize_to_real_(n: usize) -> Self; }
impl<P: renplex::math::Real> ToReal for P { fn usize_to_real_(n: usize) -> P { P::usize_to_real(n) } }

/// Parameters of a float layer with the identity activation, read by unit inputs.
fn approx_params<T: Num>(real: &CLayer<T>, l: &L<T>) -> Result<(), String> {
  let chk = |x: IO<T>| -> Result<(), String> {
    let got = crate::gf::flat(&real.foward(&x.real()).map_err(|e| format!("{:?}", e))?);
    let want = l.forward(&x).flat();
    same("output length", &got.len(), &want.len())?;
    for (g, w) in got.iter().zip(want.iter()) {
      let d = *g - *w;
      let tol = *w * T::usize_to_complex(1) / T::usize_to_complex(1000);
      let one = T::unit() / T::usize_to_complex(1000);
      ensure(d <= tol || d <= one, || format!("got {:?} expected {:?}", g, w))?;
    }
    Ok(())
  };
  match l {
    L::Dense { w, .. } => {
      chk(IO::V(vec![T::default(); w.c]))?;
      for j in 0..w.c { let mut x = vec![T::default(); w.c]; x[j] = T::unit(); chk(IO::V(x))? }
    }
    L::Conv { k, .. } => {
      let (h, w, ch) = (k[0][0].r, k[0][0].c, k[0].len());
      chk(IO::F(vec![M::zero(h, w); ch]))?;
      for c in 0..ch { for t in 0..h * w { let mut x = vec![M::zero(h, w); ch]; x[c].d[t] = T::unit(); chk(IO::F(x))? } }
    }
    _ => {}
  }
  Ok(())
}

pub fn c11(c: &mut Ctx) {
  let mut r = c.rng("c11");
  for k in 0..if c.thorough { 8000 } else { 1500 } {
    let s = r.next();
    match k % 5 {
      3 => c.case(format!("training cf32 seed={}", s), || train::<Cf32>(s)),
      4 => c.case(format!("training cf64 seed={}", s), || train::<Cf64>(s)),
      _ => c.case(format!("training exact seed={}", s), || train::<G>(s)),
    }
  }
  c.case("fewer than two layers".to_string(), || {
    let mut r = Rng(1);
    let mut n: CNetwork<G> = CNetwork::new();
    let d = || { let mut d = Dataset::new(); d.add_point((IOType::Scalar(vec![G::unit(); 2]), IOType::Scalar(vec![G::unit(); 3]))); d };
    ensure(quiet(|| n.gradient_opt(d(), &ComplexLossFunc::MeanSquare, G::unit()).is_err()) == Ok(true), || "empty network trained".to_string())?;
    let l: L<G> = L::dense(&mut r, 2, 3, ComplexActFunc::None);
    n.add_input(l.build()).map_err(|e| format!("{:?}", e))?;
    ensure(quiet(|| n.gradient_opt(d(), &ComplexLossFunc::MeanSquare, G::unit()).is_err()) == Ok(true), || "one-layer network trained".to_string())?;
    let x = IO::V(vals(&mut r, 2));
    l.forward(&x).is(&n.forward(&x.real()).map_err(|e| format!("{:?}", e))?).map_err(|e| format!("refused training changed the network: {}", e))
  });
  for (depth, b) in [(2usize, 40usize), (2, 130), (9, 3), (20, 2), (3, 17)] {
    c.case(format!("training {} layers batch {}", depth, b), || {
      let mut r = Rng((depth * 100 + b) as u64);
      let ls: Vec<L<G>> = (0..depth).map(|i| { let (a, q) = (1 + i % 3, 1 + (i + 1) % 3); L::dense(&mut r, a, q, ComplexActFunc::RITTanh) }).collect();
      let mut n = assemble(&ls)?;
      let data: Vec<(IO<G>, IO<G>)> = (0..b).map(|_| (IO::V(vals(&mut r, 1)), IO::V(vals(&mut r, 1 + depth % 3)))).collect();
      let lr = G::any(&mut r);
      let want = train_ref(&ls, &data, &ComplexLossFunc::MeanSquare, lr);
      n.gradient_opt(dataset(&data), &ComplexLossFunc::MeanSquare, lr).map_err(|e| format!("{:?}", e))?;
      for k in 0..depth { probe(n.intercept(data[0].0.real(), k).map_err(|e| format!("{:?}", e))?.1, &want[k]).map_err(|e| format!("layer {}: {}", k, e))? }
      Ok(())
    });
  }
}

// ---------------------------------------------------------------- C12 network loss
fn net_loss_exact(s: u64, b: usize) -> Result<(), String> {
  use crate::gf::{addp, mulp, invp};
  let mut r = Rng(s);
  let (ls, x) = net::<G>(&mut r, 1, true);
  let n = assemble(&ls)?;
  for f in [ComplexLossFunc::MeanSquare, ComplexLossFunc::NormCrossEntropy] {
    let data: Vec<(IO<G>, IO<G>)> = (0..b).map(|_| { let xi = fresh_input(&mut r, &x); let m = acts_ref(&ls, &xi).pop().unwrap().flat().len(); (xi, IO::V(vals(&mut r, m))) }).collect();
    let mut sum = 0u64;
    for (x, t) in &data { sum = addp(sum, G::loss(&t.real(), &acts_ref(&ls, x).pop().unwrap().real(), &f).unwrap().0) }
    let got = n.loss(&dataset(&data), &f).map_err(|e| format!("{:?}", e))?;
    same(&format!("{}: loss of {} points", names(&ls), b), &got.0, &mulp(sum, invp(b as u64)))?;
  }
  Ok(())
}
fn net_loss_float<T: Num + Cx>(s: u64, b: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let l: L<T> = L::dense(&mut r, 2, 3, ComplexActFunc::None);
  let n = assemble(&[l.clone()])?;
  let data: Vec<(IO<T>, IO<T>)> = (0..b).map(|_| (IO::V(vals(&mut r, 2)), IO::V(vals(&mut r, 3)))).collect();
  let mut sum = 0.0;
  for (x, t) in &data {
    let y = l.forward(x).flat();
    let t = t.flat();
    sum += (0..3).map(|i| { let (a, b) = (y[i].z(), t[i].z()); (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2) }).sum::<f64>() / 3.0;
  }
  let got = T::pr(n.loss(&dataset(&data), &ComplexLossFunc::MeanSquare).map_err(|e| format!("{:?}", e))?);
  close("mean-square loss of the network", (got, 0.0), (sum / b as f64, 0.0), 64.0 * (b as f64 + 8.0) * T::EPS * (1.0 + sum / b as f64))
}
pub fn c12_net(c: &mut Ctx) {
  let mut r = c.rng("c12n");
  for k in 0..if c.thorough { 3000 } else { 500 } {
    let s = r.next();
    let b = if k % 20 == 19 { r.range(10, 150) } else { r.range(1, 6) };
    match k % 4 {
      2 => c.case(format!("network loss cf32 batch {} seed={}", b, s), || net_loss_float::<Cf32>(s, b)),
      3 => c.case(format!("network loss cf64 batch {} seed={}", b, s), || net_loss_float::<Cf64>(s, b)),
      _ => c.case(format!("network loss exact batch {} seed={}", b, s), || net_loss_exact(s, b)),
    }
  }
}

// ---------------------------------------------------------------- C16 accuracy
fn argmax(v: &[(i64, i64)]) -> usize {
  let n = |z: &(i64, i64)| z.0 * z.0 + z.1 * z.1;
  let mut k = 0;
  for i in 1..v.len() { if n(&v[i]) > n(&v[k]) { k = i } }
  k
}
fn accuracy<T: Num + Cx>(s: u64, b: usize, m: usize) -> Result<(), String> {
  let mut r = Rng(s);
  // identity network: predictions are the inputs
  let mut w = M::zero(m, m);
  for i in 0..m { w.d[i * m + i] = T::unit() }
  let l: L<T> = L::Dense { w, b: vec![T::default(); m], f: ComplexActFunc::None };
  let n = assemble(&[l])?;
  let mut hit = 0;
  let mut d = Dataset::new();
  let iv = |r: &mut Rng, mode: usize| -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = (0..m).map(|_| (r.range(0, 8) as i64 - 4, r.range(0, 8) as i64 - 4)).collect();
    match mode {
      0 => { let k = r.range(0, m - 1); for (i, x) in v.iter_mut().enumerate() { *x = if i == k { (1, 0) } else { (0, 0) } } }
      1 => { let k = r.range(0, m - 1); v[k] = (-9, 0) }
      2 => { let k = r.range(0, m - 1); let q = r.range(0, m - 1); v[k] = (3, 4); v[q] = (-5, 0) }
      3 => for x in v.iter_mut() { *x = (0, 0) },
      _ => {}
    }
    v
  };
  for _ in 0..b {
    let (a, c) = (r.range(0, 6), r.range(0, 6));
    let p = iv(&mut r, a);
    let t = if r.range(0, 2) == 0 { let k = argmax(&p); let mut t = vec![(0, 0); m]; t[k] = (1, 0); t } else { iv(&mut r, c) };
    if argmax(&p) == argmax(&t) { hit += 1 }
    let mk = |v: &Vec<(i64, i64)>| IOType::Scalar(v.iter().map(|z| T::mk((z.0 as f64, z.1 as f64))).collect::<Vec<T>>());
    d.add_point((mk(&p), mk(&t)));
  }
  let got = T::pr(n.max_pred_test(&d));
  close(&format!("accuracy over {} points of {} classes", b, m), (got, 0.0), (hit as f64 / b as f64, 0.0), 4.0 * T::EPS)
}
pub fn c16_acc(c: &mut Ctx) {
  let mut r = c.rng("c16a");
  for k in 0..if c.thorough { 6000 } else { 1500 } {
    let s = r.next();
    let (b, m) = (if k % 30 == 29 { r.range(20, 150) } else { r.range(1, 6) }, if k % 40 == 39 { r.range(8, 60) } else { r.range(1, 6) });
    if k % 2 == 0 { c.case(format!("accuracy cf32 {} points {} classes seed={}", b, m, s), || accuracy::<Cf32>(s, b, m)) }
    else { c.case(format!("accuracy cf64 {} points {} classes seed={}", b, m, s), || accuracy::<Cf64>(s, b, m)) }
  }
}
