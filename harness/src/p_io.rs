//! C17 (image loader), C19 (tables), C18 (synthetic signals)
use std::fs::{self, File};
use std::io::Seek;
use std::path::{Path, PathBuf};
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
use renplex::math::Complex;
use crate::ctx::*;

/// a directory of our own, removed when the property is done
struct Scratch(PathBuf);
impl Scratch {
  fn new(tag: &str) -> Scratch {
    let p = std::env::temp_dir().join(format!("renplex-verif-{}-{}", tag, std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir(&p).unwrap();
    Scratch(p)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

// ---------------------------------------------------------------- C17
const TRAIN: usize = 60008;

trait Num: Copy + PartialEq + std::fmt::Debug + 'static {
  fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self>;
  fn px(b: u8) -> Self;
  fn one() -> Self;
  fn zero() -> Self;
  fn parts(self) -> (f64, f64);
  fn tag() -> &'static str;
}
macro_rules! real { ($t:ty) => { impl Num for $t {
  fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self> { Dataset::<$t, $t>::minist_as_batch(d, l, n, t) }
  fn px(b: u8) -> Self { b as $t / 255.0 }
  fn parts(self) -> (f64, f64) { (self as f64, 0.0) }
  fn one() -> Self { 1.0 }
  fn zero() -> Self { 0.0 }
  fn tag() -> &'static str { stringify!($t) }
} } }
macro_rules! cplx { ($t:ty, $f:ty) => { impl Num for $t {
  fn batch(d: &mut File, l: &mut File, n: usize, t: &mut usize) -> Dataset<Self, Self> { Dataset::<$t, $t>::minist_as_complex_batch(d, l, n, t) }
  fn px(b: u8) -> Self { <$t>::new(b as $f / 255.0, 0.0) }
  fn parts(self) -> (f64, f64) { (self.re() as f64, self.im() as f64) }
  fn one() -> Self { <$t>::new(1.0, 0.0) }
  fn zero() -> Self { <$t>::new(0.0, 0.0) }
  fn tag() -> &'static str { stringify!($t) }
} } }
real!(f32);
real!(f64);
cplx!(Cf32, f32);
cplx!(Cf64, f64);

/// a pixel is right when it is the quotient up to rounding
fn near<N: Num>(a: N, b: N) -> bool { let (a, b) = (a.parts(), b.parts()); (a.0 - b.0).abs() < 1e-6 && (a.1 - b.1).abs() < 1e-6 }

fn check_point<N: Num>(k: usize, p: (&IOType<N>, &IOType<N>), img: &[u8], lab: u8) -> Result<(), String> {
  match p.0 {
    IOType::Matrix(m) => {
      same(&format!("maps of point {}", k), &m.len(), &1)?;
      same(&format!("shape of point {}", k), &m[0].get_shape().to_vec(), &vec![28, 28])?;
      let b = m[0].get_body();
      same(&format!("pixels of point {}", k), &b.len(), &784)?;
      for i in 0..784 { ensure(near(b[i], N::px(img[i])), || format!("pixel {} of point {}: got {:?} expected {:?}", i, k, b[i], N::px(img[i])))? }
    }
    IOType::Scalar(_) => return Err(format!("point {} is not a map", k)),
  }
  let want: Vec<N> = (0..10).map(|j| if j == lab as usize { N::one() } else { N::zero() }).collect();
  match p.1 {
    IOType::Scalar(v) => same(&format!("label of point {}", k), v, &want),
    _ => Err(format!("label of point {} is not a vector", k)),
  }
}

struct Shape { points: usize, cut_images: usize, cut_labels: usize, extra_image_bytes: usize }

fn load<N: Num>(dir: &Path, s: u64, sh: Shape, sizes: &[usize]) -> Result<(), String> {
  let mut r = Rng(s);
  let mut img: Vec<u8> = (0..16 + 784 * sh.points).map(|_| r.next() as u8).collect();
  let mut lab: Vec<u8> = (0..8 + sh.points).map(|k| if k < 8 { r.next() as u8 } else { r.range(0, 9) as u8 }).collect();
  for k in 0..sh.points.min(3) { let b = 16 + 784 * k; img[b] = 0; img[b + 1] = 255; img[b + 783] = if k % 2 == 0 { 255 } else { 0 } }
  img.truncate((img.len() - sh.cut_images.min(img.len() - 16)).max(16));
  lab.truncate((lab.len() - sh.cut_labels.min(lab.len() - 8)).max(8));
  for _ in 0..sh.extra_image_bytes { img.push(r.next() as u8) }
  let (pi, pl) = (dir.join("images"), dir.join("labels"));
  fs::write(&pi, &img).map_err(|e| e.to_string())?;
  fs::write(&pl, &lab).map_err(|e| e.to_string())?;
  let mut fi = File::open(&pi).map_err(|e| e.to_string())?;
  let mut fl = File::open(&pl).map_err(|e| e.to_string())?;
  let total = ((img.len() - 16) / 784).min(lab.len() - 8);
  let (mut t, mut at) = (0usize, 0usize);
  for (q, n) in sizes.iter().enumerate() {
    let b = N::batch(&mut fi, &mut fl, *n, &mut t);
    let got = b.get_n_points();
    ensure(got <= *n, || format!("call {}: {} points for a batch of {}", q, got, n))?;
    let want = (*n).min(total - at);
    ensure(got == want || (t == TRAIN && got < want), || format!("call {}: {} points, {} asked, {} left", q, got, n, total - at))?;
    let (x, y) = b.points_as_iter();
    same("points are pairs", &x.len(), &y.len())?;
    for k in 0..got { let a = 16 + 784 * (at + k); check_point::<N>(at + k, b.get_point(k), &img[a..a + 784], lab[8 + at + k])? }
    at += got;
    same(&format!("call {}: tracker against the label bytes read", q), &(t as u64), &fl.stream_position().map_err(|e| e.to_string())?)?;
    if at < total && total > 0 { same(&format!("call {}: tracker", q), &t, &(8 + at))? }
  }
  Ok(())
}

fn c17_for<N: Num>(c: &mut Ctx, dir: &Path) {
  let mut r = c.rng(&format!("c17{}", N::tag()));
  for k in 0..if c.thorough { 400 } else { 90 } {
    let s = r.next();
    let points = if k < 6 { k } else { r.range(1, 24) };
    let cut = k % 4;
    let sh = Shape {
      points,
      cut_images: if cut == 1 { [1, 783, 784, 785, 400][r.range(0, 4)] } else { 0 },
      cut_labels: if cut == 2 { r.range(1, 3) } else { 0 },
      extra_image_bytes: if cut == 3 { [1, 100, 783, 784][r.range(0, 3)] } else { 0 },
    };
    let mut sizes: Vec<usize> = (0..r.range(1, 6)).map(|_| [0, 1, 2, 3, 5, 7, points, points + 1][r.range(0, 7)]).collect();
    sizes.push(points + 3);
    sizes.push(2);
    let name = format!("loader {} points={} cut=({},{},+{}) batches={:?} seed={}", N::tag(), points, sh.cut_images, sh.cut_labels, sh.extra_image_bytes, sizes, s);
    c.case(name, || load::<N>(dir, s, sh, &sizes));
  }
}

pub fn c17(c: &mut Ctx) {
  let d = Scratch::new("c17");
  c17_for::<f32>(c, &d.0);
  c17_for::<f64>(c, &d.0);
  c17_for::<Cf32>(c, &d.0);
  c17_for::<Cf64>(c, &d.0);
  // past the end of a full training set
  c.case("loader f32, 60003 points in batches of 9973".to_string(), || load::<f32>(&d.0, 77, Shape { points: 60003, cut_images: 0, cut_labels: 0, extra_image_bytes: 0 }, &[9973; 8]));
  c.case("loader Cf32, 60000 points in batches of 7000".to_string(), || load::<Cf32>(&d.0, 78, Shape { points: 60000, cut_images: 0, cut_labels: 0, extra_image_bytes: 0 }, &[7000; 10]));
}

// ---------------------------------------------------------------- C19
extern "C" {
  fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
  fn getrlimit(what: i32, lim: *mut [u64; 2]) -> i32;
  fn signal(sig: i32, h: usize) -> usize;
}
/// runs with files limited to n bytes, so that the first write past them fails
fn capped<R>(n: u64, f: impl FnOnce() -> R) -> R {
  struct Back([u64; 2]);
  impl Drop for Back { fn drop(&mut self) { unsafe { setrlimit(1, &self.0); } } }
  let mut old = [0u64; 2];
  unsafe {
    signal(25, 1);
    getrlimit(1, &mut old);
    let new = [n, old[1]];
    setrlimit(1, &new);
  }
  let _b = Back(old);
  f()
}

/// the text of a value
#[derive(Clone, Copy, Debug)]
struct Word(u64);
impl std::fmt::Display for Word {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { for k in 0..self.0 % 5 { write!(f, "{}", (b'a' + ((self.0 >> (8 + 5 * k)) % 26) as u8) as char)? } Ok(()) }
}
thread_local! { static PLAN: std::cell::RefCell<(usize, usize, u64, u64)> = std::cell::RefCell::new((0, usize::MAX, 0, 0)); }
/// a value during whose writing the space for the file may end, to come back with the next value
#[derive(Clone, Copy, Debug)]
struct Gap;
impl std::fmt::Display for Gap {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    PLAN.with(|p| {
      let mut p = p.borrow_mut();
      let lim = [if p.0 == p.1 { p.2 } else { p.3 }, p.3];
      p.0 += 1;
      unsafe { setrlimit(1, &lim); }
    });
    write!(f, "x")
  }
}
/// one write fails and the later ones do not: cell k is being written when the file cannot grow past n bytes
fn gap(dir: &Path, want: &str, k: usize, n: u64, go: &dyn Fn(String) -> std::io::Result<()>) -> Result<(), String> {
  let p = dir.join("gap.csv");
  let _ = fs::remove_file(&p);
  let mut old = [0u64; 2];
  unsafe { getrlimit(1, &mut old); }
  let r = capped(old[0], || {
    PLAN.with(|p| *p.borrow_mut() = (0, k, n, old[1]));
    go(p.to_str().unwrap().to_string())
  });
  let got = fs::read_to_string(&p).map_err(|e| e.to_string())?;
  ensure(r.is_err() || got == want, || format!("no error, but the file is {:?} instead of {:?}", got, want))
}

fn table<T: std::fmt::Display + Copy>(v: &[T], w: usize) -> String {
  v.chunks(w).map(|r| format!("{}\n", r.iter().map(|x| format!("{},", x)).collect::<String>())).collect()
}
fn points<T: std::fmt::Display + Copy>(p: &[(Vec<T>, Vec<T>)]) -> String {
  p.iter().map(|(a, b)| format!("{}\n", a.iter().chain(b.iter()).map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect()
}
fn dataset<T: std::fmt::Display + Copy + Clone>(p: &[(Vec<T>, Vec<T>)]) -> Dataset<T, T> {
  let mut d = Dataset::new();
  for (a, b) in p { d.add_point((IOType::Scalar(a.clone()), IOType::Scalar(b.clone()))) }
  d
}

/// the export into a new file, over an old one, and with every cut of the space for it
fn exported(dir: &Path, want: &str, cuts: bool, go: &dyn Fn(String) -> std::io::Result<()>) -> Result<(), String> {
  let p = dir.join("out.csv");
  let name = p.to_str().unwrap().to_string();
  let _ = fs::remove_file(&p);
  for old in [false, true] {
    if old { fs::write(&p, format!("{}{}", want, "left over\n".repeat(20))).map_err(|e| e.to_string())? }
    go(name.clone()).map_err(|e| format!("error without a fault: {}", e))?;
    let got = fs::read_to_string(&p).map_err(|e| e.to_string())?;
    same(if old { "file written over an old one" } else { "file" }, &got, &want.to_string())?;
  }
  if cuts {
    for n in 0..=want.len().min(60) {
      let _ = fs::remove_file(&p);
      let room = want.len() - want.len().min(60) + n;
      let r = capped(room as u64, || go(name.clone()));
      let got = fs::read_to_string(&p).map_err(|e| e.to_string())?;
      if room < want.len() { ensure(r.is_err(), || format!("no error although only {} of {} bytes could be written", room, want.len()))? }
      else { ensure(r.is_ok(), || "error although all bytes could be written".to_string())?; same("file", &got, &want.to_string())? }
      ensure(want.starts_with(&got), || format!("{} bytes of room: got {:?}, not the beginning of {:?}", room, got, want))?;
    }
  }
  let _ = fs::remove_file(&p);
  ensure(go(dir.to_str().unwrap().to_string()).is_err(), || "no error for a directory".to_string())?;
  ensure(go(dir.join("missing").join("out.csv").to_str().unwrap().to_string()).is_err(), || "no error for a missing directory".to_string())?;
  if !want.is_empty() && Path::new("/dev/full").exists() { ensure(go("/dev/full".to_string()).is_err(), || "no error for a full device".to_string())? }
  Ok(())
}

pub fn c19(c: &mut Ctx) {
  let d = Scratch::new("c19");
  let mut r = c.rng("c19");
  let n = if c.thorough { 900 } else { 150 };
  for k in 0..n {
    let s = r.next();
    let (h, w) = if k < 12 { (k / 4, 1 + k % 4) } else if k % 40 == 39 { (r.range(20, 60), r.range(20, 60)) } else { (r.range(1, 9), r.range(1, 9)) };
    let cuts = k % 3 == 0;
    c.case(format!("table {}x{} words seed={}", h, w, s), || { let mut r = Rng(s); let v: Vec<Word> = (0..h * w).map(|_| Word(r.next())).collect(); let m = Matrix::from_body(v.clone(), [h, w]); exported(&d.0, &table(&v, w), cuts, &|p| m.to_csv(p)) });
    c.case(format!("table {}x{} f64 seed={}", h, w, s), || { let mut r = Rng(s); let v: Vec<f64> = (0..h * w).map(|_| (r.f() - 0.5) * 10f64.powi(r.range(0, 12) as i32 - 6)).collect(); let m = Matrix::from_body(v.clone(), [h, w]); exported(&d.0, &table(&v, w), false, &|p| m.to_csv(p)) });
    c.case(format!("table {}x{} Cf32 seed={}", h, w, s), || { let mut r = Rng(s); let v: Vec<Cf32> = (0..h * w).map(|_| Cf32::new(r.f() as f32 - 0.5, r.f() as f32)).collect(); let m = Matrix::from_body(v.clone(), [h, w]); exported(&d.0, &table(&v, w), false, &|p| m.to_csv(p)) });
    let (q, a) = (h, w);
    c.case(format!("data set of {} points words seed={}", q, s), || { let mut r = Rng(s); let p: Vec<(Vec<Word>, Vec<Word>)> = (0..q).map(|_| { let (x, y) = (r.range(1, a), r.range(0, 4)); ((0..x).map(|_| Word(r.next())).collect(), (0..y).map(|_| Word(r.next())).collect()) }).collect(); let ds = dataset(&p); exported(&d.0, &points(&p), cuts, &|n| ds.to_csv(n)) });
    c.case(format!("data set of {} points Cf64 seed={}", q, s), || { let mut r = Rng(s); let p: Vec<(Vec<Cf64>, Vec<Cf64>)> = (0..q).map(|_| { let y = r.range(0, 4); ((0..a).map(|_| Cf64::new(r.f(), -r.f())).collect(), (0..y).map(|_| Cf64::new(r.f(), r.f() * 1e9)).collect()) }).collect(); let ds = dataset(&p); exported(&d.0, &points(&p), false, &|n| ds.to_csv(n)) });
  }
  for w in 1..5usize { for h in 1..4usize { for k in 0..w * h { for n in 0..4u64 {
    c.case(format!("table {}x{}, one failing write at value {} byte {}", h, w, k, n), || {
      let m = Matrix::from_body(vec![Gap; h * w], [h, w]);
      let want = format!("{}\n", "x,".repeat(w)).repeat(h);
      gap(&d.0, &want, k, (2 * k + k / w) as u64 + n, &|p| m.to_csv(p))
    });
  } } } }
  for (x, y) in [(1usize, 0usize), (1, 1), (1, 2), (2, 0), (2, 1), (3, 2)] { for q in 1..4usize { for k in 0..(x + y) * q { for n in 0..4u64 {
    c.case(format!("data set of {} points {}+{}, one failing write at value {} byte {}", q, x, y, k, n), || {
      let p: Vec<(Vec<Gap>, Vec<Gap>)> = (0..q).map(|_| (vec![Gap; x], vec![Gap; y])).collect();
      let ds = dataset(&p);
      let want = format!("{}\n", vec!["x"; x + y].join(",")).repeat(q);
      gap(&d.0, &want, k, (2 * k).saturating_sub(1) as u64 + n, &|p| ds.to_csv(p))
    });
  } } } }
}

// ---------------------------------------------------------------- C18
const P: u128 = 2147483647;
fn step(s: &mut u128) -> f64 { *s = (1103515245 * (*s % P) + 12345) % P; *s as f64 / 2147483648.0 }
fn waves(s: &mut u128) -> Vec<(f64, f64, f64)> {
  step(s);
  let n = (*s * 8 / P) as usize + 1;
  (0..n).map(|_| { let a = step(s) * 0.9 + 0.1; let w = step(s) * 0.9 + 0.1; (a, w, 2.0 * std::f64::consts::PI * step(s)) }).collect()
}
fn wave_sum(ws: &[(f64, f64, f64)], t: f64) -> (f64, f64) { ws.iter().fold((0.0, 0.0), |(x, y), (a, w, p)| { let (s, c) = (w * t + p).sin_cos(); (x + a * c, y + a * s) }) }
fn normal(u: f64, v: f64) -> (f64, f64) { let r = (-2.0 * u.ln()).sqrt(); let (s, c) = (2.0 * std::f64::consts::PI * v).sin_cos(); (r * c, r * s) }

fn vec_of(x: &IOType<Cf32>) -> Result<Vec<Cf32>, String> { match x { IOType::Scalar(v) => Ok(v.clone()), _ => Err("a point is not a vector".to_string()) } }

fn signals(samples: usize, batch: usize, thr: f32, train: u128, test: u128) -> Result<(), String> {
  let go = || { let (mut a, mut b) = (train, test); let r = Dataset::<Cf32, Cf32>::signal_reconstruction(samples, batch, thr, &mut a, &mut b); (r, a, b) };
  let ((d0, d1), ea, eb) = go();
  let ((e0, e1), fa, fb) = go();
  same("seeds left by equal calls", &(ea, eb), &(fa, fb))?;
  let (mut a, mut b) = (train, test);
  for k in 0..2 { let (d, e) = if k == 0 { (&d0, &e0) } else { (&d1, &e1) };
    same("points", &d.get_n_points(), &batch)?;
    same("points are pairs", &(d.points_as_iter().0.len(), d.points_as_iter().1.len()), &(batch, batch))?;
    for i in 0..batch { same("points of equal calls", &format!("{:?}", d.get_point(i)), &format!("{:?}", e.get_point(i)))? }
  }
  for i in 0..batch {
    let ws = [waves(&mut a), waves(&mut b)];
    let mut clean: Vec<Vec<(f64, f64)>> = vec![];
    for k in 0..2 {
      let (x, y) = if k == 0 { d0.get_point(i) } else { d1.get_point(i) };
      let (x, y) = (vec_of(x)?, vec_of(y)?);
      let at = format!("batch {} point {}", k, i);
      same(&format!("{}: samples", at), &(x.len(), y.len()), &(samples, samples))?;
      for (j, z) in x.iter().chain(y.iter()).enumerate() { ensure(z.re().is_finite() && z.im().is_finite(), || format!("{}: sample {} is {:?}", at, j, z))? }
      let norms: Vec<f64> = y.iter().map(|z| (z.re() as f64).hypot(z.im() as f64)).collect();
      let top = norms.iter().cloned().fold(0.0, f64::max);
      if samples > 0 { ensure((top - 1.0).abs() < 1e-5, || format!("{}: largest modulus {}", at, top))? }
      let raw: Vec<(f64, f64)> = (0..samples).map(|j| wave_sum(&ws[k], 4.0 * std::f64::consts::PI / samples as f64 * j as f64)).collect();
      let m = raw.iter().map(|z| z.0.hypot(z.1)).fold(0.0, f64::max);
      // the smaller the sum, the more of it is rounding
      let tol = 1e-5 + 2e-5 / m.max(1e-9);
      for j in 0..samples { let w = (raw[j].0 / m, raw[j].1 / m); ensure((y[j].re() as f64 - w.0).abs() < tol && (y[j].im() as f64 - w.1).abs() < tol, || format!("{}: clean sample {} is {:?}, the {} waves give {:?}", at, j, y[j], ws[k].len(), w))? }
      if thr == 0.0 { for j in 0..samples { ensure(x[j].re() == y[j].re() && x[j].im() == y[j].im(), || format!("{}: no noise asked for, but sample {} is {:?} instead of {:?}", at, j, x[j], y[j]))? } }
      clean.push(y.iter().map(|z| (z.re() as f64, z.im() as f64)).collect());
    }
    for k in 0..2 {
      let x = vec_of(if k == 0 { d0.get_point(i).0 } else { d1.get_point(i).0 })?;
      for j in (0..samples).step_by(2) {
        let u = step(&mut b).max(f32::MIN_POSITIVE as f64);
        let (g, h) = normal(u, step(&mut b));
        let q = if k == 0 { [step(&mut a), step(&mut a)] } else { [step(&mut b), step(&mut b)] };
        for (o, z) in [g, h].into_iter().enumerate() {
          let c = clean[k][j + o];
          let n = z * (thr as f64 + thr as f64 / 20.0 * c.0.hypot(c.1));
          let (s, co) = (2.0 * std::f64::consts::PI * q[o]).sin_cos();
          let w = (c.0 + n * co, c.1 + n * s);
          let tol = 1e-5 + 1e-3 * thr.abs() as f64;
          ensure((x[j + o].re() as f64 - w.0).abs() < tol && (x[j + o].im() as f64 - w.1).abs() < tol, || format!("batch {} point {}: corrupted sample {} is {:?}, expected {:?} from {:?} with noise {}", k, i, j + o, x[j + o], w, c, thr))?;
        }
      }
    }
  }
  Ok(())
}

/// a test seed and a number of samples with a zero among the noise draws
fn zero_draw_seed() -> Option<(u128, usize)> {
  // the inverse of the multiplier modulo the prime
  let (mut inv, mut b, mut e) = (1u128, 1103515245u128 % P, P - 2);
  while e > 0 { if e & 1 == 1 { inv = inv * b % P } b = b * b % P; e >>= 1 }
  let back = |s: u128| (s + P - 12345) % P * inv % P;
  for pair in 0..40usize { for n in 1..=8usize {
    let mut s = back(0);
    for _ in 0..3 * n + 1 + 2 * pair { s = back(s) }
    let mut f = s;
    if waves(&mut f).len() == n { for _ in 0..2 * pair { step(&mut f); } step(&mut f); if f == 0 { return Some((s, 2 * pair + 4)) } }
  } }
  None
}

/// seeds whose first signal has an unusually large, or small, peak
fn rare_seeds(r: &mut Rng) -> Vec<u128> {
  let mut by: Vec<(f64, u128)> = (0..200_000).map(|_| { let s = r.next() as u128 % P; (waves(&mut { s }).iter().map(|w| w.0).sum(), s) }).collect();
  by.sort_by(|a, b| a.0.total_cmp(&b.0));
  let peak = |s: u128| { let ws = waves(&mut { s }); (0..24).map(|j| wave_sum(&ws, 4.0 * std::f64::consts::PI / 24.0 * j as f64)).map(|z| z.0.hypot(z.1)).fold(0.0, f64::max) };
  let mut top: Vec<(f64, u128)> = by[by.len() - 2000..].iter().map(|x| (peak(x.1), x.1)).collect();
  top.sort_by(|a, b| b.0.total_cmp(&a.0));
  top.iter().take(3).chain(by.iter().take(2)).map(|x| x.1).collect()
}

pub fn c18(c: &mut Ctx) {
  let mut r = c.rng("c18");
  let rare = rare_seeds(&mut r);
  for &a in &rare { for &b in &rare { c.case(format!("signals samples=24 batch=1 noise=0.1 rare seeds={} {}", a, b), || signals(24, 1, 0.1, a, b)) } }
  for k in 0..if c.thorough { 1500 } else { 260 } {
    let samples = if k < 10 { 2 * k } else if k % 30 == 29 { 2 * r.range(100, 400) } else { 2 * r.range(1, 20) };
    let batch = if k % 17 == 16 { 0 } else { r.range(1, 4) };
    let thr = [0.0f32, 0.0, 0.01, 0.1, 0.5, 2.0][k % 6];
    let big = k % 5 == 4;
    let mut seed = |r: &mut Rng| if big { r.next() as u128 * r.next() as u128 } else { r.next() as u128 % 1_000_000 };
    let (a, b) = (seed(&mut r), seed(&mut r));
    c.case(format!("signals samples={} batch={} noise={} seeds={} {}", samples, batch, thr, a, b), || signals(samples, batch, thr, a, b));
  }
  match zero_draw_seed() {
    Some((s, n)) => for thr in [0.0f32, 0.25] { c.case(format!("signals with a zero draw, samples={} noise={} seeds=5 {}", n, thr, s), || signals(n, 1, thr, 5, s)) },
    None => c.notes.push("no seed with a zero noise draw".to_string()),
  }
}
