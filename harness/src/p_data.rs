//! C16 (dataset part)
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::matrix::Matrix;
use crate::ctx::*;

fn show<T: Clone + std::fmt::Debug>(x: &IOType<T>) -> String { format!("{:?}", x) }

fn pairing(s: u64, n: usize) -> Result<(), String> {
  let mut r = Rng(s);
  let mk = |r: &mut Rng| -> IOType<i64> {
    if r.range(0, 1) == 0 { IOType::Scalar((0..r.range(0, 4)).map(|_| r.next() as i64).collect()) }
    else { IOType::Matrix((0..r.range(0, 3)).map(|_| { let (h, w) = (r.range(1, 3), r.range(1, 3)); Matrix::from_body((0..h * w).map(|_| r.next() as i64).collect(), [h, w]) }).collect()) }
  };
  let mut d: Dataset<i64, i64> = Dataset::new();
  same("points of a new batch", &d.get_n_points(), &0)?;
  let mut pts = vec![];
  for k in 0..n {
    let (a, b) = (mk(&mut r), mk(&mut r));
    pts.push((show(&a), show(&b)));
    d.add_point((a, b));
    same("number of points", &d.get_n_points(), &(k + 1))?;
  }
  for k in 0..n {
    let (a, b) = d.get_point(k);
    same(&format!("point {}", k), &(show(a), show(b)), &pts[k])?;
  }
  let (a, b) = d.points_as_iter();
  same("iterator lengths", &(a.len(), b.len()), &(n, n))?;
  let got: Vec<(String, String)> = a.zip(b).map(|(a, b)| (show(a), show(b))).collect();
  same("borrowed iteration", &got, &pts)?;
  let (a, b) = d.clone().points_into_iter();
  let got: Vec<(String, String)> = a.zip(b).map(|(a, b)| (show(&a), show(&b))).collect();
  same("consumed iteration", &got, &pts)
}

pub fn c16_data(c: &mut Ctx) {
  let mut r = c.rng("c16d");
  for k in 0..if c.thorough { 3000 } else { 600 } {
    let s = r.next();
    let n = if k % 50 == 49 { r.range(50, 400) } else { k % 12 };
    c.case(format!("pairing of {} points seed={}", n, s), || pairing(s, n));
  }
  c.case("accessors".to_string(), || {
    for n in [0usize, 1, 5, 100] {
      let v: Vec<i64> = (0..n as i64).collect();
      let io = IOType::Scalar(v.clone());
      same("as_slice", &io.as_slice().to_vec(), &v)?;
      same("to_vec", &io.to_vec(), &v)?;
      let mut m = io.clone();
      if n > 0 { m.as_mut()[n - 1] = -1 }
      let mut w = v.clone(); if n > 0 { w[n - 1] = -1 }
      same("as_mut", &m.as_slice().to_vec(), &w)?;
      same("release_vec", &io.clone().release_vec().map_err(|e| format!("{:?}", e))?, &v)?;
      ensure(io.release_maps().is_err(), || "maps released from a vector".to_string())?;
      let maps: IOType<i64> = IOType::Matrix((0..n).map(|k| Matrix::from_body(vec![k as i64; 2], [1, 2])).collect());
      let got = maps.clone().release_maps().map_err(|e| format!("{:?}", e))?;
      same("release_maps", &got.iter().map(|m| m.get_body().to_vec()).collect::<Vec<_>>(), &(0..n).map(|k| vec![k as i64; 2]).collect())?;
      ensure(maps.release_vec().is_err(), || "vector released from maps".to_string())?;
    }
    Ok(())
  });
}
