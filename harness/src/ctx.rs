//! Case runner: counts, samples, failures, replay filter.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// Uniform in lo..=hi.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + (self.next() % ((hi - lo + 1) as u64)) as usize
  }
  pub fn f(&mut self) -> f64 {
    (self.next() >> 11) as f64 / (1u64 << 53) as f64
  }
}

pub struct Fail {
  pub case: String,
  pub detail: String,
}

pub struct Ctx {
  pub id: String,
  pub seed: u64,
  pub thorough: bool,
  pub only: Option<String>,
  pub evals: u64,
  pub distinct: HashSet<u64>,
  pub samples: Vec<String>,
  pub fails: Vec<Fail>,
  pub known: Vec<String>,
  pub notes: Vec<String>,
}

pub const MAX_FAILS: usize = 3;

impl Ctx {
  pub fn rng(&self, tag: &str) -> Rng {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (self.seed, tag).hash(&mut h);
    Rng(h.finish())
  }

  pub fn stop(&self) -> bool {
    self.fails.len() >= MAX_FAILS
  }

  /// Runs one case. A panic inside counts as a failure of the case.
  pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, name: String, f: F) {
    if let Some(o) = &self.only {
      if *o != name { return }
    } else if self.stop() {
      return
    }
    self.evals += 1;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    name.hash(&mut h);
    self.distinct.insert(h.finish());
    if self.samples.len() < 4 || (self.evals % 997 == 0 && self.samples.len() < 8) {
      self.samples.push(name.clone());
    }
    match catch_unwind(AssertUnwindSafe(f)) {
      Ok(Ok(())) => {}
      Ok(Err(d)) => self.fails.push(Fail { case: name, detail: d }),
      Err(p) => {
        let m = p.downcast_ref::<String>().cloned()
          .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
          .unwrap_or_default();
        self.fails.push(Fail { case: name, detail: format!("panicked: {}", m) })
      }
    }
  }
}

/// Result of a call that may panic.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
    p.downcast_ref::<String>().cloned()
      .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
      .unwrap_or_default()
  })
}

pub fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: &A, want: &A) -> Result<(), String> {
  if got == want { Ok(()) } else {
    let trim = |s: String| if s.len() > 1200 { format!("{}...", &s[..s.char_indices().take(1200).last().unwrap().0]) } else { s };
    Err(format!("{}: got {} expected {}", what, trim(format!("{:?}", got)), trim(format!("{:?}", want))))
  }
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
  if cond { Ok(()) } else { Err(msg()) }
}
