//! Contract files.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct LoopAnn { pub inv: String, pub head: String, pub leave: String, pub pre: String, pub start: String, pub end: String, pub post: String }

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
  pub key: String,
  pub file: String,
  /// elem: T becomes the abstract element; gen: T stays generic; f32, f64: floats become F32 / F64
  pub mode: String,
  pub ret: String,
  pub requires: String,
  pub ensures: String,
  pub begin: String,
  pub tail: String,
  pub loops: BTreeMap<usize, LoopAnn>,
  pub befores: Vec<(String, String)>,
  pub attrs: String,
  pub header: String,
  /// points (end k, post k, tail) that no execution reaches
  pub unreach: Vec<String>,
  /// a panic ends the call instead of being an obligation
  pub maypanic: bool,
  /// the function writes files: it gets the files as a further argument
  pub disk: bool,
}

pub enum Part { Raw(String), Item { file: String, name: String, attrs: String }, Fn(String) }

pub struct Contracts {
  pub fns: BTreeMap<String, FnSpec>,
  pub layout: Vec<Part>,
  /// key -> (identifiers bound in the function, loop kinds) when the contract was written
  pub idents: BTreeMap<String, (Vec<String>, Vec<String>)>,
}

fn kv(words: &[&str], k: &str) -> String {
  words.iter().find_map(|w| w.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string()
}

impl Contracts {
  /// `upto`: leave out the contract files after this one (the closing file stays);
  /// `only`: take just these contract files besides the fixed text
  pub fn load(dir: &str, upto: &str, only: &BTreeSet<String>) -> Self {
    let mut c = Contracts { fns: BTreeMap::new(), layout: vec![], idents: BTreeMap::new() };
    if let Ok(t) = std::fs::read_to_string(format!("{}/idents.txt", dir)) {
      for l in t.lines() {
        let p: Vec<&str> = l.split('|').collect();
        if p.len() == 3 {
          let v = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
          c.idents.insert(p[0].trim().to_string(), (v(p[1]), v(p[2])));
        }
      }
    }
    let order = std::fs::read_to_string(format!("{}/order.txt", dir)).expect("order.txt");
    let names: Vec<&str> = order.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    let stop = names.iter().position(|n| *n == upto).unwrap_or(names.len());
    for (pos, name) in names.iter().enumerate() {
      let name = *name;
      if pos > stop && pos + 1 < names.len() { continue }
      if !only.is_empty() && !name.ends_with(".rs") && !only.contains(name) { continue }
      let text = std::fs::read_to_string(format!("{}/{}", dir, name)).unwrap_or_else(|e| panic!("{}: {}", name, e));
      if name.ends_with(".rs") { c.layout.push(Part::Raw(text)); continue }
      c.parse(&text, name);
    }
    c
  }

  fn parse(&mut self, text: &str, name: &str) {
    let mut cur: Option<FnSpec> = None;
    let mut sect: (String, String) = (String::new(), String::new());
    let mut defaults: Vec<String> = vec![];
    let mut raw = String::new();
    // instantiation for several types: lines between @for A=x B=y | A=z B=w and @endfor
    let text = expand_for(text);
    for line in text.lines() {
      if let Some(d) = line.strip_prefix('@') {
        let words: Vec<&str> = d.split_whitespace().collect();
        let rest = d[words[0].len()..].trim().to_string();
        match words[0] {
          "file" => { defaults = words[1..].iter().map(|s| s.to_string()).collect(); if !defaults[0].contains('=') { defaults[0] = format!("file={}", defaults[0]) } }
          "fn" => {
            if let Some(f) = cur.take() { self.push(f) }
            if !raw.is_empty() { self.layout.push(Part::Raw(std::mem::take(&mut raw))) }
            let mut all: Vec<&str> = words[2..].to_vec();
            all.extend(defaults.iter().map(|s| s.as_str()));
            cur = Some(FnSpec { key: words[1].to_string(), file: kv(&all, "file"), mode: kv(&all, "mode"), ret: "r".to_string(), ..Default::default() });
            sect = (String::new(), String::new());
          }
          "item" => {
            if let Some(f) = cur.take() { self.push(f) }
            if !raw.is_empty() { self.layout.push(Part::Raw(std::mem::take(&mut raw))) }
            let d: Vec<&str> = defaults.iter().map(|s| s.as_str()).collect();
            self.layout.push(Part::Item { file: kv(&d, "file"), name: words[1].to_string(), attrs: words[2..].join(" ") });
          }
          "raw" => { if let Some(f) = cur.take() { self.push(f) } sect = ("raw".to_string(), String::new()) }
          "ret" => cur.as_mut().unwrap().ret = words[1].to_string(),
          "attr" => cur.as_mut().unwrap().attrs = rest,
          "disk" => cur.as_mut().unwrap().disk = true,
          "maypanic" => cur.as_mut().unwrap().maypanic = true,
          "unreachable" => cur.as_mut().unwrap().unreach.push(rest),
          "header" => cur.as_mut().unwrap().header = rest,
          w @ ("requires" | "ensures" | "begin" | "tail" | "loop" | "head" | "leave" | "pre" | "start" | "end" | "post" | "before") => {
            sect = (w.to_string(), rest);
            if w == "before" { cur.as_mut().unwrap().befores.push((sect.1.clone(), String::new())) }
          }
          "#" => {}
          w => panic!("{}: unknown directive @{}", name, w),
        }
        continue;
      }
      if sect.0 == "raw" { raw.push_str(line); raw.push('\n'); continue }
      let Some(f) = cur.as_mut() else { if !line.trim().is_empty() { panic!("{}: stray line {}", name, line) } continue };
      let k = || sect.1.parse::<usize>().unwrap_or_else(|_| panic!("{}: {}: bad loop number", name, sect.1));
      let t: &mut String = match sect.0.as_str() {
        "requires" => &mut f.requires,
        "ensures" => &mut f.ensures,
        "begin" => &mut f.begin,
        "tail" => &mut f.tail,
        "loop" => &mut f.loops.entry(k()).or_default().inv,
        "head" => &mut f.loops.entry(k()).or_default().head,
        "leave" => &mut f.loops.entry(k()).or_default().leave,
        "pre" => &mut f.loops.entry(k()).or_default().pre,
        "start" => &mut f.loops.entry(k()).or_default().start,
        "end" => &mut f.loops.entry(k()).or_default().end,
        "post" => &mut f.loops.entry(k()).or_default().post,
        "before" => &mut f.befores.last_mut().unwrap().1,
        _ => { if !line.trim().is_empty() { panic!("{}: stray line in {}: {}", name, f.key, line) } continue }
      };
      t.push_str(line);
      t.push('\n');
    }
    if let Some(f) = cur.take() { self.push(f) }
    if !raw.is_empty() { self.layout.push(Part::Raw(raw)) }
  }

  fn push(&mut self, f: FnSpec) {
    self.layout.push(Part::Fn(f.key.clone()));
    if self.fns.insert(f.key.clone(), f.clone()).is_some() { panic!("{} given twice", f.key) }
  }
}

/// `@for F=f32,f64 C=Cf32,Cf64` ... `@endfor`: the block is repeated for every position of
/// the lists with `$F`, `$C` replaced.
fn expand_for(text: &str) -> String {
  let mut o = String::new();
  let mut it = text.lines();
  while let Some(l) = it.next() {
    if let Some(d) = l.strip_prefix("@for ") {
      let vars: Vec<(String, Vec<String>)> = d.split_whitespace().map(|w| { let (a, b) = w.split_once('=').unwrap(); (a.to_string(), b.split(',').map(|s| s.to_string()).collect()) }).collect();
      let mut body = String::new();
      for l in it.by_ref() { if l.trim() == "@endfor" { break } body.push_str(l); body.push('\n') }
      let n = vars[0].1.len();
      for k in 0..n {
        let mut b = body.clone();
        for (v, vals) in &vars { b = b.replace(&format!("${}", v), &vals[k]) }
        o.push_str(&b);
      }
    } else { o.push_str(l); o.push('\n') }
  }
  o
}
