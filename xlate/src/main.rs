//! Mechanical extraction of functions from the crate's source into Verus.
//!
//! Reads the source files, takes the functions named in the contract files, rewrites the
//! iterator chains, closures and numeric types into the dialect Verus accepts and splices
//! in the contracts. Nothing about a function body is written by hand: the bodies come
//! from the source tree on every run.
mod contract;
mod inline;
mod lower;
mod print;
mod source;

use contract::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
  }
  o.push('"');
  o
}

/// xlate SRC_DIR CONTRACT_DIR OUT.rs OUT.json --fns a,b,c [--verify a,b] [--demote x,y] [--vacuity f] [--upto file] [--files a,b]
fn main() {
  let a: Vec<String> = std::env::args().collect();
  let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or_default();
  let set = |s: String| -> BTreeSet<String> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
  let (src, cdir, out, meta) = (&a[1], &a[2], &a[3], &a[4]);
  let verify = set(opt("--verify"));
  let demote = set(opt("--demote"));
  let vac = set(opt("--vacuity"));
  let write_idents = a.iter().any(|x| x == "--write-idents");

  let c = Contracts::load(cdir, &opt("--upto"), &set(opt("--files")));
  let mut s = source::Source::new(src, c.fns.keys().filter_map(|k| k.rsplit("::").next()).map(|s| s.to_string()).collect());
  let mut text = String::new();
  let mut info: Vec<String> = vec![];
  let mut idents_out = String::new();

  for part in &c.layout {
    match part {
      Part::Raw(t) => { text.push_str(t); text.push('\n') }
      Part::Item { file, name, attrs } => {
        match s.item(file, name) {
          Ok(t) => { let _ = write!(text, "{}\n{}\n", attrs, t); }
          Err(e) => { info.push(format!("{{\"item\":{},\"file\":{},\"error\":{}}}", esc(name), esc(file), esc(&e))); }
        }
      }
      Part::Fn(key) => {
        let f = &c.fns[key];
        let body = (verify.contains(key) || verify.contains("all")) && !demote.contains(key);
        let before = text.lines().count() + 1;
        let r = s.function(f, body, vac.contains(key) || vac.contains("all"), &c.idents);
        match r {
          Ok(g) => {
            text.push_str(&g.text);
            text.push('\n');
            let after = text.lines().count();
            let _ = writeln!(idents_out, "{} | {} | {}", key, g.idents.join(" "), g.loops.join(" "));
            info.push(format!("{{\"fn\":{},\"file\":{},\"line\":{},\"first\":{},\"last\":{},\"verified\":{},\"loops\":[{}],\"bail\":{},\"weak\":[{}],\"calls\":[{}]}}",
              esc(key), esc(&f.file), g.src_line, before, after, body && g.bail.is_none(), g.loops.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","),
              match &g.bail { Some(b) => esc(b), None => "null".to_string() }, g.weak.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","),
              g.calls.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")));
          }
          Err(e) => { info.push(format!("{{\"fn\":{},\"file\":{},\"missing\":{}}}", esc(key), esc(&f.file), esc(&e))); }
        }
      }
    }
  }
  std::fs::write(out, &text).unwrap();
  std::fs::write(meta, format!("[{}]\n", info.join(",\n"))).unwrap();
  if write_idents { std::fs::write(format!("{}/idents.txt", cdir), idents_out).unwrap(); }
}
