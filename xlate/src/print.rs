//! Token printer: one statement per line, annotation markers replaced by their text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// `__v!(kind k)` markers are replaced by `ann(kind, k)`; a marker of kind `inv` that opens
/// a block is printed before the block.
pub fn print(ts: TokenStream, ann: &dyn Fn(&str, usize) -> String) -> String {
  let mut p = P { o: String::new(), ind: 1, ann, bol: true };
  p.stream(ts);
  p.o
}

struct P<'a> { o: String, ind: usize, ann: &'a dyn Fn(&str, usize) -> String, bol: bool }

fn marker(t: &[TokenTree], i: usize) -> Option<(String, usize)> {
  let TokenTree::Ident(id) = t.get(i)? else { return None };
  if id != "__v" { return None }
  let TokenTree::Group(g) = t.get(i + 2)? else { return None };
  let s = g.stream().to_string();
  let mut w = s.split_whitespace();
  Some((w.next()?.to_string(), w.next()?.parse().ok()?))
}

impl P<'_> {
  fn nl(&mut self) {
    while self.o.ends_with(' ') { self.o.pop(); }
    if !self.o.ends_with('\n') && !self.o.is_empty() { self.o.push('\n') }
    self.bol = true;
  }
  fn word(&mut self, s: &str, space: bool) {
    if self.bol { for _ in 0..self.ind { self.o.push_str("  ") } self.bol = false }
    self.o.push_str(s);
    if space { self.o.push(' ') }
  }
  fn block_text(&mut self, s: &str) {
    if s.trim().is_empty() { return }
    self.nl();
    for l in s.lines() { if l.trim().is_empty() { continue } self.bol = true; self.word(l.trim_end(), false); self.o.push('\n') }
    self.bol = true;
  }
  fn stream(&mut self, ts: TokenStream) {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < t.len() {
      if let Some((k, n)) = marker(&t, i) {
        let s = (self.ann)(&k, n);
        self.block_text(&s);
        i += 3;
        if let Some(TokenTree::Punct(p)) = t.get(i) { if p.as_char() == ';' { i += 1 } }
        continue;
      }
      match &t[i] {
        TokenTree::Group(g) => match g.delimiter() {
          Delimiter::Brace => {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let mut skip = 0;
            if let Some((k, n)) = marker(&inner, 0) {
              if k == "inv" {
                let s = (self.ann)(&k, n);
                self.ind += 2;
                self.block_text(&s);
                self.ind -= 2;
                skip = 4;
              }
            }
            self.word("{", false);
            self.ind += 1;
            self.nl();
            self.stream(inner.into_iter().skip(skip).collect());
            self.nl();
            self.ind -= 1;
            self.word("}", true);
            let next_cont = match t.get(i + 1) {
              Some(TokenTree::Punct(p)) => matches!(p.as_char(), '.' | ';' | ',' | '?' | ')' ),
              Some(TokenTree::Ident(id)) => id == "else",
              None => true,
              _ => false,
            };
            if !next_cont { self.nl() }
          }
          d => {
            let (a, b) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
            while self.o.ends_with(' ') && d == Delimiter::Bracket && false { self.o.pop(); }
            self.word(a, false);
            self.stream(g.stream());
            while self.o.ends_with(' ') { self.o.pop(); }
            self.word(b, true);
          }
        },
        TokenTree::Punct(p) => {
          let c = p.as_char();
          if matches!(c, ';' | ',' | '.' | '?') { while self.o.ends_with(' ') { self.o.pop(); } }
          let s = c.to_string();
          let joint = p.spacing() == Spacing::Joint || c == '\'';
          let glue = c == '.' || (c == '&' && true) || (c == '*' && false);
          self.word(&s, !(joint || glue));
          if c == ';' { self.nl() }
        }
        TokenTree::Ident(id) => { self.word(&id.to_string(), true) }
        TokenTree::Literal(l) => { self.word(&l.to_string(), true) }
      }
      i += 1;
    }
  }
}
