//! Rewriting of function bodies: iterator chains become index loops, closures are inlined,
//! floats become abstract, a few std calls are renamed to specified stand-ins.
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub enum Src {
  Leaf(Expr),
  Mut(Expr),
  Range(Expr, Expr, bool),
  Zip(Box<Src>, Box<Src>),
  Enum(Box<Src>),
  Rev(Box<Src>),
  Map(Box<Src>, Expr),
  Flat(Box<Src>, Expr),
  Take(Box<Src>, Expr),
  Skip(Box<Src>, Expr),
}

/// a prepared source: names of the variables that hold it
enum P {
  Leaf(Ident, Ident),
  Mut(Ident, Ident),
  Range(Option<Ident>, Ident),
  Zip(Box<P>, Box<P>, Ident),
  Enum(Box<P>),
  Rev(Box<P>),
  Map(Box<P>, Expr),
  Skip(Box<P>, Ident, Ident),
  Take(Box<P>, Ident),
}

#[derive(Clone)]
enum Val { Closure(ExprClosure), Chain(Src), FnVal(Expr), Block, Plain }

pub struct Lower {
  pub mode: String,
  pub kinds: Vec<String>,
  pub auto: Vec<Vec<String>>,
  pub bail: Option<String>,
  pub consts: HashMap<String, Expr>,
  pub self_float: bool,
  pub maypanic: bool,
  pub disk: bool,
  pub calls: Vec<String>,
  scopes: Vec<HashMap<String, Val>>,
}

const ITER: &[&str] = &["iter", "iter_mut", "into_iter", "zip", "enumerate", "rev", "map", "flat_map", "take", "skip", "cloned", "copied", "rows_as_iter", "get_slider", "chunks", "windows", "drain", "body_into_iter"];

fn strip(e: &Expr) -> &Expr {
  match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e }
}
fn path_name(e: &Expr) -> Option<String> {
  if let Expr::Path(p) = strip(e) { if p.qself.is_none() && p.path.segments.len() == 1 { return Some(p.path.segments[0].ident.to_string()) } }
  None
}

impl Lower {
  pub fn new(mode: &str, consts: HashMap<String, Expr>) -> Self {
    Lower { mode: mode.to_string(), kinds: vec![], auto: vec![], bail: None, consts, self_float: false, maypanic: false, disk: false, calls: vec![], scopes: vec![HashMap::new()] }
  }
  pub fn param(&mut self, name: String, block: bool) { self.scopes[0].insert(name, if block { Val::Block } else { Val::Plain }); }
  fn bail(&mut self, s: impl Into<String>) { if self.bail.is_none() { self.bail = Some(s.into()) } }
  fn look(&self, n: &str) -> Option<&Val> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
  fn set(&mut self, n: String, v: Val) { self.scopes.last_mut().unwrap().insert(n, v); }
  fn bind_names(&mut self, p: &Pat) {
    let mut b = Binders(vec![]);
    syn::visit::Visit::visit_pat(&mut b, p);
    for n in b.0 { self.set(n, Val::Plain) }
  }
  fn fl(&self) -> Ident { format_ident!("{}", match self.mode.as_str() { "f64" => "F64", _ => "F32" }) }

  // ------------------------------------------------------------ parsing of chains
  fn src(&mut self, e: &Expr) -> Src {
    let e = strip(e);
    match e {
      Expr::Range(r) => {
        let zero: Expr = parse_quote!(0);
        let lo = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(zero);
        match &r.end {
          Some(h) => Src::Range(lo, (**h).clone(), matches!(r.limits, RangeLimits::Closed(_))),
          None => { self.bail("unbounded range"); Src::Leaf(e.clone()) }
        }
      }
      Expr::Reference(r) if r.mutability.is_some() => Src::Mut((*r.expr).clone()),
      Expr::MethodCall(m) => {
        let r = || (*m.receiver).clone();
        match m.method.to_string().as_str() {
          "iter_mut" => Src::Mut(r()),
          "zip" => Src::Zip(Box::new(self.src(&m.receiver)), Box::new(self.src(&m.args[0]))),
          "enumerate" => Src::Enum(Box::new(self.src(&m.receiver))),
          "rev" => Src::Rev(Box::new(self.src(&m.receiver))),
          "map" => Src::Map(Box::new(self.src(&m.receiver)), m.args[0].clone()),
          "flat_map" => Src::Flat(Box::new(self.src(&m.receiver)), m.args[0].clone()),
          "take" => Src::Take(Box::new(self.src(&m.receiver)), m.args[0].clone()),
          "skip" => Src::Skip(Box::new(self.src(&m.receiver)), m.args[0].clone()),
          "cloned" | "copied" => Src::Map(Box::new(self.src(&m.receiver)), parse_quote!(|vc| *vc)),
          "into_iter" => match self.src(&m.receiver) { Src::Leaf(_) => Src::Leaf(e.clone()), s => s },
          _ => Src::Leaf(e.clone()),
        }
      }
      _ => {
        if let Some(n) = path_name(e) { if let Some(Val::Chain(s)) = self.look(&n) { return s.clone() } }
        Src::Leaf(e.clone())
      }
    }
  }

  fn is_chain(&mut self, e: &Expr) -> bool {
    match strip(e) {
      Expr::MethodCall(m) => ITER.contains(&m.method.to_string().as_str()),
      Expr::Range(_) => true,
      x => path_name(x).map(|n| matches!(self.look(&n), Some(Val::Chain(_)))).unwrap_or(false),
    }
  }

  fn kind(s: &Src) -> String {
    match s {
      Src::Leaf(e) => match strip(e) { Expr::MethodCall(m) => m.method.to_string(), _ => "x".to_string() },
      Src::Mut(_) => "mut".to_string(),
      Src::Range(..) => "range".to_string(),
      Src::Zip(a, b) => format!("zip({},{})", Self::kind(a), Self::kind(b)),
      Src::Enum(a) => format!("enumerate({})", Self::kind(a)),
      Src::Rev(a) => format!("rev({})", Self::kind(a)),
      Src::Map(a, _) => format!("map({})", Self::kind(a)),
      Src::Flat(a, _) => format!("flat({})", Self::kind(a)),
      Src::Take(a, _) => format!("take({})", Self::kind(a)),
      Src::Skip(a, _) => format!("skip({})", Self::kind(a)),
    }
  }

  fn lowered(&mut self, e: &Expr) -> Expr { let mut e = e.clone(); self.visit_expr_mut(&mut e); e }

  fn prep(&mut self, s: &Src, k: usize, j: &mut usize, out: &mut Vec<Stmt>) -> P {
    let nm = |p: &str| { format_ident!("{}_{}_{}", p, k, *j) };
    match s {
      Src::Leaf(e) => {
        let (v, n) = (nm("s"), nm("n"));
        *j += 1;
        let x = self.lowered(e);
        let direct = matches!(&x, Expr::MethodCall(m) if ["viter", "vinto", "vchunks", "vwindows"].contains(&m.method.to_string().as_str()));
        if direct { out.push(parse_quote!(let #v = #x;)) } else { out.push(parse_quote!(let #v = #x.vinto();)) }
        out.push(parse_quote!(let #n = #v.vn();));
        P::Leaf(v, n)
      }
      Src::Mut(e) => {
        let (v, n) = (nm("s"), nm("n"));
        *j += 1;
        let x = self.lowered(e);
        out.push(parse_quote!(let #v = #x.vmut();));
        out.push(parse_quote!(let #n = #v.len();));
        self.auto[k].push(format!("{}.len() == {}", v, n));
        P::Mut(v, n)
      }
      Src::Range(lo, hi, incl) => {
        let (l, h, n) = (nm("lo"), nm("hi"), nm("n"));
        *j += 1;
        let zero = matches!(strip(lo), Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.base10_digits() == "0");
        let (lo, hi) = (self.lowered(lo), self.lowered(hi));
        if zero && !*incl { out.push(parse_quote!(let #n: usize = #hi;)); return P::Range(None, n) }
        out.push(parse_quote!(let #l: usize = #lo;));
        out.push(parse_quote!(let #h: usize = #hi;));
        if *incl { out.push(parse_quote!(let #n: usize = if #h >= #l { #h - #l + 1 } else { 0 };)) }
        else { out.push(parse_quote!(let #n: usize = if #h > #l { #h - #l } else { 0 };)) }
        P::Range(Some(l), n)
      }
      Src::Zip(a, b) => {
        let a = self.prep(a, k, j, out);
        let b = self.prep(b, k, j, out);
        let n = format_ident!("n_{}_{}", k, *j);
        *j += 1;
        let (na, nb) = (Self::n(&a), Self::n(&b));
        out.push(parse_quote!(let #n: usize = if #na < #nb { #na } else { #nb };));
        P::Zip(Box::new(a), Box::new(b), n)
      }
      Src::Enum(a) => P::Enum(Box::new(self.prep(a, k, j, out))),
      Src::Rev(a) => P::Rev(Box::new(self.prep(a, k, j, out))),
      Src::Map(a, c) => P::Map(Box::new(self.prep(a, k, j, out)), c.clone()),
      Src::Take(a, m) => {
        let a = self.prep(a, k, j, out);
        let n = format_ident!("n_{}_{}", k, *j);
        *j += 1;
        let (na, m) = (Self::n(&a), self.lowered(m));
        out.push(parse_quote!(let #n: usize = #m;));
        out.push(parse_quote!(let #n: usize = if #na < #n { #na } else { #n };));
        P::Take(Box::new(a), n)
      }
      Src::Skip(a, m) => {
        let a = self.prep(a, k, j, out);
        let (d, n) = (format_ident!("d_{}_{}", k, *j), format_ident!("n_{}_{}", k, *j));
        *j += 1;
        let (na, m) = (Self::n(&a), self.lowered(m));
        out.push(parse_quote!(let #d: usize = #m;));
        out.push(parse_quote!(let #n: usize = if #na > #d { #na - #d } else { 0 };));
        P::Skip(Box::new(a), d, n)
      }
      Src::Flat(a, _) => { self.bail("flat_map inside another adaptor"); self.prep(a, k, j, out) }
    }
  }
  fn n(p: &P) -> Ident {
    match p { P::Leaf(_, n) | P::Mut(_, n) | P::Range(_, n) | P::Zip(_, _, n) | P::Skip(_, _, n) | P::Take(_, n) => n.clone(), P::Enum(a) | P::Rev(a) | P::Map(a, _) => Self::n(a) }
  }

  fn value(&mut self, p: &P, i: &Expr) -> Expr {
    match p {
      P::Leaf(v, _) => parse_quote!(#v.vat(#i)),
      P::Mut(v, _) => parse_quote!(&mut #v[#i]),
      P::Range(None, _) => i.clone(),
      P::Range(Some(l), _) => parse_quote!(#l + #i),
      P::Zip(a, b, _) => { let (a, b) = (self.value(a, i), self.value(b, i)); parse_quote!((#a, #b)) }
      P::Enum(a) => { let a = self.value(a, i); parse_quote!((#i, #a)) }
      P::Rev(a) => { let n = Self::n(a); let x: Expr = parse_quote!(#n - 1 - #i); self.value(a, &x) }
      P::Skip(a, d, _) => { let x: Expr = parse_quote!(#d + #i); self.value(a, &x) }
      P::Take(a, _) => self.value(a, i),
      P::Map(a, c) => {
        let c = c.clone();
        let mut st = vec![];
        let body = self.apply(&c, |me, pats| { me.bind(&pats[0], a, i, &mut st) });
        parse_quote!({ #(#st)* #body })
      }
    }
  }

  /// Binds the pattern to element i of the source.
  fn bind(&mut self, pat: &Pat, p: &P, i: &Expr, out: &mut Vec<Stmt>) {
    match (pat, p) {
      (Pat::Paren(x), _) => self.bind(&x.pat, p, i, out),
      (Pat::Wild(_), P::Range(..)) => {}
      (Pat::Wild(_), P::Leaf(..)) => {}
      (Pat::Tuple(t), P::Zip(a, b, _)) if t.elems.len() == 2 => { self.bind(&t.elems[0], a, i, out); self.bind(&t.elems[1], b, i, out) }
      (Pat::Tuple(t), P::Enum(a)) if t.elems.len() == 2 => {
        let q = &t.elems[0];
        if !matches!(q, Pat::Wild(_)) { out.push(parse_quote!(let #q: usize = #i;)); self.bind_names(q) }
        self.bind(&t.elems[1], a, i, out)
      }
      (Pat::Reference(r), _) => {
        let v = self.value(p, i);
        let q = &r.pat;
        out.push(parse_quote!(let #q = *#v;));
        self.bind_names(q);
      }
      (Pat::Type(t), _) => self.bind(&t.pat, p, i, out),
      (Pat::Ident(_), P::Range(..)) => { let v = self.value(p, i); out.push(parse_quote!(let #pat: usize = #v;)); self.bind_names(pat) }
      // a tuple pattern over references to tuples: fields by reference
      (Pat::Tuple(t), P::Leaf(..)) => {
        let v = self.value(p, i);
        let tmp = format_ident!("tup_{}", out.len());
        out.push(parse_quote!(let #tmp = #v;));
        for (k, q) in t.elems.iter().enumerate() {
          let ix = Index::from(k);
          if matches!(q, Pat::Wild(_)) { continue }
          out.push(parse_quote!(let #q = &#tmp.#ix;));
          self.bind_names(q);
        }
      }
      _ => { let v = self.value(p, i); out.push(parse_quote!(let #pat = #v;)); self.bind_names(pat) }
    }
  }

  /// Inlines a closure, a named closure or a function path: `f` binds the parameters.
  fn apply(&mut self, c: &Expr, f: impl FnOnce(&mut Self, &[Pat])) -> Expr {
    let c = strip(c).clone();
    if let Some(n) = path_name(&c) {
      match self.look(&n).cloned() {
        Some(Val::Closure(cl)) => return self.apply_closure(&cl, f),
        Some(Val::FnVal(e)) => {
          let p: Pat = parse_quote!(eta_a);
          f(self, &[p]);
          return self.call_fnval(&e, vec![parse_quote!(eta_a)]);
        }
        _ => {}
      }
    }
    match &c {
      Expr::Closure(cl) => self.apply_closure(cl, f),
      Expr::Path(_) => {
        let p: Pat = parse_quote!(eta_a);
        f(self, &[p]);
        let e: Expr = parse_quote!(#c(eta_a));
        self.lowered(&e)
      }
      _ => { self.bail("closure argument is not a closure"); c }
    }
  }
  fn apply_closure(&mut self, cl: &ExprClosure, f: impl FnOnce(&mut Self, &[Pat])) -> Expr {
    let mut r = HasReturn(false);
    syn::visit::Visit::visit_expr(&mut r, &cl.body);
    if r.0 { self.bail("return inside a closure") }
    let pats: Vec<Pat> = cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
    self.scopes.push(HashMap::new());
    f(self, &pats);
    let b = self.lowered(&cl.body);
    self.scopes.pop();
    b
  }
  fn call_fnval(&mut self, e: &Expr, args: Vec<Expr>) -> Expr {
    match strip(e) {
      Expr::MethodCall(m) => {
        let mut m = m.clone();
        m.turbofish = None;
        for a in args { m.args.push(a) }
        let e = Expr::MethodCall(m);
        self.lowered(&e)
      }
      Expr::Call(c) => { let mut c = c.clone(); for a in args { c.args.push(a) } let e = Expr::Call(c); self.lowered(&e) }
      Expr::Path(_) => { let e: Expr = parse_quote!(#e(#(#args),*)); self.lowered(&e) }
      _ => { self.bail("function value"); e.clone() }
    }
  }

  fn new_loop(&mut self, kind: String) -> usize { self.kinds.push(kind); self.auto.push(vec![]); self.kinds.len() - 1 }

  /// The loop itself: `body(self, stmts)` adds the statements of one iteration after the
  /// element has been bound to `pat`.
  fn emit(&mut self, k: usize, s: &Src, pat_body: &mut dyn FnMut(&mut Self, &P, &Expr, &mut Vec<Stmt>), init: Vec<Stmt>, first: bool, result: Option<Expr>) -> Expr {
    let mut st = vec![];
    let mut j = 0;
    let p = self.prep(s, k, &mut j, &mut st);
    st.extend(init);
    let (i, n, np) = (format_ident!("i_{}", k), format_ident!("n_{}", k), Self::n(&p));
    let kk = proc_macro2::Literal::usize_unsuffixed(k);
    st.push(parse_quote!(let #n: usize = #np;));
    st.push(parse_quote!(let mut #i: usize = 0;));
    let ie: Expr = parse_quote!(#i);
    let mut body = vec![];
    self.scopes.push(HashMap::new());
    if first {
      let (c, ce): (Ident, Expr) = { let c = format_ident!("c_{}", k); (c.clone(), parse_quote!(#c)) };
      body.push(parse_quote!(let #c: usize = #i;));
      body.push(parse_quote!(#i = #i + 1;));
      pat_body(self, &p, &ce, &mut body);
    } else { pat_body(self, &p, &ie, &mut body) }
    self.scopes.pop();
    let inc: Option<Stmt> = if first { None } else { Some(parse_quote!(#i = #i + 1;)) };
    let w: Stmt = Stmt::Expr(parse_quote!(while #i < #n { __v!(inv #kk); __v!(start #kk); #(#body)* __v!(end #kk); #inc }), None);
    parse_quote!({ #(#st)* __v!(pre #kk); #w __v!(post #kk); #result })
  }

  fn term_for(&mut self, s: &Src, pat: &Pat, body: &Expr, closure: Option<&Expr>) -> Expr {
    let kind = format!("for({})", Self::kind(s));
    // flat_map (possibly zipped): nested loops with a running counter
    if let Src::Flat(a, c) = s { return self.term_flat(kind, a, c, None, closure) }
    if let Src::Zip(x, y) = s { if let Src::Flat(a, c) = &**x { let y = (**y).clone(); return self.term_flat(kind, a, c, Some(y), closure) } }
    let k = self.new_loop(kind);
    let mut cont = HasContinue(false);
    if closure.is_none() { syn::visit::Visit::visit_expr(&mut cont, body) }
    let (pat, body) = (pat.clone(), body.clone());
    self.emit(k, s, &mut |me, p, i, out| {
      match closure {
        Some(c) => {
          let mut st = vec![];
          let b = me.apply(c, |me, pats| me.bind(&pats[0], p, i, &mut st));
          out.push(Stmt::Expr(parse_quote!({ #(#st)* #b; }), None));
        }
        None => {
          let mut st = vec![];
          me.bind(&pat, p, i, &mut st);
          let b = me.lowered(&body);
          out.extend(st);
          out.push(Stmt::Expr(b, Some(Default::default())));
        }
      }
    }, vec![], cont.0, None)
  }

  fn term_flat(&mut self, kind: String, a: &Src, c: &Expr, other: Option<Src>, closure: Option<&Expr>) -> Expr {
    let Some(body) = closure else { self.bail("for over flat_map"); return parse_quote!(()) };
    let k = self.new_loop(kind);
    let inner = self.new_loop("inner".to_string());
    let cnt = format_ident!("cnt_{}", k);
    let mut st = vec![];
    let mut j = 100;
    let o = other.as_ref().map(|o| self.prep(o, k, &mut j, &mut st));
    st.push(parse_quote!(let mut #cnt: usize = 0;));
    let (ii, ni, si) = (format_ident!("i_{}", inner), format_ident!("n_{}", inner), format_ident!("s_{}_0", inner));
    let kk = proc_macro2::Literal::usize_unsuffixed(inner);
    let mutable = matches!(a, Src::Mut(_));
    if mutable { self.auto[inner].push(format!("{}.len() == {}", si, ni)) }
    let a = a.clone();
    let e = self.emit(k, &a, &mut |me, p, i, out| {
      let mut pre = vec![];
      let b = me.apply(c, |me, pats| me.bind(&pats[0], p, i, &mut pre));
      out.extend(pre);
      if mutable { out.push(parse_quote!(let #si = #b.vmut();)); out.push(parse_quote!(let #ni = #si.len();)) }
      else { out.push(parse_quote!(let #si = #b.vinto();)); out.push(parse_quote!(let #ni = #si.vn();)) }
      out.push(parse_quote!(let mut #ii: usize = 0;));
      let ip = if mutable { P::Mut(si.clone(), ni.clone()) } else { P::Leaf(si.clone(), ni.clone()) };
      let ie: Expr = parse_quote!(#ii);
      let ce: Expr = parse_quote!(#cnt);
      let mut bs = vec![];
      let bb = me.apply(body, |me, pats| {
        match (&o, &pats[0]) {
          (None, q) => me.bind(q, &ip, &ie, &mut bs),
          (Some(o), Pat::Tuple(t)) if t.elems.len() == 2 => { me.bind(&t.elems[0], &ip, &ie, &mut bs); me.bind(&t.elems[1], o, &ce, &mut bs) }
          (Some(o), q) => { let (x, y) = (me.value(&ip, &ie), me.value(o, &ce)); bs.push(parse_quote!(let #q = (#x, #y);)) }
        }
      });
      let cond: Expr = match &o { Some(o) => { let no = Self::n(o); parse_quote!(#ii < #ni && #cnt < #no) } None => parse_quote!(#ii < #ni) };
      out.push(parse_quote!(__v!(pre #kk);));
      out.push(Stmt::Expr(parse_quote!(while #cond { __v!(inv #kk); __v!(start #kk); { #(#bs)* #bb; } __v!(end #kk); #ii = #ii + 1; #cnt = #cnt + 1; }), None));
      out.push(parse_quote!(__v!(post #kk);));
    }, st, false, None);
    e
  }

  fn term_fold(&mut self, s: &Src, init: &Expr, c: &Expr) -> Expr {
    let k = self.new_loop(format!("fold({})", Self::kind(s)));
    let acc = format_ident!("acc_{}", k);
    let init = self.lowered(init);
    self.emit(k, s, &mut |me, p, i, out| {
      let mut st = vec![];
      let b = me.apply(c, |me, pats| {
        let q = &pats[0];
        st.push(parse_quote!(let #q = #acc;));
        me.bind_names(q);
        me.bind(&pats[1], p, i, &mut st);
      });
      out.push(parse_quote!(#acc = { #(#st)* #b };));
    }, vec![parse_quote!(let mut #acc = #init;)], false, Some(parse_quote!(#acc)))
  }

  fn term_collect(&mut self, s: &Src) -> Expr {
    if let Src::Leaf(e) = s {
      let x = self.lowered(e);
      if matches!(&x, Expr::MethodCall(m) if m.method == "vdrain") { return x }
      let k = self.new_loop(format!("collect({})", Self::kind(s)));
      return self.collect_loop(k, s);
    }
    let k = self.new_loop(format!("collect({})", Self::kind(s)));
    self.collect_loop(k, s)
  }
  fn collect_loop(&mut self, k: usize, s: &Src) -> Expr {
    let out_v = format_ident!("out_{}", k);
    let init = vec![parse_quote!(let mut #out_v = Vec::new();)];
    let res: Option<Expr> = Some(parse_quote!(#out_v));
    match s {
      Src::Flat(a, c) => self.emit(k, a, &mut |me, p, i, out| {
        let mut st = vec![];
        let b = me.apply(c, |me, pats| me.bind(&pats[0], p, i, &mut st));
        let it = format_ident!("it_{}", k);
        let kk = proc_macro2::Literal::usize_unsuffixed(k);
        out.push(parse_quote!(let #it = { #(#st)* #b };));
        out.push(parse_quote!(__v!(mid #kk);));
        out.push(parse_quote!(#out_v.vextend(#it);));
      }, init, false, res),
      Src::Map(a, c) => self.emit(k, a, &mut |me, p, i, out| {
        let mut st = vec![];
        let b = me.apply(c, |me, pats| me.bind(&pats[0], p, i, &mut st));
        let it = format_ident!("it_{}", k);
        out.push(parse_quote!(let #it = { #(#st)* #b };));
        out.push(parse_quote!(#out_v.push(#it);));
      }, init, false, res),
      _ => self.emit(k, s, &mut |me, p, i, out| { let v = me.value(p, i); out.push(parse_quote!(#out_v.push(#v);)) }, init, false, res),
    }
  }

  fn term_reduce(&mut self, s: &Src, c: &Expr) -> Expr {
    let k = self.new_loop(format!("reduce({})", Self::kind(s)));
    let acc = format_ident!("acc_{}", k);
    let mut st = vec![];
    let mut j = 0;
    let p = self.prep(s, k, &mut j, &mut st);
    let (i, n, np) = (format_ident!("i_{}", k), format_ident!("n_{}", k), Self::n(&p));
    let kk = proc_macro2::Literal::usize_unsuffixed(k);
    let zero: Expr = parse_quote!(0);
    let ie: Expr = parse_quote!(#i);
    let v0 = self.value(&p, &zero);
    let mut bs = vec![];
    let b = self.apply(c, |me, pats| {
      let q = &pats[0];
      bs.push(parse_quote!(let #q = #acc;));
      me.bind_names(q);
      me.bind(&pats[1], &p, &ie, &mut bs);
    });
    parse_quote!({ #(#st)* let #n: usize = #np; if #n == 0 { None } else {
      let mut #acc = #v0;
      let mut #i: usize = 1;
      __v!(pre #kk);
      while #i < #n { __v!(inv #kk); __v!(start #kk); #acc = { #(#bs)* #b }; __v!(end #kk); #i = #i + 1; }
      __v!(post #kk);
      Some(#acc)
    } })
  }

  fn term_sum(&mut self, s: &Src) -> Expr {
    let k = self.new_loop(format!("sum({})", Self::kind(s)));
    let acc = format_ident!("acc_{}", k);
    self.emit(k, s, &mut |me, p, i, out| {
      let v = me.value(p, i);
      out.push(parse_quote!(#acc = #acc + #v;));
    }, vec![parse_quote!(let mut #acc: usize = 0;)], false, Some(parse_quote!(#acc)))
  }

  /// Iterator terminals; None when `e` is something else.
  fn terminal(&mut self, e: &Expr) -> Option<Expr> {
    match e {
      Expr::ForLoop(f) => {
        let s = self.src(&f.expr);
        let b = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
        Some(self.term_for(&s, &f.pat, &b, None))
      }
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        match name.as_str() {
          "for_each" => { let s = self.src(&m.receiver); let p: Pat = parse_quote!(_); Some(self.term_for(&s, &p, &m.args[0].clone(), Some(&m.args[0]))) }
          "fold" => { let s = self.src(&m.receiver); Some(self.term_fold(&s, &m.args[0], &m.args[1])) }
          "reduce" => { let s = self.src(&m.receiver); Some(self.term_reduce(&s, &m.args[0])) }
          "sum" => { let s = self.src(&m.receiver); Some(self.term_sum(&s)) }
          "collect" => {
            if let Some(t) = &m.turbofish { if !t.to_token_stream().to_string().contains("Vec") { self.bail("collect into another type") } }
            let s = self.src(&m.receiver);
            Some(self.term_collect(&s))
          }
          "extend" if m.args.len() == 1 && self.is_chain(&m.args[0]) => {
            let s = self.src(&m.args[0]);
            if let Src::Leaf(x) = &s {
              let x = self.lowered(x);
              let x = match &x { Expr::MethodCall(q) if q.method == "vinto" => (*q.receiver).clone(), _ => x };
              let r = self.lowered(&m.receiver);
              return Some(parse_quote!(#r.vextend(#x)));
            }
            let c = self.term_collect(&s);
            let r = self.lowered(&m.receiver);
            Some(parse_quote!(#r.vextend(#c)))
          }
          "count" | "last_mut" | "max_by" | "min_by" | "max_by_key" | "min_by_key" | "position" | "try_for_each" | "try_fold" | "scan" | "filter" | "filter_map" | "take_while" | "skip_while" | "step_by" | "chain" | "product" | "all" | "any" | "find" | "partition" | "unzip" | "flatten" | "chunks_exact" | "for_each_with" | "par_iter" => {
            self.bail(format!("iterator method {}", name)); None
          }
          _ => None,
        }
      }
      _ => None,
    }
  }

  fn range_args(&mut self, e: &Expr) -> Option<(Option<Expr>, Option<Expr>)> {
    if let Expr::Range(r) = strip(e) {
      if matches!(r.limits, RangeLimits::Closed(_)) { return None }
      let f = |me: &mut Self, x: &Option<Box<Expr>>| x.as_ref().map(|x| me.lowered(x));
      let lo = f(self, &r.start);
      let hi = f(self, &r.end);
      return Some((lo, hi));
    }
    None
  }

  fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
    let n = m.path.segments.last()?.ident.to_string();
    match n.as_str() {
      "vec" => {
        struct Rep(Expr, Expr);
        impl syn::parse::Parse for Rep { fn parse(i: syn::parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; let b = i.parse()?; Ok(Rep(a, b)) } }
        struct Lst(Vec<Expr>);
        impl syn::parse::Parse for Lst { fn parse(i: syn::parse::ParseStream) -> Result<Self> { Ok(Lst(i.parse_terminated(Expr::parse, Token![,])?.into_iter().collect())) } }
        if let Ok(Rep(a, b)) = parse2::<Rep>(m.tokens.clone()) { let (a, b) = (self.lowered(&a), self.lowered(&b)); return Some(parse_quote!(vrep(#a, #b))) }
        if let Ok(Lst(v)) = parse2::<Lst>(m.tokens.clone()) {
          let v: Vec<Expr> = v.iter().map(|e| self.lowered(e)).collect();
          if v.len() == 1 { let a = &v[0]; return Some(parse_quote!(vlit1(#a))) }
          return Some(parse_quote!({ let mut lit_v = Vec::new(); #(lit_v.push(#v);)* lit_v }));
        }
        None
      }
      "panic" if self.maypanic => Some(parse_quote!(vpanic())),
      "panic" | "unimplemented" | "unreachable" | "todo" => Some(parse_quote!(panic!("reached"))),
      "__v" => None,
      "format" if self.disk => self.text(&m.tokens, false, false).map(|x| x.1),
      "write" | "writeln" if self.disk => {
        let (to, t) = self.text(&m.tokens, true, n == "writeln")?;
        let to = to?;
        Some(parse_quote!(#to.vwrite(&#t, disk)))
      }
      _ => { self.bail(format!("macro {}!", n)); None }
    }
  }

  /// a format string and its arguments as a text put together piece by piece
  fn text(&mut self, t: &proc_macro2::TokenStream, to: bool, line: bool) -> Option<(Option<Expr>, Expr)> {
    struct Lst(Vec<Expr>);
    impl syn::parse::Parse for Lst { fn parse(i: syn::parse::ParseStream) -> Result<Self> { Ok(Lst(i.parse_terminated(Expr::parse, Token![,])?.into_iter().collect())) } }
    let Ok(Lst(v)) = parse2::<Lst>(t.clone()) else { self.bail("format arguments"); return None };
    let mut v: std::collections::VecDeque<Expr> = v.into();
    let dest = if to {
      let d = v.pop_front()?;
      let d = match d { Expr::Reference(r) => *r.expr, d => d };
      Some(self.lowered(&d))
    } else { None };
    let fmt = match v.pop_front() {
      None => String::new(),
      Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
      _ => { self.bail("format string"); return None }
    };
    let args: Vec<Expr> = v.into_iter().collect();
    let mut e: Expr = parse_quote!(VText::new());
    let mut lit: Vec<char> = vec![];
    let mut next = 0;
    let cs: Vec<char> = fmt.chars().collect();
    let mut k = 0;
    let flush = |e: Expr, lit: &mut Vec<char>| -> Expr {
      if lit.is_empty() { return e }
      std::mem::take(lit).into_iter().fold(e, |e, c| parse_quote!(#e.vch(#c)))
    };
    while k < cs.len() {
      if (cs[k] == '{' || cs[k] == '}') && k + 1 < cs.len() && cs[k + 1] == cs[k] { lit.push(cs[k]); k += 2; continue }
      if cs[k] == '{' {
        let Some(end) = (k..cs.len()).find(|j| cs[*j] == '}') else { self.bail("format string"); return None };
        let inner: String = cs[k + 1..end].iter().collect();
        let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.to_string()), None => (inner.trim().to_string(), String::new()) };
        if spec.contains('$') || spec.contains('*') { self.bail("format width argument"); return None }
        let a: Expr = if name.is_empty() { next += 1; args.get(next - 1).cloned()? }
          else if let Ok(i) = name.parse::<usize>() { args.get(i).cloned()? }
          else {
            let named = args.iter().find_map(|x| if let Expr::Assign(a) = x { if path_name(&a.left).as_deref() == Some(&name) { return Some((*a.right).clone()) } None } else { None });
            match named { Some(x) => x, None => { let id = format_ident!("{}", name); parse_quote!(#id) } }
          };
        let a = self.lowered(&a);
        e = flush(e, &mut lit);
        if spec.is_empty() { e = parse_quote!(#e.vdisp(&#a)) }
        else {
          let g = spec.chars().fold(parse_quote!(VText::new()), |e: Expr, c| parse_quote!(#e.vch(#c)));
          e = parse_quote!(#e.vdisp_as(&#g, &#a))
        }
        k = end + 1;
        continue;
      }
      lit.push(cs[k]);
      k += 1;
    }
    if line { lit.push('\n') }
    e = flush(e, &mut lit);
    Some((dest, e))
  }

  fn map_path(&mut self, p: &mut Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let fl = self.fl();
    if segs.len() >= 2 && (segs[0] == "T" || segs[0] == "Self") && segs[1] == "Precision" {
      let prec = if self.mode == "elem" { format_ident!("Prec") } else { fl };
      let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
      let mut q: Path = parse_quote!(#prec);
      for s in rest { q.segments.push(s) }
      *p = q;
      return;
    }
    if self.mode == "elem" && segs[0] == "T" { p.segments[0].ident = Ident::new("Elem", Span::call_site()) }
    if segs[0] == "f32" { p.segments[0].ident = Ident::new("F32", Span::call_site()) }
    if segs[0] == "f64" { p.segments[0].ident = Ident::new("F64", Span::call_site()) }
    let last = segs.last().unwrap().as_str();
    let args = p.segments.last().unwrap().arguments.clone();
    if self.disk || segs.iter().any(|s| s == "io") {
      match last {
        "Result" if segs.iter().any(|s| s == "io") => {
          let x: Vec<GenericArgument> = match &args { PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect(), _ => vec![] };
          *p = parse_quote!(Result<#(#x,)* IoFault>);
          return;
        }
        "Error" if segs.iter().any(|s| s == "io") => { *p = parse_quote!(IoFault); return }
        "BufWriter" => { *p = parse_quote!(VBuf); return }
        "String" if segs.len() == 1 => {}
        _ => {}
      }
      let k = segs.len();
      if k >= 2 && segs[k - 2] == "BufWriter" && last == "new" { *p = parse_quote!(VBuf::new); return }
      if k >= 2 && segs[k - 2] == "String" && last == "new" { *p = parse_quote!(VText::new); return }
      if k >= 2 && segs[k - 2] == "String" && last == "from" { *p = parse_quote!(VText::of); return }
      if k >= 2 && segs[k - 2] == "File" && last == "create" { *p = parse_quote!(File::create); return }
    }
    match last {
      "Chunks" => *p = { let mut q: Path = parse_quote!(VChunks); q.segments[0].arguments = args; q },
      "ChunksMut" => *p = { let mut q: Path = parse_quote!(VChunksMut); q.segments[0].arguments = args; q },
      "Iter" => *p = { let mut q: Path = parse_quote!(VIter); q.segments[0].arguments = args; q },
      "IntoIter" => *p = { let mut q: Path = parse_quote!(VOwn); q.segments[0].arguments = args; q },
      _ => {}
    }
  }
}

struct Binders(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Binders {
  fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) }
}
/// every identifier bound in the function, in source order
pub fn bound(sig: &Signature, b: &Block) -> Vec<String> {
  let mut x = Binders(vec![]);
  for i in &sig.inputs { if let FnArg::Typed(t) = i { syn::visit::Visit::visit_pat(&mut x, &t.pat) } }
  syn::visit::Visit::visit_block(&mut x, b);
  x.0
}

struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
  fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
  fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
  fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct HasContinue(bool);
impl<'a> syn::visit::Visit<'a> for HasContinue {
  fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true }
  fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
  fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
  fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
}
struct Called<'n>(&'n str, bool);
impl<'a, 'n> syn::visit::Visit<'a> for Called<'n> {
  fn visit_expr_call(&mut self, c: &'a ExprCall) {
    if path_name(&c.func).as_deref() == Some(self.0) { self.1 = true }
    syn::visit::visit_expr_call(self, c)
  }
}
struct NextCalled<'n>(&'n str, bool);
impl<'a, 'n> syn::visit::Visit<'a> for NextCalled<'n> {
  fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
    if path_name(&c.receiver).as_deref() == Some(self.0) && (c.method == "next" || c.method == "len") { self.1 = true }
    syn::visit::visit_expr_method_call(self, c)
  }
}

impl VisitMut for Lower {
  fn visit_block_mut(&mut self, b: &mut Block) {
    self.scopes.push(HashMap::new());
    let stmts = std::mem::take(&mut b.stmts);
    for (pos, mut st) in stmts.iter().cloned().enumerate() {
      if let Stmt::Macro(m) = &st {
        // statement macros behave like expressions
        let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
        st = Stmt::Expr(e, m.semi_token);
      }
      match &mut st {
        Stmt::Local(l) => {
          l.attrs.clear();
          let name = match &l.pat { Pat::Ident(i) if i.by_ref.is_none() => Some(i.ident.to_string()), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None };
          // let P = e else { d };  is  let x = match e { P => x, _ => { d } };
          if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
            let (mut x, pat) = (Binders(vec![]), l.pat.clone());
            syn::visit::Visit::visit_pat(&mut x, &pat);
            let v: Vec<Ident> = x.0.iter().map(|n| format_ident!("{}", n)).collect();
            let (t, e, d): (Expr, &Expr, &Expr) = (match v.as_slice() { [a] => parse_quote!(#a), v => parse_quote!((#(#v),*)) }, &**expr, &**d);
            let p: Pat = match v.as_slice() { [a] => parse_quote!(#a), v => parse_quote!((#(#v),*)) };
            let mut s: Stmt = parse_quote!(let #p = match #e { #pat => #t, _ => #d };);
            if let Stmt::Local(l) = &mut s { if let Some(i) = &mut l.init { self.visit_expr_mut(&mut i.expr) } }
            self.bind_names(&p);
            b.stmts.push(s);
            continue;
          }
          if let (Some(n), Some(init)) = (&name, &l.init) {
            let e = strip(&init.expr).clone();
            if let Expr::Closure(c) = &e { self.set(n.clone(), Val::Closure(c.clone())); continue }
            let rest = &stmts[pos + 1..];
            let mut called = Called(n, false);
            let mut next = NextCalled(n, false);
            for s in rest { syn::visit::Visit::visit_stmt(&mut called, s); syn::visit::Visit::visit_stmt(&mut next, s) }
            if called.1 { self.set(n.clone(), Val::FnVal(e)); continue }
            if self.is_chain(&e) {
              let s = self.src(&e);
              match &s {
                Src::Leaf(_) => {}
                Src::Rev(a) if matches!(**a, Src::Leaf(_)) && next.1 => {
                  let Src::Leaf(x) = &**a else { unreachable!() };
                  let x = self.lowered(x);
                  let pat = &l.pat;
                  b.stmts.push(parse_quote!(let #pat = #x.vrev();));
                  self.set(n.clone(), Val::Plain);
                  continue;
                }
                Src::Flat(..) => {
                  let c = self.term_collect(&s);
                  let (v, pat) = (format_ident!("{}_all", n), &l.pat);
                  b.stmts.push(parse_quote!(let #v = #c;));
                  b.stmts.push(parse_quote!(let #pat = #v.viter();));
                  self.set(n.clone(), Val::Plain);
                  continue;
                }
                _ => {
                  if next.1 { self.bail("stored iterator stepped by hand") }
                  self.set(n.clone(), Val::Chain(s));
                  continue;
                }
              }
            }
          }
          if let Some(i) = &mut l.init { self.visit_expr_mut(&mut i.expr) }
          if let Pat::Type(t) = &mut l.pat { self.visit_type_mut(&mut t.ty) }
          if let Pat::Ident(i) = &mut l.pat {
            if i.by_ref.is_some() {
              // let ref mut x = e;  is  let x = &mut e;
              let (id, init) = (i.ident.clone(), l.init.as_ref().map(|i| (*i.expr).clone()));
              if let Some(e) = init {
                let s: Stmt = if i.mutability.is_some() { parse_quote!(let #id = &mut #e;) } else { parse_quote!(let #id = &#e;) };
                self.set(id.to_string(), Val::Plain);
                b.stmts.push(s);
                continue;
              }
            }
          }
          let p = l.pat.clone();
          self.bind_names(&p);
          b.stmts.push(st);
        }
        Stmt::Expr(e, semi) => {
          // dropped: explicit drops, memory trimming
          if let Expr::Call(c) = strip(e) { if path_name(&c.func).as_deref() == Some("drop") { continue } }
          if let Expr::MethodCall(m) = strip(e) {
            if m.method == "shrink_to_fit" || m.method == "reserve" { continue }
            if m.method == "drain" && matches!(strip(&m.args[0]), Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
              let r = self.lowered(&m.receiver);
              b.stmts.push(parse_quote!(#r.clear();));
              continue;
            }
          }
          let is_loop = matches!(e, Expr::ForLoop(_));
          self.visit_expr_mut(e);
          let semi = if is_loop { None } else { *semi };
          b.stmts.push(Stmt::Expr(e.clone(), semi));
        }
        Stmt::Item(Item::Const(c)) => { self.consts.insert(c.ident.to_string(), (*c.expr).clone()); }
        Stmt::Item(Item::Use(_)) => {}
        Stmt::Item(_) => { self.bail("nested item"); }
        Stmt::Macro(_) => unreachable!(),
      }
    }
    self.scopes.pop();
  }

  fn visit_arm_mut(&mut self, a: &mut Arm) {
    self.scopes.push(HashMap::new());
    let p = a.pat.clone();
    self.bind_names(&p);
    visit_mut::visit_arm_mut(self, a);
    self.scopes.pop();
  }

  fn visit_type_mut(&mut self, t: &mut Type) {
    if let Type::ImplTrait(_) = t { *t = parse_quote!(&BlockFn); return }
    if let Type::Path(p) = t { if p.path.segments.last().map(|s| s.ident == "Box").unwrap_or(false) && p.to_token_stream().to_string().contains("Fn") { *t = parse_quote!(BlockFn); return } }
    visit_mut::visit_type_mut(self, t);
  }
  fn visit_path_mut(&mut self, p: &mut Path) {
    visit_mut::visit_path_mut(self, p);
    self.map_path(p);
  }
  fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }

  fn visit_expr_mut(&mut self, e: &mut Expr) {
    if let Some(x) = self.terminal(e) { *e = x; return }
    // forms that need the un-lowered shape
    match e {
      Expr::Macro(m) => { if let Some(x) = self.macro_expr(&m.mac.clone()) { *e = x } return }
      Expr::Closure(_) => { self.bail("closure used as a value"); return }
      Expr::Reference(r) => {
        if let Expr::Index(ix) = strip(&r.expr) {
          if let Some((lo, hi)) = self.range_args(&ix.index) {
            let b = self.lowered(&ix.expr);
            *e = match (r.mutability.is_some(), lo, hi) {
              (false, None, None) => parse_quote!(#b.vall()),
              (true, None, None) => parse_quote!(#b.vmut()),
              (false, Some(l), Some(h)) => parse_quote!(#b.vsub(#l, #h)),
              (false, None, Some(h)) => parse_quote!(#b.vsub(0, #h)),
              (false, Some(l), None) => parse_quote!(#b.vfrom(#l)),
              (true, Some(l), Some(h)) => parse_quote!(#b.vsub_mut(#l, #h)),
              (true, None, Some(h)) => parse_quote!(#b.vsub_mut(0, #h)),
              (true, Some(_), None) => { self.bail("open mutable range"); b }
            };
            return;
          }
        }
      }
      Expr::Index(ix) => {
        if let Some((lo, hi)) = self.range_args(&ix.index) {
          let b = self.lowered(&ix.expr);
          *e = match (lo, hi) {
            (None, None) => parse_quote!(#b.vall()),
            (Some(l), Some(h)) => parse_quote!(#b.vsub(#l, #h)),
            (None, Some(h)) => parse_quote!(#b.vsub(0, #h)),
            (Some(l), None) => parse_quote!(#b.vfrom(#l)),
          };
          return;
        }
      }
      Expr::Try(t) if self.disk => {
        let x = self.lowered(&t.expr);
        *e = parse_quote!(match #x { Ok(try_v) => try_v, Err(try_e) => return Err(try_e) });
        return;
      }
      // texts written out: the characters of a literal, a text, or the bytes of one
      Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if self.disk => {
        let cs = s.value();
        *e = cs.chars().fold(parse_quote!(VText::new()), |e: Expr, c| parse_quote!(#e.vch(#c)));
        return;
      }
      Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) if self.disk => {
        let Ok(cs) = String::from_utf8(s.value()) else { self.bail("byte string"); return };
        *e = cs.chars().fold(parse_quote!(VText::new()), |e: Expr, c| parse_quote!(#e.vch(#c)));
        return;
      }
      Expr::MethodCall(m) if self.disk && (m.method == "write_all" || m.method == "flush" || m.method == "push_str" || m.method == "push" || m.method == "to_string" || m.method == "as_bytes" || m.method == "as_str") => {
        let r = self.lowered(&m.receiver);
        let a: Option<Expr> = m.args.first().map(|x| match x { Expr::Reference(r) => self.lowered(&r.expr), x => self.lowered(x) });
        match (m.method.to_string().as_str(), a) {
          ("write_all", Some(a)) => *e = parse_quote!(#r.vwrite(&#a, disk)),
          ("flush", None) => *e = parse_quote!(#r.vflush(disk)),
          ("push_str", Some(a)) => *e = parse_quote!(#r.vpush_str(&#a)),
          ("to_string", None) => *e = parse_quote!(VText::new().vdisp(&#r)),
          ("as_bytes" | "as_str", None) => *e = r,
          ("push", Some(a)) => *e = parse_quote!(#r.push(#a)),
          _ => self.bail("text operation"),
        }
        return;
      }
      Expr::Call(c) if self.disk && matches!(&*c.func, Expr::Path(p) if { let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect(); s.len() >= 2 && s[s.len() - 2] == "File" && s[s.len() - 1] == "create" }) => {
        let a: Vec<Expr> = c.args.iter().map(|x| match x { Expr::Reference(r) => { let y = self.lowered(&r.expr); parse_quote!(&#y) } x => self.lowered(x) }).collect();
        *e = parse_quote!(File::create(#(#a,)* disk));
        return;
      }
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        if name == "drain" || name == "splice" {
          let Some((lo, hi)) = self.range_args(&m.args[0]) else { self.bail("range argument"); return };
          let r = self.lowered(&m.receiver);
          let lo = lo.unwrap_or(parse_quote!(0));
          let hi = match hi { Some(h) => h, None => parse_quote!(#r.len()) };
          *e = if name == "drain" { parse_quote!(#r.vdrain(#lo, #hi)) } else { let x = self.lowered(&m.args[1]); parse_quote!(#r.vsplice(#lo, #hi, #x)) };
          return;
        }
      }
      Expr::Call(c) => {
        if let Some(n) = path_name(&c.func) {
          match self.look(&n).cloned() {
            Some(Val::Closure(cl)) => {
              let args: Vec<Expr> = c.args.iter().map(|a| self.lowered(a)).collect();
              let mut st: Vec<Stmt> = vec![];
              let b = self.apply_closure(&cl, |me, pats| {
                for (p, a) in pats.iter().zip(args.iter()) { st.push(parse_quote!(let #p = #a;)); me.bind_names(p) }
              });
              *e = parse_quote!({ #(#st)* #b });
              return;
            }
            Some(Val::FnVal(f)) => { let args: Vec<Expr> = c.args.iter().cloned().collect(); *e = self.call_fnval(&f, args); return }
            Some(Val::Block) => { let args: Vec<Expr> = c.args.iter().map(|a| self.lowered(a)).collect(); let f = &c.func; *e = parse_quote!(#f.vcall(#(#args),*)); return }
            _ => { self.calls.push(n) }
          }
        } else if let Expr::Path(p) = strip(&c.func) { if let Some(s) = p.path.segments.last() { self.calls.push(s.ident.to_string()) } }
        else {
          let f = self.lowered(strip(&c.func));
          let args: Vec<Expr> = c.args.iter().map(|a| self.lowered(a)).collect();
          *e = parse_quote!(#f.vcall(#(#args),*));
          return;
        }
      }
      Expr::Assign(a) => {
        if let Expr::Tuple(t) = strip(&a.left) {
          let rhs = self.lowered(&a.right);
          let names: Vec<Ident> = (0..t.elems.len()).map(|k| format_ident!("asg_{}", k)).collect();
          let lhs: Vec<Expr> = t.elems.iter().cloned().collect();
          *e = parse_quote!({ let (#(#names),*) = #rhs; #(#lhs = #names;)* });
          return;
        }
      }
      Expr::Path(p) => {
        if p.qself.is_none() && p.path.segments.len() == 1 {
          let n = p.path.segments[0].ident.to_string();
          if n == "PI32" { *e = parse_quote!(F32::pi()); return }
          if n == "PI64" { *e = parse_quote!(F64::pi()); return }
          if self.look(&n).is_none() { if let Some(c) = self.consts.get(&n).cloned() { let c = self.lowered(&c); *e = parse_quote!((#c)); return } }
        }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 2 && (segs[0] == "f32" || segs[0] == "f64") {
          let f = format_ident!("{}", segs[0].to_uppercase());
          if segs[1] == "MIN_POSITIVE" { *e = parse_quote!(#f::min_positive()); return }
          if segs[1].chars().all(|c| c.is_uppercase() || c == '_') { self.bail(format!("float constant {}", segs[1])) }
        }
        if segs.len() >= 2 && segs.last().map(|s| s == "PI").unwrap_or(false) {
          let f = if segs.iter().any(|s| s == "f64") { format_ident!("F64") } else { format_ident!("F32") };
          *e = parse_quote!(#f::pi());
          return;
        }
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
    // renames on the lowered form
    let mut new: Option<Expr> = None;
    match e {
      Expr::MethodCall(m) => {
        m.turbofish = None;
        let n = m.method.to_string();
        let ren = match n.as_str() { "iter" => "viter", "into_iter" => "vinto", "chunks" | "par_chunks" => "vchunks", "chunks_mut" => "vchunks_mut", "windows" => "vwindows", "extend" => "vextend", "rev" => "vrev", _ => "" };
        if !ren.is_empty() { m.method = Ident::new(ren, m.method.span()) } else { self.calls.push(n) }
      }
      Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
        let d = f.base10_digits().to_string();
        let fl = match f.suffix() { "f64" => format_ident!("F64"), "f32" => format_ident!("F32"), _ => self.fl() };
        if self.mode == "elem" || self.mode == "gen" { self.bail("float literal in generic code") }
        if d.contains('e') || d.contains('E') { self.bail("float literal with exponent") }
        let d = if d.ends_with('.') { format!("{}0", d) } else { d };
        let d = if d.contains('.') { d } else { format!("{}.0", d) };
        let lit: proc_macro2::TokenStream = format!("{}real", d).parse().unwrap();
        new = Some(Expr::Verbatim(quote!(#fl::lit(Ghost(#lit)))));
      }
      Expr::Cast(c) => {
        let t = c.ty.to_token_stream().to_string().replace(' ', "");
        let x = &c.expr;
        let t = if t == "Self" && self.self_float { self.fl().to_string() } else { t };
        match t.as_str() { "F32" => new = Some(parse_quote!((#x).vto_f32())), "F64" => new = Some(parse_quote!((#x).vto_f64())), _ => {} }
      }
      _ => {}
    }
    if let Some(n) = new { *e = n }
  }
}
