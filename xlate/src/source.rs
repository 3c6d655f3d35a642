//! Access to the crate's source and emission of single functions and items.
use crate::contract::FnSpec;
use crate::inline::{Helper, Helpers, Inline};
use crate::lower::{bound, Lower};
use crate::print::print;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Source { root: String, files: HashMap<String, std::result::Result<File, String>>, known: HashSet<String>, helpers: HashMap<String, Helpers> }

pub struct Gen { pub text: String, pub loops: Vec<String>, pub idents: Vec<String>, pub bail: Option<String>, pub src_line: usize, pub calls: Vec<String>, pub weak: Vec<String> }

struct Found { sig: Signature, block: Block, imp: Option<ItemImpl> }

fn ty_name(t: &Type) -> String {
  match t {
    Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
    Type::Slice(_) => "slice".to_string(),
    Type::Reference(r) => ty_name(&r.elem),
    _ => String::new(),
  }
}

/// names of the contract to names of the source: parameters by place, then the locals that are gone
/// to the new ones in order; false when that is more than a renaming one by one
fn matched(old: &[String], new: &[String], np: usize, map: &mut BTreeMap<String, String>) -> bool {
  for (a, b) in old.iter().zip(new.iter()).take(np) { if a != b { map.insert(a.clone(), b.clone()); } }
  let once = |v: Vec<&String>| v.iter().enumerate().filter(|(i, x)| !v[..*i].contains(x)).map(|(_, x)| x.to_string()).collect::<Vec<_>>();
  let (lo, ln) = (old.get(np..).unwrap_or(&[]), new.get(np..).unwrap_or(&[]));
  let gone = once(lo.iter().filter(|x| !new.contains(x) && !map.contains_key(*x)).collect());
  let fresh = once(ln.iter().filter(|x| !old.contains(x)).collect());
  for (a, b) in gone.iter().zip(fresh.iter()) { map.insert(a.clone(), b.clone()); }
  let now: Vec<&String> = old.iter().map(|a| map.get(a).unwrap_or(a)).collect();
  if now.len() == new.len() { return now.iter().zip(new.iter()).all(|(a, b)| *a == b) }
  // locals were only added or only dropped
  let within = |x: &[&String], y: &[&String]| { let mut it = y.iter(); x.iter().all(|a| it.any(|b| a == b)) };
  let new: Vec<&String> = new.iter().collect();
  gone.is_empty() && within(&now, &new) || fresh.is_empty() && within(&new, &now)
}

fn rename(text: &str, map: &BTreeMap<String, String>) -> String {
  if map.is_empty() { return text.to_string() }
  let b: Vec<char> = text.chars().collect();
  let mut o = String::new();
  let mut i = 0;
  while i < b.len() {
    if b[i].is_alphabetic() || b[i] == '_' {
      let s = i;
      while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1 }
      let w: String = b[s..i].iter().collect();
      let mut p = s;
      while p > 0 && b[p - 1] == ' ' { p -= 1 }
      let field = p > 0 && b[p - 1] == '.' && !(p > 1 && b[p - 2] == '.');
      match map.get(&w) { Some(n) if !field => o.push_str(n), _ => o.push_str(&w) }
    } else { o.push(b[i]); i += 1 }
  }
  o
}

const OPS: &[&str] = &["Add", "Sub", "Mul", "Div", "Neg", "AddAssign", "SubAssign", "MulAssign", "DivAssign"];
const KEEP_TRAITS: &[&str] = &["SliceOps", "SliceToMatrix"];

/// a point that must be reachable: the false assertion has to be refused there
fn probe(on: bool, at: &str, unreach: &[String]) -> String {
  if on && !unreach.iter().any(|u| u == at) { "if vany() { proof { assert(false); } }\n".to_string() } else { String::new() }
}

fn kept(key: &str) -> bool { KEEP_TRAITS.iter().any(|t| key.starts_with(&format!("{}@", t))) }

impl Source {
  pub fn new(root: &str, known: HashSet<String>) -> Self { Source { root: root.to_string(), files: HashMap::new(), known, helpers: HashMap::new() } }
  /// the functions of a file that could be put in place of a call
  fn helpers(&mut self, name: &str) -> Helpers {
    if let Some(h) = self.helpers.get(name) { return h.clone() }
    let mut h = Helpers::default();
    if let Ok(f) = self.file(name) {
      for it in &f.items {
        match it {
          Item::Fn(x) => { h.free.insert(x.sig.ident.to_string(), Helper { sig: x.sig.clone(), block: (*x.block).clone() }); }
          Item::Impl(im) if im.trait_.is_none() => for x in &im.items {
            if let ImplItem::Fn(m) = x { h.of.insert((ty_name(&im.self_ty), m.sig.ident.to_string()), Helper { sig: m.sig.clone(), block: m.block.clone() }); }
          },
          _ => {}
        }
      }
    }
    self.helpers.insert(name.to_string(), h.clone());
    h
  }
  fn file(&mut self, name: &str) -> std::result::Result<File, String> {
    if !self.files.contains_key(name) {
      let p = format!("{}/{}", self.root, name);
      let r = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e)).and_then(|t| parse_file(&t).map_err(|e| format!("{}: {}", p, e)));
      self.files.insert(name.to_string(), r);
    }
    self.files[name].clone()
  }

  fn consts(&mut self, file: &str) -> HashMap<String, Expr> {
    let mut m = HashMap::new();
    if let Ok(f) = self.file(file) {
      for i in &f.items { if let Item::Const(c) = i { m.insert(c.ident.to_string(), (*c.expr).clone()); } }
    }
    m
  }

  fn find(&mut self, f: &FnSpec) -> std::result::Result<Found, String> {
    let file = self.file(&f.file)?;
    let (owner, name) = match f.key.rsplit_once("::") { Some((o, n)) => (Some(o), n), None => (None, f.key.as_str()) };
    for it in &file.items {
      match (it, owner) {
        (Item::Fn(x), None) if x.sig.ident == name => return Ok(Found { sig: x.sig.clone(), block: (*x.block).clone(), imp: None }),
        (Item::Impl(im), Some(o)) => {
          let (tr, ty) = match o.split_once('@') { Some((a, b)) => (Some(a), b), None => (None, o) };
          let it_tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
          let by_ref = tr.map(|t| OPS.contains(&t)).unwrap_or(false) && matches!(&*im.self_ty, Type::Reference(_));
          let amp = if by_ref { "&" } else { "" };
          if it_tr.as_deref() != tr || format!("{}{}", amp, ty_name(&im.self_ty)) != ty { continue }
          for x in &im.items { if let ImplItem::Fn(m) = x { if m.sig.ident == name {
            let mut hd = im.clone();
            hd.items.clear();
            return Ok(Found { sig: m.sig.clone(), block: m.block.clone(), imp: Some(hd) });
          } } }
        }
        _ => {}
      }
    }
    Err(format!("{} is not in {}", f.key, f.file))
  }

  /// Structs, enums and type aliases: attributes dropped, fields public, types mapped.
  pub fn item(&mut self, file: &str, name: &str) -> std::result::Result<String, String> {
    let f = self.file(file)?;
    let mut lw = Lower::new("gen", HashMap::new());
    for it in &f.items {
      match it {
        Item::Struct(s) if s.ident == name => {
          let mut s = s.clone();
          s.attrs.clear();
          s.vis = parse_quote!(pub);
          for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); lw.visit_type_mut(&mut f.ty) }
          return Ok(print(s.to_token_stream(), &|_, _| String::new()));
        }
        Item::Enum(s) if s.ident == name => {
          let mut s = s.clone();
          s.attrs.clear();
          s.vis = parse_quote!(pub);
          for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); lw.visit_type_mut(&mut f.ty) } }
          return Ok(print(s.to_token_stream(), &|_, _| String::new()));
        }
        Item::Type(t) if t.ident == name => {
          let mut t = t.clone();
          t.attrs.clear();
          t.vis = parse_quote!(pub);
          return Ok(print(t.to_token_stream(), &|_, _| String::new()));
        }
        _ => {}
      }
    }
    Err(format!("{} is not in {}", name, file))
  }

  pub fn function(&mut self, f: &FnSpec, body: bool, vacuous: bool, saved: &BTreeMap<String, (Vec<String>, Vec<String>)>) -> std::result::Result<Gen, String> {
    let Found { sig, mut block, imp } = self.find(f)?;
    let hs = self.helpers(&f.file);
    let own_name = f.key.rsplit("::").next().unwrap_or("").to_string();
    Inline { all: &hs, known: &self.known, owner: imp.as_ref().map(|i| ty_name(&i.self_ty)).unwrap_or_default(), local: vec![], stack: vec![own_name], count: 0 }.visit_block_mut(&mut block);
    let consts = self.consts(&f.file);
    let idents = bound(&sig, &block);
    let src_line = sig.ident.span().start().line;
    let mut map = BTreeMap::new();
    let mut weak = vec![];
    if let Some((old, _)) = saved.get(&f.key) {
      let np = sig.inputs.iter().filter(|x| matches!(x, FnArg::Typed(_))).count();
      if !matched(old, &idents, np, &mut map) { weak.push("locals renamed or reordered".to_string()) }
    }
    let mut lw = Lower::new(&f.mode, consts);
    lw.maypanic = f.maypanic;
    lw.disk = f.disk;
    if let Some(im) = &imp { if let Type::Path(p) = &*im.self_ty { if let Some(i) = p.path.get_ident() { if i == "f32" || i == "f64" { lw.self_float = true } } } }

    // signature
    let mut sig = sig;
    let mut block = block;
    let mut eta: Vec<Type> = vec![];
    if let ReturnType::Type(_, t) = &sig.output {
      match &**t {
        Type::BareFn(b) => { eta = b.inputs.iter().map(|a| a.ty.clone()).collect(); let o = b.output.clone(); sig.output = o }
        Type::ImplTrait(it) => {
          if let Some(TypeParamBound::Trait(tb)) = it.bounds.first() {
            if let PathArguments::Parenthesized(a) = &tb.path.segments.last().unwrap().arguments { eta = a.inputs.iter().cloned().collect(); let o = a.output.clone(); sig.output = o }
          }
        }
        _ => {}
      }
    }
    if !eta.is_empty() {
      let names: Vec<_> = (0..eta.len()).map(|k| format_ident!("eta_{}", k)).collect();
      for (n, t) in names.iter().zip(eta.iter()) { sig.inputs.push(parse_quote!(#n: #t)) }
      eta_block(&mut block, &names);
    }
    if f.disk { sig.inputs.push(parse_quote!(disk: &mut Disk)) }
    let mut pre: Vec<Stmt> = vec![];
    for i in sig.inputs.iter_mut() {
      match i {
        FnArg::Typed(t) => {
          t.attrs.clear();
          let blockfn = matches!(&*t.ty, Type::ImplTrait(_));
          if let Pat::Ident(p) = &mut *t.pat {
            lw.param(p.ident.to_string(), blockfn);
            if p.mutability.is_some() { p.mutability = None; let id = &p.ident; pre.push(parse_quote!(let mut #id = #id;)) }
          }
          lw.visit_type_mut(&mut t.ty);
        }
        FnArg::Receiver(r) => {
          r.attrs.clear();
          if r.reference.is_none() && r.mutability.is_some() { lw.bail.get_or_insert("mut self".to_string()); }
        }
      }
    }
    if let ReturnType::Type(_, t) = &mut sig.output { lw.visit_type_mut(t) }
    let mut gens: Vec<proc_macro2::TokenStream> = vec![];
    for g in &sig.generics.params {
      match g {
        GenericParam::Lifetime(l) => { let l = &l.lifetime; gens.push(quote!(#l)) }
        GenericParam::Type(t) => {
          let id = &t.ident;
          let b = t.bounds.to_token_stream().to_string();
          if b.contains("Iterator") {
            let mut ty: Option<Type> = None;
            for x in &t.bounds { if let TypeParamBound::Trait(tb) = x { if let PathArguments::AngleBracketed(a) = &tb.path.segments.last().unwrap().arguments { for q in &a.args { if let GenericArgument::AssocType(at) = q { ty = Some(at.ty.clone()) } } } } }
            let ty = ty.ok_or("iterator bound")?;
            gens.push(quote!(#id: VSrc<It = #ty>));
          } else if f.mode == "elem" && id == "T" { } else { gens.push(quote!(#id)) }
        }
        _ => {}
      }
    }
    let gens = if gens.is_empty() { quote!() } else { quote!(<#(#gens),*>) };

    // body
    lw.visit_block_mut(&mut block);
    if !pre.is_empty() { let mut v = pre; v.extend(std::mem::take(&mut block.stmts)); block.stmts = v }
    let bail = lw.bail.clone();
    let bail = bail.or_else(|| {
      if let Some((_, old)) = saved.get(&f.key) { if old.len() != lw.kinds.len() && body { return Some(format!("loop structure changed: {} loops, contract written for {}", lw.kinds.len(), old.len())) } }
      if f.loops.keys().any(|k| *k >= lw.kinds.len()) { return Some("loop structure changed".to_string()) }
      None
    });

    if let Some((_, old)) = saved.get(&f.key) { if *old != lw.kinds && body { weak.push("other loops".to_string()) } }
    let rn = |s: &str| rename(s, &map);
    let mut o = String::new();
    let (hdr, tail, vis) = self.header(f, &imp, &sig, &map)?;
    o.push_str(&hdr);
    if !f.attrs.is_empty() { o.push_str(&format!("  {}\n", f.attrs)) }
    let real_body = body && bail.is_none();
    o.push_str(if real_body { "  #[verifier::spinoff_prover]\n" } else { "  #[verifier::external_body]\n" });
    let name = sig.ident.to_string();
    let ins = sig.inputs.iter().map(|a| a.to_token_stream()).collect::<Vec<_>>();
    let ins = one(quote!(#(#ins),*));
    let outp = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> ({}: {})", f.ret, one(t.to_token_stream())) };
    o.push_str(&format!("  {}fn {}{}({}){}\n", vis, name, one(gens), ins, outp));
    if !f.requires.trim().is_empty() && !kept(&f.key) { o.push_str(&format!("    requires\n{}", rn(&f.requires))) }
    if !f.ensures.trim().is_empty() { o.push_str(&format!("    ensures\n{}", rn(&f.ensures))) }
    if !real_body { o.push_str("  { unimplemented!() }\n") }
    else {
      // the tail expression marker
      let mut blk = block.clone();
      if let Some(last) = blk.stmts.pop() {
        blk.stmts.push(parse_quote!(__v!(tail 0);));
        blk.stmts.push(last);
      }
      blk.stmts.insert(0, parse_quote!(__v!(begin 0);));
      let autos = lw.auto.clone();
      let fs = f.clone();
      let mapc = map.clone();
      let ann = move |k: &str, n: usize| -> String {
        let rn = |s: &str| rename(s, &mapc);
        let l = fs.loops.get(&n).cloned().unwrap_or_default();
        match k {
          "inv" => {
            let mut s = String::new();
            if !l.head.trim().is_empty() { s.push_str(&format!("invariant_except_break\n{}", rn(&l.head))) }
            s.push_str(&format!("invariant\n  i_{n} <= n_{n},\n"));
            for a in autos.get(n).into_iter().flatten() { s.push_str(&format!("  {},\n", a)) }
            s.push_str(&rn(&l.inv));
            if !l.leave.trim().is_empty() { s.push_str(&format!("ensures\n{}", rn(&l.leave))) }
            s.push_str(&format!("decreases n_{n} - i_{n}\n"));
            s
          }
          "pre" => rn(&l.pre),
          "start" => rn(&l.start),
          "end" => format!("{}{}", rn(&l.end), probe(vacuous, &format!("end {}", n), &fs.unreach)),
          "post" => format!("{}{}", rn(&l.post), probe(vacuous, &format!("post {}", n), &fs.unreach)),
          "begin" => rn(&fs.begin),
          "tail" => format!("{}{}", rn(&fs.tail), probe(vacuous, "tail", &fs.unreach)),
          _ => String::new(),
        }
      };
      let mut text = print(blk.to_token_stream(), &ann);
      for (anchor, ins) in &f.befores {
        let a: String = rn(anchor).split_whitespace().collect();
        let mut done = false;
        let mut t2 = String::new();
        for l in text.lines() {
          let s: String = l.split_whitespace().collect();
          if !done && s.contains(&a) { t2.push_str(&rn(ins)); done = true }
          t2.push_str(l);
          t2.push('\n');
        }
        // the body is verified without the hint
        if !done { weak.push(format!("no place for the hint before \"{}\"", anchor)) }
        text = t2;
      }
      o.push_str(&text);
    }
    o.push_str(&tail);
    Ok(Gen { text: o, loops: lw.kinds, idents, bail, src_line, calls: lw.calls, weak })
  }

  /// text before and after the function, and its visibility
  fn header(&mut self, f: &FnSpec, imp: &Option<ItemImpl>, sig: &Signature, map: &BTreeMap<String, String>) -> std::result::Result<(String, String, &'static str), String> {
    if !f.header.is_empty() { return Ok((format!("{} {{\n", f.header), "}\n".to_string(), "pub ")) }
    let Some(im) = imp else { return Ok((String::new(), String::new(), "pub ")) };
    let mut lw = Lower::new(&f.mode, HashMap::new());
    let mut st = (*im.self_ty).clone();
    lw.visit_type_mut(&mut st);
    let mut gens = vec![];
    for g in &im.generics.params {
      if let GenericParam::Type(t) = g {
        let id = &t.ident;
        if f.mode == "elem" { continue }
        let b = t.bounds.to_token_stream().to_string();
        if b.contains("Copy") || b.contains("Clone") { gens.push(quote!(#id: Copy)) } else { gens.push(quote!(#id)) }
      }
    }
    let g = if gens.is_empty() { quote!() } else { quote!(<#(#gens),*>) };
    let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
    let stt = one(st.to_token_stream());
    match tr.as_deref() {
      Some(t) if OPS.contains(&t) => {
        if let Type::Reference(r) = &st {
          let inner = one(r.elem.to_token_stream());
          return Ok((format!("impl<'a, 'b> std::ops::{} <&'b {}> for &'a {} {{\n  type Output = {};\n", t, inner, inner, inner), "}\n".to_string(), ""));
        }
        let out = if t.ends_with("Assign") { String::new() } else { format!("  type Output = {};\n", stt) };
        Ok((format!("impl std::ops::{} for {} {{\n{}", t, stt, out), "}\n".to_string(), ""))
      }
      Some(t) if KEEP_TRAITS.contains(&t) => {
        // one trait per function, so that every function can be handled on its own
        let mut s2 = sig.clone();
        for i in s2.inputs.iter_mut() { if let FnArg::Typed(x) = i { if let Type::Reference(r) = &mut *x.ty { r.lifetime = None } } }
        let ins = s2.inputs.iter().map(|a| a.to_token_stream()).collect::<Vec<_>>();
        let outp = match &s2.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> {}", one(t.to_token_stream())) };
        let n = format!("{}_{}", t, sig.ident);
        let tg = if f.mode == "elem" { String::new() } else { "<T>".to_string() };
        Ok((format!("pub trait {n}{tg} {{ fn {}({}){}{}; }}\nimpl{} {n}{tg} for {} {{\n", sig.ident, one(quote!(#(#ins),*)), outp, if f.requires.trim().is_empty() { String::new() } else { format!("\n    requires\n{}", rename(&f.requires, map).trim_end()) }, one(g), stt), "}\n".to_string(), ""))
      }
      _ => Ok((format!("impl{} {} {{\n", one(g), stt), "}\n".to_string(), "pub ")),
    }
  }
}

/// result positions of a function-valued function become calls
fn eta_block(b: &mut Block, names: &[proc_macro2::Ident]) {
  if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { eta_expr(e, names) }
}
fn eta_expr(e: &mut Expr, names: &[proc_macro2::Ident]) {
  match e {
    Expr::Block(b) => eta_block(&mut b.block, names),
    Expr::Match(m) => for a in m.arms.iter_mut() { eta_expr(&mut a.body, names) },
    Expr::If(i) => { eta_block(&mut i.then_branch, names); if let Some((_, x)) = &mut i.else_branch { eta_expr(x, names) } }
    Expr::Paren(p) => eta_expr(&mut p.expr, names),
    Expr::Path(_) => { let p = e.clone(); *e = parse_quote!(#p(#(#names),*)) }
    Expr::MethodCall(m) => { for n in names { m.args.push(parse_quote!(#n)) } }
    _ => {}
  }
}

pub fn one(t: proc_macro2::TokenStream) -> String {
  print(t, &|_, _| String::new()).split_whitespace().collect::<Vec<_>>().join(" ")
}
