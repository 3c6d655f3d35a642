//! Helper functions without a contract of their own are put in place of their calls.
use quote::{format_ident, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper { pub sig: Signature, pub block: Block }

/// free functions by name, functions of impl blocks by type and name
#[derive(Clone, Default)]
pub struct Helpers { pub free: HashMap<String, Helper>, pub of: HashMap<(String, String), Helper> }

struct Leaves(bool);
impl<'a> syn::visit::Visit<'a> for Leaves {
  fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
  fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
  fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

struct SelfTo(Ident);
impl VisitMut for SelfTo {
  fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = self.0.clone() } }
}

fn mentions(e: &impl ToTokens, name: &str) -> bool {
  fn go(t: proc_macro2::TokenStream, n: &str) -> bool {
    t.into_iter().any(|x| match x { proc_macro2::TokenTree::Ident(i) => i == n, proc_macro2::TokenTree::Group(g) => go(g.stream(), n), _ => false })
  }
  go(e.to_token_stream(), name)
}

pub struct Inline<'a> { pub all: &'a Helpers, pub known: &'a HashSet<String>, pub owner: String, pub local: Vec<HashMap<String, Helper>>, pub stack: Vec<String>, pub count: usize }

impl<'a> Inline<'a> {
  fn expand(&mut self, name: &str, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
    if self.stack.len() > 5 || self.stack.iter().any(|s| s == name) { return None }
    if h.sig.asyncness.is_some() || h.sig.unsafety.is_some() { return None }
    let mut block = h.block.clone();
    // a final return is the value of the block
    if let Some(Stmt::Expr(Expr::Return(r), _)) = block.stmts.last().cloned() {
      block.stmts.pop();
      if let Some(e) = r.expr { block.stmts.push(Stmt::Expr(*e, None)) }
    }
    let mut l = Leaves(false);
    syn::visit::Visit::visit_block(&mut l, &block);
    if l.0 { return None }
    let generic = h.sig.generics.params.iter().any(|g| !matches!(g, GenericParam::Lifetime(_)));
    let mut lets: Vec<Stmt> = vec![];
    let typed: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => Some(t), _ => None }).collect();
    if typed.len() != args.len() { return None }
    self.count += 1;
    let n = self.count;
    match (h.sig.receiver(), recv) {
      (Some(r), Some(e)) => {
        let plain = matches!(e, Expr::Path(p) if p.path.is_ident("self"));
        if !plain {
          let id = format_ident!("h{}_self", n);
          lets.push(match (&r.reference, &r.mutability) { (Some(_), Some(_)) => parse_quote!(let #id = &mut #e;), (Some(_), None) => parse_quote!(let #id = &#e;), (None, Some(_)) => parse_quote!(let mut #id = #e;), _ => parse_quote!(let #id = #e;) });
          SelfTo(id).visit_block_mut(&mut block);
        }
      }
      (None, None) => {}
      _ => return None,
    }
    let names: Vec<String> = typed.iter().map(|t| match &*t.pat { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() }).collect();
    let clash = args.iter().enumerate().any(|(k, a)| names[..k].iter().any(|n| mentions(a, n)));
    let mut binds: Vec<Stmt> = vec![];
    for (k, (t, a)) in typed.iter().zip(args.iter()).enumerate() {
      let pat = &*t.pat;
      if a.to_token_stream().to_string() == pat.to_token_stream().to_string() { continue }
      let a: Expr = if clash {
        let id = format_ident!("h{}_{}", n, k);
        lets.push(parse_quote!(let #id = #a;));
        parse_quote!(#id)
      } else { a.clone() };
      let ty = &*t.ty;
      if generic || matches!(ty, Type::ImplTrait(_)) || matches!(a, Expr::Closure(_)) { binds.push(parse_quote!(let #pat = #a;)) } else { binds.push(parse_quote!(let #pat: #ty = #a;)) }
    }
    self.stack.push(name.to_string());
    self.visit_block_mut(&mut block);
    self.stack.pop();
    let stmts = block.stmts;
    Some(if lets.is_empty() && binds.is_empty() && stmts.len() == 1 && matches!(stmts[0], Stmt::Expr(_, None)) {
      let Stmt::Expr(e, _) = stmts[0].clone() else { unreachable!() };
      parse_quote!((#e))
    } else { parse_quote!({ #(#lets)* #(#binds)* #(#stmts)* }) })
  }
}

impl<'a> VisitMut for Inline<'a> {
  fn visit_block_mut(&mut self, b: &mut Block) {
    let mut here = HashMap::new();
    b.stmts.retain(|s| match s {
      Stmt::Item(Item::Fn(f)) => { here.insert(f.sig.ident.to_string(), Helper { sig: f.sig.clone(), block: (*f.block).clone() }); false }
      _ => true,
    });
    self.local.push(here);
    visit_mut::visit_block_mut(self, b);
    self.local.pop();
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let new = match e {
      Expr::Call(c) => match &*c.func {
        Expr::Path(p) if p.qself.is_none() => {
          let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
          let args: Vec<Expr> = c.args.iter().cloned().collect();
          match s.as_slice() {
            [f] => match self.local.iter().rev().find_map(|m| m.get(f)).cloned() {
              Some(h) => self.expand(f, &h, None, args),
              None if !self.known.contains(f) => { let all = self.all; all.free.get(f).and_then(|h| self.expand(f, h, None, args)) }
              _ => None,
            },
            [.., t, f] if !self.known.contains(f) => {
              let t = if t == "Self" { self.owner.clone() } else { t.clone() };
              let all = self.all;
              all.of.get(&(t, f.clone())).and_then(|h| if h.sig.receiver().is_some() { None } else { self.expand(f, h, None, args) })
            }
            _ => None,
          }
        }
        _ => None,
      },
      Expr::MethodCall(m) if !self.known.contains(&m.method.to_string()) => {
        let f = m.method.to_string();
        let all = self.all;
        // the type of the receiver is known only for self; elsewhere the name has to be unique
        let own = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
        let h = if own { all.of.get(&(self.owner.clone(), f.clone())) } else {
          let v: Vec<&Helper> = all.of.iter().filter(|(k, _)| k.1 == f).map(|(_, h)| h).collect();
          if v.len() == 1 { Some(v[0]) } else { None }
        };
        let (r, args) = ((*m.receiver).clone(), m.args.iter().cloned().collect());
        h.and_then(|h| self.expand(&f, h, Some(&r), args))
      }
      _ => None,
    };
    if let Some(x) = new { *e = x }
  }
}
