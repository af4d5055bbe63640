// C19: whether a generated function is a well-formed Rust function. A reading of the part of Rust the compiler
// emits: what is bound, what is moved, what is mutable, how many values, of which types. What is not known
// here (other statements, other methods) is left out: the function is then not judged.
use std::collections::HashMap;
use syn::{self, Expr, Pat, Stmt};
use common::flat;
use quote::ToTokens;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Hole(usize), Name(String), Tup(Vec<Ty>), App(&'static str, Box<Ty>), Mut(Box<Ty>), Fun(Vec<Ty>, Box<Ty>) }
use self::Ty::*;
pub fn unit() -> Ty { Tup(vec![]) }
fn name(s: &str) -> Ty { Name(s.to_string()) }
fn app(c: &'static str, t: Ty) -> Ty { App(c, Box::new(t)) }

#[derive(Clone)]
struct Var { name: String, ty: Ty, mutable: bool }
#[derive(Clone)]
struct Flow { moved: Vec<bool>, dead: bool }

pub struct Ck {
  holes: Vec<Option<Ty>>,
  pub fns: HashMap<String, (Vec<Ty>, Ty)>,
  pub globals: Vec<String>,
  vars: Vec<Var>,
  fl: Flow,
  breaks: Vec<(usize, Vec<Flow>)>,
  out: Ty,
  pub unknown: bool,
  pub bad: Option<String>
}

impl Ck {
  pub fn new() -> Ck { Ck { holes: vec![], fns: HashMap::new(), globals: vec![], vars: vec![], fl: Flow { moved: vec![], dead: false }, breaks: vec![], out: unit(), unknown: false, bad: None } }
  fn hole(&mut self) -> Ty { self.holes.push(None); Hole(self.holes.len() - 1) }
  fn err(&mut self, what: &str, who: &str) { if self.bad.is_none() && !self.unknown { self.bad = Some(format!("{}: {}", what, who)) } }
  fn skip(&mut self) -> Ty { self.unknown = true; self.hole() }
  fn stop(&self) -> bool { self.unknown || self.bad.is_some() }

  // ---- types ----
  fn look(&self, t: &Ty) -> Ty { let mut t = t.clone(); while let Hole(k) = t { match self.holes[k] { Some(ref x) => { let y = x.clone(); t = y } None => return Hole(k) } } t }
  fn occurs(&self, k: usize, t: &Ty) -> bool {
    match self.look(t) { Hole(j) => j == k, Name(_) => false, Tup(v) => v.iter().any(|x| self.occurs(k, x)), App(_, x) | Mut(x) => self.occurs(k, &x), Fun(v, r) => v.iter().any(|x| self.occurs(k, x)) || self.occurs(k, &r) }
  }
  fn unify(&mut self, a: &Ty, b: &Ty, what: &str) {
    if self.stop() { return }
    let (a, b) = (self.look(a), self.look(b));
    match (a, b) {
      (Hole(i), Hole(j)) if i == j => (),
      (Hole(i), t) | (t, Hole(i)) => { if self.occurs(i, &t) { self.err("infinite type", what) } else { self.holes[i] = Some(t) } }
      (Name(x), Name(y)) => { if x != y && !loose(&x) && !loose(&y) { self.err("types differ", &format!("{} {} {}", what, x, y)) } }
      (Tup(v), Tup(w)) => { if v.len() != w.len() { self.err("number of values", what) } else { for (x, y) in v.iter().zip(w.iter()) { self.unify(x, y, what) } } }
      (App(c, x), App(d, y)) => { if c != d { self.err("types differ", &format!("{} {} {}", what, c, d)) } else { self.unify(&x, &y, what) } }
      (Mut(x), Mut(y)) => self.unify(&x, &y, what),
      (Fun(v, r), Fun(w, s)) => { if v.len() != w.len() { self.err("number of arguments", what) } else { for (x, y) in v.iter().zip(w.iter()) { self.unify(x, y, what) } self.unify(&r, &s, what) } }
      (Name(ref x), _) | (_, Name(ref x)) if loose(x) => (),
      _ => self.err("types differ", what)
    }
  }
  pub fn ty(&mut self, t: &syn::Type) -> Ty {
    match *t {
      syn::Type::Tuple(ref v) => { let v: Vec<Ty> = v.elems.iter().map(|x| self.ty(x)).collect(); Tup(v) }
      syn::Type::Paren(ref x) => self.ty(&x.elem),
      syn::Type::Group(ref x) => self.ty(&x.elem),
      syn::Type::Infer(_) => self.hole(),
      syn::Type::Reference(ref r) if r.mutability.is_some() => Mut(Box::new(self.ty(&r.elem))),
      syn::Type::Path(ref p) if p.qself.is_none() => {
        let s = p.path.segments.last().unwrap();
        let mut args = vec![];
        if let syn::PathArguments::AngleBracketed(ref a) = s.arguments { for x in a.args.iter() { if let syn::GenericArgument::Type(ref t) = *x { args.push(t.clone()) } } }
        let c = match s.ident.to_string().as_str() { "Vec" => "Vec", "Option" => "Option", "Box" => "Box", "ParseState" => "State", "Range" => "Range", _ => "" };
        if c == "Range" { return name("Range") }
        if c == "" || args.is_empty() { let mut v = vec![]; flat(t.clone().into_token_stream(), &mut v); return Name(v.concat()) }
        let last = args.pop().unwrap();
        let x = self.ty(&last);
        app(c, x)
      }
      _ => { let mut v = vec![]; flat(t.clone().into_token_stream(), &mut v); Name(v.concat()) }
    }
  }
  fn copies(&self, t: &Ty) -> bool {
    match self.look(t) { Name(s) => s == "char" || s == "bool" || s == "int" || s == "str" || s == "Span", Tup(v) => v.iter().all(|x| self.copies(x)), App("Option", x) => self.copies(&x), Fun(..) => true, _ => false }
  }

  // ---- variables ----
  fn bind(&mut self, n: String, ty: Ty, mutable: bool) { self.vars.push(Var { name: n, ty: ty, mutable: mutable }); self.fl.moved.push(false); }
  fn cut(&mut self, n: usize) { self.vars.truncate(n); self.fl.moved.truncate(n); }
  fn find(&self, n: &str) -> Option<usize> { (0..self.vars.len()).rev().find(|&i| self.vars[i].name == n) }
  fn single(e: &Expr) -> Option<String> { match *e { Expr::Path(ref p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(ref x) => Ck::single(&x.expr), Expr::Group(ref x) => Ck::single(&x.expr), _ => None } }
  fn alive(&mut self, i: usize) { if self.fl.moved[i] && !self.fl.dead { let n = self.vars[i].name.clone(); self.err("use of a moved value", &n) } }

  fn pat(&mut self, p: &Pat, t: &Ty) {
    match *p {
      Pat::Ident(ref i) if i.by_ref.is_none() && i.subpat.is_none() => {
        let n = i.ident.to_string();
        if n == "None" { return }
        self.bind(n, t.clone(), i.mutability.is_some())
      }
      Pat::Wild(_) => (),
      Pat::Tuple(ref v) => {
        let h: Vec<Ty> = v.elems.iter().map(|_| self.hole()).collect();
        if v.elems.len() == 1 && !v.elems.trailing_punct() { self.pat(&v.elems[0], t); return }
        self.unify(&Tup(h.clone()), t, "pattern");
        for (x, y) in v.elems.iter().zip(h.iter()) { self.pat(x, y) }
      }
      Pat::TupleStruct(ref v) => {
        let c = v.path.segments.last().unwrap().ident.to_string();
        if c != "Some" || v.pat.elems.len() != 1 { self.skip(); return }
        let h = self.hole();
        self.unify(&app("Option", h.clone()), t, "pattern");
        self.pat(&v.pat.elems[0], &h)
      }
      Pat::Path(_) => (),
      Pat::Type(ref x) => { let y = self.ty(&x.ty); self.unify(&y, t, "pattern"); self.pat(&x.pat, &y) }
      _ => { self.skip(); }
    }
  }

  // ---- places ----
  // the type of what is borrowed; `m`: to be changed
  fn place(&mut self, e: &Expr, m: bool) -> Ty {
    if self.stop() { return self.hole() }
    match *e {
      Expr::Paren(ref x) => self.place(&x.expr, m),
      Expr::Group(ref x) => self.place(&x.expr, m),
      Expr::Unary(ref u) => match u.op {
        syn::UnOp::Deref(_) => { let t = self.place(&u.expr, false); let h = self.hole(); if let Mut(_) = self.look(&t) {} else { if let Hole(_) = self.look(&t) {} else { return self.skip() } } self.unify(&t, &Mut(Box::new(h.clone())), "reference"); h }
        _ => self.value(e)
      },
      Expr::Path(_) => match Ck::single(e) {
        Some(n) => match self.find(&n) {
          Some(i) => {
            self.alive(i);
            let t = self.vars[i].ty.clone();
            if m && !self.vars[i].mutable { if let Mut(_) = self.look(&t) {} else { self.err("not mutable", &n) } }
            t
          }
          None => self.value(e)
        },
        None => self.value(e)
      },
      _ => self.value(e)
    }
  }
  // through a reference
  fn behind(&mut self, t: Ty) -> Ty { match self.look(&t) { Mut(x) => *x, x => x } }

  // ---- values ----
  fn value(&mut self, e: &Expr) -> Ty {
    if self.stop() { return self.hole() }
    match *e {
      Expr::Paren(ref x) => self.value(&x.expr),
      Expr::Group(ref x) => self.value(&x.expr),
      Expr::Lit(ref l) => match l.lit { syn::Lit::Str(_) => name("str"), syn::Lit::Char(_) => name("char"), syn::Lit::Bool(_) => name("bool"), syn::Lit::Int(_) => name("int"), _ => self.skip() },
      Expr::Tuple(ref v) => { let v: Vec<Ty> = v.elems.iter().map(|x| self.value(x)).collect(); Tup(v) }
      Expr::Path(ref p) => match Ck::single(e) {
        Some(n) => match self.find(&n) {
          Some(i) => { self.alive(i); let t = self.vars[i].ty.clone(); if !self.copies(&t) { self.fl.moved[i] = true } t }
          None => {
            if n == "None" { let h = self.hole(); return app("Option", h) }
            let c = n.chars().next().unwrap();
            if !(c.is_uppercase() || self.fns.contains_key(&n) || self.globals.contains(&n)) { self.err("not bound", &n) }
            self.hole()
          }
        },
        None => { let _ = p; self.hole() }
      },
      Expr::Call(ref c) => self.call(c),
      Expr::MethodCall(ref c) => self.method(c),
      Expr::Block(ref b) if b.label.is_none() => self.block(&b.block),
      Expr::If(ref i) => {
        if let Expr::Let(_) = *i.cond { return self.skip() }
        let c = self.cond(&i.cond);
        self.unify(&c, &name("bool"), "condition");
        let before = self.fl.clone();
        let t = self.block(&i.then_branch);
        let after = ::std::mem::replace(&mut self.fl, before);
        match i.else_branch {
          Some((_, ref x)) => { let u = self.value(x); let (d1, d2) = (after.dead, self.fl.dead); self.join(after); if d1 { u } else if d2 { t } else { self.unify(&t, &u, "branches"); t } }
          None => { if !after.dead { self.unify(&t, &unit(), "branch") } self.join(after); unit() }
        }
      }
      Expr::Match(ref m) => {
        let t = self.value(&m.expr);
        let start = self.fl.clone();
        let mut end: Option<Flow> = None;
        let r = self.hole();
        for a in &m.arms {
          self.fl = start.clone();
          let n = self.vars.len();
          self.pat(&a.pat, &t);
          if let Some((_, ref g)) = a.guard { let c = self.cond(g); self.unify(&c, &name("bool"), "guard") }
          let u = self.value(&a.body);
          if !self.fl.dead { self.unify(&r, &u, "arms") }
          self.cut(n);
          if let Some(f) = end.take() { self.join(f) }
          end = Some(self.fl.clone());
        }
        if let Some(f) = end { self.fl = f }
        r
      }
      Expr::Loop(ref l) if l.label.is_none() => { self.repeat(None, &l.body); unit() }
      Expr::While(ref w) if w.label.is_none() => { if let Expr::Let(_) = *w.cond { return self.skip() } self.repeat(Some(&w.cond), &w.body); unit() }
      Expr::Break(ref b) if b.label.is_none() && b.expr.is_none() => {
        if self.breaks.is_empty() { return self.skip() }
        let mut f = self.fl.clone();
        { let k = self.breaks.len() - 1; let n = self.breaks[k].0; f.moved.truncate(n); self.breaks[k].1.push(f); }
        self.fl.dead = true;
        self.hole()
      }
      Expr::Return(ref r) => { let t = match r.expr { Some(ref x) => self.value(x), None => unit() }; let o = self.out.clone(); self.unify(&t, &o, "returned value"); self.fl.dead = true; self.hole() }
      Expr::Assign(ref a) => {
        let t = self.value(&a.right);
        match *a.left {
          Expr::Path(_) => match Ck::single(&a.left).and_then(|n| self.find(&n)) {
            Some(i) => { let n = self.vars[i].name.clone(); if !self.vars[i].mutable { self.err("not mutable", &n) } let v = self.vars[i].ty.clone(); self.unify(&v, &t, "assigned value"); self.fl.moved[i] = false; }
            None => { let n = Ck::single(&a.left).unwrap_or(String::new()); self.err("not bound", &n) }
          },
          Expr::Unary(_) => { let v = self.place(&a.left, true); self.unify(&v, &t, "assigned value") }
          _ => { self.skip(); }
        }
        unit()
      }
      Expr::AssignOp(ref a) => { let t = self.value(&a.right); let v = self.place(&a.left, true); let v = self.behind(v); self.unify(&v, &t, "operands"); unit() }
      Expr::Reference(ref r) => {
        if r.mutability.is_some() { let t = self.place(&r.expr, true); Mut(Box::new(t)) }
        else { self.place(&r.expr, false); self.hole() }
      }
      Expr::Unary(ref u) => match u.op {
        syn::UnOp::Deref(_) => { let t = self.place(e, false); t }
        syn::UnOp::Not(_) => { let t = self.cond(&u.expr); self.unify(&t, &name("bool"), "operand"); t }
        _ => self.skip()
      },
      Expr::Binary(_) => self.cond(e),
      Expr::Closure(ref c) => {
        let n = self.vars.len();
        let before = self.fl.clone();
        let mut ps = vec![];
        for p in c.inputs.iter() { let h = self.hole(); ps.push(h.clone()); self.pat(p, &h) }
        let saved = ::std::mem::replace(&mut self.breaks, vec![]);
        let r = self.value(&c.body);
        self.breaks = saved;
        self.cut(n);
        // what the closure moves is moved when it is made
        let inside = ::std::mem::replace(&mut self.fl, before);
        for i in 0..n { self.fl.moved[i] |= inside.moved[i] }
        Fun(ps, Box::new(r))
      }
      Expr::Macro(ref m) if m.mac.path.is_ident("vec") && m.mac.tokens.is_empty() => { let h = self.hole(); app("Vec", h) }
      Expr::Struct(ref s) => {
        for f in s.fields.iter() { self.value(&f.expr); }
        if s.path.segments.last().unwrap().ident == "Range" { name("Range") } else { self.hole() }
      }
      _ => self.skip()
    }
  }
  // operands of comparisons are borrowed
  fn cond(&mut self, e: &Expr) -> Ty {
    match *e {
      Expr::Paren(ref x) => self.cond(&x.expr),
      Expr::Group(ref x) => self.cond(&x.expr),
      Expr::Binary(ref b) => {
        let (x, y) = (self.cond(&b.left), self.cond(&b.right));
        let (x, y) = (self.behind(x), self.behind(y));
        self.unify(&x, &y, "operands");
        match b.op { syn::BinOp::Add(_) | syn::BinOp::Sub(_) => x, syn::BinOp::And(_) | syn::BinOp::Or(_) => { self.unify(&x, &name("bool"), "operands"); name("bool") } syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) => name("bool"), _ => self.skip() }
      }
      Expr::Path(_) => self.place(e, false),
      _ => self.value(e)
    }
  }
  fn join(&mut self, o: Flow) {
    if o.dead { return }
    if self.fl.dead { self.fl = o; return }
    for i in 0..self.fl.moved.len() { self.fl.moved[i] |= o.moved[i] }
  }
  fn repeat(&mut self, c: Option<&Expr>, b: &syn::Block) {
    self.breaks.push((self.vars.len(), vec![]));
    for _ in 0..2 {
      let before = self.fl.clone();
      if let Some(c) = c {
        let t = self.cond(c); self.unify(&t, &name("bool"), "condition");
        let f = self.fl.clone(); let k = self.breaks.len() - 1; self.breaks[k].1.push(f);
      }
      let t = self.block(b);
      if !self.fl.dead { self.unify(&t, &unit(), "loop") }
      self.join(before);
    }
    let (_, v) = self.breaks.pop().unwrap();
    self.fl.dead = true;
    for f in v { self.join(f) }
  }
  fn block(&mut self, b: &syn::Block) -> Ty {
    let n = self.vars.len();
    let mut last = unit();
    for s in &b.stmts {
      if self.stop() { break }
      last = unit();
      match *s {
        Stmt::Local(ref l) => {
          let t = match l.init { Some((_, ref e)) => self.value(e), None => { self.skip(); unit() } };
          self.pat(&l.pat, &t);
        }
        Stmt::Expr(ref e) => last = self.value(e),
        Stmt::Semi(ref e, _) => { self.value(e); }
        Stmt::Item(_) => { self.skip(); }
      }
    }
    self.cut(n);
    last
  }
  fn arg(&mut self, e: &Expr) -> Ty {
    // a mutable reference is reborrowed by a call
    if let Some(n) = Ck::single(e) { if let Some(i) = self.find(&n) { let t = self.vars[i].ty.clone(); if let Mut(_) = self.look(&t) { self.alive(i); return t } } }
    self.value(e)
  }
  fn call(&mut self, c: &syn::ExprCall) -> Ty {
    let args: Vec<Ty> = c.args.iter().map(|x| self.arg(x)).collect();
    let path = match *c.func { Expr::Path(ref p) if p.qself.is_none() => p.path.clone(), _ => return self.skip() };
    let n = path.segments.last().unwrap().ident.to_string();
    if path.segments.len() == 1 && path.leading_colon.is_none() {
      if let Some(i) = self.find(&n) {
        self.alive(i);
        let t = self.vars[i].ty.clone();
        let r = self.hole();
        return match self.look(&t) { Fun(ref v, _) if v.len() != args.len() => { self.err("number of arguments", &n); r } _ => { self.unify(&t, &Fun(args, Box::new(r.clone())), &n); r } }
      }
      if n == "Some" && args.len() == 1 { return app("Option", args[0].clone()) }
      if let Some((p, r)) = self.fns.get(&n).cloned() {
        if n.starts_with("parse_") || n.starts_with("recognize_") {
          if p.len() != args.len() { self.err("number of arguments", &n) } else { for (x, y) in p.iter().zip(args.iter()) { self.unify(x, y, &n) } }
        }
        return r
      }
      if !(n.chars().next().unwrap().is_uppercase() || self.globals.contains(&n)) { self.err("not defined", &n) }
      return self.hole()
    }
    if n == "new" && args.len() == 1 && path.segments[path.segments.len() - 2].ident == "Box" { return app("Box", args[0].clone()) }
    if n.starts_with("recognize_") || n.starts_with("parse_") {
      // a rule of another module is called by the path the grammar gives
      let v: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
      let v = format!("{}{}", if path.leading_colon.is_some() { "::" } else { "" }, v.join("::"));
      if !self.globals.contains(&v) { self.err("not defined", &v) }
    }
    if n.starts_with("recognize_") { return app("State", unit()) }
    let h = self.hole();
    if n.starts_with("parse_") { return app("State", h) }
    h
  }
  fn method(&mut self, c: &syn::ExprMethodCall) -> Ty {
    let m = c.method.to_string();
    let args: Vec<Ty> = c.args.iter().map(|x| self.value(x)).collect();
    let h = self.hole();
    let state = app("State", h.clone());
    match (m.as_str(), args.len()) {
      ("success", 1) => { let t = self.value(&c.receiver); self.unify(&t, &state, "state"); app("State", args[0].clone()) }
      ("failure", 0) => { let t = self.value(&c.receiver); self.unify(&t, &state, "state"); let h = self.hole(); app("State", h) }
      ("restore", 1) | ("restore_from_failure", 1) => { let t = self.value(&c.receiver); self.unify(&t, &state, "state"); app("State", unit()) }
      ("extract_data", 0) => { let t = self.value(&c.receiver); self.unify(&t, &state, "state"); Tup(vec![app("State", unit()), h]) }
      ("mark", 0) => { let t = self.place(&c.receiver, false); let t = self.behind(t); self.unify(&t, &state, "state"); name("Stream") }
      ("is_successful", 0) | ("is_failed", 0) => { let t = self.place(&c.receiver, false); let t = self.behind(t); self.unify(&t, &state, "state"); name("bool") }
      ("error", 1) | ("discard_data", 0) => { let t = self.place(&c.receiver, true); let t = self.behind(t); self.unify(&t, &state, "state"); unit() }
      ("next", 0) => { let t = self.place(&c.receiver, true); let t = self.behind(t); self.unify(&t, &state, "state"); app("Option", name("char")) }
      ("consume_prefix", 1) => { let t = self.place(&c.receiver, true); let t = self.behind(t); self.unify(&t, &state, "state"); name("bool") }
      ("clone", 0) => { let t = self.place(&c.receiver, false); self.behind(t) }
      ("push", 1) => { let t = self.place(&c.receiver, true); let t = self.behind(t); self.unify(&t, &app("Vec", args[0].clone()), "vector"); unit() }
      ("take", 0) => { let t = self.place(&c.receiver, true); let t = self.behind(t); self.unify(&t, &app("Option", h.clone()), "option"); app("Option", h) }
      ("expect", 1) | ("unwrap", 0) => { let t = self.value(&c.receiver); self.unify(&t, &app("Option", h.clone()), "option"); h }
      ("stream_span", 0) => { self.place(&c.receiver, false); name("Span") }
      _ => self.skip()
    }
  }

  // ---- functions ----
  pub fn signature(&mut self, f: &syn::ItemFn) {
    let mut v = vec![];
    for i in f.sig.inputs.iter() { v.push(match *i { syn::FnArg::Typed(ref p) => self.ty(&p.ty), _ => return }) }
    let r = match f.sig.output { syn::ReturnType::Default => unit(), syn::ReturnType::Type(_, ref t) => self.ty(t) };
    self.fns.insert(f.sig.ident.to_string(), (v, r));
  }
  // None: not judged; Some(Ok): well formed
  pub fn function(&mut self, f: &syn::ItemFn) -> Option<Result<(), String>> {
    self.vars.clear(); self.fl = Flow { moved: vec![], dead: false }; self.breaks.clear(); self.unknown = false; self.bad = None;
    let (ps, out) = match self.fns.get(&f.sig.ident.to_string()) { Some(x) => x.clone(), None => return None };
    self.out = out.clone();
    for (i, t) in f.sig.inputs.iter().zip(ps.iter()) { if let syn::FnArg::Typed(ref p) = *i { self.pat(&p.pat, t) } }
    let t = self.block(&f.block);
    if !self.fl.dead { self.unify(&t, &out, "result") }
    if let Some(ref b) = self.bad { return Some(Err(b.clone())) }
    if self.unknown { None } else { Some(Ok(())) }
  }
}
// names of types this reading says nothing about
fn loose(x: &str) -> bool { x.contains("Stream") || x.contains("Span") || x.contains("Output") || x.contains("Range") }
