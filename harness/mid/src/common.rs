use std::str::FromStr;
use proc_macro2::{self, diag, TokenStream, TokenTree};
use reference::*;
use sym;
use syn;
use oaklib;

// A slot of a grammar text: the index is symbolic, and made concrete by the solver.
pub fn slot(n: usize) -> usize { sym::concrete(sym::below(n as u32) as usize) }

pub struct T { pub s: String, pub part: Option<usize>, pub sum: usize, weight: usize }
impl T {
  pub fn new(part: usize) -> T { T { s: String::new(), part: Some(part), sum: 0, weight: 1 } }
  pub fn t(&mut self, s: &str) -> &mut T { self.s.push_str(s); self }
  pub fn free() -> T { T { s: String::new(), part: None, sum: 0, weight: 1 } }
  // the first slot of every template is fixed by the entry point
  pub fn p(&mut self, c: &[&str]) -> &mut T { if c.len() == 1 { self.s.push_str(c[0]); return self } let k = match self.part.take() { Some(k) => k, None => slot(c.len()) }; sym::assume(k < c.len()); self.s.push_str(c[k]); self.sum += k * self.weight; self.weight += 2; self }
  // the names in some order, fixed by the entry point
  pub fn part_order(&mut self, c: &[&str]) -> Vec<String> {
    let mut k = match self.part.take() { Some(k) => k, None => 0 };
    let mut v: Vec<String> = c.iter().map(|s| s.to_string()).collect();
    let mut out = vec![];
    while !v.is_empty() { let n = v.len(); out.push(v.remove(k % n)); k /= n; }
    out
  }
  pub fn pas(&mut self, pre: &[&str], atoms: &[&str], suf: &[&str]) -> &mut T { self.p(pre).p(atoms).p(suf).t(" ") }
}
pub const PRE: &'static [&'static str] = &["", "!", "&"];
pub const SUF: &'static [&'static str] = &["", "*", "+", "?"];

// What may end in a panic once an error has been reported
static mut MAY_REJECT: bool = false;
fn hook(l: diag::Level) { if l == diag::Level::Error && unsafe { MAY_REJECT } { sym::allow_panic(true) } }
pub fn expect(may_reject: bool) { unsafe { MAY_REJECT = may_reject } sym::allow_panic(false); diag::reset(Some(hook)) }

pub fn tokens(s: &str) -> TokenStream { match TokenStream::from_str(s) { Ok(t) => t, Err(_) => panic!("harness: not a token stream") } }

#[cfg(feature = "internals")]
pub enum Out { Syntax, Typed(oaklib::middle::typing::ast::TGrammar) }
#[cfg(feature = "internals")]
pub fn front(ts: TokenStream) -> Option<oaklib::front::ast::FGrammar> { syn::parse2::<oaklib::front::ast::FGrammar>(ts).ok() }
#[cfg(feature = "internals")]
pub fn mid(ts: TokenStream) -> Out { match front(ts) { None => Out::Syntax, Some(g) => Out::Typed(oaklib::middle::typecheck(g)) } }
// the whole macro; None when it is rejected by the parser
pub fn full(ts: TokenStream) -> Option<Vec<String>> {
  let out = oaklib::oak(ts);
  if diag::syntax() > 0 { return None }
  let mut v = vec![];
  flat(out, &mut v);
  Some(v)
}
pub fn flat(ts: TokenStream, v: &mut Vec<String>) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (o, c) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Bracket => ("[", "]"), proc_macro2::Delimiter::Brace => ("{", "}"), _ => ("", "") };
        if o != "" { v.push(o.to_string()) }
        flat(g.stream(), v);
        if c != "" { v.push(c.to_string()) }
      }
      TokenTree::Punct(p) => v.push(p.as_char().to_string()),
      t => v.push(t.to_string()),
    }
  }
}
// The data type in `fn <name>(..) -> ParseState<Stream, TYPE> {`
pub fn return_type(v: &[String], name: &str) -> Option<String> {
  let mut i = 0;
  while i + 1 < v.len() {
    if v[i] == "fn" && v[i + 1] == name {
      let mut st = i;
      while !(v[st] == "-" && v[st + 1] == ">") { st += 1 }
      let mut k = st + 2;
      while v[k] != "<" { k += 1 }
      k += 1;
      let mut depth = 0i32;
      // first argument: the stream
      while !(depth == 0 && v[k] == ",") { if v[k] == "<" || v[k] == "(" { depth += 1 } if v[k] == ">" || v[k] == ")" { depth -= 1 } k += 1 }
      k += 1;
      let mut r = String::new();
      depth = 0;
      loop {
        if v[k] == "<" || v[k] == "(" { depth += 1 }
        if v[k] == ")" || v[k] == ">" { if depth == 0 { break } depth -= 1 }
        if v[k] == "{" { break }
        r.push_str(&v[k]);
        k += 1;
      }
      if r.ends_with(",") { r.pop(); }
      return Some(r)
    }
    i += 1;
  }
  None
}
pub fn has_fn(v: &[String], name: &str) -> bool { v.windows(2).any(|w| w[0] == "fn" && w[1] == name) }
pub fn has_pub_fn(v: &[String], name: &str) -> usize { v.windows(3).filter(|w| w[0] == "pub" && w[1] == "fn" && w[2] == name).count() }
// The tokens of a function's body
pub fn body<'a>(v: &'a [String], name: &str) -> &'a [String] {
  let mut i = 0;
  while i + 1 < v.len() {
    if v[i] == "fn" && v[i + 1] == name {
      while v[i] != "{" { i += 1 }
      let st = i;
      let mut d = 0;
      loop { if v[i] == "{" { d += 1 } if v[i] == "}" { d -= 1; if d == 0 { return &v[st..i + 1] } } i += 1 }
    }
    i += 1;
  }
  &v[0..0]
}
pub fn contains(v: &[String], seq: &[&str]) -> bool { v.windows(seq.len()).any(|w| w.iter().zip(seq.iter()).all(|(a, b)| a == b)) }
pub fn reference(s: &str) -> R<G> { read(&lex(s.as_bytes())) }
