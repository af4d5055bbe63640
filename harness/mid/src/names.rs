// C16: duplicate names, and what a name denotes.
use common::*;
use reference::*;
use proc_macro2::{diag, TokenStream};
use sym;

const ODD: &'static [&'static str] = &["r#type", "r#fn", "a", "_1", "\u{e9}", "r#match"];
const NAMES: &'static [&'static str] = &["a", "b", "ab", "ba", "aa", "a_", "A", "recognize_a"];

// (the grammar without its Rust items, the whole text, names of the functions declared)
fn shape(k: usize, part: usize) -> (String, String, Vec<(String, &'static str)>) {
  let mut t = T::new(part);
  let mut fs: Vec<(String, &'static str)> = vec![];
  let mut f = |t: &mut T, c: &[&str], r: &'static str, fs: &mut Vec<(String, &'static str)>| -> String { let st = t.s.len(); t.p(c); let n = t.s[st..].to_string(); t.s.truncate(st); if n.is_empty() { return n } fs.push((n.clone(), r)); format!(" fn {}() -> {} {{ x }} ", n, r) };
  let (pre, mid, post);
  match k {
    // three rules with any names, each calling any name
    0 => { for c in &["\"k\"", "\"l\"", "\"m\""] { t.p(&["a", "b", "c"]).t(" = ").t(c).t(" ").p(&["a", "b", "c", "d", "x::a", "a::b"]).t(" / \"z\" "); } return (t.s.clone(), t.s, fs) }
    // names that are close to one another
    1 => { t.p(NAMES).t(" = \"k\" ").p(NAMES).t(" / . ").p(NAMES).t(" = \"l\" ").p(NAMES).t(" / ."); return (t.s.clone(), t.s, fs) }
    // local and external, before and after the declaration, under every operator
    2 => { let o = t.part_order(&["a", "b"]); for r in o { if r == "a" { t.t("a = ").p(&["", "!", "&"]).p(&["b", "x::b", "b::b", "c"]).p(&["", "*", "+", "?"]).t(" \"k\" ").p(&["b", "x::b", "c"]).p(&["", ":()", ":(^)"]).t(" / \"z\" "); } else { t.t("b = \"y\" ").p(&["a", "x::a", "b"]).t(" / \"w\" "); } } return (t.s.clone(), t.s, fs) }
    // functions, in every place
    3 => {
      pre = f(&mut t, &["f", "g"], "A", &mut fs); mid = f(&mut t, &["", "f", "g", "h"], "B", &mut fs); post = f(&mut t, &["", "f", "g", "a"], "D", &mut fs);
      let a = { let st = t.s.len(); t.t("a = . > ").p(&["f", "g", "h"]).t(" "); t.s[st..].to_string() };
      let b = { let st = t.s.len(); t.t("b = .* > ").p(&["f", "g", "a"]).t(" "); t.s[st..].to_string() };
      return (format!("{}{}", a, b), format!("{}{}{}{}{}", pre, a, mid, b, post), fs)
    }
    // without rules
    4 => {
      let items = &["", "use a::b;", "struct S;", "type T = u8;", "mod m { fn f() {} }", "const K: u8 = 3;"];
      let mut whole = String::new();
      let a = { t.p(items); let s = t.s.clone(); t.s.clear(); s };
      let b = f(&mut t, &["", "f", "g"], "A", &mut fs);
      let r = { t.p(&["", "a = \"x\"", "b = \"y\" a = b"]); t.s.clone() };
      t.s.clear();
      let c = f(&mut t, &["", "f", "g"], "B", &mut fs);
      whole.push_str(&format!("{} {} {} {}", a, b, r, c));
      return (r, whole, fs)
    }
    // many rules: two of five may be the same
    5 => { for i in 0..5 { let n = ["p", "q", "r", "s", "u"][i]; t.p(&[n, "q", "s"]).t(" = \"x\" ").p(&["q", "u", "\"y\"", "p"]).t(" / \"z\" "); } return (t.s.clone(), t.s, fs) }
    // small ones, for the whole compiler
    6 => { let o = t.part_order(&["a", "b", "c"]); for r in o { match r.as_str() { "a" => t.t("a = ").p(&["b", "x::b", "b::b", "d"]).p(&["", "*", ":(^)"]).t(" \"k\" / \"z\" "), "b" => t.t("b = \"y\" ").p(&["a", "x::a", "c"]).t(" / \"w\" "), _ => t.t("c = ").p(&["b", ". > b"]).t(" \"v\" ") }; } return (t.s.clone(), t.s, fs) }
    // functions under attributes and visibilities, and methods that are not functions of the grammar
    7 => {
      let a = { t.p(&["", "#[inline] ", "pub ", "#[cfg(k)] pub(crate) ", "unsafe ", "/// doc\n"]); let s = t.s.clone(); t.s.clear(); s };
      let b = { t.p(&["", "#[inline] ", "pub ", "#[cfg(not(k))] "]); let s = t.s.clone(); t.s.clear(); s };
      let x = f(&mut t, &["f"], "A", &mut fs);
      let y = f(&mut t, &["f", "g"], "A", &mut fs);
      let z = { t.p(&["", "struct S; impl S { fn f() {} fn f2() {} }", "mod m { pub fn f() {} }", "#[derive(Debug)] enum f {}", "use m::f as h;", "trait T { fn f(); fn f(); }"]); let s = t.s.clone(); t.s.clear(); s };
      let r = "a = . > f b = .".to_string();
      return (r.clone(), format!("{} {}{} {} {}{}", r, a, x.trim_start(), z, b, y.trim_start()), fs)
    }
    // duplicates that are far from one another, whatever their case
    8 => { t.p(&["p", "P"]).t(" = \"k\" ").p(&["q", "p", "P"]).t(" / . "); t.p(&["q", "p"]).t(" = \"l\" "); t.p(&["r", "p"]).t(" = \"m\" . "); t.p(&["s", "p", "q"]).t(" = \"n\" "); t.p(&["u", "p", "q", "S"]).t(" = \"o\" ").p(&["s", "S", "Q"]).t(" "); return (t.s.clone(), t.s, fs) }
    // raw names and names that are not ASCII
    9 => { t.p(ODD).t(" = \"k\" ").p(ODD).t(" / . ").p(ODD).t(" = \"l\" ").p(&["r#type", "x::r#type", "_1", "r#fn::\u{e9}"]).t(" / ."); return (t.s.clone(), t.s, fs) }
    _ => unreachable!(),
  }
}

// the paths of the calls in e, in the order of the text
fn calls(e: &E, v: &mut Vec<String>) {
  match *e {
    E::Call(ref n) => v.push(n.clone()),
    E::Seq(ref x) | E::Cho(ref x) => for y in x { calls(y, v) },
    E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Not(ref x) | E::And(ref x) | E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => calls(x, v),
    _ => (),
  }
}
fn dup(v: &[String]) -> bool { (0..v.len()).any(|i| (0..i).any(|j| v[i] == v[j])) }

pub fn run(k: usize, part: usize, fast: bool) {
  let (text, whole, fs) = shape(k, part);
  sym::tag(&whole);
  let g = match reference(&text) { Ok(g) => g, Err(_) => { sym::assume(false); return } };
  let names: Vec<String> = g.rules.iter().map(|r| r.0.clone()).collect();
  let funs: Vec<String> = fs.iter().map(|f| f.0.clone()).collect();
  let bad = dup(&names) || dup(&funs) || names.is_empty();
  let mut ext = false;
  if !bad {
    // flawed or ill-typed grammars are another property's matter
    sym::assume(!An::new(&g).wf.bad());
    let table: Vec<(&str, &str)> = fs.iter().map(|f| (&f.0[..], f.1)).collect();
    match Typer::new(&g, &table).solve(None) { Verdict::Accept(_) => (), Verdict::Murky => sym::assume(false), _ => ext = true }
  }
  expect(bad || ext);
  sym::reach(if names.is_empty() { "no rule" } else if dup(&names) { "duplicate rules" } else if dup(&funs) { "duplicate functions" } else { "distinct names" });
  let ts = tokens(&whole);
  let got = if fast { resolved(ts, &g) } else { compiled(ts, &g) };
  if bad { sym::check(diag::errors() > 0, "a grammar with duplicate names or without rules is rejected"); return }
  if diag::errors() > 0 { sym::check(ext, "a grammar with distinct names is accepted"); return }
  let got = match got { Some(v) => v, None => { sym::check(false, "the text is a grammar"); return } };
  for i in 0..g.rules.len() {
    let mut want = vec![];
    calls(&g.rules[i].1, &mut want);
    let want: Vec<(bool, String)> = want.into_iter().map(|n| (names.contains(&n), if fast { n } else { unraw(&n) })).collect();
    if fast { sym::check(got[i] == want, "a name denotes the rule of the grammar when there is one, and the external rule otherwise"); }
    else {
      for w in &want { sym::check(got[i].contains(w), "a call is compiled to the rule the name denotes") }
      for w in &got[i] { sym::check(want.contains(w), "only the named rules are called") }
    }
  }
}
#[cfg(feature = "internals")]
fn resolved(ts: TokenStream, g: &G) -> Option<Vec<Vec<(bool, String)>>> {
  match mid(ts) {
    Out::Syntax => None,
    Out::Typed(tg) => {
      let mut all = vec![];
      for r in &g.rules {
        let mut v = vec![];
        for q in &tg.rules { if q.name.to_string() == r.0 { walk(&tg, q.expr_idx, &mut v) } }
        all.push(v);
      }
      Some(all)
    }
  }
}
#[cfg(feature = "internals")]
fn walk(g: &::oaklib::middle::typing::ast::TGrammar, i: usize, v: &mut Vec<(bool, String)>) {
  use oaklib::ast::Expression::*;
  match g.exprs[i].clone() {
    NonTerminalSymbol(id) => v.push((true, id.to_string())),
    ExternalNonTerminalSymbol(p) => { let mut f = vec![]; flat(::quote::ToTokens::into_token_stream(p), &mut f); v.push((false, f.concat())) }
    Sequence(x) | Choice(x) => for j in x { walk(g, j, v) },
    ZeroOrMore(x) | OneOrMore(x) | ZeroOrOne(x) | NotPredicate(x) | AndPredicate(x) | TypeAscription(x, _) | SpannedExpr(x) | RangeExpr(x) => walk(g, x, v),
    SemanticAction(x, _, _) => walk(g, x, v),
    _ => (),
  }
}
#[cfg(not(feature = "internals"))]
fn resolved(ts: TokenStream, g: &G) -> Option<Vec<Vec<(bool, String)>>> { let _ = (ts, g); sym::assume(false); None }

// Calls `parse_n(`/`recognize_n(` in the generated functions
fn compiled(ts: TokenStream, g: &G) -> Option<Vec<Vec<(bool, String)>>> {
  let v = match full(ts) { None => return None, Some(v) => v };
  if diag::errors() > 0 { return Some(vec![]) }
  let mut all = vec![];
  for r in &g.rules {
    let r = &(unraw(&r.0), ());
    for p in &["parse_", "recognize_"] { sym::check(has_pub_fn(&v, &format!("{}{}", p, r.0)) == 1, "each rule has one public parser and one public recognizer") }
    let mut found: Vec<(bool, String)> = vec![];
    for p in &["parse_", "recognize_"] {
      let b = body(&v, &format!("{}{}", p, r.0));
      for i in 0..b.len() {
        if i + 1 >= b.len() || b[i + 1] != "(" { continue }
        let n = if b[i].starts_with("parse_") { &b[i][6..] } else if b[i].starts_with("recognize_") { &b[i][10..] } else { continue };
        let mut path = n.to_string();
        let mut j = i;
        while j >= 2 && b[j - 1] == ":" && b[j - 2] == ":" {
          path = format!("::{}", path);
          j -= 2;
          if j >= 1 && b[j - 1].chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') { path = format!("{}{}", b[j - 1], path); j -= 1 } else { break }
        }
        // the parser of a rule without a value is its recognizer
        if *p == "parse_" && b[i].starts_with("recognize_") && path == r.0 { continue }
        let x = (g.rules.iter().any(|r| unraw(&r.0) == path), path);
        if !found.contains(&x) { found.push(x) }
      }
    }
    all.push(found);
  }
  Some(all)
}
