// C19: the functions that are generated.
use common::*;
use reference::*;
use rustc::*;
use proc_macro2::diag;
use syn;
use quote::ToTokens;
use sym;

const ITEMS: &'static [(&'static str, &'static str)] = &[("f", "(c: char) -> X { X }"), ("g", "() -> X { X }"), ("h", "(a: char, b: char) -> X { X }"), ("u", "(c: char) {}"), ("l", "(v: Vec<char>) -> X { X }"), ("i", "(x: X) -> X { x }")];
const FUNS: &'static [(&'static str, &'static str)] = &[("f", "X"), ("g", "X"), ("h", "X"), ("u", "()"), ("l", "X"), ("i", "X")];
// rules the templates call: a character, a value that cannot be copied, two values, nothing
const RULES: &'static [(&'static str, &'static str)] = &[("c", "[\"a-c\"]"), ("x", ". > f"), ("p", ". (. > f)"), ("n", "\"n\""), ("v", ".*")];

// the grammars of the large templates are dealt into SPLIT shares
const SPLIT: &'static [usize] = &[4, 8, 4, 4, 192, 12, 1, 48, 1, 16, 2, 1, 64, 1, 12, 1, 1, 2, 24];
// declaration, parameters, bounds of each one, arguments
const STREAMS: &'static [(&'static str, &'static str, &'static str, &'static str)] = &[
  ("", "'a", "", "Stream<'a>"),
  ("type Stream<'b> = StrStream<'b>;", "'b", "", "Stream<'b>"),
  ("pub type Stream = My;", "", "", "Stream"),
  ("struct W; type Stream<T> where T: B + C = My<T>; fn k() {}", "T", "T:B;T:C", "Stream<T>"),
  ("type Stream<'a, T: B> = My<'a, T>;", "'a T", "T:B", "Stream<'a,T>"),
  ("type Stream<'a, T: B = X, U: 'a> where U: D<T> = My<'a, T, U>;", "'a T U", "T:B;U:'a;U:D<T>", "Stream<'a,T,U>"),
];
fn shape(k: usize, part: usize) -> (String, (&'static str, &'static str, &'static str, &'static str)) {
  let mut stream = STREAMS[0];
  let split = SPLIT[k];
  let mut t = T::new(part / split);
  let at: &[&str] = &[".", "x", "p", "\"x\"", "v"];
  let w: &[&str] = &["", "*", "+", "?"];
  match k {
    // what is bound before, in and after a choice
    0 => { t.t("r = ").p(at).t(" (").p(at).t(" ").p(&["", "\"k\"", "n*"]).t(" / ").p(at).t(") ").p(at); }
    1 => { t.t("r = ").p(&["", "\"k\" ", "x "]).t("(").p(at).p(w).t(" / ").p(at).p(w).t(")").p(w).t(" ").p(&["x", ".", "n", "v"]); }
    // two choices, one after the other and one in the other
    2 => { t.t("r = ").p(&["", "x ", ". "]).t("(").p(at).t(" / ").p(at).t(") ").p(&["", "x ", "n "]).t("(").p(at).t(" / ").p(at).t(")").p(&["", " x"]); }
    3 => { t.t("r = ").p(&["", "x "]).t("((").p(at).t(" / ").p(at).t(") ").p(&["", "x "]).t("/ ").p(at).t(" ").p(&["", "x "]).t(")").p(&["", "*", "?"]).t(" ").p(&["", "x", "p"]); }
    // repetitions in repetitions
    4 => { t.t("r = ").p(&["", "x ", "n "]).t("((").p(at).p(w).t(" \"k\" ").p(&["", "x"]).t(")").p(w).t(" \"m\" ").p(&["", "x", "(. / \"q\" .)"]).t(")").p(w).t(" ").p(&["", "x"]); }
    // actions
    5 => { t.t("r = ").p(&["", "x ", "p "]).t("(").p(&[". > f", ". \"k\" > f", "\"k\" > g", ". . > h", "x > i", "(. / \"j\" .) > f", "(. / \"j\" .) (. / \"k\" .) > h", ".* > l", ". > u", "c (. > f / x) > e::z"]).t(" / ").p(&["\"k\" > g", "x", ".", "(x > i) > i", "x > box i", "p > F", "n > N"]).t(")").p(w).p(&["", " x"]); }
    6 => { t.t("r = (").p(&["x", ".", "p", "x*", "(x / \"k\" x)"]).p(&["", " x", " (\"j\" x / x)"]).p(&["", " > e::z", " > box e::z", " > E::V", " > V"]).t(") ").p(&["", "x", "(x / \"l\" x)"]).p(&["", " > e::z"]).p(&["", " / \"m\" > e::z"]); }
    // spans
    7 => { t.t("r = ").p(&["", "x "]).t("(").p(&[".. ", "... ", ""]).p(at).p(&["", "*", "?"]).t(" ").p(&["", "(. / \"k\" .)", "n", "(.. x)", "(... n / ... x)"]).t(")").p(w).t(" ").p(&["", "x", ".. x"]); }
    8 => { t.t("r = ").p(&["", "x "]).t("(").p(&[".. ", "... "]).p(&[".", "x", "n", "(. / \"k\" .)"]).t(" / ").p(&[".. ", "... "]).p(&[".", "x", "n", "(.. n)"]).t(") ").p(&["", "x", "(x / n:())"]); }
    // predicates
    9 => { t.t("r = ").p(&["", "x ", "p "]).p(&["!", "&"]).t("(").p(at).p(w).t(" ").p(&["", "(x / n)", "(.. x)", "(. > f)"]).t(")").p(&["", " x", " (x / p)", " !\"q\" ."]).p(&["", " / \"k\""]); }
    // discarded values
    10 => { t.t("r = ").p(&["x", "p", "(x / .)", "x*"]).p(&[":()", ":(^)"]).t(" ").p(&["x", "(x:() / n)", "(p:(^) / n)", "n"]).t(" ").p(&["", "(x / \"k\" x)", "(. > f):()"]).p(&["", " / \"l\""]); }
    // external rules
    11 => { t.t("r = ").p(&["e::q", "(e::q:X)", "e::q:()", "(y:X)"]).p(&["", "*", "?"]).t(" ").p(&["x", "(e::q:X / x)", "(e::q / n)", "((e::q:X) > i / x)", "y:()", "(y:X / x)"]).t(" ").p(&["", "(e::q:X)", "!e::q", "&y"]).p(&["", " / \"k\""]); }
    // choices of many branches
    12 => { let b: &[&str] = &[" / \"1\" x", " / x", " / \"2\" (x / \"3\" x)", " / !n x", " / (n x)"]; t.t("r = ").p(&["", "x ", "p "]).t("(x").p(b).p(b).p(b).t(")").p(&["", "*"]).p(&["", " x", " (p / \"4\" p)"]); }
    // every rule, in two orders
    13 => { t.t("r = ").p(&["s x", "x s", "s* x", "(s / \"k\" s)", "s", ".. s"]).t(" s = ").p(&["x p", "x", "n", "p?", "(p / \"j\" p)", "v v", "x r?"]).p(&["", " \"z\""]); }
    // nested optional values and lists
    14 => { t.t("r = ").p(&["", "x "]).t("((").p(at).p(&["?", "*"]).t(" \"k\")").p(w).t(" \"l\" ").p(&["", "(\"m\" (x / p \"n\":() > e::z))", "x?"]).t(")").p(w); }
    15 => { t.t("r = ((").p(&["x", "p", "."]).t(" / \"j\" ").p(&["x", "p", "."]).t(") ").p(&["", "x ", "(x / \"k\" x) "]).t("/ \"l\" ").p(&["x", "p", ".", "p x"]).t(") ").p(&["", "x ", "(x / \"m\" x) "]).p(&["", "(n / \"o\") x"]); }
    // a span in a span, after what needs the first one
    18 => { t.t("r = ").p(&[".. ", "... ", ""]).t("(").p(&["", "x "]).p(&["(\"a\" / \"b\")", "(x / . .:())", "n*", "(... n / \"k\")", "x?", "!\"z\""]).t(" \"c\" ").p(&["(.. x)", "(... n \"d\")", "(.. \"d\" / ... \"e\"):()", "!(.. x)", "(.. (.. x))"]).t(" ").p(&["", "x", "(x / . .:())", ".*", "(.. x)"]).t(")").p(&["", " x", " (.. n)"]); }
    // unusual names
    17 => { let n: &[&str] = &["r#type", "_1", "\u{e9}", "r#fn", "state", "mark1", "b0", "success_continuation_1"]; t.t("r = (").p(n).t(" / . \"k\" .:()").t(") ").p(&["", "x "]).p(n).t(" "); let m: Vec<&str> = n.iter().cloned().filter(|n| t.s.contains(n)).collect(); for m in m { t.t(m).t(" = \"l\" . "); } }
    // on streams of any type
    16 => { let st = t.part.take().unwrap(); t.t("r = ").p(&["x", "n x", "(x / \"k\" x)", "(.. x)*", "(... n)?", "!x n"]); stream = STREAMS[st]; }
    _ => unreachable!(),
  }
  sym::assume(t.sum % split == part % split);
  // the rules it uses, declared before it
  let used: Vec<bool> = RULES.iter().map(|r| t.s.split(|c: char| !(c.is_alphanumeric() || c == ':' || c == '"')).any(|w| w.split(':').next() == Some(r.0))).collect();
  let mut s = String::new();
  for (r, u) in RULES.iter().zip(used) { if u { s.push_str(&format!("{} = {} ", r.0, r.1)) } }
  s.push_str(&t.s);
  (s, stream)
}

pub fn run(k: usize, part: usize) {
  let (text, stream) = shape(k, part);
  sym::tag(&text);
  let g = match reference(&text) { Ok(g) => g, Err(_) => { sym::assume(false); return } };
  sym::assume(!An::new(&g).wf.bad());
  match Typer::new(&g, FUNS).solve(None) { Verdict::Accept(_) => (), _ => sym::assume(false) }
  expect(false);

  let mut items = stream.0.to_string() + " ";
  for i in ITEMS { if text.contains(&format!("> box {}", i.0)) || text.contains(&format!("> {} ", i.0)) || text.contains(&format!("> {})", i.0)) || text.ends_with(&format!("> {}", i.0)) { items.push_str(&format!("fn {}{} ", i.0, i.1)) } }
  judge(&g, stream, ::oaklib::oak(tokens(&(items + &text))))
}
fn judge(g: &G, stream: (&str, &str, &str, &str), ts: ::proc_macro2::TokenStream) {
  sym::check(diag::errors() == 0 && diag::syntax() == 0, "a well-formed grammar is accepted");
  let file = match syn::parse2::<syn::File>(ts) { Ok(f) => f, Err(_) => { sym::check(false, "the generated code is a list of Rust items"); return } };
  let mut ck = Ck::new();
  let mut funs = vec![];
  for i in &file.items { if let syn::Item::Fn(ref f) = *i { funs.push(f.clone()); ck.signature(f) } }
  for &(ref r, _) in &g.rules {
    for p in &["parse_", "recognize_"] {
      let n = format!("{}{}", p, unraw(r));
      let mut seen = 0; let mut public = true;
      for f in &funs { if f.sig.ident == n.as_str() { seen += 1; if let syn::Visibility::Public(_) = f.vis {} else { public = false } } }
      sym::check(seen == 1 && public, "every rule has one public function of each kind");
    }
  }
  for r in &g.rules { externals(g, &r.1, &mut ck.globals) }
  for f in &funs {
    let n = f.sig.ident.to_string();
    if !g.rules.iter().any(|r| n == format!("parse_{}", unraw(&r.0)) || n == format!("recognize_{}", unraw(&r.0))) { continue }
    sym::check(signature(f, stream), "a generated function is generic in what its stream is, with the same bounds, and takes and gives states of that stream");
    if !(n.starts_with("parse_") || n.starts_with("recognize_")) { continue }
    match ck.function(f) {
      None => sym::reach("not judged"),
      Some(Ok(())) => sym::reach("judged"),
      Some(Err(e)) => { sym::tag(&format!("{}\n{}", n, e)); sym::check(false, "a generated function binds, moves, changes and types its values consistently") }
    }
  }
}

// the functions of the rules which are called and are not of this grammar
fn externals(g: &G, e: &E, out: &mut Vec<String>) {
  match *e {
    E::Call(ref n) => if !g.rules.iter().any(|r| r.0 == *n) {
      let n = unraw(n);
      let at = n.rfind("::").map_or(0, |i| i + 2);
      for p in &["parse_", "recognize_"] { out.push(format!("{}{}{}", &n[..at], p, &n[at..])) }
    },
    E::Seq(ref v) | E::Cho(ref v) => for x in v { externals(g, x, out) },
    E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Not(ref x) | E::And(ref x) | E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => externals(g, x, out),
    _ => ()
  }
}
fn text<X: ToTokens>(x: &X) -> String { let mut ts = ::proc_macro2::TokenStream::new(); x.to_tokens(&mut ts); let mut v = vec![]; flat(ts, &mut v); v.concat() }
fn signature(f: &syn::ItemFn, stream: (&str, &str, &str, &str)) -> bool {
  let mut names = vec![];
  let mut bounds = vec![];
  for p in f.sig.generics.params.iter() {
    match *p {
      syn::GenericParam::Lifetime(ref l) => { names.push(text(&l.lifetime)); for b in l.bounds.iter() { bounds.push(format!("{}:{}", text(&l.lifetime), text(b))) } }
      syn::GenericParam::Type(ref t) => { if t.default.is_some() { return false } names.push(t.ident.to_string()); for b in t.bounds.iter() { bounds.push(format!("{}:{}", t.ident, text(b))) } }
      _ => return false
    }
  }
  if let Some(ref w) = f.sig.generics.where_clause { for p in w.predicates.iter() { match *p {
    syn::WherePredicate::Type(ref t) => for b in t.bounds.iter() { bounds.push(format!("{}:{}", text(&t.bounded_ty), text(b))) },
    syn::WherePredicate::Lifetime(ref l) => for b in l.bounds.iter() { bounds.push(format!("{}:{}", text(&l.lifetime), text(b))) },
    _ => return false
  } } }
  bounds.sort();
  bounds.dedup();
  if names.join(" ") != stream.1 || bounds.join(";") != stream.2 { return false }
  let state = |t: &syn::Type| -> Option<(String, String)> {
    if let syn::Type::Path(ref p) = *t { let s = p.path.segments.last().unwrap(); if s.ident == "ParseState" { if let syn::PathArguments::AngleBracketed(ref a) = s.arguments {
      let v: Vec<String> = a.args.iter().map(|x| text(x)).collect();
      if v.len() == 2 { return Some((v[0].clone(), v[1].clone())) }
    } } }
    None
  };
  let ins: Vec<_> = f.sig.inputs.iter().map(|i| match *i { syn::FnArg::Typed(ref p) => state(&p.ty), _ => None }).collect();
  let out = match f.sig.output { syn::ReturnType::Type(_, ref t) => state(t), _ => None };
  let unit = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>() == "()";
  ins.len() == 1 && match (&ins[0], out) {
    (&Some((ref s, ref d)), Some((t, e))) => s == stream.3 && t == stream.3 && unit(d) && (unit(&e) || !f.sig.ident.to_string().starts_with("recognize_")),
    _ => false
  }
}
