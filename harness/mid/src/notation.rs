// C14 and C18: how the text of a grammar is read.
use common::*;
use reference::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::iter::FromIterator;
use std::str::FromStr;
use sym;
#[cfg(not(feature = "internals"))] use syn;

// ---- C14: classes over arbitrary characters ----
fn class_tokens(text: &str) -> TokenStream {
  let lit = match Literal::from_str(&format!("\"{}\"", text)) { Ok(l) => l, Err(_) => panic!("harness: not a literal") };
  let grp = Group::new(Delimiter::Bracket, TokenStream::from(TokenTree::Literal(lit)));
  TokenStream::from_iter(vec![TokenTree::Ident(Ident::new("a", Span::call_site())), TokenTree::Punct(Punct::new('=', Spacing::Alone)), TokenTree::Group(grp)])
}
// Any text of n bytes; dash: which bytes are `-`
pub fn class_run(n: usize) {
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { let b = sym::u8(); sym::assume(b != b'"' && b != b'\\' && b != b'\r'); v.push(b); }
  sym::assume(sym::utf8_ok(&v));
  let text = unsafe { ::std::str::from_utf8_unchecked(sym::leak(v)) };
  let mut cs = vec![];
  let mut i = 0;
  while i < n { let (c, k) = sym::decode(text.as_bytes(), i); cs.push(unsafe { ::std::char::from_u32_unchecked(c) }); i += k }
  class_is(class_tokens(text), &cs)
}
// Single-byte characters chosen among dashes, letters and what has to be escaped
pub fn class_pattern(n: usize) {
  let mut s = String::new();
  let mut cs = vec![];
  for _ in 0..n {
    let k = slot(4);
    if k == 0 { s.push('-'); cs.push('-'); }
    else if k == 1 { s.push_str("\\\\"); cs.push('\\'); }
    else if k == 2 { s.push_str("\\u{e9}"); cs.push('\u{e9}'); }
    else { let b = sym::u8(); sym::assume(b.wrapping_sub(b'a') < 26); s.push(b as char); cs.push(b as char); }
  }
  class_is(class_tokens(&s), &cs)
}
#[cfg(feature = "internals")]
fn class_is(ts: TokenStream, cs: &Vec<char>) {
  use oaklib::ast::Expression;
  expect(false);
  let want = class(cs);
  let got = front(ts);
  match (got, want) {
    (None, Err(())) => sym::reach("rejected"),
    (Some(_), Err(())) => sym::check(false, "a malformed character class is rejected"),
    (None, Ok(_)) => sym::check(false, "a well-formed character class is accepted"),
    (Some(g), Ok(w)) => {
      sym::reach("accepted");
      let c = match g.exprs[g.rules[0].expr_idx] { Expression::CharacterClass(ref c) => c.clone(), _ => { sym::check(false, "a class is a class"); return } };
      let x = sym::u32();
      sym::assume(x < 0x110000 && x.wrapping_sub(0xd800) >= 0x800);
      let mut a = false; let mut b = false;
      for i in &c.intervals { a |= (i.lo as u32 <= x) & (x <= i.hi as u32) }
      for &(lo, hi) in &w { b |= (lo as u32 <= x) & (x <= hi as u32) }
      sym::check(a == b, "a class denotes the listed characters and intervals");
    }
  }
}
// without the internals: only what is accepted (what is denoted is seen on the generated parsers)
#[cfg(not(feature = "internals"))]
fn class_is(ts: TokenStream, cs: &Vec<char>) {
  expect(false);
  let want = class(cs);
  let got = match syn::parse2::<::oaklib::front::ast::FGrammar>(ts) { Ok(_) => Some(()), Err(_) => None };
  sym::reach(if want.is_ok() { "accepted" } else { "rejected" });
  sym::check(got.is_some() == want.is_ok(), "a character class is accepted when it is well formed");
}

// ---- C18: texts ----
// by number, then by letter
const ITEMS: &'static [&'static str] = &["fn f() -> X { X }", "struct S;", "use a::b;", "pub enum E { A, B }", "type Stream<'a> = Z<'a>;", "impl S { fn g() {} }",
  "#[derive(Clone)] struct Q<T> { x: T }", "const K: u8 = 1;", "mod m { fn h() {} }", "trait T { fn i(); }",
  "static V: [u8; 2] = [1, 2];", "extern crate q;", "unsafe fn j() {}", "pub(crate) fn k<'a>(x: &'a str) -> Result<(), ()> { if x == \"b = c\" { Ok(()) } else { Err(()) } }", "impl<T> Tr for V<T> where T: U {}"];
// the same string literal spelled in several ways, and literals which are not strings
const STRINGS: &'static [&'static str] = &["\"x\"", "r\"x\"", "r#\"x\"#", "\"\\x78\"", "\"\\u{78}\""];
const OTHERS: &'static [&'static str] = &["'x'", "b\"x\"", "b'x'", "1", "1.5", "true"];

fn shape(k: usize, part: usize) -> String {
  let mut t = T::new(part);
  let w: &[&str] = &["", "*", "+", "?"];
  let asc: &[&str] = &["", ":()", ":(^)", ":T"];
  match k {
    // all the operators on one element, then on the next
    0 => { t.t("a = ").p(&["", "..", "..."]).t(" ").p(PRE).p(&["\"x\"", ".", "b", "[\"c-d\"]", "m::n"]).p(w).p(&["", ":()", ":(^)", ":T", ": (T)", ":m::T", ":V<T>"]).p(&["", " . "]).p(&["", " > f", " > box f", " > m::f"]).p(&["", " / \"z\""]); }
    1 => { t.t("a = ").p(PRE).p(&["\"x\"", "b"]).p(w).p(asc).t(" ").p(PRE).p(&["\"y\"", "."]).p(w).p(asc).p(&["", " > f"]); }
    // alternatives: each has its span, its sequence and its action
    2 => { t.t("a = ").p(&["", "..", "..."]).t(" \"x\" ").p(&["", "b"]).p(&["", " > f"]).t(" / ").p(&["", "..", "..."]).t(" \"y\" ").p(&["", "b:()"]).p(&["", " > box f"]).p(&["", " / . c", " / .. d > g"]); }
    // parentheses
    3 => { t.t("a = ").p(&["", "..", "!", "&"]).t("(").p(&["", "..", "...", "!"]).t("\"x\" ").p(&["b", "/ b", "> f", "> f / b"]).t(")").p(&["", "*", "?", ":()", "*:T"]).t(" ").p(&["\"y\"", "/ \"y\"", "> g"]).p(&["", "/ . > h"]); }
    4 => { t.t("a = ((").p(&["", "!"]).t("(").p(&["", "&"]).t("\"x\" ").p(w).t(")").p(w).t(" ").p(&["", "/ "]).t("b").p(w).t(")").p(asc).t(" ").p(&["", "/"]).t(" (. > f)").p(w).t(")").p(asc); }
    // where a rule stops
    5 => { t.t("a ").p(&["", ": T", ":()", ": (^)", ": m::T"]).t(" = \"x\" ").p(&["", "b", "b:T", "b:()", "b*"]).t(" ").p(&["b", "b : T", "b: ()", "c"]).t(" = \"y\" ").p(&["", "c", "a :T"]).p(&[" ", " d = .", " d : () = ."]); }
    6 => { t.p(&["", "@0"]).t(" a = \"x\" ").p(&["", "b", "> f", ".. "]).p(&["@0", "@1", "@2", "@3", "@4", "@5", ""]).t(" b = \"y\" ").p(&["", "> f", ": T", "*"]).p(&["", "@1", "@2"]).p(&["", " c = .", "@0"]); }
    // what is missing, and what is misplaced
    7 => { t.t("a = ").p(&["", "\"x\"", "!", "()", "(^)", "..", "( )", "/"]).t(" ").p(&["", "/", ">", "*", ":", ".. .", "... .", "(.. .)"]).t(" ").p(&["", "\"y\"", "f", "box", "()", "/ \"z\"", "[]", "[a]", "[\"a\" b]", "[\"\"]"]).p(&["", " b", " b = \"w\"", " ="]); }
    8 => { t.t("a ").p(&["=", ":", ": T", ": = ", "", "= =", ": () ="]).t(" ").p(&["\"x\"", "b", ".", "(\"x\")", "(\"x\" /)", "(/ \"x\")", "(\"x\" >)", "(.. )", "!", "! !\"x\"", "&!\"x\"", "\"x\"**", "\"x\"?:()", "\"x\":()*", "\"x\":():()"]).t(" ").p(&["", "b = .", "= .", ": () = ."]); }
    9 => { t.t("a = ").p(&["\"x\"", ".", "b", "(\"x\" b)"]).p(&["", " "]).p(&["..", ".. ", "...", "... ", ". . ", ". .."]).p(&["\"y\"", ".", "b", "..", ""]).t(" ").p(&["", "b", "/ .. b", "/ b .. b", "> f"]); }
    // Rust items between rules
    10 => { t.p(&["", "@0", "@d", "@6", "@8"]).t(" a = \"x\" ").p(&["", "b", "> f", ": T"]).t(" ").p(&["@6", "@7", "@8", "@9", "@a", "@b", "@c", "@d", "@e"]).p(&["", " @2", " @a"]).t(" b = \"y\" ").p(&["", "@6", "@e @7"]); }
    // literals
    11 => { t.t("a = ").p(&["@S", "@L"]).p(&["", "*", ":T", " > f"]).p(&[" ", " / ", " .. ", " @L "]).p(&["@S", "b", ""]).p(&["", " @L", " b = @S", " b = @L"]); }
    _ => unreachable!(),
  }
  t.s
}
pub fn text_run(k: usize, part: usize) {
  let text = shape(k, part);
  let mut real = text.clone();
  for (i, it) in ITEMS.iter().enumerate() { real = real.replace(&format!("@{}", if i < 10 { (b'0' + i as u8) as char } else { (b'a' + i as u8 - 10) as char }), &format!(" {} ", it)); }
  for w in &["@S", "@L"] {
    if !real.contains(w) { continue }
    let from = if *w == "@S" { STRINGS } else { OTHERS };
    real = real.replace(w, from[sym::choose(from.len())]);
  }
  sym::tag(&real);
  read_is(tokens(&real), &lex(text.as_bytes()))
}

// ---- C18: arbitrary tokens ----
const OPS: &'static [u8] = b"!&*+?:=/>.,|-^;~@%$";
fn punct(real: &mut Vec<TokenTree>, toks: &mut Vec<Tok>, c: u8, joint: bool) {
  real.push(TokenTree::Punct(Punct::new(c as char, if joint { Spacing::Joint } else { Spacing::Alone })));
  toks.push(Tok::P(c, joint));
}
fn word(real: &mut Vec<TokenTree>, toks: &mut Vec<Tok>, s: &str) { real.push(TokenTree::Ident(Ident::new(s, Span::call_site()))); toks.push(Tok::Id(s.to_string())); }
fn nested(real: &mut Vec<TokenTree>, toks: &mut Vec<Tok>, d: Delimiter, s: &str) {
  real.push(TokenTree::Group(Group::new(d, tokens(s))));
  let v = lex(s.as_bytes());
  toks.push(match d { Delimiter::Parenthesis => Tok::Par(v), Delimiter::Bracket => Tok::Brk(v), _ => Tok::Brc(v) });
}
const KINDS: usize = 14;
fn token(k: usize, real: &mut Vec<TokenTree>, toks: &mut Vec<Tok>) {
  match k {
    0 => { // any punctuation
      let c = sym::u8();
      let mut ok = false;
      for &o in OPS { ok |= c == o }
      sym::assume(ok);
      punct(real, toks, c, false)
    }
    1 => { punct(real, toks, b'.', true); punct(real, toks, b'.', false) }
    2 => { punct(real, toks, b'.', true); punct(real, toks, b'.', true); punct(real, toks, b'.', false) }
    3 => word(real, toks, "b"),
    4 => word(real, toks, "box"),
    5 => { real.push(TokenTree::Literal(Literal::string("x"))); toks.push(Tok::Lit("x".to_string())) }
    6 => nested(real, toks, Delimiter::Bracket, "\"c-d\""),
    7 => nested(real, toks, Delimiter::Parenthesis, ". c"),
    8 => nested(real, toks, Delimiter::Parenthesis, ""),
    9 => nested(real, toks, Delimiter::Parenthesis, "^"),
    10 => nested(real, toks, Delimiter::Parenthesis, "T"),
    11 => nested(real, toks, Delimiter::Parenthesis, ".. . / !b > f"),
    12 => { word(real, toks, "m"); punct(real, toks, b':', true); punct(real, toks, b':', false); word(real, toks, "n") }
    13 => nested(real, toks, Delimiter::Bracket, "b"),
    _ => unreachable!(),
  }
}
// `r =` and n tokens, the first of which may be fixed; then, maybe, another rule
pub fn token_run(n: usize, first: Option<usize>, after: usize) {
  let mut real = vec![]; let mut toks = vec![];
  word(&mut real, &mut toks, "r");
  // a typed rule
  if after == 5 { punct(&mut real, &mut toks, b':', false); nested(&mut real, &mut toks, Delimiter::Parenthesis, "^") }
  if after == 6 { punct(&mut real, &mut toks, b':', false); word(&mut real, &mut toks, "T") }
  punct(&mut real, &mut toks, b'=', false);
  let mut outer = None;
  // in parentheses
  if after == 4 || after == 7 { outer = Some((real, toks)); real = vec![]; toks = vec![] }
  for i in 0..n {
    let k = match first { Some(k) if i == 0 => k, _ => slot(KINDS) };
    token(k, &mut real, &mut toks);
  }
  if let Some((mut r, mut t)) = outer {
    r.push(TokenTree::Group(Group::new(Delimiter::Parenthesis, TokenStream::from_iter(real)))); t.push(Tok::Par(toks));
    real = r; toks = t;
    if after == 7 { punct(&mut real, &mut toks, b'+', false); word(&mut real, &mut toks, "b"); punct(&mut real, &mut toks, b'/', false); punct(&mut real, &mut toks, b'.', false) }
  }
  if after == 1 { word(&mut real, &mut toks, "s"); punct(&mut real, &mut toks, b'=', false); punct(&mut real, &mut toks, b'.', false) }
  if after == 2 { word(&mut real, &mut toks, "s"); punct(&mut real, &mut toks, b':', false); word(&mut real, &mut toks, "T"); punct(&mut real, &mut toks, b'=', false); punct(&mut real, &mut toks, b'.', false) }
  if after == 3 { for t in tokens(ITEMS[2]) { real.push(t) } toks.push(Tok::Item(2)); }
  let mut shown = vec![];
  spell(&toks, &mut shown);
  sym::tag(unsafe { ::std::str::from_utf8_unchecked(&shown) });
  read_is(TokenStream::from_iter(real), &toks)
}
fn spell(t: &[Tok], v: &mut Vec<u8>) {
  for x in t {
    match *x {
      Tok::P(c, j) => { v.push(c); if j { continue } }
      Tok::Id(ref s) => v.extend_from_slice(s.as_bytes()),
      Tok::Lit(ref s) => { v.push(b'"'); v.extend_from_slice(s.as_bytes()); v.push(b'"') }
      Tok::Par(ref x) => { v.push(b'('); spell(x, v); v.push(b')') }
      Tok::Brk(ref x) => { v.push(b'['); spell(x, v); v.push(b']') }
      _ => v.push(b'@'),
    }
    v.push(b' ');
  }
}

// the grammar read by the compiler is the one the manual describes
#[cfg(feature = "internals")]
fn read_is(ts: TokenStream, toks: &[Tok]) {
  expect(false);
  let got = front(ts);
  let want = read(toks);
  match (got, want) {
    (None, Err(())) => sym::reach("malformed"),
    (Some(_), Err(())) => sym::check(false, "a malformed grammar is rejected"),
    (None, Ok(_)) => sym::check(false, "a well-formed grammar is read"),
    (Some(g), Ok(w)) => {
      sym::reach("well formed");
      sym::check(g.rules.len() == w.rules.len(), "number of rules");
      sym::check(g.rust_items.len() == w.items.len(), "number of Rust items");
      if g.rules.len() != w.rules.len() { return }
      for (it, &k) in g.rust_items.iter().zip(w.items.iter()) {
        let (mut a, mut b) = (vec![], vec![]);
        flat(::quote::ToTokens::into_token_stream(it), &mut a);
        flat(tokens(ITEMS[k]), &mut b);
        sym::check(a == b, "a Rust item is kept as it is written");
      }
      for (r, q) in g.rules.iter().zip(w.rules.iter()) {
        sym::check(r.name.to_string() == q.0, "name of a rule");
        sym::check(expr(&g, r.expr_idx) == q.1, "the body of a rule is read with the documented precedence");
      }
    }
  }
}
#[cfg(feature = "internals")]
fn expr(g: &::oaklib::front::ast::FGrammar, i: usize) -> E {
  use oaklib::ast::Expression::*;
  use oaklib::middle::typing::ast::{IType, Type};
  fn text<X: ::quote::ToTokens>(x: X) -> String { let mut f = vec![]; flat(::quote::ToTokens::into_token_stream(x), &mut f); f.concat() }
  let all = |v: Vec<usize>| -> Vec<E> { v.into_iter().map(|j| expr(g, j)).collect() };
  let one = |j: usize| -> Box<E> { Box::new(expr(g, j)) };
  match g.exprs[i].clone() {
    StrLiteral(s) => E::Lit(s),
    AnySingleChar => E::Any,
    CharacterClass(c) => E::Cls(c.intervals.iter().map(|i| (i.lo, i.hi)).collect()),
    NonTerminalSymbol(n) => E::Call(n.to_string()),
    ExternalNonTerminalSymbol(p) => E::Call(text(p)),
    Sequence(v) => E::Seq(all(v)),
    Choice(v) => E::Cho(all(v)),
    ZeroOrMore(x) => E::Star(one(x)),
    OneOrMore(x) => E::Plus(one(x)),
    ZeroOrOne(x) => E::Opt(one(x)),
    NotPredicate(x) => E::Not(one(x)),
    AndPredicate(x) => E::And(one(x)),
    SemanticAction(x, b, f) => E::Act(one(x), b, text(f)),
    TypeAscription(x, t) => E::Asc(one(x), match t { IType::Regular(Type::Unit) => Asc::Unit, IType::Invisible => Asc::Invis, IType::Regular(Type::Rust(t)) => Asc::Rust(text(t)), _ => Asc::Rust("?".to_string()) }),
    SpannedExpr(x) => E::Span(one(x)),
    RangeExpr(x) => E::Range(match g.exprs[x].clone() { TypeAscription(y, IType::Regular(Type::Unit)) => one(y), _ => one(x) }),
  }
}
// without the internals: the same code is generated for the fully parenthesized grammar
#[cfg(not(feature = "internals"))]
fn read_is(ts: TokenStream, toks: &[Tok]) {
  use proc_macro2::diag;
  expect(true);
  sym::allow_panic(true);
  let want = read(toks);
  let got = full(ts);
  match (got, want) {
    (None, Err(())) => sym::reach("malformed"),
    (Some(_), Err(())) => sym::check(false, "a malformed grammar is rejected"),
    (None, Ok(_)) => sym::check(false, "a well-formed grammar is read"),
    (Some(g), Ok(w)) => {
      sym::reach("well formed");
      if diag::errors() > 0 || !w.items.is_empty() { return }
      let mut s = String::new();
      for r in &w.rules { s.push_str(&format!("{} = {} ", r.0, canon(&r.1))) }
      let h = full(tokens(&s));
      sym::check(h.is_some() && h.unwrap() == g, "the body of a rule is read with the documented precedence");
    }
  }
}
#[cfg(not(feature = "internals"))]
fn canon(e: &E) -> String {
  let all = |v: &Vec<E>, by: &str| -> String { let w: Vec<String> = v.iter().map(canon).collect(); format!("({})", w.join(by)) };
  match *e {
    E::Lit(ref s) => format!("\"{}\"", s),
    E::Any => ".".to_string(),
    E::Cls(ref v) => { let w: Vec<String> = v.iter().map(|x| if x.0 == x.1 { x.0.to_string() } else { format!("{}-{}", x.0, x.1) }).collect(); format!("[\"{}\"]", w.concat()) }
    E::Call(ref n) => n.clone(),
    E::Seq(ref v) => all(v, " "), E::Cho(ref v) => all(v, " / "),
    E::Star(ref x) => format!("({}*)", canon(x)), E::Plus(ref x) => format!("({}+)", canon(x)), E::Opt(ref x) => format!("({}?)", canon(x)),
    E::Not(ref x) => format!("(!{})", canon(x)), E::And(ref x) => format!("(&{})", canon(x)),
    E::Act(ref x, b, ref f) => format!("({} > {}{})", canon(x), if b { "box " } else { "" }, f),
    E::Asc(ref x, ref t) => format!("({} : {})", canon(x), match *t { Asc::Unit => "()".to_string(), Asc::Invis => "(^)".to_string(), Asc::Rust(ref s) => s.clone() }),
    E::Span(ref x) => format!("(.. {})", canon(x)), E::Range(ref x) => format!("(... {})", canon(x)),
  }
}
