// C15: the types of the parsers.
use common::*;
use reference::*;
use proc_macro2::diag;
use sym;

pub fn shape(k: usize, part: usize) -> (String, &'static str) {
  let mut t = T::new(part);
  let w: &[&str] = &["", "*", "?"];
  let items = "fn f() -> X { x } fn g() -> X { y } fn u() {} fn v() -> () {}";
  let at: &[&str] = &["\"x\"", ".", "(\"x\":())", "(\".\" > f)"];
  match k {
    // sequences and repetitions
    0 => { t.t("a = ").p(at).p(w).t(" ").p(at).p(w).t(" ").p(at).p(w); }
    1 => { t.t("a = ((").p(at).p(w).t(" ").p(at).t(")").p(w).t(" ").p(at).p(w).t(")").p(w); }
    // choices
    2 => { t.t("a = ").p(at).p(w).t(" / ").p(at).p(w).t(" / ").p(at).p(w); }
    3 => { t.t("a = (").p(at).t(" ").p(at).p(w).t(" / ").p(at).t(" ").p(at).p(w).t(")").p(w); }
    4 => { t.t("a = (").p(at).t(" / ").p(at).t(")").p(w).t(" (").p(at).t(" / ").p(at).t(")").p(w); }
    // what discards, and what encloses
    5 => { t.t("a = ").p(&["", ".. ", "... ", "!", "&"]).t("(").p(at).p(w).t(" ").p(&[".", "\"y\""]).t(")").p(&["", "?", "*"]).p(&["", ":()", ":(^)"]).p(&["", " > f", " > box f", " > u", " > w", " > x::w", " > v"]); }
    6 => { t.t("a = (").p(&["", ".. ", "... "]).p(at).t(" ").p(&["\"y\"", "."]).t(")").p(w).t(" ").p(at).p(&["", " > f", " > g", " > box f"]); }
    7 => { t.t("a = (").p(&[".", "\"x\"", "(\".\" > f)", "e::q", "(e::q:X)"]).p(&["", "*", "?"]).p(&["", " > g", " > box g", " > w"]).t(")").p(&["", ":()", ":(^)", ":X"]).t(" ").p(&["", "\"y\"", ". "]).t("/ ").p(&[".", "\"x\"", "(\".\" > f)", "e::q", "\"x\":()"]); }
    // external rules
    8 => { t.p(&["a", "a: X", "a: ()", "a: (^)"]).t(" = ").p(&["e::q", "\"x\"", "(\".\" > w)"]).p(w).p(&[" ", " / "]).p(&["e::q", "\"x\"", ".", "(\".\" > f)"]).p(w); }
    9 => { t.t("b = ").p(&["e::q", "(e::q:X)", "\"x\"", "."]).p(&["", "?"]).t(" a = ").p(&["b", "(b:X)", "(b:())", "!b", "(b > f)"]).p(w).t(" ").p(&["b", "\"y\"", "e::q"]).p(w); }
    // calls, in every order of declaration
    10 => { let o = t.part_order(&["a", "b", "c"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["b", ".", "\"x\""]).p(w).t(" ").p(&["c", "b?"]), "b" => t.p(&["c", "\"x\":()"]).p(w).t(" ").p(&["c", "\"z\""]), _ => t.p(&["\"x\"", ".", ". ."]) }; t.t("\n"); } }
    11 => { let o = t.part_order(&["a", "b"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["b", "\"x\" b", ". b"]).p(w).t(" / ").p(&["b", "\"y\"", ".", "\"y\":()"]), _ => t.p(&["\"x\"", ".", "\"y\":()", ".*", ". ."]).t(" / ").p(&["\"x\"", ".", "\"z\":()"]) }; t.t("\n"); } }
    // recursion: one rule
    12 => { t.t("a = ").p(&["", "\"k\" a / "]).p(&["\"k\"", ".", "\"k\":()"]).t(" ").p(&["a", "a?", "a*", "\"l\"", "a a", "(a / \"m\")", "a:(^)", "!a"]).p(&["", " / \"y\"", " / .", " / \"y\":()", " / . .", " / (. > f)"]).t(" s = ").p(&["a", ".", "\"p\""]).t(" ").p(&["a?", "a", ".", "\"q\""]); }
    // recursion: two rules, and one outside of the cycle, in every order
    13 => { let o = t.part_order(&["a", "b", "s"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["\"k\"", "."]).t(" ").p(&["b", "b?", "b*", "b:(^)"]).p(&["", " / \"y\"", " / ."]), "b" => t.p(&["\"l\"", "[\"c-d\"]"]).t(" ").p(&["a", "a?", "(a / \"m\")"]).p(&["", " / \"z\"", " / ."]), _ => t.p(&["a .", "b? .", "a b", ". b*"]) }; t.t("\n"); } }
    14 => { let o = t.part_order(&["a", "b", "s"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["", "\"i\" a / "]).t("\"k\" b").p(&["", " / \"y\"", " / .", " / \"k\" a"]), "b" => t.p(&["", "\"j\" b / ", "\"j\" a b / "]).t("\"l\" a").p(&["", " / \"z\"", " / .", " / \"z\":()"]), _ => t.p(&["a", "\"o\" b", "."]).t(" ").p(&["b", "a?", "."]) }; t.t("\n"); } }
    // recursion: three rules
    15 => { let o = t.part_order(&["a", "b", "c"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["\"k\" b", "\"k\" c", ". b", "\"k\" b?"]).p(&["", " / \"y\"", " / ."]), "b" => t.p(&["\"l\" c", "\"l\" a", "\"l\" c a"]).p(&["", " / \"z\"", " / ."]), _ => t.p(&["\"m\" a", "\"m\" b", ". a?", "\"m\""]).p(&["", " / \"n\"", " / ."]) }; t.t("\n"); } }
    16 => { let o = t.part_order(&["a", "b", "c"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => { t.p(&["b", ".", "\"x\""]).p(w).t(" ").p(&["c", "b", "\"x\""]).p(w) } "b" => t.p(&["c", "\"x\":()", "."]).p(w).t(" ").p(&["c", "\"z\""]), _ => t.p(&["\"x\"", ".", "\"y\":()", ". ."]) }; t.t("\n"); } }
    // actions at the end of paths that look like the functions of the grammar
    17 => { t.p(&["a", "a: X", "a: ()", "a: Z"]).t(" = ").p(&[".", "\"x\""]).p(&[" > x::f", " > f", " > f::x", " > x::u", " > box x::f", " > F", " > x::g::f", " > ::f", " > X::f"]).p(&["", " / . . > f", " / \"z\" > x::g", " / \"z\" > g"]); }
    // choices and lists of lists
    18 => { let l: &[&str] = &[".*", "(\"x\":())*", "(. .)*", "(.* \"q\")+", "(. > f)*", ".?", "(.? \"q\")+", "(. .*)", ".+", "(. \"y\"?:())*"]; t.t("a = \"k\" ").p(l).t(" \"m\" / \"l\" ").p(l).p(&[" \"m\"", " .", ""]); }
    // unit lists in the middle of larger grammars
    19 => { let o = t.part_order(&["a", "b"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["b", "b*", "(b \"x\")+", ".. b", "(b:())?", "(b:(^))*"]).t(" ").p(&[".", "\"y\"", "b?", ".*"]).t(" \"k\""), _ => t.p(&["\"l\"", ".:()", "(\"l\":())*", "(\"l\"*):()", "(\"l\" > u)", "(\"l\" > u)+", ".. \"l\"", "... .", "!\"m\" \"n\""]) }; t.t("\n"); } }
    _ => unreachable!(),
  }
  (t.s, items)
}
const FUNS: &'static [(&'static str, &'static str)] = &[("f", "X"), ("g", "X"), ("u", "()"), ("v", "()")];

// fast: up to the inferred types; otherwise the whole compiler
pub fn run(k: usize, part: usize, fast: bool) {
  let (text, items) = shape(k, part);
  sym::tag(&text);
  let g = match reference(&text) { Ok(g) => g, Err(_) => { sym::assume(false); return } };
  sym::assume(!An::new(&g).wf.bad());
  let v = Typer::new(&g, FUNS).solve(None);
  match v { Verdict::Murky => sym::assume(false), _ => () }
  let may = match v { Verdict::Accept(_) => false, _ => true };
  expect(may);
  sym::reach(match v { Verdict::Accept(_) => "typed", Verdict::Reject => "rejected", _ => "rejected or cut" });
  let names: Vec<String> = g.rules.iter().map(|r| r.0.clone()).collect();
  let got = signatures(tokens(&format!("{} {}", text, items)), &names, fast);
  if diag::errors() > 0 { sym::check(may, "a well-typed grammar is accepted"); return }
  let got = match got { None => { sym::check(false, "the text is a grammar"); return } Some(v) => v };
  sym::check(v != Verdict::Reject, "an ill-typed grammar is rejected");
  let want = match Typer::new(&g, FUNS).solve(Some(&got)) { Verdict::Accept(w) => w, _ => { sym::check(false, "an ill-typed grammar is rejected"); return } };
  for i in 0..got.len() { sym::check(got[i] == show(&want[i]), "the parser of a rule has the documented type") }
}
#[cfg(feature = "internals")]
fn signatures(ts: ::proc_macro2::TokenStream, names: &Vec<String>, fast: bool) -> Option<Vec<String>> {
  if !fast { return whole(ts, names) }
  match mid(ts) { Out::Syntax => None, Out::Typed(tg) => {
    let mut v = vec![];
    for n in names { for r in &tg.rules { if r.name.to_string() == *n { let ty = ::oaklib::back::compiler::rtype::TypeCompiler::compile(&tg, r.expr_idx); let mut f = vec![]; flat(::quote::ToTokens::into_token_stream(ty), &mut f); v.push(f.concat()) } } }
    Some(v)
  } }
}
#[cfg(not(feature = "internals"))]
fn signatures(ts: ::proc_macro2::TokenStream, names: &Vec<String>, _fast: bool) -> Option<Vec<String>> { whole(ts, names) }
fn whole(ts: ::proc_macro2::TokenStream, names: &Vec<String>) -> Option<Vec<String>> {
  let v = match full(ts) { None => return None, Some(v) => v };
  let mut r = vec![];
  for n in names { match return_type(&v, &format!("parse_{}", n)) { Some(t) => r.push(t), None => { sym::check(false, "every rule has its parser"); return None } } }
  Some(r)
}
