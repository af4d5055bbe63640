// C12 and C13: which grammars the analyses accept.
use common::*;
use reference::*;
use sym;

pub fn shape(k: usize, part: usize) -> String {
  let mut t = T::new(part);
  let w: &[&str] = &["", "*", "?", "+"];
  match k {
    // one rule, every pair of operators
    0 => { t.t("a = "); for _ in 0..2 { t.pas(PRE, &["\"x\"", "\"\"", "."], SUF); } }
    1 => { t.t("a = ").pas(PRE, &["\"x\"", "\"\"", "[\"b-d\"]"], SUF).t("/ ").pas(PRE, &["\"x\"", "\"\"", "e::q:(^)"], &["", "*", "?"]).t("/ ").pas(&[""], &["\"x\"", "\"\""], w); }
    2 => { t.t("a = ").p(PRE).t("(").pas(PRE, &["\"x\"", "\"\""], SUF).pas(PRE, &["\"x\"", "\"\""], SUF).t(")").p(SUF); }
    3 => { t.t("a = ").p(PRE).t("(").pas(PRE, &["\"x\"", "\"\""], SUF).t("/ ").pas(PRE, &["\"x\"", "\"\""], SUF).t(")").p(SUF).t(" \"y\""); }
    4 => { t.t("a = ((").p(&["\"x\"", "\"\""]).p(w).t(" / ").p(&["\"x\"", "\"\""]).p(w).t(")").p(w).t(" ").p(&["\"x\"", "\"\"", "!\"z\""]).t(")").p(w).t(" / \"y\""); }
    // one recursive rule
    5 => { t.t("a = ").pas(PRE, &["a", "\"x\"", "\"\""], SUF).pas(PRE, &["a", "\"x\"", "\"\""], SUF).t("/ \"y\""); }
    6 => { t.t("a = \"y\" / ").p(PRE).t("(").pas(PRE, &["a", "\"x\""], SUF).p(&["", "/ "]).pas(&["", "!"], &["a", "\"x\"", "\"\""], w).t(")").p(w).t(" a"); }
    // two rules
    7 => { let at = &["a", "b", "\"x\""]; let su = &["", "*", "?"]; t.t("a = ").pas(&[""], at, su).pas(&[""], at, su).t("/ \"y\" b = ").pas(&[""], at, su).pas(&[""], at, su).t("/ \"z\""); }
    8 => { let at = &["b", "\"x\"", "a"]; t.t("a = ").pas(PRE, at, &[""]).pas(PRE, at, &[""]).t("/ \"y\" b = ").pas(PRE, at, &[""]).pas(PRE, at, &[""]).t("/ \"z\""); }
    9 => { let at = &["a", "b", "\"x\""]; let su = &["", "+", "?"]; t.t("b = ").pas(&[""], at, su).t("/ ").pas(&[""], at, su).t("a = ").pas(&[""], at, su).t("/ ").pas(&[""], at, su); }
    // three rules, in every order of calls
    10 => { for n in &["a = ", "b = ", "c = "] { t.t(n).p(&["\"x\"", "\"\"", "!\"x\""]).p(&["", "*", "?"]).t(" ").p(&["a", "b", "c", "\"y\""]).t("\n"); } }
    11 => { for n in &["c = ", "a = ", "b = "] { t.t(n).p(&["a", "b", "\"\"", "\"w\""]).p(if *n == "a = " { &[""] } else { &["", "?"] }).t(" ").p(&["a", "b", "c", "\"y\""]).t("\n"); } }
    12 => { for n in &["a = ", "b = ", "c = "] { t.t(n).p(&["a", "b", "c", "\"x\""]).p(&["/ ", ""]).t(" ").p(&["a", "b", "c", "\"y\""]).t("\n"); } }
    // what spans, ascriptions and actions wrap
    13 => { t.t("a = (").p(&["", ".. ", "... "]).p(&["\"x\"", "\"\"", "b", "a"]).p(&["", "?", "*"]).p(&["", ":(^)", ":()"]).p(&["", " > f"]).t("):() ").p(&["a", "b", "\"y\""]).t(" / \"z\" b = ").p(&["a", "\"w\"", "\"\""]).p(&["", ":()", ":(^)"]).t("\n"); }
    // four rules in a chain, any link may be skipped
    14 => { let l = &["\"x\"", "\"\"", "\"x\"?"]; t.t("a = ").p(l).t(" b b = ").p(l).t(" c c = ").p(l).t(" d d = ").p(&["\"x\"", "\"\"", "!\"x\""]).t(" ").p(&["a", "b", "c", "d", "\"y\""]); }
    // calls in the middle of choices and sequences, with what comes before
    15 => { t.t("a = ").pas(&[""], &["\"x\"", "b", "\"\""], &["", "*", "?"]).p(&["", "/ "]).pas(&[""], &["b", "a", "\"y\""], &["", "+"]).t("b = ").pas(&[""], &["\"u\"", "\"\"", "c", "a"], &["", "?"]).p(&["", "/ "]).pas(&[""], &["\"v\"", "c"], &["", "*"]).t("c = ").p(&["\"w\"", "a", "\"\""]).t(" / \"z\""); }
    // thorough: more operators at once
    16 => { let at = &["a", "b", "\"x\"", "\"\""]; t.t("a = ").pas(PRE, at, SUF).t("b = ").pas(PRE, at, SUF).p(&["", "/ "]).pas(PRE, &["a", "b", "\"x\""], SUF); }
    17 => { for n in &["a = ", "b = ", "c = "] { t.t(n).p(&["\"x\"", "\"\"", "a", "b", "c"]).p(&["", "*", "?"]).t(" ").p(&["", "/ "]).p(&["a", "b", "c", "\"y\""]).t("\n"); } }
    18 => { t.t("a = ").pas(PRE, &["\"x\"", "\"\""], SUF).p(&["", "/ "]).pas(PRE, &["\"x\"", "\"\""], SUF).p(&["", "/ "]).pas(PRE, &["\"x\"", "\"\""], SUF); }
    19 => { t.t("a = ").p(PRE).t("(").p(PRE).t("(").pas(PRE, &["\"x\"", "\"\""], SUF).p(&["", "/ "]).pas(PRE, &["\"x\"", "\"\""], SUF).t(")").p(SUF).p(&["", "/ "]).p(&["\"x\"", "\"\""]).t(")").p(SUF); }
    20 => { for n in &["a = ", "b = ", "c = ", "d = "] { t.t(n).p(&["\"x\"", "\"\"", "a", "c"]).p(&["", "?"]).t(" ").p(&["a", "b", "c", "d", "\"y\""]).t("\n"); } }
    21 => { for n in &["c = ", "a = ", "b = "] { t.t(n).p(&["a", "b", "c", "\"\"", "\"w\""]).p(&["", "?"]).t(" ").p(&["a", "b", "c", "\"y\""]).t("\n"); } }
    22 => { t.t("a = ").pas(&[""], &["\"x\"", "b", "\"\""], w).p(&["", "/ "]).pas(&[""], &["b", "a", "\"y\""], w).t("b = ").pas(&[""], &["\"u\"", "\"\"", "c", "a"], &["", "?"]).p(&["", "/ "]).pas(&[""], &["\"v\"", "c"], &["", "*"]).t("c = ").p(&["\"w\"", "a", "\"\""]).t(" / \"z\""); }
    // chains of operators: only worth a warning
    23 => { t.t("a = ").p(PRE).t("(").p(PRE).t("(").p(PRE).t("\"x\"").p(SUF).t(")").p(SUF).t(")").p(SUF).t(" \"y\""); }
    24 => { t.t("a = ").p(PRE).t("b").p(SUF).t(" \"y\" / \"z\" b = ").p(PRE).t("(").p(&["\"x\"", "c", "a", "\"u\" \"v\""]).p(SUF).t(")").p(SUF).t(" c = ").p(&["\"w\"", "!\"w\" .", "(\"w\"+)?", "b"]); }
    25 => { t.t("a = ").p(&["\"x\"", "\"\"", "!\"x\" .", "a"]).p(&["", " b", "?"]).t(" b = ").p(&["\"y\"", "a"]); }
    // what does not consume ends a choice of a recursive rule
    26 => { t.t("a = ").p(&["\"k\" ", "&\"k\" ", "", "(\"k\" / &\"h\") "]).pas(PRE, &["a", "\"x\""], SUF).p(&["\"c\"", "", "&\"c\""]).t(" / ").p(&["\"y\"", "&\"y\"", "!\"y\"", "\"y\"?", "&\"y\" a", "\"w\" a? / &\"y\""]); }
    27 => { t.t("a = ").p(&["\"k\" b", "\"k\" b*", "b \"k\"", "\"k\" b? / \"h\" a*", "\"k\" / b"]).p(&["", " / &\"y\"", " / \"y\"", " / b", " / !\"y\" \"m\"*"]).t(" b = ").p(&["\"l\" a", "\"l\" a*", "a \"l\"", "\"l\" a? / a", "\"l\" / &\"n\" a?"]).p(&["", " / &\"z\"", " / \"z\"", " / a", " / !\"z\""]); }
    28 => { let o = &["a", "b", "c"]; for n in o { t.t(n).t(" = ").p(&["\"x\" ", "&\"x\" "]).p(o).p(&["", "*", "?"]).p(&[" / &\"y\"", " / \"y\""]).t(" "); } }
    _ => unreachable!(),
  }
  t.s
}

pub fn run(prop: usize, k: usize, part: usize) {
  let text = shape(k, part);
  let items = if k == 13 { " fn f() -> X { X }" } else { "" };
  let mut attrs = T::free();
  if k == 25 { attrs.t("#![c]").p(&["", "#![foo]", "#![show_typing]", "#![debug_typing]", "#![a::b]", "#![foo(bar)]"]); }
  sym::tag(&format!("{}{}{}", attrs.s, text, items));
  let g = match reference(&text) { Ok(g) => g, Err(_) => { sym::assume(false); return } };
  let wf = { An::new(&g).wf };
  // the other property's matter
  if prop == 13 { sym::assume(!wf.looping()) }
  // types are another property's matter: grammars they reject are left out
  if !wf.bad() { let ok = match Typer::new(&g, &[("f", "X")]).solve(None) { Verdict::Accept(_) => true, _ => false }; sym::assume(ok) }
  let ts = tokens(&format!("{}{}{}", attrs.s, text, items));
  if prop == 12 {
    expect(wf.bad());
    if !wf.looping() { sym::allow_panic(true) }
    sym::reach(if wf.looping() { "looping" } else { "not looping" });
    match accepts(ts) { None => sym::check(wf.looping(), "accepted by the grammar of the notation"), Some(()) => sym::check(!wf.looping(), "a grammar that can loop is rejected") }
  }
  else {
    expect(wf.bad());
    sym::reach(if wf.never { "rejected: never succeeds" } else if wf.idle { "rejected: idle" } else if wf.unreach { "rejected: unreachable" } else { "accepted" });
    match accepts(ts) {
      None => sym::check(false, "the text is a grammar"),
      Some(()) => { sym::check(!wf.useless(), "a useless expression is rejected") }
    }
  }
}

#[cfg(feature = "internals")]
fn accepts(ts: ::proc_macro2::TokenStream) -> Option<()> { match mid(ts) { Out::Syntax => None, Out::Typed(_) => if ::proc_macro2::diag::errors() > 0 { panic!("rejected") } else { Some(()) } } }
#[cfg(not(feature = "internals"))]
fn accepts(ts: ::proc_macro2::TokenStream) -> Option<()> { match full(ts) { None => None, Some(_) => if ::proc_macro2::diag::errors() > 0 { panic!("rejected") } else { Some(()) } } }
