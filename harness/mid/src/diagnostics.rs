// C20: what the compiler says about a grammar is true of the expression it points at.
use common::*;
use proc_macro2::{diag, TokenStream};
use reference::*;
use sym;

// The grammar printed in one way, with the extent of every expression, rule name, function and attribute.
struct Ctx { g: &'static G, an: An<'static>, base: usize, nodes: Vec<(usize, usize, &'static E)>, names: Vec<(usize, usize)>, funs: Vec<(usize, usize, String, bool)>, attrs: Vec<(usize, usize, bool)>, text: Option<Vec<u8>>, chains: Vec<(usize, usize)>, loops: bool, ignored: Vec<(usize, usize)> }
static mut CTX: Option<&'static mut Ctx> = None;
fn ctx() -> &'static mut Ctx { unsafe { match *(::std::ptr::addr_of_mut!(CTX)) { Some(ref mut c) => c, None => panic!("harness: no context") } } }

fn level(e: &E) -> usize { match *e { E::Cho(_) => 0, E::Act(..) => 1, E::Span(_) | E::Range(_) => 2, E::Seq(_) => 3, E::Asc(_, Asc::Rust(_)) => 0, E::Asc(..) => 4, E::Not(_) | E::And(_) => 5, E::Star(_) | E::Plus(_) | E::Opt(_) => 6, _ => 7 } }
fn put(e: &'static E, min: usize, s: &mut String, out: &mut Vec<(usize, usize, &'static E)>) {
  let par = level(e) < min;
  if par { s.push('('); }
  let lo = s.len();
  match *e {
    E::Lit(ref l) => { s.push('"'); s.push_str(l); s.push('"'); }
    E::Any => s.push('.'),
    E::Cls(ref v) => { s.push_str("[\""); for &(a, b) in v { s.push(a); if a != b { s.push('-'); s.push(b) } } s.push_str("\"]"); }
    E::Call(ref n) => s.push_str(n),
    E::Seq(ref v) => for (i, x) in v.iter().enumerate() { if i > 0 { s.push(' ') } put(x, 4, s, out) },
    E::Cho(ref v) => for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(" / ") } put(x, 1, s, out) },
    E::Star(ref x) => { put(x, 7, s, out); s.push('*') }
    E::Plus(ref x) => { put(x, 7, s, out); s.push('+') }
    E::Opt(ref x) => { put(x, 7, s, out); s.push('?') }
    E::Not(ref x) => { s.push('!'); put(x, 6, s, out) }
    E::And(ref x) => { s.push('&'); put(x, 6, s, out) }
    E::Act(ref x, b, ref f) => { put(x, 2, s, out); s.push_str(if b { " > box " } else { " > " }); s.push_str(f) }
    E::Asc(ref x, Asc::Unit) => { put(x, 5, s, out); s.push_str(":()") }
    E::Asc(ref x, Asc::Invis) => { put(x, 5, s, out); s.push_str(":(^)") }
    E::Asc(ref x, Asc::Rust(ref t)) => { put(x, 5, s, out); s.push(':'); s.push_str(t) }
    E::Span(ref x) => { s.push_str(".. "); put(x, 3, s, out) }
    E::Range(ref x) => { s.push_str("... "); put(x, 3, s, out) }
  }
  out.push((lo, s.len(), e));
  if par { s.push(')'); }
}

// ---- where ----
fn rel(s: diag::Span) -> (usize, usize) { if s.hi == 0 { (0, 0) } else { (s.lo - ctx().base, s.hi - ctx().base) } }
fn inside(s: (usize, usize), lo: usize, hi: usize) -> bool { s.1 > 0 && lo <= s.0 && s.1 <= hi }
// the smallest expression around the span
fn node(s: diag::Span) -> Option<&'static E> {
  let s = rel(s);
  let mut best: Option<(usize, &'static E)> = None;
  for &(lo, hi, e) in &ctx().nodes { if inside(s, lo, hi) && best.map_or(true, |b| hi - lo < b.0) { best = Some((hi - lo, e)) } }
  best.map(|b| b.1)
}
fn name_at(s: diag::Span) -> Option<usize> { let s = rel(s); ctx().names.iter().position(|n| inside(s, n.0, n.1)) }
fn branch_at(v: &'static Vec<E>, s: diag::Span) -> Option<usize> {
  let s = rel(s);
  v.iter().position(|b| ctx().nodes.iter().any(|&(lo, hi, e)| e as *const E == b as *const E && inside(s, lo, hi)))
}

// ---- what it means to parse ----
fn ev(e: &E, t: &[u8], p: usize) -> Option<usize> {
  match *e {
    E::Lit(ref l) => { let mut q = p; for b in l.bytes() { if q >= t.len() || t[q] != b { return None } q += 1 } Some(q) }
    E::Any => if p < t.len() { Some(p + 1) } else { None },
    E::Cls(ref v) => if p < t.len() && v.iter().any(|&(a, b)| a as u32 <= t[p] as u32 && t[p] as u32 <= b as u32) { Some(p + 1) } else { None },
    E::Call(ref n) => match ctx().an.rule(n) { Some(i) => ev(&ctx().g.rules[i].1, t, p), None => { sym::assume(false); None } },
    E::Seq(ref v) => { let mut q = p; for x in v { match ev(x, t, q) { Some(r) => q = r, None => return None } } Some(q) }
    E::Cho(ref v) => { for x in v { if let Some(q) = ev(x, t, p) { return Some(q) } } None }
    E::Star(ref x) => Some(many(x, t, p)),
    E::Plus(ref x) => match ev(x, t, p) { Some(q) => Some(many(x, t, q)), None => None },
    E::Opt(ref x) => Some(ev(x, t, p).unwrap_or(p)),
    E::Not(ref x) => if ev(x, t, p).is_some() { None } else { Some(p) },
    E::And(ref x) => if ev(x, t, p).is_some() { Some(p) } else { None },
    E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => ev(x, t, p),
  }
}
fn many(e: &E, t: &[u8], mut p: usize) -> usize { loop { match ev(e, t, p) { Some(q) => { if q == p { return p } p = q } None => return p } } }
fn text() -> &'static Vec<u8> {
  let c = ctx();
  if c.text.is_none() { let n = slot(4); let mut v = vec![]; for _ in 0..n { let b = sym::u8(); sym::assume(b < 128); v.push(b) } c.text = Some(v) }
  ctx().text.as_ref().unwrap()
}

// ---- patterns such as `!(&e)` ----
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Not, And, Opt, Plus, Star }
fn ops(s: &str) -> Vec<Op> {
  // outermost first: the prefixes, then the suffixes from the right
  let mut v = vec![];
  let mut r: &str = s;
  loop {
    if r.starts_with('(') && r.ends_with(')') { r = &r[1..r.len() - 1] }
    else if r.starts_with('!') { v.push(Op::Not); r = &r[1..] }
    else if r.starts_with('&') { v.push(Op::And); r = &r[1..] }
    else if r.ends_with('?') { v.push(Op::Opt); r = &r[..r.len() - 1] }
    else if r.ends_with('+') { v.push(Op::Plus); r = &r[..r.len() - 1] }
    else if r.ends_with('*') { v.push(Op::Star); r = &r[..r.len() - 1] }
    else { return v }
  }
}
fn op(e: &E) -> Option<(Op, &E)> { match *e { E::Not(ref x) => Some((Op::Not, x)), E::And(ref x) => Some((Op::And, x)), E::Opt(ref x) => Some((Op::Opt, x)), E::Plus(ref x) => Some((Op::Plus, x)), E::Star(ref x) => Some((Op::Star, x)), _ => None } }
fn apply(o: Op, e: E) -> E { let b = Box::new(e); match o { Op::Not => E::Not(b), Op::And => E::And(b), Op::Opt => E::Opt(b), Op::Plus => E::Plus(b), Op::Star => E::Star(b) } }
// the `e` of the pattern in an expression
fn bind(e: &E, p: &[Op], depth: usize) -> Option<E> {
  if depth > 20 { return None }
  match *e {
    E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => return bind(x, p, depth + 1),
    _ => (),
  }
  if p.is_empty() { return Some(e.clone()) }
  match *e {
    E::Call(ref n) => ctx().an.rule(n).and_then(|i| bind(&ctx().g.rules[i].1, p, depth + 1)),
    E::Cho(ref v) => { let mut bs = vec![]; for x in v { match bind(x, p, depth + 1) { Some(b) => bs.push(b), None => return None } } Some(E::Cho(bs)) }
    _ => match op(e) { Some((o, x)) => if o == p[0] { bind(x, &p[1..], depth + 1) } else { None }, None => None },
  }
}
fn quoted(m: &str) -> Vec<String> { m.split('`').enumerate().filter(|x| x.0 % 2 == 1).map(|x| x.1.to_string()).collect() }

fn chain(d: &diag::Diagnostic) {
  let q = quoted(&d.message);
  sym::check(q.len() == 2, "the warning names a form and its replacement");
  let e = match node(d.span) { Some(e) => e, None => { sym::check(false, "the warning points at an expression"); return } };
  let (from, to) = (ops(&q[0]), ops(&q[1]));
  ctx().chains.push(rel(d.span));
  let b = match bind(e, &from, 0) { Some(b) => b, None => { sym::check(false, "the expression has the form the warning names"); return } };
  sym::reach("chain");
  let mut s = b;
  for o in to.iter().rev() { s = apply(*o, s) }
  let t = text();
  sym::check(ev(e, t, 0) == ev(&s, t, 0), "the expression is equivalent to the suggested one")
}

fn calls(e: &E, n: &str) -> bool {
  match *e {
    E::Call(ref m) => m == n,
    E::Seq(ref v) | E::Cho(ref v) => v.iter().any(|x| calls(x, n)),
    E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Not(ref x) | E::And(ref x) | E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => calls(x, n),
    _ => false,
  }
}
fn called(p: &Vec<usize>) -> bool { let r = &ctx().g.rules; p.windows(2).all(|w| calls(&r[w[0]].1, &r[w[1]].0)) }
// the rules of `a -> b -> a`
fn cycle(s: &str) -> Option<Vec<usize>> {
  let v: Vec<Option<usize>> = s.split(" -> ").map(|n| ctx().an.rule(n.trim())).collect();
  if v.len() < 2 || v[0] != v[v.len() - 1] || v.iter().any(|x| x.is_none()) { return None }
  Some(v.into_iter().map(|x| x.unwrap()).collect())
}

fn type_of(e: &E) -> Option<Ty> {
  let c = ctx();
  let n = c.g.rules.len();
  let funs: Vec<(&str, &str)> = c.funs.iter().map(|f| (&f.2[..], if f.3 { "()" } else { "X" })).collect();
  let mut t = Typer::new(c.g, &funs);
  let known = |t: &Typer, e: &E| { let mut row = vec![false; n]; t.deps(e, &mut row); (0..n).all(|j| !row[j] || t.env[j].is_some()) };
  for _ in 0..n { for i in 0..n { if t.env[i].is_none() && known(&t, &c.g.rules[i].1) { let r = t.ty(&c.g.rules[i].1); t.env[i] = r.ok() } } }
  if known(&t, e) { t.ty(e).ok() } else { None }
}
fn judge(d: &diag::Diagnostic) {
  let c = ctx();
  let m = &d.message[..];
  sym::log_str(m.as_bytes());
  if m.contains("unnecessary chaining") { chain(d) }
  else if m.contains("will never succeed") {
    sym::reach("never succeeds");
    match node(d.span) { Some(e) => sym::check(c.loops || !c.an.raw(e).succ, "the expression it points at can never succeed"), None => sym::check(false, "the error points at an expression") }
  }
  else if m.contains("always succeed without consuming") {
    sym::reach("idle");
    match node(d.span) { Some(e) => { let r = c.an.raw(e); sym::check(c.loops || r.succ && !r.fail && r.never, "the expression it points at always succeeds without consuming") } None => sym::check(false, "the error points at an expression") }
  }
  else if m.contains("Infinite loop") {
    sym::reach("loop");
    match node(d.span) { Some(&E::Star(ref x)) | Some(&E::Plus(ref x)) => { let b = c.an.attr(x); sym::check(c.loops || b.succ && !b.cons, "what is repeated may succeed without consuming") } _ => sym::check(false, "the error points at a repetition") }
    // the compiler goes on as if what is repeated consumed
    c.loops = true;
  }
  else if m.contains("Unreachable branch") {
    sym::reach("unreachable");
    match node(d.span) {
      Some(&E::Cho(ref v)) => {
        sym::check(d.children.len() > 0, "the branch which always succeeds is pointed at");
        match branch_at(v, d.children[0].0) { Some(i) => sym::check(i + 1 < v.len() && (c.loops || !c.an.attr(&v[i]).fail), "the branch it points at always succeeds, before others"), None => sym::check(false, "the note points at a branch") }
      }
      _ => sym::check(false, "the error points at a choice"),
    }
  }
  else if m.contains("Left-recursion") {
    sym::reach("left recursion");
    let n = name_at(d.span);
    sym::check(n.is_some(), "the error points at a rule");
    let p = m.lines().find(|l| l.starts_with("Detected cycle: ")).and_then(|l| cycle(&l[16..]));
    match p {
      Some(p) => {
        sym::check(Some(p[0]) == n, "the cycle starts at the rule the error points at");
        for w in p.windows(2) { let mut row = vec![false; c.g.rules.len()]; c.an.first(&c.g.rules[w[0]].1, &mut row); sym::check(row[w[1]], "every rule of the cycle may call the next one before any input is consumed") }
      }
      None => sym::check(false, "the error names a cycle of rules"),
    }
  }
  else if m.contains("duplicate definition of rule") {
    sym::reach("duplicate rules");
    let n = name_at(d.span);
    let q = quoted(m);
    sym::check(n.is_some() && d.children.len() > 0, "the error points at a rule and at another");
    let o = name_at(d.children[0].0);
    sym::check(o.is_some() && o.unwrap() < n.unwrap(), "the note points at an earlier rule");
    sym::check(q.len() == 1 && c.g.rules[n.unwrap()].0 == q[0] && c.g.rules[o.unwrap()].0 == q[0], "both rules have the name of the error");
  }
  else if m.contains("duplicate definition of rust function") {
    sym::reach("duplicate functions");
    let at = |s| { let s = rel(s); c.funs.iter().position(|f| inside(s, f.0, f.1)) };
    let n = at(d.span);
    let q = quoted(m);
    sym::check(n.is_some() && d.children.len() > 0, "the error points at a function and at another");
    let o = at(d.children[0].0);
    sym::check(o.is_some() && o.unwrap() < n.unwrap(), "the note points at an earlier function");
    sym::check(q.len() == 1 && c.funs[n.unwrap()].2 == q[0] && c.funs[o.unwrap()].2 == q[0], "both functions have the name of the error");
  }
  else if m.contains("Type mismatch between branches") {
    sym::reach("mismatch");
    match node(d.span) {
      Some(&E::Cho(ref v)) => {
        let mut i = 0;
        for ch in &d.children {
          if ch.1.starts_with("Types annotated") {
            let mut ls = ch.1.lines();
            ls.next();
            let ps: Vec<_> = ls.map(cycle).collect();
            sym::check(!ps.is_empty() && ps.iter().all(|p| match *p { Some(ref p) => called(p), None => false }), "the note names cycles of rules which call each other");
            sym::check(name_at(ch.0) == Some(ps[0].as_ref().unwrap()[0]), "the note points at the start of the cycle");
            sym::reach("cycle in a mismatch");
          }
          if !ch.1.starts_with("branch ") { continue }
          sym::check(branch_at(v, ch.0) == Some(i), "the note about a branch points at it");
          sym::check(ch.1.starts_with(&format!("branch {} ", i + 1)), "the note about a branch numbers it");
          // the type it shows, when it is known and not on a cycle
          let q = quoted(&ch.1);
          sym::check(q.len() == 1, "the note about a branch shows its type");
          if !q[0].contains('*') && !q[0].contains('_') { if let Some(t) = type_of(&v[i]) { if !external(&t) {
            sym::reach("branch type");
            let shown: String = q[0].replace("(^)", "()").chars().filter(|c| !c.is_whitespace()).collect();
            sym::check(shown == show(&t), "the note about a branch shows its type");
          } } }
          i += 1;
        }
        sym::check(i == v.len(), "every branch has its note");
      }
      _ => sym::check(false, "the error points at a choice"),
    }
  }
  else if m.contains("infinite recursive type") {
    sym::reach("recursive type");
    let n = name_at(d.span);
    sym::check(n.is_some(), "the warning points at a rule");
    let l = m.lines().next().unwrap();
    match l.rfind("`: ").and_then(|i| cycle(&l[i + 3..])) {
      Some(p) => { sym::check(called(&p), "every rule of the cycle calls the next one"); sym::check(Some(p[0]) == n, "the cycle starts at the rule the warning points at") }
      None => sym::check(false, "the warning names a cycle of rules"),
    }
  }
  else if m.contains("could not infer the type") { sym::reach("no type"); sym::check(name_at(d.span).is_some(), "the error points at a rule") }
  else if m.contains("semantic action with type unit") {
    sym::reach("unit action");
    match node(d.span) { Some(&E::Act(_, _, ref f)) => sym::check(c.funs.iter().any(|x| x.2 == *f && x.3), "the action it points at returns unit"), _ => sym::check(false, "the error points at an action") }
  }
  else if m.contains("unknown attribute") {
    sym::reach("attribute");
    let s = rel(d.span);
    c.ignored.push(s);
    sym::check(c.attrs.iter().any(|a| inside(s, a.0, a.1) && a.2), "the warning points at an attribute which is ignored")
  }
  else { sym::reach("not judged") }
}

// ---- grammars ----
const WO: &'static [&'static str] = &["", "*", "+", "?"];
fn shape(k: usize, part: usize) -> (String, &'static [(&'static str, &'static str)], String) {
  let mut t = T::new(part);
  let mut attrs = T::free();
  let mut items: &'static [(&'static str, &'static str)] = &[("f", "-> X { x }")];
  match k {
    // an operator over another one
    0 => { t.t("a = ").p(PRE).t("(").p(PRE).p(&["\"x\"", "(\"x\" \"y\")", "(\"x\" / \"y\")", "[\"u-w\"]"]).p(SUF).t(")").p(SUF).t(" \"y\""); }
    // with something in between
    1 => {
      let i: &[&str] = &["!\"x\"", "&\"x\"", "\"x\"?", "\"x\"+", "\"x\"*", "\"x\""];
      t.t("a = ").p(&["!(", "&(", "("]).p(i).p(&["", " \"z\"", " / \"z\"", " / !\"z\"", " / &\"z\"", " / \"y\"+", " > f", " .", " / \"xz\"+ / \"y\"+"]).t(")").p(SUF).t(" ").p(&["\"y\"", "."]);
    }
    2 => {
      let i: &[&str] = &["!\"x\"", "&\"x\"", "\"x\"?", "\"x\"+", "\"x\"*"];
      t.t("a = ").p(PRE).t("(").p(&["\"z\" ", "!\"z\" ", "&\"z\" ", "\"z\" / ", ".. ", "... ", ""]).t("(").p(i).p(&["", " \"z\"", " / \"z\""]).t(")").p(&["", ":()", ":(^)"]).t(")").p(SUF).t(" .");
    }
    // across rules
    3 => {
      let i: &[&str] = &["!\"x\"", "&\"x\"", "\"x\"?", "\"x\"+", "\"x\"*", "c", "!\"x\" \"y\"", "\"x\"+ / \"y\"+", "&\"x\" / &\"y\"", "&\"x\" / c"];
      t.t("a = ").p(PRE).p(&["b", "(b / \"z\")", "(b / &\"z\")", "(b / c)", "(b \"y\")"]).p(SUF).t(" \"y\" b = ").p(i).t(" c = ").p(&["\"w\"", "!\"w\"", "&\"w\"", "(\"w\"+)?", "\"w\"+"]);
    }
    // three operators
    4 => { t.t("a = ").p(PRE).t("(").p(PRE).t("(").p(PRE).t("\"x\"").p(SUF).t(")").p(SUF).t(")").p(SUF).t(" \"y\""); }
    // choices of what is chained
    5 => {
      let i: &[&str] = &["!\"x\"", "&\"x\"", "\"xz\"+", "\"x\"*", "\"x\""];
      let j: &[&str] = &["!\"y\"", "&\"y\"", "\"y\"+", "\"x\"+", "\"y\"", "\"y\"*", "\"y\"?"];
      t.t("a = ").p(PRE).t("(").p(i).p(&[" / ", " / \"k\"+ / ", " / &\"k\" / ", " "]).p(j).t(")").p(SUF).t(" \"w\"");
    }
    // flaws in the middle of others
    6 => { t.t("a = \"k\" ").pas(PRE, &["\"x\"", "\"\"", "(\"x\" / \"\")", "(!\"\" / \"y\")"], SUF).p(&["", "/ \"\" "]).pas(&["", "!"], &["\"x\"", "\"\"", "(\"x\"? \"y\"*)", "(\"x\"? / \"y\")"], SUF).p(&["", "/ "]).t("\"z\""); }
    7 => { t.t("a = \"k\" / ").p(PRE).t("(").p(&["\"x\" ", ""]).pas(PRE, &["\"x\"", "\"\"", "(!. .)"], SUF).p(&["", "/ ", "/ \"\" / "]).pas(&[""], &["\"y\"", "\"\""], &["", "?"]).t(")").p(&["", "*", "?"]).p(&["", " > f", " / \"l\""]); }
    // left recursion, in every order
    8 => { let o = t.part_order(&["a", "b", "c"]); for n in o { t.t(&format!("{} = ", n)).p(if n == "a" { &["\"x\"?", "\"x\"", "!\"x\""] } else { &["\"x\"?", "\"x\""] }).t(" ").p(&["a", "b", "c", "\"y\""]).p(if n == "c" { &[""] } else { &["", " / c"] }).t("\n"); } }
    9 => { for n in &["a", "b", "c", "d"] { t.t(n).t(" = ").p(if *n == "a" { &["b", "\"x\" b", "c"] } else { &["", "\"x\" ", "\"x\"? "] }).t(" ").p(if *n == "d" { &["b", "a", "\"z\""] } else if *n == "c" { &["d", "\"u\" / a"] } else { &["c", "\"u\" / b?", "d"] }).t("\n"); } }
    // duplicates
    10 => { items = &[("f", "-> X { x }"), ("g", "{}"), ("f", "-> X { y }"), ("h", "-> () {}"), ("g", "-> X { x }")]; t.p(&["a", "b"]).t(" = \"x\" \n").p(&["a", "b", "c"]).t(" = \"y\" \n").p(&["a", "b", "c"]).t(" = \"z\" \n").p(&["a", "b", "d"]).t(" = \"w\" > f"); }
    // attributes
    11 => { t.t("a = ").p(&["\"x\"", "\"x\" b", "(\"x\"+)+"]).t(" b = \"y\""); attrs.p(&["", "#![show_typing]\n", "#![foo]\n"]).p(&["", "#![debug_typing]\n", "#![bar]\n", "#![x::show_typing]\n"]).p(&["", "#![show_typings]\n", "#![foo(show_typing)]\n", "#![show_typing]\n"]); }
    // types
    12 => { items = &[("f", "-> X { x }"), ("g", "{}"), ("h", "-> () {}")]; t.t("a = ").p(&[".", "\"x\"", "\"x\":()", "(. > f)", ". ."]).p(&["", "*", "?"]).p(&["", " > f", " > g", " > h"]).t(" / ").p(&["(\"y\" / . \"z\")", ".", "\"y\"", "\"y\":()", "(. > f)", "(. / \"y\":())", "\"y\" .*"]).p(&["", " / \"z\"", " / . .", " / \"z\" > g", " / (. / . .) \"m\""]); }
    13 => { t.t("a = ").p(&["", "\"k\" a / "]).p(&["\"k\"", ".", "\"k\":()"]).t(" ").p(&["a", "a?", "a*", "b", "a a", "(a / \"m\")", "(b / .)", "!a"]).p(&["", " / \"y\"", " / .", " / \"y\":()", " / . .", " / (. > f)"]).t(" b = ").p(&["\"l\" a", "\"l\"", "e::q", "\"l\" b", ". a?"]).p(&["", " / .", " / \"n\""]); }
    14 => { let o = t.part_order(&["a", "b", "c"]); for r in o { t.t(&format!("{} = ", r)); match r.as_str() { "a" => t.p(&["\"k\" b", "\"k\" c", ". b", "\"k\" b?"]).p(&["", " / \"y\"", " / ."]), "b" => t.p(&["\"l\" c", "\"l\" a", "\"l\" c a"]).p(&["", " / \"z\"", " / ."]), _ => t.p(&["\"m\" a", "\"m\" b", ". a?", "\"m\""]).p(&["", " / \"n\"", " / ."]) }; t.t("\n"); } }
    15 => { t.t("a = ").p(&["e::q", "(. > w)", "\"x\""]).p(&["", "*", " > box f", ":()"]).p(&["", " .", " / \"y\"", " / .", " / b"]).t(" b = ").p(&["e::q", "\"z\"", "a", "(\"z\" > x::w)"]).p(&["", "?", "*", " > f"]); }
    // those of the other properties
    _ if k < 50 => return (super::wf::shape(k - 16, part), items, String::new()),
    _ => { items = &[("f", "-> X { x }"), ("g", "-> X { y }"), ("u", "{}"), ("v", "-> () {}")]; return (super::types::shape(k - 50, part).0, items, String::new()) }
  }
  (t.s, items, attrs.s)
}

pub fn run(k: usize, part: usize) {
  let (source, items, attrs) = shape(k, part);
  let g: &'static G = match reference(&source) { Ok(g) => Box::leak(Box::new(g)), Err(_) => { sym::assume(false); return } };
  let (mut s, mut nodes, mut names, mut funs, mut at) = (String::new(), vec![], vec![], vec![], vec![]);
  for l in attrs.lines() { let lo = s.len(); s.push_str(l); at.push((lo, s.len(), l != "#![show_typing]" && l != "#![debug_typing]")); s.push('\n'); }
  for r in &g.rules { let lo = s.len(); s.push_str(&r.0); names.push((lo, s.len())); s.push_str(" = "); put(&r.1, 0, &mut s, &mut nodes); s.push('\n'); }
  for f in items { let lo = s.len(); s.push_str(&format!("fn {}() {}", f.0, f.1)); funs.push((lo, s.len(), f.0.to_string(), !f.1.contains("X"))); s.push('\n'); }
  sym::tag(&s.replace('\n', "  "));
  let ts = tokens(&s);
  // where the text begins
  let first = ts.clone().into_iter().next().unwrap().span().offsets().0;
  let an = An::new(g);
  let bad = an.wf.bad();
  // what the rules of a left recursion do is not defined
  let loops = an.wf.left_rec;
  unsafe { CTX = Some(Box::leak(Box::new(Ctx { g: g, an: an, base: first, nodes: nodes, names: names, funs: funs, attrs: at, text: None, chains: vec![], loops: loops, ignored: vec![] }))) }
  expect(true);
  diag::judge(Some(judge));
  let ok = accepted(ts);
  diag::judge(None);
  sym::check(ok.is_some(), "the text is a grammar");
  if diag::errors() > 0 || bad { return }
  for a in &ctx().attrs { sym::check(!a.2 || ctx().ignored.iter().any(|s| inside(*s, a.0, a.1)), "an attribute which is ignored is warned about") }
  // a chain which is written out is warned about
  for r in 0..g.rules.len() {
    let (lo, hi) = (ctx().names[r].0, ctx().names.get(r + 1).map_or(usize::max_value(), |n| n.0));
    if chained(&g.rules[r].1) { sym::reach("written out"); sym::check(ctx().chains.iter().any(|c| inside(*c, lo, hi)), "a useless chain is warned about") }
  }
}
fn chained(e: &E) -> bool {
  if let Some((o, x)) = op(e) {
    if let Some((i, _)) = op(x) {
      match (o, i) { (Op::Not, Op::Not) | (Op::Not, Op::And) | (Op::And, Op::Not) | (Op::And, Op::And) | (Op::Opt, Op::Opt) | (Op::Opt, Op::Plus) | (Op::Opt, Op::Star) | (Op::Plus, Op::Plus) | (Op::Star, Op::Plus) => return true, _ => () }
    }
    return chained(x)
  }
  match *e {
    E::Seq(ref v) | E::Cho(ref v) => v.iter().any(chained),
    E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => chained(x),
    _ => false,
  }
}
#[cfg(feature = "internals")]
fn accepted(ts: TokenStream) -> Option<()> { match mid(ts) { Out::Syntax => None, Out::Typed(_) => Some(()) } }
#[cfg(not(feature = "internals"))]
fn accepted(ts: TokenStream) -> Option<()> { full(ts).map(|_| ()) }

// ---- malformed texts: the rule an error names is the one it is in ----
struct Malformed { rules: Vec<(String, usize, usize)>, which: usize, base: usize }
static mut MALFORMED: Option<&'static Malformed> = None;
fn judge_syntax(d: &diag::Diagnostic) {
  let m = unsafe { match *(::std::ptr::addr_of!(MALFORMED)) { Some(m) => m, None => return } };
  sym::log_str(d.message.as_bytes());
  let i = match d.message.find("(in rule ") { Some(i) => i, None => return };
  sym::reach("syntax");
  let n: String = d.message[i + 9..].chars().filter(|c| *c != '`').take_while(|c| *c != ')').collect();
  let r = &m.rules[m.which];
  sym::check(n == r.0, "the error names the rule which is malformed");
  // the first token after the rule may be where something is missing
  let s = (d.span.lo - m.base, d.span.hi - m.base);
  sym::check(d.span.hi > 0, "the error has a place");
  let end = m.rules.get(m.which + 1).map_or(r.2, |x| x.1 + x.0.len());
  sym::check(r.1 <= s.0 && s.1 <= end, "the error points into the malformed rule")
}
pub fn syntax_run(k: usize, which: usize) {
  let mut t = T::free();
  match k {
    0 => { t.p(&["", "\"x\" ", "\"x\" / ", ".. ", "!\"x\" ", "(\"x\") "]).p(&["!", "&", "()", "!!\"x\"", ".. \"x\"", "... \"x\" b", "/ \"y\"", "[\"\"]", "[x]", "[\"a--\"]", "[\"-\"]", "[\"-a-z-\"]", "[\"a-z-c\"]", "[\"--a\"]", ":T", ":()", "!:()", "(\"x\" /)", "(.. ) ", "(& )"]).p(&["", " \"z\"", " / \"z\"", " > f"]); }
    _ => { t.p(&["(", "!(", "(\"x\" ("]).p(&["!", "\"y\" &", "\"y\" / ", "\"y\" .. .", "\"y\" :(^) ()", "[\"a-\" ]", "[\"\"]", "[\"b-a--\"]", "\"y\" > f /"]).t(")").p(&["*", "", ":()"]); if t.s.starts_with("(\"x\" (") { t.t(")"); } }
  }
  let mut s = String::new();
  let mut rules = vec![];
  for (i, n) in ["a", "bc", "d"].iter().enumerate() {
    let lo = s.len();
    s.push_str(n); s.push_str(" = ");
    if i == which { s.push_str(&t.s) } else { s.push_str(if i == 0 { "\"k\" bc" } else { ". d?" }) }
    rules.push((n.to_string(), lo, s.len()));
    s.push('\n');
  }
  sym::tag(&s.replace('\n', "  "));
  let ts = tokens(&s);
  let first = ts.clone().into_iter().next().unwrap().span().offsets().0;
  unsafe { MALFORMED = Some(Box::leak(Box::new(Malformed { rules: rules, which: which, base: first }))) }
  expect(true);
  diag::judge(Some(judge_syntax));
  let _ = full(ts);
  diag::judge(None)
}
