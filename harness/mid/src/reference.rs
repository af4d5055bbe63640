// An independent reading of the documented notation, typing and well-formedness rules.
use sym;

#[derive(Clone, Debug)]
pub enum Tok {
  P(u8, bool),            // punctuation (the character may be symbolic), joint with the next one
  Id(String),
  Lit(String),
  Par(Vec<Tok>),
  Brk(Vec<Tok>),
  Brc(Vec<Tok>),
  Item(usize),            // a complete Rust item, by number
}
use self::Tok::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Asc { Unit, Invis, Rust(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum E {
  Lit(String), Any, Cls(Vec<(char, char)>), Call(String),
  Seq(Vec<E>), Cho(Vec<E>), Star(Box<E>), Plus(Box<E>), Opt(Box<E>), Not(Box<E>), And(Box<E>),
  Act(Box<E>, bool, String), Asc(Box<E>, Asc), Span(Box<E>), Range(Box<E>),
}

pub struct G { pub rules: Vec<(String, E)>, pub items: Vec<usize> }

pub type R<T> = Result<T, ()>;

struct Rd<'a> { t: &'a [Tok], i: usize }

fn is_p(t: Option<&Tok>, c: u8) -> bool { match t { Some(&P(ch, _)) => ch == c, _ => false } }
fn is_jp(t: Option<&Tok>, c: u8) -> bool { match t { Some(&P(ch, j)) => j && ch == c, _ => false } }
fn reserved(s: &str) -> bool { match s { "box" | "fn" | "_" | "type" | "struct" | "enum" | "use" | "pub" | "as" | "let" => true, _ => false } }

impl<'a> Rd<'a> {
  fn new(t: &'a [Tok]) -> Rd<'a> { Rd { t: t, i: 0 } }
  fn at(&self, k: usize) -> Option<&Tok> { self.t.get(self.i + k) }
  fn end(&self) -> bool { self.i == self.t.len() }
  fn dots(&self) -> usize {
    // number of joined dots at the current position
    if !is_p(self.at(0), b'.') { return 0 }
    if !(is_jp(self.at(0), b'.') && is_p(self.at(1), b'.')) { return 1 }
    if !(is_jp(self.at(1), b'.') && is_p(self.at(2), b'.')) { return 2 }
    3
  }
  fn ident(&self, k: usize) -> Option<&str> { match self.at(k) { Some(&Id(ref s)) => if reserved(s) { None } else { Some(s) }, _ => None } }
  fn grammar(&mut self) -> R<G> {
    let mut g = G { rules: vec![], items: vec![] };
    while !self.end() {
      if self.lhs()? {
        let name = self.ident(0).unwrap().to_string();
        self.i += 1;
        let ty = if is_p(self.at(0), b':') { Some(self.ty()?) } else { None };
        self.i += 1; // =
        let e = self.choice()?;
        g.rules.push((name, match ty { Some(t) => E::Asc(Box::new(e), t), None => e }));
      }
      else if let Some(&Item(k)) = self.at(0) { g.items.push(k); self.i += 1; }
      else { return Err(()) }
    }
    Ok(g)
  }
  // `name =` or `name: type =`
  fn lhs(&mut self) -> R<bool> {
    if self.ident(0).is_none() { return Ok(false) }
    if is_p(self.at(1), b'=') { return Ok(true) }
    if !is_p(self.at(1), b':') || is_jp(self.at(1), b':') && is_p(self.at(2), b':') { return Ok(false) }
    let save = self.i;
    self.i += 1;
    let r = self.ty();
    let yes = r.is_ok() && is_p(self.at(0), b'=');
    self.i = save;
    Ok(yes)
  }
  fn ty(&mut self) -> R<Asc> {
    self.i += 1; // :
    match self.at(0).cloned() {
      Some(Par(ref v)) if v.is_empty() => { self.i += 1; Ok(Asc::Unit) }
      Some(Par(ref v)) if is_p(v.get(0), b'^') => { if v.len() != 1 { return Err(()) } self.i += 1; Ok(Asc::Invis) }
      Some(Par(ref v)) => {
        let s = match v.get(0) { Some(&Id(ref s)) if v.len() == 1 && !reserved(s) => s.clone(), Some(&Lit(_)) => return Err(()), _ => { outside(); return Err(()) } };
        self.i += 1; self.after_type(); Ok(Asc::Rust(format!("({})", s)))
      }
      Some(Id(ref s)) => { if reserved(s) { if s == "_" { outside() } return Err(()) } self.i += 1; let r = self.path_tail(s.clone()); let r = self.generic_tail(r); self.after_type(); Ok(Asc::Rust(r)) }
      Some(Brk(_)) => { outside(); Err(()) }
      Some(P(c, _)) => { if c == b'!' || c == b'&' || c == b'*' || c == b'?' || c == b'<' || c == b'#' || is_jp(self.at(0), b':') || c == b'\'' { outside() } Err(()) }
      _ => Err(()),
    }
  }
  // Rust's own type syntax goes on over these: not modelled
  fn after_type(&mut self) {
    match self.at(0) { Some(&P(c, j)) => if c == b'<' || c == b'+' || c == b'!' || c == b'\'' || (c == b':' && j) { outside() }, Some(&Par(_)) => outside(), _ => () }
  }
  fn generic_tail(&mut self, mut r: String) -> String {
    if is_p(self.at(0), b'<') {
      if let (Some(&Id(ref s)), true) = (self.at(1), is_p(self.at(2), b'>')) { r = format!("{}<{}>", r, s) } else { outside() }
      self.i += 3;
    }
    r
  }
  fn path_tail(&mut self, mut r: String) -> String {
    while is_jp(self.at(0), b':') && is_p(self.at(1), b':') {
      match self.ident(2) { Some(s) => { r.push_str("::"); r.push_str(s) } None => { outside() } }
      self.i += 3;
    }
    r
  }
  fn choice(&mut self) -> R<E> {
    let mut bs = vec![self.action()?];
    while is_p(self.at(0), b'/') { self.i += 1; bs.push(self.action()?); }
    Ok(if bs.len() == 1 { bs.pop().unwrap() } else { E::Cho(bs) })
  }
  fn action(&mut self) -> R<E> {
    let e = self.spanned()?;
    if !is_p(self.at(0), b'>') { return Ok(e) }
    self.i += 1;
    let boxed = match self.at(0) { Some(&Id(ref s)) => s == "box", _ => false };
    if boxed { self.i += 1 }
    match self.at(0) { Some(&P(c, _)) => if c == b'<' || c == b'#' || c == b':' { outside() }, _ => () }
    let f = match self.ident(0) { Some(s) => s.to_string(), None => return Err(()) };
    self.i += 1;
    let f = self.path_tail(f);
    Ok(E::Act(Box::new(e), boxed, f))
  }
  fn spanned(&mut self) -> R<E> {
    match self.dots() {
      3 => { self.i += 3; Ok(E::Range(Box::new(self.seq()?))) }
      2 => { self.i += 2; Ok(E::Span(Box::new(self.seq()?))) }
      _ => self.seq()
    }
  }
  fn seq(&mut self) -> R<E> {
    let mut es = vec![];
    while let Some(e) = self.typed()? { es.push(e) }
    if es.is_empty() { return Err(()) }
    Ok(if es.len() == 1 { es.pop().unwrap() } else { E::Seq(es) })
  }
  fn typed(&mut self) -> R<Option<E>> {
    let e = self.prefixed()?;
    if !is_p(self.at(0), b':') { return Ok(e) }
    let t = self.ty()?;
    match e { Some(e) => Ok(Some(E::Asc(Box::new(e), t))), None => Err(()) }
  }
  fn prefixed(&mut self) -> R<Option<E>> {
    let not = is_p(self.at(0), b'!');
    if not || is_p(self.at(0), b'&') {
      self.i += 1;
      return match self.suffixed()? { Some(e) => Ok(Some(if not { E::Not(Box::new(e)) } else { E::And(Box::new(e)) })), None => Err(()) }
    }
    self.suffixed()
  }
  fn suffixed(&mut self) -> R<Option<E>> {
    let e = match self.atom()? { Some(e) => e, None => return Ok(None) };
    Ok(Some(if is_p(self.at(0), b'*') { self.i += 1; E::Star(Box::new(e)) }
      else if is_p(self.at(0), b'+') { self.i += 1; E::Plus(Box::new(e)) }
      else if is_p(self.at(0), b'?') { self.i += 1; E::Opt(Box::new(e)) }
      else { e }))
  }
  fn atom(&mut self) -> R<Option<E>> {
    match self.at(0).cloned() {
      Some(Lit(s)) => { self.i += 1; Ok(Some(E::Lit(s))) }
      Some(P(_, _)) => match self.dots() { 0 => { if is_p(self.at(0), b'<') || is_jp(self.at(0), b':') && is_p(self.at(1), b':') { outside() } Ok(None) } 1 => { self.i += 1; Ok(Some(E::Any)) } _ => Err(()) },
      Some(Par(ref v)) => { self.i += 1; let mut r = Rd::new(v); let e = r.choice()?; if !r.end() { return Err(()) } Ok(Some(e)) }
      Some(Brk(ref v)) => { self.i += 1; match v.get(0) { Some(&Lit(ref s)) if v.len() == 1 => Ok(Some(E::Cls(class(&s.chars().collect::<Vec<_>>())?))), _ => Err(()) } }
      Some(Id(_)) => {
        if self.ident(0).is_none() || self.lhs()? { return Ok(None) }
        let s = self.ident(0).unwrap().to_string();
        self.i += 1;
        let s = self.path_tail(s);
        match self.at(0) { Some(&P(c, _)) => if c == b'<' { outside() }, _ => () }
        Ok(Some(E::Call(s)))
      }
      _ => Ok(None),
    }
  }
}

// What follows is outside of what this reference models: the path is excluded.
fn outside() { sym::reach("excluded by the reference"); sym::assume(false) }

pub fn class(cs: &[char]) -> R<Vec<(char, char)>> {
  let n = cs.len();
  if n == 0 { return Err(()) }
  let mut out = vec![];
  let mut i = 0;
  while i < n {
    if cs[i] == '-' {
      if i != 0 && i != n - 1 { return Err(()) }
      out.push(('-', '-'));
      i += 1;
    }
    else if i + 2 < n && cs[i + 1] == '-' {
      if cs[i + 2] == '-' { return Err(()) }
      out.push((cs[i], cs[i + 2]));
      i += 3;
    }
    else { out.push((cs[i], cs[i])); i += 1; }
  }
  Ok(out)
}

pub fn read(t: &[Tok]) -> R<G> { Rd::new(t).grammar() }

// the name of the functions of a rule, without their prefix
pub fn unraw(n: &str) -> String {
  let at = n.rfind("::").map_or(0, |i| i + 2);
  let last = &n[at..];
  format!("{}{}", &n[..at], if last.starts_with("r#") { &last[2..] } else { last })
}

// ---- a lexer for concrete texts ----
pub fn lex(s: &[u8]) -> Vec<Tok> {
  let mut i = 0;
  let r = lex_until(s, &mut i, 0);
  r
}
fn lex_until(s: &[u8], i: &mut usize, close: u8) -> Vec<Tok> {
  let mut out = vec![];
  while *i < s.len() {
    let c = s[*i];
    if c == b' ' || c == b'\n' { *i += 1; continue }
    if close != 0 && c == close { *i += 1; return out }
    if c == b'(' { *i += 1; out.push(Par(lex_until(s, i, b')'))); continue }
    if c == b'[' { *i += 1; out.push(Brk(lex_until(s, i, b']'))); continue }
    if c == b'{' { *i += 1; out.push(Brc(lex_until(s, i, b'}'))); continue }
    if c == b'"' {
      let st = *i + 1;
      *i += 1;
      while s[*i] != b'"' { *i += 1 }
      out.push(Lit(String::from_utf8(s[st..*i].to_vec()).unwrap()));
      *i += 1;
      continue
    }
    if (c as char).is_ascii_alphabetic() || c == b'_' || c >= 128 {
      let st = *i;
      if c == b'r' && *i + 1 < s.len() && s[*i + 1] == b'#' { *i += 2 }
      while *i < s.len() && ((s[*i] as char).is_ascii_alphanumeric() || s[*i] == b'_' || s[*i] >= 128) { *i += 1 }
      out.push(Id(String::from_utf8(s[st..*i].to_vec()).unwrap()));
      continue
    }
    if c == b'@' {
      let d = s[*i + 1];
      if d == b'S' { out.push(Lit("x".to_string())) }        // any spelling of the string literal "x"
      else if d == b'L' { out.push(P(b'%', false)) }         // a literal which is not a string
      else { out.push(Item((if d >= b'a' { d - b'a' + 10 } else { d - b'0' }) as usize)) }
      *i += 2;
      continue
    }
    let joint = *i + 1 < s.len() && b"~!@#$%^&*-=+|;:,<.>/?".contains(&s[*i + 1]);
    out.push(P(c, joint));
    *i += 1;
  }
  out
}

// ---- well-formedness ----
// Conservative attributes of an expression, as documented.
#[derive(Clone, Copy, PartialEq)]
pub struct At { pub fail: bool, pub succ: bool, pub cons: bool, pub never: bool }
#[derive(Default)]
pub struct Wf { pub left_rec: bool, pub loops: bool, pub never: bool, pub idle: bool, pub unreach: bool }
impl Wf { pub fn looping(&self) -> bool { self.left_rec || self.loops } pub fn useless(&self) -> bool { self.never || self.idle || self.unreach } pub fn bad(&self) -> bool { self.looping() || self.useless() } }

pub struct An<'a> { pub g: &'a G, at: Vec<At>, pub wf: Wf }
impl<'a> An<'a> {
  pub fn rule(&self, n: &str) -> Option<usize> { self.g.rules.iter().position(|r| r.0 == n) }
  pub fn new(g: &'a G) -> An<'a> {
    let n = g.rules.len();
    let mut a = An { g: g, at: vec![At { fail: true, succ: true, cons: true, never: false }; n], wf: Wf::default() };
    // attributes of the rules, from the most optimistic ones
    loop {
      let mut stable = true;
      for i in 0..n { let v = a.attr(&g.rules[i].1); if v != a.at[i] { a.at[i] = v; stable = false } }
      if stable { break }
    }
    for i in 0..n { a.flaws(&g.rules[i].1) }
    // r calls q without having consumed anything: left recursion is a cycle of that relation
    let mut m = vec![vec![false; n]; n];
    for i in 0..n { let mut row = m[i].clone(); a.first(&g.rules[i].1, &mut row); m[i] = row }
    for k in 0..n { for i in 0..n { if m[i][k] { for j in 0..n { if m[k][j] { m[i][j] = true } } } } }
    for i in 0..n { if m[i][i] { a.wf.left_rec = true } }
    a
  }
  // rules callable before any input has certainly been consumed; returns whether e may succeed without consuming
  pub fn first(&self, e: &E, row: &mut Vec<bool>) -> bool {
    match *e {
      E::Lit(ref s) => s.is_empty(),
      E::Any | E::Cls(_) => false,
      E::Call(ref n) => match self.rule(n) { Some(i) => { row[i] = true; !self.at[i].cons } None => false },
      E::Seq(ref v) => { for x in v { if !self.first(x, row) { return false } } true }
      E::Cho(ref v) => { let mut r = false; for x in v { r |= self.first(x, row) } r }
      E::Star(ref x) | E::Opt(ref x) | E::Not(ref x) | E::And(ref x) => { self.first(x, row); true }
      E::Plus(ref x) | E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => self.first(x, row),
    }
  }
  pub fn attr(&self, e: &E) -> At {
    let mut a = match *e {
      E::Lit(ref s) => if s.is_empty() { At { fail: false, succ: true, cons: false, never: false } } else { At { fail: true, succ: true, cons: true, never: false } },
      E::Any | E::Cls(_) => At { fail: true, succ: true, cons: true, never: false },
      E::Call(ref n) => match self.rule(n) { Some(i) => self.at[i], None => At { fail: true, succ: true, cons: true, never: false } },
      E::Seq(ref v) => { let mut r = At { fail: false, succ: true, cons: false, never: true }; for x in v { let b = self.attr(x); r.fail |= b.fail; r.succ &= b.succ; r.cons |= b.cons; r.never &= b.never; } r }
      E::Cho(ref v) => { let mut r = At { fail: true, succ: false, cons: true, never: true }; for x in v { let b = self.attr(x); r.fail &= b.fail; r.succ |= b.succ; r.cons &= b.cons; r.never &= b.never; } r }
      E::Star(ref x) | E::Opt(ref x) => { let b = self.attr(x); At { fail: false, succ: true, cons: false, never: b.never } }
      E::Plus(ref x) => self.attr(x),
      E::Not(ref x) => { let b = self.attr(x); At { fail: b.succ, succ: b.fail, cons: false, never: true } }
      E::And(ref x) => { let b = self.attr(x); At { fail: b.fail, succ: b.succ, cons: false, never: true } }
      E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => self.attr(x),
    };
    // a flawed expression is reported once and then taken for a good one
    if a.fail && !a.succ { a.succ = true } else if a.succ && !a.fail && a.never { a.never = false }
    a
  }
  pub fn raw(&self, e: &E) -> At {
    match *e {
      E::Not(ref x) => { let b = self.attr(x); At { fail: b.succ, succ: b.fail, cons: false, never: true } }
      E::And(ref x) => { let b = self.attr(x); At { fail: b.fail, succ: b.succ, cons: false, never: true } }
      E::Seq(ref v) => { let mut r = At { fail: false, succ: true, cons: false, never: true }; for x in v { let b = self.attr(x); r.fail |= b.fail; r.succ &= b.succ; r.cons |= b.cons; r.never &= b.never; } r }
      E::Cho(ref v) => { let mut r = At { fail: true, succ: false, cons: true, never: true }; for x in v { let b = self.attr(x); r.fail &= b.fail; r.succ |= b.succ; r.cons &= b.cons; r.never &= b.never; } r }
      E::Star(ref x) | E::Opt(ref x) => { let b = self.attr(x); At { fail: false, succ: true, cons: false, never: b.never } }
      _ => self.attr(e),
    }
  }
  fn flaws(&mut self, e: &E) {
    let r = self.raw(e);
    if !r.succ { self.wf.never = true }
    if r.succ && !r.fail && r.never { self.wf.idle = true }
    match *e {
      E::Seq(ref v) => for x in v { self.flaws(x) },
      E::Cho(ref v) => { for x in v { self.flaws(x) } for x in &v[..v.len() - 1] { if !self.attr(x).fail { self.wf.unreach = true } } }
      E::Star(ref x) | E::Plus(ref x) => { self.flaws(x); let b = self.attr(x); if b.succ && !b.cons { self.wf.loops = true } }
      E::Opt(ref x) | E::Not(ref x) | E::And(ref x) | E::Act(ref x, _, _) | E::Asc(ref x, _) | E::Span(ref x) | E::Range(ref x) => self.flaws(x),
      _ => (),
    }
  }
}

// ---- typing ----
#[derive(Clone, Debug, PartialEq)]
pub enum C { Char, Rust(String), List(Box<Ty>), Opt(Box<Ty>), Ext }
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Inv, Unit, Ext, Vis(Vec<C>), Rec }
#[derive(Debug, PartialEq, Clone)]
pub enum Verdict { Accept(Vec<Ty>), Reject, Murky, Either }

// types of Rust are compared by rustc, not by oak: alike up to their names
fn alike(a: &Ty, b: &Ty) -> bool {
  match (a, b) { (&Ty::Vis(ref x), &Ty::Vis(ref y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(c, d)| match (c, d) { (&C::Rust(_), &C::Rust(_)) => true, (&C::List(ref t), &C::List(ref u)) | (&C::Opt(ref t), &C::Opt(ref u)) => alike(t, u), (c, d) => c == d }), _ => a == b }
}

pub struct Typer<'a> { pub g: &'a G, pub funs: &'a [(&'a str, &'a str)], pub env: Vec<Option<Ty>>, pub cyclic: Vec<usize>, murky: bool, either: bool, lenient: bool }
impl<'a> Typer<'a> {
  pub fn new(g: &'a G, funs: &'a [(&'a str, &'a str)]) -> Typer<'a> { Typer { g: g, funs: funs, env: vec![None; g.rules.len()], cyclic: vec![], murky: false, either: false, lenient: false } }
  fn rule(&self, n: &str) -> Option<usize> { self.g.rules.iter().position(|r| r.0 == *n) }
  // rules the type of e depends on
  pub fn deps(&self, e: &E, row: &mut Vec<bool>) {
    match *e {
      E::Call(ref n) => if let Some(i) = self.rule(n) { row[i] = true },
      E::Seq(ref v) | E::Cho(ref v) => for x in v { self.deps(x, row) },
      E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Span(ref x) => self.deps(x, row),
      _ => (),
    }
  }
  // is a choice involved in the cycle?
  fn rec_choice(&self, e: &E, scc: &Vec<usize>) -> bool {
    match *e {
      E::Cho(_) => { let mut row = vec![false; self.g.rules.len()]; self.deps(e, &mut row); scc.iter().any(|&i| row[i]) }
      E::Seq(ref v) => v.iter().any(|x| self.rec_choice(x, scc)),
      E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Span(ref x) => self.rec_choice(x, scc),
      _ => false,
    }
  }
  fn calls(&self, e: &E, scc: &Vec<usize>) -> bool { let mut row = vec![false; self.g.rules.len()]; self.deps(e, &mut row); scc.iter().any(|&i| row[i]) }
  // is a call of the cycle part of a larger value?
  fn poly(&mut self, e: &E, scc: &Vec<usize>) -> bool {
    match *e {
      E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Span(ref x) => self.calls(x, scc),
      E::Seq(ref v) => {
        if v.iter().any(|x| self.poly(x, scc)) { return true }
        if !self.calls(e, scc) { return false }
        for x in v { if !self.calls(x, scc) { match self.ty(x) { Ok(Ty::Inv) | Ok(Ty::Unit) => (), _ => return true } } }
        false
      }
      E::Cho(ref v) => v.iter().any(|x| self.poly(x, scc)),
      _ => false,
    }
  }
  // observed: what the compiler gave, for the cycles that can be cut in several ways
  pub fn solve(&mut self, observed: Option<&Vec<String>>) -> Verdict {
    let n = self.g.rules.len();
    let mut m = vec![];
    for i in 0..n { let mut row = vec![false; n]; self.deps(&self.g.rules[i].1, &mut row); m.push(row) }
    for k in 0..n { for i in 0..n { if m[i][k] { for j in 0..n { if m[k][j] { m[i][j] = true } } } } }
    let mut bad = false;
    loop {
      // a rule, or a cycle of rules, whose dependencies are all typed
      let mut scc: Option<Vec<usize>> = None;
      for r in 0..n {
        if self.env[r].is_some() { continue }
        let s: Vec<usize> = (0..n).filter(|&j| j == r || m[r][j] && m[j][r]).collect();
        if (0..n).all(|j| !m[r][j] || s.contains(&j) || self.env[j].is_some()) { scc = Some(s); break }
      }
      let s = match scc { None => break, Some(s) => s };
      if !m[s[0]][s[0]] {
        match self.ty(&self.g.rules[s[0]].1) { Ok(t) => self.env[s[0]] = Some(t), Err(_) => { bad = true; self.env[s[0]] = Some(Ty::Inv) } }
        continue
      }
      self.cyclic.extend(s.iter().cloned());
      for &r in &s { self.env[r] = Some(Ty::Rec) }
      let mut cand: Vec<Ty> = vec![];
      for &r in &s { match self.ty(&self.g.rules[r].1) { Ok(Ty::Rec) => (), Ok(t) => if !cand.contains(&t) { cand.push(t) }, Err(_) => bad = true } }
      let u = if cand.is_empty() { Some(Ty::Inv) } else if cand.len() == 1 { cand.pop() } else { None };
      let mut solved = false;
      if let Some(u) = u {
        for &r in &s { self.env[r] = Some(u.clone()) }
        solved = s.iter().all(|&r| self.ty(&self.g.rules[r].1) == Ok(u.clone()));
      }
      let choice = s.iter().any(|&r| self.rec_choice(&self.g.rules[r].1, &s));
      // a cycle through a repetition, an option or a tuple has no type of its own: it may be refused in a choice
      if solved && !(choice && s.iter().any(|&r| self.poly(&self.g.rules[r].1, &s))) { continue }
      for &r in &s { self.env[r] = Some(Ty::Inv) }
      if !choice { continue }
      // no type fits all the branches without recursive types: rejected, or cut at some rules of the cycle
      self.either = true;
      if let Some(obs) = observed {
        self.lenient = true;
        for &r in &s { self.env[r] = if obs[r] == "()" { Some(Ty::Inv) } else { Some(Ty::Rec) } }
        for _ in 0..s.len() { for &r in &s { if self.env[r] == Some(Ty::Rec) { match self.ty(&self.g.rules[r].1) { Ok(t) => self.env[r] = Some(t), Err(_) => () } } } }
        // what was typed on the way must hold at the end
        for &r in &s { if obs[r] != "()" && self.ty(&self.g.rules[r].1).ok() != self.env[r] { self.env[r] = Some(Ty::Rec) } }
      }
    }
    if bad { return self.verdict(Verdict::Reject) }
    for r in 0..n { let t = self.env[r].clone().unwrap(); if external(&t) { bad = true } }
    for r in 0..n { if !self.deep(&self.g.rules[r].1, false, None) { bad = true } }
    if bad { return self.verdict(Verdict::Reject) }
    let v = Verdict::Accept(self.env.iter().map(|t| t.clone().unwrap()).collect());
    if self.either && observed.is_none() { return self.verdict(Verdict::Either) }
    self.verdict(v)
  }
  fn verdict(&self, v: Verdict) -> Verdict { if self.murky { Verdict::Murky } else if self.either && v == Verdict::Reject { Verdict::Either } else { v } }
  // what actions and ascriptions enclose; asc: directly under an ascription
  fn deep(&mut self, e: &E, unit: bool, asc: Option<&Asc>) -> bool {
    let unit = unit || asc.is_none() && match self.ty(e) { Ok(Ty::Inv) | Ok(Ty::Unit) => true, _ => false };
    match *e {
      E::Seq(ref v) | E::Cho(ref v) => v.iter().all(|x| self.deep(x, unit, asc)),
      E::Star(ref x) | E::Plus(ref x) | E::Opt(ref x) | E::Not(ref x) | E::And(ref x) | E::Span(ref x) => self.deep(x, unit, asc),
      E::Range(ref x) => { if asc.is_some() && !unit { self.murky = true } self.deep(x, true, None) }
      E::Act(ref x, _, _) => { let ok = self.ty(x).is_ok(); if unit { if !ok { self.murky = true } return true } ok && self.deep(x, false, None) }
      E::Asc(ref x, ref t) => {
        if asc.is_some() && !unit { self.murky = true }
        let under = match *t { Asc::Rust(_) => false, _ => true };
        if !under && !unit {
          match self.ty(x) { Err(_) => return false, Ok(Ty::Ext) => (), Ok(Ty::Vis(ref v)) if v.len() == 1 && match v[0] { C::Rust(_) => true, _ => false } => match **x { E::Cho(_) => self.murky = true, _ => () }, _ => self.murky = true }
        }
        self.deep(x, unit || under, Some(t))
      }
      _ => true,
    }
  }
  pub fn ty(&mut self, e: &E) -> Result<Ty, ()> {
    Ok(match *e {
      E::Lit(_) => Ty::Inv,
      E::Not(_) | E::And(_) => Ty::Inv,
      E::Any | E::Cls(_) => Ty::Vis(vec![C::Char]),
      E::Call(ref n) => match self.rule(n) { Some(i) => match self.env[i].clone() { Some(t) => t, None => { self.murky = true; Ty::Inv } }, None => Ty::Ext },
      E::Star(ref x) | E::Plus(ref x) => match self.ty(x)? { Ty::Inv => Ty::Inv, Ty::Rec => Ty::Rec, t => Ty::Vis(vec![C::List(Box::new(t))]) },
      E::Opt(ref x) => match self.ty(x)? { Ty::Inv => Ty::Inv, Ty::Rec => Ty::Rec, t => Ty::Vis(vec![C::Opt(Box::new(t))]) },
      E::Asc(_, ref a) => match *a { Asc::Unit => Ty::Unit, Asc::Invis => Ty::Inv, Asc::Rust(ref s) => Ty::Vis(vec![C::Rust(s.clone())]) },
      E::Act(_, boxed, ref f) => match self.funs.iter().find(|x| x.0 == *f) {
        Some(&(_, "()")) => return Err(()),
        Some(&(_, t)) => Ty::Vis(vec![C::Rust(if boxed { format!("Box<{}>", t) } else { t.to_string() })]),
        None => Ty::Ext,
      },
      E::Span(ref x) => { let t = self.ty(x)?; tuple(vec![Ty::Vis(vec![C::Rust("<Range<Stream<'a>>asStreamSpan>::Output".to_string())]), t]) }
      E::Range(ref x) => { if self.ty(x).is_err() { self.murky = true } Ty::Vis(vec![C::Rust("Range<Stream<'a>>".to_string())]) }
      E::Seq(ref v) => { let mut ts = vec![]; for x in v { ts.push(self.ty(x)?) } tuple(ts) }
      E::Cho(ref v) => {
        let mut u: Vec<Ty> = vec![];
        for x in v { let t = self.ty(x)?; if t != Ty::Rec && !u.contains(&t) { u.push(t) } }
        for i in 0..u.len() { for j in 0..i { if alike(&u[i], &u[j]) { self.murky = true } } }
        if u.is_empty() { return Ok(Ty::Rec) }
        if u.len() == 1 { return Ok(u.pop().unwrap()) }
        if u.iter().all(|t| *t == Ty::Inv || *t == Ty::Unit) { return Ok(Ty::Inv) }
        // a branch of a cycle that was cut may be dropped
        if self.lenient && (u.contains(&Ty::Inv) || u.contains(&Ty::Unit)) { let c = self.cyclic.clone(); if self.calls(e, &c) { return Ok(Ty::Inv) } }
        // a value of unknown type takes the type of the other branches, but is not several values
        if u.len() == 2 && u.contains(&Ty::Ext) { let t = u.into_iter().find(|t| *t != Ty::Ext).unwrap(); return match t { Ty::Vis(ref v) if v.len() > 1 => Err(()), _ => Ok(t) } }
        return Err(())
      }
    })
  }
}
fn tuple(ts: Vec<Ty>) -> Ty {
  let mut comps = vec![];
  let mut unit = false;
  for t in ts { match t { Ty::Vis(v) => comps.extend(v), Ty::Ext => comps.push(C::Ext), Ty::Rec => return Ty::Rec, Ty::Unit => unit = true, Ty::Inv => () } }
  if comps.is_empty() { return if unit { Ty::Unit } else { Ty::Inv } }
  if comps.len() == 1 && comps[0] == C::Ext { return Ty::Ext }
  Ty::Vis(comps)
}
pub fn external(t: &Ty) -> bool { match *t { Ty::Ext => true, Ty::Vis(ref v) => v.iter().any(|c| match *c { C::Ext => true, C::List(ref t) | C::Opt(ref t) => external(t), _ => false }), _ => false } }
pub fn show(t: &Ty) -> String {
  match *t {
    Ty::Inv | Ty::Unit => "()".to_string(), Ty::Rec => "?".to_string(), Ty::Ext => "_".to_string(),
    Ty::Vis(ref v) => { let s: Vec<String> = v.iter().map(|c| match *c { C::Char => "char".to_string(), C::Ext => "_".to_string(), C::Rust(ref s) => s.clone(), C::List(ref t) => format!("Vec<{}>", show(t)), C::Opt(ref t) => format!("Option<{}>", show(t)) }).collect(); if s.len() == 1 { s[0].clone() } else { format!("({})", s.join(",")) } }
  }
}
