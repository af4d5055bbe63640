// Reference semantics of the notation, written independently of oak, and the comparison with the generated parsers.
#[derive(Clone, Copy)]
pub enum E {
  Lit(&'static str), Any, Cls(&'static [(u32, u32)], &'static str), Nt(usize), Ext(usize),
  Seq(&'static [E]), Cho(&'static [E]), Star(&'static E), Plus(&'static E), Opt(&'static E), Not(&'static E), And(&'static E),
  Sp(&'static E), Rg(&'static E),
  Act(u32, bool, bool, &'static E), // action identifier, boxed, records its calls
  Drop(&'static E),                 // an expression whose value is discarded (unit or invisible type)
}
#[derive(Clone)]
pub enum Val { U, C(u32), V(Vec<Val>), O(Option<Box<Val>>), T(Vec<Val>), Sp(u32, u32), Rg(usize, usize), A(u32, Vec<Val>), B(Box<Val>), X(u32) }

pub fn same(a: &Val, b: &Val) {
  match (a, b) {
    (&Val::U, &Val::U) => (),
    (&Val::C(x), &Val::C(y)) => sym::check(x == y, "a character of the value"),
    (&Val::X(x), &Val::X(y)) => sym::check(x == y, "an external value"),
    (&Val::Sp(a1, a2), &Val::Sp(b1, b2)) => { sym::check(a1 == b1, "start of a span"); sym::check(a2 == b2, "end of a span") }
    (&Val::Rg(a1, a2), &Val::Rg(b1, b2)) => { sym::check(a1 == b1, "start of a range"); sym::check(a2 == b2, "end of a range") }
    (&Val::B(ref x), &Val::B(ref y)) => same(x, y),
    (&Val::O(None), &Val::O(None)) => (),
    (&Val::O(Some(ref x)), &Val::O(Some(ref y))) => same(x, y),
    (&Val::V(ref x), &Val::V(ref y)) => { sym::check(x.len() == y.len(), "length of a vector"); all_same(x, y) }
    (&Val::T(ref x), &Val::T(ref y)) => { sym::check(x.len() == y.len(), "size of a tuple"); all_same(x, y) }
    (&Val::A(i, ref x), &Val::A(j, ref y)) => { sym::check(i == j, "which action produced the value"); sym::check(x.len() == y.len(), "number of arguments"); all_same(x, y) }
    _ => sym::check(false, "shape of the value"),
  }
}
pub fn all_same(a: &[Val], b: &[Val]) { for i in 0..a.len() { if i < b.len() { same(&a[i], &b[i]) } } }

// ---- values of generated parsers
pub trait ToVal { fn v(self) -> Val; }
impl ToVal for () { fn v(self) -> Val { Val::U } }
impl ToVal for char { fn v(self) -> Val { Val::C(self as u32) } }
impl<T: ToVal> ToVal for Vec<T> { fn v(self) -> Val { Val::V(self.into_iter().map(|x| x.v()).collect()) } }
impl<T: ToVal> ToVal for Option<T> { fn v(self) -> Val { Val::O(self.map(|x| Box::new(x.v()))) } }
impl<T: ToVal> ToVal for Box<T> { fn v(self) -> Val { Val::B(Box::new((*self).v())) } }
impl ToVal for oak_runtime::Span { fn v(self) -> Val { Val::Sp(self.lo.0, self.hi.0) } }
impl<'a> ToVal for ::std::ops::Range<StrStream<'a>> { fn v(self) -> Val { Val::Rg(self.start.bytes_offset(), self.end.bytes_offset()) } }
macro_rules! tup { ($($t:ident),*) => { impl<$($t: ToVal),*> ToVal for ($($t),*) { #[allow(non_snake_case)] fn v(self) -> Val { let ($($t),*) = self; Val::T(vec![$($t.v()),*]) } } } }
tup!(A0, A1); tup!(A0, A1, A2); tup!(A0, A1, A2, A3); tup!(A0, A1, A2, A3, A4); tup!(A0, A1, A2, A3, A4, A5); tup!(A0, A1, A2, A3, A4, A5, A6); tup!(A0, A1, A2, A3, A4, A5, A6, A7); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25, A26); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25, A26, A27); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25, A26, A27, A28); tup!(A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25, A26, A27, A28, A29);

// ---- semantic actions: every call is recorded
pub struct A(pub u32, pub Vec<Val>);
impl ToVal for A { fn v(self) -> Val { Val::A(self.0, self.1) } }
pub static mut CALLS: Option<Vec<Val>> = None;
pub fn calls() -> &'static mut Vec<Val> { unsafe { if CALLS.is_none() { CALLS = Some(vec![]); } CALLS.as_mut().unwrap() } }
pub fn act(i: u32, args: Vec<Val>) -> A { calls().push(Val::A(i, args.clone())); A(i, args) }
pub enum Ev { Zero, One(char), Two(char, char), Many(Vec<char>, char) }
impl ToVal for Ev { fn v(self) -> Val { match self { Ev::Zero => Val::A(900, vec![]), Ev::One(a) => Val::A(901, vec![a.v()]), Ev::Two(a, b) => Val::A(902, vec![a.v(), b.v()]), Ev::Many(a, b) => Val::A(903, vec![a.v(), b.v()]) } } }
impl Ev { pub fn zero() -> Ev { Ev::Zero } pub fn one(a: char) -> Ev { Ev::One(a) } pub fn two(a: char, b: char) -> Ev { Ev::Two(a, b) } pub fn sp(s: oak_runtime::Span, a: char) -> A { A(904, vec![s.v(), a.v()]) } }
pub mod g { pub mod h { use super::super::*; pub fn deep<T: ToVal>(a: T) -> A { A(920, vec![a.v()]) } pub fn new<T: ToVal>(a: T) -> Tn<T> { Tn(a) } } }
pub struct Ts(pub char, pub Option<char>);
impl Ts { pub fn new(a: char, b: Option<char>) -> Ts { Ts(a, b) } }
impl ToVal for Ts { fn v(self) -> Val { Val::A(910, vec![self.0.v(), self.1.v()]) } }

pub struct Tw(pub char);
impl Tw { pub fn new(a: char) -> Tw { Tw(a) } }
impl ToVal for Tw { fn v(self) -> Val { Val::A(930, vec![self.0.v()]) } }
pub struct Tu;
impl Tu { pub fn new() -> Tu { Tu } }
impl ToVal for Tu { fn v(self) -> Val { Val::A(931, vec![]) } }
pub struct Tn<T>(pub T);
impl<T: ToVal> ToVal for Tn<T> { fn v(self) -> Val { Val::A(932, vec![self.0.v()]) } }

// ---- a stream of the user's: a list of characters (spans `..` are out of reach: StreamSpan cannot be implemented for a Range outside of oak_runtime)
pub trait Kind {}
pub struct Tens;
impl Kind for Tens {}
pub struct Cg<'a, K> { t: &'a [u32], pub at: usize, k: ::std::marker::PhantomData<K> }
pub type Cs<'a> = Cg<'a, Tens>;
impl<'a, K> Cg<'a, K> { pub fn new(t: &'a [u32]) -> Self { Cg { t: t, at: 0, k: ::std::marker::PhantomData } } }
impl<'a, K> Clone for Cg<'a, K> { fn clone(&self) -> Self { Cg { t: self.t, at: self.at, k: ::std::marker::PhantomData } } }
impl<'a, K> PartialEq for Cg<'a, K> { fn eq(&self, o: &Self) -> bool { self.at == o.at } }
impl<'a, K> Eq for Cg<'a, K> {}
impl<'a, K> PartialOrd for Cg<'a, K> { fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> { self.at.partial_cmp(&o.at) } }
impl<'a, K> Ord for Cg<'a, K> { fn cmp(&self, o: &Self) -> ::std::cmp::Ordering { self.at.cmp(&o.at) } }
impl<'a, K> Iterator for Cg<'a, K> { type Item = char; fn next(&mut self) -> Option<char> { if self.at < self.t.len() { self.at += 1; Some(unsafe { ::std::char::from_u32_unchecked(self.t[self.at - 1]) }) } else { None } } }
impl<'a, K> HasNext for Cg<'a, K> { fn has_next(&self) -> bool { self.at < self.t.len() } }
impl<'a, K> ConsumePrefix<&'static str> for Cg<'a, K> {
  fn consume_prefix(&mut self, p: &'static str) -> bool { let mut q = self.at; for c in p.chars() { if q == self.t.len() || self.t[q] != c as u32 { return false } q += 1; } self.at = q; true }
}
impl<'a, K> ToVal for ::std::ops::Range<Cg<'a, K>> { fn v(self) -> Val { Val::Rg(self.start.at, self.end.at) } }

// ---- external rules with arbitrary behaviour, decided lazily per rule and position
pub struct Xv(pub u32);
impl ToVal for Xv { fn v(self) -> Val { Val::X(self.0) } }
pub struct Out { kind: usize, val: u32 }
pub static mut OUTS: Option<Vec<(usize, usize, Out)>> = None;
pub static mut XCALLS: Option<Vec<(usize, usize, bool)>> = None;
pub fn xcalls() -> &'static mut Vec<(usize, usize, bool)> { unsafe { if XCALLS.is_none() { XCALLS = Some(vec![]); } XCALLS.as_mut().unwrap() } }
// What external rule k does at position p. Kinds: 0 fails here, 1 fails one character further, 2 takes one character,
// 3 takes one character after having failed something ahead, 4 takes two characters, 5 fails further without saying so,
// 6 takes nothing (rule 2 only).
// A kind that needs more text than there is fails here.
fn outcome(k: usize, p: usize) -> (usize, u32) {
  let t = unsafe { if OUTS.is_none() { OUTS = Some(vec![]); } OUTS.as_mut().unwrap() };
  for o in t.iter() { if o.0 == k && o.1 == p { return (o.2.kind, o.2.val) } }
  let kind = sym::choose(if k == 2 { 7 } else { 6 });
  let val = sym::u32();
  t.push((k, p, Out { kind: kind, val: val }));
  (kind, val)
}
pub const XNAMES: [&'static str; 3] = ["ext p", "ext q", "ext z"];
fn external<'a>(k: usize, parser: bool, mut s: ParseState<StrStream<'a>, ()>) -> (ParseState<StrStream<'a>, ()>, Option<u32>) {
  let p = s.current.bytes_offset();
  sym::check(s.data.is_none() && !s.failed, "external rule called on a clean state");
  xcalls().push((k, p, parser));
  let (kind, val) = outcome(k, p);
  let mut ahead = s.current.clone();
  if kind == 1 || kind == 2 || kind == 3 || kind == 4 { if ahead.next().is_none() { s.error(XNAMES[k]); return (s, None) } }
  match kind {
    0 => { s.error(XNAMES[k]); (s, None) }
    1 => { s.current = ahead; s.error(XNAMES[k]); (s, None) }
    2 => { s.current = ahead; (s, Some(val)) }
    3 => { s.current = ahead; s.error(XNAMES[k]); s.failed = false; (s, Some(val)) }
    4 => { if ahead.next().is_none() { s.error(XNAMES[k]); return (s, None) } s.current = ahead; (s, Some(val)) }
    5 => { if ahead.next().is_some() { s.current = ahead; } (s, None) }
    _ => (s, Some(val)),
  }
}
pub mod x {
  use super::*;
  type S<'a> = StrStream<'a>;
  fn p<'a>(k: usize, s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, Xv> { let (s, v) = external(k, true, s); match v { Some(v) => s.success(Xv(v)), None => s.failure() } }
  fn r<'a>(k: usize, s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, ()> { let (s, v) = external(k, false, s); match v { Some(_) => s.success(()), None => s.failure() } }
  pub fn parse_p<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, Xv> { p(0, s) }
  pub fn parse_q<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, Xv> { p(1, s) }
  pub fn parse_z<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, Xv> { p(2, s) }
  pub fn recognize_p<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, ()> { r(0, s) }
  pub fn recognize_q<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, ()> { r(1, s) }
  pub fn recognize_z<'a>(s: ParseState<S<'a>, ()>) -> ParseState<S<'a>, ()> { r(2, s) }
}

// ---- reference semantics
pub struct Ref { t: &'static [u8], c: Option<&'static [u32]>, g: &'static [E], pub far: usize, pub exp: Vec<&'static str>, pub calls: Vec<Val>, pub xcalls: Vec<(usize, usize, bool)>, pub base: u32 }
fn pack(mut l: Vec<Val>) -> Val { if l.len() == 0 { Val::U } else if l.len() == 1 { l.pop().unwrap() } else { Val::T(l) } }
impl Ref {
  pub fn new(t: &'static str, g: &'static [E]) -> Ref { Ref { t: t.as_bytes(), c: None, g: g, far: unsafe { ::PRIOR.unwrap_or(::AT) }, exp: if unsafe { ::PRIOR.is_some() } { vec!["prior"] } else { vec![] }, calls: vec![], xcalls: vec![], base: 0 } }
  // over a stream of characters: positions count characters
  pub fn over(c: &'static [u32], g: &'static [E]) -> Ref { let mut r = Ref::new("", g); r.c = Some(c); r }
  fn get(&self, p: usize) -> Option<(u32, usize)> {
    match self.c {
      Some(c) => if p < c.len() { Some((c[p], p + 1)) } else { None },
      None => if p < self.t.len() { let (c, n) = sym::decode(self.t, p); Some((c, p + n)) } else { None }
    }
  }
  fn fail(&mut self, at: usize, what: &'static str) {
    if at > self.far { self.far = at; self.exp.clear(); }
    if at == self.far { self.exp.push(what); }
  }
  // Matches e at p; the components of its value go to out when val is set.
  pub fn eval(&mut self, e0: &E, p: usize, val: bool, out: &mut Vec<Val>) -> Option<usize> {
    match *e0 {
      E::Lit(s) => {
        if let Some(c) = self.c {
          let mut q = p;
          for x in s.chars() { if q == c.len() || c[q] != x as u32 { self.fail(p, s); return None } q += 1; }
          return Some(q)
        }
        let b = s.as_bytes();
        let mut i = 0; let mut ok = self.t.len() - p >= b.len();
        while ok && i < b.len() { ok = self.t[p + i] == b[i]; i += 1; }
        if ok { Some(p + b.len()) } else { self.fail(p, s); None }
      }
      E::Any => {
        match self.get(p) {
          None => { self.fail(p, "<character>"); None }
          Some((c, q)) => { if val { out.push(Val::C(c)); } Some(q) }
        }
      }
      E::Cls(iv, desc) => {
        if let Some((c, q)) = self.get(p) {
          for &(lo, hi) in iv { if lo <= c && c <= hi { if val { out.push(Val::C(c)); } return Some(q) } }
        }
        self.fail(p, desc); None
      }
      E::Nt(i) => { let g = self.g; self.eval(&g[i], p, val, out) }
      E::Ext(k) => {
        self.xcalls.push((k, p, val));
        let (kind, v) = outcome(k, p);
        let one = if p < self.t.len() { Some(p + sym::decode(self.t, p).1) } else { None };
        let two = match one { Some(q) if q < self.t.len() => Some(q + sym::decode(self.t, q).1), _ => None };
        let r = match kind { 0 => None, 5 => return None, 6 => Some(p), 4 => two, 1 => { if let Some(q) = one { self.fail(q, XNAMES[k]); return None } None } _ => one };
        match r {
          None => { self.fail(p, XNAMES[k]); None }
          Some(q) => { if kind == 3 { self.fail(q, XNAMES[k]); } if val { out.push(Val::X(v)); } Some(q) }
        }
      }
      E::Seq(l) => { let mut p = p; for e in l { match self.eval(e, p, val, out) { Some(q) => p = q, None => return None } } Some(p) }
      E::Cho(l) => {
        let n = out.len();
        for e in l { out.truncate(n); if let Some(q) = self.eval(e, p, val, out) { return Some(q) } }
        None
      }
      E::Star(e) | E::Plus(e) => {
        let mut vs = vec![]; let mut p = p; let mut n = 0;
        loop {
          let mut o = vec![];
          match self.eval(e, p, val, &mut o) { Some(q) => p = q, None => break }
          n += 1;
          if val { vs.push(pack(o)); }
        }
        let min = match *e0 { E::Plus(_) => 1, _ => 0 };
        if n < min { return None }
        if val { out.push(Val::V(vs)); }
        Some(p)
      }
      E::Opt(e) => {
        let mut o = vec![];
        match self.eval(e, p, val, &mut o) {
          Some(q) => { if val { out.push(Val::O(Some(Box::new(pack(o))))); } Some(q) }
          None => { if val { out.push(Val::O(None)); } Some(p) }
        }
      }
      E::Not(e) => if self.eval(e, p, false, &mut vec![]).is_some() { None } else { Some(p) },
      E::And(e) => self.eval(e, p, false, &mut vec![]).map(|_| p),
      E::Sp(e) => {
        let mut o = vec![];
        let q = match self.eval(e, p, val, &mut o) { Some(q) => q, None => return None };
        if val { out.push(Val::Sp(self.base + p as u32, self.base + q as u32)); out.append(&mut o); }
        Some(q)
      }
      E::Rg(e) => {
        let q = match self.eval(e, p, false, &mut vec![]) { Some(q) => q, None => return None };
        if val { out.push(Val::Rg(p, q)); }
        Some(q)
      }
      E::Act(i, boxed, logged, e) => {
        let mut o = vec![];
        let q = match self.eval(e, p, val, &mut o) { Some(q) => q, None => return None };
        if val {
          if logged { self.calls.push(Val::A(i, o.clone())); }
          let a = Val::A(i, o);
          out.push(if boxed { Val::B(Box::new(a)) } else { a });
        }
        Some(q)
      }
      E::Drop(e) => self.eval(e, p, false, &mut vec![]),
    }
  }
}
