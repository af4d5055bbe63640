#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, unused_macros, non_snake_case)]
extern crate oak;
extern crate oak_runtime;
extern crate syntex_pos;
include!("@@SYM@@");
pub use oak_runtime::*;
pub use oak_runtime::str_stream::StrStream;
use oak_runtime::file_map_stream::FileMapStream;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{BytePos, FileMap};
include!("@@PEG@@");

// Any text of at most n bytes over the given characters.
fn alpha(n: usize, cs: &[u8]) -> &'static str {
  let n = sym::choose(n + 1);
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { let b = sym::u8(); let mut ok = false; for &c in cs { ok |= b == c; } sym::assume(ok); v.push(b); }
  unsafe { ::std::str::from_utf8_unchecked(sym::leak(v)) }
}
// Any text of n-1 or n bytes over the given characters.
fn wide(n: usize, cs: &[u8]) -> &'static str {
  let n = n - sym::choose(2);
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { let b = sym::u8(); let mut ok = false; for &c in cs { ok |= b == c; } sym::assume(ok); v.push(b); }
  unsafe { ::std::str::from_utf8_unchecked(sym::leak(v)) }
}
// At most n characters, whatever they are.
fn chars(n: usize) -> &'static [u32] {
  let n = sym::choose(n + 1);
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { let x = sym::u32(); sym::assume(x < 0x110000 && x.wrapping_sub(0xd800) >= 0x800); v.push(x); }
  Box::leak(v.into_boxed_slice())
}
fn xtext(n: usize) -> &'static str {
  let n = sym::choose(n + 1);
  let mut v = Vec::with_capacity(n);
  for _ in 0..n { let b = sym::u8(); sym::assume(b.wrapping_sub(b'a') < 3); v.push(b); }
  unsafe { ::std::str::from_utf8_unchecked(sym::leak(v)) }
}
fn file(t: &str, start: u32) -> Rc<FileMap> {
  Rc::new(FileMap { name: String::from("f"), abs_path: None, src: Some(Rc::new(String::from(t))), start_pos: BytePos(start), end_pos: BytePos(start.wrapping_add(t.len() as u32)), lines: RefCell::new(vec![]), multibyte_chars: RefCell::new(vec![]) })
}
fn same_set(a: &Vec<&'static str>, b: &Vec<&'static str>) {
  for x in a { let mut hit = false; for y in b { if x.as_bytes() == y.as_bytes() { hit = true; } } sym::check(hit, "an item that did not fail at the farthest position is reported"); }
  for x in b { let mut hit = false; for y in a { if x.as_bytes() == y.as_bytes() { hit = true; } } sym::check(hit, "an item that failed at the farthest position is missing"); }
}
// Where the parser starts (in bytes), and the farthest failure of what was parsed before it.
static mut AT: usize = 0;
static mut PRIOR: Option<usize> = None;
fn at() -> usize { unsafe { AT } }
fn begin<T>(t: &'static str) -> ParseState<StrStream<'static>, T> {
  let mut s = t.stream();
  let mut far = s.clone();
  let (a, p) = unsafe { (AT, PRIOR) };
  while s.bytes_offset() < a { s.next(); }
  let mut st = ParseState::new(s);
  if let Some(p) = p { while far.bytes_offset() < p { far.next(); } st.farthest_read = far; st.expected.push("prior"); }
  st
}
// Any text of 1 to n bytes over the given characters, one of which is consumed already; every: whatever has failed before.
fn middle(n: usize, cs: &[u8], every: bool) -> &'static str {
  let t = alpha(n, cs);
  sym::assume(t.len() > 0);
  let p = if every { match sym::choose(t.len() + 2) { 0 => None, k => Some(k - 1) } } else if sym::choose(2) == 0 { None } else { Some(t.len()) };
  unsafe { AT = 1; PRIOR = p; }
  t
}
fn reset() { calls().clear(); xcalls().clear(); }
fn outcome_is<S: Ord + Clone + HasNext, T>(s: &ParseState<S, T>, at: usize, want: Option<usize>) {
  sym::check(s.is_successful() == want.is_some(), "outcome");
  sym::check(s.is_failed() != want.is_some(), "outcome");
  sym::check(s.data.is_some() == want.is_some(), "data present exactly on success");
  if let Some(p) = want { sym::check(at == p, "end position"); sym::reach("matched"); } else { sym::reach("refused"); }
}
fn value_is<T: ToVal>(got: Option<T>, ok: Option<usize>, want: Vec<Val>) {
  sym::check(got.is_some() == ok.is_some(), "outcome");
  if let (Some(v), true) = (got, ok.is_some()) { same(&v.v(), &pack(want)); sym::reach("value"); }
}
fn calls_are(r: &Ref) { sym::check(calls().len() == r.calls.len(), "number of action calls"); all_same(calls(), &r.calls); }

macro_rules! c01 { ($t:expr, $g:ident, $k:ident) => {{
  let s = $g::recognize_r(begin($t));
  let mut r = Ref::new($t, &$g::T);
  let w = r.eval(&$g::T[0], at(), false, &mut vec![]);
  outcome_is(&s, s.current.bytes_offset(), w);
  let full = match w { Some(p) => p == $t.len(), None => false };
  match s.into_result() { ParseResult::Success(_) => sym::check(full, "full match"), ParseResult::Partial(_, _) => sym::check(w.is_some() && !full, "partial match"), ParseResult::Failure(_) => sym::check(w.is_none(), "no match") }
}} }
macro_rules! c01fm { ($t:expr, $g:ident, $k:ident) => {{
  let f = file($t, 100);
  let s = $g::recognize_r((&f).into_state());
  let mut r = Ref::new($t, &$g::T);
  let w = r.eval(&$g::T[0], at(), false, &mut vec![]);
  let at = (s.current.clone()..s.current.clone()).stream_span().lo.0 as usize;
  outcome_is(&s, at.wrapping_sub(100), w);
}} }
macro_rules! c02 { ($t:expr, $g:ident, $k:ident) => {{
  let a = $g::recognize_r(begin($t));
  let b = $g::parse_r(begin($t));
  sym::check(a.is_successful() == b.is_successful(), "parse and recognize disagree on the outcome");
  sym::check(b.data.is_some() == b.is_successful(), "data present exactly on success");
  if a.is_successful() { sym::check(a.current.bytes_offset() == b.current.bytes_offset(), "parse and recognize stop at different positions"); sym::reach("both succeed"); } else { sym::reach("both fail"); }
  sym::check(a.farthest_read.bytes_offset() == b.farthest_read.bytes_offset(), "parse and recognize report different farthest positions");
  same_set(&a.expected, &b.expected);
}} }
macro_rules! c03 { ($t:expr, $g:ident, $k:ident) => {{
  let s = $g::parse_r(begin($t));
  let mut r = Ref::new($t, &$g::T); let mut out = vec![];
  let w = r.eval(&$g::T[0], at(), true, &mut out);
  value_is(s.data, w, out);
}} }
macro_rules! c14 { ($t:expr, $g:ident, $k:ident) => { if sym::choose(2) == 0 { c01!($t, $g, $k) } else { c03!($t, $g, $k) } } }
macro_rules! c04 { ($t:expr, $g:ident, $k:ident) => {{
  reset();
  let parser = sym::choose(2) == 0;
  let mut r = Ref::new($t, &$g::T);
  if parser {
    let s = $g::parse_r(begin($t)); let mut out = vec![];
    let w = r.eval(&$g::T[0], at(), true, &mut out);
    value_is(s.data, w, out);
  } else {
    let _ = $g::recognize_r(begin($t));
    let w = r.eval(&$g::T[0], at(), false, &mut vec![]);
    sym::reach("recognized");
  }
  calls_are(&r);
}} }
macro_rules! c05 { ($t:expr, $g:ident, $k:ident) => { c03!($t, $g, $k) } }
macro_rules! c05fm { ($t:expr, $g:ident, $k:ident) => {{
  let start = sym::u32(); sym::assume(start < 0xffff0000);
  let f = file($t, start);
  let s = $g::parse_r((&f).into_state());
  let mut r = Ref::new($t, &$g::T); let mut out = vec![];
  r.base = start;
  let w = r.eval(&$g::T[0], at(), true, &mut out);
  value_is(s.data, w, out);
}} }
macro_rules! c06 { ($t:expr, $g:ident, $k:ident) => {{
  let parser = sym::choose(2) == 0;
  let (far, exp) = if parser { let s = $g::parse_r(begin($t)); (s.farthest_read.bytes_offset(), s.expected) } else { let s = $g::recognize_r(begin($t)); (s.farthest_read.bytes_offset(), s.expected) };
  let mut r = Ref::new($t, &$g::T);
  let _ = r.eval(&$g::T[0], at(), parser, &mut vec![]);
  sym::check(far == r.far, "farthest failure position");
  same_set(&exp, &r.exp);
  sym::reach("error information");
}} }
macro_rules! c01cs { ($t:expr, $g:ident, $k:ident) => {{
  let s = $g::recognize_r(ParseState::new(Cs::new($t)));
  let mut r = Ref::over($t, &$g::T);
  let w = r.eval(&$g::T[0], 0, false, &mut vec![]);
  outcome_is(&s, s.current.at, w);
}} }
macro_rules! c02cs { ($t:expr, $g:ident, $k:ident) => {{
  let a = $g::recognize_r(ParseState::new(Cs::new($t)));
  let b = $g::parse_r(ParseState::new(Cs::new($t)));
  sym::check(a.is_successful() == b.is_successful(), "parse and recognize disagree on the outcome");
  sym::check(b.data.is_some() == b.is_successful(), "data present exactly on success");
  if a.is_successful() { sym::check(a.current.at == b.current.at, "parse and recognize stop at different positions"); }
  sym::check(a.farthest_read.at == b.farthest_read.at, "parse and recognize report different farthest positions");
  same_set(&a.expected, &b.expected);
}} }
macro_rules! c03cs { ($t:expr, $g:ident, $k:ident) => {{
  let s = $g::parse_r(ParseState::new(Cs::new($t)));
  let mut r = Ref::over($t, &$g::T); let mut out = vec![];
  let w = r.eval(&$g::T[0], 0, true, &mut out);
  value_is(s.data, w, out);
}} }
macro_rules! c04cs { ($t:expr, $g:ident, $k:ident) => {{ reset();
  let s = $g::parse_r(ParseState::new(Cs::new($t)));
  let mut r = Ref::over($t, &$g::T); let mut out = vec![];
  let w = r.eval(&$g::T[0], 0, true, &mut out);
  value_is(s.data, w, out);
  calls_are(&r);
}} }
macro_rules! c05cs { ($t:expr, $g:ident, $k:ident) => { c03cs!($t, $g, $k) } }
macro_rules! c06cs { ($t:expr, $g:ident, $k:ident) => {{
  let parser = sym::choose(2) == 0;
  let (far, exp) = if parser { let s = $g::parse_r(ParseState::new(Cs::new($t))); (s.farthest_read.at, s.expected) } else { let s = $g::recognize_r(ParseState::new(Cs::new($t))); (s.farthest_read.at, s.expected) };
  let mut r = Ref::over($t, &$g::T);
  let _ = r.eval(&$g::T[0], 0, parser, &mut vec![]);
  sym::check(far == r.far, "farthest failure position");
  same_set(&exp, &r.exp);
}} }
macro_rules! val { (typed, $d:expr, $w:expr, $out:expr) => { value_is($d, $w, $out) }; (unit, $d:expr, $w:expr, $out:expr) => { value_is($d, $w, vec![]) } }
macro_rules! c17 { ($t:expr, $g:ident, $k:ident) => {{
  reset();
  let parser = sym::choose(2) == 0;
  let mut r = Ref::new($t, &$g::T); let mut out = vec![];
  let (far, exp, w);
  if parser {
    let s = $g::parse_r(begin($t));
    w = r.eval(&$g::T[0], at(), true, &mut out);
    outcome_is(&s, s.current.bytes_offset(), w);
    far = s.farthest_read.bytes_offset(); exp = s.expected;
    val!($k, s.data, w, out);
  } else {
    let s = $g::recognize_r(begin($t));
    w = r.eval(&$g::T[0], at(), false, &mut out);
    outcome_is(&s, s.current.bytes_offset(), w);
    far = s.farthest_read.bytes_offset(); exp = s.expected;
  }
  sym::check(far == r.far, "farthest failure position");
  same_set(&exp, &r.exp);
  let got = xcalls();
  sym::check(got.len() == r.xcalls.len(), "number of calls to external rules");
  for i in 0..got.len() { if i < r.xcalls.len() {
    sym::check(got[i].0 == r.xcalls[i].0, "which external rule is called");
    sym::check(got[i].1 == r.xcalls[i].1, "position at which an external rule is called");
    sym::check(got[i].2 == r.xcalls[i].2, "parse_ or recognize_ variant of an external rule");
  } }
  calls_are(&r);
  sym::reach("external");
}} }
@@MODS@@
@@ENTRIES@@
entries!(@@NAMES@@);
