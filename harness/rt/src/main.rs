// Harnesses over the oak_runtime crate (properties C07 to C11).
extern crate oak_runtime;
extern crate syntex_pos;
include!("../../common/symrt.rs");
use oak_runtime::*;
use oak_runtime::file_map_stream::FileMapStream;
use std::rc::Rc;
use std::cell::RefCell;
use syntex_pos::{BytePos, FileMap};

const ITEMS: [&'static str; 3] = ["a", "<character>", "[\"0-9\"]"];

// ---------------------------------------------------------------- C07
// A stream made of nothing but an arbitrary position: every comparison is over all 2^32 positions.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Pos { at: u32, end: u32 }
impl Iterator for Pos { type Item = u32; fn next(&mut self) -> Option<u32> { if self.at < self.end { self.at += 1; Some(self.at) } else { None } } }
impl HasNext for Pos { fn has_next(&self) -> bool { self.at < self.end } }
impl Location for Pos { fn location(&self) -> String { String::from("L") } }
impl CodeSnippet for Pos { fn code_snippet(&self, _: usize) -> String { String::from("S") } }
impl ConsumePrefix<&'static str> for Pos { fn consume_prefix(&mut self, p: &'static str) -> bool { let n = p.len() as u32; if self.end >= self.at && self.end - self.at >= n { self.at += n; true } else { false } } }
impl Stream for Pos { type Output = Pos; fn stream(self) -> Pos { self } }

#[derive(Clone)]
struct M { cur: u32, far: u32, end: u32, failed: bool, data: Option<u8>, exp: [bool; 3] }
fn same_core<T>(s: &ParseState<Pos, T>, m: &M) {
  sym::check(s.failed == m.failed, "status");
  sym::check(s.is_failed() == m.failed, "is_failed");
  sym::check(s.is_successful() == !m.failed, "is_successful");
  sym::check(s.current.at == m.cur && s.current.end == m.end, "current position");
  sym::check(s.farthest_read.at == m.far, "farthest position");
  let mut got = [false; 3];
  for e in &s.expected {
    let mut known = false;
    for i in 0..3 { if *e == ITEMS[i] { got[i] = true; known = true; } }
    sym::check(known, "unknown expected item");
  }
  for i in 0..3 { sym::check(got[i] == m.exp[i], "expected items"); }
}
fn same_u(s: &ParseState<Pos, ()>, m: &M) { same_core(s, m); sym::check(s.data.is_some() == m.data.is_some(), "data presence"); }
fn same_d(s: &ParseState<Pos, u8>, m: &M) { same_core(s, m); sym::check(s.data == m.data, "data value"); }
fn model_error(m: &mut M, i: usize) {
  m.failed = true; m.data = None;
  if m.cur > m.far { m.far = m.cur; m.exp = [false; 3]; m.exp[i] = true; }
  else if m.cur == m.far { m.exp[i] = true; }
}
fn arbitrary() -> (ParseState<Pos, u8>, M) {
  let cur = sym::u32(); let far = sym::u32(); let end = sym::u32();
  let kind = sym::choose(4); // 0 failed, 1 successful without data, 2 successful with data, 3 failed with data (only by assigning to the public fields)
  let v = sym::u8();
  let mask = sym::choose(8);
  let mut expected = vec![]; let mut exp = [false; 3];
  for i in 0..3 { if mask & (1 << i) != 0 { expected.push(ITEMS[i]); exp[i] = true; } }
  let data = if kind >= 2 { Some(v) } else { None };
  (ParseState { farthest_read: Pos { at: far, end: end }, expected: expected, failed: kind == 0 || kind == 3, current: Pos { at: cur, end: end }, data: data },
   M { cur: cur, far: far, end: end, failed: kind == 0 || kind == 3, data: data, exp: exp })
}
fn unit(s: ParseState<Pos, u8>) -> ParseState<Pos, ()> {
  ParseState { farthest_read: s.farthest_read, expected: s.expected, failed: s.failed, current: s.current, data: s.data.map(|_| ()) }
}
fn items_ok(text: &str, exp: &[bool; 3]) -> bool {
  // the text must be `x` or `y` ... listing every expected item exactly once
  let mut n = 0; let mut seen = [false; 3]; let mut rest = text.as_bytes();
  while rest.len() > 0 {
    let mut hit = 3;
    for i in 0..3 { let it = ITEMS[i].as_bytes(); let l = it.len();
      if rest.len() >= l + 2 && rest[0] == b'`' && &rest[1..l + 1] == it && rest[l + 1] == b'`' { hit = i; } }
    if hit == 3 || seen[hit] { return false }
    seen[hit] = true; n += 1;
    rest = &rest[ITEMS[hit].len() + 2..];
    if rest.len() > 0 { if rest.len() < 5 || &rest[..4] != b" or " { return false } rest = &rest[4..]; }
  }
  let mut want = 0; for i in 0..3 { if exp[i] { want += 1; } if exp[i] != seen[i] { return false } }
  n == want
}
// One operation from an arbitrary valid state (inductive step: covers histories of any length).
#[no_mangle] pub extern "C" fn c07_step() {
  let (mut s, mut m) = arbitrary();
  match sym::choose(16) {
    0 => { let i = sym::choose(3); s.error(ITEMS[i]); model_error(&mut m, i); same_d(&s, &m); sym::reach("error"); }
    1 => { let v = sym::u16(); let t: ParseState<Pos, u16> = s.success(v); m.failed = false; same_core(&t, &m); sym::check(t.data == Some(v), "success value"); sym::reach("success"); }
    2 => { let t: ParseState<Pos, u16> = s.failure(); m.failed = true; same_core(&t, &m); sym::check(t.data.is_none(), "failure drops data"); sym::reach("failure"); }
    3 => { if m.failed { sym::allow_panic(true); } let k = s.mark(); sym::check(!m.failed, "mark of a failed state must panic"); sym::check(k.at == m.cur && k.end == m.end, "mark is the current position"); same_d(&s, &m); sym::reach("mark"); }
    4 => { let at = sym::u32(); if m.data.is_some() { sym::allow_panic(true); } let t = s.restore(Pos { at: at, end: m.end }); sym::check(m.data.is_none(), "restore with data must panic"); m.cur = at; m.failed = false; same_u(&t, &m); sym::reach("restore"); }
    5 => { let at = sym::u32(); if m.data.is_some() || !m.failed { sym::allow_panic(true); } let t = s.restore_from_failure(Pos { at: at, end: m.end }); sym::check(m.failed, "restore_from_failure of a successful state must panic"); m.cur = at; m.failed = false; same_u(&t, &m); sym::reach("restore_from_failure"); }
    6 => { let bad = m.failed || m.data.is_none(); if bad { sym::allow_panic(true); } let (t, d) = s.extract_data(); sym::check(!bad, "extract_data without data must panic"); sym::check(Some(d) == m.data, "extract_data value"); m.data = None; same_u(&t, &m); sym::reach("extract"); }
    7 => { let bad = m.data.is_none(); if bad { sym::allow_panic(true); } let d = s.unwrap_data(); sym::check(!bad, "unwrap_data without data must panic"); sym::check(Some(d) == m.data, "unwrap_data value"); sym::reach("unwrap"); }
    8 => {
      sym::assume(!(m.failed && m.data.is_some()));
      let bad = !m.failed && m.data.is_none(); if bad { sym::allow_panic(true); }
      let r = s.into_result(); sym::check(!bad, "into_result of a successful state without data must panic");
      let more = m.cur < m.end;
      match r {
        ParseResult::Success(d) => { sym::check(!m.failed && !more && Some(d) == m.data, "Success classification"); sym::reach("Success"); }
        ParseResult::Partial(d, e) => { sym::check(!m.failed && more && Some(d) == m.data, "Partial classification"); sym::check(items_ok(&e.expected_items(), &m.exp), "Partial items"); sym::reach("Partial"); }
        ParseResult::Failure(e) => { sym::check(m.failed, "Failure classification"); sym::check(items_ok(&e.expected_items(), &m.exp), "Failure items"); sym::reach("Failure"); }
      }
    }
    9 => { let mut t = unit(s); t.discard_data(); m.data = None; same_u(&t, &m); sym::reach("discard"); }
    10 => { let had = m.cur < m.end; let r = s.next(); sym::check(r.is_some() == had, "next yields exactly when an item remains"); if had { m.cur += 1; sym::check(r == Some(m.cur), "next item"); } same_d(&s, &m); sym::reach("next"); }
    11 => { let p = ["", "a", "abc"][sym::choose(3)]; let n = p.len() as u32; let fits = m.end >= m.cur && m.end - m.cur >= n; let r = s.consume_prefix(p); sym::check(r == fits, "consume_prefix result"); if fits { m.cur += n; } same_d(&s, &m); sym::reach("consume_prefix"); }
    12 => { let at = sym::u32(); let st: ParseState<Pos, u8> = ParseState::new(Pos { at: at, end: m.end }); let f = M { cur: at, far: at, end: m.end, failed: false, data: None, exp: [false; 3] }; same_d(&st, &f); sym::reach("new"); }
    13 => { let at = sym::u32(); let st: ParseState<Pos, u8> = Pos { at: at, end: m.end }.into_state(); let f = M { cur: at, far: at, end: m.end, failed: false, data: None, exp: [false; 3] }; same_d(&st, &f); sym::reach("into_state"); }
    14 => { let i = sym::choose(3); let j = sym::choose(3); s.error(ITEMS[i]); s.error(ITEMS[j]); model_error(&mut m, i); model_error(&mut m, j); same_d(&s, &m); sym::reach("error twice"); }
    _ => { let v = sym::u8(); let t: ParseState<Pos, u8> = s.success(v); let (t, d) = t.extract_data(); sym::check(d == v, "success then extract"); m.failed = false; m.data = None; same_u(&t, &m); let k = t.mark(); let t = t.failure::<()>().restore_from_failure(k); same_u(&t, &m); sym::reach("round trip"); }
  }
}
fn c07_history(k: usize) {
  let end = sym::u32();
  sym::assume(end <= 1000000);
  let mut s: ParseState<Pos, ()> = ParseState::new(Pos { at: 0, end: end });
  let mut m = M { cur: 0, far: 0, end: end, failed: false, data: None, exp: [false; 3] };
  let mut mark = s.mark(); let mut mmark = 0u32;
  for _ in 0..k {
    match sym::choose(7) {
      0 => { let had = m.cur < m.end; sym::assume(!m.failed); sym::check(s.next().is_some() == had, "next"); if had { m.cur += 1; } }
      1 => { sym::assume(!m.failed && m.data.is_none()); let i = sym::choose(2); s.error(ITEMS[i]); model_error(&mut m, i); }
      6 => { let i = sym::choose(2); let mut t = s.success(3u8); t.error(ITEMS[i]); sym::check(t.data.is_none(), "an error drops the data"); m.data = None; model_error(&mut m, i); s = t.failure(); }
      2 => { sym::assume(!m.failed); mark = s.mark(); mmark = m.cur; }
      3 => { sym::assume(m.data.is_none()); s = if m.failed { s.restore_from_failure(mark.clone()) } else { s.restore(mark.clone()) }; m.failed = false; m.cur = mmark; }
      4 => { sym::assume(!m.failed); s = s.success(()); m.data = Some(0); same_u(&s, &m); s.discard_data(); m.data = None; }
      _ => { s = s.failure(); m.failed = true; m.data = None; }
    }
    same_u(&s, &m);
  }
  sym::reach("history");
  if m.failed { match s.into_result() { ParseResult::Failure(e) => { sym::check(items_ok(&e.expected_items(), &m.exp), "items"); sym::reach("history failed"); } _ => sym::check(false, "failed history must be Failure") } }
  else { let more = m.cur < m.end; match s.success(7u8).into_result() { ParseResult::Success(d) => sym::check(!more && d == 7, "history success"), ParseResult::Partial(d, _) => sym::check(more && d == 7, "history partial"), _ => sym::check(false, "successful history must not be Failure") } }
}
#[no_mangle] pub extern "C" fn c07_hist3() { c07_history(3) }
#[no_mangle] pub extern "C" fn c07_hist5() { c07_history(5) }
#[no_mangle] pub extern "C" fn c07_hist6() { c07_history(6) }
#[no_mangle] pub extern "C" fn c07_hist7() { c07_history(7) }

// ---------------------------------------------------------------- C08, C11: traversal
fn span_of<'a>(a: &FileMapStream<'a>, b: &FileMapStream<'a>) -> Span { Range { start: a.clone(), end: b.clone() }.stream_span() }

fn reference_prefix(v: &[u8], at: usize, p: &[u8]) -> bool {
  if v.len() - at < p.len() { return false }
  let mut eq = true;
  for i in 0..p.len() { eq = eq & (v[at + i] == p[i]); }
  eq
}
const PREFIXES: [&'static str; 4] = ["", "a", "\u{e9}", "ab"];
fn check_at<S>(s: &S, off: usize, v: &[u8], at: usize) where S: Clone + Iterator<Item = char> + HasNext + Ord {
  sym::check(off == at, "offset");
  sym::check(sym::boundary(v, at), "offset on a character boundary");
  sym::check(s.has_next() == (at < v.len()), "has_next");
  let mut c = s.clone();
  let r = c.next();
  if at < v.len() {
    let (cp, _) = sym::decode(v, at);
    sym::check(r.map(|x| x as u32) == Some(cp), "next yields the character at the position");
  } else { sym::check(r.is_none(), "next at the end"); }
}
fn check_order<S: Ord>(a: &S, at: usize, b: &S, bt: usize) {
  sym::check((a == b) == (at == bt), "equality is the order of positions");
  sym::check(Ord::cmp(a, b) == at.cmp(&bt), "cmp is the order of positions");
  sym::check(PartialOrd::partial_cmp(a, b) == Some(at.cmp(&bt)), "partial_cmp is the order of positions");
  sym::check((a < b) == (at < bt) && (a > b) == (at > bt) && (a <= b) == (at <= bt) && (a >= b) == (at >= bt), "operators are the order of positions");
}
fn traverse<S, F>(mut s: S, v: &'static [u8], steps: usize, plen: usize, off: F) where S: Clone + Iterator<Item = char> + HasNext + Ord + ConsumePrefix<&'static str>, F: Fn(&S) -> usize {
  let mut at = 0usize;
  let mut saved = s.clone(); let mut saved_at = 0usize;
  for _ in 0..steps {
    match sym::choose(3) {
      0 => {
        let r = s.next();
        if at < v.len() { let (cp, n) = sym::decode(v, at); sym::check(r.map(|x| x as u32) == Some(cp), "next"); at += n; sym::reach("next"); }
        else { sym::check(r.is_none(), "next past the end"); sym::reach("next at end"); }
      }
      1 => {
        let p = if plen == 0 { PREFIXES[sym::choose(PREFIXES.len())] } else { sym::text(0, plen) };
        let want = reference_prefix(v, at, p.as_bytes());
        let got = s.consume_prefix(p);
        sym::check(got == want, "consume_prefix result");
        if want { at += p.len(); sym::reach("prefix matched"); } else { sym::reach("prefix refused"); }
      }
      _ => { let t = s.clone(); let k = at; s = saved; at = saved_at; saved = t; saved_at = k; }
    }
    check_at(&s, off(&s), v, at);
    check_at(&saved, off(&saved), v, saved_at);
    check_order(&s, at, &saved, saved_at);
  }
  sym::log(at as u64);
}
fn c08(n: usize, steps: usize, plen: usize) { let t = sym::text(0, n); traverse(t.stream(), t.as_bytes(), steps, plen, |s: &StrStream| s.bytes_offset()); }
#[no_mangle] pub extern "C" fn c08_a() { c08(4, 3, 0) }
#[no_mangle] pub extern "C" fn c08_prefix() { c08(4, 2, 3) }
#[no_mangle] pub extern "C" fn c08_deep() { c08(5, 4, 0) }
#[no_mangle] pub extern "C" fn c08_prefix_deep() { c08(6, 3, 4) }
// Reading everything: the characters of the text, in order, then None for ever.
fn c08_all(n: usize) {
  let t = sym::text(0, n); let v = t.as_bytes(); let mut s = t.stream(); let mut at = 0;
  while at < v.len() { let (cp, k) = sym::decode(v, at); sym::check(s.current_char().map(|c| c as u32) == Some(cp), "current_char"); sym::check(s.next().map(|c| c as u32) == Some(cp), "next"); at += k; sym::check(s.bytes_offset() == at, "offset"); }
  sym::check(s.next().is_none() && s.next().is_none() && !s.has_next() && s.bytes_offset() == v.len() && s.current_char().is_none(), "end of text");
  let owned = String::from(t); let mut o = (&owned).stream(); let mut at = 0;
  while at < v.len() { let (cp, k) = sym::decode(v, at); sym::check(o.has_next() && o.next().map(|c| c as u32) == Some(cp), "next over a String"); at += k; }
  sym::check(!o.has_next() && o.next().is_none(), "end of String"); sym::reach("all read");
}
#[no_mangle] pub extern "C" fn c08_all6() { c08_all(6) }
#[no_mangle] pub extern "C" fn c08_all9() { c08_all(9) }
// Long prefixes against short texts, near the end of the text and of usize arithmetic.
#[no_mangle] pub extern "C" fn c08_long() {
  let t = sym::text(0, 3); let v = t.as_bytes(); let mut s = t.stream(); let mut at = 0;
  for _ in 0..sym::choose(3) { if let Some(_) = s.next() { let (_, n) = sym::decode(v, at); at += n; } }
  let p = ["abcdefghijklmnopqrstuvwxyz", "a\u{1F600}", "\u{e9}\u{e9}"][sym::choose(3)];
  let want = reference_prefix(v, at, p.as_bytes());
  sym::check(s.consume_prefix(p) == want, "long prefix"); if want { at += p.len(); }
  check_at(&s, s.bytes_offset(), v, at); sym::reach("long");
}
// Far from the start, and with prefixes of several hundred bytes.
#[no_mangle] pub extern "C" fn c08_far() {
  let fill = [b'x', b'y'][sym::choose(2)]; let pre = [255, 256, 300, 520][sym::choose(4)];
  let t = filled(pre, fill, 2, 1); let v = t.as_bytes(); let mut s = t.stream();
  let mut at = 0;
  let p: &'static str = { let n = [1, 128, 255, 256, 257, 300, 521][sym::choose(7)]; let mut b = vec![b'x'; n - 1]; b.push([b'x', b'y'][sym::choose(2)]); unsafe { std::str::from_utf8_unchecked(sym::leak(b)) } };
  let want = reference_prefix(v, at, p.as_bytes());
  sym::check(s.consume_prefix(p) == want, "a long prefix"); if want { at += p.len(); }
  while at < pre { sym::check(s.next() == Some(v[at] as char), "next far from the start"); at += 1; }
  check_at(&s, s.bytes_offset(), v, at);
  let saved = s.clone(); let saved_at = at;
  let p = PREFIXES[sym::choose(PREFIXES.len())];
  let want = reference_prefix(v, at, p.as_bytes());
  sym::check(s.consume_prefix(p) == want, "a prefix far from the start"); if want { at += p.len(); }
  check_at(&s, s.bytes_offset(), v, at);
  check_order(&s, at, &saved, saved_at);
  sym::reach("far");
}

// ---------------------------------------------------------------- C09
fn push_num(o: &mut Vec<u8>, n: usize) { if n >= 10 { push_num(o, n / 10); } o.push(b'0' + (n % 10) as u8); }
fn reference_line_column(v: &[u8], at: usize) -> (usize, usize) {
  let mut line = 1; let mut col = 1;
  for i in 0..at { if v[i] == b'\n' { line += 1; col = 1; } else { col += 1; } }
  (line, col)
}
fn reference_location(v: &[u8], at: usize) -> Vec<u8> { let (l, c) = reference_line_column(v, at); let mut o = vec![]; push_num(&mut o, l); o.push(b':'); push_num(&mut o, c); o }
// moves s to the k-th character boundary of the text, returns the offset
fn advance<S: Iterator<Item = char>>(s: &mut S, v: &[u8], bytes: usize) -> Option<usize> {
  let mut at = 0;
  while at < bytes { let (_, n) = sym::decode(v, at); at += n; s.next(); }
  if at == bytes { Some(at) } else { None }
}
fn c09(n: usize) {
  let t = sym::text(0, n); let v = t.as_bytes();
  let target = sym::choose(v.len() + 1);
  sym::assume(sym::boundary(v, target));
  let mut s = t.stream();
  match advance(&mut s, v, target) { Some(at) => {
    let want = reference_location(v, at);
    let got = s.location();
    sym::check(got.as_bytes() == &want[..], "location of a StrStream position");
    let (l, c) = s.line_column(); let (rl, rc) = reference_line_column(v, at);
    sym::check(l == rl && c == rc, "line_column of a StrStream position");
    sym::log_str(got.as_bytes()); sym::reach("located");
  } None => sym::check(false, "not on a boundary") }
}
#[no_mangle] pub extern "C" fn c09_4() { c09(4) }
#[no_mangle] pub extern "C" fn c09_6() { c09(6) }
#[no_mangle] pub extern "C" fn c09_8() { c09(8) }
fn c09_file(n: usize) {
  let t = sym::text(0, n); let v = t.as_bytes(); let target = sym::choose(v.len() + 1); sym::assume(sym::boundary(v, target));
  let fm = file(t, 0, vec![]); let mut s = (&fm).stream();
  match advance(&mut s, v, target) { Some(at) => { sym::check(s.location().as_bytes() == &reference_location(v, at)[..], "location of a FileMapStream position"); sym::reach("located in file"); } None => sym::check(false, "not on a boundary") }
}
#[no_mangle] pub extern "C" fn c09_file4() { c09_file(4) }
#[no_mangle] pub extern "C" fn c09_file6() { c09_file(6) }
// Many lines and long lines: numbers of several digits.
fn filled(pre: usize, fill: u8, n: usize, post: usize) -> &'static str {
  let mut b = Vec::new(); for _ in 0..pre { b.push(fill); } for _ in 0..n { b.push(sym::u8()); } for _ in 0..post { b.push(fill); }
  sym::assume(sym::utf8_ok(&b)); unsafe { std::str::from_utf8_unchecked(sym::leak(b)) }
}
#[no_mangle] pub extern "C" fn c09_digits() {
  let fill = [b'\n', b'x', b'\r'][sym::choose(3)]; let pre = [9, 10, 99, 100][sym::choose(4)];
  let t = filled(pre, fill, 3, 1); let v = t.as_bytes();
  let target = pre + sym::choose(5); sym::assume(sym::boundary(v, target));
  let mut s = t.stream();
  match advance(&mut s, v, target) { Some(at) => { sym::check(s.location().as_bytes() == &reference_location(v, at)[..], "location with several digits"); sym::reach("digits"); } None => sym::check(false, "not on a boundary") }
}
// Far from the start: line and column numbers beyond 8 and 16 bits.
fn far_text(size: usize, units: usize, n: usize) -> (&'static str, usize) {
  let unit: &[u8] = [&b"\n"[..], &b"x"[..], &b"\r\n"[..], &b"\xc3\xa9"[..], &b"ab\n"[..]][sym::choose(units)];
  let mut b = Vec::new();
  while b.len() < size { b.extend_from_slice(unit) }
  let pre = b.len();
  for _ in 0..n { b.push(sym::u8()) }
  b.extend_from_slice(b"\nz");
  sym::assume(sym::utf8_ok(&b[pre..pre + n + 1]));
  (unsafe { std::str::from_utf8_unchecked(sym::leak(b)) }, pre)
}
fn c09_far(sizes: &[usize], units: usize, n: usize) {
  sym::limit(800000000);
  let (t, pre) = far_text(sizes[sym::choose(sizes.len())], units, n); let v = t.as_bytes();
  let target = pre + sym::choose(n + 3); sym::assume(sym::boundary(v, target));
  let filemap = sym::choose(2) == 1;
  let fm = file(t, 7, vec![]); let mut f = (&fm).stream();
  let mut s = t.stream();
  let at = if filemap { advance(&mut f, v, target) } else { advance(&mut s, v, target) };
  match at { Some(at) => {
    let got = if filemap { f.location() } else { s.location() };
    sym::check(got.as_bytes() == &reference_location(v, at)[..], "location far from the start");
    let (snip, has) = if filemap { (f.code_snippet(3), f.has_next()) } else { (s.code_snippet(3), s.has_next()) };
    sym::check(snip.as_bytes() == &reference_snippet(v, at, 3)[..], "snippet far from the start");
    sym::check(has == (at < v.len()), "has_next far from the start");
    sym::reach("far");
  } None => sym::check(false, "not on a boundary") }
}
#[no_mangle] pub extern "C" fn c09_far300() { c09_far(&[255, 256, 300], 5, 2) }
#[no_mangle] pub extern "C" fn c09_far65536() { c09_far(&[65535], 2, 1) }
#[no_mangle] pub extern "C" fn c09_far70000() { c09_far(&[1000, 65535, 65536], 5, 2) }
// The location of a position does not depend on how it was reached nor on what was asked before.
fn c09_hist<S: Clone + Iterator<Item = char> + Location + ConsumePrefix<&'static str>>(mut s: S, v: &[u8], steps: usize) {
  let mut at = 0usize; let mut saved = s.clone(); let mut saved_at = 0usize;
  for _ in 0..steps {
    match sym::choose(5) {
      0 => { if at < v.len() { let (_, n) = sym::decode(v, at); at += n; } s.next(); }
      1 => { let t = s.clone(); let k = at; s = saved; at = saved_at; saved = t; saved_at = k; }
      k => { let p = ["\n", "\r\n", "ab"][k - 2]; if reference_prefix(v, at, p.as_bytes()) { at += p.len(); sym::reach("prefix matched"); } s.consume_prefix(p); }
    }
    if sym::choose(2) == 0 { sym::check(s.location().as_bytes() == &reference_location(v, at)[..], "location after a history of operations"); }
  }
  sym::check(s.location().as_bytes() == &reference_location(v, at)[..], "location after a history of operations");
  sym::check(saved.location().as_bytes() == &reference_location(v, saved_at)[..], "location of a saved position");
  sym::reach("history");
}
fn c09_history(n: usize, steps: usize) {
  let t = sym::text(0, n);
  if sym::choose(2) == 0 { c09_hist(t.stream(), t.as_bytes(), steps) }
  else { let fm = file(t, 3, vec![]); let fm: &'static Rc<FileMap> = Box::leak(Box::new(fm)); c09_hist(fm.stream(), t.as_bytes(), steps) }
}
#[no_mangle] pub extern "C" fn c09_hist3() { c09_history(3, 3) }
#[no_mangle] pub extern "C" fn c09_hist4() { c09_history(4, 4) }

// ---------------------------------------------------------------- C10
fn reference_snippet(v: &[u8], at: usize, hint: usize) -> Vec<u8> {
  if at == v.len() { return b"<end-of-file>".to_vec() }
  let mut end = if hint >= v.len() - at { v.len() } else { at + hint };
  while !sym::boundary(v, end) { end -= 1; }
  v[at..end].to_vec()
}
fn c10_snip(n: usize) {
  let t = sym::text(0, n); let v = t.as_bytes(); let target = sym::choose(v.len() + 1); sym::assume(sym::boundary(v, target));
  let hint = sym::u64() as usize;
  let mut s = t.stream();
  if let Some(at) = advance(&mut s, v, target) {
    let got = s.code_snippet(hint);
    sym::check(got.as_bytes() == &reference_snippet(v, at, hint)[..], "snippet is the longest prefix within the hint");
    sym::log_str(got.as_bytes()); sym::reach("snippet");
  }
}
#[no_mangle] pub extern "C" fn c10_snip4() { c10_snip(4) }
#[no_mangle] pub extern "C" fn c10_snip6() { c10_snip(6) }
#[no_mangle] pub extern "C" fn c10_snip8() { c10_snip(8) }
const LONG_ITEMS: [&'static str; 3] = ["<character>", "[\"a-z\\\"\\u{e9}\"]", "+"];
fn perms(items: &[&'static str]) -> Vec<Vec<&'static str>> {
  if items.len() == 0 { return vec![vec![]] }
  let mut r = vec![];
  for i in 0..items.len() { let mut rest = items.to_vec(); let x = rest.remove(i); for mut p in perms(&rest) { p.insert(0, x); r.push(p); } }
  r
}
fn reference_message(v: &[u8], at: usize, items: &[&'static str]) -> Vec<u8> {
  let mut o = reference_location(v, at);
  o.extend_from_slice(b": unexpected `"); o.extend(reference_snippet(v, at, 10)); o.extend_from_slice(b"`, expecting ");
  let mut first = true;
  for i in items { if !first { o.extend_from_slice(b" or "); } first = false; o.push(b'`'); o.extend_from_slice(i.as_bytes()); o.push(b'`'); }
  o.push(b'.'); o
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut e = true; for i in 0..a.len() { e = e & (a[i] == b[i]); } e }
fn ends_with(a: &[u8], b: &[u8]) -> bool { a.len() >= b.len() && bytes_eq(&a[a.len() - b.len()..], b) }
fn c10_msg(t: &'static str, target: usize, shape: usize) {
  let v = t.as_bytes(); sym::assume(sym::boundary(v, target));
  let mut s = t.stream();
  let at = match advance(&mut s, v, target) { Some(a) => a, None => { sym::check(false, "not on a boundary"); return } };
  // which items are reported, with duplicates
  let picks: [&[usize]; 8] = [&[], &[0], &[1, 1], &[0, 1], &[2, 0, 2], &[0, 1, 2], &[2, 1, 0, 2, 1, 0], &[0, 0, 0]];
  let pick = picks[sym::choose(8)];
  let mut expected = vec![]; let mut set: Vec<&'static str> = vec![];
  for &i in pick { expected.push(LONG_ITEMS[i]); if !set.contains(&LONG_ITEMS[i]) { set.push(LONG_ITEMS[i]); } }
  let texts: Vec<Vec<u8>> = perms(&set).iter().map(|p| reference_message(v, at, p)).collect();
  let one_of = |got: &[u8], suffix: bool| { let mut r = false; for x in &texts { r = r | (if suffix { ends_with(got, x) } else { bytes_eq(got, x) }); } r };
  if shape == 0 {
    let e = ParseExpectation::new(s, expected);
    let got = format!("{:?}", e);
    sym::check(one_of(got.as_bytes(), false), "text of an expectation"); sym::reach("expectation");
  } else {
    let mut st: ParseState<StrStream<'static>, u8> = t.into_state(); st.farthest_read = s; st.expected = expected;
    let st = if shape == 1 { st.failure() } else { for _ in t.chars() { st.next(); if shape == 2 { break } } st.success(42u8) };
    let r = st.into_result();
    let kind = match r { ParseResult::Success(_) => 0, ParseResult::Partial(..) => 1, ParseResult::Failure(_) => 2 };
    let got = format!("{:?}", r);
    if kind != 0 { sym::check(one_of(got.as_bytes(), true), "text of a parse result"); }
    if kind != 2 { sym::check(got.contains("42"), "the data is shown"); }
    sym::reach(["Success shown", "Partial shown", "Failure shown"][kind]);
  }
}
#[no_mangle] pub extern "C" fn c10_msg_short() { let t = sym::text(0, 3); let at = sym::choose(t.len() + 1); let shape = sym::choose(4); c10_msg(t, at, shape) }
#[no_mangle] pub extern "C" fn c10_msg_long() { let pre = sym::choose(11); let t = filled(pre, b'x', 4, 2); let at = [0, pre, pre + 6][sym::choose(3)]; let shape = sym::choose(2); c10_msg(t, at, shape) }
#[no_mangle] pub extern "C" fn c10_msg_deep() { let pre = sym::choose(11); let t = filled(pre, b'x', 6, 2); let at = sym::choose(t.len() + 1); let shape = sym::choose(4); c10_msg(t, at, shape) }
// Many expected items: each of them once, in any order.
#[no_mangle] pub extern "C" fn c10_many() {
  const MANY: [&'static str; 40] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "aa", "ab", "ac", "ad", "ae", "af", "[\"a-z\"]", "<character>", "ag", "ah", "ai", "aj", "\u{e9}", " "];
  let n = [4, 5, 8, 16, 17, 33, 40][sym::choose(7)];
  let t = sym::text(0, 2); let mut s = t.stream(); let v = t.as_bytes();
  let target = sym::choose(v.len() + 1); sym::assume(sym::boundary(v, target));
  let at = match advance(&mut s, v, target) { Some(a) => a, None => return };
  let mut expected: Vec<&'static str> = MANY[..n].to_vec();
  // some of them twice
  for _ in 0..sym::choose(3) { let k = sym::choose(3); expected.push(MANY[k * (n - 1) / 2]) }
  let got = format!("{:?}", ParseExpectation::new(s, expected));
  let head = { let mut o = reference_location(v, at); o.extend_from_slice(b": unexpected `"); o.extend(reference_snippet(v, at, 10)); o.extend_from_slice(b"`, expecting "); o };
  let g = got.as_bytes();
  sym::check(g.len() > head.len() && bytes_eq(&g[..head.len()], &head) && g[g.len() - 1] == b'.', "text of an expectation with many items");
  if g.len() <= head.len() { return }
  let list = match std::str::from_utf8(&g[head.len()..g.len() - 1]) { Ok(x) => x, Err(_) => { sym::check(false, "the message is text"); return } };
  let mut seen = [0usize; 40]; let mut all = 0;
  for item in list.split(" or ") { all += 1; for i in 0..n { if item.len() == MANY[i].len() + 2 && item.starts_with('`') && item.ends_with('`') && &item[1..item.len() - 1] == MANY[i] { seen[i] += 1 } } }
  let mut ok = all == n; for i in 0..n { ok = ok & (seen[i] == 1) }
  sym::check(ok, "each expected item is listed exactly once"); sym::reach("many");
}

// ---------------------------------------------------------------- C11
fn file(t: &'static str, start: u32, lines: Vec<BytePos>) -> Rc<FileMap> {
  Rc::new(FileMap { name: String::from("f"), abs_path: None, src: Some(Rc::new(String::from(t))), start_pos: BytePos(start), end_pos: BytePos(start + t.len() as u32), lines: RefCell::new(lines), multibyte_chars: RefCell::new(vec![]) })
}
fn c11_lines(n: usize) {
  let t = sym::text(0, n); let v = t.as_bytes(); let start = sym::u32(); sym::assume(start < 0xffff0000);
  if sym::choose(2) == 0 {
    let fm = file(t, start, vec![]);
    { let _s = (&fm).stream(); }
    let mut want = vec![]; let mut fresh = true;
    for i in 0..v.len() { if fresh { want.push(start + i as u32); } fresh = v[i] == b'\n'; }
    let got: Vec<u32> = fm.lines.borrow().iter().map(|p| p.0).collect();
    sym::check(got.len() == want.len(), "number of registered lines");
    let mut eq = true; for i in 0..got.len() { eq = eq & (got[i] == want[i]); }
    sym::check(eq, "start positions of the lines"); sym::reach("registered");
    { let _again = (&fm).stream(); }
    sym::check(fm.lines.borrow().len() == want.len(), "registering is done once");
  } else {
    // Any table of one to four lines.
    let k = 1 + sym::choose(4);
    let mut ps = vec![start];
    for _ in 1..k { let d = sym::u8() as u32; sym::assume(d > 0); let last = ps[ps.len() - 1]; ps.push(last + d); }
    let fm = file(t, start, ps.iter().map(|p| BytePos(*p)).collect());
    { let _s = (&fm).stream(); }
    let ok = { let b = fm.lines.borrow(); let mut ok = b.len() == k; for i in 0..k { if i < b.len() { ok = ok & (b[i].0 == ps[i]); } } ok };
    sym::check(ok, "an existing line table is left untouched"); sym::reach("untouched");
  }
}
#[no_mangle] pub extern "C" fn c11_lines4() { c11_lines(4) }
#[no_mangle] pub extern "C" fn c11_lines6() { c11_lines(6) }
#[no_mangle] pub extern "C" fn c11_lines8() { c11_lines(8) }
fn c11_walk(n: usize, steps: usize, plen: usize) {
  let t = sym::text(0, n); let start = sym::u32(); sym::assume(start < 0xffff0000);
  let fm = file(t, start, vec![]); let fm: &'static Rc<FileMap> = Box::leak(Box::new(fm));
  let origin = fm.stream();
  traverse(fm.stream(), t.as_bytes(), steps, plen, |s: &FileMapStream| { let sp = span_of(&origin, s); sym::check(sp.lo.0 == start, "span starts at the file's start position"); (sp.hi.0.wrapping_sub(start)) as usize });
}
#[no_mangle] pub extern "C" fn c11_walk_a() { c11_walk(3, 3, 0) }
#[no_mangle] pub extern "C" fn c11_walk_p() { c11_walk(3, 2, 2) }
#[no_mangle] pub extern "C" fn c11_walk_deep() { c11_walk(5, 4, 0) }
// Same operations on a StrStream and a FileMapStream over one text.
fn c11_same(n: usize, steps: usize) {
  let t = sym::text(0, n); let start = sym::u32(); sym::assume(start < 0xffff0000);
  // whatever lines are registered
  let lines = match sym::choose(3) { 0 => vec![], 1 => vec![BytePos(start)], _ => vec![BytePos(start), BytePos(start + 2), BytePos(start + 300)] };
  let fm = file(t, start, lines); let mut f = (&fm).stream(); let mut s = t.stream();
  let mut fs = vec![f.clone()]; let mut ss = vec![s.clone()];
  for _ in 0..steps {
    match sym::choose(2) {
      0 => sym::check(f.next() == s.next(), "same characters"),
      _ => { let p = PREFIXES[sym::choose(PREFIXES.len())]; sym::check(f.consume_prefix(p) == s.consume_prefix(p), "same prefix answer") }
    }
    fs.push(f.clone()); ss.push(s.clone());
  }
  sym::check(f.has_next() == s.has_next(), "same has_next");
  sym::check(f.location() == s.location(), "same location");
  let hint = sym::u64() as usize; 
  sym::check(f.code_snippet(hint) == s.code_snippet(hint), "same snippet");
  for i in 0..fs.len() {
    sym::check(Ord::cmp(&fs[i], &f) == Ord::cmp(&ss[i], &s) && PartialOrd::partial_cmp(&fs[i], &f) == PartialOrd::partial_cmp(&ss[i], &s) && (fs[i] == f) == (ss[i] == s) && (fs[i] < f) == (ss[i] < s), "same order");
    let a = span_of(&fs[i], &f); let b = Range { start: ss[i].clone(), end: s.clone() }.stream_span();
    sym::check(a.lo.0 == start + b.lo.0 && a.hi.0 == start + b.hi.0, "absolute spans");
    sym::check(b.lo.0 as usize == ss[i].bytes_offset() && b.hi.0 as usize == s.bytes_offset(), "span of a StrStream range");
  }
  sym::reach("same");
}
#[no_mangle] pub extern "C" fn c11_same_a() { c11_same(4, 2) }
#[no_mangle] pub extern "C" fn c11_same_deep() { c11_same(5, 4) }

entries!(c07_step, c07_hist3, c07_hist5, c07_hist6, c07_hist7, c08_a, c08_prefix, c08_deep, c08_prefix_deep, c08_all6, c08_all9, c08_long, c09_4, c09_6, c09_8, c09_file4, c09_file6, c09_digits, c09_far300, c09_far65536, c09_far70000, c08_far, c09_hist3, c09_hist4, c10_many,
  c10_snip4, c10_snip6, c10_snip8, c10_msg_short, c10_msg_long, c10_msg_deep, c11_lines4, c11_lines6, c11_lines8, c11_walk_a, c11_walk_p, c11_walk_deep, c11_same_a, c11_same_deep);
