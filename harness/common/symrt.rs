// Harness side of the symbolic executor's interface: `include!`d by every harness crate.
// The extern functions are intercepted by oaksym; symnative.c gives them a concrete meaning (trace replay).
#[allow(dead_code)]
pub mod sym {
  extern "C" {
    fn sym_u8() -> u8; fn sym_u16() -> u16; fn sym_u32() -> u32; fn sym_u64() -> u64;
    fn sym_assume(c: u8); fn sym_assert(c: u8, p: *const u8, n: usize); fn sym_choose(n: u32) -> u32;
    fn sym_reach(p: *const u8, n: usize); fn sym_allow_panic(c: u32); fn sym_log(x: u64); fn sym_limit(x: u64); fn sym_concretize(x: u64) -> u64; fn sym_tag(p: *const u8, n: usize);
    pub fn sym_native_main(n: usize, names: *const *const u8, lens: *const usize, fns: *const extern "C" fn()) -> i32;
  }
  #[inline(never)] pub fn u8() -> u8 { unsafe { sym_u8() } }
  pub fn u16() -> u16 { unsafe { sym_u16() } }
  pub fn u32() -> u32 { unsafe { sym_u32() } }
  pub fn u64() -> u64 { unsafe { sym_u64() } }
  pub fn flag() -> bool { let b = u8(); assume(b < 2); b == 1 }
  pub fn below(n: u32) -> u32 { let v = u32(); assume(v < n); v }
  pub fn assume(c: bool) { unsafe { sym_assume(c as u8) } }
  pub fn check(c: bool, m: &str) { unsafe { sym_assert(c as u8, m.as_ptr(), m.len()) } }
  pub fn choose(n: usize) -> usize { unsafe { sym_choose(n as u32) as usize } }
  pub fn reach(m: &str) { unsafe { sym_reach(m.as_ptr(), m.len()) } }
  pub fn allow_panic(c: bool) { unsafe { sym_allow_panic(c as u32) } }
  pub fn log(x: u64) { unsafe { sym_log(x) } }
  pub fn log_str(s: &[u8]) { log(s.len() as u64); let mut h = 1469598103934665603u64; for &b in s { h = (h ^ b as u64).wrapping_mul(1099511628211); } log(h) }
  // shown by native replays
  pub fn tag(m: &str) { unsafe { sym_tag(m.as_ptr(), m.len()) } }
  pub fn limit(x: u64) { unsafe { sym_limit(x) } }
  pub fn concrete(x: usize) -> usize { unsafe { sym_concretize(x as u64) as usize } }
  pub fn leak(v: Vec<u8>) -> &'static mut [u8] { Box::leak(v.into_boxed_slice()) }

  fn is(c: bool) -> u8 { c as u8 }
  fn rng(b: u8, lo: u8, hi: u8) -> u8 { is(b.wrapping_sub(lo) <= hi - lo) }
  // Branch-free UTF-8 validity: ok[i] says that v[i..] is well formed.
  pub fn utf8_ok(v: &[u8]) -> bool {
    let n = v.len();
    let mut ok = vec![0u8; n + 1];
    ok[n] = 1;
    let mut i = n;
    while i > 0 {
      i -= 1;
      let b = v[i];
      let mut r = is(b < 0x80) & ok[i + 1];
      if i + 2 <= n { r |= rng(b, 0xc2, 0xdf) & rng(v[i + 1], 0x80, 0xbf) & ok[i + 2]; }
      if i + 3 <= n {
        let c = v[i + 1];
        let second = (is(b == 0xe0) & rng(c, 0xa0, 0xbf)) | ((rng(b, 0xe1, 0xec) | rng(b, 0xee, 0xef)) & rng(c, 0x80, 0xbf)) | (is(b == 0xed) & rng(c, 0x80, 0x9f));
        r |= second & rng(v[i + 2], 0x80, 0xbf) & ok[i + 3];
      }
      if i + 4 <= n {
        let c = v[i + 1];
        let second = (is(b == 0xf0) & rng(c, 0x90, 0xbf)) | (rng(b, 0xf1, 0xf3) & rng(c, 0x80, 0xbf)) | (is(b == 0xf4) & rng(c, 0x80, 0x8f));
        r |= second & rng(v[i + 2], 0x80, 0xbf) & rng(v[i + 3], 0x80, 0xbf) & ok[i + 4];
      }
      ok[i] = r;
    }
    ok[0] == 1
  }
  // An arbitrary well-formed text of exactly n bytes.
  pub fn text_exact(n: usize) -> &'static str {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(u8()); }
    assume(utf8_ok(&v));
    unsafe { ::std::str::from_utf8_unchecked(leak(v)) }
  }
  // An arbitrary well-formed text of lo..=hi bytes (the length is a decision of its own).
  pub fn text(lo: usize, hi: usize) -> &'static str { let n = lo + choose(hi - lo + 1); text_exact(n) }
  // Reference decoding of the character that starts at byte `at` of a well-formed text, with its length.
  pub fn decode(v: &[u8], at: usize) -> (u32, usize) {
    let b = v[at] as u32;
    if b < 0x80 { return (b, 1) }
    if b < 0xe0 { return ((b & 0x1f) << 6 | (v[at + 1] as u32 & 0x3f), 2) }
    if b < 0xf0 { return ((b & 0xf) << 12 | (v[at + 1] as u32 & 0x3f) << 6 | (v[at + 2] as u32 & 0x3f), 3) }
    ((b & 7) << 18 | (v[at + 1] as u32 & 0x3f) << 12 | (v[at + 2] as u32 & 0x3f) << 6 | (v[at + 3] as u32 & 0x3f), 4)
  }
  pub fn boundary(v: &[u8], at: usize) -> bool { at == v.len() || (at < v.len() && (v[at] & 0xc0) != 0x80) }

  pub fn native(table: &[(&'static str, extern "C" fn())]) {
    let names: Vec<*const u8> = table.iter().map(|e| e.0.as_ptr()).collect();
    let lens: Vec<usize> = table.iter().map(|e| e.0.len()).collect();
    let fns: Vec<extern "C" fn()> = table.iter().map(|e| e.1).collect();
    let r = unsafe { sym_native_main(table.len(), names.as_ptr(), lens.as_ptr(), fns.as_ptr()) };
    ::std::process::exit(r);
  }
}
macro_rules! entries {
  ($($name:ident),* $(,)*) => { fn main() { sym::native(&[$((stringify!($name), $name as extern "C" fn())),*]); } }
}
