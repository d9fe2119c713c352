//! Interface between harnesses and the two ways of running them:
//! * wasm32: the symbolic executor provides the `vp` imports;
//! * native: inputs come from a list (a solver model), used to replay counterexamples and sampled paths.
use std::ops::{BitAnd, BitOr, Not};

/// A truth value that may be symbolic; `&`, `|`, `!` never branch.
#[derive(Clone, Copy)]
pub struct B(pub u32);
impl BitAnd for B { type Output = B; #[inline(always)] fn bitand(self, o: B) -> B { B(self.0 & o.0) } }
impl BitOr for B { type Output = B; #[inline(always)] fn bitor(self, o: B) -> B { B(self.0 | o.0) } }
impl Not for B { type Output = B; #[inline(always)] fn not(self) -> B { B(self.0 ^ 1) } }
impl From<bool> for B { #[inline(always)] fn from(b: bool) -> B { B(b as u32) } }
pub const T: B = B(1);
pub const F: B = B(0);

pub type Class = [u64; 4];
const fn class_of(f: &[(u8, u8)]) -> Class {
    let mut c = [0u64; 4];
    let mut i = 0;
    while i < f.len() {
        let mut x = f[i].0 as u16;
        while x <= f[i].1 as u16 { c[(x >> 6) as usize] |= 1 << (x & 63); x += 1 }
        i += 1;
    }
    c
}
/// printable ASCII except `"` and `\` (bytes JSON never escapes)
pub static TEXT: Class = class_of(&[(32, 33), (35, 91), (93, 126)]);
pub static DIGIT: Class = class_of(&[(48, 57)]);
pub static ALNUM: Class = class_of(&[(48, 57), (65, 90), (97, 122)]);
pub static ANY: Class = class_of(&[(0, 255)]);
/// printable bytes whose decimal form has two digits (used inside packet data, which is a JSON array of numbers)
pub static TWO: Class = class_of(&[(32, 33), (35, 91), (93, 99)]);
/// bytes that are no character on their own
pub static HIGH: Class = class_of(&[(128, 255)]);
/// seven-bit ASCII
pub static ASCII: Class = class_of(&[(0, 127)]);

#[cfg(target_arch = "wasm32")]
mod sys {
    #[link(wasm_import_module = "vp")]
    extern "C" {
        pub fn sym_u64(lo: u64, hi: u64) -> u64;
        pub fn sym_bytes(p: *mut u8, n: usize, class: *const u64);
        pub fn choose(n: u32) -> u32;
        pub fn assume(c: u32);
        pub fn assert_(c: u32, p: *const u8, n: usize);
        pub fn cover(p: *const u8, n: usize);
        pub fn eq(a: *const u8, b: *const u8, n: usize) -> u32;
        pub fn try_(f: usize, d: *mut u8) -> u32;
        pub fn note(k: *const u8, kn: usize, p: *const u8, n: usize);
        pub fn deep() -> u32;
    }
}

#[cfg(not(target_arch = "wasm32"))]
pub mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx { pub inputs: Vec<u64>, pub pos: usize, pub fails: Vec<String>, pub covers: Vec<String>, pub notes: Vec<(String, Vec<u8>)>, pub verbose: bool }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()) }
    pub struct AssumeFailed;
    pub fn next(what: &str) -> u64 {
        CTX.with(|c| { let mut c = c.borrow_mut(); let p = c.pos; if p >= c.inputs.len() { stop(&c, &format!("input list exhausted at {what}"), 4) } c.pos += 1; c.inputs[p] })
    }
    /// The recorded inputs end here. A counterexample ends at the assertion it breaks (the symbolic run stops there), so if one
    /// has failed, that is the result; otherwise the inputs do not fit the harness.
    pub fn stop(c: &Ctx, why: &str, rc: i32) -> ! {
        if c.fails.is_empty() { eprintln!("replay: {why}"); std::process::exit(rc) }
        report(c, false);
        std::process::exit(0)
    }
    pub fn report(c: &Ctx, panicked: bool) {
        let esc = |s: &str| format!("{:?}", s);
        let mut fails = c.fails.clone();
        if panicked { fails.push("uncaught panic".into()) }
        let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        println!("{{\"fails\":[{}],\"covers\":[{}],\"notes\":[{}],\"consumed\":{},\"given\":{}}}", fails.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), c.covers.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            c.notes.iter().map(|(k, v)| format!("[{},\"{}\"]", esc(k), hex(v))).collect::<Vec<_>>().join(","), c.pos, c.inputs.len());
    }
}
#[cfg(not(target_arch = "wasm32"))]
mod sys {
    use super::native::*;
    pub unsafe fn sym_u64(lo: u64, hi: u64) -> u64 { let v = next("u64"); assert!(v >= lo && v <= hi, "replay value outside range"); v }
    pub unsafe fn sym_bytes(p: *mut u8, n: usize, class: *const u64) {
        let cl = std::slice::from_raw_parts(class, 4);
        for i in 0..n { let v = next("byte"); assert!(v < 256 && (cl[(v >> 6) as usize] >> (v & 63)) & 1 == 1, "replay byte outside class"); *p.add(i) = v as u8 }
    }
    pub unsafe fn choose(n: u32) -> u32 { let v = next("choose"); assert!(v < n as u64); v as u32 }
    pub unsafe fn assume(c: u32) { if c == 0 { CTX.with(|c| stop(&c.borrow(), "assumption not met", 3)) } }
    pub unsafe fn assert_(c: u32, p: *const u8, n: usize) { if c == 0 { let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned(); CTX.with(|c| c.borrow_mut().fails.push(s)) } }
    pub unsafe fn cover(p: *const u8, n: usize) { let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned(); CTX.with(|c| { let mut c = c.borrow_mut(); if !c.covers.contains(&s) { c.covers.push(s) } }) }
    pub unsafe fn deep() -> u32 { std::env::var("VP_DEEP").ok().and_then(|x| x.parse().ok()).unwrap_or(0) }
    pub unsafe fn eq(a: *const u8, b: *const u8, n: usize) -> u32 { (std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)) as u32 }
    pub unsafe fn note(k: *const u8, kn: usize, p: *const u8, n: usize) {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(k, kn)).into_owned();
        let v = std::slice::from_raw_parts(p, n).to_vec();
        CTX.with(|c| c.borrow_mut().notes.push((s, v)))
    }
}

/// Any value in `lo..=hi`.
pub fn u64_in(lo: u64, hi: u64) -> u64 { unsafe { sys::sym_u64(lo, hi) } }
pub fn any_u64() -> u64 { u64_in(0, u64::MAX) }
pub fn any_u32() -> u32 { u64_in(0, u32::MAX as u64) as u32 }
/// A concrete value in `0..n`; every value is explored.
pub fn choose(n: usize) -> usize { unsafe { sys::choose(n as u32) as usize } }
pub fn flip() -> bool { choose(2) == 1 }
thread_local! { static HOLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) } }
/// Make the `k`-th field drawn from now on (counting from 1) empty; 0: none.
pub fn set_hole(k: usize) { HOLE.with(|h| h.set(k)) }
pub fn hole() -> bool { HOLE.with(|h| { let v = h.get(); if v > 0 { h.set(v - 1) } v == 1 }) }
/// Tier: 0 quick, 1 thorough (larger bounds).
pub fn deep() -> bool { unsafe { sys::deep() > 0 } }
/// `quick` in the quick tier, `thorough` in the thorough tier.
pub fn tier<X>(quick: X, thorough: X) -> X { if deep() { thorough } else { quick } }
/// A symbolic truth value (no fork).
pub fn any_b() -> B { B(u64_in(0, 1) as u32) }
pub fn bytes_of(n: usize, class: &'static Class) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 { unsafe { sys::sym_bytes(v.as_mut_ptr(), n, class.as_ptr()) } }
    v
}
pub fn string_of(n: usize, class: &'static Class) -> String { unsafe { String::from_utf8_unchecked(bytes_of(n, class)) } }
pub fn string(n: usize) -> String { string_of(n, &TEXT) }
pub fn assume(c: impl Into<B>) { unsafe { sys::assume(c.into().0) } }
#[inline(never)]
pub fn check(c: impl Into<B>, id: &str) { unsafe { sys::assert_(c.into().0, id.as_ptr(), id.len()) } }
#[inline(never)]
pub fn cover(id: &str) { unsafe { sys::cover(id.as_ptr(), id.len()) } }
/// Record an observable value; compared between the symbolic run (under the model) and the native run.
#[inline(never)]
pub fn note(k: &str, b: &[u8]) { unsafe { sys::note(k.as_ptr(), k.len(), b.as_ptr(), b.len()) } }
/// Byte-string equality without branching on contents.
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> B { if a.len() != b.len() { return F } if a.is_empty() { return T } B(unsafe { sys::eq(a.as_ptr(), b.as_ptr(), a.len()) }) }
pub fn seq(a: &str, b: &str) -> B { eq(a.as_bytes(), b.as_bytes()) }
#[inline(never)]
pub fn eq64(a: u64, b: u64) -> B { let (x, y) = (a.to_le_bytes(), b.to_le_bytes()); eq(&x, &y) }
pub fn oseq(a: &Option<String>, b: &Option<String>) -> B { match (a, b) { (None, None) => T, (Some(x), Some(y)) => seq(x, y), _ => F } }

/// Run `f`; `None` if it panics (a panic in contract code aborts the transaction).
#[cfg(target_arch = "wasm32")]
pub fn run<R, G: FnOnce() -> R>(f: G) -> Option<R> {
    unsafe extern "C" fn tramp<R, G: FnOnce() -> R>(d: *mut u8) {
        let s = unsafe { &mut *(d as *mut (Option<G>, Option<R>)) };
        let g = s.0.take().unwrap();
        s.1 = Some(g());
    }
    let mut s: (Option<G>, Option<R>) = (Some(f), None);
    let t: unsafe extern "C" fn(*mut u8) = tramp::<R, G>;
    let r = unsafe { sys::try_(t as usize, &mut s as *mut _ as *mut u8) };
    if r == 0 { s.1.take() } else { std::mem::forget(s); None }
}
#[cfg(not(target_arch = "wasm32"))]
pub fn run<R, G: FnOnce() -> R>(f: G) -> Option<R> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
/// Unsigned comparison without branching.
#[inline(never)]
pub fn lt64(a: u64, b: u64) -> B { B((a < b) as u32) }
/// A number that gets printed in decimal somewhere: any of 256 consecutive values at the start of the range, in the
/// middle (nanosecond timestamps) or at its end. One symbolic byte keeps its decimal digits a function of one variable.
pub fn num() -> u64 {
    let b = bytes_of(1, &ANY)[0] as u64;
    match choose(tier(4, 5)) { 0 => 100 + b, 1 => 1_700_000_000_000_000_000 + b, 2 => u64::MAX - 255 + b, 3 => b, _ => (1 << 32) - 128 + b }
}

/// The same with the range given.
pub fn num_at(k: usize) -> u64 { let b = bytes_of(1, &ANY)[0] as u64; match k { 0 => 100 + b, 1 => 1_700_000_000_000_000_000 + b, 2 => u64::MAX - 255 + b, 3 => b, _ => (1 << 32) - 128 + b } }
/// A three-digit number (100..=227), for values printed in decimal where several are in play.
pub fn num3() -> u64 { 100 + (bytes_of(1, &ANY)[0] & 127) as u64 }
/// Dimensions of variation: `pick(i, n)` explores `0..n` if dimension `i` is (one of) the chosen, else 0.
pub struct Axis(usize, usize);
/// One dimension at a time.
pub fn axis(n: usize) -> Axis { let i = choose(n); Axis(i, i) }
/// Every two dimensions together.
pub fn pairs(n: usize) -> Axis { let i = choose(n * (n - 1) / 2); let (mut a, mut r) = (0, i); while r >= n - 1 - a { r -= n - 1 - a; a += 1 } Axis(a, a + 1 + r) }
/// One dimension at a time, two in the thorough tier.
pub fn dims(n: usize) -> Axis { if deep() { pairs(n) } else { axis(n) } }
impl Axis { pub fn pick(&self, i: usize, n: usize) -> usize { if self.0 == i || self.1 == i { choose(n) } else { 0 } } }
