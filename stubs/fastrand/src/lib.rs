//! Nondeterministic stand-in for `fastrand`: every draw is an arbitrary value allowed by the
//! documented contract of the real crate (integers anywhere in the requested range, floats in [0,1)).
use std::ops::{Bound, RangeBounds};
extern "C" { fn rsx_u64(lo: u64, hi: u64) -> u64; fn rsx_f64() -> f64; fn rsx_f32() -> f32; fn rsx_assume(c: u8); }
/// `.1`: made without a seed (so that what it draws is never reproducible: it is not on the tape).
#[derive(Debug)]
pub struct Rng(u64, bool);
impl PartialEq for Rng { fn eq(&self, o: &Rng) -> bool { self.0 == o.0 } }
impl Eq for Rng {}
impl Clone for Rng { fn clone(&self) -> Self { Rng(self.0, self.1) } }
impl Default for Rng { fn default() -> Self { Rng::new() } }
fn bounds(lo: Bound<&i128>, hi: Bound<&i128>, min: i128, max: i128) -> (i128, i128) {
    let l = match lo { Bound::Included(x) => *x, Bound::Excluded(x) => *x + 1, Bound::Unbounded => min };
    let h = match hi { Bound::Included(x) => *x, Bound::Excluded(x) => *x - 1, Bound::Unbounded => max };
    (l, h)
}
/// Scripted integer draws: (value, size of the range it answers). A draw from a range of another size ends the
/// script (and is arbitrary), which `script_ok` then reports.
static mut SCRIPT: Option<Vec<(u64, u64)>> = None;
static mut OFF: bool = false;
pub fn script(d: Vec<(u64, u64)>) { unsafe { SCRIPT = Some(d); OFF = false; } }
/// whether every scripted draw was consumed as intended and nothing else was drawn; ends the script
#[allow(static_mut_refs)]
pub fn script_ok() -> bool { unsafe { let r = !OFF && SCRIPT.as_ref().is_some_and(|s| s.is_empty()); SCRIPT = None; r } }
#[allow(static_mut_refs)]
fn scripted(n: u64) -> Option<u64> { unsafe {
    let s = SCRIPT.as_mut()?;
    if OFF || s.is_empty() || s[0].1 != n { OFF = true; return None; }
    Some(s.remove(0).0)
} }
/// Drawn floats are kept for the harness while logging is on.
static mut FLOATS: Option<Vec<f64>> = None;
pub fn log_floats() { unsafe { FLOATS = Some(vec![]); } }
#[allow(static_mut_refs)]
pub fn floats() -> Vec<f64> { unsafe { FLOATS.clone().unwrap_or_default() } }
#[allow(static_mut_refs)]
fn keep(x: f64) { unsafe { if let Some(v) = FLOATS.as_mut() { v.push(x); rsx_assume((v.len() <= FLOAT_CAP) as u8); } } }
/// paths drawing more than this many logged floats are abandoned
static mut FLOAT_CAP: usize = usize::MAX;
pub fn float_cap(n: usize) { unsafe { FLOAT_CAP = n; } }
/// Floats are drawn from a list (every choice explored) instead of being arbitrary.
static mut CHOICES: Vec<f64> = Vec::new();
pub fn float_choices(v: Vec<f64>) { unsafe { CHOICES = v; } }
/// ... every n-th one only, beginning with the next
static mut EVERY: usize = 1;
static mut DRAWN: usize = 0;
pub fn float_period(n: usize) { unsafe { EVERY = n; DRAWN = 0; } }
#[allow(static_mut_refs)]
fn chosen() -> Option<f64> { unsafe { if CHOICES.is_empty() { return None; } DRAWN += 1; if (DRAWN - 1) % EVERY != 0 { return None; } let k = rsx_u64(0, CHOICES.len() as u64 - 1); for (i, c) in CHOICES.iter().enumerate() { if k == i as u64 { return Some(*c); } } None } }
/// After `fresh` arbitrary integer draws, further draws repeat the last value drawn from a range of the same size
/// (retries then repeat the first attempt); more than `max` draws abandon the path.
struct Sticky { fresh: u32, max: u32, n: u32, last: Vec<(u64, u64)> }
static mut STICKY: Option<Sticky> = None;
pub fn sticky(fresh: u32, max: u32) { unsafe { STICKY = Some(Sticky { fresh, max, n: 0, last: vec![] }); } }
#[allow(static_mut_refs)]
fn draw(hi: u64, free: bool) -> u64 { if free { return draw_(hi); } taped(hi, || (draw_(hi), 0.0)).0 }
#[allow(static_mut_refs)]
fn draw_(hi: u64) -> u64 { unsafe {
    let Some(s) = STICKY.as_mut() else { return rsx_u64(0, hi) };
    s.n += 1;
    rsx_assume((s.n <= s.max) as u8);
    if s.n > s.fresh { for (h, v) in s.last.iter() { if *h == hi { return *v; } } }
    let v = rsx_u64(0, hi);
    s.last.retain(|e| e.0 != hi); s.last.push((hi, v));
    v
} }
/// Tape: while recording, all draws are kept; while replaying, they are handed out again in the same order.
static mut TAPE: Option<Vec<(u64, f64)>> = None;
static mut POS: Option<usize> = None;
static mut TAPE_OK: bool = true;
pub fn record() { unsafe { TAPE = Some(vec![]); POS = None; TAPE_OK = true; } }
pub fn rewind() { unsafe { POS = Some(0); } }
/// the replay drew exactly what had been recorded
#[allow(static_mut_refs)]
pub fn tape_ok() -> bool { unsafe { TAPE_OK && POS == TAPE.as_ref().map(|t| t.len()) } }
#[allow(static_mut_refs)]
fn taped(kind: u64, v: impl FnOnce() -> (u64, f64)) -> (u64, f64) { unsafe {
    let Some(t) = TAPE.as_mut() else { return v() };
    match POS.as_mut() {
        None => { let r = v(); t.push((kind, 0.0)); t.push(r); r }
        Some(k) => if *k + 1 < t.len() && t[*k].0 == kind { let r = t[*k + 1]; *k += 2; r } else { TAPE_OK = false; rsx_assume(0); (0, 0.0) },
    }
} }
/// seeds of the generators made so far (None: made without a seed)
static mut SEEDS: Vec<Option<u64>> = Vec::new();
#[allow(static_mut_refs)]
pub fn seeds() -> Vec<Option<u64>> { unsafe { std::mem::take(&mut SEEDS) } }
#[allow(static_mut_refs)]
fn seeded(s: Option<u64>) -> Rng { unsafe { SEEDS.push(s); } Rng(s.unwrap_or(0), s.is_none()) }
macro_rules! int { ($($t:ident),*) => { $(
    pub fn $t(&mut self, range: impl RangeBounds<$t>) -> $t {
        let c = |b: Bound<&$t>| -> Bound<i128> { match b { Bound::Included(x) => Bound::Included(*x as i128), Bound::Excluded(x) => Bound::Excluded(*x as i128), Bound::Unbounded => Bound::Unbounded } };
        let (a, b) = (c(range.start_bound()), c(range.end_bound()));
        let (l, h) = bounds(a.as_ref(), b.as_ref(), $t::MIN as i128, $t::MAX as i128);
        if l > h { panic!("empty range"); }
        if let Some(v) = scripted(((h - l) as u64).wrapping_add(1)) { return (l as $t).wrapping_add(v as $t); }
        let v = draw((h - l) as u64, self.1);
        (l as $t).wrapping_add(v as $t)
    } )* } }
macro_rules! letter { ($($t:ident $set:expr;)*) => { $( pub fn $t(&mut self) -> char { const C: &[u8] = $set; C[self.usize(0..C.len())] as char } )* } }
macro_rules! float { ($($t:ident $f:ty, $raw:ident, $cmp:tt;)*) => { $(
    pub fn $t(&mut self) -> $f { let d = || unsafe { if let Some(x) = chosen() { keep(x); return (0, x); } let x = $raw(); rsx_assume((x >= 0.0) as u8); rsx_assume((x $cmp 1.0) as u8); keep(x as f64); (0, x as f64) };
        (if self.1 { d() } else { taped(u64::MAX, d) }).1 as $f } )* } }
impl Rng {
    pub fn new() -> Rng { seeded(None) }
    pub fn with_seed(seed: u64) -> Rng { seeded(Some(seed)) }
    #[allow(static_mut_refs)]
    pub fn seed(&mut self, seed: u64) { unsafe { SEEDS.push(Some(seed)); } self.0 = seed; self.1 = false; }
    pub fn get_seed(&self) -> u64 { self.0 }
    pub fn fork(&mut self) -> Rng { Rng(self.0, self.1) }
    int!(usize, u64, u32, u16, u8, i64, i32, i16, i8, isize);
    pub fn u128(&mut self, range: impl RangeBounds<u128>) -> u128 {
        let l = match range.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => *x + 1, Bound::Unbounded => 0 };
        let h = match range.end_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => x.checked_sub(1).expect("empty range"), Bound::Unbounded => u128::MAX };
        if l > h { panic!("empty range"); }
        let n = h - l;
        if n <= u64::MAX as u128 { return l + self.u64(0..=n as u64) as u128; }
        l + ((((self.u64(..) as u128) << 64) | self.u64(..) as u128) & n)
    }
    pub fn i128(&mut self, range: impl RangeBounds<i128>) -> i128 {
        let (l, h) = bounds(range.start_bound(), range.end_bound(), i128::MIN, i128::MAX);
        if l > h { panic!("empty range"); }
        l.wrapping_add(self.u128(0..=h.wrapping_sub(l) as u128) as i128)
    }
    pub fn char(&mut self, range: impl RangeBounds<char>) -> char {
        let l = match range.start_bound() { Bound::Included(x) => *x as u32, Bound::Excluded(x) => *x as u32 + 1, Bound::Unbounded => 0 };
        let h = match range.end_bound() { Bound::Included(x) => *x as u32, Bound::Excluded(x) => *x as u32 - 1, Bound::Unbounded => char::MAX as u32 };
        let v = self.u32(l..=h);
        match char::from_u32(v) { Some(c) => c, None => unsafe { rsx_assume(0); 'a' } }
    }
    letter! { lowercase b"abcdefghijklmnopqrstuvwxyz"; uppercase b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
        alphabetic b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
        alphanumeric b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; }
    pub fn digit(&mut self, base: u32) -> char { char::from_digit(self.u32(0..base), base).unwrap() }
    pub fn fill(&mut self, slice: &mut [u8]) { for b in slice { *b = self.u8(..); } }
    pub fn bool(&mut self) -> bool { if let Some(v) = scripted(2) { return v == 1; } draw(1, self.1) == 1 }
    float! { f64 f64, rsx_f64, <; f64_inclusive f64, rsx_f64, <=; f32 f32, rsx_f32, <; f32_inclusive f32, rsx_f32, <=; }
    pub fn shuffle<T>(&mut self, slice: &mut [T]) { for i in 1..slice.len() { let j = self.usize(..=i); slice.swap(i, j); } }
    pub fn choice<I>(&mut self, iter: I) -> Option<I::Item> where I: IntoIterator, I::IntoIter: ExactSizeIterator {
        let mut iter = iter.into_iter(); let len = iter.len(); if len == 0 { return None; } let i = self.usize(0..len); iter.nth(i)
    }
    pub fn choose_multiple<I: IntoIterator>(&mut self, iter: I, n: usize) -> Vec<I::Item> { let mut v: Vec<I::Item> = iter.into_iter().collect(); let k = n.min(v.len()); for i in 0..k { let j = self.usize(i..v.len()); v.swap(i, j); } v.truncate(k); v }
}
/// The thread's own generator, started from the clock unless it is seeded.
macro_rules! global { ($($t:ident($($a:ident: $at:ty),*) $(-> $r:ty)?;)*) => { $( pub fn $t($($a: $at),*) $(-> $r)? { Rng::new().$t($($a),*) } )* } }
global! {
    usize(r: impl RangeBounds<usize>) -> usize; u64(r: impl RangeBounds<u64>) -> u64; u32(r: impl RangeBounds<u32>) -> u32; u16(r: impl RangeBounds<u16>) -> u16; u8(r: impl RangeBounds<u8>) -> u8;
    isize(r: impl RangeBounds<isize>) -> isize; i64(r: impl RangeBounds<i64>) -> i64; i32(r: impl RangeBounds<i32>) -> i32; i16(r: impl RangeBounds<i16>) -> i16; i8(r: impl RangeBounds<i8>) -> i8;
    u128(r: impl RangeBounds<u128>) -> u128; i128(r: impl RangeBounds<i128>) -> i128; char(r: impl RangeBounds<char>) -> char;
    bool() -> bool; f64() -> f64; f32() -> f32; f64_inclusive() -> f64; f32_inclusive() -> f32; alphabetic() -> char; alphanumeric() -> char; lowercase() -> char; uppercase() -> char;
    digit(base: u32) -> char; fill(slice: &mut [u8]);
}
pub fn seed(_: u64) {}
pub fn get_seed() -> u64 { Rng::new().u64(..) }
pub fn shuffle<T>(slice: &mut [T]) { Rng::new().shuffle(slice) }
pub fn choice<I>(iter: I) -> Option<I::Item> where I: IntoIterator, I::IntoIter: ExactSizeIterator { Rng::new().choice(iter) }
pub fn choose_multiple<I: IntoIterator>(iter: I, n: usize) -> Vec<I::Item> { Rng::new().choose_multiple(iter, n) }
