//! Harness interface. Under the symbolic executor these externals create symbolic inputs and
//! assertions; natively (rt/rsx_rt.c) they replay concrete inputs.
#![allow(dead_code)]
mod ffi { extern "C" {
    pub fn rsx_u64(lo: u64, hi: u64) -> u64; pub fn rsx_f64() -> f64; pub fn rsx_f32() -> f32;
    pub fn rsx_assume(c: u8); pub fn rsx_reject() -> !; pub fn rsx_check(c: u8, m: *const u8, n: u64);
    pub fn rsx_same(a: f64, b: f64, m: *const u8, n: u64); pub fn rsx_same32(a: f32, b: f32, m: *const u8, n: u64); pub fn rsx_req(a: f64, b: f64, m: *const u8, n: u64);
    pub fn rsx_obs(v: u64); pub fn rsx_obsf(v: f64); pub fn rsx_cover(v: u64); pub fn rsx_note(m: *const u8, n: u64); pub fn rsx_conc(v: u64) -> u64; pub fn rsx_param(k: u64) -> u64; pub fn rsx_may_panic(c: u8); pub fn rsx_real(c: u8);
} }
pub fn u(lo: u64, hi: u64) -> u64 { unsafe { ffi::rsx_u64(lo, hi) } }
pub fn us(lo: usize, hi: usize) -> usize { u(lo as u64, hi as u64) as usize }
pub fn b() -> bool { u(0, 1) == 1 }
pub fn f() -> f64 { unsafe { ffi::rsx_f64() } }
pub fn f32_() -> f32 { unsafe { ffi::rsx_f32() } }
pub fn assume(c: bool) { unsafe { ffi::rsx_assume(c as u8) } }
pub fn reject() -> ! { unsafe { ffi::rsx_reject() } }
pub fn check(c: bool, m: &str) { unsafe { ffi::rsx_check(c as u8, m.as_ptr(), m.len() as u64) } }
/// bit-identical (or both NaN)
pub fn same(a: f64, b: f64, m: &str) { unsafe { ffi::rsx_same(a, b, m.as_ptr(), m.len() as u64) } }
pub fn same32(a: f32, b: f32, m: &str) { unsafe { ffi::rsx_same32(a, b, m.as_ptr(), m.len() as u64) } }
/// equal over exact real arithmetic
pub fn req(a: f64, b: f64, m: &str) { unsafe { ffi::rsx_req(a, b, m.as_ptr(), m.len() as u64) } }
pub fn obs(v: u64) { unsafe { ffi::rsx_obs(v) } }
pub fn obsf(v: f64) { unsafe { ffi::rsx_obsf(v) } }
pub fn cover(id: u64) { unsafe { ffi::rsx_cover(id) } }
pub fn note(m: &str) { unsafe { ffi::rsx_note(m.as_ptr(), m.len() as u64) } }
/// panics are an accepted outcome while set
pub fn may_panic(c: bool) { unsafe { ffi::rsx_may_panic(c as u8) } }
/// from here on, branches and assertions over floats are decided over exact real arithmetic where possible
pub fn real(c: bool) { unsafe { ffi::rsx_real(c as u8) } }
/// k-th bound parameter of this run (chosen by the tier)
pub fn p(k: u64) -> usize { unsafe { ffi::rsx_param(k) as usize } }
/// fork over the possible values
pub fn conc(v: usize) -> usize { unsafe { ffi::rsx_conc(v as u64) as usize } }
#[macro_export]
macro_rules! harnesses { ($($name:ident),* $(,)?) => {
    fn main() { let n = std::env::var("RSX_HARNESS").expect("RSX_HARNESS"); match n.as_str() { $(stringify!($name) => $name(),)* _ => panic!("unknown harness") } println!("REPLAY: completed"); }
} }
