//! C19: the running size statistics count, forget and normalise as described.
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::*;
fn stats(n: usize, w: usize, fr: &[f64]) -> RunningSearchStatistics { let mut s = RunningSearchStatistics::new(n, w); s.frequencies.copy_from_slice(fr); s }
#[no_mangle] pub extern "C" fn h_new() {
    let n = conc(us(0, p(0))); let w = us(0, 1 << 40);
    let s = RunningSearchStatistics::new(n, w);
    check(s.frequencies.len() == n && s.normalized_frequencies.len() == n, "one entry per size");
    check(s.window_size == w as f64, "the window asked for");
    for i in 0..n { check(s.frequencies[i] == 1.0 && s.normalized_frequencies[i] == 1.0 / n as f64, "all sizes alike"); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_count() {
    let n = conc(us(0, p(0))); let fr: Vec<f64> = (0..n).map(|_| f()).collect();
    let mut s = stats(n, 100, &fr); for v in s.normalized_frequencies.iter_mut() { *v = f(); }
    let nf = s.normalized_frequencies.clone();
    let k = conc(us(0, 2));
    let sizes: Vec<usize> = (0..k).map(|_| { let v = conc(us(0, n + 2)); if v == n + 2 { usize::MAX } else { v } }).collect();
    if k == 1 && b() { s.update_frequencies(sizes[0]); } else { s.update_from_population(sizes.iter().copied()); }
    for i in 0..n {
        let mut e = fr[i]; for z in &sizes { if *z == i + 1 { e += 1.0; cover(1); } }
        same(s.frequencies[i], e, "counts each member of its size once"); same(s.normalized_frequencies[i], nf[i], "leaves the normalised ones");
    }
    check(s.frequencies.len() == n, "keeps its length");
    for z in &sizes { if *z == 0 || *z > n { cover(2); } }
}
#[no_mangle] pub extern "C" fn h_normalize() {
    let n = conc(us(0, p(0))); let fr: Vec<f64> = (0..n).map(|_| { let v = f(); assume(v >= 0.0); assume(v < 1e9); v }).collect();
    let mut s = stats(n, 100, &fr);
    // lengths may differ after loading
    let mut t = 0.0; for v in &fr { t += v; }
    if t > 0.0 { s.normalized_frequencies = vec![0.5; conc(us(0, n + 1))]; }
    real(true);
    s.normalize();
    check(s.normalized_frequencies.len() == n || n == 0, "one per size");
    if !(t > 0.0) { for v in &s.normalized_frequencies { check(*v == 0.0, "nothing seen, no share"); } cover(1); return; }
    for i in 0..n { req(s.normalized_frequencies[i] * t, fr[i], "its share of all"); same(s.frequencies[i], fr[i], "counts stay"); }
    cover(2);
}
#[no_mangle] pub extern "C" fn h_freq() {
    let n = conc(us(0, p(0))); let mut s = RunningSearchStatistics::new(n, 100);
    for v in s.normalized_frequencies.iter_mut() { let x = f(); assume(x >= 0.0); *v = x; }
    let z = conc(us(0, n + 2)); let z = if z == n + 2 { usize::MAX } else { z };
    let r = s.freq(z);
    if z == 0 || z > n { check(r == 1e-6, "a size without statistics counts as rare"); cover(1); }
    else { let v = s.normalized_frequencies[z - 1]; check(r >= 1e-6, "never below the floor"); check(if v >= 1e-6 { r == v } else { r == 1e-6 }, "its share"); cover(2); }
}
/// forgetting: levels the largest down evenly until the total fits the window; never below one
#[no_mangle] pub extern "C" fn h_window() {
    let n = conc(us(1, p(0))); let w = conc(us(0, p(1)));
    real(true);
    let fr: Vec<f64> = (0..n).map(|_| { let v = f(); assume(v >= 1.0); assume(v < 1e6); v }).collect();
    // gaps are either none or at least a thousandth (a round of levelling below 1e-6 in all ends the levelling)
    let gap = |a: f64, b: f64| assume(a == b || a - b >= 1e-3 || b - a >= 1e-3);
    for i in 0..n { gap(fr[i], 1.0); for j in 0..i { gap(fr[i], fr[j]); } }
    let mut s = stats(n, w, &fr);
    let nf = s.normalized_frequencies.clone();
    s.move_window();
    for i in 0..n { same(s.normalized_frequencies[i], nf[i], "leaves the normalised ones"); }
    let mut t = 0.0; for v in &fr { t += v; }
    let wf = w as f64;
    if t <= wf { for i in 0..n { same(s.frequencies[i], fr[i], "nothing to forget"); } cover(1); return; }
    let mut u = 0.0; for v in &s.frequencies { u += v; }
    for i in 0..n { check(s.frequencies[i] >= 1.0 - 1e-9, "no size falls below one"); check(s.frequencies[i] <= fr[i], "none grows"); }
    // total: the window, or all at one (up to the loop's cut-off of 1e-6 per round)
    if n as f64 >= wf { check(u <= n as f64 + 1e-5, "all forgotten but one each"); cover(2); }
    else { check(u <= wf + 1e-5, "the total fits the window"); check(u >= wf - 1e-9, "and no more is forgotten"); cover(3); }
    // evenly: sizes still above one have lost the same; those at one have lost no more
    for i in 0..n { for j in 0..n { if i != j && s.frequencies[i] > 1.0 + 1e-5 {
        check(fr[j] - s.frequencies[j] <= fr[i] - s.frequencies[i] + 1e-9, "no other size loses more than one that could still give");
        if s.frequencies[j] > 1.0 + 1e-5 { cover(4); }
    } } }
}
harnesses!(h_new, h_count, h_normalize, h_freq, h_window);
