//! C15: line search, BFGS and Newton report what they evaluated and take only justified steps.
use dynamic_expressions::*;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2};
use fastrand::Rng;
use std::sync::{Arc, Mutex};
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{Dataset, MemberId, Options, PopMember, TaggedDataset};
/// any answer: a number, a failure, or something not finite
fn answer() -> Option<f64> { if b() { None } else { Some(f()) } }
fn ok(v: Option<f64>) -> Option<f64> { v.filter(|v| v.is_finite()) }
/// `nbad` failing first answers, then any
fn search(d: usize, iters: usize, nbad: usize, maxstep: f64, unit: bool) {
    let (x, s): (Vec<f64>, Vec<f64>) = if unit { (vec![-0.0; d], vec![1.0; d]) } else { ((0..d).map(|_| f()).collect(), (0..d).map(|_| f()).collect()) };
    let (a0, phi0, dphi0) = (f(), f(), f());
    let mut log: Vec<(Vec<f64>, Option<f64>)> = vec![];
    let mut xn = vec![9.0; d]; let none = nbad > 0 && b();
    let r = line_search(&x, &s, a0, phi0, dphi0, iters, maxstep, &mut xn, &mut |t: &[f64]| {
        let v = if log.len() < nbad { if none { None } else { let v = f(); assume(!v.is_finite()); Some(v) } } else if log.len() == nbad { let v = f(); assume(v.is_finite()); Some(v) } else { answer() };
        log.push((t.to_vec(), v)); v
    });
    let valid = (a0 > 0.0) & a0.is_finite();
    if log.is_empty() { check(!valid && r.is_none(), "a valid first step is tried"); cover(1); return; }
    check(valid, "an invalid first step is refused");
    let good: Vec<usize> = (0..log.len()).filter(|&i| ok(log[i].1).is_some()).collect();
    let first = good.first().copied();
    // the step along the unit direction
    let step = |i: usize| log[i].0[0];
    if unit {
        let cap = if a0 < maxstep { a0 } else { maxstep };
        same(step(0), if maxstep < f64::INFINITY { cap } else { a0 }, "the first step is the one asked for, within the largest allowed");
        for i in 1..log.len() { if first.is_none_or(|g| i <= g) { same(step(i), step(i - 1) * 0.5, "halves until the value is finite"); } else { let (s, lo, hi) = (step(i), 0.1 * step(i - 1), 0.5 * step(i - 1)); check((s == lo) | (s == hi) | (!(s > hi) & !(s < lo)), "each step is a tenth to half of the one before"); check(step(i) > 0.0 || step(i).is_nan(), "steps stay positive"); } }
    }
    match r {
        Some((a, phi)) => {
            let l = log.last().unwrap();
            check(l.1.is_some_and(|v| v.is_finite()), "accepted at a finite value");
            same(phi, l.1.unwrap(), "reports the value at the accepted step");
            for i in 0..d { same(xn[i], l.0[i], "the point is the one last evaluated"); same(xn[i], x[i] + a * s[i], "the point lies at the reported step"); }
            check(phi <= phi0 + 1e-4 * a * dphi0, "sufficient decrease");
            cover(2);
            if log.len() > nbad + 1 { cover(3); }
        }
        None => {
            // refused only with a failing later answer, or after all the allowed steps
            let bad_last = ok(log[log.len() - 1].1).is_none();
            match first { None => check(log.len() >= 50 || !unit || step(log.len() - 1) * 0.5 <= 0.0, "keeps halving before giving up"),
                Some(g) => if !bad_last { check(log.len() - g == iters + 1 || { let (l, h) = (0.1 * step(log.len() - 1), 0.5 * step(log.len() - 1)); !unit || (l <= 0.0) | (h <= 0.0) | !l.is_finite() | !h.is_finite() }, "gives up only when out of steps"); } else { cover(4); } }
            cover(5);
        }
    }
    // no step was taken beyond an acceptable one
    if unit { for &g in &good { if g + 1 < log.len() { let v = log[g].1.unwrap(); check(!(v <= phi0 + 1e-4 * step(g) * dphi0), "stops at the first acceptable step"); } } }
}
#[no_mangle] pub extern "C" fn h_line() { let m = if b() { f64::INFINITY } else { let m = f(); assume(m.is_finite()); assume(m > 0.0); m }; search(1, p(0), conc(us(0, p(1))), m, true) }
#[no_mangle] pub extern "C" fn h_line_point() { search(2, p(0), conc(us(0, p(1))), f64::INFINITY, false) }
#[no_mangle] pub extern "C" fn h_line_halving() { search(1, 1, conc(us(49, 53)), f64::INFINITY, true) }

/// An objective with arbitrary answers that keeps what it was asked.
struct O { log: Vec<(bool, Vec<f64>, Option<f64>, Vec<f64>)>, /** the first gradient is 1, 2, .. and later ones have one arbitrary component */ g0: bool, free: u64, /** how many answers may still fail */ fail: usize }
impl O { fn ans(&mut self) -> Option<f64> { if self.fail > 0 && b() { self.fail -= 1; return if b() { None } else { let v = f(); assume(!v.is_finite()); Some(v) }; } let v = f(); assume(v.is_finite()); Some(v) } }
impl VerifObjective for O {
    fn f(&mut self, x: &[f64]) -> Option<f64> { let v = self.ans(); self.log.push((false, x.to_vec(), v, vec![])); v }
    fn fg(&mut self, x: &[f64], g: &mut [f64]) -> Option<f64> { let v = self.ans(); let first = self.log.is_empty(); for (i, q) in g.iter_mut().enumerate() { *q = if !self.g0 { f() } else if first { 1.0 + i as f64 } else if i as u64 == self.free { f() } else { 3.0 }; if self.fail == 0 { assume(q.is_finite()); } } self.log.push((true, x.to_vec(), v, g.to_vec())); v }
}
fn bits(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && { let mut d = 0u64; for i in 0..a.len() { d |= a[i].to_bits() ^ b[i].to_bits(); } d == 0 } }
const TOL: f64 = 1e-8;
#[no_mangle] pub extern "C" fn h_bfgs() { minimise(conc(us(1, 2)), conc(us(0, p(0))), p(1), conc(us(0, p(2))), p(3)) }
/// several steps, no failing answers
#[no_mangle] pub extern "C" fn h_bfgs_long() { minimise(p(0), p(1), 1, conc(us(0, p(2))), 0) }
fn minimise(n: usize, iters: usize, ls: usize, limit: usize, fail: usize) {
    let x0: Vec<f64> = (0..n).map(|_| f()).collect();
    let mut o = O { log: vec![], fail, g0: false, free: 0 };
    let r = bfgs(&x0, &mut o, iters, limit, TOL, ls);
    let l = &o.log;
    check(l[0].0 && bits(&l[0].1, &x0), "starts at the given point");
    if limit > 0 { check(l.len() <= limit.max(1) + 1, "stays within the evaluation budget"); }
    if let Some((x, v, calls)) = r {
        check(calls == l.len(), "counts its evaluations");
        let k = (0..l.len()).rev().find(|&i| l[i].0).unwrap();
        check(k == l.len() - 1, "ends with an evaluated point");
        for i in 0..n { same(x[i], l[k].1[i], "the minimiser is the last point evaluated with its gradient"); }
        check(l[k].2.is_some(), "a failed evaluation is never the result");
        same(v, l[k].2.unwrap(), "the minimum is the value there");
        cover(1); if l.len() > 1 { cover(2); }
        let g = l[k].3.iter().fold(0.0f64, |a, q| a.max(q.abs()));
        // stops early only for a reason
        let taken = l.iter().filter(|c| c.0).count() - 1;
        if taken == 0 && iters > 0 && limit != 1 && v.is_finite() && l[k].3.iter().fold(0.0, |a, q| a + q * q).is_finite() { let z = if g > TOL { 1.0 } else { 0.0 }; req(z, 0.0, "goes on while the gradient is large"); cover(3); }
    }
    // every new point with gradient was accepted by the line search before it
    for i in 1..l.len() { if l[i].0 { check(!l[i - 1].0 && bits(&l[i].1, &l[i - 1].1), "moves only to points the line search accepted"); } }
}
/// the first direction is the negative gradient; the second follows the BFGS formula
#[no_mangle] pub extern "C" fn h_bfgs_step() {
    let n = p(0);
    let x0 = vec![-0.0; n];
    let mut o = O { log: vec![], fail: 0, g0: p(1) > 0, free: conc(us(0, 1)) as u64 };
    let _ = bfgs(&x0, &mut o, 2, 4, TOL, 1);
    let l = &o.log;
    if l.len() < 2 { return; }
    for i in 0..n { req(l[1].1[i], x0[i] - l[0].3[i], "the first step is along the negative gradient"); }
    cover(1);
    if l.len() < 4 || !l[2].0 { return; }
    let (g0, g1, x1) = (&l[0].3, &l[2].3, &l[2].1);
    let s: Vec<f64> = (0..n).map(|i| x1[i] - x0[i]).collect(); let y: Vec<f64> = (0..n).map(|i| g1[i] - g0[i]).collect();
    let mut sy = 0.0; let mut sg = 0.0; let mut yy = 0.0; let mut yg = 0.0;
    for i in 0..n { sy += s[i] * y[i]; sg += s[i] * g1[i]; yy += y[i] * y[i]; yg += y[i] * g1[i]; }
    if !(sy > 1e-12) { return; }
    // -(I - s y'/sy)(I - y s'/sy) g - s (s'g)/sy, H = I
    let along = |i: usize| { let r = g1[i] - y[i] * sg / sy; let yr = yg - yy * sg / sy; -(r - s[i] * yr / sy + s[i] * sg / sy) };
    let down = (0..n).fold(0.0, |a, i| a + g1[i] * along(i));
    if !(down < 0.0) { return; }
    for i in 0..n { req(l[3].1[i] - x1[i], along(i), "the second step follows the BFGS update"); }
    cover(2);
}
dynamic_expressions::custom_opset! { pub struct A<f64> { 2 {
    plus { eval(args) { args[0] + args[1] }, partial(_args, _i) { 1.0 }, }
    times { eval(args) { args[0] * args[1] }, partial(args, i) { if i == 0 { args[1] } else { args[0] } }, }
} } }
/// keeps the predictions it is asked about; fixed derivative
struct L(Arc<Mutex<Vec<Vec<f64>>>>, Vec<f64>, Vec<f64>, Vec<f64>);
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 { self.seen(y, w); let mut k = self.0.lock().unwrap(); k.push(yh.to_vec()); if k.len() <= 2 { return 3.0; } let v = f(); assume(v.is_finite()); v }
    fn dloss_dyhat(&self, _yh: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) { self.seen(y, w); check(out.len() == self.1.len(), "one derivative per row"); for i in 0..out.len() { out[i] = self.1[i]; } }
}
impl L { fn seen(&self, y: &[f64], w: Option<&[f64]>) { check(bits(y, &self.2) && w.is_some_and(|w| bits(w, &self.3)), "targets and weights are the data set's"); } }
/// the gradient handed to the minimisers is the chain rule of the loss over the predictions
#[no_mangle] pub extern "C" fn h_gradient() {
    let (c, d, x, plus, times) = (PNode::Const { idx: 0 }, PNode::Const { idx: 1 }, PNode::Var { feature: 0 }, PNode::Op { arity: 2, op: 0 }, PNode::Op { arity: 2, op: 1 });
    let rows = p(0);
    let (nodes, k) = match conc(us(0, 3)) { 0 => (vec![c, x, times, d, plus], 0), 1 => (vec![d, x, c, times, plus], 0), 2 => (vec![c, d, times, x, plus], 1), _ => (vec![c, d, x, times, times], 2) };
    let fin = || { let v = f(); assume(v.is_finite()); v };
    let (cs, xs, ys, ws, dl): (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>) = ((0..2).map(|_| fin()).collect(), (0..rows).map(|_| fin()).collect(), (0..rows).map(|_| fin()).collect(), (0..rows).map(|_| fin()).collect(), (0..rows).map(|_| fin()).collect());
    let ds = Dataset::with_weights_and_names(Array2::from_shape_vec((1, rows), xs.clone()).unwrap(), Array1::from_vec(ys.clone()), Some(Array1::from_vec(ws.clone())), vec![]);
    let mut o = Options::<f64, 2>::default();
    o.optimizer_iterations = 1; o.optimizer_f_calls_limit = 2; o.optimizer_nrestarts = 0; o.should_optimize_constants = true;
    let log = Arc::new(Mutex::new(vec![]));
    o.loss = Arc::new(L(log.clone(), dl.clone(), ys, ws));
    let e = PostfixExpr::<f64, A, 2>::new(nodes, cs.clone(), Default::default());
    let mut m = PopMember::from_expr(MemberId(1), None, 0, e, 1);
    let mut ev = Evaluator::new(rows); let mut g = GradContext::new(rows); let mut nb = 4u64;
    let _ = optimize_constants(&mut Rng::new(), &mut m, OptimizeConstantsCtx { dataset: TaggedDataset::new(&ds, None), options: &o, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut nb });
    let l = log.lock().unwrap();
    let at = |c: f64, d: f64, x: f64| match k { 0 => c * x + d, 1 => c * d + x, _ => c * d * x };
    for r in 0..rows { for q in l.iter().take(2) { req(q[r], at(cs[0], cs[1], xs[r]), "starts from the stored constants"); } }
    if l.len() < 3 { return; }
    let (mut g0, mut g1) = (0.0, 0.0);
    for r in 0..rows { let (a, b) = match k { 0 => (xs[r], 1.0), 1 => (cs[1], cs[0]), _ => (cs[1] * xs[r], cs[0] * xs[r]) }; g0 += dl[r] * a; g1 += dl[r] * b; }
    for r in 0..rows { req(l[2][r], at(cs[0] - g0, cs[1] - g1, xs[r]), "the first step is along the negative gradient of the loss"); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_newton() {
    let (iters, ls, limit) = (conc(us(0, p(0))), p(1), conc(us(0, p(2))));
    let x0 = f();
    let mut o = O { log: vec![], fail: p(3), g0: false, free: 0 };
    let r = newton_1d(x0, &mut o, iters, limit, TOL, ls);
    let l = &o.log;
    if limit > 0 { check(l.len() <= limit + 2, "stays within the evaluation budget"); }
    if iters > 0 { check(l[0].0 && bits(&l[0].1, &[x0]), "starts at the given point"); }
    // the iterates: the first gradient evaluation of each round of three
    let gs: Vec<usize> = (0..l.len()).filter(|&i| l[i].0).collect();
    let its: Vec<usize> = gs.iter().step_by(3).copied().collect();
    if let Some((x, v, calls)) = r {
        check(calls == l.len(), "counts its evaluations");
        check(x.len() == 1, "one value");
        let hit = its.iter().any(|&i| l[i].2.is_some_and(|w| w.to_bits() == v.to_bits()) && bits(&l[i].1, &x));
        check(hit || (its.is_empty() && v == f64::INFINITY && bits(&x, &[x0])), "the result is one of the iterates with its value");
        for &i in &its { check(l[i].2.is_some_and(|w| v <= w), "no iterate was better"); }
        cover(1); if its.len() > 1 { cover(2); }
    }
    for k in 1..its.len() { let i = its[k]; check(!l[i - 1].0 && bits(&l[i].1, &l[i - 1].1), "moves only to points the line search accepted"); }
}
/// a Newton step: minus the gradient over the curvature seen between the two probes
#[no_mangle] pub extern "C" fn h_newton_step() {
    let x0 = f(); assume(x0.is_finite());
    let mut o = O { log: vec![], fail: 0, g0: p(1) > 0, free: conc(us(0, 1)) as u64 };
    let _ = newton_1d(x0, &mut o, 1, 0, TOL, 1);
    let l = &o.log;
    check(!l.is_empty(), "evaluates");
    if l.len() < 4 { return; }
    let (g, gp, gm) = (l[0].3[0], l[1].3[0], l[2].3[0]);
    let e = l[1].1[0] - x0;
    req(l[2].1[0], x0 - e, "probes on both sides alike");
    let apart = if e > 0.0 { 1.0 } else { 0.0 }; req(apart, 1.0, "probes apart");
    let h = (gp - gm) / (2.0 * e);
    let d = l[3].1[0] - x0;
    let ah = if h < 0.0 { -h } else { h };
    if ah > 1e-12 { req(d * ah, -g, "the Newton step"); cover(1); }
}
harnesses!(h_line, h_line_point, h_line_halving, h_bfgs, h_bfgs_long, h_bfgs_step, h_gradient, h_newton, h_newton_step);
