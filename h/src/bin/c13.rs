//! C13: losses, their derivatives, baseline and cost.
use dynamic_expressions::*;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2};
use symbolic_regression::verif_hooks::*;
use symbolic_regression::*;
use std::sync::Arc;
type Ops = operator_enum::presets::BuiltinOpsF64;
fn fin() -> f64 { let v = f(); assume(v.is_finite()); v }
#[derive(Clone, Copy)]
struct K { kind: usize, prm: f64 }
fn pick(lo: usize, hi: usize) -> (K, Arc<dyn LossFn<f64> + Send + Sync>) { let prm = fin(); assume(prm > 0.0); pick_with(lo, hi, prm, b()) }
fn pick_with(lo: usize, hi: usize, prm: f64, via: bool) -> (K, Arc<dyn LossFn<f64> + Send + Sync>) {
    let kind = conc(us(lo, hi));
    let l = if via { match kind { 0 => mse(), 1 => mae(), 2 => huber(prm), 3 => quantile(prm), 4 => epsilon_insensitive(prm), 5 => log_cosh(), 6 => lp(prm), _ => rmse() } }
      else { make_loss(match kind { 0 => LossKind::Mse, 1 => LossKind::Mae, 2 => LossKind::Huber { delta: prm }, 3 => LossKind::Quantile { tau: prm }, 4 => LossKind::EpsilonInsensitive { eps: prm }, 5 => LossKind::LogCosh, 6 => LossKind::Lp { p: prm }, _ => LossKind::Rmse }) };
    cover(kind as u64);
    (K { kind, prm }, l)
}
fn abs(x: f64) -> f64 { if x < 0.0 { -x } else { x } }
/// loss of one row, and its derivative with respect to the prediction
fn point(k: K, a: f64, y: f64) -> (f64, f64) {
    let r = a - y; let s = if r > 0.0 { 1.0 } else if r < 0.0 { -1.0 } else { 0.0 };
    match k.kind {
        0 => (r * r, 2.0 * r), 1 => (abs(r), s),
        2 => if abs(r) <= k.prm { (0.5 * r * r, r) } else { (k.prm * (abs(r) - 0.5 * k.prm), k.prm * s) },
        3 => if r < 0.0 { (k.prm * -r, -k.prm) } else if r > 0.0 { ((1.0 - k.prm) * r, 1.0 - k.prm) } else { (0.0, 0.0) },
        4 => if abs(r) > k.prm { (abs(r) - k.prm, s) } else { (0.0, 0.0) },
        5 => (r.cosh().ln(), r.tanh()),
        6 => (r.abs().powf(k.prm), if r == 0.0 { 0.0 } else { k.prm * r.abs().powf(k.prm - 1.0) * s }),
        _ => panic!(),
    }
}
fn vecs(n: usize) -> (Vec<f64>, Vec<f64>) { ((0..n).map(|_| fin()).collect(), (0..n).map(|_| fin()).collect()) }
fn weights(n: usize) -> Option<Vec<f64>> { if b() { let w: Vec<f64> = (0..n).map(|_| { let v = fin(); assume(v >= 0.0); v }).collect(); let mut s = 0.0; for x in &w { s += *x; } assume(s > 0.0); Some(w) } else { None } }
/// the loss is the weighted mean of the row losses and dloss its gradient (exact real arithmetic)
#[no_mangle] pub extern "C" fn h_mean() {
    let (k, l) = pick(0, 6);
    let n = [1, 2, 4][conc(us(0, p(0)))]; // powers of two: 1/n is exact
    let (a, y) = vecs(n); let w = weights(n);
    let got = l.loss(&a, &y, w.as_deref());
    let mut d = vec![f(); n];
    l.dloss_dyhat(&a, &y, w.as_deref(), &mut d);
    let mut sw = 0.0; for i in 0..n { sw += w.as_ref().map_or(1.0, |w| w[i]); }
    let mut sum = 0.0;
    for i in 0..n {
        let wi = w.as_ref().map_or(1.0, |w| w[i]);
        let (v, g) = point(k, a[i], y[i]);
        sum += wi * v;
        req(d[i], wi * g / sw, "derivative of the mean loss with respect to this prediction");
    }
    req(got, sum / sw, "weighted mean of the row losses");
}
/// Many rows (blocks and remainders of every size a vectorised loop could use): the loss and its gradient treat
/// every row alike, wherever it stands. Exact real arithmetic; one row at a time is symbolic.
#[no_mangle] pub extern "C" fn h_rows() {
    let (k, l) = pick_with(0, 4, 1.5, false);
    let n = [5, 9, 17, 16, 8, 33, 64, 65][conc(us(0, p(0)))];
    let at = conc(us(0, n - 1)); let to = if at == 0 { n - 1 } else { 0 };
    let (ra, ry) = (fin(), fin());
    let weighted = conc(us(0, 1)) == 1; let rw = fin(); assume(rw > 0.0);
    let mut a: Vec<f64> = (0..n).map(|i| (i % 7) as f64).collect(); let mut y: Vec<f64> = (0..n).map(|i| (i % 5) as f64).collect();
    let mut w: Vec<f64> = (0..n).map(|i| 1.0 + (i % 3) as f64).collect();
    a[at] = ra; y[at] = ry; if weighted { w[at] = rw; }
    let (mut d, mut d2) = (vec![0.5; n], vec![0.5; n]);
    let got = l.loss(&a, &y, weighted.then_some(&w[..])); l.dloss_dyhat(&a, &y, weighted.then_some(&w[..]), &mut d);
    if weighted || n.is_power_of_two() {
        let (mut sw, mut sum) = (0.0, 0.0);
        for i in 0..n { let wi = if weighted { w[i] } else { 1.0 }; sw += wi; sum += wi * point(k, a[i], y[i]).0; }
        req(got, sum / sw, "weighted mean of the row losses (many rows)");
        for i in [at, to] { let wi = if weighted { w[i] } else { 1.0 }; req(d[i], wi * point(k, a[i], y[i]).1 / sw, "derivative of the mean loss (many rows)"); }
    }
    if weighted { return; }
    a.swap(at, to); y.swap(at, to); 
    let again = l.loss(&a, &y, weighted.then_some(&w[..])); l.dloss_dyhat(&a, &y, weighted.then_some(&w[..]), &mut d2);
    req(again, got, "the order of the rows does not matter");
    d2.swap(at, to);
    for i in [at, to] { req(d2[i], d[i], "the order of the rows does not matter (derivative)"); }
}
/// root mean square
#[no_mangle] pub extern "C" fn h_rmse() {
    let (_, l) = pick(7, 7);
    let n = [1, 2, 4][conc(us(0, p(0)))]; // powers of two: 1/n is exact
    let (a, y) = vecs(n); let w = weights(n);
    let got = l.loss(&a, &y, w.as_deref());
    same(got, mse::<f64>().loss(&a, &y, w.as_deref()).sqrt(), "root of the mean square");
    let mut d = vec![f(); n];
    l.dloss_dyhat(&a, &y, w.as_deref(), &mut d);
    assume(got > 0.0 && got.is_finite());
    let mut sw = 0.0; for i in 0..n { sw += w.as_ref().map_or(1.0, |w| w[i]); }
    for i in 0..n { let wi = w.as_ref().map_or(1.0, |w| w[i]); req(d[i], wi * (a[i] - y[i]) / (sw * got), "derivative of the root mean square"); }
}
/// no rows or no weight at all: zero loss, zero derivative
#[no_mangle] pub extern "C" fn h_empty() {
    let (_, l) = pick(0, 7);
    let n = conc(us(0, 2));
    let (a, y) = vecs(n); let z = vec![0.0; n];
    let w = if n > 0 || b() { Some(&z[..]) } else { None };
    let mut d = vec![1.0; n];
    same(l.loss(&a, &y, w), 0.0, "no loss without weight"); l.dloss_dyhat(&a, &y, w, &mut d);
    for v in d { same(v, 0.0, "no derivative without weight"); }
    cover(8 + n as u64);
}
/// cost = loss / normalisation + parsimony * complexity
#[no_mangle] pub extern "C" fn h_cost() {
    let (loss, pars) = (fin(), fin()); assume(loss >= 0.0 && pars >= 0.0);
    let base = match conc(us(0, 1)) { 0 => None, _ => Some(f()) };
    let ub = b(); let c = conc(us(0, 3));
    let got = loss_to_cost(loss, c, pars, ub, base);
    let den = match base { Some(x) if ub && x.is_finite() && x >= 0.01 => { cover(1); x } _ => { cover(2); 0.01 } };
    req(got, loss / den + pars * c as f64, "normalised loss plus parsimony times complexity");
}
/// the baseline is the loss of predicting zero
#[no_mangle] pub extern "C" fn h_baseline() {
    let (_, l) = pick(0, 7);
    let n = conc(us(1, p(0)));
    let (x, y) = vecs(n); let w = weights(n);
    let ds = Dataset::with_weights_and_names(Array2::from_shape_vec((1, n), x).unwrap(), Array1::from_vec(y.clone()), w.clone().map(Array1::from_vec), vec![]);
    let got = baseline_loss_from_zero_expression::<f64, Ops, 3>(&ds, &*l);
    let want = l.loss(&vec![0.0; n], &y, w.as_deref());
    match got { Some(v) => { cover(8); same(v, want, "loss of the zero prediction") } None => { cover(9); check(!want.is_finite(), "absent only when not finite") } }
}
/// evaluating a member stores loss, cost and complexity of its expression; anything non-finite scores infinite
#[no_mangle] pub extern "C" fn h_member() {
    use h::common::*;
    let t = decided(gen(Cfg { max: p(0), nf: 2, nc: 1, maxar: 2, ops: [0, 2, 1, 0] }));
    let n = p(1);
    let e = UE::new(t, vec![f()], Default::default());
    let (x, y) = (data(2, n), vecs(n).0); let w = weights(n);
    let ds = Dataset::with_weights_and_names(Array2::from_shape_vec((2, n), x.clone()).unwrap(), Array1::from_vec(y.clone()), w.clone().map(Array1::from_vec), vec![]);
    let base = if b() { Some(fin()) } else { None };
    let mut o = Options::<f64, 3>::default(); o.parsimony = 0.5; o.use_baseline = b();
    if b() { o.loss = mae(); }
    let mut m = PopMember::from_expr(MemberId(7), Some(MemberId(3)), 5, e.clone(), 2);
    let mut ev = Evaluator::new(n);
    for v in ev.yhat.iter_mut() { *v = f(); }
    let ok = m.evaluate(&TaggedDataset::new(&ds, base), &o, &mut ev);
    let (mut fine, mut yh) = (true, vec![]);
    for r in 0..n { let v = ref_eval(&e.nodes, &e.consts, &|k| x[k * n + r], &mut fine); yh.push(v); }
    let loss = o.loss.loss(&yh, &y, w.as_deref());
    let root_is_op = matches!(e.nodes.last(), Some(PNode::Op { .. }));
    if root_is_op && !fine { check(!ok, "non-finite evaluation is rejected"); cover(1); }
    if ok { same(m.loss, loss, "stored loss is the loss of the expression's predictions"); same(m.cost, loss_to_cost(loss, e.nodes.len(), o.parsimony, o.use_baseline, base), "stored cost follows"); check(m.loss.is_finite(), "finite loss"); cover(2); }
    else { check(m.loss == f64::INFINITY && m.cost == f64::INFINITY, "rejected members score infinite"); if fine && root_is_op { check(!loss.is_finite(), "rejected only for non-finite results"); cover(3); } }
    check(m.complexity == e.nodes.len(), "complexity of the expression");
    check(m.expr.nodes == e.nodes && m.id == MemberId(7) && m.parent == Some(MemberId(3)) && m.birth == 5, "nothing else changes");
    same(m.expr.consts[0], e.consts[0], "constants untouched");
}
harnesses!(h_mean, h_rows, h_rmse, h_empty, h_cost, h_baseline, h_member);
