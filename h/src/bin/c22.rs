//! C22: data sets and batches keep rows, targets and weights together.
use fastrand::Rng;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2, Axis};
use symbolic_regression::{Dataset, Options, Operators, PopMember, MemberId, TaggedDataset};
use symbolic_regression::verif_hooks::*;
use h::common::*;
use dynamic_expressions::*;
type D = Dataset<f64>;
struct Raw { nf: usize, n: usize, x: Vec<f64>, y: Vec<f64>, w: Option<Vec<f64>> }
fn raw(nf: usize, n: usize) -> Raw {
    let x = data(nf, n); let y = data(1, n);
    let w = if b() { Some(data(1, n)) } else { None };
    Raw { nf, n, x, y, w }
}
/// the same numbers in one of several memory layouts
fn lay1(v: &[f64], k: usize) -> Array1<f64> {
    let n = v.len();
    match k {
        0 => Array1::from_vec(v.to_vec()),
        1 => { let mut a = Array1::from_vec(v.iter().rev().copied().collect()); a.invert_axis(Axis(0)); a }
        _ => { let mut z = vec![]; for i in 0..n { z.push(v[i]); z.push(77.0 + i as f64); } let a = Array1::from_vec(z); if n == 0 { a } else { a.slice_move(ndarray::s![..;2]) } }
    }
}
fn lay2(v: &[f64], nf: usize, n: usize, k: usize) -> Array2<f64> {
    match k {
        0 => Array2::from_shape_vec((nf, n), v.to_vec()).unwrap(),
        1 => { let mut z = vec![]; for j in 0..n { for i in 0..nf { z.push(v[i * n + j]); } } Array2::from_shape_vec((n, nf), z).unwrap().reversed_axes() }
        2 => { let mut z = vec![]; for i in 0..nf { for j in (0..n).rev() { z.push(v[i * n + j]); } } let mut a = Array2::from_shape_vec((nf, n), z).unwrap(); a.invert_axis(Axis(1)); a }
        _ => { let mut z = vec![]; for i in 0..nf { for j in 0..n { z.push(v[i * n + j]); z.push(55.0); } } Array2::from_shape_vec((nf, 2 * n), z).unwrap().slice_move(ndarray::s![.., ..;2]) }
    }
}
fn avg(r: &Raw) -> f64 {
    match &r.w {
        None => { let mut s = 0.0; for v in &r.y { s += v; } s / r.n as f64 }
        Some(w) => { let mut s = 0.0; let mut t = 0.0; for i in 0..r.n { s += r.y[i] * w[i]; t += w[i]; } s / t }
    }
}
fn holds(d: &D, r: &Raw) {
    check(d.n_features == r.nf && d.n_rows == r.n && d.x.dim() == (r.nf, r.n) && d.y.len() == r.n, "its shape");
    for i in 0..r.nf { for j in 0..r.n { same(d.x[(i, j)], r.x[i * r.n + j], "feature value"); } }
    let ys = d.y_slice(); for j in 0..r.n { same(ys[j], r.y[j], "target"); }
    check(d.weights.is_some() == r.w.is_some(), "weighted or not");
    if let Some(w) = &r.w { let ws = d.weights_slice(); check(ws.is_some(), "the weights are seen"); let ws = ws.unwrap(); check(ws.len() == r.n, "a weight per row"); for j in 0..r.n { same(ws[j], w[j], "weight"); } }
}
#[no_mangle] pub extern "C" fn h_new() {
    let nf = conc(us(1, p(0))); let n = conc(us(0, p(1)));
    let r = raw(nf, n);
    let x = lay2(&r.x, nf, n, conc(us(0, 3)));
    let names: Vec<String> = (0..nf).map(|i| format!("v{}", i)).collect();
    let d = if r.w.is_none() && b() { let d = D::new(x, lay1(&r.y, conc(us(0, 2)))); check(d.variable_names.is_empty(), "no names given"); d }
        else { let d = D::with_weights_and_names(x, lay1(&r.y, conc(us(0, 2))), r.w.as_ref().map(|w| lay1(w, conc(us(0, 2)))), names.clone()); check(d.variable_names == names, "the names given"); d };
    holds(&d, &r);
    if n == 0 { check(d.avg_y == 0.0, "no rows, no mean"); cover(1); } else { req(d.avg_y, avg(&r), "the weighted mean of the targets"); cover(2); }
}
/// a member scored on the data set sees every row with its own target and weight, whatever the layout
#[no_mangle] pub extern "C" fn h_score() {
    let nf = 2; let n = conc(us(1, p(0)));
    let r = raw(nf, n);
    for v in r.x.iter().chain(&r.y) { assume(v.is_finite()); }
    if let Some(w) = &r.w { for v in w { assume(v.is_finite()); } }
    let d = D::with_weights_and_names(lay2(&r.x, nf, n, conc(us(0, 3))), lay1(&r.y, conc(us(0, 2))), r.w.as_ref().map(|w| lay1(w, conc(us(0, 2)))), vec![]);
    let mut o = Options::<f64, 3>::default();
    o.operators = Operators::<3>::from_names::<UOps>(&["ua", "ba"]).unwrap();
    o.loss = std::sync::Arc::new(L);
    let mut m = PopMember::<f64, UOps, 3>::from_expr(MemberId(0), None, 0, UE::new(vec![PNode::Var { feature: 0 }, PNode::Var { feature: 1 }, PNode::Op { arity: 2, op: 0 }], vec![], Default::default()), nf);
    let mut ev = Evaluator::new(n);
    m.evaluate(&TaggedDataset::new(&d, None), &o, &mut ev);
    let mut a = 3.0f64; let mut fin = true;
    for j in 0..n { let v = r.x[j].atan2(r.x[n + j]); fin &= v.is_finite(); a = a.atan2(v).powf(r.y[j]); if let Some(w) = &r.w { a = a.atan2(w[j]); } }
    if fin & a.is_finite() { same(m.loss, a, "the loss of these rows"); cover(1); }
}
struct L;
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 { let mut a = 3.0f64; for i in 0..yh.len() { a = a.atan2(yh[i]).powf(y[i]); if let Some(w) = w { a = a.atan2(w[i]); } } a }
    fn dloss_dyhat(&self, _yh: &[f64], _y: &[f64], _w: Option<&[f64]>, out: &mut [f64]) { for v in out { *v = 0.0; } }
}
#[no_mangle] pub extern "C" fn h_batch() {
    let nf = conc(us(1, p(0))); let n = conc(us(1, p(1))); let size = conc(us(0, p(2)));
    let r = raw(nf, n);
    let full = D::with_weights_and_names(lay2(&r.x, nf, n, conc(us(0, 1))), Array1::from_vec(r.y.clone()), r.w.clone().map(Array1::from_vec), vec!["q".into()]);
    let mut d = D::make_batch_buffer(&full, size);
    let m = size.max(1);
    check(d.n_rows == m && d.n_features == nf && d.x.dim() == (nf, m) && d.y.len() == m && d.weights.is_some() == r.w.is_some(), "the shape of a batch");
    same(d.avg_y, full.avg_y, "the full set's mean"); check(d.variable_names == full.variable_names, "the full set's names");
    for round in 0..2u64 {
        d.resample_from(&full, &mut Rng::new());
        check(d.n_rows == m && d.x.dim() == (nf, m) && d.y.len() == m, "keeps its shape");
        same(d.avg_y, full.avg_y, "keeps its mean");
        for i in 0..m {
            // some row of the full set, whole
            let mut any = false;
            for j in 0..n {
                let mut z = d.y[i].to_bits() ^ r.y[j].to_bits();
                for k in 0..nf { z |= d.x[(k, i)].to_bits() ^ r.x[k * n + j].to_bits(); }
                if let Some(w) = &r.w { z |= d.weights.as_ref().unwrap()[i].to_bits() ^ w[j].to_bits(); }
                any |= z == 0;
            }
            check(any, "every batch row is a row of the full set with its target and weight");
        }
        cover(round);
    }
    holds(&full, &r);
}
/// every row can be drawn for every place
#[no_mangle] pub extern "C" fn h_draw() {
    let n = 3; let size = 2;
    let r = Raw { nf: 1, n, x: vec![1.0, 2.0, 3.0], y: vec![4.0, 5.0, 6.0], w: None };
    let full = D::new(lay2(&r.x, 1, n, 0), Array1::from_vec(r.y.clone()));
    let mut d = D::make_batch_buffer(&full, size);
    d.resample_from(&full, &mut Rng::new());
    for i in 0..size { cover(10 * (i as u64 + 1) + conc(d.y[i] as usize) as u64); }
    check(d.y[0] - d.x[(0, 0)] == 3.0, "aligned");
}
harnesses!(h_new, h_score, h_batch, h_draw);
