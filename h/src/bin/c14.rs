//! C14: constant optimisation either strictly improves the member, consistently, or leaves it as it was.
use dynamic_expressions::*;
use fastrand::Rng;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2};
use std::sync::{Arc, Mutex};
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{Dataset, MemberId, Options, PopMember, TaggedDataset};
/// An arbitrary loss: any value for any predictions, the same again for the same predictions; any derivative.
struct L(Arc<Mutex<Vec<(Vec<f64>, f64)>>>);
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], _y: &[f64], _w: Option<&[f64]>) -> f64 {
        let v = f();
        let mut k = self.0.lock().unwrap();
        for (z, w) in k.iter() { let mut differ = 0u64; for i in 0..yh.len() { differ |= yh[i].to_bits() ^ z[i].to_bits(); } assume((differ != 0) | (v.to_bits() == w.to_bits())); }
        k.push((yh.to_vec(), v)); v
    }
    fn dloss_dyhat(&self, _yh: &[f64], _y: &[f64], _w: Option<&[f64]>, out: &mut [f64]) { for d in out.iter_mut() { *d = f(); } }
}
fn run(t: Vec<PNode>, nc: u64, rows: usize) {
    let cs = consts(nc as usize);
    let e = UE::new(t, cs.clone(), Default::default());
    let (x, y) = (data(1, rows), data(1, rows));
    let ds = Dataset::new(Array2::from_shape_vec((1, rows), x.clone()).unwrap(), Array1::from_vec(y.clone()));
    let mut o = Options::<f64, 3>::default();
    o.optimizer_iterations = p(1); o.optimizer_f_calls_limit = p(2); o.optimizer_nrestarts = p(3);
    o.should_optimize_constants = b(); o.parsimony = 0.5;
    let calls = Arc::new(Mutex::new(vec![]));
    o.loss = Arc::new(L(calls.clone()));
    let mut m = PopMember::from_expr(MemberId(7), Some(MemberId(3)), 5, e.clone(), 1);
    let (l0, c0) = (f(), f());
    m.loss = l0; m.cost = c0; m.complexity = e.nodes.len();
    let mut ev = Evaluator::new(rows); let mut g = GradContext::new(rows); let mut nb = 40u64;
    if p(4) == 1 { fastrand::float_choices(vec![0.25, 0.2499, 0.75]); }
    let (imp, n) = optimize_constants(&mut Rng::new(), &mut m, OptimizeConstantsCtx { dataset: TaggedDataset::new(&ds, None), options: &o, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut nb });
    let mut fin = true;
    let asked = calls.lock().unwrap().len();
    let loss_of = |c: &[f64], fin: &mut bool| { let yh: Vec<f64> = (0..rows).map(|r| ref_eval(&e.nodes, c, &|k| x[k * rows + r], fin)).collect(); o.loss.loss(&yh, &y, None) };
    check(m.expr.nodes == e.nodes && m.expr.consts.len() == cs.len() && m.id == MemberId(7) && m.parent == Some(MemberId(3)) && m.complexity == e.nodes.len(), "only the constants may change");
    if imp {
        cover(1);
        check(o.should_optimize_constants && nc > 0, "improves only when switched on and possible");
        let before = loss_of(&cs, &mut fin); let mut f2 = true;
        same(m.loss, loss_of(&m.expr.consts, &mut f2), "stored loss belongs to the stored constants");
        check(m.loss < before, "strictly better than before");
        same(m.cost, loss_to_cost(m.loss, m.complexity, o.parsimony, o.use_baseline, None), "stored cost follows from the loss");
        check(m.birth == 40 && nb == 41, "born anew");
    } else {
        for i in 0..cs.len() { same(m.expr.consts[i], cs[i], "constants as before"); }
        same(m.loss, l0, "loss as before"); same(m.cost, c0, "cost as before");
        check(m.birth == 5 && nb == 40, "age as before");
        cover(2);
        if !o.should_optimize_constants || nc == 0 { check(asked == 0 && n == 0.0, "no work when switched off"); cover(3); }
    }
}
fn small(max: usize, nc: u64) -> Vec<PNode> { decided(gen(Cfg { max, nf: 1, nc, maxar: 2, ops: [0, 1, 1, 0] })) }
/// one constant: Newton
#[no_mangle] pub extern "C" fn h_one() { run(small(p(0), 1), 1, 1) }
/// two constants: BFGS
#[no_mangle] pub extern "C" fn h_two() {
    let (c, d, x, o) = (PNode::Const { idx: 0 }, PNode::Const { idx: 1 }, PNode::Var { feature: 0 }, PNode::Op { arity: 2, op: 0 });
    run(match conc(us(0, 1)) { 0 => vec![c, d, o], _ => vec![c, x, d, o, o] }, 2, 1)
}
/// two rows
#[no_mangle] pub extern "C" fn h_rows() { run(small(p(0), 1), 1, 2) }
#[no_mangle] pub extern "C" fn h_none() { run(small(p(0), 0), 0, 1) }
harnesses!(h_one, h_two, h_rows, h_none);
