//! C05: evaluation contexts and scratch memory carry nothing from one expression to the next.
use dynamic_expressions::*;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::Array2;

fn opts() -> EvalOptions { EvalOptions { check_finite: b(), early_exit: b() } }
fn same_all(a: &[f64], c: &[f64], m: &str) { check(a.len() == c.len(), m); for i in 0..a.len() { same(a[i], c[i], m); } }
fn tree(maxar: usize) -> (Vec<PNode>, usize, usize) {
    let nf = conc(us(1, 2)); let nc = conc(us(0, 2));
    (gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar, ops: [0, 2, 1, 1] }), nf, nc)
}
fn mk(nodes: &[PNode], nc: usize, rows: usize, nf: usize) -> (UE, Array2<f64>) {
    (UE::new(nodes.to_vec(), consts(nc), Default::default()), Array2::from_shape_vec((nf, rows), data(nf, rows)).unwrap())
}
/// Evaluation through a context that has already evaluated anything else equals a fresh evaluation.
#[no_mangle] pub extern "C" fn h_eval_ctx() {
    let rows = p(1);
    let (n1, f1, c1) = tree(2); let (n2, f2, c2) = tree(2);
    let (e1, x1) = mk(&n1, c1, rows, f1); let (e2, x2) = mk(&n2, c2, rows, f2);
    let (o1, o2) = (EvalOptions { check_finite: false, early_exit: true }, EvalOptions { check_finite: false, early_exit: false });
    let mut ctx = EvalContext::<f64, 3>::new(rows);
    let mut out = vec![f(); rows];
    eval_tree_array_into(&mut out, &e1, x1.view(), &mut ctx, &o1);
    let ok = eval_tree_array_into(&mut out, &e2, x2.view(), &mut ctx, &o2);
    let (fresh, fok) = eval_tree_array(&e2, x2.view(), &o2);
    check(ok == fok, "completion through a used context equals completion of a fresh evaluation");
    same_all(&out, &fresh, "value through a used context equals a fresh evaluation");
    cover(n1.len() as u64); cover(10 + n2.len() as u64);
}
/// The same, when the first evaluation stopped early (non-finite values) and left its scratch half written.
#[no_mangle] pub extern "C" fn h_eval_ctx_abort() {
    let rows = 1;
    let (n1, f1, c1) = tree(3); let n2 = if b() { n1.clone() } else { gen(Cfg { max: p(0), nf: f1 as u64, nc: c1 as u64, maxar: 2, ops: [0, 1, 1, 1] }) };
    let (e1, x1) = mk(&n1, c1, rows, f1); let (e2, x2) = mk(&n2, c1, rows, f1);
    let o = EvalOptions { check_finite: true, early_exit: true };
    let mut ctx = EvalContext::<f64, 3>::new(rows); let mut out = vec![0.0; rows];
    let ok1 = eval_tree_array_into(&mut out, &e1, x1.view(), &mut ctx, &o);
    let o2 = EvalOptions { check_finite: false, early_exit: true };
    let ok = eval_tree_array_into(&mut out, &e2, x2.view(), &mut ctx, &o2);
    let (fresh, fok) = eval_tree_array(&e2, x2.view(), &o2);
    check(ok == fok, "completion after an aborted evaluation"); same_all(&out, &fresh, "value after an aborted evaluation");
    if !ok1 { cover(1); } cover(2);
}
/// The expression is edited in place (nodes and constants) between two uses of one context.
#[no_mangle] pub extern "C" fn h_edit() {
    let rows = 1; let nf = 2;
    let n1 = decided(gen(Cfg { max: p(0), nf: 2, nc: 2, maxar: 2, ops: [0, 2, 2, 0] }));
    let (mut e, x) = mk(&n1, 2, rows, nf);
    let o = EvalOptions { check_finite: false, early_exit: false };
    let mut ctx = EvalContext::<f64, 3>::new(rows); let mut out = vec![0.0; rows];
    let mut g = GradContext::<f64, 3>::new(rows); let mut d = DiffContext::<f64, 3>::new(rows);
    eval_tree_array_into(&mut out, &e, x.view(), &mut ctx, &o);
    eval_grad_tree_array(&e, x.view(), true, &mut g, &o);
    eval_diff_tree_array(&e, x.view(), 0, &mut d, &o);
    // replace one node by another of the same kind, or a constant's value
    let k = conc(us(0, n1.len() - 1));
    e.nodes[k] = match n1[k] {
        PNode::Op { arity, .. } => PNode::Op { arity, op: conc(us(0, 1)) as u16 },
        _ => if b() { PNode::Var { feature: conc(us(0, 1)) as u16 } } else { PNode::Const { idx: conc(us(0, 1)) as u16 } },
    };
    e.consts[0] = f();
    eval_tree_array_into(&mut out, &e, x.view(), &mut ctx, &o);
    let mut all = true; same(out[0], ref_eval(&e.nodes, &e.consts, &|k| x[(k, 0)], &mut all), "value of the edited expression");
    let (v, gm, _) = eval_grad_tree_array(&e, x.view(), true, &mut g, &o);
    let mut g0 = GradContext::<f64, 3>::new(rows); let (v0, gm0, _) = eval_grad_tree_array(&e, x.view(), true, &mut g0, &o);
    same_all(&v, &v0, "value with gradient of the edited expression"); same_all(&gm.data, &gm0.data, "gradient of the edited expression");
    let (v, dv, _) = eval_diff_tree_array(&e, x.view(), 0, &mut d, &o);
    let mut d0 = DiffContext::<f64, 3>::new(rows); let (v0, dv0, _) = eval_diff_tree_array(&e, x.view(), 0, &mut d0, &o);
    same_all(&v, &v0, "value with derivative of the edited expression"); same_all(&dv, &dv0, "derivative of the edited expression");
    cover(n1.len() as u64);
}
/// Gradients and derivatives through used contexts equal fresh ones (different expression, different
/// kind of gradient, different number of directions).
#[no_mangle] pub extern "C" fn h_grad_ctx() {
    let rows = p(1); let (v1, v2) = (b(), b());
    let (n1, f1, c1) = tree(2); let (n2, f2, c2) = tree(2);
    let (e1, x1) = mk(&n1, c1, rows, f1); let (e2, x2) = mk(&n2, c2, rows, f2);
    let o = EvalOptions { check_finite: false, early_exit: b() };
    let mut ctx = GradContext::<f64, 3>::new(rows);
    eval_grad_tree_array(&e1, x1.view(), v1, &mut ctx, &o);
    let (v, g, ok) = eval_grad_tree_array(&e2, x2.view(), v2, &mut ctx, &o);
    let mut fresh = GradContext::<f64, 3>::new(rows);
    let (vf, gf, okf) = eval_grad_tree_array(&e2, x2.view(), v2, &mut fresh, &o);
    check(ok == okf && g.n_dir == gf.n_dir && g.n_rows == gf.n_rows, "gradient shape through a used context");
    same_all(&v, &vf, "value through a used gradient context"); same_all(&g.data, &gf.data, "gradient through a used context");
    cover(n1.len() as u64); cover(10 + n2.len() as u64);
}
#[no_mangle] pub extern "C" fn h_diff_ctx() {
    let rows = p(1);
    let (n1, f1, c1) = tree(2); let (n2, f2, c2) = tree(2);
    let (e1, x1) = mk(&n1, c1, rows, f1); let (e2, x2) = mk(&n2, c2, rows, f2);
    let o = EvalOptions { check_finite: false, early_exit: b() };
    let (d1, d2) = (conc(us(0, f1 - 1)), conc(us(0, f2 - 1)));
    let mut ctx = DiffContext::<f64, 3>::new(rows);
    eval_diff_tree_array(&e1, x1.view(), d1, &mut ctx, &o);
    let (v, g, ok) = eval_diff_tree_array(&e2, x2.view(), d2, &mut ctx, &o);
    let mut fresh = DiffContext::<f64, 3>::new(rows);
    let (vf, gf, okf) = eval_diff_tree_array(&e2, x2.view(), d2, &mut fresh, &o);
    check(ok == okf, "completion through a used derivative context");
    same_all(&v, &vf, "value through a used derivative context"); same_all(&g, &gf, "derivative through a used context");
    cover(n1.len() as u64); cover(10 + n2.len() as u64);
}
/// Two different expressions that a 64-bit digest of their nodes does not tell apart.
#[no_mangle] pub extern "C" fn h_digest() {
    let sum = |fs: [u16; 12]| -> Vec<PNode> { let mut v = vec![PNode::Var { feature: fs[0] }]; for k in 1..12 { v.push(PNode::Var { feature: fs[k] }); v.push(PNode::Op { arity: 2, op: 0 }); } v };
    let n1 = sum([20, 0, 0, 0, 0, 0, 0, 2, 1, 0, 8, 0]); let n2 = sum([0, 4, 0, 0, 10, 30, 0, 0, 0, 15, 0, 0]);
    let (e1, x) = mk(&n1, 0, 1, 31); let e2 = UE::new(n2.clone(), vec![], Default::default());
    let o = EvalOptions { check_finite: false, early_exit: false };
    let mut ctx = EvalContext::<f64, 3>::new(1); let mut out = vec![0.0];
    eval_tree_array_into(&mut out, &e1, x.view(), &mut ctx, &o);
    eval_tree_array_into(&mut out, &e2, x.view(), &mut ctx, &o);
    same(out[0], eval_tree_array(&e2, x.view(), &o).0[0], "value through a used context equals a fresh evaluation (digest collision)");
    let mut g = GradContext::<f64, 3>::new(1); let mut d = DiffContext::<f64, 3>::new(1);
    eval_grad_tree_array(&e1, x.view(), true, &mut g, &o); eval_diff_tree_array(&e1, x.view(), 0, &mut d, &o);
    same(eval_grad_tree_array(&e2, x.view(), true, &mut g, &o).0[0], out[0], "value through a used gradient context (digest collision)");
    same(eval_diff_tree_array(&e2, x.view(), 0, &mut d, &o).0[0], out[0], "value through a used derivative context (digest collision)");
    cover(1);
}
#[allow(unused)] fn unused() { opts(); }
harnesses!(h_eval_ctx, h_eval_ctx_abort, h_edit, h_grad_ctx, h_diff_ctx, h_digest);
