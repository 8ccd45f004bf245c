//! C03: forward derivatives and gradients are the chain rule, over exact arithmetic, for any operators.
use dynamic_expressions::*;
use dynamic_expressions::operator_enum::presets;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::Array2;
const NO: EvalOptions = EvalOptions { check_finite: false, early_exit: false };

fn diff_all(nodes: Vec<PNode>, nf: usize, nc: usize, rows: usize) {
    let x = data(nf, rows); let cs = consts(nc);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let mut dctx = DiffContext::<f64, 3>::new(rows);
    let opts = EvalOptions { check_finite: false, early_exit: b() };
    for dir in 0..nf {
        let (val, der, ok) = eval_diff_tree_array(&e, xm.view(), dir, &mut dctx, &opts);
        check(ok && val.len() == rows && der.len() == rows, "differentiation completes with one value and derivative per row");
        for r in 0..rows {
            let (v, d) = ref_dual(&nodes, &|c| (cs[c], 0.0), &|k| (x[k * rows + r], if k == dir { 1.0 } else { 0.0 }));
            same(val[r], v, "value computed alongside the derivative");
            req(der[r], d, "directional derivative equals the chain rule");
        }
    }
}
fn grad_all(nodes: Vec<PNode>, nf: usize, nc: usize, rows: usize, variable: bool) {
    let x = data(nf, rows); let cs = consts(nc);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let mut gctx = GradContext::<f64, 3>::new(rows);
    let opts = EvalOptions { check_finite: false, early_exit: b() };
    let (val, g, ok) = eval_grad_tree_array(&e, xm.view(), variable, &mut gctx, &opts);
    let nd = if variable { nf } else { nc };
    check(ok && val.len() == rows && g.n_dir == nd && g.n_rows == rows && g.data.len() == nd * rows, "gradient completes with one column per direction");
    for dir in 0..nd { for r in 0..rows {
        let (v, d) = ref_dual(&nodes, &|c| (cs[c], if !variable && c == dir { 1.0 } else { 0.0 }), &|k| (x[k * rows + r], if variable && k == dir { 1.0 } else { 0.0 }));
        if dir == 0 { same(val[r], v, "value computed alongside the gradient"); }
        req(g.data[dir * rows + r], d, "gradient entry equals the chain rule");
    } }
}
#[no_mangle] pub extern "C" fn h_diff() {
    let nodes = gen(Cfg { max: p(0), nf: 2, nc: 1, maxar: 3, ops: [0, 1, 1, 1] });
    cover(nodes.len() as u64); diff_all(nodes, 2, 1, p(1));
}
#[no_mangle] pub extern "C" fn h_diff_deep() { let (nodes, nf, nc) = gen_shape(p(0)); cover(nodes.len() as u64); diff_all(nodes, nf, nc, p(1)); }
#[no_mangle] pub extern "C" fn h_grad() {
    let variable = b();
    let nodes = gen(Cfg { max: p(0), nf: 2, nc: 2, maxar: 3, ops: [0, 1, 1, 1] });
    cover(nodes.len() as u64); grad_all(nodes, 2, 2, p(1), variable);
}
#[no_mangle] pub extern "C" fn h_grad_deep() { let variable = b(); let (nodes, nf, nc) = gen_shape(p(0)); cover(nodes.len() as u64); grad_all(nodes, nf, nc, p(1), variable); }
/// Repeated leaves: the same variable/constant in several places accumulates all contributions.
#[no_mangle] pub extern "C" fn h_grad_shared() {
    let variable = b();
    let nodes = gen(Cfg { max: p(0), nf: 1, nc: 1, maxar: 3, ops: [0, 1, 2, 1] });
    cover(nodes.len() as u64); grad_all(nodes, 1, 1, 1, variable);
}
/// No rows: empty results of the right shape.
#[no_mangle] pub extern "C" fn h_no_rows() {
    let variable = b();
    let nodes = gen(Cfg { max: 3, nf: 2, nc: 1, maxar: 3, ops: [0, 1, 1, 1] });
    let e = UE::new(nodes.clone(), consts(1), Default::default());
    let xm = Array2::<f64>::from_shape_vec((2, 0), vec![]).unwrap();
    let (v, ok) = eval_tree_array(&e, xm.view(), &NO); check(ok && v.is_empty(), "no rows: empty values");
    let mut gctx = GradContext::<f64, 3>::new(0);
    let (v, g, ok) = eval_grad_tree_array(&e, xm.view(), variable, &mut gctx, &NO);
    check(ok && v.is_empty() && g.data.is_empty() && g.n_dir == (if variable { 2 } else { 1 }), "no rows: empty gradient");
    let mut dctx = DiffContext::<f64, 3>::new(0);
    let (v, d, ok) = eval_diff_tree_array(&e, xm.view(), us(0, 1), &mut dctx, &NO); check(ok && v.is_empty() && d.is_empty(), "no rows: empty derivative");
    cover(nodes.len() as u64);
}
/// An argument that does not depend on the direction contributes nothing, even where the operator's
/// partial derivative with respect to it is undefined (x^c at negative x).
#[no_mangle] pub extern "C" fn h_pow_const() {
    type BE = PostfixExpr<f64, presets::BuiltinOpsF64, 3>;
    let rows = 1; let x = data(1, rows); let cs = consts(1);
    let pow = 6u16; check(presets::BuiltinOpsF64::meta(OpId { arity: 2, id: pow }).unwrap().name == "pow", "operator id");
    let deep = b(); // exponent directly, or behind a unary operator (identity)
    let mut nodes = vec![PNode::Var { feature: 0 }, PNode::Const { idx: 0 }];
    if deep { nodes.push(PNode::Op { arity: 1, op: 16 }); }
    nodes.push(PNode::Op { arity: 2, op: pow });
    let e = BE::new(nodes, cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((1, rows), x.clone()).unwrap();
    let expect = cs[0] * x[0].powf(cs[0] - 1.0);
    let mut gctx = GradContext::<f64, 3>::new(rows);
    let (_, g, _) = eval_grad_tree_array(&e, xm.view(), true, &mut gctx, &NO);
    check(expect.is_nan() || !g.data[0].is_nan(), "gradient of x^c is defined wherever c*x^(c-1) is");
    let mut dctx = DiffContext::<f64, 3>::new(rows);
    let (_, d, _) = eval_diff_tree_array(&e, xm.view(), 0, &mut dctx, &NO);
    check(expect.is_nan() || !d[0].is_nan(), "derivative of x^c is defined wherever c*x^(c-1) is");
    cover(deep as u64);
}
/// Many rows (whole blocks and remainders of every size a vectorised loop could use).
#[no_mangle] pub extern "C" fn h_rows() {
    let rows = many_rows(p(0));
    let nodes = gen(Cfg { max: p(1), nf: 1, nc: 1, maxar: 3, ops: [0, 1, 1, 1] });
    cover(nodes.len() as u64);
    match conc(us(0, 2)) { 0 => diff_all(nodes, 1, 1, rows), k => grad_all(nodes, 1, 1, rows, k == 1) }
}
/// value and derivative of a tree whose dependent operands all have a non-zero derivative
fn ref_dep(nodes: &[PNode], leaf: &dyn Fn(&PNode) -> (f64, Option<f64>)) -> (f64, f64) {
    let mut st: Vec<(f64, Option<f64>)> = Vec::new();
    for n in nodes { match *n {
        PNode::Op { arity, op } => {
            let ar = arity as usize; let k = st.len() - ar;
            let a: Vec<f64> = st[k..].iter().map(|p| p.0).collect();
            let mut d: Option<f64> = None; let mut dv = 0.0;
            for i in 0..ar { let e = match st[k + i].1 { None => 0.0, Some(t) => { let e = ref_partial(ar, op, &a, i) * t; d = Some(0.0); e } }; if i == 0 && ar < 3 { dv = e } else { dv += e } }
            let v = ref_op(ar, op, &a);
            if d.is_some() { assume(dv != 0.0); d = Some(dv); }
            st.truncate(k); st.push((v, d));
        }
        ref l => st.push(leaf(l)),
    } }
    (st[0].0, st[0].1.unwrap_or(0.0))
}
/// Larger trees than those enumerated, of eight shapes.
#[no_mangle] pub extern "C" fn h_big() {
    let (t, _) = big_tree(p(0), 3, NOPS); let (nf, nc) = (3, 2); let nodes = leaves(t, nf, nc);
    let x = data(nf, 1); let cs = consts(nc); let kind = conc(us(0, 2));
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, 1), x.clone()).unwrap();
    let dirs = if kind == 2 { nc } else { nf };
    let want: Vec<(f64, f64)> = (0..dirs).map(|d| ref_dep(&nodes, &|l| match *l { PNode::Var { feature } => (x[feature as usize], if kind < 2 && feature as usize == d { Some(1.0) } else { None }), PNode::Const { idx } => (cs[idx as usize], if kind == 2 && idx as usize == d { Some(1.0) } else { None }), _ => unreachable!() })).collect();
    if kind == 0 {
        let mut dctx = DiffContext::<f64, 3>::new(1);
        for d in 0..dirs { let (v, g, ok) = eval_diff_tree_array(&e, xm.view(), d, &mut dctx, &NO); check(ok, "completes"); same(v[0], want[d].0, "value computed alongside the derivative (big tree)"); req(g[0], want[d].1, "directional derivative equals the chain rule (big tree)"); }
    } else {
        let mut gctx = GradContext::<f64, 3>::new(1);
        let (v, g, ok) = eval_grad_tree_array(&e, xm.view(), kind == 1, &mut gctx, &NO); check(ok && g.data.len() == dirs, "completes");
        for d in 0..dirs { same(v[0], want[d].0, "value computed alongside the gradient (big tree)"); req(g.data[d], want[d].1, "gradient entry equals the chain rule (big tree)"); }
    }
    cover(kind as u64);
}
harnesses!(h_big, h_rows, h_diff, h_diff_deep, h_grad, h_grad_deep, h_grad_shared, h_no_rows, h_pow_const);
