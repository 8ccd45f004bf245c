//! C02: the completion flag and early exit.
use dynamic_expressions::*;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::Array2;

/// reference: every operator result of every row finite, and a constant root finite
fn all_fin(nodes: &[PNode], cs: &[f64], x: &[f64], rows: usize) -> bool {
    let mut fin = true;
    for r in 0..rows { ref_eval(nodes, cs, &|k| x[k * rows + r], &mut fin); }
    if let [PNode::Const { idx }] = nodes { fin &= cs[*idx as usize].is_finite(); }
    fin
}
#[no_mangle] pub extern "C" fn h_flag() {
    let (nf, nc) = (2usize, 1usize);
    let nodes = gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar: 3, ops: [0, 2, 1, 1] });
    let rows = conc(us(1, p(1)));
    let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: b(), early_exit: b() };
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let (out, ok) = eval_tree_array(&e, xm.view(), &opts);
    if !opts.check_finite { check(ok, "without finiteness checking evaluation always reports completion"); cover(1); return; }
    let fin = all_fin(&nodes, &cs, &x, rows);
    check(ok == fin, "completion is reported exactly when every operator result (and a constant root) is finite");
    if !opts.early_exit && !ok { for r in 0..rows { let mut f2 = true; same(out[r], ref_eval(&nodes, &cs, &|k| x[k * rows + r], &mut f2), "without early exit the values are still the tree's values"); } cover(2); }
    if ok { cover(3); } else { cover(4); }
    obs(ok as u64);
}
#[no_mangle] pub extern "C" fn h_flag_diff() {
    let (nf, nc) = (2usize, 1usize);
    let nodes = gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar: 3, ops: [0, 1, 1, 1] });
    let rows = conc(us(1, p(1)));
    let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: b(), early_exit: b() };
    let dir = us(0, nf - 1);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let mut ctx = DiffContext::<f64, 3>::new(rows);
    let (val, der, ok) = eval_diff_tree_array(&e, xm.view(), dir, &mut ctx, &opts);
    check(val.len() == rows && der.len() == rows, "one value and one derivative per row");
    if !opts.check_finite { check(ok, "without finiteness checking differentiation always reports completion"); cover(1); return; }
    let fin = all_fin(&nodes, &cs, &x, rows);
    if ok { check(fin, "completion of differentiation implies that every operator result is finite"); cover(3); }
    else {
        cover(4);
        if opts.early_exit { for r in 0..rows { check(val[r].is_nan() && der[r].is_nan(), "early exit of differentiation yields NaN everywhere"); } }
        // a derivative may overflow although all values are finite; otherwise completion must be reported
        if nodes.iter().all(|n| !matches!(n, PNode::Op { arity: 3, .. })) { check(!fin, "differentiation of finite values is reported complete"); }
    }
    obs(ok as u64);
}
#[no_mangle] pub extern "C" fn h_flag_grad() {
    let (nf, nc) = (1usize, 2usize);
    let nodes = gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar: 3, ops: [0, 1, 1, 1] });
    let rows = conc(us(1, p(1)));
    let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: b(), early_exit: b() };
    let variable = b();
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let mut ctx = GradContext::<f64, 3>::new(rows);
    let (val, g, ok) = eval_grad_tree_array(&e, xm.view(), variable, &mut ctx, &opts);
    check(val.len() == rows && g.n_rows == rows && g.n_dir == (if variable { nf } else { nc }) && g.data.len() == rows * g.n_dir, "gradient has one column per direction");
    if !opts.check_finite { check(ok, "without finiteness checking the gradient always reports completion"); cover(1); return; }
    check(ok == all_fin(&nodes, &cs, &x, rows), "gradient completion is reported exactly when every operator result is finite");
    if !ok { cover(4); if opts.early_exit { for v in val.iter().chain(g.data.iter()) { check(v.is_nan(), "early exit of the gradient yields NaN everywhere"); } } } else { cover(3); }
    obs(ok as u64);
}
/// Many rows: the one non-finite result may sit in any of them.
#[no_mangle] pub extern "C" fn h_flag_rows() {
    let rows = many_rows(p(0));
    let nodes = gen(Cfg { max: p(1), nf: 1, nc: 1, maxar: 3, ops: [0, 1, 1, 1] });
    if nodes.len() == 1 { return; }
    let bad = conc(us(0, rows)); // `rows`: none
    let (x0, cs) = (data(1, 2), consts(1));
    let fin = |v: f64| { let mut f = true; ref_eval(&nodes, &cs, &|_| v, &mut f); f };
    assume(fin(x0[0])); assume(!fin(x0[1]));
    let x: Vec<f64> = (0..rows).map(|r| if r == bad { x0[1] } else { x0[0] }).collect();
    let opts = EvalOptions { check_finite: true, early_exit: conc(us(0, 1)) == 1 };
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((1, rows), x).unwrap();
    let ok = match conc(us(0, 2)) {
        0 => eval_tree_array(&e, xm.view(), &opts).1,
        1 => { let mut ctx = DiffContext::<f64, 3>::new(rows); let ok = eval_diff_tree_array(&e, xm.view(), 0, &mut ctx, &opts).2; if bad == rows { return; } ok }
        _ => { let mut ctx = GradContext::<f64, 3>::new(rows); eval_grad_tree_array(&e, xm.view(), true, &mut ctx, &opts).2 }
    };
    check(ok == (bad == rows), "a non-finite operator result in any row is reported, and nothing else is");
    cover(nodes.len() as u64);
}
/// Larger trees than those enumerated: the one non-finite result may come from any operator.
#[no_mangle] pub extern "C" fn h_flag_big() {
    let (t, n) = big_tree(p(0), 3, [0, 2, 1, 1]); let nf = n - n / 4; let nc = n / 4;
    let nodes = leaves(t, nf, nc);
    let x = data(nf, 1); let cs = consts(nc);
    let bad = conc(us(0, nodes.len())); // not an operator: none
    let mut st: Vec<f64> = vec![]; let mut hit = false;
    for (i, m) in nodes.iter().enumerate() { match *m { PNode::Var { feature } => st.push(x[feature as usize]), PNode::Const { idx } => st.push(cs[idx as usize]),
        PNode::Op { arity, op } => { let k = st.len() - arity as usize; let r = ref_op(arity as usize, op, &st[k..]); if !hit { assume(r.is_finite() == (i != bad)); } hit |= i == bad; st.truncate(k); st.push(r); } } }
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, 1), x.clone()).unwrap();
    let (_, ok) = eval_tree_array(&e, xm.view(), &EvalOptions { check_finite: true, early_exit: true });
    check(ok == !hit, "completion is reported exactly when every operator result is finite (big tree)");
    if hit { cover(1) } else { cover(2) }
}
harnesses!(h_flag_big, h_flag_rows, h_flag, h_flag_diff, h_flag_grad);
