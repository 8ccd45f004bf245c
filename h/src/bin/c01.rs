//! C01: evaluating an expression over a data set computes the mathematical tree, row by row.
use dynamic_expressions::*;
use dynamic_expressions::compile::compile_plan;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::Array2;

/// Whole-tree evaluation equals the mathematical tree, for every tree, every data set and every option.
#[no_mangle] pub extern "C" fn h_eval_tree() {
    let (nf, nc) = (2usize, 2usize);
    let nodes = gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar: 3, ops: NOPS });
    let rows = conc(us(1, p(1)));
    let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: b(), early_exit: b() };
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let (out, ok) = eval_tree_array(&e, xm.view(), &opts);
    check(out.len() == rows, "one value per row");
    if ok || !opts.check_finite || !opts.early_exit {
        for r in 0..rows { let mut fin = true; let v = ref_eval(&nodes, &cs, &|k| x[k * rows + r], &mut fin); same(out[r], v, "evaluation result equals the tree's value"); }
    }
    obs(ok as u64); obs(nodes.len() as u64);
    cover(nodes.len() as u64); if !ok { cover(100); }
}
/// Deep shapes (many live intermediate results): leaves and operators all distinguishable.
#[no_mangle] pub extern "C" fn h_eval_deep() {
    let max = p(0); let rows = p(1);
    let (nodes, nf, nc) = gen_shape(max);
    let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: false, early_exit: false };
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let (out, ok) = eval_tree_array(&e, xm.view(), &opts);
    check(ok, "complete when finiteness is not checked");
    for r in 0..rows { let mut fin = true; let v = ref_eval(&nodes, &cs, &|k| x[k * rows + r], &mut fin); same(out[r], v, "evaluation result equals the tree's value (deep tree)"); }
    let plan = compile_plan::<3>(&nodes, nf, nc);
    check(plan.n_slots <= nodes.len(), "scratch slots bounded by the number of nodes");
    cover(plan.n_slots as u64); obs(nodes.len() as u64);
}
/// Out-of-range leaves and malformed sequences are refused rather than evaluated.
#[no_mangle] pub extern "C" fn h_malformed() {
    let n = conc(us(1, p(0))); let (nf, nc) = (1usize, 1usize);
    let mut nodes = vec![]; let mut depth: i64 = 0; let mut good = true;
    for _ in 0..n {
        match conc(us(0, 4)) {
            0 => { let f = u(0, 2) as u16; if f as usize >= nf { good = false; } nodes.push(PNode::Var { feature: f }); depth += 1; }
            1 => { let c = u(0, 2) as u16; if c as usize >= nc { good = false; } nodes.push(PNode::Const { idx: c }); depth += 1; }
            k => { let a = k as i64 - 1; if depth < a { good = false; } nodes.push(PNode::Op { arity: a as u8, op: 0 }); depth = (depth - a).max(0) + 1; }
        }
    }
    if depth != 1 { good = false; }
    let x = data(nf, 1); let cs = consts(nc);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, 1), x.clone()).unwrap();
    let opts = EvalOptions { check_finite: false, early_exit: false };
    may_panic(!good);
    let (out, _) = eval_tree_array(&e, xm.view(), &opts);
    check(good, "a malformed expression is refused");
    let mut fin = true; same(out[0], ref_eval(&nodes, &cs, &|k| x[k], &mut fin), "evaluation result equals the tree's value");
    cover(nodes.len() as u64);
}
/// Evaluation into a caller's buffer with a precompiled plan gives the same values.
#[no_mangle] pub extern "C" fn h_eval_plan() {
    let (nf, nc) = (2usize, 1usize);
    let nodes = gen(Cfg { max: p(0), nf: nf as u64, nc: nc as u64, maxar: 2, ops: [0, 1, 2, 0] });
    let rows = 2; let x = data(nf, rows); let cs = consts(nc);
    let opts = EvalOptions { check_finite: false, early_exit: b() };
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let plan = compile_plan::<3>(&nodes, nf, nc);
    // arbitrary previous contents and arbitrary previous shape of the scratch buffer
    let (sr, sc) = (conc(us(0, 3)), conc(us(1, 3)));
    let mut scratch = Array2::from_shape_vec((sr, sc), data(sr, sc)).unwrap();
    let mut out = data(rows, 1);
    let ok = eval_plan_array_into(&mut out, &plan, &e, xm.view(), &mut scratch, &opts);
    check(ok, "complete when finiteness is not checked");
    for r in 0..rows { let mut fin = true; same(out[r], ref_eval(&nodes, &cs, &|k| x[k * rows + r], &mut fin), "evaluation with a plan and a used scratch buffer equals the tree's value"); }
    cover(nodes.len() as u64);
}
/// Many rows (whole blocks and remainders of every size a vectorised loop could use).
#[no_mangle] pub extern "C" fn h_eval_rows() {
    let rows = many_rows(p(0));
    let nodes = gen(Cfg { max: p(1), nf: 1, nc: 1, maxar: 3, ops: [0, 1, 1, 1] });
    let x = data(1, rows); let cs = consts(1);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((1, rows), x.clone()).unwrap();
    let (out, ok) = eval_tree_array(&e, xm.view(), &EvalOptions { check_finite: false, early_exit: b() });
    check(ok && out.len() == rows, "one value per row");
    for r in 0..rows { let mut fin = true; same(out[r], ref_eval(&nodes, &cs, &|_| x[r], &mut fin), "evaluation result equals the tree's value (many rows)"); }
    cover(nodes.len() as u64);
}
/// Larger trees than those enumerated, of eight shapes, all leaves different.
#[no_mangle] pub extern "C" fn h_eval_big() {
    let (t, n) = big_tree(p(0), 3, NOPS); let nf = n - n / 3; let nc = n / 3; let rows = p(1);
    let nodes = leaves(t, nf, nc);
    let x = data(nf, rows); let cs = consts(nc);
    let e = UE::new(nodes.clone(), cs.clone(), Default::default());
    let xm = Array2::from_shape_vec((nf, rows), x.clone()).unwrap();
    let (out, ok) = eval_tree_array(&e, xm.view(), &EvalOptions { check_finite: false, early_exit: b() });
    check(ok && out.len() == rows, "one value per row");
    for r in 0..rows { let mut fin = true; same(out[r], ref_eval(&nodes, &cs, &|k| x[k * rows + r], &mut fin), "evaluation result equals the tree's value (big tree)"); }
    cover(1);
}
/// Data that are not laid out row by row are refused or evaluated as they stand.
#[no_mangle] pub extern "C" fn h_layout() {
    let (nf, rows) = (2usize, 2usize); let l = conc(us(0, 2));
    let nodes = gen(Cfg { max: p(0), nf: 2, nc: 0, maxar: 2, ops: [0, 1, 1, 0] });
    let x = data(nf, rows); let at = |k: usize, r: usize| x[k * rows + r];
    let t = Array2::from_shape_vec((rows, nf), vec![at(0, 0), at(1, 0), at(0, 1), at(1, 1)]).unwrap();
    let w = Array2::from_shape_vec((nf, 2 * rows), vec![at(0, 0), f(), at(0, 1), f(), at(1, 0), f(), at(1, 1), f()]).unwrap();
    let c = Array2::from_shape_vec((nf, rows + 1), vec![f(), at(0, 0), at(0, 1), f(), at(1, 0), at(1, 1)]).unwrap();
    let v = match l { 0 => t.t(), 1 => w.slice(ndarray::s![.., ..;2]), _ => c.slice(ndarray::s![.., 1..]) };
    let e = UE::new(nodes.clone(), vec![], Default::default());
    cover(1); may_panic(true);
    let (out, _) = eval_tree_array(&e, v, &EvalOptions { check_finite: false, early_exit: false });
    for r in 0..rows { let mut fin = true; same(out[r], ref_eval(&nodes, &[], &|k| at(k, r), &mut fin), "evaluation of data in another layout equals the tree's value"); }
}
harnesses!(h_eval_big, h_layout, h_eval_rows, h_eval_tree, h_eval_deep, h_malformed, h_eval_plan);
