//! C06: simplification keeps the expression well-formed, no larger, and denoting the same function.
use dynamic_expressions::*;
use h::common::{decided, gen, Cfg};
use h::rt::*;
use h::harnesses;
use ndarray::Array2;

dynamic_expressions::custom_opset! {
    /// '-', '+' and '*' among uninterpreted operators; ids of different arities overlap on purpose
    pub struct SOps<f64> {
        1 {
            ua { eval(args) { args[0].atan() }, partial(args, _i) { args[0] }, }
            ub { eval(args) { args[0].exp2() }, partial(args, _i) { args[0] }, }
            uc { eval(args) { args[0].acos() }, partial(args, _i) { args[0] }, }
        }
        2 {
            minus { infix: "-", eval(args) { args[0] - args[1] }, partial(args, _i) { args[0] }, }
            plus { infix: "+", commutative: true, associative: true, eval(args) { args[0] + args[1] }, partial(args, _i) { args[0] }, }
            times { infix: "*", commutative: true, associative: true, eval(args) { args[0] * args[1] }, partial(args, _i) { args[0] }, }
            ba { eval(args) { args[0].atan2(args[1]) }, partial(args, _i) { args[0] }, }
        }
        3 {
            ta { eval(args) { args[0].powf(args[1]).atan2(args[2]) }, partial(args, _i) { args[0] }, }
            tb { eval(args) { args[2].atan2(args[0]).powf(args[1]) }, partial(args, _i) { args[0] }, }
        }
    }
}
type E = PostfixExpr<f64, SOps, 3>;
const NO: EvalOptions = EvalOptions { check_finite: false, early_exit: false };
fn ops(ar: u8, id: u16, a: &[f64]) -> f64 {
    match (ar, id) {
        (1, 0) => a[0].atan(), (1, 1) => a[0].exp2(), (1, 2) => a[0].acos(),
        (2, 0) => a[0] - a[1], (2, 1) => a[0] + a[1], (2, 2) => a[0] * a[1], (2, 3) => a[0].atan2(a[1]),
        (3, 0) => a[0].powf(a[1]).atan2(a[2]), (3, 1) => a[2].atan2(a[0]).powf(a[1]),
        _ => panic!("no such operator"),
    }
}
fn sem(nodes: &[PNode], consts: &[f64], x: &[f64]) -> f64 {
    let mut st: Vec<f64> = Vec::new();
    for n in nodes { match *n {
        PNode::Var { feature } => st.push(x[feature as usize]),
        PNode::Const { idx } => st.push(consts[idx as usize]),
        PNode::Op { arity, op } => { let k = st.len() - arity as usize; let r = ops(arity, op, &st[k..]); st.truncate(k); st.push(r); }
    } }
    st[0]
}
fn well_formed(e: &E, nf: usize) {
    let mut d = 0isize;
    for n in &e.nodes { match *n {
        PNode::Var { feature } => { check((feature as usize) < nf, "feature still exists"); d += 1; }
        PNode::Const { idx } => { check((idx as usize) < e.consts.len(), "constant index inside the table"); d += 1; }
        PNode::Op { arity, op } => {
            check((op as usize) < SOps::ops_with_arity(arity).len(), "operator exists with this arity");
            check(d >= arity as isize, "operands available"); d -= arity as isize - 1; }
    } }
    check(d == 1, "one root");
}
/// every tree, every table (unused and shared entries included)
fn any_expr(max: usize, nops: [u64; 4]) -> E {
    let nc = conc(us(1, 2));
    let t = decided(gen(Cfg { max, nf: 2, nc: nc as u64, maxar: 3, ops: nops }));
    let c: Vec<f64> = (0..nc).map(|_| f()).collect();
    for v in &c { assume(v.is_finite()); }
    E::new(t, c, Default::default())
}
fn opts() -> EvalOptions { EvalOptions { check_finite: b(), early_exit: b() } }
fn unchanged(a: &E, bb: &E) {
    check(a.nodes == bb.nodes, "reported unchanged, nodes identical");
    check(a.consts.len() == bb.consts.len(), "reported unchanged, same constants");
    for (p, q) in a.consts.iter().zip(&bb.consts) { same(*p, *q, "reported unchanged, constant identical"); }
}
/// folding: the value is exactly the same, and no foldable operator is left
#[no_mangle] pub extern "C" fn h_fold() {
    let e = any_expr(p(0), [0, 2, 3, 2]);
    let mut s = e.clone();
    let ch = simplify_tree_in_place::<f64, SOps, 3>(&mut s, &opts());
    well_formed(&s, 2);
    check(s.nodes.len() <= e.nodes.len(), "not larger");
    if ch { cover(1); check(s.nodes.len() < e.nodes.len(), "folding removes nodes"); } else { cover(2); unchanged(&s, &e); }
    let x = [f(), f()];
    let (v, w) = (sem(&e.nodes, &e.consts, &x), sem(&s.nodes, &s.consts, &x));
    same(v, w, "folded expression has the same value"); obsf(w);
    // an operator whose operands are all constants survives only if folding it would not be finite
    let mut st: Vec<Option<f64>> = Vec::new();
    for n in &s.nodes { match *n {
        PNode::Var { .. } => st.push(None), PNode::Const { idx } => st.push(Some(s.consts[idx as usize])),
        PNode::Op { arity, op } => {
            let k = st.len() - arity as usize;
            let a: Option<Vec<f64>> = st[k..].iter().copied().collect();
            if let Some(a) = a { cover(3); check(!ops(arity, op, &a).is_finite(), "constant operator with a finite value is folded"); }
            st.truncate(k); st.push(None);
        }
    } }
}
/// regrouping constants through + - *: same function over exact arithmetic
#[no_mangle] pub extern "C" fn h_combine() {
    let e = any_expr(p(0), [0, 1, 4, 1]);
    let mut s = e.clone();
    let ch = combine_operators_in_place::<f64, SOps, 3>(&mut s);
    well_formed(&s, 2);
    check(s.nodes.len() <= e.nodes.len(), "not larger");
    if s.nodes.len() < e.nodes.len() { cover(1); check(ch, "a change is reported"); }
    if !ch { cover(2); unchanged(&s, &e); }
    let x = [f(), f()];
    for c in &s.consts { check(c.is_finite(), "constants stay finite"); }
    req(sem(&e.nodes, &e.consts, &x), sem(&s.nodes, &s.consts, &x), "regrouped expression denotes the same function");
}
/// the four-level chains that regrouping rewrites, deeper than h_combine goes
#[no_mangle] pub extern "C" fn h_combine_chain() {
    let n = p(0);
    // (((leaf op leaf) op leaf) ...) with either orientation at each level
    let mut t = vec![]; let mut nf = 0u16; let mut nc = 0u16;
    let leaf = |nf: &mut u16, nc: &mut u16| -> PNode { if b() { *nf += 1; PNode::Var { feature: *nf - 1 } } else { *nc += 1; PNode::Const { idx: *nc - 1 } } };
    t.push(leaf(&mut nf, &mut nc));
    for _ in 0..n {
        let op = conc(us(0, 3)) as u16;
        if op == 3 { t.push(PNode::Op { arity: 1, op: 0 }); continue; }
        let l = leaf(&mut nf, &mut nc);
        if b() { t.insert(0, l); } else { t.push(l); }
        t.push(PNode::Op { arity: 2, op });
    }
    let c: Vec<f64> = (0..nc).map(|_| f()).collect();
    for v in &c { assume(v.is_finite()); }
    let e = E::new(t, c, Default::default());
    let mut s = e.clone();
    combine_operators_in_place::<f64, SOps, 3>(&mut s);
    well_formed(&s, nf as usize);
    if s.nodes.len() < e.nodes.len() { cover(1); }
    if s.nodes.len() + 4 <= e.nodes.len() { cover(2); }
    check(s.nodes.len() <= e.nodes.len(), "not larger");
    let x: Vec<f64> = (0..nf).map(|_| f()).collect();
    req(sem(&e.nodes, &e.consts, &x), sem(&s.nodes, &s.consts, &x), "regrouped expression denotes the same function");
}
/// the whole pipeline, through the real evaluator; the table ends up holding exactly the used constants
#[no_mangle] pub extern "C" fn h_all() {
    let e = any_expr(p(0), [0, 1, 3, 1]);
    let mut s = e.clone();
    let ch = simplify_in_place::<f64, SOps, 3>(&mut s, &opts());
    well_formed(&s, 2);
    check(s.nodes.len() <= e.nodes.len(), "not larger");
    if !ch { cover(2); unchanged(&s, &e); } else { cover(1); }
    let mut used = vec![false; s.consts.len()];
    for n in &s.nodes { if let PNode::Const { idx } = *n { used[idx as usize] = true; } }
    check(used.iter().all(|u| *u), "no unused constant left");
    let x = [f(), f()];
    req(sem(&e.nodes, &e.consts, &x), sem(&s.nodes, &s.consts, &x), "simplified expression denotes the same function");
    let xv = Array2::from_shape_vec((2, 1), x.to_vec()).unwrap();
    same(eval_tree_array(&s, xv.view(), &NO).0[0], sem(&s.nodes, &s.consts, &x), "and evaluates to it"); obs(s.nodes.len() as u64);
}
/// larger trees than those enumerated
#[no_mangle] pub extern "C" fn h_big() {
    let (t, n) = h::common::big_tree(p(0), 3, [0, 2, 4, 1]); let kind = conc(us(0, 2));
    // constants dense, sparse, or none but one
    let (nf, nc) = match kind { 0 => (1, 2), 1 => (3, 1), _ => (n, 0) };
    let t = h::common::leaves(t, nf, nc);
    let c: Vec<f64> = (0..nc).map(|_| f()).collect();
    for v in &c { assume(v.is_finite()); }
    let e = E::new(t, c, Default::default());
    let mut s = e.clone();
    let ch = simplify_in_place::<f64, SOps, 3>(&mut s, &EvalOptions { check_finite: false, early_exit: false });
    well_formed(&s, nf);
    check(s.nodes.len() <= e.nodes.len(), "not larger"); if !ch { unchanged(&s, &e); }
    let x: Vec<f64> = (0..nf).map(|_| f()).collect();
    req(sem(&e.nodes, &e.consts, &x), sem(&s.nodes, &s.consts, &x), "simplified expression denotes the same function (big tree)"); cover(kind as u64);
}
harnesses!(h_big, h_fold, h_combine, h_combine_chain, h_all);
