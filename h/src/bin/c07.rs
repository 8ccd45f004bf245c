//! C07: expression building blocks: algebra, constant tables, structural queries.
use dynamic_expressions::*;
use dynamic_expressions::node_utils as nu;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use h::common::{decided, gen, Cfg};
use h::rt::*;
use h::harnesses;
use ndarray::Array2;
const NO: EvalOptions = EvalOptions { check_finite: false, early_exit: false };
type BE = PostfixExpr<f64, BuiltinOpsF64, 3>;
fn op(name: &str, ar: u8) -> u16 { BuiltinOpsF64::lookup_with_arity(name, ar).unwrap().id }
fn ev(e: &BE, x: &[f64]) -> f64 { eval_tree_array(e, Array2::from_shape_vec((x.len(), 1), x.to_vec()).unwrap().view(), &NO).0[0] }
/// small expressions over atan, powf and fma whose value depends on every leaf
fn any_be(max: usize, k: usize) -> BE {
    let nc = conc(us(1, 2));
    let t = gen(Cfg { max, nf: 2, nc: nc as u64, maxar: 3, ops: [0, 1, 1, 1] });
    let (a, p2, f3) = (op("atan", 1), op("pow", 2), op("fma", 3));
    let t: Vec<PNode> = decided(t).into_iter().map(|n| match n { PNode::Op { arity: 1, .. } => PNode::Op { arity: 1, op: a }, PNode::Op { arity: 2, .. } => PNode::Op { arity: 2, op: p2 }, PNode::Op { arity: 3, .. } => PNode::Op { arity: 3, op: f3 }, x => x }).collect();
    let names = match k { 0 => vec![], 1 => vec!["p".to_string(), "q".to_string()], _ => vec!["r".to_string()] };
    BE::new(t, (0..nc).map(|_| f()).collect(), Metadata { variable_names: names })
}
fn names_of(parts: &[&Vec<String>]) -> Vec<String> { parts.iter().find(|v| !v.is_empty()).map(|v| v.to_vec()).unwrap_or_default() }
/// a op b combines the operands in order, each keeping its own constants
#[no_mangle] pub extern "C" fn h_algebra() {
    let (ka, kb) = (conc(us(0, 1)), conc(us(0, 2)));
    let a = any_be(p(0), ka);
    let c = any_be(p(0), kb);
    let x = [f(), f()];
    let (va, vb) = (ev(&a, &x), ev(&c, &x));
    let want_names = names_of(&[&a.meta.variable_names, &c.meta.variable_names]);
    let k = conc(us(0, 7));
    let n = a.nodes.len() + c.nodes.len() + 1; let nc = a.consts.len() + c.consts.len();
    let (r, want) = match k {
        0 => (a + c, va + vb), 1 => (a - c, va - vb), 2 => (a * c, va * vb), 3 => (a / c, va / vb),
        4 => (operators::pow(a, c), va.powf(vb)), 5 => (operators::atan2(a, c), va.atan2(vb)),
        6 => (operators::sub(a, c), va - vb), _ => (operators::div(a, c), va / vb),
    };
    check(nu::is_valid_postfix(&r.nodes), "well-formed");
    check(r.nodes.len() == n && r.consts.len() == nc, "nothing added or lost");
    check(r.meta.variable_names == want_names, "variable names of the first operand that has any");
    same(ev(&r, &x), want, "value is the operator applied to the operands"); cover(k as u64);
}
#[no_mangle] pub extern "C" fn h_algebra_scalar() {
    let a = any_be(p(0), 1);
    let x = [f(), f()]; let v = f(); let va = ev(&a, &x);
    let k = conc(us(0, 10));
    let (r, want) = match k {
        0 => (a + v, va + v), 1 => (a - v, va - v), 2 => (a * v, va * v), 3 => (a / v, va / v),
        4 => (lit(v) + a, v + va), 5 => (lit(v) - a, v - va), 6 => (lit(v) * a, v * va), 7 => (lit(v) / a, v / va),
        8 => (-a, -va), 9 => (operators::neg(a), -va), _ => (operators::atan(a), va.atan()),
    };
    check(nu::is_valid_postfix(&r.nodes), "well-formed");
    check(r.meta.variable_names.len() == 2, "variable names kept");
    same(ev(&r, &x), want, "value is the operator applied to the operands"); cover(k as u64);
}
#[no_mangle] pub extern "C" fn h_algebra3() {
    let (a, c, d) = (any_be(p(0), 0), any_be(p(0), 0), any_be(p(0), 2));
    let x = [f(), f()];
    let (va, vc, vd) = (ev(&a, &x), ev(&c, &x), ev(&d, &x));
    let k = b();
    let (r, want) = if k { (operators::fma(a, c, d), va.mul_add(vc, vd)) } else { (operators::clamp(a, c, d), { if va < vc { vc } else if va > vd { vd } else { va } }) };
    check(nu::is_valid_postfix(&r.nodes), "well-formed");
    check(r.meta.variable_names == vec!["r".to_string()], "variable names of the first operand that has any");
    same(ev(&r, &x), want, "value is the operator applied to the operands"); cover(k as u64);
}
/// dropping unused constants changes nothing else
#[no_mangle] pub extern "C" fn h_compress() {
    let nc = conc(us(0, p(1)));
    let n = conc(us(1, p(0)));
    let nodes: Vec<PNode> = (0..n).map(|_| match conc(us(0, 2)) { 0 => PNode::Var { feature: u(0, 1) as u16 }, 1 if nc > 0 => PNode::Const { idx: conc(us(0, nc - 1)) as u16 }, _ => PNode::Op { arity: 2, op: u(0, 3) as u16 } }).collect();
    let e = BE::new(nodes, (0..nc).map(|_| f()).collect(), Default::default());
    let mut s = e.clone();
    let ch = compress_constants(&mut s);
    check(s.nodes.len() == e.nodes.len(), "same number of nodes");
    let mut used = vec![false; s.consts.len()];
    let mut touched = s.consts.len() != e.consts.len();
    for (i, (p_, q)) in e.nodes.iter().zip(&s.nodes).enumerate() { match (*p_, *q) {
        (PNode::Const { idx: i0 }, PNode::Const { idx: i1 }) => {
            check((i1 as usize) < s.consts.len(), "index inside the table");
            same(e.consts[i0 as usize], s.consts[i1 as usize], "same constant value"); used[i1 as usize] = true; touched |= i0 != i1;
            for (p2, q2) in e.nodes.iter().zip(&s.nodes).take(i) { if let (PNode::Const { idx: j0 }, PNode::Const { idx: j1 }) = (*p2, *q2) { check((i0 == j0) == (i1 == j1), "sharing between leaves kept"); } }
        }
        (a, c) => check(a == c, "other nodes untouched"),
    } }
    check(used.iter().all(|x| *x), "table holds exactly the used constants");
    check(ch == touched, "reports whether anything changed"); cover(ch as u64);
}
/// constants written through the reference are the ones the expression evaluates with
#[no_mangle] pub extern "C" fn h_get_set() {
    let e = any_be(p(0), 0);
    let (c, cref) = get_scalar_constants(&e);
    check(c.len() == e.consts.len() && cref.const_indices.len() == c.len(), "one entry per constant");
    for (i, v) in c.iter().enumerate() { same(*v, e.consts[i], "reads the constants"); }
    let mut s = e.clone();
    let nv: Vec<f64> = c.iter().map(|_| f()).collect();
    set_scalar_constants(&mut s, &nv, &cref);
    check(s.nodes == e.nodes, "structure untouched");
    let x = [f(), f()];
    same(ev(&s, &x), ev(&BE::new(e.nodes.clone(), nv, Default::default()), &x), "evaluates with the new constants");
    set_scalar_constants(&mut s, &c, &cref);
    same(ev(&s, &x), ev(&e, &x), "restoring gives the old value back"); cover(s.consts.len() as u64);
}
/// structural queries on any node sequence
#[no_mangle] pub extern "C" fn h_structure() {
    let n = conc(us(0, p(0)));
    let nodes: Vec<PNode> = (0..n).map(|_| match conc(us(0, 2)) { 0 => PNode::Var { feature: u(0, 3) as u16 }, 1 => PNode::Const { idx: u(0, 3) as u16 }, _ => PNode::Op { arity: conc(us(1, 3)) as u8, op: u(0, 9) as u16 } }).collect();
    // spans by recursion from the right, independent of the postfix stack
    fn start(nodes: &[PNode], i: usize) -> Option<usize> { // first node of the subtree rooted at i
        match nodes[i] { PNode::Op { arity, .. } => { let mut k = i; for _ in 0..arity { if k == 0 { return None; } k = start(nodes, k - 1)?; } Some(k) } _ => Some(i) }
    }
    fn depth(nodes: &[PNode], i: usize) -> usize { match nodes[i] { PNode::Op { arity, .. } => { let mut k = i; let mut m = 0; for _ in 0..arity { m = m.max(depth(nodes, k - 1)); k = start(nodes, k - 1).unwrap(); } m + 1 } _ => 1 } }
    let valid = n > 0 && start(&nodes, n - 1) == Some(0);
    check(nu::is_valid_postfix(&nodes) == valid, "validity");
    let (nv, nk): (usize, usize) = (nodes.iter().filter(|x| matches!(x, PNode::Var { .. })).count(), nodes.iter().filter(|x| matches!(x, PNode::Const { .. })).count());
    check(nu::count_nodes(&nodes) == n && nu::count_variable_nodes(&nodes) == nv && nu::count_constant_nodes(&nodes) == nk && nu::count_operator_nodes(&nodes) == n - nv - nk, "counts");
    check(nu::has_constants(&nodes) == (nk > 0) && nu::has_variables(&nodes) == (nv > 0) && nu::has_operators(&nodes) == (n > nv + nk), "presence");
    check(nu::is_leaf(&nodes) == (n == 1 && nv + nk == 1), "leaf");
    check(nu::max_arity(&nodes) == nodes.iter().map(|x| if let PNode::Op { arity, .. } = x { *arity } else { 0 }).fold(0, u8::max), "largest arity");
    if !valid { cover(1); return; }
    cover(2);
    let s = subtree_sizes(&nodes);
    check(s.len() == n, "one size per node");
    for i in 0..n { let st = start(&nodes, i).unwrap(); check(s[i] == i + 1 - st, "subtree size"); check(subtree_range(&s, i) == (st, i), "subtree span"); }
    check(count_depth(&nodes) == depth(&nodes, n - 1), "depth");
    let r = tree_mapreduce(&nodes, |_| 1usize, |_| (), |_, c: &[usize]| 1 + c.iter().sum::<usize>());
    check(r == n, "map-reduce visits every node once");
    // children are handed over in order, root last
    let order = tree_mapreduce(&nodes, |x| vec![*x], |x| *x, |o, c: &[Vec<PNode>]| { let mut v: Vec<PNode> = c.concat(); v.push(o); v });
    check(order == nodes, "children in order");
}
/// the structural queries, the constant table and composition on larger trees than those enumerated
#[no_mangle] pub extern "C" fn h_big() {
    let (t, n) = h::common::big_tree(p(0), 3, [0, 2, 3, 1]); let nodes = h::common::leaves(t, 3, n);
    let s = subtree_sizes(&nodes);
    check(nu::is_valid_postfix(&nodes) && s.len() == nodes.len(), "well-formed");
    let mut st: Vec<(usize, usize)> = vec![]; // first node, depth
    for (i, m) in nodes.iter().enumerate() { let (a, d) = match *m { PNode::Op { arity, .. } => { let k = st.len() - arity as usize; let r = (st[k].0, 1 + st[k..].iter().map(|x| x.1).max().unwrap()); st.truncate(k); r } _ => (i, 1) }; check(s[i] == i + 1 - a && subtree_range(&s, i) == (a, i), "subtree span"); st.push((a, d)); }
    check(count_depth(&nodes) == st[0].1, "depth");
    let order = tree_mapreduce(&nodes, |x| vec![*x], |x| *x, |o, c: &[Vec<PNode>]| { let mut v: Vec<PNode> = c.concat(); v.push(o); v });
    check(order == nodes, "children in order");
    let e = BE::new(nodes, (0..n).map(|_| f()).collect(), Default::default());
    let mut c = e.clone(); compress_constants(&mut c);
    let k = e.nodes.iter().filter(|m| matches!(m, PNode::Const { .. })).count();
    check(c.consts.len() <= k && c.nodes.len() == e.nodes.len(), "table holds the used constants only");
    for (a, d) in e.nodes.iter().zip(&c.nodes) { match (*a, *d) { (PNode::Const { idx: i }, PNode::Const { idx: j }) => same(e.consts[i as usize], c.consts[j as usize], "same constant value"), (a, d) => check(a == d, "other nodes untouched") } }
    cover(1);
}
harnesses!(h_big, h_algebra, h_algebra_scalar, h_algebra3, h_compress, h_get_set, h_structure);
