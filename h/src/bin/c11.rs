//! C11: size, depth and nesting constraints and complexity, checked exactly.
use dynamic_expressions::*;
use h::common::*;
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::check_constraints;
use symbolic_regression::{compute_complexity, Options};

type O = Options<f64, 3>;
struct Spec { lim: Vec<(OpId, usize, u16)>, nest: Vec<(OpId, OpId, u8)>, cv: u16, cc: u16, vc: Option<Vec<u16>>, oc: Vec<(OpId, u16)> }
fn op(a: u8, id: u16) -> OpId { OpId { arity: a, id } }
fn options(s: &Spec, maxdepth: usize) -> O {
    let mut o = O::default();
    o.maxdepth = maxdepth; o.complexity_of_constants = s.cc; o.complexity_of_variables = s.cv; o.variable_complexities = s.vc.clone();
    for (k, v) in &s.oc { o.operator_complexity_overrides.insert(*k, *v); }
    for (k, i, m) in &s.lim { o.op_constraints.set_op_arg_constraint(*k, *i, *m); }
    for (r, n, m) in &s.nest { o.nested_constraints.add_nested_constraint(*r, *n, *m); }
    o
}
/// independent recursive view of the tree
struct T { op: Option<OpId>, kids: Vec<T>, own: usize }
fn parse(nodes: &[PNode], s: &Spec) -> T {
    let mut st: Vec<T> = Vec::new();
    for n in nodes { match *n {
        PNode::Var { feature } => st.push(T { op: None, kids: vec![], own: s.vc.as_ref().and_then(|v| if (feature as usize) < v.len() { Some(v[feature as usize]) } else { None }).unwrap_or(s.cv) as usize }),
        PNode::Const { .. } => st.push(T { op: None, kids: vec![], own: s.cc as usize }),
        PNode::Op { arity, op } => { let k = st.len() - arity as usize; let kids = st.drain(k..).collect(); let id = OpId { arity, id: op };
            let own = s.oc.iter().find(|x| x.0 == id).map(|x| x.1).unwrap_or(1) as usize; st.push(T { op: Some(id), kids, own }) }
    } }
    st.pop().unwrap()
}
impl T {
    fn size(&self) -> usize { self.own + self.kids.iter().map(|k| k.size()).sum::<usize>() }
    fn depth(&self) -> usize { 1 + self.kids.iter().map(|k| k.depth()).max().unwrap_or(0) }
    /// most occurrences of `t` on one path strictly below self
    fn below(&self, t: OpId) -> usize { self.kids.iter().map(|k| k.below(t) + (k.op == Some(t)) as usize).max().unwrap_or(0) }
    fn limits_ok(&self, s: &Spec) -> bool { let mut ok = true; for k in &self.kids { ok &= k.limits_ok(s); } if let Some(o) = self.op { for (l, i, m) in &s.lim { if *l == o { ok &= self.kids[*i].size() <= *m as usize; } } } ok }
    fn nest_ok(&self, s: &Spec) -> bool { let mut ok = true; for k in &self.kids { ok &= k.nest_ok(s); } if let Some(o) = self.op { for (r, n, m) in &s.nest { if *r == o { ok &= self.below(*n) <= *m as usize; } } } ok }
}
fn decide(nodes: Vec<PNode>, s: &Spec) {
    let e = UE::new(nodes, vec![0.5, 1.5], Default::default());
    let maxdepth = us(0, 7); let cur = us(0, 9);
    let o = options(s, maxdepth);
    let t = parse(&e.nodes, s);
    check(compute_complexity(&e.nodes, &o) == t.size(), "complexity is the sum over the nodes");
    let got = check_constraints(&e, &o, cur);
    let (sz, dp) = (t.size() <= cur, t.depth() <= maxdepth);
    let (l, n) = (t.limits_ok(s), t.nest_ok(s));
    check(got == (sz & dp & l & n), "accepted exactly when size, depth, argument and nesting limits all hold");
    cover(got as u64); if !l { cover(2) } if !n { cover(3) } if !dp && sz { cover(4) }
}
fn tree(max: usize) -> Vec<PNode> { decided(gen(Cfg { max, nf: 2, nc: 1, maxar: 3, ops: [0, 2, 1, 1] })) }
fn limits(custom: bool) -> Vec<(OpId, usize, u16)> {
    match conc(us(0, 3)) { 0 => vec![], 1 => vec![(op(1, 0), 0, u(0, 6) as u16)], 2 => vec![(op(2, 0), 0, u(0, 6) as u16), (op(2, 0), 1, u(0, 6) as u16)], _ => if custom { vec![(op(3, 0), 1, u(0, 6) as u16), (op(1, 1), 0, u(0, 6) as u16)] } else { vec![(op(3, 0), 2, u(0, 6) as u16), (op(2, 0), 1, u(0, 6) as u16)] } }
}
/// default complexity: every node counts one
#[no_mangle] pub extern "C" fn h_limits() {
    let t = tree(p(0)); let s = Spec { lim: limits(false), nest: vec![], cv: 1, cc: 1, vc: None, oc: vec![] };
    decide(t, &s);
}
/// user-defined complexities of variables, constants and operators
#[no_mangle] pub extern "C" fn h_custom() {
    let t = tree(p(0));
    let k = conc(us(0, 3));
    let lim = if k < 2 { limits(true) } else { vec![] };
    let s = Spec { lim, nest: vec![], cv: u(0, 3) as u16, cc: u(0, 3) as u16, vc: if k & 1 == 1 { Some(vec![u(0, 3) as u16]) } else { None }, oc: if k >= 2 { vec![(op(1, 0), u(0, 4) as u16), (op(2, 0), u(0, 4) as u16)] } else { vec![] } };
    decide(t, &s);
}
/// nesting limits between operators
#[no_mangle] pub extern "C" fn h_nested() {
    let t = decided(gen(Cfg { max: p(0), nf: 1, nc: 0, maxar: 2, ops: [0, 2, 1, 0] }));
    let nest = match conc(us(0, 3)) { 0 => vec![(op(1, 0), op(1, 0), u(0, 3) as u8)], 1 => vec![(op(1, 0), op(1, 1), u(0, 3) as u8), (op(1, 1), op(1, 0), u(0, 2) as u8)], 2 => vec![(op(2, 0), op(1, 0), u(0, 2) as u8), (op(2, 0), op(2, 0), u(0, 2) as u8)], _ => vec![(op(1, 0), op(2, 0), u(0, 2) as u8), (op(1, 0), op(1, 0), u(0, 2) as u8)] };
    let s = Spec { lim: vec![], nest, cv: 1, cc: 1, vc: None, oc: vec![] };
    decide(t, &s);
}
/// larger trees than those enumerated
#[no_mangle] pub extern "C" fn h_big() {
    let (t, _) = big_tree(p(0), 3, [0, 2, 1, 1]); let nodes = leaves(t, 2, 1);
    let nest = match conc(us(0, 2)) { 0 => vec![], 1 => vec![(op(2, 0), op(2, 0), u(0, 20) as u8), (op(3, 0), op(1, 0), u(0, 3) as u8)], _ => vec![(op(1, 0), op(1, 1), u(0, 12) as u8), (op(2, 0), op(3, 0), u(0, 9) as u8)] };
    let lim = if nest.is_empty() { vec![(op(2, 0), 0, u(0, 60) as u16), (op(2, 0), 1, u(0, 60) as u16), (op(3, 0), 1, u(0, 60) as u16)] } else { vec![] };
    let s = Spec { lim, nest, cv: 1, cc: 1, vc: None, oc: vec![] };
    let e = UE::new(nodes, vec![0.5, 1.5], Default::default());
    let (maxdepth, cur) = (us(0, 50), us(0, 60));
    let o = options(&s, maxdepth); let t = parse(&e.nodes, &s);
    let got = check_constraints(&e, &o, cur);
    check(got == ((t.size() <= cur) & (t.depth() <= maxdepth) & t.limits_ok(&s) & t.nest_ok(&s)), "accepted exactly when size, depth, argument and nesting limits all hold (big tree)");
    cover(got as u64);
}
harnesses!(h_big, h_limits, h_custom, h_nested);
