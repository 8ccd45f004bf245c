//! C10: mutation, crossover and random generation produce well-formed expressions and make exactly the change they name.
use dynamic_expressions::*;
use fastrand::Rng;
use h::common::*;
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{Operators, Options};
const OLD: [f64; 4] = [101.0, 102.0, 103.0, 104.0];
/// Any tree of at most `max` nodes: pairwise different variables; constants new or shared with the first one; operators of one arity alternate.
fn tree(max: usize, sel: &[Vec<u16>; 4], f0: u16) -> UE {
    if max >= 100 {
        if sel[1].is_empty() || sel[2].is_empty() || sel[3].is_empty() { reject(); }
        let (t, _) = big_tree(max - 100, 3, [0, 1, 1, 1]); let (mut k, mut nc) = (0usize, 0u16);
        let v = t.iter().map(|n| match *n {
            PNode::Op { arity, .. } => { k += 1; let l = &sel[arity as usize]; PNode::Op { arity, op: l[k % l.len()] } }
            PNode::Var { feature } if feature % 4 == 3 => { if nc < 2 { nc += 1; PNode::Const { idx: nc - 1 } } else { PNode::Const { idx: 0 } } }
            PNode::Var { feature } => PNode::Var { feature: f0 + feature }, n => n }).collect();
        return UE::new(v, OLD[..nc as usize].to_vec(), Metadata { variable_names: vec!["n".into()] });
    }
    let maxar = (1..4).filter(|&a| !sel[a].is_empty()).max().unwrap();
    let s = gen(Cfg { max, nf: 1, nc: 1, maxar, ops: [0, (!sel[1].is_empty()) as u64, (!sel[2].is_empty()) as u64, (!sel[3].is_empty()) as u64] });
    let (mut nf, mut nc, mut k) = (f0, 0u16, 0usize);
    let v: Vec<PNode> = s.iter().map(|n| match *n {
        PNode::Op { arity, .. } => { k += 1; let l = &sel[arity as usize]; PNode::Op { arity, op: l[k % l.len()] } }
        PNode::Var { .. } => { nf += 1; PNode::Var { feature: nf - 1 } }
        PNode::Const { .. } => if nc > 0 && b() { PNode::Const { idx: 0 } } else { nc += 1; PNode::Const { idx: nc - 1 } },
    }).collect();
    UE::new(v, OLD[..nc as usize].to_vec(), Metadata { variable_names: vec!["n".into()] })
}
/// which operators are selected: some of each arity, with gaps in the numbering
fn selection() -> ([Vec<u16>; 4], Operators<3>) {
    let (sel, names): ([Vec<u16>; 4], &[&str]) = match conc(us(0, 2)) {
        0 => ([vec![], vec![1, 2], vec![1], vec![]], &["ub", "uc", "bb"]),
        1 => ([vec![], vec![0], vec![0, 1], vec![1]], &["ua", "ba", "bb", "tb"]),
        _ => ([vec![], vec![], vec![1], vec![0, 1]], &["bb", "ta", "tb"]),
    };
    (sel, Operators::<3>::from_names::<UOps>(names).unwrap())
}
/// node with constants resolved: (kind, a, b); kind 0 variable, 1 old constant, 2 other constant, 3 operator, 9 any fresh leaf
type N = (u8, u32, u32);
const ANY: N = (9, 0, 0);
fn res(e: &UE) -> Vec<N> { let old: Vec<N> = e.consts.iter().map(|v| (0..4).find(|&k| v.to_bits() == OLD[k].to_bits()).map_or((2, 0, 0), |k| (1, k as u32, 0))).collect();
    e.nodes.iter().map(|n| match *n { PNode::Var { feature } => (0, feature as u32, 0), PNode::Const { idx } => old[idx as usize], PNode::Op { arity, op } => (3, arity as u32, op as u32) }).collect() }
fn well(e: &UE, nf: u16, sel: &[Vec<u16>; 4]) {
    let mut d = 0usize;
    for n in &e.nodes { match *n {
        PNode::Var { feature } => { check(feature < nf, "feature in range"); d += 1; }
        PNode::Const { idx } => { check((idx as usize) < e.consts.len(), "constant in range"); d += 1; }
        PNode::Op { arity, op } => { let a = arity as usize; check((1..=3).contains(&a) && sel[a].contains(&op), "selected operator under its arity"); check(d >= a, "operands present"); d = d - a + 1; }
    } }
    check(d == 1, "one root");
}
fn sub(v: &[PNode], i: usize) -> usize { let mut need = 1i32; let mut j = i; loop { need -= 1; if let PNode::Op { arity, .. } = v[j] { need += arity as i32; } if need == 0 { return j; } j -= 1; } }
fn kids(v: &[PNode], i: usize) -> Vec<(usize, usize)> { let PNode::Op { arity, .. } = v[i] else { return vec![] }; let mut o = vec![]; let mut e = i; for _ in 0..arity { let s = sub(v, e - 1); o.insert(0, (s, e)); e = s; } o }
/// splice `new` over `s..e`
fn put(t: &[N], s: usize, e: usize, new: &[N]) -> Vec<N> { let mut o = t[..s].to_vec(); o.extend_from_slice(new); o.extend_from_slice(&t[e..]); o }
fn fits(want: &[N], got: &[N]) -> bool { want.len() == got.len() && want.iter().zip(got).all(|(w, g)| if *w == ANY { g.0 < 3 } else { w == g }) }
/// constants of kept leaves stay shared exactly as before; fresh ones are on their own
fn shared(want: &[N], got: &UE) -> bool {
    let idx: Vec<Option<u16>> = got.nodes.iter().map(|n| if let PNode::Const { idx } = *n { Some(idx) } else { None }).collect();
    (0..idx.len()).all(|i| (0..i).all(|j| match (idx[i], idx[j]) { (Some(a), Some(c)) => (a == c) == (want[i].0 == 1 && want[i] == want[j]), _ => true }))
}
/// the result is one of the allowed results
fn one_of(cands: Vec<Vec<N>>, got: &UE, what: &str) {
    let g = res(got);
    let mut k = 0;
    for c in &cands { if fits(c, &g) { k = k.max(1); if shared(c, got) { k = 2; break; } } }
    check(k > 0, what); check(k != 1, "leaves share a constant exactly when they did before");
    if k == 2 { cover(1); }
}
fn kept(e: &UE, n: &UE) { check(n.nodes == e.nodes && n.consts.len() == e.consts.len() && n.consts.iter().zip(&e.consts).all(|(a, c)| a.to_bits() == c.to_bits()), "a refused mutation changes nothing"); }
fn named(e: &UE) { check(e.meta.variable_names == ["n"], "names stay"); }
fn has_op(e: &UE) -> bool { e.nodes.iter().any(|n| matches!(n, PNode::Op { .. })) }
fn nfs() -> u16 { if p(0) >= 100 { 40 } else { 6 } }
/// operator, feature and constant mutation change one node and nothing else
#[no_mangle] pub extern "C" fn h_point() {
    let (sel, ops) = selection();
    let e = tree(p(0), &sel, 0); let mut n = e.clone(); let r = &mut Rng::new();
    let w = conc(us(0, 2));
    let nf = if p(0) >= 100 { nfs() } else { conc(us(1, 3)) as u16 * 2 }; // some trees use every feature
    let ok;
    match w {
        0 => {
            ok = mutate_operator(r, &mut n, &ops);
            check(ok == has_op(&e), "possible exactly with an operator");
            check(n.consts.len() == e.consts.len(), "constants stay");
            let mut d = 0;
            check(n.nodes.len() == e.nodes.len(), "same length");
            for (a, c) in n.nodes.iter().zip(&e.nodes) { if a != c { d += 1; check(matches!((a, c), (PNode::Op { arity: x, .. }, PNode::Op { arity: y, .. }) if x == y), "only operators change, arity kept"); } }
            check(d <= 1, "one operator at most"); if d == 1 { cover(2); }
        }
        1 => {
            let vars = e.nodes.iter().filter(|n| matches!(n, PNode::Var { .. })).count();
            if vars > nf as usize { reject(); }
            ok = mutate_feature(r, &mut n, nf as usize);
            let mut d = 0;
            check(n.nodes.len() == e.nodes.len(), "same length");
            for (a, c) in n.nodes.iter().zip(&e.nodes) { if a != c { d += 1; check(matches!((a, c), (PNode::Var { .. }, PNode::Var { .. })), "only variables change"); } }
            check(d == ok as usize, "exactly one variable changes");
            well(&n, nf, &sel);
            if ok { cover(3); }
        }
        _ => {
            for c in n.consts.iter_mut() { *c = f(); }
            let was = n.clone();
            let mut o = Options::<f64, 3>::default(); o.perturbation_factor = 0.5;
            ok = mutate_constant(r, &mut n, 0.5, &o);
            check(ok == e.nodes.iter().any(|n| matches!(n, PNode::Const { .. })), "possible exactly with a constant");
            check(n.nodes == e.nodes && n.consts.len() == was.consts.len(), "only constants change");
            let d: Vec<usize> = (0..n.consts.len()).filter(|&i| n.consts[i].to_bits() != was.consts[i].to_bits()).collect();
            check(d.len() <= 1, "one constant at most"); if d.len() == 1 { cover(4); }
        }
    }
    if !ok { kept(&e, &n); cover(5); }
    well(&n, nfs(), &sel); named(&n);
}
#[no_mangle] pub extern "C" fn h_swap() {
    let (sel, _) = selection();
    let e = tree(p(0), &sel, 0); let mut n = e.clone(); let t = res(&e);
    let ok = swap_operands(&mut Rng::new(), &mut n);
    let mut c = vec![];
    for (i, x) in e.nodes.iter().enumerate() { if let PNode::Op { arity: 2, .. } = x { let k = kids(&e.nodes, i); let mut s = t[k[1].0..k[1].1].to_vec(); s.extend_from_slice(&t[k[0].0..k[0].1]); c.push(put(&t, k[0].0, i, &s)); } }
    check(ok == !c.is_empty(), "possible exactly with a binary operator");
    if ok { one_of(c, &n, "the operands of one binary operator are exchanged") } else { kept(&e, &n); cover(2); }
    well(&n, nfs(), &sel); named(&n);
}
#[no_mangle] pub extern "C" fn h_rotate() {
    let (sel, _) = selection();
    let e = tree(p(0), &sel, 0); let mut n = e.clone(); let t = res(&e);
    let ok = rotate_tree_in_place(&mut Rng::new(), &mut n);
    let mut c = vec![];
    for i in 0..e.nodes.len() { let k = kids(&e.nodes, i); for (j, p) in k.iter().enumerate() { let q = p.1 - 1; for (l, g) in kids(&e.nodes, q).iter().enumerate() {
        // pivot q = j-th child of i; its l-th child goes under i, and i takes that place under q
        let mut low = vec![]; for (m, x) in k.iter().enumerate() { if m == j { low.extend_from_slice(&t[g.0..g.1]) } else { low.extend_from_slice(&t[x.0..x.1]) } } low.push(t[i]);
        let mut hi = vec![]; for (m, x) in kids(&e.nodes, q).iter().enumerate() { if m == l { hi.extend_from_slice(&low) } else { hi.extend_from_slice(&t[x.0..x.1]) } } hi.push(t[q]);
        c.push(put(&t, sub(&e.nodes, i), i + 1, &hi));
    } } }
    check(ok == !c.is_empty(), "possible exactly with an operator below an operator");
    if ok { one_of(c, &n, "one operator pair is rotated") } else { kept(&e, &n); cover(2); }
    well(&n, nfs(), &sel); named(&n);
}
/// every way of putting `carry` under a selected operator with fresh leaves
fn wraps(sel: &[Vec<u16>; 4], carry: Option<&[N]>) -> Vec<Vec<N>> {
    let mut o = vec![];
    for a in 1..4 { for &id in &sel[a] { for pos in 0..(if carry.is_some() { a } else { 1 }) {
        let mut v = vec![]; for j in 0..a { match carry { Some(c) if j == pos => v.extend_from_slice(c), _ => v.push(ANY) } } v.push((3, a as u32, id as u32)); o.push(v);
    } } }
    o
}
#[no_mangle] pub extern "C" fn h_grow() {
    let (sel, ops) = selection();
    let e = tree(p(0), &sel, 0); let mut n = e.clone(); let t = res(&e); let r = &mut Rng::new();
    let nf = nfs() as usize;
    let mut c = vec![];
    let way = conc(us(0, 3));
    let leaves: Vec<usize> = (0..t.len()).filter(|&i| t[i].0 != 3).collect();
    let ok = match way {
        0 => append_random_op(r, &mut n, &ops, nf), 1 => prepend_random_op(r, &mut n, &ops, nf),
        2 => add_node(r, &mut n, &ops, nf), _ => insert_random_op_in_place(r, &mut n, &ops, nf),
    };
    check(ok, "possible with any operator");
    if way == 0 || way == 2 { for &i in &leaves { for w in wraps(&sel, None) { c.push(put(&t, i, i + 1, &w)); } } }
    if way == 1 || way == 2 { c.extend(wraps(&sel, Some(&t))); }
    if way == 3 { for i in 0..t.len() { let s = sub(&e.nodes, i); for w in wraps(&sel, Some(&t[s..=i])) { c.push(put(&t, s, i + 1, &w)); } } }
    one_of(c, &n, "one selected operator is added in an allowed place");
    well(&n, nfs(), &sel); named(&n); cover(10 + way as u64);
}
#[no_mangle] pub extern "C" fn h_delete() {
    let (sel, _) = selection();
    let e = tree(p(0), &sel, 0); let mut n = e.clone(); let t = res(&e);
    let ok = delete_random_op(&mut Rng::new(), &mut n);
    let mut c = vec![];
    for i in 0..e.nodes.len() { for k in kids(&e.nodes, i) { c.push(put(&t, sub(&e.nodes, i), i + 1, &t[k.0..k.1])); } }
    check(ok == has_op(&e), "possible exactly with an operator");
    if ok { one_of(c, &n, "one operator is replaced by one of its operands") } else { kept(&e, &n); cover(2); }
    well(&n, nfs(), &sel); named(&n);
}
/// the children exchange one subtree each, the same pair in both
#[no_mangle] pub extern "C" fn h_cross() {
    let (sel, _) = selection();
    let a = tree(p(0), &sel, 0); let mut c = tree(if p(0) >= 100 { 2 } else { p(0) }, &sel, 3);
    for (i, v) in c.consts.iter_mut().enumerate() { *v = OLD[2 + i.min(1)]; }
    c.meta.variable_names = vec!["m".into()];
    if p(0) < 100 && (a.consts.len() > 2 || c.consts.len() > 2) { reject(); }
    let (x, y) = crossover_trees(&mut Rng::new(), &a, &c);
    let (ta, tc, gx, gy) = (res(&a), res(&c), res(&x), res(&y));
    let mut hit: Option<bool> = None;
    for i in 0..ta.len() { for j in 0..tc.len() {
        let (si, sj) = (sub(&a.nodes, i), sub(&c.nodes, j));
        let (wx, wy) = (put(&ta, si, i + 1, &tc[sj..=j]), put(&tc, sj, j + 1, &ta[si..=i]));
        if hit != Some(true) && fits(&wx, &gx) && fits(&wy, &gy) { hit = Some(shared(&wx, &x) && shared(&wy, &y)); }
    } }
    check(hit.is_some(), "one subtree of each parent is exchanged");
    if let Some(k) = hit { check(k, "leaves share a constant exactly when they did before"); cover(1); if gx != ta && gy != tc { cover(2); } }
    well(&x, nfs() + 3, &sel); well(&y, nfs() + 3, &sel); named(&x); check(y.meta.variable_names == ["m"], "names stay");
    check(x.consts.len() <= a.consts.len() + c.consts.len(), "no unused constants");
}
/// random trees respect the size they were asked for and use only what is configured
#[no_mangle] pub extern "C" fn h_random() {
    let (sel, ops) = selection();
    let minar = (1..4).find(|&a| !sel[a].is_empty()).unwrap();
    let nf = conc(us(1, 2)); let r = &mut Rng::new();
    let want = conc(us(1, p(0)));
    let e: UE;
    if b() {
        e = random_expr::<f64, UOps, 3>(r, &ops, nf, want);
        check(e.nodes.len() <= want, "not larger than asked for");
        check(e.nodes.len() + minar > want, "smaller only when no operator fits"); cover(1);
    } else {
        let n = conc(us(0, 2));
        e = random_expr_append_ops::<f64, UOps, 3>(r, &ops, nf, n, want);
        let k = e.nodes.iter().filter(|n| matches!(n, PNode::Op { .. })).count();
        check(e.nodes.len() <= want && k <= n, "within the size limit and the number of operators");
        check(k == n || e.nodes.len() + minar > want, "fewer operators only when none fits"); cover(2);
    }
    well(&e, nf as u16, &sel);
    let mut seen: Vec<u16> = e.nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx) } else { None }).collect();
    let k = seen.len(); seen.sort(); seen.dedup(); check(seen.len() == k, "every constant leaf has its own constant");
}
harnesses!(h_point, h_swap, h_rotate, h_grow, h_delete, h_cross, h_random);
