//! Generators of symbolic expression trees and an independent reference semantics.
use crate::rt::*;
use dynamic_expressions::*;

dynamic_expressions::custom_opset! {
    /// Test operator set whose operators (and partial derivatives) are pairwise different functions
    /// that the solver treats as uninterpreted (one of them, negation, is exact, so that any value can be an operator result):
    /// value equality is then structural equality of the trees.
    pub struct UOps<f64> {
        1 {
            ua { eval(args) { args[0].atan() }, partial(args, _i) { args[0].exp2() }, }
            ub { eval(args) { args[0].asin() }, partial(args, _i) { args[0].log2() }, }
            uc { eval(args) { -args[0] }, partial(args, _i) { args[0].log10() }, }
        }
        2 {
            ba { eval(args) { args[0].atan2(args[1]) }, partial(args, i) { if i == 0 { args[0].powf(args[1]) } else { args[1].powf(args[0]) } }, }
            bb { eval(args) { args[0].powf(args[1]) }, partial(args, i) { if i == 0 { args[0].atan2(args[1]) } else { args[1].atan2(args[0]) } }, }
        }
        3 {
            ta { eval(args) { args[0].mul_add(args[1], args[2]) }, partial(args, i) { match i { 0 => args[0].atan2(args[1]).powf(args[2]), 1 => args[1].atan2(args[2]).powf(args[0]), _ => args[2].atan2(args[0]).powf(args[1]) } }, }
            tb { eval(args) { args[0].atan2(args[1]).atan2(args[2]) }, partial(args, i) { match i { 0 => args[0].powf(args[1]).powf(args[2]), 1 => args[1].powf(args[2]).powf(args[0]), _ => args[2].powf(args[0]).powf(args[1]) } }, }
        }
    }
}
pub type UE = PostfixExpr<f64, UOps, 3>;
pub const NOPS: [u64; 4] = [0, 3, 2, 2];

/// reference semantics of the test operators, written independently of the dispatch under test
pub fn ref_op(ar: usize, id: u16, a: &[f64]) -> f64 {
    match (ar, id) {
        (1, 0) => a[0].atan(), (1, 1) => a[0].asin(), (1, 2) => -a[0],
        (2, 0) => a[0].atan2(a[1]), (2, 1) => a[0].powf(a[1]),
        (3, 0) => a[0].mul_add(a[1], a[2]), (3, 1) => a[0].atan2(a[1]).atan2(a[2]),
        _ => panic!("no such test operator"),
    }
}
pub fn ref_partial(ar: usize, id: u16, a: &[f64], i: usize) -> f64 {
    match (ar, id, i) {
        (1, 0, _) => a[0].exp2(), (1, 1, _) => a[0].log2(), (1, 2, _) => a[0].log10(),
        (2, 0, 0) => a[0].powf(a[1]), (2, 0, _) => a[1].powf(a[0]),
        (2, 1, 0) => a[0].atan2(a[1]), (2, 1, _) => a[1].atan2(a[0]),
        (3, 0, 0) => a[0].atan2(a[1]).powf(a[2]), (3, 0, 1) => a[1].atan2(a[2]).powf(a[0]), (3, 0, _) => a[2].atan2(a[0]).powf(a[1]),
        (3, 1, 0) => a[0].powf(a[1]).powf(a[2]), (3, 1, 1) => a[1].powf(a[2]).powf(a[0]), (3, 1, _) => a[2].powf(a[0]).powf(a[1]),
        _ => panic!("no such test operator"),
    }
}

#[derive(Clone, Copy)]
pub struct Cfg { pub max: usize, pub nf: u64, pub nc: u64, pub maxar: usize, /** operators per arity, ids 0..n */ pub ops: [u64; 4] }

/// Any well-formed postfix sequence of at most `max` nodes over the given leaves and operators.
pub fn gen(c: Cfg) -> Vec<PNode> {
    let mut v: Vec<PNode> = Vec::new();
    let mut d = 0usize; // open operands
    loop {
        let left = c.max - v.len();
        if d == 1 && (left == 0 || b()) { return v; }
        if left == 0 { reject(); }
        // choose: 0 = variable, 1 = constant, 1 + k = operator of arity k
        let k = conc(us(0, 1 + c.maxar));
        if k == 0 { if c.nf == 0 { reject(); } v.push(PNode::Var { feature: u(0, c.nf - 1) as u16 }); d += 1; }
        else if k == 1 { if c.nc == 0 { reject(); } v.push(PNode::Const { idx: u(0, c.nc - 1) as u16 }); d += 1; }
        else {
            let a = k - 1;
            if a > d || c.ops[a] == 0 { reject(); }
            v.push(PNode::Op { arity: a as u8, op: u(0, c.ops[a] - 1) as u16 });
            d = d - a + 1;
        }
        // must still be reducible to one root within the remaining nodes
        let left = c.max - v.len();
        if d > 1 { let need = (d - 1).div_ceil(c.maxar.max(2) - 1); if need > left { reject(); } }
    }
}
/// exactly the tree shape under the same choice mechanism, values per row by a plain stack machine
pub fn ref_eval(nodes: &[PNode], consts: &[f64], x: &dyn Fn(usize) -> f64, all_finite: &mut bool) -> f64 {
    let mut st: Vec<f64> = Vec::new();
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(x(feature as usize)),
            PNode::Const { idx } => st.push(consts[idx as usize]),
            PNode::Op { arity, op } => { let k = st.len() - arity as usize; let r = ref_op(arity as usize, op, &st[k..]); *all_finite &= r.is_finite(); st.truncate(k); st.push(r); }
        }
    }
    st[0]
}
pub fn consts(n: usize) -> Vec<f64> { (0..n).map(|_| f()).collect() }
/// dual numbers: value and derivative along a direction
pub fn ref_dual(nodes: &[PNode], c: &dyn Fn(usize) -> (f64, f64), x: &dyn Fn(usize) -> (f64, f64)) -> (f64, f64) {
    let mut st: Vec<(f64, f64)> = Vec::new();
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(x(feature as usize)),
            PNode::Const { idx } => st.push(c(idx as usize)),
            PNode::Op { arity, op } => {
                let ar = arity as usize; let k = st.len() - ar;
                let a: Vec<f64> = st[k..].iter().map(|p| p.0).collect();
                let v = ref_op(ar, op, &a);
                let mut dv = 0.0;
                for i in 0..ar { let t = st[k + i].1; let p = ref_partial(ar, op, &a, i); let e = if t == 0.0 { 0.0 } else { p * t }; if i == 0 && ar < 3 { dv = e } else { dv += e } }
                st.truncate(k); st.push((v, dv));
            }
        }
    }
    st[0]
}
/// a row count, from a list that has every block size up to 512 (1024) exceeded and missed by one
pub fn many_rows(sel: usize) -> usize {
    let l: Vec<usize> = match sel {
        0 => (3..=34).chain(63..=66).chain(127..=129).chain([255, 257, 513]).collect(),
        1 => (3..=130).chain(255..=258).chain(511..=514).chain(1023..=1026).collect(),
        2 => vec![4, 9, 17, 33, 65],
        _ => (3..=20).chain([31, 33, 65, 129]).collect(),
    };
    l[conc(us(0, l.len() - 1))]
}
pub fn data(nf: usize, rows: usize) -> Vec<f64> { (0..nf * rows).map(|_| f()).collect() }
/// Every tree *shape* of at most `max` nodes; leaves are pairwise different columns/constants and
/// operators of one arity alternate, so that any mix-up of intermediate results is visible.
pub fn gen_shape(max: usize) -> (Vec<PNode>, usize, usize) {
    let s = gen(Cfg { max, nf: 1, nc: 0, maxar: 3, ops: [0, 1, 1, 1] });
    let (mut nf, mut nc) = (0usize, 0usize); let mut k = 0u16;
    let v = s.iter().map(|n| match *n {
        PNode::Op { arity, .. } => { k += 1; PNode::Op { arity, op: k % (NOPS[arity as usize] as u16) } }
        _ => if (nf + nc) % 3 == 2 { nc += 1; PNode::Const { idx: nc as u16 - 1 } } else { nf += 1; PNode::Var { feature: nf as u16 - 1 } },
    }).collect();
    (v, nf, nc)
}
/// the same sequence with every index and operator decided (one path per tree)
pub fn decided(v: Vec<PNode>) -> Vec<PNode> {
    v.into_iter().map(|n| match n { PNode::Var { feature } => PNode::Var { feature: conc(feature as usize) as u16 }, PNode::Const { idx } => PNode::Const { idx: conc(idx as usize) as u16 }, PNode::Op { arity, op } => PNode::Op { arity, op: conc(op as usize) as u16 } }).collect()
}
/// One larger tree (deeper or wider than those enumerated): a size and one of eight shapes. Leaves are numbered from
/// left to right, of operators those of one arity alternate.
pub fn big_tree(sel: usize, maxar: usize, ops: [u64; 4]) -> (Vec<PNode>, usize) {
    let l: Vec<usize> = match sel { 0 => (9..=21).chain([31, 33, 40]).collect(), 1 => (9..=40).chain([63, 64, 65, 66, 97, 129, 130]).collect(), 2 => vec![9, 12, 17, 20], _ => vec![9, 13, 17, 18, 33] };
    let n = l[conc(us(0, l.len() - 1))]; let sh = conc(us(0, if maxar == 3 { 7 } else { 5 }));
    let (mut v, mut leaf, mut op) = (vec![], 0u16, 0u16);
    grow(&mut v, n, sh, &mut leaf, &mut op, &ops);
    (v, leaf as usize)
}
fn grow(v: &mut Vec<PNode>, n: usize, sh: usize, leaf: &mut u16, op: &mut u16, ops: &[u64; 4]) {
    let mut l = |v: &mut Vec<PNode>, leaf: &mut u16| { v.push(PNode::Var { feature: *leaf }); *leaf += 1; };
    if n == 1 { return l(v, leaf); }
    let ar = if n == 2 || ops[2] == 0 { 1 } else { match sh {
        0 => { grow(v, n - 2, sh, leaf, op, ops); l(v, leaf); 2 }
        1 => { l(v, leaf); grow(v, n - 2, sh, leaf, op, ops); 2 }
        2 => { let k = (n - 1) / 2; grow(v, k, sh, leaf, op, ops); grow(v, n - 1 - k, sh, leaf, op, ops); 2 }
        3 => { if n % 5 == 0 { l(v, leaf); grow(v, n - 2, sh, leaf, op, ops); 2 } else { 1 } }
        4 => { if n % 3 == 0 { 1 } else if n % 2 == 0 { grow(v, n - 2, sh, leaf, op, ops); l(v, leaf); 2 } else { l(v, leaf); grow(v, n - 2, sh, leaf, op, ops); 2 } }
        5 => { if n > 6 { grow(v, 3, 0, leaf, op, ops); grow(v, n - 4, sh, leaf, op, ops); } else { grow(v, n - 2, 0, leaf, op, ops); l(v, leaf); } 2 }
        6 => { if n < 4 { l(v, leaf); l(v, leaf); 2 } else { l(v, leaf); grow(v, n - 3, sh, leaf, op, ops); l(v, leaf); 3 } }
        _ => { if n < 4 { l(v, leaf); l(v, leaf); 2 } else { let k = (n - 1) / 3; grow(v, n - 1 - 2 * k, sh, leaf, op, ops); grow(v, k, sh, leaf, op, ops); grow(v, k, sh, leaf, op, ops); 3 } }
    } };
    if ar == 1 { grow(v, n - 1, sh, leaf, op, ops); }
    v.push(PNode::Op { arity: ar, op: *op % ops[ar as usize] as u16 }); *op += 1;
}
/// its leaves turned into `nf` variables and `nc` constants, in turn
pub fn leaves(v: Vec<PNode>, nf: usize, nc: usize) -> Vec<PNode> {
    v.into_iter().map(|n| match n { PNode::Var { feature } => { let k = feature as usize % (nf + nc); if k < nf { PNode::Var { feature: k as u16 } } else { PNode::Const { idx: (k - nf) as u16 } } } n => n }).collect()
}
