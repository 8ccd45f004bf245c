//! C04: every built-in operator computes the function it is named after; its partial derivatives are
//! that function's derivatives; its algebraic flags are true.
use dynamic_expressions::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use h::rt::*;
use h::harnesses;
use ndarray::Array2;
const NO: EvalOptions = EvalOptions { check_finite: false, early_exit: false };
type BE = PostfixExpr<f64, BuiltinOpsF64, 3>;
type BE32 = PostfixExpr<f32, BuiltinOpsF32, 3>;

fn tree(op: OpId) -> Vec<PNode> {
    let mut v: Vec<PNode> = (0..op.arity as u16).map(|k| PNode::Var { feature: k }).collect();
    v.push(PNode::Op { arity: op.arity, op: op.id }); v
}
fn all_ops(ar: u8) -> Vec<OpId> { BuiltinOpsF64::ops_with_arity(ar).iter().map(|&id| OpId { arity: ar, id }).collect() }
fn pick() -> OpId { let ar = conc(us(1, 3)) as u8; let v = all_ops(ar); let k = conc(us(0, v.len() - 1)); v[k] }
fn eval64(op: OpId, a: &[f64]) -> f64 {
    let e = BE::new(tree(op), vec![], Default::default());
    eval_tree_array(&e, Array2::from_shape_vec((a.len(), 1), a.to_vec()).unwrap().view(), &NO).0[0]
}
fn partial64(op: OpId, a: &[f64], i: usize, grad: bool) -> f64 {
    let e = BE::new(tree(op), vec![], Default::default());
    let x = Array2::from_shape_vec((a.len(), 1), a.to_vec()).unwrap();
    if grad { let mut c = GradContext::<f64, 3>::new(1); eval_grad_tree_array(&e, x.view(), true, &mut c, &NO).1.data[i] }
    else { let mut c = DiffContext::<f64, 3>::new(1); eval_diff_tree_array(&e, x.view(), i, &mut c, &NO).1[0] }
}
macro_rules! textbook { ($name:ident, $t:ty) => {
fn $name(name: &str, a: &[$t]) -> $t {
    let x = a[0];
    match (name, a.len()) {
        ("cos", 1) => x.cos(), ("sin", 1) => x.sin(), ("tan", 1) => x.tan(), ("asin", 1) => x.asin(), ("acos", 1) => x.acos(), ("atan", 1) => x.atan(),
        ("sinh", 1) => x.sinh(), ("cosh", 1) => x.cosh(), ("tanh", 1) => x.tanh(), ("asinh", 1) => x.asinh(), ("acosh", 1) => x.acosh(), ("atanh", 1) => x.atanh(),
        ("sec", 1) => 1.0 / x.cos(), ("csc", 1) => 1.0 / x.sin(), ("cot", 1) => 1.0 / x.tan(),
        ("exp", 1) => x.exp(), ("exp2", 1) => x.exp2(), ("expm1", 1) => x.exp_m1(), ("log", 1) => x.ln(), ("log2", 1) => x.log2(), ("log10", 1) => x.log10(), ("log1p", 1) => x.ln_1p(),
        ("sqrt", 1) => x.sqrt(), ("cbrt", 1) => x.cbrt(), ("abs", 1) => if x < 0.0 { -x } else if x == 0.0 { 0.0 } else { x },
        ("abs2", 1) => x * x, ("inv", 1) => 1.0 / x, ("sign", 1) => x.signum(), ("identity", 1) => x, ("neg", 1) => -x,
        ("add", 2) => x + a[1], ("sub", 2) => x - a[1], ("mul", 2) => x * a[1], ("div", 2) => x / a[1], ("pow", 2) => x.powf(a[1]), ("atan2", 2) => x.atan2(a[1]),
        ("min", 2) => x.min(a[1]), ("max", 2) => x.max(a[1]),
        ("fma", 3) => x.mul_add(a[1], a[2]), ("clamp", 3) => if x < a[1] { a[1] } else if x > a[2] { a[2] } else { x },
        _ => { check(false, "every built-in operator has a known meaning"); 0.0 }
    }
}
} }
textbook!(book64, f64);
textbook!(book32, f32);
/// derivative of the named function with respect to argument i, and whether the point is regular
fn dbook(name: &str, a: &[f64], i: usize) -> Option<f64> {
    let x = a[0];
    let d = match (name, a.len()) {
        ("cos", 1) => -x.sin(), ("sin", 1) => x.cos(),
        ("tan", 1) => { let (s, c) = (x.sin(), x.cos()); assume(c > 0.0 || c < 0.0); 1.0 + (s / c) * (s / c) }
        ("asin", 1) => { assume(x > -1.0 && x < 1.0); let r = (1.0 - x * x).sqrt(); assume(r > 0.0); 1.0 / r }
        ("acos", 1) => { assume(x > -1.0 && x < 1.0); let r = (1.0 - x * x).sqrt(); assume(r > 0.0); -1.0 / r }
        ("atan", 1) => 1.0 / (1.0 + x * x),
        ("sinh", 1) => x.cosh(), ("cosh", 1) => x.sinh(), ("tanh", 1) => { let t = x.tanh(); 1.0 - t * t }
        ("asinh", 1) => 1.0 / (x * x + 1.0).sqrt(),
        ("acosh", 1) => { assume(x > 1.0); 1.0 / (x * x - 1.0).sqrt() }
        ("atanh", 1) => { assume(x > -1.0 && x < 1.0); 1.0 / (1.0 - x * x) }
        ("sec", 1) => { let (s, c) = (x.sin(), x.cos()); assume(c > 0.0 || c < 0.0); s / (c * c) }
        ("csc", 1) => { let (s, c) = (x.sin(), x.cos()); assume(s > 0.0 || s < 0.0); assume(c > 0.0 || c < 0.0); -c / (s * s) }
        ("cot", 1) => { let (s, c) = (x.sin(), x.cos()); assume(s > 0.0 || s < 0.0); assume(c > 0.0 || c < 0.0); -1.0 - (c / s) * (c / s) }
        ("exp", 1) => x.exp(), ("exp2", 1) => x.exp2() * std::f64::consts::LN_2, ("expm1", 1) => x.exp(),
        ("log", 1) => { assume(x > 0.0); 1.0 / x } ("log2", 1) => { assume(x > 0.0); 1.0 / (x * std::f64::consts::LN_2) }
        ("log10", 1) => { assume(x > 0.0); 1.0 / (x * std::f64::consts::LN_10) } ("log1p", 1) => { assume(x > -1.0); 1.0 / (1.0 + x) }
        ("sqrt", 1) => { assume(x > 0.0); 0.5 / x.sqrt() }
        ("cbrt", 1) => { assume(x > 0.0 || x < 0.0); let c = x.cbrt(); assume(c > 0.0 || c < 0.0); c / (3.0 * x) }
        ("abs", 1) => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { return None },
        ("abs2", 1) => 2.0 * x, ("inv", 1) => { assume(x > 0.0 || x < 0.0); -1.0 / (x * x) }
        ("sign", 1) => if x > 0.0 || x < 0.0 { 0.0 } else { return None },
        ("identity", 1) => 1.0, ("neg", 1) => -1.0,
        ("add", 2) => 1.0, ("sub", 2) => if i == 0 { 1.0 } else { -1.0 }, ("mul", 2) => a[1 - i],
        ("div", 2) => { let y = a[1]; assume(y > 0.0 || y < 0.0); if i == 0 { 1.0 / y } else { -x / (y * y) } }
        ("pow", 2) => { let y = a[1]; assume(x > 0.0); if i == 0 { y * x.powf(y - 1.0) } else { x.powf(y) * x.ln() } }
        ("atan2", 2) => { let (yy, xx) = (x, a[1]); assume(xx > 0.0 || yy > 0.0 || yy < 0.0); let r2 = xx * xx + yy * yy; if i == 0 { xx / r2 } else { -yy / r2 } }
        ("min", 2) => if a[i] < a[1 - i] { 1.0 } else if a[i] > a[1 - i] { 0.0 } else { return None },
        ("max", 2) => if a[i] > a[1 - i] { 1.0 } else if a[i] < a[1 - i] { 0.0 } else { return None },
        ("fma", 3) => [a[1], a[0], 1.0][i],
        ("clamp", 3) => { let (lo, hi) = (a[1], a[2]); if x == lo || x == hi { return None }
            let which = if x < lo { 1 } else if x > hi { 2 } else { 0 }; if i == which { 1.0 } else { 0.0 } }
        _ => { check(false, "every built-in operator has a known derivative"); 0.0 }
    };
    Some(d)
}
/// value of every operator at every argument, f64
#[no_mangle] pub extern "C" fn h_value() {
    let op = pick(); let a: Vec<f64> = (0..op.arity).map(|_| f()).collect();
    let name = BuiltinOpsF64::meta(op).unwrap().name;
    let got = eval64(op, &a);
    same(got, book64(name, &a), "the operator computes the function it is named after");
    cover(op.arity as u64); obs(op.id as u64);
}
#[no_mangle] pub extern "C" fn h_value32() {
    let op = pick(); let a: Vec<f32> = (0..op.arity).map(|_| f32_()).collect();
    let name = BuiltinOpsF32::meta(op).unwrap().name;
    check(name == BuiltinOpsF64::meta(op).unwrap().name, "f32 and f64 presets agree on ids");
    let e = BE32::new(tree(op), vec![], Default::default());
    let got = eval_tree_array(&e, Array2::from_shape_vec((a.len(), 1), a.to_vec()).unwrap().view(), &NO).0[0];
    same32(got, book32(name, &a), "the operator computes the function it is named after (f32)");
    cover(op.arity as u64); obs(op.id as u64);
}
/// every partial derivative at every regular point; at kinks a value between the one-sided derivatives
#[no_mangle] pub extern "C" fn h_partial() {
    let op = pick(); let i = conc(us(0, op.arity as usize - 1)); let grad = b();
    let a: Vec<f64> = (0..op.arity).map(|_| { let v = f(); assume(v.is_finite()); v }).collect();
    let name = BuiltinOpsF64::meta(op).unwrap().name;
    match dbook(name, &a, i) {
        Some(d) => { let got = partial64(op, &a, i, grad); req(got, d, "partial derivative"); cover(op.arity as u64); }
        None => { let got = partial64(op, &a, i, grad); check(got >= -1.0 && got <= 1.0 && (name == "abs" || got >= 0.0), "derivative at a kink lies between the one-sided derivatives"); cover(10); }
    }
    obs(op.id as u64); obs(i as u64);
}
/// commutative / associative flags are true of the operation
#[no_mangle] pub extern "C" fn h_flags() {
    let op = pick(); let m = BuiltinOpsF64::meta(op).unwrap();
    check(m.arity == op.arity && m.id == op.id, "metadata describes the operator asked for");
    check(m.commutative == BuiltinOpsF64::commutative(op) && m.associative == BuiltinOpsF64::associative(op), "flag accessors");
    let (x, y, z) = (f(), f(), f());
    if m.commutative { check(op.arity == 2, "commutative operators are binary"); let (l, r) = (eval64(op, &[x, y]), eval64(op, &[y, x])); check(l == r || (l.is_nan() && r.is_nan()), "a commutative operator gives the same value with its arguments swapped"); cover(1); }
    if m.associative { check(op.arity == 2, "associative operators are binary"); assume(x.is_finite() && y.is_finite() && z.is_finite());
        let l = eval64(op, &[eval64(op, &[x, y]), z]); let r = eval64(op, &[x, eval64(op, &[y, z])]); req(l, r, "an associative operator regroups without changing the (exact) value"); cover(2); }
    obs(op.id as u64);
}
harnesses!(h_value, h_value32, h_partial, h_flags);
