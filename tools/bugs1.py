PRE = '''
#![allow(unused_imports, dead_code)]
use dynamic_expressions::*;
use dynamic_expressions::operator_enum::{builtin, presets::BuiltinOpsF64 as B};
use dynamic_expressions::expression::{Metadata, PostfixExpr};
use dynamic_expressions::node::PNode;
use ndarray::Array2;
type E = PostfixExpr<f64, B, 3>;
fn v(f: u16) -> PNode { PNode::Var { feature: f } }
fn c(i: u16) -> PNode { PNode::Const { idx: i } }
fn o<Op: OpTag>() -> PNode where B: HasOp<Op> { let i = <B as HasOp<Op>>::op_id(); PNode::Op { arity: i.arity, op: i.id } }
fn e(n: Vec<PNode>, k: Vec<f64>) -> E { E::new(n, k, Metadata::default()) }
fn x(rows: usize, d: Vec<f64>) -> Array2<f64> { Array2::from_shape_vec((d.len() / rows, rows), d).unwrap() }
fn opt(cf: bool, ee: bool) -> EvalOptions { EvalOptions { check_finite: cf, early_exit: ee } }
'''
DE = "dynamic_expressions/src/"; SR = "symbolic_regression/src/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks))

bug("c01-stale-arg-slots", "C01", [
 (DE + "compile.rs", "    let mut max_slot: u16 = 0;\n", "    let mut max_slot: u16 = 0;\n    let mut args: [Src; D] = [Src::Const(0); D];\n"),
 (DE + "compile.rs", "                let mut args: [Src; D] = [Src::Const(0); D];\n                for j in", "                for j in"),
 (DE + "compile.rs", "for src in args.iter().take(arity) {", "for src in args.iter() {")],
'''fn main() {
  // fma(sin x, cos x, exp x) then neg, combined with further operator results
  let n = vec![v(0), o::<builtin::Sin>(), v(0), o::<builtin::Cos>(), o::<builtin::Mul>(), v(0), o::<builtin::Exp>(), v(0), o::<builtin::Tanh>(), v(0), o::<builtin::Sinh>(), o::<builtin::Add>(), o::<builtin::Add>(), o::<builtin::Sub>()];
  let a = 0.7f64;
  let (r, ok) = eval_tree_array(&e(n, vec![]), x(1, vec![a]).view(), &opt(true, true));
  let w = a.sin() * a.cos() - (a.exp() + (a.tanh() + a.sinh()));
  assert!(ok && (r[0] - w).abs() < 1e-12, "{} vs {}", r[0], w);
}''', "an operator with several computed operands followed by operators of smaller arity while other results are live", "a slot is released twice, so two live intermediate results share memory and one overwrites the other")

bug("c01-grad-slot", "C01", [
 (DE + "evaluate.rs", "                let start = (slot - dst_slot - 1) * n_rows;\n                SrcRef::Slice(&after[start..start + n_rows])\n            } else {\n                panic!(\"source references dst slot\");\n            }\n        }\n    }\n}\n\npub(crate) fn resolve_der_src",
  "                let start = (slot - dst_slot.max(1)) * n_rows;\n                SrcRef::Slice(&after[start..start + n_rows])\n            } else {\n                panic!(\"source references dst slot\");\n            }\n        }\n    }\n}\n\npub(crate) fn resolve_der_src")],
'''fn main() {
  let n = vec![v(0), o::<builtin::Sin>(), v(0), o::<builtin::Cos>(), v(0), o::<builtin::Exp>(), o::<builtin::Mul>(), v(0), o::<builtin::Sinh>(), o::<builtin::Div>(), o::<builtin::Sub>(), v(0), o::<builtin::Tanh>(), v(0), o::<builtin::Exp2>(), o::<builtin::Sub>(), o::<builtin::Sub>()];
  let a = 0.7f64;
  let (r, ok) = eval_tree_array(&e(n, vec![]), x(1, vec![a]).view(), &opt(true, true));
  let w = (a.sin() - a.cos() * a.exp() / a.sinh()) - (a.tanh() - a.exp2());
  assert!(ok && (r[0] - w).abs() < 1e-12, "{} vs {}", r[0], w);
}''', "an instruction writing slot >= 1 that reads a higher slot", "reads the wrong scratch slot")

bug("c02-sum-finite", "C02", [
 (DE + "evaluate.rs", "        out.iter().all(|v| v.is_finite())", "        out.iter().fold(T::zero(), |acc, &v| acc + v).is_finite()")],
'''fn main() {
  let (r, ok) = eval_tree_array(&e(vec![v(0), o::<builtin::Neg>()], vec![]), x(3, vec![1e308, 1e308, 1e308]).view(), &opt(true, true));
  assert!(r.iter().all(|t| t.is_finite() || !ok));
  assert!(ok, "finite results reported incomplete");
}''', "finite values so large that their sum over the rows overflows", "a complete evaluation is reported incomplete")

bug("c02-forget-incomplete", "C02", [
 (DE + "evaluate.rs", "        complete &= finite;\n        if !finite && early_exit {\n            out.fill(T::nan());\n            return false;\n        }\n\n        complete\n    }\n\n    pub fn diff_nary",
  "        complete &= finite;\n        if early_exit && !finite {\n            out.fill(T::nan());\n        }\n\n        complete || out.last().is_some_and(|v| v.is_finite())\n    }\n\n    pub fn diff_nary")],
'''fn main() {
  let t = e(vec![v(0), o::<builtin::Inv>(), o::<builtin::Inv>()], vec![]);
  let (_, ok) = eval_tree_array(&t, x(2, vec![0.0, 1.0]).view(), &opt(true, false));
  assert!(!ok, "1/0 at the first row not reported");
}''', "early_exit off, non-finite value in a row other than the last", "an evaluation with a non-finite intermediate result is reported complete")

bug("c03-const-right", "C03", [
 (DE + "evaluate.rs", "            (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {\n                for (outv, &xv) in out.iter_mut().zip_eq(x_s) {",
  "            (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {\n                // the operand that the active direction belongs to decides which partial is needed\n                let dy_c = if dx_c.is_zero() { dy_c } else { T::zero() };\n                let y_c = if x_s.len() > 1 && dx_c.is_zero() { y_c.abs() } else { y_c };\n                for (outv, &xv) in out.iter_mut().zip_eq(x_s) {")],
'''fn main() {
  let t = e(vec![v(0), c(0), o::<builtin::Div>()], vec![-2.0]);
  let mut g = GradContext::<f64, 3>::new(2);
  let (_, m, ok) = eval_grad_tree_array(&t, x(2, vec![3.0, 5.0]).view(), false, &mut g, &opt(true, true));
  assert!(ok && (m.data[0] + 0.75).abs() < 1e-12 && (m.data[1] + 1.25).abs() < 1e-12, "{:?}", m.data);
  let t = e(vec![v(0), c(0), o::<builtin::Pow>()], vec![-2.0]);
  let (_, m, ok) = eval_grad_tree_array(&t, x(2, vec![3.0, 5.0]).view(), false, &mut g, &opt(true, true));
  assert!(ok && (m.data[0] - 3f64.powi(-2) * 3f64.ln()).abs() < 1e-12, "{:?}", m.data);
}''', "gradient with respect to a negative constant right operand over several rows", "constant gradient evaluated at |c| instead of c")

bug("c03-grad-ternary-dir", "C03", [
 (DE + "dispatch.rs", None, None)], "", "", "")
BUGS.pop()

bug("c03-root-var-grad", "C03", [
 (DE + "evaluate_derivative.rs", "                *v = if f as usize == direction { T::one() } else { T::zero() };", "                *v = if f as usize <= direction { T::one() } else { T::zero() };")],
'''fn main() {
  let mut d = DiffContext::<f64, 3>::new(1);
  let (_, der, _) = eval_diff_tree_array(&e(vec![v(0)], vec![]), x(1, vec![3.0, 5.0]).view(), 1, &mut d, &opt(true, true));
  assert_eq!(der[0], 0.0);
}''', "a single-variable expression differentiated along a later variable", "d x0 / d x1 = 1")

bug("c04-acosh-partial", "C04", [
 (DE + "operator_enum.rs", "                    T::one() / ((x - T::one()).sqrt() * (x + T::one()).sqrt())", "                    T::one() / (x * x - T::one()).abs().sqrt().max(T::one() / (x * x))")],
'''fn main() {
  let mut d = DiffContext::<f64, 3>::new(1);
  for a in [1.05f64, 1.2, 1.5, 3.0] {
    let (_, der, ok) = eval_diff_tree_array(&e(vec![v(0), o::<builtin::Acosh>()], vec![]), x(1, vec![a]).view(), 0, &mut d, &opt(true, true));
    let w = 1.0 / (a * a - 1.0).sqrt();
    assert!(ok && (der[0] - w).abs() < 1e-9 * w.abs(), "{} {} {}", a, der[0], w);
  }
}''', "arguments of acosh between 1 and about 1.27", "wrong derivative near 1")

bug("c04-atan2-branch", "C04", [
 (DE + "operator_enum.rs", "args[0].atan2(args[1])", "if args[1] > T::zero() { (args[0] / args[1]).atan() } else { args[0].atan2(args[1]) }")],
'''fn main() {
  let t = e(vec![v(0), v(1), o::<builtin::Atan2>()], vec![]);
  let (r, ok) = eval_tree_array(&t, x(1, vec![f64::INFINITY, f64::INFINITY]).view(), &opt(true, true));
  assert!(ok && (r[0] - std::f64::consts::FRAC_PI_4).abs() < 1e-12, "{}", r[0]);
}''', "both arguments infinite", "atan2(inf, inf) becomes NaN")

bug("c05-grad-scratch", "C05", [
 (DE + "evaluate_derivative.rs", "            self.val_scratch = Array2::zeros((n_slots, self.n_rows));\n        }\n        let grad_len = n_dir * self.n_rows;\n        if self.grad_scratch.nrows() != n_slots || self.grad_scratch.ncols() != grad_len {\n            self.grad_scratch = Array2::zeros((n_slots, grad_len));\n        }",
  "            self.val_scratch = Array2::zeros((n_slots, self.n_rows));\n            self.grad_scratch = Array2::zeros((n_slots, n_dir * self.n_rows));\n        }\n        debug_assert_eq!(self.grad_scratch.nrows(), n_slots);")],
'''fn main() {
  let t = e(vec![v(0), o::<builtin::Sin>(), c(0), o::<builtin::Mul>(), v(1), o::<builtin::Sub>()], vec![2.0]);
  let mut g = GradContext::<f64, 3>::new(1);
  let xx = x(1, vec![3.0, 5.0, 7.0]);
  let _ = eval_grad_tree_array(&t, xx.view(), false, &mut g, &opt(true, true));
  let (_, m, _) = eval_grad_tree_array(&t, xx.view(), true, &mut g, &opt(true, true));
  assert!((m.data[0] - 2.0 * 3f64.cos()).abs() < 1e-12 && m.data[1] == -1.0);
}''', "one gradient context used first for constants, then for variables", "stale scratch of the wrong size: panic")

bug("c06-shared-const", "C06", [
 (DE + "simplify.rs", "                let Some(new_idx) = append_const(consts, new_v) else {", "                if new_v.is_finite() && arity == 2 && consts.len() > 1 {\n                    // reuse the table entry instead of growing the table\n                    consts[const_idx as usize] = new_v;\n                    *changed = true;\n                    return left;\n                }\n                let Some(new_idx) = append_const(consts, new_v) else {")],
'''fn main() {
  // ((x + c0) + c1) * c0 with a shared c0
  let mut t = e(vec![v(0), c(0), o::<builtin::Add>(), c(1), o::<builtin::Add>(), c(0), o::<builtin::Mul>()], vec![2.0, 3.0]);
  let xx = x(1, vec![7.0]);
  let a = eval_tree_array(&t, xx.view(), &opt(true, true)).0[0];
  simplify_in_place(&mut t, &opt(true, true));
  let b = eval_tree_array(&t, xx.view(), &opt(true, true)).0[0];
  assert_eq!(a, b);
}''', "a constant table entry shared by two leaves, one of which is merged with another constant", "changes the value of the other leaf")

bug("c06-fold-inf", "C06", [
 (DE + "simplify.rs", "                let folded = ok && out[0].is_finite();", "                let folded = ok;")],
'''fn main() {
  let mut t = e(vec![c(0), o::<builtin::Log>(), v(0), o::<builtin::Add>()], vec![0.0]);
  simplify_in_place(&mut t, &opt(false, false));
  assert!(t.consts.iter().all(|k| k.is_finite()), "{:?}", t.consts);
}''', "evaluation options with the finiteness check off and a constant subexpression without a finite value", "a non-finite constant appears in the simplified expression")

bug("c07-compress-unused", "C07", [
 (DE + "utils.rs", "    let mut changed = false;\n\n    for node in", "    let mut changed = false;\n    let in_order = expr\n        .nodes\n        .iter()\n        .filter_map(|n| match n {\n            PNode::Const { idx } => Some(*idx as usize),\n            _ => None,\n        })\n        .is_sorted();\n    if in_order && crate::node_utils::count_constant_nodes(&expr.nodes) == expr.consts.len() {\n        return false; // every entry is used, in order\n    }\n\n    for node in")],
'''fn main() {
  let mut t = e(vec![c(0), c(0), o::<builtin::Add>()], vec![1.0, 2.0]);
  let ch = compress_constants(&mut t);
  assert!(ch && t.consts == vec![1.0], "{:?}", t.consts);
}''', "a constant used twice and as many unused table entries", "unused constants stay in the table")

bug("c07-names", "C07", [
 (DE + "expression_algebra.rs", "        if out_meta.variable_names.is_empty() && !e.meta.variable_names.is_empty() {", "        if out_nodes.is_empty() && !e.meta.variable_names.is_empty() {")],
'''fn main() {
  let a = e(vec![v(0)], vec![]);
  let mut b = e(vec![v(1)], vec![]);
  b.meta.variable_names = vec!["u".into(), "w".into()];
  let t = a + b;
  assert_eq!(t.meta.variable_names, vec!["u".to_string(), "w".to_string()]);
}''', "only a later operand carries variable names", "variable names are lost")

bug("c07-offset", "C07", [
 (DE + "expression_algebra.rs", "        let offset: u16 = out_consts\n            .len()\n            .try_into()\n            .unwrap_or_else(|_| panic!(\"too many constants to index in u16\"));\n", "        // operands are usually compact: the table length is the number of constants used so far\n        let offset: u16 = crate::node_utils::count_constant_nodes(&out_nodes)\n            .max(out_consts.len().min(1))\n            .try_into()\n            .unwrap_or_else(|_| panic!(\"too many constants to index in u16\"));\n")],
'''fn main() {
  let a = e(vec![c(0), c(0), o::<builtin::Add>()], vec![1.0]);
  let b = e(vec![c(0)], vec![10.0]);
  let t = a * b;
  let xx = x(1, vec![0.0]);
  assert_eq!(eval_tree_array(&t, xx.view(), &opt(true, true)).0[0], 20.0);
}''', "a left operand that uses one constant twice (or has unused constants)", "constants of the right operand are mixed up")

bug("c08-strip", "C08", [
 (DE + "strings.rs", "    strip_outer_parens(&out).to_string()", "    out.strip_prefix('(').and_then(|s| s.strip_suffix(')')).unwrap_or(&out).to_string()")],
'''fn main() {
  let mut t = e(vec![v(0), v(1), o::<builtin::Add>()], vec![]);
  t.meta.variable_names = vec!["(u)".into(), "w".into()];
  let _ = t;
  let t = e(vec![c(0)], vec![3.0]);
  assert_eq!(t.to_string(), "3");
  let mut t = e(vec![v(0)], vec![]);
  t.meta.variable_names = vec!["((u))".into()];
  assert_eq!(t.to_string(), "u");
}''', "an expression consisting of one leaf whose name carries several parentheses", "redundant parentheses stay")

bug("c08-fewer-names", "C08", [
 (DE + "strings.rs", "    let names = opts.variable_names.or({", "    let names = opts.variable_names.filter(|n| n.len() > 1 || expr.meta.variable_names.len() <= n.len()).or({")],
'''fn main() {
  let mut t = e(vec![v(0), v(1), o::<builtin::Add>()], vec![]);
  t.meta.variable_names = vec!["a".into(), "b".into()];
  let n = vec!["p".to_string()];
  let s = string_tree(&t, strings::StringTreeOptions { variable_names: Some(&n), pretty: false });
  assert_eq!(s, "p + x1");
}''', "rendering with a supplied list of names shorter than the expression's own", "the supplied name does not win")

bug("c08-ternary-args", "C08", [
 (DE + "strings.rs", "                let joined = args.map(strip_outer_parens).collect::<Vec<_>>().join(\", \");", "                let joined = args.map(|a| a.trim_start_matches('(').trim_end_matches(')')).collect::<Vec<_>>().join(\", \");\n                let joined = if joined.matches('(').count() == joined.matches(')').count() { joined } else { children.iter().map(|s| strip_outer_parens(s)).collect::<Vec<_>>().join(\", \") };")],
'''fn main() {
  let t = e(vec![v(0), v(1), o::<builtin::Add>(), v(0), v(1), o::<builtin::Sub>(), o::<builtin::Mul>(), o::<builtin::Sin>()], vec![]);
  assert_eq!(t.to_string(), "sin((x0 + x1) * (x0 - x1))");
}''', "a function applied to a product of two sums", "parentheses that matter are dropped")

bug("c09-first-match", "C09", [
 (DE + "traits.rs", "            [single] => Ok(*single),\n            _ => Err(LookupError::Ambiguous {\n                token: token.trim().to_string(),\n                candidates: matches.iter().map(|op| Self::name(*op)).collect(),\n            }),\n        }\n    }\n\n    fn lookup_with_arity",
  "            [single] => Ok(*single),\n            // several spellings of one operation: an exact name wins\n            [first, ..] if Self::name(*first) == token.trim() => Ok(*first),\n            _ => Err(LookupError::Ambiguous {\n                token: token.trim().to_string(),\n                candidates: matches.iter().map(|op| Self::name(*op)).collect(),\n            }),\n        }\n    }\n\n    fn lookup_with_arity")],
'''symbolic_regression::custom_opset! { pub struct O<T = f64>;
 1 => { neg { infix: "-", eval: |[x]| -x, partial: |[_x]| -1.0 }, foo { eval: |[x]| x, partial: |[_x]| 1.0 } },
 2 => { sub { display: "foo", infix: "-", eval: |[x, y]| x - y, partial: |[_x, _y], i| if i == 0 { 1.0 } else { -1.0 } } }
}
fn main() { assert!(matches!(<O as OperatorSet>::lookup("foo"), Err(LookupError::Ambiguous { .. }))); }''', "two operators answering to one token, one of them by name", "an ambiguous token is resolved silently")

bug("c09-sample-cap", "C09", [
 (SR + "operators.rs", "        let mut r = usize_range(rng, 0..total);\n        for arity in 1..=max_arity {\n            let n = self.nops(arity);\n            if r < n {", "        let mut r = usize_range(rng, 0..total);\n        for arity in 1..=max_arity {\n            let n = self.nops(arity);\n            if r <= n && (n > 0 || arity == max_arity) && (r < n || self.nops(arity.min(max_arity - 1) + 1) == 0) {")],
'''fn main() {
  let mut ops = symbolic_regression::Operators::<3>::default();
  ops.push(OpId { arity: 1, id: 0 }); ops.push(OpId { arity: 3, id: 0 });
  let mut rng = fastrand::Rng::with_seed(1);
  let mut seen3 = false;
  for _ in 0..500 { let a = ops.sample_arity(&mut rng, 3); assert!(ops.nops(a) > 0); seen3 |= a == 3; let o = ops.sample_op(&mut rng, a); assert_eq!(o.arity as usize, a); }
  assert!(seen3, "the ternary operator is never drawn");
}''', "operators of arity 1 and 3 but none of arity 2", "an operator is never drawn")
