import importlib.util, os
_s = importlib.util.spec_from_file_location("b1", os.path.join(os.path.dirname(__file__), "bugs1.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE1 = _m.PRE
PRE = _m.PRE + '''
use symbolic_regression::*;
use symbolic_regression::verif_hooks as vh;
use fastrand::Rng;
use ndarray::Array1;
type O = Options<f64, 3>;
fn ops() -> Operators<3> { Operators::<3>::from_names::<B>(&["add", "sub", "mul", "sin", "cos", "fma"]).unwrap() }
fn ds(rows: usize, d: Vec<f64>, y: Vec<f64>) -> Dataset<f64> { Dataset::new(x(rows, d), Array1::from(y)) }
fn mem(id: u64, birth: u64, ex: E, nf: usize) -> PopMember<f64, B, 3> { PopMember::from_expr(MemberId(id), None, birth, ex, nf) }
fn scored(m: PopMember<f64, B, 3>, d: &Dataset<f64>, op: &O) -> PopMember<f64, B, 3> { let mut m = m; let mut ev = vh::Evaluator::new(d.n_rows); m.evaluate(&TaggedDataset::new(d, None), op, &mut ev); m }
'''
DE = "dynamic_expressions/src/"; SR = "symbolic_regression/src/"
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, pre=None, wasm=False): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=(PRE if pre is None else pre) + demo, needs=needs, breaks=breaks, wasm=wasm))

bug("c01-block-tail", "C01", [
 (DE + "evaluate.rs", "                for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {\n                    *outv = eval(xv, yv);\n                }",
  "                // whole blocks first, so that the inner loop vectorises\n                const B: usize = 256;\n                let whole = out.len() / B * B;\n                for ((o, a), b) in out[..whole].chunks_exact_mut(B).zip(x_s.chunks_exact(B)).zip(y_s.chunks_exact(B)) {\n                    for i in 0..B {\n                        o[i] = eval(a[i], b[i]);\n                    }\n                }\n                for (o, (&xv, &yv)) in out[whole..].iter_mut().zip(x_s[whole..].iter().zip(y_s)) {\n                    *o = eval(xv, yv);\n                }")],
'''fn main() {
  let n = 300; let a: Vec<f64> = (0..n).map(|i| i as f64).collect(); let b: Vec<f64> = (0..n).map(|i| 0.5 * i as f64).collect();
  let d: Vec<f64> = a.iter().chain(&b).copied().collect();
  let (r, ok) = eval_tree_array(&e(vec![v(0), v(1), o::<builtin::Sub>()], vec![]), x(n, d).view(), &opt(true, true));
  assert!(ok); for i in 0..n { assert_eq!(r[i], a[i] - b[i], "row {i}"); }
}''', "more rows than a block, and not a multiple of it", "the last rows use another row's second operand")

bug("c03-both-const-tangents", "C03", [
 (DE + "evaluate.rs", "                for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {\n                    let vals = vals2(xv, yv);\n                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dy_c);",
  "                // leaves: at most one of them is the variable of this direction\n                let (j, d) = if dx_c.is_zero() { (1, dy_c) } else { (0, dx_c) };\n                for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {\n                    let vals = vals2(xv, yv);\n                    *outv = chain_term(partial(&vals, j), d);")],
'''fn main() {
  let t = e(vec![v(0), v(0), o::<builtin::Mul>()], vec![]);
  let xs = x(2, vec![3.0, 4.0]); let mut ctx = DiffContext::new(2);
  let (_, d, ok) = eval_diff_tree_array(&t, xs.view(), 0, &mut ctx, &opt(true, true));
  assert!(ok); assert_eq!(d, vec![6.0, 8.0]);
}''', "a binary operator applied to the same variable twice", "one of two occurrences is forgotten by the product rule")

bug("c03-ternary-skip", "C03", [
 (DE + "evaluate.rs", "                let mut dv_out = T::zero();\n                for (j, dvj)", "                let mut dv_out = T::zero();\n                if row > 0 && dvals[..2].iter().all(|d| d.is_zero()) {\n                    *outd = dv_out;\n                    continue;\n                }\n                for (j, dvj)")],
'''fn main() {
  let t = e(vec![v(0), v(1), v(2), o::<builtin::Fma>()], vec![]);
  let xs = x(2, vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0]); let mut ctx = DiffContext::new(2);
  let (_, d, ok) = eval_diff_tree_array(&t, xs.view(), 2, &mut ctx, &opt(true, true));
  assert!(ok); assert_eq!(d, vec![1.0, 1.0]);
}''', "a ternary operator whose third argument alone depends on the variable, from the second row on", "the third argument's part of the derivative is lost")

bug("c03-nan-grad-root", "C03", [
 (DE + "evaluate_derivative.rs", "    let n_dir = if variable { x_columns.nrows() } else { expr.consts.len() };", "    let n_dir = if variable { x_columns.nrows() } else { expr.consts.len().min(expr.nodes.iter().filter(|n| matches!(n, crate::node::PNode::Const { .. })).count()) };")],
'''fn main() {
  let t = e(vec![c(1), v(0), o::<builtin::Mul>()], vec![2.0, 3.0]);
  let xs = x(1, vec![5.0]); let mut ctx = GradContext::new(1);
  let (_, g, ok) = eval_grad_tree_array(&t, xs.view(), false, &mut ctx, &opt(true, true));
  assert!(ok); assert_eq!(g.n_dir, 2); assert_eq!(g.data, vec![0.0, 5.0]);
}''', "a table of constants with unused entries", "the gradient leaves out the constants with the largest indices")

bug("c10-cross-meta", "C10", [
 (SR + "mutation_functions.rs", "PostfixExpr::new(child_b_nodes, child_b_consts, b.meta.clone());", "PostfixExpr::new(child_b_nodes, child_b_consts, child_a.meta.clone());")],
'''fn main() {
  let mut a = e(vec![v(0)], vec![]); a.meta.variable_names = vec!["p".into()];
  let mut b = e(vec![v(0), o::<builtin::Sin>()], vec![]); b.meta.variable_names = vec!["q".into()];
  let (p, q) = vh::crossover_trees(&mut Rng::with_seed(1), &a, &b);
  assert_eq!(p.meta.variable_names, vec!["p".to_string()]); assert_eq!(q.meta.variable_names, vec!["q".to_string()]);
}''', "parents with different variable names", "the second child takes the first parent's variable names")

bug("c10-append-oversize", "C10", [
 (SR + "mutation_functions.rs", "        let rem = max_size.saturating_sub(expr.nodes.len());\n        if rem == 0 {", "        // the leaf that is expanded makes room for one more node\n        let rem = (max_size + 1).saturating_sub(expr.nodes.len());\n        if rem <= 1 {")],
'''fn main() {
  let o2 = Operators::<3>::from_names::<B>(&["fma", "add"]).unwrap();
  for s in 0..200 { let t: E = vh::random_expr_append_ops(&mut Rng::with_seed(s), &o2, 2, 3, 6); assert!(t.nodes.len() <= 6, "size {}", t.nodes.len()); }
}''', "a generated tree that gets close to the largest size", "initial trees exceed the size limit")

bug("c10-rotate-order", "C10", [
 (SR + "mutation_functions.rs", "        if j == pivot_pos {\n            rotated_root.extend_from_slice(&expr.nodes[grandchild.0..=grandchild.1]);\n        } else {\n            rotated_root.extend_from_slice(&expr.nodes[c.0..=c.1]);\n        }",
  "        if j == pivot_pos {\n            rotated_root.extend_from_slice(&expr.nodes[grandchild.0..=grandchild.1]);\n        } else if j > pivot_pos && root_arity == 3 {\n            // keep the remaining arguments in order\n            let c = root_children[root_arity - j + pivot_pos];\n            rotated_root.extend_from_slice(&expr.nodes[c.0..=c.1]);\n        } else {\n            rotated_root.extend_from_slice(&expr.nodes[c.0..=c.1]);\n        }")],
'''fn main() {
  // fma(sin(x0), x1, x2): the only rotation gives sin(fma(x0, x1, x2))
  for s in 0..20 {
    let mut t = e(vec![v(0), o::<builtin::Sin>(), v(1), v(2), o::<builtin::Fma>()], vec![]);
    assert!(vh::rotate_tree_in_place(&mut Rng::with_seed(s), &mut t));
    assert_eq!(t.nodes, vec![v(0), v(1), v(2), o::<builtin::Fma>(), o::<builtin::Sin>()]);
  }
}''', "rotation at a ternary operator whose first argument is an operator", "the other two arguments are exchanged")

bug("c11-nested-arity", "C11", [
 (SR + "check_constraints.rs", "            if root == *nested_op && v > 0 {", "            if root.id == nested_op.id && v > 0 {")],
'''fn main() {
  // unary and binary operator with the same number: none of the unary one below the binary one
  let (u, b) = (OpId { arity: 1, id: 0 }, OpId { arity: 2, id: 0 });
  let t: E = e(vec![v(0), PNode::Op { arity: 1, op: 0 }, v(0), PNode::Op { arity: 2, op: 0 }], vec![]);
  let mut op = O::default(); op.nested_constraints.add_nested_constraint(b, u, 0);
  assert!(!check_constraints(&t, &op, 30));
}''', "a nesting rule between operators of different arity with the same number", "one nested operator too many is let through")

bug("c11-custom-depth", "C11", [
 (SR + "check_constraints.rs", "        || !options.uses_default_complexity(); // However,", "        || options.complexity_of_variables == 0 || options.complexity_of_constants == 0; // However,")],
'''fn main() {
  let mut op = O::default(); op.maxsize = 3; op.maxdepth = 3; op.variable_complexities = Some(vec![0]);
  let s = o::<builtin::Sin>(); let i = match s { PNode::Op { arity, op } => OpId { arity, id: op }, _ => unreachable!() };
  op.operator_complexity_overrides.insert(i, 0);
  let t = e(vec![v(0), s, s, s, s], vec![]);
  assert!(!check_constraints(&t, &op, 3), "depth 5 > 3");
}''', "operators or variables of complexity zero", "trees deeper than the limit are accepted")

bug("c12-later-of-equals", "C12", [
 (SR + "hall_of_fame.rs", "                    .unwrap_or(std::cmp::Ordering::Greater)\n                    == std::cmp::Ordering::Less", "                    .unwrap_or(std::cmp::Ordering::Greater)\n                    .then(best.birth.cmp(&member.birth))\n                    == std::cmp::Ordering::Less")],
'''fn main() {
  let op = O::default(); let mut h = HallOfFame::<f64, B, 3>::new(op.maxsize);
  for i in 0..2 { let mut m = mem(i, i, e(vec![v(0)], vec![]), 1); m.complexity = 1; m.loss = 1.0; m.cost = 1.0; h.consider(&m, &op, 30); }
  assert_eq!(h.members().next().unwrap().id.0, 0);
}''', "two members of equal size and cost, the younger offered later", "the earlier one is displaced")

bug("c12-front-order", "C12", [
 (SR + "hall_of_fame.rs", "            if m.loss < best_loss {\n                best_loss = m.loss;\n                out.push(m.clone());\n            }", "            if m.loss < best_loss {\n                if m.cost.is_finite() {\n                    best_loss = m.loss;\n                }\n                out.push(m.clone());\n            }")],
'''fn main() {
  let op = O::default(); let mut h = HallOfFame::<f64, B, 3>::new(op.maxsize);
  let s = o::<builtin::Sin>();
  for (n, l, k) in [(vec![v(0)], 1e307, f64::INFINITY), (vec![v(0), s], 1.5e307, f64::INFINITY)] { let mut m = mem(0, 0, e(n.clone(), vec![]), 1); m.complexity = n.len(); m.loss = l; m.cost = k; h.consider(&m, &op, 30); }
  assert_eq!(h.pareto_front().len(), 1);
}''', "members of finite loss whose cost overflows", "the front contains a member that is larger and worse than another")

bug("c13-baseline-weights", "C13", [
 (SR + "loss_functions.rs", "    let base = loss.loss(&yhat, dataset.y_slice(), dataset.weights_slice());", "    let w = dataset.weights_slice().filter(|w| w.len() > 1);\n    let base = loss.loss(&yhat, dataset.y_slice(), w);")],
'''fn main() {
  let d = Dataset::with_weights_and_names(x(1, vec![1.0]), Array1::from(vec![3.0]), Some(Array1::from(vec![0.0])), vec![]);
  let b = vh::baseline_loss_from_zero_expression::<f64, B, 3>(&d, mse::<f64>().as_ref());
  assert_eq!(b, Some(0.0));
}''', "a single row of weight zero", "the baseline ignores the weight")

bug("c13-huber-side", "C13", [
 (SR + "loss_functions.rs", "        let ar = r.abs();\n        if ar <= self.delta {\n            r\n        } else if", "        let ar = r.abs();\n        if ar <= self.delta || ar <= T::one() {\n            r\n        } else if")],
'''fn main() {
  let l = huber::<f64>(0.5); let mut g = [0.0];
  l.dloss_dyhat(&[0.75], &[0.0], None, &mut g);
  assert_eq!(g[0], 0.5);
}''', "a delta below one and a residual between delta and one", "the gradient is that of the quadratic part")

bug("c14-restart-stale", "C14", [
 (SR + "constant_optimization.rs", "        let res = workspace.optimize_from_start(&xt, n_params, member, optim_opts, ls);\n        if let Some(res) = res {\n            n_evals = n_evals.saturating_add(res.f_calls as u64);\n            if res.minimum < best_f {\n                best_f = res.minimum;\n                best_x = res.minimizer;\n            }",
  "        let res = workspace.optimize_from_start(&xt, n_params, member, optim_opts, ls);\n        if let Some(res) = res {\n            n_evals = n_evals.saturating_add(res.f_calls as u64);\n            if res.minimum < best_f {\n                best_f = res.minimum;\n                if best_x.iter().zip(&res.minimizer).any(|(a, b)| (a - b).abs() > 1e-3 * a.abs()) {\n                    best_x = res.minimizer;\n                }\n            }")],
'''struct L;
impl vh::LossFn<f64> for L {
  // no gradient: the first start does not move; a restart very close to it is slightly better
  fn loss(&self, yh: &[f64], _y: &[f64], _w: Option<&[f64]>) -> f64 { if yh[0] == 1.0 { 2.0 } else { 1.0 } }
  fn dloss_dyhat(&self, _: &[f64], _: &[f64], _: Option<&[f64]>, g: &mut [f64]) { g.fill(0.0); }
}
fn main() {
  let d = ds(1, vec![1.0], vec![0.0]);
  let mut hits = 0;
  for s in 0..20000u64 {
    let mut op = O::default(); op.loss = std::sync::Arc::new(L); op.optimizer_nrestarts = 1;
    let mut r = Rng::with_seed(s);
    let z = { let mut q = Rng::with_seed(s); symbolic_regression_normal(&mut q) };
    if z.abs() > 1.9e-3 { continue; }
    hits += 1;
    let mut m = scored(mem(0, 0, e(vec![c(0)], vec![1.0]), 1), &d, &op);
    let before = m.loss;
    let mut ev = vh::Evaluator::new(1); let mut g = GradContext::new(1); let mut nb = 5;
    let (imp, _) = vh::optimize_constants(&mut r, &mut m, vh::OptimizeConstantsCtx { dataset: TaggedDataset::new(&d, None), options: &op, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut nb });
    assert!(!imp || m.loss < before, "improved without improvement: {} -> {}", before, m.loss);
  }
  assert!(hits > 0);
}
fn symbolic_regression_normal(r: &mut Rng) -> f64 {
  let mut o = O::default(); o.optimizer_nrestarts = 1; let _ = o;
  // one normal draw, seen through the restart's starting point
  struct P(std::sync::Mutex<f64>);
  impl vh::LossFn<f64> for P {
    fn loss(&self, yh: &[f64], _: &[f64], _: Option<&[f64]>) -> f64 { *self.0.lock().unwrap() = yh[0]; 1.0 }
    fn dloss_dyhat(&self, _: &[f64], _: &[f64], _: Option<&[f64]>, g: &mut [f64]) { g.fill(0.0); }
  }
  let p = std::sync::Arc::new(P(std::sync::Mutex::new(0.0)));
  let d = ds(1, vec![1.0], vec![0.0]);
  let mut op = O::default(); op.loss = p.clone(); op.optimizer_nrestarts = 1;
  let mut m = mem(0, 0, e(vec![c(0)], vec![1.0]), 1);
  let mut ev = vh::Evaluator::new(1); let mut g = GradContext::new(1); let mut nb = 5;
  let _ = vh::optimize_constants(r, &mut m, vh::OptimizeConstantsCtx { dataset: TaggedDataset::new(&d, None), options: &op, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut nb });
  let z = *p.0.lock().unwrap(); (z - 1.0) * 2.0
}''', "a restart that is better only very close to the start", "an improvement is reported although the constants are the old ones")

bug("c14-keep-birth", "C14", [
 (SR + "constant_optimization.rs", "        member.birth = *next_birth;\n        *next_birth += 1;\n        (true, n_evals as f64)", "        if member.loss < orig_loss {\n            member.birth = *next_birth;\n            *next_birth += 1;\n        }\n        (true, n_evals as f64)")],
'''fn main() {
  // optimised on a batch on which its stored loss (from other data) is already low
  let d = ds(2, vec![1.0, 2.0], vec![3.0, 6.0]); let op = O::default();
  let mut m = mem(0, 0, e(vec![c(0), v(0), o::<builtin::Mul>()], vec![1.0]), 1); m.complexity = 3; m.loss = 0.0; m.cost = 0.0;
  let mut ev = vh::Evaluator::new(2); let mut g = GradContext::new(2); let mut nb = 5;
  let (imp, _) = vh::optimize_constants(&mut Rng::with_seed(1), &mut m, vh::OptimizeConstantsCtx { dataset: TaggedDataset::new(&d, None), options: &op, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut nb });
  assert!(imp); assert_eq!((m.birth, nb), (5, 6));
}''', "a member whose stored loss comes from other rows", "an improved member is not counted as newly born")

bug("c15-ls-budget", "C15", [
 (SR + "optim.rs", "        let mut phi_at = |x_trial: &[f64]| -> Option<f64> {\n            if opts.f_calls_limit != 0 && budget.f_calls >= opts.f_calls_limit {", "        let mut phi_at = |x_trial: &[f64]| -> Option<f64> {\n            if opts.f_calls_limit != 0 && budget.f_calls > opts.f_calls_limit + n {")],
'''struct Q(usize);
impl vh::VerifObjective for Q {
  fn f(&mut self, _: &[f64]) -> Option<f64> { self.0 += 1; Some(100.0) }
  fn fg(&mut self, _: &[f64], g: &mut [f64]) -> Option<f64> { self.0 += 1; g.fill(1.0); Some(0.0) }
}
fn main() { let mut q = Q(0); let _ = vh::bfgs(&[0.0, 0.0], &mut q, 50, 4, 1e-8, 1000); assert!(q.0 <= 4, "{} evaluations", q.0); }
''', "a line search that needs more steps than the budget has left", "the evaluation budget is exceeded")

bug("c15-no-reset", "C15", [
 (SR + "optim.rs", "        if !(dx_dg.is_finite() && dx_dg > curvature_eps) {\n            inv_h.fill(0.0);\n            for i in 0..n {\n                inv_h[i * n + i] = 1.0;\n            }\n            continue;", "        if !(dx_dg.is_finite() && dx_dg > curvature_eps) {\n            // skip the update, keep the metric\n            continue;")],
'''struct Q { k: usize, xs: Vec<Vec<f64>> }
impl vh::VerifObjective for Q {
  fn f(&mut self, x: &[f64]) -> Option<f64> { self.k += 1; self.xs.push(x.to_vec()); Some(-(self.k as f64) * 1e6) }
  fn fg(&mut self, _x: &[f64], g: &mut [f64]) -> Option<f64> { let i = self.xs.len(); let t = [[2.0, 1.0], [1.0, 1.0], [2.0, 3.0], [1.0, 1.0]]; g.copy_from_slice(&t[i.min(3)]); Some(-(self.k as f64) * 1e6) }
}
fn main() {
  let mut q = Q { k: 0, xs: vec![] }; let _ = vh::bfgs(&[0.0, 0.0], &mut q, 3, 0, 1e-8, 10);
  // gradients: (2,1), (1,1), (2,3): the second step's curvature is negative, so the third step is steepest descent
  let (a, b) = (&q.xs[1], &q.xs[2]);
  let s = [b[0] - a[0], b[1] - a[1]];
  assert!((s[0] / s[1] - 2.0 / 3.0).abs() < 1e-9, "step {:?}", s);
}''', "a step of negative curvature after a successful update", "the metric is not reset")

bug("c16-inf-cost", "C16", [
 (SR + "mutate.rs", "    if !ok || !after_cost.is_finite() {", "    if !ok || after_cost.is_nan() {")],
'''struct L; impl vh::LossFn<f64> for L { fn loss(&self, _: &[f64], _: &[f64], _: Option<&[f64]>) -> f64 { 1e307 } fn dloss_dyhat(&self, _: &[f64], _: &[f64], _: Option<&[f64]>, g: &mut [f64]) { g.fill(0.0) } }
fn main() {
  let d = ds(1, vec![1.0, 2.0], vec![3.0]); let mut op = O::default(); op.operators = ops(); op.loss = std::sync::Arc::new(L); op.annealing = false; op.use_frequency = false; op.use_baseline = false;
  let mut m = mem(0, 0, e(vec![v(0)], vec![]), 2); m.complexity = 1; m.loss = 1.0; m.cost = 100.0;
  let stats = vh::RunningSearchStatistics::new(op.maxsize, 1000);
  for s in 0..50 { let mut ev = vh::Evaluator::new(1); let (mut a, mut b) = (1, 1);
    let (q, acc, _) = vh::next_generation(&m, vh::NextGenerationCtx { rng: &mut Rng::with_seed(s), dataset: TaggedDataset::new(&d, None), temperature: 1.0, curmaxsize: 30, stats: &stats, options: &op, evaluator: &mut ev, next_id: &mut a, next_birth: &mut b, _ops: std::marker::PhantomData::<B> });
    assert!(!acc || q.cost.is_finite(), "accepted a child of cost {}", q.cost); }
}''', "a loss near the largest number, so that the cost overflows", "a child of infinite cost is accepted")

bug("c16-two-oldest", "C16", [
 (SR + "population.rs", "                Some((_, bf)) if b < bf => {\n                    second = first;\n                    first = Some((i, b));", "                Some((_, bf)) if b < bf => {\n                    second = second.or(first);\n                    first = Some((i, b));")],
'''fn main() {
  let p = vh::Population::new([5u64, 9, 2, 3].iter().enumerate().map(|(i, &b)| mem(i as u64, b, e(vec![v(0)], vec![]), 1)).collect());
  let (i, j) = p.two_oldest_indices();
  assert_eq!((i.min(j), i.max(j)), (2, 3));
  let p = vh::Population::new([5u64, 9, 2].iter().enumerate().map(|(i, &b)| mem(i as u64, b, e(vec![v(0)], vec![]), 1)).collect());
  let (i, j) = p.two_oldest_indices();
  assert_eq!((i.min(j), i.max(j)), (0, 2));
}''', "an age order in which the oldest comes after the second oldest and a younger one", "a younger member is replaced")

bug("c16-freq-size", "C16", [
 (SR + "mutate.rs", "        let new_f = if new_size > 0 && new_size <= options.maxsize {\n            stats.freq(new_size)", "        let new_f = if new_size > 0 && new_size <= curmaxsize {\n            stats.freq(new_size.min(curmaxsize - 1).max(1))")],
'''fn main() {
  // sizes 2 and 3: one seen often, the other never
  let d = ds(1, vec![1.0, 2.0], vec![3.0]); let mut op = O::default(); op.operators = Operators::<3>::from_names::<B>(&["sin"]).unwrap(); op.annealing = false; op.use_frequency = true; op.maxsize = 2;
  let mut w = MutationWeights { mutate_constant: 0.0, mutate_operator: 0.0, mutate_feature: 0.0, swap_operands: 0.0, rotate_tree: 0.0, add_node: 1.0, insert_node: 0.0, delete_node: 0.0, simplify: 0.0, randomize: 0.0, do_nothing: 0.0, optimize: 0.0, form_connection: 0.0, break_connection: 0.0 };
  w.add_node = 1.0; op.mutation_weights = w;
  let mut stats = vh::RunningSearchStatistics::new(2, 100000); for _ in 0..99999 { stats.update_frequencies(2); } stats.normalize();
  let mut m = mem(0, 0, e(vec![v(0)], vec![]), 2); m.complexity = 1; m.loss = 1.0; m.cost = 100.0;
  let mut acc_n = 0;
  for s in 0..100 { let mut ev = vh::Evaluator::new(1); let (mut a, mut b) = (1, 1);
    let (_, acc, _) = vh::next_generation(&m, vh::NextGenerationCtx { rng: &mut Rng::with_seed(s), dataset: TaggedDataset::new(&d, None), temperature: 1.0, curmaxsize: 2, stats: &stats, options: &op, evaluator: &mut ev, next_id: &mut a, next_birth: &mut b, _ops: std::marker::PhantomData::<B> });
    acc_n += acc as usize; }
  assert!(acc_n < 10, "accepted {acc_n} of 100 although the size is crowded");
}''', "a child of exactly the current largest size", "its acceptance uses another size's frequency")

bug("c17-prefix", "C17", [
 (SR + "migration.rs", "        let loc = usize_range(rng, 0..dst.len());", "        let loc = usize_range(rng, 0..dst.len().min(migrants.len().max(n_replace)));")],
'''fn main() {
  let mk = |i: u64| mem(i, i, e(vec![v(0)], vec![]), 1);
  let mut last = false;
  for s in 0..300 { let mut p = vh::Population::new((0..4).map(mk).collect()); let (mut a, mut b) = (100, 100);
    vh::migrate_into(&mut p, &[mk(50), mk(51)], 0.5, &mut Rng::with_seed(s), &mut a, &mut b); last |= p.members[3].id.0 >= 100; }
  assert!(last, "the last member is never replaced");
}''', "fewer migrants than members", "only the first members can be replaced")

bug("c17-tail-of-best", "C17", [
 (SR + "migration.rs", "    let mut idxs: Vec<usize> = (0..pop.len()).collect();\n    idxs.sort_by(", "    let mut idxs: Vec<usize> = (0..pop.len()).filter(|&i| pop.members[i].cost.is_finite()).collect();\n    if idxs.is_empty() {\n        idxs = (0..pop.len()).collect();\n    }\n    idxs.sort_by(")],
'''fn main() {
  let mk = |i: u64, c: f64| { let mut m = mem(i, i, e(vec![v(0)], vec![]), 1); m.cost = c; m };
  let p = vh::Population::new(vec![mk(0, f64::INFINITY), mk(1, 2.0)]);
  assert_eq!(vh::best_sub_pop(&p, 2).len(), 2);
}''', "a population with members of infinite cost and room for them", "fewer members than requested are handed on")

bug("c18-freq-edge", "C18", [
 (SR + "selection.rs", "            let freq = if size > 0 && size <= options.maxsize {", "            let freq = if size > 0 && size < options.maxsize {")],
'''fn main() {
  let mut op = O::default(); op.maxsize = 2; op.tournament_selection_n = 2; op.tournament_selection_p = 1.0; op.use_frequency_in_tournament = true;
  let mut st = vh::RunningSearchStatistics::new(2, 1000); st.normalized_frequencies = vec![0.0, 1.0];
  let mut a = mem(0, 0, e(vec![v(0)], vec![]), 1); a.complexity = 1; a.cost = 2.0;
  let mut b = mem(1, 1, e(vec![v(0), o::<builtin::Sin>()], vec![]), 1); b.complexity = 2; b.cost = 1.0;
  let w = vh::best_of_sample(&mut Rng::with_seed(0), &vh::Population::new(vec![a, b]), &st, &op);
  assert_eq!(w.id.0, 0);
}''', "a member of exactly maxsize in a tournament with frequencies", "its size's frequency is ignored")

bug("c18-partial-shuffle", "C18", [
 (SR + "selection.rs", "            let j = rng.usize(i..len);\n            v.swap(i, j);", "            let j = rng.usize(i..take.max(i + 1).min(len).max(len - 1));\n            v.swap(i, j);")],
'''fn main() {
  let mut op = O::default(); op.tournament_selection_n = 2; op.tournament_selection_p = 1.0; op.use_frequency_in_tournament = false;
  let st = vh::RunningSearchStatistics::new(30, 1000);
  let mut seen = false;
  for s in 0..300 { let p = vh::Population::new((0..3u64).map(|i| { let mut m = mem(i, i, e(vec![v(0)], vec![]), 1); m.complexity = 1; m.cost = 3.0 - i as f64; m }).collect());
    seen |= vh::best_of_sample(&mut Rng::with_seed(s), &p, &st, &op).id.0 == 2; }
  assert!(seen, "the last member never takes part");
}''', "a tournament smaller than the population but larger than its square root", "the last member never takes part")

bug("c19-last-size", "C19", [
 (SR + "adaptive_parsimony.rs", "            remaining -= total;", "            remaining -= amount * self.frequencies.iter().filter(|&&v| v >= smallest_allowed).count() as f64;")],
'''fn main() {
  let mut s = vh::RunningSearchStatistics::new(3, 30);
  s.frequencies = vec![1.0, 4.0, 40.0]; s.move_window();
  let t: f64 = s.frequencies.iter().sum(); assert!((t - 30.0).abs() < 1e-6, "{t}");
}''', "some sizes seen only once while others exceed the window", "too little is forgotten")

bug("c19-stale-freq", "C19", [
 (SR + "adaptive_parsimony.rs", "            self.normalized_frequencies[size - 1].max(1e-6)", "            self.normalized_frequencies[size - 1].clamp(1e-6, 1.0 - 1e-6)")],
'''fn main() {
  let mut s = vh::RunningSearchStatistics::new(2, 30); s.frequencies = vec![0.0, 5.0]; s.normalize();
  assert_eq!(s.freq(2), 1.0);
}''', "one size holding everything", "its share is not reported")

bug("c20-exact-step", "C20", [
 (SR + "warmup.rs", "* fraction_elapsed / options.warmup_maxsize_by).floor() as usize", "* fraction_elapsed / options.warmup_maxsize_by).round() as usize")],
'''fn main() {
  let mut op = O::default(); op.maxsize = 10; op.warmup_maxsize_by = 0.5;
  // 10 % of the search is 20 % of the warm-up: 3 + floor(1.4) = 4; 3 % -> 3 + floor(0.42); 8 % -> 3 + floor(1.12)
  for (r, w) in [(90, 4), (97, 3), (92, 4), (88, 4), (95, 3)] { assert_eq!(vh::get_cur_maxsize(&op, 100, r), w, "remaining {r}"); }
}''', "warm-up fractions whose product has a part of one half or more", "the limit grows too early")

bug("c22-weight-row", "C22", [
 (SR + "dataset.rs", "                dst[dst_col] = src[src_idx];", "                dst[dst_col] = src[if self.n_rows == full.n_rows { dst_col } else { src_idx }];")],
'''fn main() {
  let full = Dataset::with_weights_and_names(x(4, vec![0.0, 1.0, 2.0, 3.0]), Array1::from(vec![0.0, 1.0, 2.0, 3.0]), Some(Array1::from(vec![0.0, 1.0, 2.0, 3.0])), vec![]);
  let mut b = Dataset::make_batch_buffer(&full, 4); b.resample_from(&full, &mut Rng::with_seed(3));
  for i in 0..4 { assert_eq!(b.y[i], b.weights.as_ref().unwrap()[i]); }
}''', "a batch as large as the data set", "targets and weights of different rows are paired")

bug("c22-batch-mean", "C22", [
 (SR + "dataset.rs", "        Self::build_dataset(x, y, weights, full.variable_names.clone(), Some(full.avg_y))", "        let avg_y = full.avg_y.is_normal().then_some(full.avg_y);\n        let names = full.variable_names.clone();\n        Self::build_dataset(x, y, weights, names, avg_y)")],
'''fn main() {
  let full = Dataset::with_weights_and_names(x(2, vec![0.0, 1.0]), Array1::from(vec![-1.0, 1.0]), Some(Array1::from(vec![1.0, 1.0])), vec![]);
  assert_eq!(full.avg_y, 0.0);
  let b = Dataset::make_batch_buffer(&full, 2);
  assert_eq!(b.avg_y, 0.0);
}''', "weighted data with a mean of zero", "the batch's mean is not a number")

bug("c21-own-migrants", "C21", [
 (SR + "search_utils.rs", "            if i != pop_idx {\n                candidates", "            if i != pop_idx || pools.best_sub_pops.len() == 2 {\n                candidates")],
'''fn main() {
  // one population's own members must not come back to it
  let mut bad = false;
  for s in 0..30 {
    let mut op = O::default(); op.operators = ops(); op.seed = s; op.populations = 2; op.population_size = 6; op.niterations = 1; op.ncycles_per_iteration = 1; op.maxsize = 8; op.migration = true; op.hof_migration = false; op.fraction_replaced = 0.9; op.topn = 2; op.should_optimize_constants = false; op.tournament_selection_n = 3; op.progress = false; op.should_simplify = false;
    let mut en = SearchEngine::<f64, B, 3>::new(ds(3, vec![1.0, 2.0, 3.0], vec![2.0, 1.0, 5.0]), op);
    en.step(1);
    for (i, (p, _, _)) in en.verif_pops().iter().enumerate() { let mut ps: Vec<u64> = p.members.iter().filter_map(|m| m.parent).map(|q| q.0).collect(); ps.sort();
      // a migrant's parent belongs to the other population
      for m in &p.members { if let Some(q) = m.parent { if q.0 >> 32 == i as u64 && m.loss.is_finite() { let twin = p.members.iter().any(|k| k.id == q && k.expr.nodes == m.expr.nodes && k.expr.consts == m.expr.consts && k.loss == m.loss); bad |= twin; } } } }
  }
  assert!(!bad, "a population received a copy of its own member");
}''', "exactly two populations", "a population receives its own members as migrants")

bug("c21-warmup-hall", "C21", [
 (SR + "search_utils.rs", "        hall.consider(m, options, curmaxsize);\n        if check", "        hall.consider(m, options, options.maxsize);\n        if check")],
'''fn main() {
  let mut bad = false;
  for s in 0..20 {
    let mut op = O::default(); op.operators = ops(); op.seed = s; op.populations = 1; op.population_size = 8; op.niterations = 10; op.ncycles_per_iteration = 1; op.maxsize = 12; op.warmup_maxsize_by = 0.99; op.migration = false; op.hof_migration = false; op.should_optimize_constants = false; op.progress = false;
    let mut en = SearchEngine::<f64, B, 3>::new(ds(3, vec![1.0, 2.0, 3.0], vec![2.0, 1.0, 5.0]), op);
    let had: Vec<bool> = en.hall_of_fame().best_by_complexity.iter().map(|m| m.is_some()).collect();
    let cost: Vec<Option<f64>> = en.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(|m| m.cost)).collect();
    en.step(1);
    for (k, m) in en.hall_of_fame().best_by_complexity.iter().enumerate() { if k > 3 { if let Some(m) = m { bad |= !had[k] || m.cost < cost[k].unwrap(); } } }
  }
  assert!(!bad, "a member above the warm-up limit entered the hall");
}''', "warm-up of the size limit", "members above the limit in force enter the hall of fame")

bug("c21-skip-rescore", "C21", [
 (SR + "single_iteration.rs", "    for m in &mut pop.members {\n        let _ = m.evaluate(&ctx.full_dataset", "    for m in &mut pop.members {\n        if !ctx.options.batching && m.loss.is_finite() && m.complexity <= m.expr.nodes.len() {\n            // scored on the full data already\n            continue;\n        }\n        let _ = m.evaluate(&ctx.full_dataset")],
'''fn main() {
  // simplification shrinks a member below its custom complexity
  let mut op = O::default(); op.operators = ops(); op.populations = 1; op.population_size = 4; op.niterations = 6; op.ncycles_per_iteration = 2; op.maxsize = 10; op.parsimony = 1.0; op.complexity_of_constants = 0; op.migration = false; op.hof_migration = false; op.progress = false; op.should_simplify = true; op.should_optimize_constants = false;
  for s in 0..40 { let mut o2 = op.clone(); o2.seed = s; o2.variable_complexities = Some(vec![0]);
    let d = ds(3, vec![1.0, 2.0, 3.0], vec![2.0, 1.0, 5.0]);
    let mut en = SearchEngine::<f64, B, 3>::new(d.clone(), o2.clone());
    while en.step(1) > 0 { for (p, _, _) in en.verif_pops() { for m in &p.members { let mut q = m.clone(); let mut ev = vh::Evaluator::new(3); q.evaluate(&TaggedDataset::new(&d, vh::baseline_loss_from_zero_expression::<f64, B, 3>(&d, o2.loss.as_ref())), &o2, &mut ev); assert!(q.complexity == m.complexity && (q.cost == m.cost || (q.cost - m.cost).abs() < 1e-9 * q.cost.abs()), "seed {s}: {} {} vs {} {}", q.complexity, q.cost, m.complexity, m.cost); } } }
  }
}''', "members whose complexity changes when they are simplified, with custom complexities", "stale complexity and cost after a turn")

bug("c23-order-seed", "C23", [
 (SR + "search_utils.rs", "        let order_rng = Rng::with_seed(options.seed ^ 0x9e37_79b9_7f4a_7c15);\n\n        Self {", "        let order_rng = Rng::with_seed(options.seed ^ 0x9e37_79b9_7f4a_7c15 & (options.populations as u64 - 1));\n\n        Self {")],
'''fn main() {
  // the order of the turns must not be drawn from a population's own generator: same result as the parallel search with one worker
  let run = |par: bool| { let mut op = O::default(); op.operators = ops(); op.seed = 7; op.populations = 6; op.population_size = 5; op.niterations = 3; op.ncycles_per_iteration = 3; op.maxsize = 9; op.progress = false; op.fraction_replaced = 0.5; op.topn = 2;
    let d = ds(4, vec![1.0, 2.0, 3.0, 4.0], vec![2.0, 1.0, 5.0, 3.0]);
    let h = if par { std::env::set_var("RAYON_NUM_THREADS", "1"); equation_search::<f64, B, 3>(&d, &op).hall_of_fame } else { SearchEngine::<f64, B, 3>::new(d, op).run_to_completion().hall_of_fame };
    h.members().map(|m| (m.complexity, m.loss.to_bits(), m.id.0)).collect::<Vec<_>>() };
  assert_eq!(run(true), run(false));
}''', "more than one population", "the order of the turns is drawn from one of the populations' generators")

bug("c23-thread-rng", "C23", [
 (SR + "migration.rs", "        let src = choose(rng, migrants).expect(\"migrants is non-empty\");", "        let src = if migrants.len() > 8 { &migrants[fastrand::usize(..migrants.len())] } else { choose(rng, migrants).expect(\"migrants is non-empty\") };")],
'''fn main() {
  let run = || { let mut op = O::default(); op.operators = ops(); op.seed = 7; op.populations = 4; op.population_size = 8; op.niterations = 4; op.ncycles_per_iteration = 3; op.maxsize = 9; op.progress = false; op.fraction_replaced = 0.5; op.topn = 4;
    let d = ds(4, vec![1.0, 2.0, 3.0, 4.0], vec![2.0, 1.0, 5.0, 3.0]);
    let h = SearchEngine::<f64, B, 3>::new(d, op).run_to_completion().hall_of_fame;
    h.members().map(|m| (m.complexity, m.loss.to_bits(), m.id.0, m.parent.map(|p| p.0))).collect::<Vec<_>>() };
  let a = run(); for _ in 0..5 { assert_eq!(a, run()); }
}''', "more than eight candidates for migration", "a draw is made from the thread's generator")
