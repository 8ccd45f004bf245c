From 6779cae9e42e78092917a08f76ec903c53e93830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 01/19] fix: gradient evaluation over zero rows must return an
 empty gradient instead of panicking

---
 dynamic_expressions/src/evaluate.rs            | 2 +-
 dynamic_expressions/src/evaluate_derivative.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..a459f70 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -710,7 +710,7 @@ pub mod kernels {
                 *outv = Op::eval(&vals);
             }
 
-            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows).enumerate().take(ctx.n_dir) {
+            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows.max(1)).enumerate().take(ctx.n_dir) {
                 for (row, outg) in grad_dir.iter_mut().enumerate() {
                     for (v, view) in vals.iter_mut().zip_eq(arg_views) {
                         *v = view.get(row);
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index 3d1b21f..a0e41a8 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -331,7 +331,7 @@ where
             let end = start + n_rows;
             out_val.copy_from_slice(&x_data[start..end]);
             if variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == f as usize {
                         grad_dir.fill(T::one());
                     } else {
@@ -350,7 +350,7 @@ where
             }
             out_val.fill(v);
             if !variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == c as usize {
                         grad_dir.fill(T::one());
                     } else {
-- 
2.43.0


From 03a8c35587c2a4498ee0715aa5eeb636f15eda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 02/19] fix: zero tangents must not turn derivatives into NaN
 (x^c at negative x)

---
 dynamic_expressions/src/evaluate.rs | 40 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index a459f70..f112f1c 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -369,6 +369,17 @@ pub mod kernels {
         vals
     }
 
+    /// One chain-rule term `partial * tangent`. An argument with zero tangent contributes nothing,
+    /// even where its partial is undefined (e.g. `x^c` with respect to `c` at negative `x`).
+    #[inline]
+    fn chain_term<T: Float>(partial: T, tangent: T) -> T {
+        if tangent.is_zero() {
+            T::zero()
+        } else {
+            partial * tangent
+        }
+    }
+
     #[inline]
     fn grad_dir_view<'a, T: Float>(g: GradRef<'a, T>, dir: usize, n_rows: usize) -> ArgView<'a, T> {
         match g {
@@ -388,19 +399,18 @@ pub mod kernels {
             (ArgView::Slice(x_s), ArgView::Slice(dx_s)) => {
                 for ((outg, &xv), &dxv) in out.iter_mut().zip_eq(x_s).zip_eq(dx_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dxv;
+                    *outg = chain_term(partial(&vals, 0), dxv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(dx_c)) => {
                 for (outg, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dx_c;
+                    *outg = chain_term(partial(&vals, 0), dx_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(dx_c)) => {
                 let vals = vals1(x_c);
-                let p = partial(&vals, 0);
-                out.fill(p * dx_c);
+                out.fill(chain_term(partial(&vals, 0), dx_c));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -422,58 +432,58 @@ pub mod kernels {
                 let data = (x_s.iter().zip_eq(y_s)).zip_eq(dx_s.iter().zip_eq(dy_s));
                 for (outv, ((&xv, &yv), (&dxv, &dyv))) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dyv;
+                    *outv = chain_term(partial(&vals, 0), dxv) + chain_term(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dx_s);
                 for (outv, ((&xv, &yv), &dxv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(partial(&vals, 0), dxv) + chain_term(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dy_s);
                 for (outv, ((&xv, &yv), &dyv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &dxv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(dx_s)) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(partial(&vals, 0), dxv) + chain_term(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 for (outv, (&yv, &dyv)) in out.iter_mut().zip_eq(y_s.iter().zip_eq(dy_s)) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &yv) in out.iter_mut().zip_eq(y_s) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 let vals = vals2(x_c, y_c);
-                out.fill(partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c);
+                out.fill(chain_term(partial(&vals, 0), dx_c) + chain_term(partial(&vals, 1), dy_c));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -627,7 +637,7 @@ pub mod kernels {
 
                 let mut dv_out = T::zero();
                 for (j, dvj) in dvals.iter().copied().enumerate() {
-                    dv_out += Op::partial(&vals, j) * dvj;
+                    dv_out += chain_term(Op::partial(&vals, j), dvj);
                 }
                 *outd = dv_out;
 
@@ -717,7 +727,7 @@ pub mod kernels {
                     }
                     let mut g = T::zero();
                     for (j, ag) in ctx.arg_grads.iter().copied().enumerate() {
-                        g += Op::partial(&vals, j) * grad_at(ag, dir, row, ctx.n_rows);
+                        g += chain_term(Op::partial(&vals, j), grad_at(ag, dir, row, ctx.n_rows));
                     }
                     *outg = g;
                 }
-- 
2.43.0


From 324cf0e26ed2d6912e5519d1a81ee308ee5e4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 03/19] fix: clamp's derivative with respect to hi must follow
 the value it returns when lo > hi

---
 dynamic_expressions/src/operator_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..7d1598f 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -628,7 +628,7 @@ pub mod builtin {
                     if x < lo { T::one() } else { T::zero() }
                 }
                 2 => {
-                    if x > hi { T::one() } else { T::zero() }
+                    if x > hi && !(x < lo) { T::one() } else { T::zero() }
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0


From db6ebb0708af02ff95db511640b6a3b7832f718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 04/19] verif hooks: cfg(verif_hooks) module giving the
 verification harnesses access to internals

---
 symbolic_regression/src/lib.rs         |   3 +
 symbolic_regression/src/verif_hooks.rs | 169 +++++++++++++++++++++++++
 2 files changed, 172 insertions(+)
 create mode 100644 symbolic_regression/src/verif_hooks.rs

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..d4382f7 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // `--cfg verif_hooks`
 #[cfg(all(target_arch = "wasm32", not(target_feature = "atomics")))]
 compile_error!(
     "symbolic_regression requires wasm threads/atomics when targeting wasm32. \
@@ -31,6 +32,8 @@ pub(crate) mod warmup;
 
 #[cfg(feature = "bench")]
 pub mod bench;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use check_constraints::{NestedConstraints, OpConstraints};
 pub use complexity::compute_complexity;
diff --git a/symbolic_regression/src/verif_hooks.rs b/symbolic_regression/src/verif_hooks.rs
new file mode 100644
index 0000000..caa87b5
--- /dev/null
+++ b/symbolic_regression/src/verif_hooks.rs
@@ -0,0 +1,169 @@
+//! Verification access to crate internals (only with `--cfg verif_hooks`).
+use dynamic_expressions::expression::PostfixExpr;
+use fastrand::Rng;
+use num_traits::Float;
+
+pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::check_constraints::check_constraints;
+pub use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
+pub use crate::loss_functions::{LossFn, baseline_loss_from_zero_expression, loss_to_cost};
+pub use crate::migration::{best_sub_pop, migrate_into};
+pub use crate::mutate::{CrossoverCtx, NextGenerationCtx, condition_mutation_weights, crossover_generation, next_generation};
+pub use crate::mutation_functions::{
+    insert_random_op_in_place, random_expr, random_expr_append_ops, rotate_tree_in_place,
+};
+pub use crate::pop_member::Evaluator;
+pub use crate::population::Population;
+pub use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
+pub use crate::selection::best_of_sample;
+pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
+pub use crate::warmup::get_cur_maxsize;
+use crate::{Operators, Options, mutation_functions as mf, optim};
+
+pub fn mutate_constant<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    temperature: f64,
+    o: &Options<T, D>,
+) -> bool {
+    mf::mutate_constant_in_place(r, e, temperature, o)
+}
+pub fn mutate_operator<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    o: &Operators<D>,
+) -> bool {
+    mf::mutate_operator_in_place(r, e, o)
+}
+pub fn mutate_feature<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    n_features: usize,
+) -> bool {
+    mf::mutate_feature_in_place(r, e, n_features)
+}
+pub fn swap_operands<T: Float, Ops, const D: usize>(r: &mut Rng, e: &mut PostfixExpr<T, Ops, D>) -> bool {
+    mf::swap_operands_in_place(r, e)
+}
+pub fn append_random_op<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    o: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::append_random_op_in_place(r, e, o, n_features)
+}
+pub fn prepend_random_op<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    o: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::prepend_random_op_in_place(r, e, o, n_features)
+}
+pub fn add_node<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    e: &mut PostfixExpr<T, Ops, D>,
+    o: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::add_node_in_place(r, e, o, n_features)
+}
+pub fn delete_random_op<T: Float, Ops, const D: usize>(r: &mut Rng, e: &mut PostfixExpr<T, Ops, D>) -> bool {
+    mf::delete_random_op_in_place(r, e)
+}
+pub fn crossover_trees<T: Float, Ops, const D: usize>(
+    r: &mut Rng,
+    a: &PostfixExpr<T, Ops, D>,
+    b: &PostfixExpr<T, Ops, D>,
+) -> (PostfixExpr<T, Ops, D>, PostfixExpr<T, Ops, D>) {
+    mf::crossover_trees(r, a, b)
+}
+pub fn weighted_index(r: &mut Rng, w: &[f64]) -> usize {
+    crate::selection::weighted_index(r, w)
+}
+pub fn poisson_sample(r: &mut Rng, mean: f64) -> usize {
+    crate::random::poisson_sample(r, mean)
+}
+pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
+    crate::random::shuffle(r, v)
+}
+
+/// An objective given by closures: value, and value with gradient.
+pub trait VerifObjective {
+    fn f(&mut self, x: &[f64]) -> Option<f64>;
+    fn fg(&mut self, x: &[f64], g: &mut [f64]) -> Option<f64>;
+}
+struct Wrap<'a, O: VerifObjective>(&'a mut O);
+impl<O: VerifObjective> optim::Objective for Wrap<'_, O> {
+    fn f_only(&mut self, x: &[f64], budget: &mut optim::EvalBudget) -> Option<f64> {
+        budget.f_calls += 1;
+        self.0.f(x)
+    }
+    fn fg(&mut self, x: &[f64], g_out: &mut [f64], budget: &mut optim::EvalBudget) -> Option<f64> {
+        budget.f_calls += 1;
+        self.0.fg(x, g_out)
+    }
+}
+fn opt_options(iterations: usize, f_calls_limit: usize, g_abstol: f64) -> optim::OptimOptions {
+    optim::OptimOptions {
+        iterations,
+        f_calls_limit,
+        g_abstol,
+    }
+}
+fn linesearch(iterations: usize, maxstep: f64) -> optim::BackTracking {
+    optim::BackTracking {
+        iterations,
+        maxstep,
+        ..Default::default()
+    }
+}
+/// (minimizer, minimum, function calls)
+pub fn bfgs(
+    x0: &[f64],
+    o: &mut impl VerifObjective,
+    iterations: usize,
+    f_calls_limit: usize,
+    g_abstol: f64,
+    ls_iterations: usize,
+) -> Option<(Vec<f64>, f64, usize)> {
+    let opts = opt_options(iterations, f_calls_limit, g_abstol);
+    let r = optim::bfgs_minimize(x0, &mut Wrap(o), opts, linesearch(ls_iterations, f64::INFINITY))?;
+    Some((r.minimizer, r.minimum, r.f_calls))
+}
+/// (minimizer, minimum, function calls)
+pub fn newton_1d(
+    x0: f64,
+    o: &mut impl VerifObjective,
+    iterations: usize,
+    f_calls_limit: usize,
+    g_abstol: f64,
+    ls_iterations: usize,
+) -> Option<(Vec<f64>, f64, usize)> {
+    let opts = opt_options(iterations, f_calls_limit, g_abstol);
+    let r = optim::newton_1d_minimize(x0, &mut Wrap(o), opts, linesearch(ls_iterations, f64::INFINITY))?;
+    Some((r.minimizer, r.minimum, r.f_calls))
+}
+/// Some((alpha, phi)) on success
+#[allow(clippy::too_many_arguments)]
+pub fn line_search(
+    x: &[f64],
+    s: &[f64],
+    alpha0: f64,
+    phi0: f64,
+    dphi0: f64,
+    iterations: usize,
+    maxstep: f64,
+    x_new: &mut [f64],
+    phi: &mut impl FnMut(&[f64]) -> Option<f64>,
+) -> Option<(f64, f64)> {
+    let input = optim::LineSearchInput {
+        x,
+        s,
+        alpha0,
+        phi0,
+        dphi0,
+    };
+    optim::backtracking_linesearch(&linesearch(iterations, maxstep), input, x_new, phi)
+}
-- 
2.43.0


From ce92973b0aab62d66b2ca9e807c84350049ceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 05/19] fix: evaluation contexts must compare the cached plan's
 nodes, not a 64-bit digest of them

---
 dynamic_expressions/src/evaluate.rs           | 21 ++++++----------
 .../src/evaluate_derivative.rs                | 24 +++++++++----------
 2 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index f112f1c..579b0d6 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -1,10 +1,10 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{EvalKernelCtx, GradRef, SrcRef};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 
 #[derive(Copy, Clone, Debug)]
@@ -27,7 +27,7 @@ pub struct EvalContext<T: Float, const D: usize> {
     pub scratch: Option<Array2<T>>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -38,7 +38,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
             scratch: None,
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -47,7 +47,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
     pub fn setup<Ops>(&mut self, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>) {
         if self.needs_recompile(expr, x_columns) {
             self.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
-            self.plan_nodes_len = expr.nodes.len();
+            self.plan_nodes.clone_from(&expr.nodes);
             self.plan_n_consts = expr.consts.len();
             self.plan_n_features = x_columns.nrows();
         }
@@ -56,17 +56,10 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
     }
 
     fn needs_recompile<Ops>(&self, expr: &PostfixExpr<T, Ops, D>, x_columns: ArrayView2<'_, T>) -> bool {
-        if self.plan.is_none()
-            || self.plan_nodes_len != expr.nodes.len()
+        self.plan.is_none()
             || self.plan_n_consts != expr.consts.len()
             || self.plan_n_features != x_columns.nrows()
-        {
-            return true;
-        }
-        let Some(plan) = &self.plan else {
-            return true;
-        };
-        plan.hash != build_node_hash(&expr.nodes)
+            || self.plan_nodes != expr.nodes
     }
 
     fn ensure_scratch(&mut self, n_slots: usize) {
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index a0e41a8..f93d8e3 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -1,11 +1,11 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{DiffKernelCtx, GradKernelCtx, GradRef, SrcRef};
 use crate::evaluate::{EvalOptions, resolve_der_src, resolve_grad_src, resolve_val_src};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 use crate::utils::ZipEq;
 
@@ -15,7 +15,7 @@ pub struct DiffContext<T: Float, const D: usize> {
     pub der_scratch: Array2<T>,
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -27,7 +27,7 @@ impl<T: Float, const D: usize> DiffContext<T, D> {
             der_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -49,7 +49,7 @@ pub struct GradContext<T: Float, const D: usize> {
     pub grad_scratch: Array2<T>, // slot-major, each len n_dir*n_rows
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
-    pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -61,7 +61,7 @@ impl<T: Float, const D: usize> GradContext<T, D> {
             grad_scratch: Array2::zeros((0, 0)),
             n_rows,
             plan: None,
-            plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -114,13 +114,13 @@ where
     let n_rows = x_columns.ncols();
     let n_features = x_columns.nrows();
 
-    let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
+    let needs_recompile = ctx.plan.is_none()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != n_features
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan_nodes != expr.nodes;
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, n_features, expr.consts.len()));
-        ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = n_features;
     }
@@ -242,14 +242,14 @@ where
     let n_rows = x_columns.ncols();
     let n_dir = if variable { x_columns.nrows() } else { expr.consts.len() };
 
-    let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
+    let needs_recompile = ctx.plan.is_none()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != x_columns.nrows()
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan_nodes != expr.nodes;
 
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
-        ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes.clone_from(&expr.nodes);
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = x_columns.nrows();
     }
-- 
2.43.0


From 53ad991139637c0edeaa91798c2237e64ef9c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 06/19] fix: constant combination through '-' must only match
 binary nodes (unary operators share ids)

---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From f41a160b79565c639de7f25a72eb03eaa2ff2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 07/19] fix: weighted_index must never pick an item of zero
 weight

Rounding in the running subtraction can leave the target past the last positive
weight; the fallback then returned the last index even when its weight is zero
(e.g. weights [0.1, 0.1, 0.4, 0.0] with a draw just below 1).
---
 symbolic_regression/src/selection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..9f74d67 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -79,6 +79,8 @@ pub(crate) fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
     }
 
     let mut target = rng.f64() * total;
+    // Rounding may leave `target` past the end; never fall back to an item of zero weight.
+    let mut last_positive = weights.len() - 1;
     for (idx, &w) in weights.iter().enumerate() {
         if w <= 0.0 {
             continue;
@@ -87,8 +89,9 @@ pub(crate) fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
             return idx;
         }
         target -= w;
+        last_positive = idx;
     }
-    weights.len() - 1
+    last_positive
 }
 
 fn sample_indices(rng: &mut Rng, len: usize, n: usize) -> Vec<usize> {
-- 
2.43.0


From 0aa4f8788b6b57159f2e5b7b393a1b1ff841f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 08/19] fix: size warm-up must not underflow when maxsize is
 below three

With maxsize 1 or 2 and warmup_maxsize_by > 0, maxsize - 3 underflowed: a panic
with overflow checks, otherwise a size limit far beyond maxsize.
---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..2873a69 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let start = options.maxsize.min(3);
+        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 8e9532ac814266eee084b90d6604d8a55a190eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 09/19] fix: non-contiguous weights were ignored and
 non-contiguous targets panicked

y and weights are read through as_slice(), which is None for an owned array with
a stride (e.g. after invert_axis or slice_move); bring them to standard layout as
is done for x.
---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From af8a6632b626fa18bc1cae505c5c88bade3fa2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 10/19] fix: batching panicked unless the batch had as many
 rows as the dataset

s_r_cycle evaluated on the batch with an evaluator sized for the full dataset.
---
 symbolic_regression/src/single_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..cd166cc 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -40,6 +40,7 @@ where
     let mut num_evals = 0.0;
     let mut best_seen = HallOfFame::new(ctx.options.maxsize);
     best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
+    ctx.evaluator.ensure_n_rows(eval_dataset.n_rows);
 
     for i in 0..ncycles {
         let temperature = if ncycles <= 1 {
-- 
2.43.0


From 411fa47f3b823a8d6a2702bf6cfcb06fb00947d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 11/19] fix: with batching the hall of fame kept losses
 measured on a batch

Members seen during a cycle entered the hall with their loss and cost on the
batch, displacing members scored on the full dataset; score them on the full
dataset first.
---
 symbolic_regression/src/single_iteration.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index cd166cc..23f9988 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -66,6 +66,15 @@ where
         );
         best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
     }
+
+    if ctx.options.batching {
+        // Scores so far refer to the batch; the hall of fame compares scores on the full dataset.
+        ctx.evaluator.ensure_n_rows(ctx.full_dataset.n_rows);
+        for m in best_seen.best_by_complexity.iter_mut().flatten() {
+            let _ = m.evaluate(&ctx.full_dataset, ctx.options, ctx.evaluator);
+            num_evals += 1.0;
+        }
+    }
     (num_evals, best_seen)
 }
 
-- 
2.43.0


From 73f6af744a39561d202c71707d1abad8d3e5d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 12/19] fix: the reported best could be worse than the hall of
 fame

Members seen during a cycle enter the hall of fame but were not considered for
the best member, which could then have a higher loss than a hall member (and
than a point of the Pareto front).
---
 symbolic_regression/src/search_utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..1596bf1 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -461,10 +461,7 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
-        hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
         if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
             pools.best = m.clone();
-- 
2.43.0


From 32396380e4b8a0297696aac965d668fe6b351f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:18 +0000
Subject: [PATCH 13/19] verif hooks: look at the populations and statistics of
 a running search

---
 symbolic_regression/src/search_utils.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 1596bf1..75486ef 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -403,6 +403,20 @@ where
     }
 }
 
+#[cfg(verif_hooks)]
+impl<T: Float + AddAssign, Ops, const D: usize> SearchEngine<T, Ops, D> {
+    /// Every population with its next id and next birth.
+    pub fn verif_pops(&self) -> Vec<(&Population<T, Ops, D>, u64, u64)> {
+        let f = |s: &'_ Option<PopState<T, Ops, D>>| s.is_some();
+        assert!(self.pools.pops.iter().all(f));
+        let it = self.pools.pops.iter().flatten();
+        it.map(|s| (&s.pop, s.next_id, s.next_birth)).collect()
+    }
+    pub fn verif_stats(&self) -> &RunningSearchStatistics {
+        &self.stats
+    }
+}
+
 fn execute_task<T, Ops, const D: usize>(
     full_dataset: TaggedDataset<'_, T>,
     options: &Options<T, D>,
-- 
2.43.0


From 788eb7a0cb96381b11fdb12e5eef8ef2dba840f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:27 +0000
Subject: [PATCH 14/19] fix: a search panicked when no requested mutation was
 possible for a member

---
 symbolic_regression/src/mutate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 0fa1a8e..ed38e85 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -134,6 +134,10 @@ pub fn sample_mutation(rng: &mut Rng, weights: &MutationWeights) -> MutationChoi
         (MutationChoice::Optimize, weights.optimize),
     ];
     let w: Vec<f64> = choices.iter().map(|(_, v)| *v).collect();
+    if w.iter().all(|&v| v == 0.0) {
+        // None of the requested kinds is possible for this member.
+        return MutationChoice::DoNothing;
+    }
     let idx = weighted_index(rng, &w);
     choices[idx].0
 }
-- 
2.43.0


From f8126894705b37272598aa520fbe4308299c4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:38 +0000
Subject: [PATCH 15/19] fix: an initial best that violates the constraints was
 kept although valid members had been found

---
 symbolic_regression/src/search_utils.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 75486ef..0a3a966 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -475,10 +475,13 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
+    // Only until a member that satisfies the constraints is found may `best` violate them.
+    let mut best_valid = check_constraints(&pools.best.expr, options, options.maxsize);
     for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if check_constraints(&m.expr, options, curmaxsize) && (!best_valid || m.loss < pools.best.loss) {
             pools.best = m.clone();
+            best_valid = true;
         }
     }
 
-- 
2.43.0


From ba9a4372feff67281d2019ab0b2d6166026ce893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 16/19] fix: a large validation fraction of a small data set
 left no rows to train on

---
 web/wasm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..635d250 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,8 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    // Always leave something to train on.
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From 8d694554f09af2b4d1d97853070016948a64192e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 17/19] fix: the unweighted correlation was computed around the
 weighted mean

---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 635d250..1f577bb 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -507,6 +507,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
     let r2 = if sst == 0.0 { 0.0 } else { 1.0 - (sse / sst) };
 
     // Unweighted Pearson correlation.
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
-- 
2.43.0


From bd2f6993fb95ca97adf24485eb8ce1ebbb82806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 18/19] verif hooks: browser layer

---
 web/wasm/src/lib.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 1f577bb..d457f44 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // `--cfg verif_hooks`
 use std::io::Cursor;
 
 use csv::ReaderBuilder;
@@ -717,6 +718,51 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Verification access to crate internals (only with `--cfg verif_hooks`).
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+    pub type Engine = SearchEngine<f64, BuiltinOpsF64, 3>;
+    pub type Member = symbolic_regression::PopMember<f64, BuiltinOpsF64, 3>;
+    pub fn rows(csv_text: &str, has_headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
+        parse_csv_to_rows(csv_text, has_headers)
+    }
+    #[allow(clippy::type_complexity)]
+    pub fn full_dataset(
+        headers: &[String],
+        rows: &[Vec<f64>],
+        opts: &WasmSearchOptions,
+    ) -> Result<(Dataset<f64>, Vec<String>, Option<Array1<f64>>), String> {
+        build_full_dataset(headers, rows, opts)
+    }
+    pub fn split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> WasmSplitIndices {
+        make_split_indices(n_rows, validation_fraction, seed)
+    }
+    pub fn split(
+        all: &Dataset<f64>,
+        weights: Option<&Array1<f64>>,
+        names: &[String],
+        split: &WasmSplitIndices,
+    ) -> Result<(Dataset<f64>, Option<Dataset<f64>>), String> {
+        split_train_val(all, weights, names, split)
+    }
+    pub fn metrics(yhat: &[f64], dataset: &Dataset<f64>) -> WasmMetrics {
+        compute_metrics(yhat, dataset)
+    }
+    pub fn options(opts: &WasmSearchOptions, operators: Operators<3>) -> Options<f64, 3> {
+        options_from_wasm(opts, operators).unwrap()
+    }
+    pub fn snap(engine: &Engine, pareto_k: usize) -> SearchSnapshot {
+        snapshot(engine, pareto_k)
+    }
+    pub fn find(engine: &Engine, id: u64) -> Option<Member> {
+        find_member_by_id(engine, id)
+    }
+    pub fn predict(dataset: &Dataset<f64>, m: &Member) -> Option<Vec<f64>> {
+        eval_member_on_dataset(dataset, m).ok()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::WasmSearchOptions;
-- 
2.43.0


From a8c0e41da452e500c25752140c193529ec2b5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 19/19] fix: a parallel search on a one-thread pool waited for
 itself

---
 symbolic_regression/src/search_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 0a3a966..2990d44 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -206,7 +206,7 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0

