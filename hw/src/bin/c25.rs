//! C25: the browser layer: data split, data set, metrics, options, snapshots.
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use dynamic_expressions::{OpId, OperatorSet};
use dynamic_expressions::node::PNode;
use hw::harnesses;
use hw::rt::*;
use ndarray::{Array1, Array2};
use symbolic_regression::{make_loss, Dataset, LossKind, Operators, Options};
use symbolic_regression::verif_hooks::LossFn;
use symbolic_regression_wasm::verif_hooks as web;
use symbolic_regression_wasm::{WasmSearchOptions, WasmSplitIndices};
fn fin() -> f64 { let v = f(); assume(v.is_finite()); v }
fn optb(x: bool) -> bool { conc(x as usize) == 1 }
fn flag() -> bool { optb(b()) }
/// every row goes to exactly one side, the sizes follow the fraction, and the seed decides
#[no_mangle] pub extern "C" fn h_split() {
    let n = conc(us(0, p(0))); let seed = u(0, u64::MAX);
    let vf = match conc(us(0, p(1) + 4)) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => -f64::INFINITY, 3 => -0.25, k => (k - 4) as f64 / (p(1) - 1) as f64 };
    fastrand::seeds(); fastrand::record();
    let s = web::split_indices(n, vf, seed);
    let s1 = fastrand::seeds();
    fastrand::rewind();
    let t = web::split_indices(n, vf, seed);
    check(fastrand::tape_ok() && fastrand::seeds() == s1 && s1.iter().all(|x| x.is_some()), "the split is a function of the seed");
    check(s.train == t.train && s.val == t.val, "the same seed gives the same split");
    check(s.train.len() + s.val.len() == n, "every row on one side");
    let mut seen = vec![false; n];
    for &i in s.train.iter().chain(&s.val) { let i = conc(i); check(i < n && !seen[i], "every row on one side, once"); seen[i] = true; }
    check(n == 0 || !s.train.is_empty(), "rows are left to train on");
    let c = if vf > 0.9 { 0.9 } else if vf > 0.0 { vf } else { 0.0 };
    let want = c * n as f64; let got = s.val.len() as f64;
    check((got - want).abs() <= 0.5 || (n > 0 && s.val.len() == n - 1 && want > got), "the fraction of the rows asked for, rounded, short of all of them");
    if s.val.is_empty() { for (i, &j) in s.train.iter().enumerate() { check(i == j, "without validation the data stays as it is"); } cover(1); } else { cover(2); }
    cover(10 + n as u64);
}
/// any row can be held out, whatever the number held out
#[no_mangle] pub extern "C" fn h_split_any() {
    let n = p(0); let k = conc(us(1, n - 1));
    let s = web::split_indices(n, k as f64 / n as f64, u(0, u64::MAX));
    check(s.val.len() == k, "the fraction of the rows asked for");
    for i in 0..n { if conc(s.val[k - 1]) == i { cover((k * 10 + i) as u64); } }
}
/// data set columns
#[no_mangle] pub extern "C" fn h_full() {
    let (r, c) = (conc(us(0, p(0))), conc(us(0, p(1))));
    let ragged = r > 1 && flag();
    let rows: Vec<Vec<f64>> = (0..r).map(|i| (0..c + (ragged && i == r - 1) as usize).map(|_| f()).collect()).collect();
    let mut o = WasmSearchOptions::default();
    o.has_headers = flag();
    let headers: Vec<String> = if o.has_headers && flag() { ["a", "b", "c", "d", "e"][..c].iter().map(|s| s.to_string()).collect() } else { vec![] };
    o.y_column = if flag() { Some(conc(us(0, c))) } else { None };
    o.weights_column = if flag() { Some(conc(us(0, c))) } else { None };
    o.x_columns = match conc(us(0, 3)) { 0 => None, k => Some((1..k).map(|_| conc(us(0, c))).collect()) };
    let got = web::full_dataset(&headers, &rows, &o);
    let y = o.y_column.unwrap_or(c.wrapping_sub(1));
    let mut xs: Vec<usize> = vec![];
    for k in 0..=c { let take = match &o.x_columns { None => k < c && k != y && Some(k) != o.weights_column, Some(v) => v.contains(&k) }; if take { xs.push(k); } }
    let good = r > 0 && c >= 2 && !ragged && y < c && o.weights_column.map_or(true, |w| w < c && w != y && !xs.contains(&w)) && !xs.is_empty() && !xs.contains(&c) && !xs.contains(&y);
    check(got.is_ok() == good, "accepted exactly when the columns exist, are distinct and the rows are complete");
    let Ok((d, names, w)) = got else { cover(1); return };
    cover(2);
    check(d.n_rows == r && d.n_features == xs.len() && d.x.dim() == (xs.len(), r) && d.y.len() == r && d.weights.is_none(), "shape of the data set");
    check(w.is_some() == o.weights_column.is_some() && names.len() == xs.len() && d.variable_names == names, "weights and names");
    for i in 0..r {
        for (j, &k) in xs.iter().enumerate() { same(d.x[(j, i)], rows[i][k], "feature column"); }
        same(d.y[i], rows[i][y], "target column");
        if let (Some(w), Some(k)) = (&w, o.weights_column) { same(w[i], rows[i][k], "weights column"); }
    }
    for (j, &k) in xs.iter().enumerate() { if headers.is_empty() { check(names[j].as_bytes() == [b'x', b'0' + j as u8], "default names"); } else { check(names[j] == headers[k], "names from the header"); cover(3); } }
}
/// selected rows keep their own features, target and weight
#[no_mangle] pub extern "C" fn h_rows() {
    let n = p(0); let weighted = flag();
    let x: Vec<f64> = (0..2 * n).map(|_| f()).collect(); let y: Vec<f64> = (0..n).map(|_| f()).collect(); let w: Vec<f64> = (0..n).map(|_| f()).collect();
    let all = Dataset::with_weights_and_names(Array2::from_shape_vec((2, n), x.clone()).unwrap(), Array1::from_vec(y.clone()), None, vec!["a".into(), "b".into()]);
    let side = || -> Vec<usize> { (0..conc(us(0, p(1)))).map(|_| conc(us(0, n))).collect() };
    let s = WasmSplitIndices { train: side(), val: side() };
    let wa = Array1::from_vec(w.clone());
    let bad = s.train.contains(&n) || s.val.contains(&n);
    let got = web::split(&all, weighted.then_some(&wa), &all.variable_names, &s);
    check(got.is_err() == bad, "rows that do not exist are refused, others not");
    let Ok((t, v)) = got else { cover(1); return };
    check(v.is_some() == !s.val.is_empty(), "validation data exactly when rows are held out");
    for (d, idx) in [(Some(&t), &s.train), (v.as_ref(), &s.val)] {
        let Some(d) = d else { continue };
        check(d.n_rows == idx.len() && d.n_features == 2 && d.variable_names == all.variable_names && d.weights.is_some() == weighted, "shape of the part");
        for (k, &i) in idx.iter().enumerate() {
            same(d.x[(0, k)], x[i], "the row's features"); same(d.x[(1, k)], x[n + i], "the row's features"); same(d.y[k], y[i], "the row's target");
            if let Some(q) = &d.weights { same(q[k], w[i], "the row's weight"); }
        }
    }
    cover(2);
}
/// weighted mean errors, coefficient of determination, plain Pearson correlation
#[no_mangle] pub extern "C" fn h_metrics() {
    let n = [1, 2, 4, 8, 16][conc(us(0, p(0)))]; let weighted = flag();
    // squares of sums: from four rows on, only one row (each in turn) is symbolic
    let at = if n > 2 && (p(1) == 1 || p(1) == 2) { conc(us(0, n - 1)) } else { n };
    let val = |i: usize, c: f64| if at == n || at == i { fin() } else { c };
    let (a, y): (Vec<f64>, Vec<f64>) = ((0..n).map(|i| val(i, (i % 7) as f64)).collect(), (0..n).map(|i| val(i, (i * 3 % 5) as f64)).collect());
    let w: Vec<f64> = (0..n).map(|i| if weighted { let v = val(i, [0.25, 3.0, 0.5][i % 3]); assume(v > 0.0); v } else { 1.0 }).collect();
    let d = Dataset::with_weights_and_names(Array2::zeros((1, n)), Array1::from_vec(y.clone()), weighted.then(|| Array1::from_vec(w.clone())), vec![]);
    real(true);
    let m = web::metrics(&a, &d);
    check(m.n == n, "number of rows");
    let (mut sw, mut se, mut sa, mut sy, mut ua, mut uy) = (0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
    for i in 0..n { let r = a[i] - y[i]; sw += w[i]; se += w[i] * (r * r); sa += w[i] * r.abs(); sy += w[i] * y[i]; ua += a[i]; uy += y[i]; }
    match p(1) {
        0 => { req(m.mse, se / sw, "mean squared error"); req(m.mae, sa / sw, "mean absolute error"); same(m.rmse, m.mse.sqrt(), "root mean squared error"); }
        1 => {
            let (my, mut st) = (sy / sw, 0.0); for i in 0..n { let q = y[i] - my; st += w[i] * (q * q); }
            if st == 0.0 { cover(1); } else { req(m.r2, 1.0 - se / st, "coefficient of determination"); cover(2); }
        }
        2 => {
            let (ma, my) = (ua / n as f64, uy / n as f64); let (mut c, mut va, mut vy) = (0.0, 0.0, 0.0);
            for i in 0..n { let (s, t) = (a[i] - ma, y[i] - my); c += s * t; va += s * s; vy += t * t; }
            if va > 0.0 && vy > 0.0 { req(m.corr, c / (vy.sqrt() * va.sqrt()), "Pearson correlation of predictions and targets, every row alike"); cover(3); } else { cover(4); }
        }
        _ => {
            let (mut some_lo, mut some_hi) = (false, false);
            for i in 0..n { let e = (a[i] - y[i]).abs(); check(m.min_abs_err <= e && e <= m.max_abs_err, "extreme absolute errors bound every row"); some_lo |= e == m.min_abs_err; some_hi |= e == m.max_abs_err; }
            check(some_lo && some_hi, "extreme absolute errors are attained");
        }
    }
    cover(10 + n as u64);
}
/// every option set in the browser reaches the engine
#[no_mangle] pub extern "C" fn h_options() {
    let mut o = WasmSearchOptions::default();
    macro_rules! set { ($($f:ident: $e:expr,)*) => { $( o.core.$f = $e; )* } }
    macro_rules! mw { ($($f:ident)*) => { $( o.core.mutation_weights.$f = f(); )* } }
    set! { seed: u(0, u64::MAX), niterations: us(0, usize::MAX), populations: us(0, usize::MAX), population_size: us(0, usize::MAX), ncycles_per_iteration: us(0, usize::MAX), batch_size: us(0, usize::MAX),
        complexity_of_constants: u(0, 65535) as u16, complexity_of_variables: u(0, 65535) as u16, maxsize: us(0, usize::MAX), maxdepth: us(0, usize::MAX), warmup_maxsize_by: f32_(), parsimony: f(),
        adaptive_parsimony_scaling: f(), crossover_probability: f(), perturbation_factor: f(), probability_negate_constant: f(), tournament_selection_n: us(0, usize::MAX), tournament_selection_p: f32_(), alpha: f(),
        optimizer_nrestarts: us(0, usize::MAX), optimizer_probability: f(), optimizer_iterations: us(0, usize::MAX), optimizer_f_calls_limit: us(0, usize::MAX), fraction_replaced: f(), fraction_replaced_hof: f(), topn: us(0, usize::MAX),
        use_frequency: b(), use_frequency_in_tournament: b(), skip_mutation_failures: b(), annealing: b(), should_optimize_constants: b(), migration: b(), hof_migration: b(), use_baseline: b(), batching: b(), should_simplify: b(), }
    mw! { mutate_constant mutate_operator mutate_feature swap_operands rotate_tree add_node insert_node delete_node simplify randomize do_nothing optimize }
    let (hd, lp, q, ep) = (fin(), fin(), fin(), fin()); assume(hd > 0.0 && lp > 0.0 && q > 0.0 && ep > 0.0);
    o.huber_delta = hd; o.lp_p = lp; o.quantile_tau = q; o.epsilon_insensitive_eps = ep;
    let (name, kind) = [("mse", LossKind::Mse), (" MAE ", LossKind::Mae), ("Rmse", LossKind::Rmse), ("huber", LossKind::Huber { delta: hd }), ("LogCosh", LossKind::LogCosh), ("lp", LossKind::Lp { p: lp }), ("quantile\n", LossKind::Quantile { tau: q }),
        ("epsilon-insensitive", LossKind::EpsilonInsensitive { eps: ep }), ("eps_Insensitive", LossKind::EpsilonInsensitive { eps: ep }), ("epsilon_insensitive", LossKind::EpsilonInsensitive { eps: ep }), ("EPS-insensitive", LossKind::EpsilonInsensitive { eps: ep })][conc(us(0, 10))];
    o.loss_kind = name.to_string();
    let mut ops = Operators::<3>::new(); let id = OpId { arity: 2, id: 1 }; ops.push(id);
    let g = web::options(&o, ops);
    macro_rules! ints { ($($f:ident)*) => { $( check(g.$f == o.core.$f, concat!("the option reaches the engine: ", stringify!($f))); )* } }
    macro_rules! floats { ($($f:ident)*) => { $( same(g.$f as f64, o.core.$f as f64, concat!("the option reaches the engine: ", stringify!($f))); )* } }
    macro_rules! weights { ($($f:ident)*) => { $( same(g.mutation_weights.$f, o.core.mutation_weights.$f, concat!("the weight reaches the engine: ", stringify!($f))); )* } }
    ints! { seed niterations populations population_size ncycles_per_iteration batch_size complexity_of_constants complexity_of_variables maxsize maxdepth tournament_selection_n optimizer_nrestarts optimizer_iterations optimizer_f_calls_limit topn
        use_frequency use_frequency_in_tournament skip_mutation_failures annealing should_optimize_constants migration hof_migration use_baseline batching should_simplify }
    floats! { warmup_maxsize_by parsimony adaptive_parsimony_scaling crossover_probability perturbation_factor probability_negate_constant tournament_selection_p alpha optimizer_probability fraction_replaced fraction_replaced_hof }
    weights! { mutate_constant mutate_operator mutate_feature swap_operands rotate_tree add_node insert_node delete_node simplify randomize do_nothing optimize }
    check(!g.progress, "no terminal output in a browser");
    let (a, y) = ([fin()], [fin()]);
    same(g.loss.loss(&a, &y, None), make_loss::<f64>(kind).loss(&a, &y, None), "the loss asked for");
    cover(1);
}
struct L;
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>) -> f64 { 3.0f64.atan2(yh[0]).powf(y[0]) }
    fn dloss_dyhat(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>, out: &mut [f64]) { out[0] = yh[0].powf(y[0]); }
}
/// what the page is shown is the engine's state
#[no_mangle] pub extern "C" fn h_snapshot() {
    let cos = (0..).map(|id| OpId { arity: 1, id }).find(|q| BuiltinOpsF64::name(*q) == "cos").unwrap();
    let mut ops = Operators::<3>::new(); ops.push(cos);
    let mut o = Options::<f64, 3> { operators: ops, populations: 1, population_size: p(0), niterations: 1, ncycles_per_iteration: 1, maxsize: 6, progress: false, should_optimize_constants: false, should_simplify: false, migration: false, hof_migration: false,
        use_frequency: false, use_frequency_in_tournament: false, annealing: false, tournament_selection_n: 1, crossover_probability: -1.0, parsimony: 0.5, use_baseline: false, tournament_selection_p: 1.0, loss: std::sync::Arc::new(L), ..Default::default() };
    let w = &mut o.mutation_weights;
    for v in [&mut w.mutate_constant, &mut w.mutate_operator, &mut w.mutate_feature, &mut w.swap_operands, &mut w.rotate_tree, &mut w.add_node, &mut w.insert_node, &mut w.delete_node, &mut w.simplify, &mut w.randomize, &mut w.optimize, &mut w.form_connection, &mut w.break_connection] { *v = 0.0; }
    w.add_node = 1.0;
    fastrand::sticky(p(1) as u32, 60);
    let (x, y) = ([fin(), fin()], fin());
    let d = Dataset::with_weights_and_names(Array2::from_shape_vec((2, 1), x.to_vec()).unwrap(), Array1::from_vec(vec![y]), None, vec!["a".into(), "b".into()]);
    let mut e = web::Engine::new(d.clone(), o);
    if flag() { e.step(1); }
    assume(e.best().expr.consts.is_empty());
    let k = conc(us(0, 2));
    let s = web::snap(&e, k);
    check(s.total_cycles == e.total_cycles() && s.cycles_completed == e.cycles_completed() && s.total_evals == e.total_evals(), "progress figures");
    let bm = e.best();
    check(s.best.id == bm.id.0.to_string() && s.best.complexity == bm.complexity, "the best equation is the engine's"); same(s.best.loss, bm.loss, "its loss"); same(s.best.cost, bm.cost, "its cost");
    let mut text = match bm.expr.nodes[0] { PNode::Var { feature } => ["a", "b"][feature as usize].to_string(), _ => reject() };
    for _ in 1..bm.expr.nodes.len() { text = format!("cos({})", text); }
    check(s.best.equation == text, "its text, with the column names");
    let front = e.hall_of_fame().pareto_front();
    let from = front.len().saturating_sub(k);
    check(s.pareto_points.len() == front.len() - from, "as many points as asked for, or all");
    for (q, m) in s.pareto_points.iter().zip(&front[from..]) { check(q.id == m.id.0.to_string() && q.complexity == m.complexity, "the most accurate part of the front"); same(q.loss, m.loss, "loss of the point"); same(q.cost, m.cost, "cost of the point"); }
    for m in &front {
        let g = web::find(&e, m.id.0); check(g.is_some(), "every equation shown can be found"); let g = g.unwrap();
        check(g.id == m.id && g.expr.nodes == m.expr.nodes && g.complexity == m.complexity, "the equation found is the one shown");
    }
    check(web::find(&e, 77 << 40).is_none(), "unknown ids are not found");
    if k == 0 { let PNode::Var { feature } = bm.expr.nodes[0] else { reject() }; let (mut want, mut fine) = (x[feature as usize], true); for _ in 1..bm.expr.nodes.len() { want = want.cos(); fine &= conc(want.is_finite() as usize) == 1; } if fine { let v = web::predict(&d, bm); check(v.as_ref().is_some_and(|v| v.len() == 1), "one prediction per row"); same(v.unwrap()[0], want, "the equation's prediction"); cover(5); } }
    cover(front.len() as u64);
}
/// CSV text
#[no_mangle] pub extern "C" fn h_csv() {
    let cell = || [("1", 1.0), ("-2.5", -2.5), (" 3e2 ", 300.0), ("\"4\"", 4.0)][conc(us(0, 3))];
    let (r, c) = (p(0), p(1)); let nl = ["\n", "\r\n"][conc(us(0, 1))];
    let header = flag(); let bad = conc(us(0, 2));
    let mut text = String::new(); let mut want: Vec<Vec<f64>> = vec![];
    if header { text.push_str(if c == 1 { "a" } else { " a ,\"b\"" }); text.push_str(nl); }
    for i in 0..r {
        let mut row = vec![];
        for j in 0..c { if j > 0 { text.push(','); } let (s, v) = cell(); text.push_str(if bad == 1 && i + 1 == r && j == 0 { "one" } else { s }); row.push(v); }
        if bad == 2 && i > 0 && i + 1 == r { text.push_str(",5"); }
        want.push(row);
        if i + 1 < r || flag() { text.push_str(nl); }
    }
    let got = web::rows(&text, header);
    let good = bad == 0 || (bad == 2 && (r < 2 && true));
    check(got.is_ok() == good, "numbers in rows of equal length are accepted, anything else is not");
    let Ok((h, rows)) = got else { cover(1); return };
    check(h == if header { ["a", "b"][..c].iter().map(|s| s.to_string()).collect() } else { Vec::<String>::new() }, "the header's names");
    check(rows.len() == r, "every row"); for (a, w) in rows.iter().zip(&want) { check(a == w, "every number in its place"); }
    cover(2);
}
harnesses!(h_split, h_split_any, h_full, h_rows, h_metrics, h_options, h_snapshot, h_csv);
