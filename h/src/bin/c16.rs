//! C16: evolution steps keep ids, ages and scores right, and replace only the oldest.
use dynamic_expressions::*;
use fastrand::Rng;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2};
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{Dataset, MemberId, MutationWeights, Operators, Options, PopMember, TaggedDataset};
type M = PopMember<f64, UOps, 3>;
type Opt = Options<f64, 3>;
/// a loss that is some function of predictions and targets
struct L(Arc<Mutex<usize>>);
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>) -> f64 { *self.0.lock().unwrap() += 1; loss_of(yh, y) }
    fn dloss_dyhat(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>, out: &mut [f64]) { for i in 0..out.len() { out[i] = yh[i].powf(y[i]); } }
}
fn loss_of(yh: &[f64], y: &[f64]) -> f64 { let mut a = 3.0f64; for i in 0..yh.len() { a = a.atan2(yh[i]).powf(y[i]); } a }
fn weights(k: usize) -> MutationWeights {
    let mut w = MutationWeights { mutate_constant: 0.0, mutate_operator: 0.0, mutate_feature: 0.0, swap_operands: 0.0, rotate_tree: 0.0, add_node: 0.0, insert_node: 0.0, delete_node: 0.0, simplify: 0.0, randomize: 0.0, do_nothing: 0.0, optimize: 0.0, form_connection: 0.0, break_connection: 0.0 };
    *wref(&mut w, k) = 1.0; w
}
fn wref(w: &mut MutationWeights, k: usize) -> &mut f64 { match k { 0 => &mut w.mutate_constant, 1 => &mut w.mutate_operator, 2 => &mut w.mutate_feature, 3 => &mut w.swap_operands, 4 => &mut w.rotate_tree, 5 => &mut w.add_node, 6 => &mut w.insert_node, 7 => &mut w.delete_node, 8 => &mut w.simplify, 9 => &mut w.randomize, 10 => &mut w.do_nothing, _ => &mut w.optimize } }
fn options(k: usize, maxsize: usize) -> Opt {
    let mut o = Opt::default();
    o.operators = Operators::<3>::from_names::<UOps>(&["ua", "ub", "ba", "ta"]).unwrap();
    o.mutation_weights = weights(k);
    o.maxsize = maxsize; o.parsimony = 0.5;
    o.optimizer_iterations = 1; o.optimizer_nrestarts = 0; o.optimizer_f_calls_limit = 1;
    o.loss = Arc::new(L(Arc::new(Mutex::new(0))));
    o
}
fn num() -> f64 { let v = f(); assume(!v.is_nan()); v }
fn tree(max: usize) -> UE {
    let s = decided(gen(Cfg { max, nf: 2, nc: 1, maxar: 2, ops: [0, 1, 1, 0] }));
    let nc = s.iter().any(|n| matches!(n, PNode::Const { .. })) as usize;
    let c = consts(nc); for v in &c { assume(v.is_finite()); }
    UE::new(s, c, Default::default())
}
fn member(id: u64, birth: u64, e: UE) -> M { let n = e.nodes.len(); let mut m = M::from_expr(MemberId(id), Some(MemberId(77)), birth, e, 2); m.complexity = n; m.loss = num(); m.cost = num(); m }
fn set(rows: usize) -> (Dataset<f64>, Vec<f64>, Vec<f64>) {
    let (x, y) = (data(2, rows), data(1, rows));
    for v in x.iter().chain(&y) { assume(v.is_finite()); }
    (Dataset::new(Array2::from_shape_vec((2, rows), x.clone()).unwrap(), Array1::from_vec(y.clone())), x, y)
}
/// (loss, cost) the reference gives; infinite when something is not finite
fn score(e: &UE, x: &[f64], y: &[f64], o: &Opt, base: Option<f64>) -> (f64, f64, bool) {
    let rows = y.len(); let mut fin = true;
    let yh: Vec<f64> = (0..rows).map(|r| ref_eval(&e.nodes, &e.consts, &|k| x[k * rows + r], &mut fin)).collect();
    if !fin { return (f64::INFINITY, f64::INFINITY, false); }
    let l = loss_of(&yh, y);
    if !l.is_finite() { return (f64::INFINITY, f64::INFINITY, false); }
    (l, loss_to_cost(l, e.nodes.len(), o.parsimony, o.use_baseline, base), true)
}
fn same_expr(a: &UE, b: &UE) -> bool { let mut d = 0u64; if a.nodes != b.nodes || a.consts.len() != b.consts.len() { return false; } for i in 0..a.consts.len() { d |= a.consts[i].to_bits() ^ b.consts[i].to_bits(); } d == 0 }
fn copied(a: &M, b: &M) { check(same_expr(&a.expr, &b.expr), "the parent's expression"); same(a.loss, b.loss, "the parent's loss"); same(a.cost, b.cost, "the parent's cost"); check(a.complexity == b.complexity, "the parent's complexity"); }
fn right(m: &M, x: &[f64], y: &[f64], o: &Opt, base: Option<f64>) -> bool {
    let (l, c, fin) = score(&m.expr, x, y, o, base);
    same(m.loss, l, "the loss of its own expression"); same(m.cost, c, "the cost that follows"); check(m.complexity == m.expr.nodes.len(), "its own complexity"); fin
}
fn baseline() -> Option<f64> { if b() { Some(num()) } else { None } }
/// one mutation step, every kind of mutation
#[no_mangle] pub extern "C" fn h_generation() {
    let k = conc(us(0, 11));
    let cap = conc(us(1, 5));
    let mut o = options(k, 5);
    o.annealing = b(); o.use_frequency = b(); o.should_optimize_constants = true; o.optimizer_probability = 0.5; o.use_baseline = b();
    let (ds, x, y) = set(1);
    let base = baseline();
    let m = member(7, 3, tree(p(0)));
    // when the only kind asked for is impossible for this member, nothing is done
    let mut w = o.mutation_weights.clone(); condition_mutation_weights(&mut w, &m, &o, cap, 2);
    let k = if *wref(&mut w, k) <= 0.0 { cover(30); 10 } else { k };
    let mut st = RunningSearchStatistics::new(5, 100);
    for q in st.normalized_frequencies.iter_mut() { *q = num(); }
    let (mut id, mut birth) = (40u64, 50u64); let t = num();
    let mut ev = Evaluator::new(1);
    fastrand::sticky(6, 60); fastrand::log_floats();
    let (c, acc, evals) = next_generation(&m, NextGenerationCtx { rng: &mut Rng::new(), dataset: TaggedDataset::new(&ds, base), temperature: t, curmaxsize: cap, stats: &st, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData });
    check(id == 41 && birth == 51, "one id and one age used");
    check(c.id == MemberId(40) && c.parent == Some(MemberId(7)) && c.birth == 50, "the child is new and knows its parent");
    check(evals >= 0.0, "counts evaluations");
    let free = !o.annealing && !o.use_frequency;
    if acc {
        cover(k as u64);
        check(c.expr.nodes.len() <= cap && node_utils::is_valid_postfix(&c.expr.nodes), "an accepted child respects the limits");
        if k == 8 { same(c.loss, m.loss, "simplifying keeps the loss"); check(c.complexity == c.expr.nodes.len(), "its own complexity"); same(c.cost, loss_to_cost(c.loss, c.complexity, o.parsimony, o.use_baseline, base), "the cost that follows"); }
        else { check(right(&c, &x, &y, &o, base), "an accepted child is finite"); check(c.cost.is_finite(), "an accepted child has a finite cost"); check(evals >= 1.0, "its evaluation is counted"); }
        if k == 10 { check(same_expr(&c.expr, &m.expr), "doing nothing"); }
    } else { cover(20); copied(&c, &m); }
    if k == 10 && m.expr.nodes.len() <= cap {
        let (_, cost, fin) = score(&m.expr, &x, &y, &o, base);
        if !(fin && cost.is_finite()) { check(!acc, "a child that is not finite is refused"); }
        else if free { check(acc, "nothing else refuses a child"); cover(21); }
        else {
            let fl = fastrand::floats(); let r = fl[fl.len() - 1];
            let mut prob = 1.0;
            if o.annealing { prob = (-(cost - m.cost) / (t * o.alpha)).exp(); }
            if o.use_frequency { let n = m.complexity; let q = st.freq(n) / st.freq(n); prob *= q; }
            check(acc == !(prob < r), "accepted as the acceptance probability says"); cover(22);
        }
    }
}
/// acceptance weighs how common the sizes are
#[no_mangle] pub extern "C" fn h_frequency() {
    let grow = conc(us(0, 1)) == 1;
    let mut o = options(if grow { 6 } else { 7 }, 4); o.annealing = false; o.use_frequency = true;
    o.operators = Operators::<3>::from_names::<UOps>(&["ua"]).unwrap();
    let (ds, x, y) = set(1);
    let e = { let n = conc(us(if grow { 1 } else { 2 }, if grow { p(0) - 1 } else { p(0) })); let mut v = vec![PNode::Var { feature: 0 }]; for _ in 1..n { v.push(PNode::Op { arity: 1, op: 0 }); } UE::new(v, vec![], Default::default()) };
    let m = member(7, 3, e);
    let mut st = RunningSearchStatistics::new(4, 100);
    for q in st.normalized_frequencies.iter_mut() { *q = num(); }
    let (mut id, mut birth) = (40u64, 50u64); let mut ev = Evaluator::new(1);
    fastrand::log_floats();
    let (c, acc, _) = next_generation(&m, NextGenerationCtx { rng: &mut Rng::new(), dataset: TaggedDataset::new(&ds, None), temperature: 1.0, curmaxsize: 4, stats: &st, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData });
    // a chain with one operator less or more
    let n = m.complexity; let k = if grow { n + 1 } else { n - 1 };
    let mut short = m.expr.clone(); if grow { short.nodes.push(PNode::Op { arity: 1, op: 0 }); } else { short.nodes.pop(); }
    let (_, cost, fin) = score(&short, &x, &y, &o, None);
    if !(fin && cost.is_finite()) { check(!acc, "a child that is not finite is refused"); return; }
    let fl = fastrand::floats(); let r = fl[fl.len() - 1];
    let fr = |s: usize| if s <= 4 { let v = st.normalized_frequencies[s - 1]; if v > 1e-6 { v } else { 1e-6 } } else { 1e-6 };
    check(acc == !(fr(n) / fr(k) < r), "accepted as the frequencies of old and new size say");
    if acc { check(same_expr(&c.expr, &short), "the shorter or longer chain"); cover(1); if k == 4 { cover(3); } } else { cover(2); }
}
/// which mutations are possible
#[no_mangle] pub extern "C" fn h_weights() {
    let m = member(1, 1, tree(p(0)));
    let mut o = options(0, 9); o.should_simplify = b(); o.should_optimize_constants = b(); o.optimizer_probability = if b() { 0.0 } else { 0.25 };
    let nf = conc(us(1, 2)); let cap = conc(us(1, p(0) + 1));
    let mut w = weights(0);
    for k in 0..12 { *wref(&mut w, k) = f(); }
    let mut v = w.clone();
    condition_mutation_weights(&mut v, &m, &o, cap, nf);
    let n = &m.expr.nodes;
    let nc = n.iter().filter(|q| matches!(q, PNode::Const { .. })).count();
    let leaf = n.len() == 1; let bin = n.iter().any(|q| matches!(q, PNode::Op { arity: 2, .. }));
    for k in 0..12 {
        let (mut a, mut c) = (*wref(&mut w, k), *wref(&mut v, k));
        let off = match k {
            0 => nc == 0, 1 => leaf, 2 => if leaf { nc > 0 } else { nf <= 1 }, 3 => !bin, 5 | 6 => !leaf && n.len() >= cap, 7 => leaf,
            8 => leaf || !o.should_simplify, 11 => m.expr.consts.is_empty() || (!leaf && (!o.should_optimize_constants || o.optimizer_probability == 0.0)), _ => false };
        if k == 0 && !off && !leaf { a *= nc as f64 / 8.0; }
        if off { if a.is_finite() { check(c == 0.0, "an impossible mutation is never chosen"); } c = a; }
        same(c, a, "other weights stay"); 
    }
    cover(1);
}
/// crossover
#[no_mangle] pub extern "C" fn h_crossover() {
    let mut o = options(10, 9);
    o.maxdepth = 9;
    let cap = conc(us(1, 5));
    let (ds, x, y) = set(1);
    let base = baseline();
    let (a, c) = (member(7, 3, tree(p(0))), member(8, 4, tree(p(1))));
    let (mut id, mut birth) = (40u64, 50u64); let mut ev = Evaluator::new(1);
    fastrand::sticky(6, 60);
    let (u, v, acc, evals) = crossover_generation(&a, &c, CrossoverCtx { rng: &mut Rng::new(), dataset: TaggedDataset::new(&ds, base), curmaxsize: cap, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData });
    if acc {
        check(id == 42 && birth == 52, "two ids and two ages used");
        check(u.id == MemberId(40) && v.id == MemberId(41) && u.birth == 50 && v.birth == 51 && u.parent == Some(a.id) && v.parent == Some(c.id), "the children are new and know their parents");
        check(u.expr.nodes.len() <= cap && v.expr.nodes.len() <= cap, "both children respect the limits");
        check(u.expr.nodes.len() + v.expr.nodes.len() == a.expr.nodes.len() + c.expr.nodes.len(), "nothing is lost");
        right(&u, &x, &y, &o, base); right(&v, &x, &y, &o, base);
        check(evals == 2.0, "two evaluations"); cover(1);
    } else {
        check(id == 40 && birth == 50 && evals == 0.0, "nothing used");
        copied(&u, &a); copied(&v, &c); check(u.id == a.id && v.id == c.id, "the parents themselves");
        check(a.expr.nodes.len() + c.expr.nodes.len() > cap + 1, "not refused without a reason"); cover(2);
    }
}
/// aging
#[no_mangle] pub extern "C" fn h_oldest() {
    let n = conc(us(1, p(0)));
    let leaf = || UE::new(vec![PNode::Var { feature: 0 }], vec![], Default::default());
    let births: Vec<u64> = (0..n).map(|_| u(0, 1 << 40)).collect();
    let mut q = Population::new((0..n).map(|i| member(i as u64, births[i], leaf())).collect::<Vec<M>>());
    if n == 1 || b() {
        q.replace_oldest(member(100, 9, leaf()));
        check(q.members.len() == n, "size stays");
        let r: Vec<usize> = (0..n).filter(|&i| q.members[i].id.0 != i as u64).collect();
        check(r.len() == 1 && q.members[r[0]].id.0 == 100, "exactly one member is replaced");
        for j in 0..n { check(births[r[0]] <= births[j], "the oldest"); }
        cover(1);
    } else {
        q.replace_two_oldest(member(100, 9, leaf()), member(101, 9, leaf()));
        check(q.members.len() == n, "size stays");
        let r: Vec<usize> = (0..n).filter(|&i| q.members[i].id.0 != i as u64).collect();
        check(r.len() == 2 && q.members[r[0]].id.0 + q.members[r[1]].id.0 == 201, "both children enter in place of two members");
        for j in 0..n { if !r.contains(&j) { check(births[r[0]] <= births[j] && births[r[1]] <= births[j], "the two oldest"); } }
        cover(2);
    }
}
/// one evolution cycle over a population whose tournament sees everyone
#[no_mangle] pub extern "C" fn h_cycle() {
    let n = p(0);
    let mut o = options(10, 5);
    o.tournament_selection_n = n; o.tournament_selection_p = 1.0; o.use_frequency_in_tournament = false; o.annealing = b(); o.use_frequency = false; o.skip_mutation_failures = b();
    let cross = b(); o.crossover_probability = if cross { 1.0 } else { -1.0 };
    let (ds, x, y) = set(1);
    // any order of ages (up to three members) and any winner
    let (turn, step) = (conc(us(0, n - 1)) as u64, conc(us(1, if n > 2 { 2 } else { 1 })) as u64);
    let best = conc(us(0, n - 1));
    let ms: Vec<M> = (0..n).map(|i| { let mut v = vec![PNode::Var { feature: i as u16 % 2 }]; for _ in 0..i { v.push(PNode::Op { arity: 1, op: 0 }); } member(i as u64, 10 + (i as u64 * step + turn) % n as u64, UE::new(v, vec![], Default::default())) }).collect();
    for i in 0..n { if i != best { assume(ms[best].cost < ms[i].cost); } }
    let mut q = Population::new(ms.clone());
    let st = RunningSearchStatistics::new(5, 100);
    let (mut id, mut birth) = (40u64, 50u64); let mut ev = Evaluator::new(1);
    let _ = reg_evol_cycle(&mut q, RegEvolCtx { rng: &mut Rng::new(), dataset: TaggedDataset::new(&ds, None), temperature: 1.0, curmaxsize: 5, stats: &st, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData });
    check(q.members.len() == n, "size stays");
    let mut old: Vec<usize> = (0..n).collect(); old.sort_by_key(|&i| ms[i].birth);
    let changed: Vec<usize> = (0..n).filter(|&i| q.members[i].id != ms[i].id).collect();
    let kids = if cross { 2 } else { 1 };
    for i in 0..n { if !changed.contains(&i) { copied(&q.members[i], &ms[i]); check(q.members[i].birth == ms[i].birth, "others stay"); } }
    if changed.is_empty() { check(!cross && o.skip_mutation_failures, "skipped only when told so"); check(id == 41, "one attempt"); cover(3); return; }
    check(changed.len() == kids && changed.iter().all(|c| old[..kids].contains(c)), "the oldest make room");
    check(id == 40 + kids as u64, "one attempt");
    for c in changed {
        let m = &q.members[c];
        check(m.parent == Some(ms[best].id), "descends from the tournament's winner");
        check(m.birth >= 50 && m.id.0 >= 40, "newest");
        if !cross {
            check(same_expr(&m.expr, &ms[best].expr), "the winner's child");
            let (l, k, fin) = score(&m.expr, &x, &y, &o, None);
            let own = m.loss.to_bits() == l.to_bits() && m.cost.to_bits() == k.to_bits() && fin; let kept = m.loss.to_bits() == ms[best].loss.to_bits() && m.cost.to_bits() == ms[best].cost.to_bits();
            check(own | kept, "scores are its own, or the parent's when refused"); if own { cover(1); }
            check(own || !o.skip_mutation_failures, "refused children do not enter");
        } else { right(m, &x, &y, &o, None); cover(2); }
    }
}
harnesses!(h_generation, h_frequency, h_weights, h_crossover, h_oldest, h_cycle);
