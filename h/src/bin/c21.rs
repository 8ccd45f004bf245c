//! C21: a whole search: bookkeeping, truthful results, monotone halls, reproducibility.
use dynamic_expressions::*;
use h::common::*;
use h::rt::*;
use h::harnesses;
use ndarray::{Array1, Array2};
use std::sync::{Arc, Mutex};
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{compute_complexity, equation_search, Dataset, HallOfFame, MemberId, TaggedDataset, MutationWeights, Operators, Options, PopMember, SearchEngine};
type M = PopMember<f64, UOps, 3>;
type Opt = Options<f64, 3>;
type Log = Arc<Mutex<Vec<f64>>>;
type En = SearchEngine<f64, UOps, 3>;
/// `.1`: an arbitrary loss (the same for the same predictions) instead of an uninterpreted function of them
struct L(Log, Option<Mutex<Vec<(Vec<f64>, f64)>>>);
impl LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>) -> f64 {
        let l = if let Some(k) = &self.1 {
            let (v, mut k) = (f(), k.lock().unwrap());
            for (z, w) in k.iter() { let mut differ = 0u64; for i in 0..yh.len() { differ |= yh[i].to_bits() ^ z[i].to_bits(); } assume((differ != 0) | (v.to_bits() == w.to_bits())); }
            k.push((yh.to_vec(), v)); v
        } else { loss_of(yh, y) };
        self.0.lock().unwrap().push(l); l
    }
    fn dloss_dyhat(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>, out: &mut [f64]) { for i in 0..out.len() { out[i] = yh[i].powf(y[i]); } }
}
fn loss_of(yh: &[f64], y: &[f64]) -> f64 { let mut a = 3.0f64; for i in 0..yh.len() { a = a.atan2(yh[i]).powf(y[i]); } a }
fn weights(k: usize) -> MutationWeights {
    let mut w = MutationWeights { mutate_constant: 0.0, mutate_operator: 0.0, mutate_feature: 0.0, swap_operands: 0.0, rotate_tree: 0.0, add_node: 0.0, insert_node: 0.0, delete_node: 0.0, simplify: 0.0, randomize: 0.0, do_nothing: 0.0, optimize: 0.0, form_connection: 0.0, break_connection: 0.0 };
    match k { 0 => w.do_nothing = 1.0, 1 => w.delete_node = 1.0, 2 => w.add_node = 1.0, 3 => w.mutate_constant = 1.0, _ => w.randomize = 1.0 }
    w
}
struct Cf { pops: usize, size: usize, iters: usize, cycles: usize, kind: usize, maxsize: usize }
fn options(c: &Cf, log: &Log) -> Opt {
    let mut o = Opt::default();
    o.operators = Operators::<3>::from_names::<UOps>(&["ua"]).unwrap();
    o.mutation_weights = weights(c.kind);
    o.populations = c.pops; o.population_size = c.size; o.niterations = c.iters; o.ncycles_per_iteration = c.cycles; o.maxsize = c.maxsize;
    o.crossover_probability = -1.0; o.tournament_selection_n = c.size; o.tournament_selection_p = 1.0;
    o.use_frequency = false; o.use_frequency_in_tournament = false; o.annealing = false; o.use_baseline = false;
    o.migration = false; o.hof_migration = false; o.should_simplify = false; o.should_optimize_constants = false; o.progress = false;
    o.optimizer_iterations = 1; o.optimizer_nrestarts = 0; o.optimizer_f_calls_limit = 1; o.optimizer_probability = 2.0;
    o.parsimony = 0.5; o.topn = 1;
    o.loss = Arc::new(L(log.clone(), None));
    o
}
struct D { x: Vec<f64>, y: Vec<f64> }
fn set(rows: usize) -> D { let (x, y) = (data(1, rows), data(1, rows)); for v in x.iter().chain(&y) { assume(v.is_finite()); } D { x, y } }
impl D { fn ds(&self) -> Dataset<f64> { Dataset::new(Array2::from_shape_vec((1, self.x.len()), self.x.clone()).unwrap(), Array1::from_vec(self.y.clone())) } }
/// the member's scores are those of its own expression on the full data
fn truthful(m: &M, d: &D, o: &Opt, base: Option<f64>) {
    let mut fin = true;
    let yh: Vec<f64> = (0..d.y.len()).map(|r| ref_eval(&m.expr.nodes, &m.expr.consts, &|_| d.x[r], &mut fin)).collect();
    let n = m.expr.nodes.len();
    let l = if p(7) >> 12 & 1 == 1 { o.loss.loss(&yh, &d.y, None) } else { loss_of(&yh, &d.y) };
    let (l, c) = if !(fin && l.is_finite()) { (f64::INFINITY, f64::INFINITY) } else { (l, loss_to_cost(l, n, o.parsimony, o.use_baseline, base)) };
    same(m.loss, l, "the loss of its own expression on the full data"); same(m.cost, c, "the cost that follows");
    check(m.complexity == n && compute_complexity(&m.expr.nodes, o) == n, "its own complexity");
}
fn hall(h: &HallOfFame<f64, UOps, 3>, d: &D, o: &Opt, base: Option<f64>) {
    check(h.best_by_complexity.len() == o.maxsize + 1 && h.best_by_complexity[0].is_none(), "one slot per size");
    for (k, s) in h.best_by_complexity.iter().enumerate() { if let Some(m) = s { truthful(m, d, o, base); check(m.complexity == k, "in its own slot"); check(m.expr.nodes.len() <= o.maxsize && depth(&m.expr.nodes) <= o.maxdepth, "within the limits"); } }
}
fn best(b: &M, h: &HallOfFame<f64, UOps, 3>, d: &D, o: &Opt, base: Option<f64>) {
    truthful(b, d, o, base);
    if h.members().next().is_some() { check(b.expr.nodes.len() <= o.maxsize && depth(&b.expr.nodes) <= o.maxdepth, "the best respects the limits when anything found does"); }
    for m in h.members() { check(!(m.loss < b.loss), "nothing in the hall is better than the best"); }
}
fn opaque(v: f64) -> f64 { f64::from_bits(u(v.to_bits(), v.to_bits())) }
fn depth(n: &[PNode]) -> usize { let mut st: Vec<usize> = vec![]; for q in n { match q { PNode::Op { arity, .. } => { let k = st.len() - *arity as usize; let d = 1 + st[k..].iter().max().unwrap(); st.truncate(k); st.push(d); } _ => st.push(1) } } st[0] }
fn base(e: &En) -> Option<f64> { if e.options().use_baseline { baseline_loss_from_zero_expression::<f64, UOps, 3>(e.dataset(), e.options().loss.as_ref()) } else { None } }
/// what must hold of an engine at any time
fn state(e: &En, d: &D, scored: bool) {
    let (o, bl) = (e.options(), base(e));
    hall(e.hall_of_fame(), d, o, bl);
    best(e.best(), e.hall_of_fame(), d, o, bl);
    let ps = e.verif_pops();
    check(ps.len() == o.populations, "every population is there");
    let mut ids: Vec<u64> = vec![];
    for (i, (q, id, birth)) in ps.iter().enumerate() {
        check(q.members.len() == o.population_size, "populations keep their size");
        for m in &q.members {
            if scored { truthful(m, d, o, bl); }
            check(m.id.0 < *id && m.id.0 >> 32 == i as u64 && m.birth < *birth, "ids and ages handed out so far, ids of its own population");
            ids.push(m.id.0);
        }
    }
    ids.sort();
    for w in ids.windows(2) { check(w[0] != w[1], "no two members share an id"); }
}
fn costs(e: &En) -> Vec<Option<f64>> { e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(|m| m.cost)).collect() }
fn improved(a: &[Option<f64>], e: &En) {
    for (k, m) in e.hall_of_fame().best_by_complexity.iter().enumerate() { if let Some(v) = a[k] { check(m.is_some(), "a filled slot stays filled"); check(!(v < m.as_ref().unwrap().cost), "a slot of the hall never gets worse"); } }
}
/// the statistics count every member of the population that had its turn, and everybody gets a turn per iteration
fn counted(e: &En, c: &Cf, done: usize, stat: &mut Vec<f64>, one: bool) {
    let f = &e.verif_stats().frequencies;
    check(f.len() == c.maxsize, "one count per size");
    let (mut all, mut exp) = (0.0, stat.clone());
    for v in f { all += v; }
    check(all == (c.maxsize + done * c.size) as f64, "every member is counted once per turn");
    if one && c.pops == 1 && !e.options().migration && !e.options().hof_migration { for m in &e.verif_pops()[0].0.members { exp[m.complexity - 1] += 1.0; } for k in 0..f.len() { check(f[k] == exp[k], "members are counted at their sizes"); } }
    *stat = f.clone();
    if done % c.pops == 0 && !e.options().migration && !e.options().hof_migration {
        let ps = e.verif_pops();
        let n = c.size + done / c.pops * c.cycles * if e.options().crossover_probability > 1.0 { 2 } else { 1 };
        for (i, q) in ps.iter().enumerate() { check(e.options().crossover_probability > 1.0 || q.1 == ((i as u64) << 32) + n as u64, "every population has had one turn per iteration"); }
    }
    if done == 1 { for (i, q) in e.verif_pops().iter().enumerate() { if q.1 > ((i as u64) << 32) + c.size as u64 { cover(20 + i as u64); } } }
}
/// where nothing but the score decides
fn nothing_lost(log: &Log, h: &HallOfFame<f64, UOps, 3>, o: &Opt) {
    for l in log.lock().unwrap().iter() {
        let k = loss_to_cost(*l, 1, o.parsimony, false, None);
        let mut kept = !k.is_finite() | !l.is_finite();
        for m in h.members() { kept |= !(k < m.cost); }
        check(kept, "nothing ever scored was better than everything in the hall");
    }
}
fn score_only() -> bool { p(7) & !0b110011001 == 0 }
/// stepping a search to its end
fn run(c: Cf, mut o: Opt, rows: usize, scored: bool, log: Log) {
    // nothing but the score decides
    let free = score_only();
    if free { o.parsimony = 0.0; }
    let d = set(rows);
    let total = c.iters * c.pops;
    let mut e = En::new(d.ds(), o);
    check(e.total_cycles() == total && e.cycles_completed() == 0 && e.is_finished() == (total == 0), "nothing done yet");
    check(e.total_evals() == (c.pops * c.size) as u64, "everyone is evaluated once at first");
    state(&e, &d, scored);
    let mut done = 0;
    let mut stat = e.verif_stats().frequencies.clone();
    while done < total {
        let n = conc(us(1, total + 1 - done));
        let (hc, bl, ev) = (costs(&e), e.best().loss, e.total_evals());
        let fit = depth(&e.best().expr.nodes) <= e.options().maxdepth;
        let k = e.step(n);
        check(k == n.min(total - done), "steps as far as asked and possible");
        done += k;
        check(e.cycles_completed() == done && e.is_finished() == (done == total) && e.total_cycles() == total, "cycles are counted");
        check(e.total_evals() >= ev + (k * c.size) as u64, "every cycle scores the population again");
        check(!(bl < e.best().loss) | !fit, "the best never gets worse");
        improved(&hc, &e);
        if k == 1 {
            let cap = get_cur_maxsize(e.options(), total, total - done + 1);
            for (i, m) in e.hall_of_fame().best_by_complexity.iter().enumerate() { if i > cap { check(m.is_some() == hc[i].is_some(), "nothing enters above the current size limit"); if let Some(m) = m { same(m.cost, hc[i].unwrap(), "nothing enters above the current size limit"); } } }
        }
        state(&e, &d, scored);
        if free { nothing_lost(&log, e.hall_of_fame(), e.options()); }
        counted(&e, &c, done, &mut stat, k == 1);
        cover(done as u64);
    }
    let (hc, ev) = (costs(&e), e.total_evals());
    check(e.step(3) == 0 && e.total_evals() == ev && e.cycles_completed() == total, "a finished search stays put");
    improved(&hc, &e);
    let (bl, bid) = (e.best().loss, e.best().id);
    let r = e.run_to_completion();
    same(r.best.loss, bl, "the result is the last state"); check(r.best.id == bid, "the result is the last state");
    for (k, m) in r.hall_of_fame.best_by_complexity.iter().enumerate() { check(m.is_some() == hc[k].is_some(), "the result is the last state"); if let Some(m) = m { same(m.cost, hc[k].unwrap(), "the result is the last state"); } }
}
fn conf() -> (Cf, Opt, usize, Log) {
    let c = Cf { pops: p(0), size: p(1), iters: p(2), cycles: p(3), kind: p(4), maxsize: p(5) };
    let log: Log = Default::default();
    let (mut o, fl) = (options(&c, &log), p(7));
    let on = |k: usize| fl >> k & 1 == 1;
    if on(0) { o.skip_mutation_failures = false; }
    if on(1) { o.annealing = true; }
    if on(2) { o.use_baseline = true; }
    if on(3) { o.migration = true; o.fraction_replaced = 0.5; }
    if on(4) { o.hof_migration = true; o.fraction_replaced_hof = 0.5; }
    if on(5) { o.batching = true; o.batch_size = 1; }
    if on(6) { o.should_optimize_constants = true; o.optimizer_nrestarts = 1; }
    if on(7) { o.should_simplify = true; }
    if on(8) { o.crossover_probability = 2.0; }
    if on(9) { o.use_frequency = true; o.use_frequency_in_tournament = true; }
    if on(10) { o.warmup_maxsize_by = 1.0; }
    if on(11) { o.maxdepth = 1; }
    if on(12) { o.loss = Arc::new(L(log.clone(), Some(Default::default()))); fastrand::float_choices(vec![0.3]); }
    if on(13) { fastrand::float_choices(vec![0.25, 0.75]); }
    fastrand::sticky(p(6) as u32, 200);
    fastrand::log_floats(); fastrand::float_cap(p(8));
    (c, o, if on(5) { 2 } else { 1 }, log)
}
#[no_mangle] pub extern "C" fn h_engine() { let (c, o, rows, log) = conf(); run(c, o, rows, true, log); }
/// the same seed gives the same search
#[no_mangle] pub extern "C" fn h_again() {
    let (c, mut o, rows, _) = conf();
    o.seed = u(0, u64::MAX);
    let d = set(rows);
    let other = o.clone();
    fastrand::seeds(); fastrand::record();
    let a = { let mut e = En::new(d.ds(), o); e.step(c.iters * c.pops); e };
    let s1 = fastrand::seeds();
    fastrand::rewind();
    let e = { let mut e = En::new(d.ds(), other.clone()); if b() { while !e.is_finished() { check(e.step(1) == 1, "one step at a time"); } } else { e.step(c.iters * c.pops + 5); } e };
    let s2 = fastrand::seeds();
    check(fastrand::tape_ok(), "the same draws are made");
    check(s1.len() == s2.len() && s1.len() >= c.pops, "the same generators");
    for i in 0..s1.len() { check(s1[i].is_some() && s1[i] == s2[i], "all randomness comes from the seed"); for j in 0..i { check(s1[i] != s1[j], "every generator has its own stream"); } }
    check(a.total_evals() == e.total_evals(), "the same number of evaluations");
    alike(a.best(), e.best());
    for (m, n) in a.hall_of_fame().best_by_complexity.iter().zip(&e.hall_of_fame().best_by_complexity) { check(m.is_some() == n.is_some(), "the same hall"); if let (Some(m), Some(n)) = (m, n) { alike(m, n); } }
    for (q, r) in a.verif_pops().iter().zip(e.verif_pops()) { check(q.1 == r.1 && q.2 == r.2, "the same ids"); for (m, n) in q.0.members.iter().zip(&r.0.members) { alike(m, n); } }
    cover(1);
}
fn alike(a: &M, b: &M) {
    check(a.id == b.id && a.parent == b.parent && a.birth == b.birth && a.complexity == b.complexity, "the same member");
    check(a.expr.nodes == b.expr.nodes && a.expr.consts.len() == b.expr.consts.len(), "the same expression");
    for (x, y) in a.expr.consts.iter().zip(&b.expr.consts) { same(*x, *y, "the same constants"); }
    same(a.loss, b.loss, "the same loss"); same(a.cost, b.cost, "the same cost");
}
/// whatever is random comes from the generator handed in
#[no_mangle] pub extern "C" fn h_given() {
    let (k, way) = (p(0), if p(1) > 0 { p(1) - 1 } else { conc(us(0, 9)) });
    fastrand::sticky(if way == 1 { 3 } else { 1 }, if way == 3 { 60 } else { 400 }); fastrand::log_floats(); fastrand::float_cap(if way == 9 { 200 } else { 12 });
    let mut o = options(&Cf { pops: 1, size: k, iters: 1, cycles: 1, kind: 0, maxsize: 3 * k }, &Default::default());
    o.operators = Operators::<3>::from_names::<UOps>(&["ua", "ba"]).unwrap(); o.tournament_selection_n = 2; o.tournament_selection_p = 0.5;
    let rows = if way == 2 || way == 3 { 1 } else { k };
    let x: Vec<f64> = (0..rows).map(|i| i as f64).collect();
    let d = Dataset::new(Array2::from_shape_vec((1, rows), x.clone()).unwrap(), Array1::from_vec(x));
    // a chain of binary operators over variables and constants
    let (mut n, mut cs) = (vec![PNode::Var { feature: 0 }], vec![]);
    for i in 0..k / 2 { n.push(if i % 2 == 0 { cs.push(opaque(i as f64 + 1.0)); PNode::Const { idx: cs.len() as u16 - 1 } } else { PNode::Var { feature: 0 } }); n.push(PNode::Op { arity: 2, op: 0 }); }
    let e = UE::new(n, cs, Default::default());
    let ms: Vec<M> = (0..k as u64).map(|i| { let mut m = M::from_expr(MemberId(i), None, i, UE::new(vec![PNode::Var { feature: 0 }], vec![], Default::default()), 1); m.complexity = 1; m.loss = i as f64; m.cost = i as f64; m }).collect();
    fastrand::seeds();
    let r = &mut fastrand::Rng::with_seed(7);
    let (mut id, mut birth) = (100u64, 100u64);
    match way {
        0 => { let mut q = Population::new(ms[..3].to_vec()); migrate_into(&mut q, &ms, 0.5, r, &mut id, &mut birth); }
        1 => { let mut st = RunningSearchStatistics::new(3 * k, 100); st.normalize(); let q = Population::new(ms); let _ = best_of_sample(r, &q, &st, &o); }
        2 | 3 => {
            let mut m = M::from_expr(MemberId(1), None, 1, UE::new(e.nodes.clone(), e.consts.clone(), Default::default()), 1); m.complexity = e.nodes.len(); m.loss = opaque(3.0); m.cost = opaque(3.0);
            let (mut ev, mut g) = (Evaluator::new(1), GradContext::new(1));
            o.optimizer_nrestarts = 1; o.optimizer_iterations = 0; o.should_optimize_constants = true;
            if way == 2 { let _ = optimize_constants(r, &mut m, OptimizeConstantsCtx { dataset: TaggedDataset::new(&d, None), options: &o, evaluator: &mut ev, grad_ctx: &mut g, next_birth: &mut birth }); }
            else { o.mutation_weights = weights(conc(us(0, 4))); let st = RunningSearchStatistics::new(3 * k, 100); let _ = next_generation(&m, NextGenerationCtx { rng: r, dataset: TaggedDataset::new(&d, None), temperature: 1.0, curmaxsize: 3 * k, stats: &st, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData }); }
        }
        4 => { let mut b = Dataset::make_batch_buffer(&d, k - 2); b.resample_from(&d, r); }
        5 => { let _ = crossover_trees(r, &e, &e); }
        6 => { let (mut a, mut b) = (e.clone(), e.clone()); swap_operands(r, &mut a); rotate_tree_in_place(r, &mut b); }
        7 => { let (mut a, mut b) = (e.clone(), e.clone()); add_node(r, &mut a, &o.operators, k); insert_random_op_in_place(r, &mut b, &o.operators, k); delete_random_op(r, &mut a); }
        8 => { let mut a = e.clone(); mutate_operator(r, &mut a, &o.operators); mutate_feature(r, &mut a, k); mutate_constant(r, &mut a, 0.5, &o); }
        _ => { let _ = random_expr::<f64, UOps, 3>(r, &o.operators, k, k.min(6)); let _ = random_expr_append_ops::<f64, UOps, 3>(r, &o.operators, k, 3, 3 * k); }
    }
    check(fastrand::seeds() == [Some(7)], "all randomness comes from the generator handed in");
    cover(way as u64);
}
/// another seed drives other streams
#[no_mangle] pub extern "C" fn h_seed() {
    let (_, o, rows, _) = conf();
    let d = set(rows);
    let s: Vec<u64> = (0..2).map(|_| u(0, u64::MAX)).collect(); assume(s[0] != s[1]);
    let mut r: Vec<Vec<Option<u64>>> = vec![];
    fastrand::record();
    for k in 0..2 { let mut q = o.clone(); q.seed = s[k]; fastrand::seeds(); if k == 1 { fastrand::rewind(); } let _ = En::new(d.ds(), q); r.push(fastrand::seeds()); }
    check(r[0].len() == r[1].len(), "as many generators");
    for (a, b) in r[0].iter().zip(&r[1]) { check(a.is_some() && a != b, "another seed, another stream"); }
    cover(1);
}
/// who migrates where
#[no_mangle] pub extern "C" fn h_route() {
    let (n, way) = (p(0), conc(us(0, 3)));
    let c = Cf { pops: n, size: 1, iters: 1, cycles: 1, kind: 0, maxsize: 3 };
    let mut o = options(&c, &Default::default());
    o.migration = way != 1; o.hof_migration = way != 0; o.fraction_replaced = if way == 3 { 0.0 } else { 0.5 }; o.fraction_replaced_hof = if way == 2 { 0.0 } else { 0.5 };
    fastrand::sticky(p(1) as u32, 60); fastrand::log_floats(); fastrand::float_cap(p(2));
    let d = set(1);
    let mut e = En::new(d.ds(), o);
    fastrand::sticky(p(1) as u32, 60);
    let before: Vec<M> = e.verif_pops().iter().map(|q| q.0.members[0].clone()).collect();
    e.step(1);
    let front: Vec<M> = e.hall_of_fame().pareto_front();
    let turn: Vec<usize> = (0..n).filter(|&i| e.verif_pops()[i].1 != ((i as u64) << 32) + 1).collect();
    check(turn.len() == 1, "one population at a time");
    let t = turn[0];
    for (i, q) in e.verif_pops().iter().enumerate() {
        let m = &q.0.members[0];
        if i != t { alike(m, &before[i]); continue; }
        if m.id.0 & 0xffff_ffff < 2 { cover(10 + way as u64); continue; }
        let from = m.parent.unwrap();
        let src = if way == 0 || way == 2 { let k = (from.0 >> 32) as usize; check(k < n && k != t, "migrants come from the other populations"); &before[k] }
            else { let k = front.iter().position(|f| f.id == from); check(k.is_some(), "migrants come from the front of the hall"); &front[k.unwrap()] };
        check(src.id == from && m.expr.nodes == src.expr.nodes, "migrants are copies"); same(m.loss, src.loss, "migrants keep their scores"); same(m.cost, src.cost, "migrants keep their scores");
        cover(way as u64);
    }
}
/// the temperatures of one iteration
#[no_mangle] pub extern "C" fn h_anneal() {
    let n = conc(us(1, p(1)));
    let c = Cf { pops: 1, size: 1, iters: 1, cycles: n, kind: 0, maxsize: 3 };
    let mut o = options(&c, &Default::default());
    o.skip_mutation_failures = false; o.annealing = conc(us(0, 1)) == 1; o.alpha = 3.0; o.parsimony = 0.0;
    let d = set(1); let ds = d.ds();
    let mut m = M::from_expr(MemberId(3), None, 1, UE::new(vec![PNode::Var { feature: 0 }, PNode::Op { arity: 1, op: 0 }], vec![], Default::default()), 1);
    m.complexity = 2; m.loss = f(); m.cost = f(); assume(!m.cost.is_nan());
    let mut q = Population::new(vec![m.clone()]);
    let mut fin = true; let l = loss_of(&[ref_eval(&m.expr.nodes, &[], &|_| d.x[0], &mut fin)], &d.y); fin &= l.is_finite();
    let l = loss_to_cost(l, 2, opaque(0.0), false, None);  fin &= l.is_finite();
    let st = RunningSearchStatistics::new(3, 100);
    let (mut id, mut birth) = (40u64, 50u64); let mut ev = Evaluator::new(1); let mut g = GradContext::new(1);
    fastrand::sticky(6, 60); fastrand::log_floats();
    let (_, seen) = s_r_cycle(&mut q, &mut IterationCtx { rng: &mut fastrand::Rng::new(), full_dataset: TaggedDataset::new(&ds, None), curmaxsize: 3, stats: &st, options: &o, evaluator: &mut ev, grad_ctx: &mut g, next_id: &mut id, next_birth: &mut birth, _ops: std::marker::PhantomData }, TaggedDataset::new(&ds, None));
    check(id == 40 + n as u64, "one attempt per cycle");
    if !(fin && l.is_finite()) { same(q.members[0].cost, m.cost, "refused"); return; }
    let fl = fastrand::floats();
    if !o.annealing { same(q.members[0].cost, l, "accepted"); cover(1); return; }
    check(fl.len() % n == 0, "the same draws in every cycle");
    let per = fl.len() / n;
    let mut cur = m.cost;
    for i in 0..n {
        let t = if n == 1 { 1.0 } else { 1.0 - i as f64 / (n - 1) as f64 };
        let r = fl[per * (i + 1) - 1];
        if !((-(l - cur) / (opaque(t) * o.alpha)).exp() < r) { cur = l; }
    }
    same(q.members[0].cost, cur, "accepted as the temperature of its cycle says");
    let s = seen.best_by_complexity[2].as_ref();
    check(s.is_some() && !(cur < s.unwrap().cost) && !(m.cost < s.unwrap().cost), "the best seen is remembered");
    cover(1 + n as u64);
}
/// a parallel search, any order of completion
#[no_mangle] pub extern "C" fn h_parallel() {
    let (c, mut o, rows, log) = conf();
    if score_only() { o.parsimony = 0.0; }
    let d = set(rows);
    let threads = conc(us(1, p(9)));
    let inside = threads > 1 && p(10) == 1;
    rayon::pool(threads, c.pops, inside);
    if threads > 1 { let r = equation_search::<f64, UOps, 3>(&d.ds(), &o); if score_only() { nothing_lost(&log, &r.hall_of_fame, &o); } hall(&r.hall_of_fame, &d, &o, None); best(&r.best, &r.hall_of_fame, &d, &o, None); cover(threads as u64); return; }
    // a single worker does the same as stepping
    fastrand::record();
    let mut e = En::new(d.ds(), o.clone()); e.step(c.iters * c.pops);
    fastrand::rewind();
    let r = equation_search::<f64, UOps, 3>(&d.ds(), &o);
    check(fastrand::tape_ok(), "the same draws are made");
    alike(&r.best, e.best());
    for (m, n) in r.hall_of_fame.best_by_complexity.iter().zip(&e.hall_of_fame().best_by_complexity) { check(m.is_some() == n.is_some(), "the same hall"); if let (Some(m), Some(n)) = (m, n) { alike(m, n); } }
    cover(1);
}
harnesses!(h_given, h_route, h_parallel, h_anneal, h_engine, h_again, h_seed);
