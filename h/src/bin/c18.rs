//! C18: weighted draws and tournaments select what their rules say.
use dynamic_expressions::*;
use fastrand::Rng;
use h::common::*;
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{MemberId, Options, PopMember};
type M = PopMember<f64, UOps, 3>;
type Opt = Options<f64, 3>;
fn num() -> f64 { let v = f(); assume(!v.is_nan()); v }
fn member(k: u64) -> M {
    let mut m = M::from_expr(MemberId(k), Some(MemberId(1000 + k)), 2000 + k, UE::new(vec![PNode::Var { feature: k as u16 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: 0 }], vec![k as f64], Default::default()), 32);
    m.complexity = 1 + k as usize; m.loss = num(); m.cost = num(); m
}
/// never an item without weight (any rounding), for all weights that are numbers
#[no_mangle] pub extern "C" fn h_weight() {
    let n = conc(us(1, p(0)));
    let w: Vec<f64> = (0..n).map(|_| { let v = f(); assume(v >= 0.0); assume(v < 1e100); v }).collect();
    // some weight
    let k = conc(us(0, n - 1)); assume(w[k] > 0.0);
    may_panic(true); // uninterpreted sums may overflow; see h_split for the exact ranges
    let i = weighted_index(&mut Rng::new(), &w);
    may_panic(false);
    check(i < n, "one of the items");
    check(w[i] > 0.0, "an item of positive weight");
    cover(i as u64);
}
/// each item gets exactly its share of the unit interval
#[no_mangle] pub extern "C" fn h_split() {
    let n = conc(us(1, p(0)));
    real(true);
    let w: Vec<f64> = (0..n).map(|_| { let v = f(); assume(v >= 0.0); assume(v < 1e6); v }).collect();
    let k = conc(us(0, n - 1)); assume(w[k] > 0.0);
    fastrand::log_floats();
    let i = conc(weighted_index(&mut Rng::new(), &w));
    let d = fastrand::floats(); check(d.len() == 1, "one draw");
    let mut lo = 0.0; for j in 0..i { lo += w[j]; }
    let mut tot = lo; for j in i..n { tot += w[j]; }
    check(lo <= d[0] * tot, "not below its share"); check(d[0] * tot < lo + w[i], "not above its share");
    cover(i as u64);
}
/// no weight at all, or something that is no weight, is refused
#[no_mangle] pub extern "C" fn h_refuse() {
    let n = conc(us(0, p(0)));
    let bad = conc(us(0, 4));
    let mut w = vec![0.0; n];
    let k = if n > 0 { conc(us(0, n - 1)) } else { 0 };
    if n > 0 && bad > 0 { for x in w.iter_mut() { *x = f(); } }
    if n > 0 { match bad { 1 => w[k] = f64::NAN, 2 => { let v = f(); assume(v < 0.0); w[k] = v; } 3 => w[k] = f64::INFINITY, 4 => w[k] = f64::NEG_INFINITY, _ => {} } } else if bad > 0 { reject(); }
    may_panic(true);
    cover(1);
    weighted_index(&mut Rng::new(), &w);
    check(false, "refused");
}
fn copy(a: &M, b: &M) { check(a.id == b.id && a.birth == b.birth && a.parent == b.parent && a.complexity == b.complexity && a.expr.nodes == b.expr.nodes && a.expr.consts == b.expr.consts, "a copy of the member"); same(a.loss, b.loss, "its loss"); same(a.cost, b.cost, "its cost"); }
/// the winner of a tournament without chance: at least t-1 others are no better
#[no_mangle] pub extern "C" fn h_winner() {
    let n = conc(us(1, p(0))); let t = conc(us(1, n + 1));
    let mut o = Opt::default();
    o.tournament_selection_n = t; o.tournament_selection_p = 1.0; o.maxsize = conc(us(n - 1, n + 1)); o.adaptive_parsimony_scaling = f();
    o.use_frequency_in_tournament = b();
    let q = Population::new((0..n as u64).map(member).collect::<Vec<M>>());
    let mut st = RunningSearchStatistics::new(o.maxsize, 100);
    for v in st.normalized_frequencies.iter_mut() { *v = f(); }
    let adj: Vec<f64> = (0..n).map(|i| if o.use_frequency_in_tournament { let fr = if i < o.maxsize { st.normalized_frequencies[i] } else { 0.0 }; q.members[i].cost * (o.adaptive_parsimony_scaling * fr).exp() } else { q.members[i].cost }).collect();
    for a in &adj { assume(!a.is_nan()); }
    fastrand::sticky(8, 4);
    let m = best_of_sample(&mut Rng::new(), &q, &st, &o);
    let i = conc(m.id.0 as usize);
    copy(&m, &q.members[i]);
    let no_better = (0..n).map(|j| if j != i { (adj[i] <= adj[j]) as usize } else { 0 }).sum::<usize>();
    check(no_better + 1 >= t.min(n), "the best of enough competitors");
    if n == 3 && t == 2 { cover(10 + i as u64); }
    if n == 3 && t == 1 { cover(20 + i as u64); }
    // everybody but the winner can be the one who was not drawn
    if n == 3 && t == 2 && !o.use_frequency_in_tournament { for j in 0..3 { if j != i && adj[j] < adj[i] { cover(30 + j as u64); } } }
}
/// the place in the tournament follows the truncated geometric distribution
#[no_mangle] pub extern "C" fn h_place() {
    let n = conc(us(1, p(0)));
    let num = conc(us(1, 3)); let pr = num as f32 / 4.0;
    let mut o = Opt::default();
    o.tournament_selection_n = n; o.tournament_selection_p = pr; o.use_frequency_in_tournament = false;
    let q = Population::new((0..n as u64).map(member).collect::<Vec<M>>());
    let st = RunningSearchStatistics::new(5, 100);
    real(true);
    for i in 0..n { assume(q.members[i].cost.is_finite()); for j in 0..i { assume(q.members[i].cost != q.members[j].cost); } }
    fastrand::log_floats();
    let m = best_of_sample(&mut Rng::new(), &q, &st, &o);
    let i = conc(m.id.0 as usize);
    copy(&m, &q.members[i]);
    let d = fastrand::floats();
    if n == 1 { cover(1); return; }
    check(d.len() == 1, "one draw");
    let place = (0..n).filter(|&j| j != i && q.members[j].cost < q.members[i].cost).count();
    let pf = pr as f64; let w = |k: usize| { let mut c = pf; for _ in 0..k { c *= 1.0 - pf; } c };
    let mut lo = 0.0; for k in 0..place { lo += w(k); }
    let mut tot = 0.0; for k in 0..n { tot += w(k); }
    check(lo <= d[0] * tot, "no better place than drawn"); check(d[0] * tot < lo + w(place), "no worse place than drawn");
    cover(10 + place as u64);
}
harnesses!(h_weight, h_split, h_refuse, h_winner, h_place);
