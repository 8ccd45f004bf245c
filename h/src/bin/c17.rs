//! C17: migration moves copies of the best, under new identities, and touches nothing else.
use dynamic_expressions::*;
use fastrand::Rng;
use h::common::*;
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::*;
use symbolic_regression::{MemberId, PopMember};
type M = PopMember<f64, UOps, 3>;
fn num() -> f64 { let v = f(); assume(!v.is_nan()); v }
/// every member has an expression of its own
fn member(k: u64) -> M {
    let mut m = M::from_expr(MemberId(k), Some(MemberId(1000 + k)), 2000 + k, UE::new(vec![PNode::Var { feature: k as u16 }, PNode::Const { idx: 0 }, PNode::Op { arity: 2, op: 0 }], vec![k as f64], Default::default()), 32);
    m.complexity = 100 + k as usize; m.loss = num(); m.cost = num(); m
}
fn same_body(a: &M, b: &M) {
    check(a.expr.nodes == b.expr.nodes && a.expr.consts == b.expr.consts, "the same expression");
    same(a.loss, b.loss, "the same loss"); same(a.cost, b.cost, "the same cost"); check(a.complexity == b.complexity, "the same complexity");
    check(a.plan.hash == b.plan.hash && a.plan.n_slots == b.plan.n_slots && a.plan.instrs.len() == b.plan.instrs.len(), "the same plan");
}
#[no_mangle] pub extern "C" fn h_best() {
    let n = conc(us(0, p(0))); let k = conc(us(0, n + 1));
    let q = Population::new((0..n as u64).map(member).collect::<Vec<M>>());
    let r = best_sub_pop(&q, k);
    check(r.len() == k.min(n), "as many as asked for, or all");
    for i in 0..r.len() {
        for j in 0..i { check(r[i].id != r[j].id, "no member twice"); }
        if i > 0 { check(r[i - 1].cost <= r[i].cost, "in order of cost"); }
        let o = q.members.iter().find(|m| m.id == r[i].id); check(o.is_some(), "from the population");
        let o = o.unwrap(); same_body(&r[i], o); check(o.birth == r[i].birth && o.parent == r[i].parent, "an exact copy");
    }
    for m in &q.members { if !r.iter().any(|x| x.id == m.id) { for x in &r { check(x.cost <= m.cost, "nobody better is left out"); } cover(1); } }
    if k == n && n > 2 { cover(2); }
}
#[no_mangle] pub extern "C" fn h_migrate() {
    let n = conc(us(0, p(0))); let k = conc(us(0, p(1)));
    let before: Vec<M> = (0..n as u64).map(member).collect();
    let mig: Vec<M> = (0..k as u64).map(|i| member(10 + i)).collect();
    let mut q = Population::new(before.clone());
    let frac = match conc(us(0, 3)) { 0 => f64::INFINITY, 1 => f64::NAN, 2 => { let v = f(); assume(v <= 0.0); v } _ => { real(true); let v = f(); assume(v > 0.0); assume(v < 5.0); v } };
    let (mut id, mut birth) = (500u64, 900u64);
    fastrand::log_floats(); fastrand::float_cap(p(2));
    migrate_into(&mut q, &mig, frac, &mut Rng::new(), &mut id, &mut birth);
    let draws = fastrand::floats().len();
    check(q.members.len() == n, "the population keeps its size");
    let c = (id - 500) as usize;
    check(birth - 900 == id - 500, "as many ages as ids");
    check(c <= n && c <= k, "no more than there are places and migrants");
    if draws == 0 { check(c == 0, "nothing moves"); check(n == 0 || k == 0 || !(frac > 0.0) || !(frac < 5.0), "unless there is nothing to do"); cover(1); }
    else { check(c == (draws - 1).min(n).min(k), "as many as drawn"); }
    let mut newest = 0;
    for (i, m) in q.members.iter().enumerate() {
        if m.id.0 < 500 { check(m.id == before[i].id && m.birth == before[i].birth && m.parent == before[i].parent, "others keep their identity"); same_body(m, &before[i]); }
        else {
            check(m.id.0 < id && m.birth - 900 == m.id.0 - 500, "a new id with its age");
            let src = mig.iter().find(|s| Some(s.id) == m.parent); check(src.is_some(), "the migrant is its parent");
            same_body(m, src.unwrap());
            for (j, o) in q.members.iter().enumerate() { if j != i { check(o.id != m.id, "ids are unique"); } }
            newest = newest.max(m.id.0);
            if n == 2 && k == 1 { cover(30 + i as u64); }
            if n == 2 && k == 2 { cover(10 + i as u64); cover(20 + src.unwrap().id.0 - 10); }
        }
    }
    check(c == 0 || newest == id - 1, "the last arrival stays");
    if c > 1 { cover(2); }
}
/// Knuth's method for small means
#[no_mangle] pub extern "C" fn h_poisson() {
    let mean = f(); assume(!(mean >= 30.0) || mean.is_infinite());
    fastrand::log_floats(); fastrand::float_cap(p(0));
    let k = poisson_sample(&mut Rng::new(), mean);
    let d = fastrand::floats();
    if !(mean > 0.0) || mean.is_infinite() { check(k == 0 && d.is_empty(), "no event without a positive mean"); cover(1); return; }
    check(d.len() == k + 1, "one draw more than events");
    let lim = (-mean).exp(); let mut q = 1.0;
    for i in 0..k { q *= d[i]; check(q > lim, "not earlier"); }
    q *= d[k]; check(q <= lim, "when the product falls to exp(-mean)");
    if k == 0 { cover(2); } if k > 1 { cover(3); }
}
/// transformed rejection for large means (Hörmann's PTRS): any second draw, first draws from a list
#[no_mangle] pub extern "C" fn h_reject() {
    let mean = [30.0, 47.5, 300.0, 1e3][conc(us(0, p(0)))];
    fastrand::float_choices(vec![0.0, 0.005, 0.02, 0.06, 0.2, 0.5, 0.77, 0.96, 0.995]); fastrand::float_period(2);
    fastrand::log_floats(); fastrand::float_cap(p(1));
    let k = poisson_sample(&mut Rng::new(), mean);
    let d = fastrand::floats();
    check(d.len() % 2 == 0 && !d.is_empty(), "two draws per attempt");
    let b = 0.931 + 2.53 * mean.sqrt(); let a = -0.059 + 0.02483 * b;
    let (ia, vr) = (1.1239 + 1.1328 / (b - 3.4), 0.9277 - 3.6224 / (b - 2.0));
    let n = d.len() / 2;
    for i in 0..n {
        let (u, v) = (d[2 * i] - 0.5, d[2 * i + 1]); let us = 0.5 - u.abs(); let acc = i == n - 1;
        if us <= 0.0 { check(!acc, "nothing at the edge"); cover(1); continue; }
        let x = (2.0 * a / us + b) * u + mean + 0.43;
        if x < 0.0 { check(!acc, "no negative count"); cover(2); continue; }
        let j = x.floor();
        if acc { check(k as f64 == j, "the count of the accepted attempt"); }
        if us >= 0.07 && v < vr - 1e-9 { check(acc, "inside the squeeze"); cover(3); continue; }
        if us < 0.013 && v > us + 1e-9 { check(!acc, "outside the squeeze"); cover(4); continue; }
        if us < 0.013 && v > us { continue; }
        let mut lf = 0.0; let mut m = 2.0; while m <= j { lf += f64::ln(m); m += 1.0; }
        let (l, r) = ((v * ia / (a / (us * us) + b)).ln(), -mean + j * mean.ln() - lf);
        if us < 0.07 || v > vr + 1e-9 { if acc { check(l <= r + 1e-6, "accepted as the density says"); cover(5); } else { check(!(l < r - 1e-6), "refused as the density says"); cover(6); } }
    }
}
#[no_mangle] pub extern "C" fn h_shuffle() {
    let n = conc(us(0, p(0)));
    let mut v: Vec<usize> = (0..n).collect();
    shuffle(&mut Rng::new(), &mut v);
    for i in 0..n { v[i] = conc(v[i]); }
    check(v.len() == n, "as many");
    for i in 0..n { check(v.contains(&i), "a permutation"); }
    if n == 3 { cover(100 + (v[0] * 9 + v[1] * 3 + v[2]) as u64); }
}
harnesses!(h_best, h_migrate, h_poisson, h_reject, h_shuffle);
