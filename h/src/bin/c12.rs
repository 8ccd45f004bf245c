//! C12: the hall of fame keeps the best member per complexity; the Pareto front is exactly its non-dominated part.
use dynamic_expressions::*;
use h::common::*;
use h::rt::*;
use h::harnesses;
use symbolic_regression::{HallOfFame, MemberId, Options, PopMember};
type M = PopMember<f64, UOps, 3>;
/// a chain of n nodes
fn chain(n: usize) -> UE { let mut v = vec![PNode::Var { feature: 0 }]; for _ in 1..n { v.push(PNode::Op { arity: 1, op: 0 }); } UE::new(v, vec![], Default::default()) }
fn member(id: u64, n: usize, loss: f64, cost: f64) -> M { let mut m = M::from_expr(MemberId(id), None, id, chain(n), 1); m.complexity = n; m.loss = loss; m.cost = cost; m }
fn num() -> f64 { let v = f(); assume(!v.is_nan()); v }
/// any sequence of members: each slot ends up with a cheapest one, first come first kept
#[no_mangle] pub extern "C" fn h_consider() {
    let (k, cmax) = (p(0), p(1));
    let o = Options::<f64, 3> { maxdepth: conc(us(cmax - 1, cmax + 2)), ..Default::default() };
    let cap = conc(us(1, cmax));
    let mut hof = HallOfFame::<f64, UOps, 3>::new(cap);
    let mut hist: Vec<(usize, f64, bool)> = vec![];
    for i in 0..k {
        let n = conc(us(1, cmax)); let cost = num();
        let cur = conc(us(cmax - 1, cmax + 1));
        let m = member(i as u64, n, cost, cost);
        hist.push((n, cost, n <= cap && n <= cur && n <= o.maxdepth));
        if b() { hof.consider(&m, &o, cur) } else { hof.update_from_members(&[m], &o, cur) }
    }
    check(hof.best_by_complexity.len() == cap + 1, "one slot per complexity");
    for c in 0..=cap {
        let el: Vec<usize> = (0..k).filter(|&i| hist[i].0 == c && hist[i].2).collect();
        match &hof.best_by_complexity[c] {
            None => check(el.is_empty(), "no eligible member is lost"),
            Some(m) => {
                check(m.complexity == c && m.expr.nodes.len() == c, "stored under its complexity");
                let i = m.id.0 as usize;
                check(el.contains(&i), "only eligible members are stored");
                same(m.cost, hist[i].1, "stored unchanged");
                for &j in &el { check(m.cost <= hist[j].1, "no cheaper member of that complexity was ever offered"); if j < i { check(m.cost < hist[j].1, "an equal newcomer does not displace"); } }
                cover(1);
            }
        }
    }
    check(hof.members().count() == hof.best_by_complexity.iter().filter(|x| x.is_some()).count(), "members lists the filled slots");
}
/// the front is strictly improving and covers every member
#[no_mangle] pub extern "C" fn h_front() {
    let n = p(0);
    let mut hof = HallOfFame::<f64, UOps, 3>::new(n);
    let mut loss = vec![None; n + 1];
    for c in 1..=n { if b() { let l = num(); let m = member(c as u64, c, l, num()); hof.best_by_complexity[c] = Some(m); loss[c] = Some(l); } }
    let fr = hof.pareto_front();
    for (i, m) in fr.iter().enumerate() {
        let c = m.complexity;
        check(loss[c].is_some() && m.id.0 == c as u64, "front members come from the hall");
        if i > 0 { check(fr[i - 1].complexity < c && m.loss < fr[i - 1].loss, "more complex and strictly better than the one before"); cover(1); }
        for d in 1..c { if let Some(l) = loss[d] { check(m.loss < l, "not dominated by a simpler member"); } }
    }
    for c in 1..=n { if let Some(l) = loss[c] { if l < f64::INFINITY { check(fr.iter().any(|m| m.complexity <= c && m.loss <= l), "every member is matched by a front member no more complex and no worse"); cover(2); } } }
}
harnesses!(h_consider, h_front);
