//! C09: operator tokens resolve to exactly the operators they name; selections hold exactly what was asked for.
use dynamic_expressions::*;
use dynamic_expressions::operator_enum::presets::BuiltinOpsF64;
use symbolic_regression::operators::{OperatorSelectError, Operators};
use h::rt::*;
use h::harnesses;
dynamic_expressions::custom_opset! {
    pub struct LOps<f64> {
        1 {
            ab { eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            Ng { display: "-n", infix: "-", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            dup { eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
        2 {
            sb { infix: "-", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            d2 { display: "dup", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            Xy { display: "sb", infix: "+", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
        3 {
            t3 { display: "q3", infix: "ab", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
    }
}
const TABLE: [(u8, u16, &str, &str, &str); 7] = [(1, 0, "ab", "ab", ""), (1, 1, "Ng", "-n", "-"), (1, 2, "dup", "dup", ""), (2, 0, "sb", "sb", "-"), (2, 1, "d2", "dup", ""), (2, 2, "Xy", "sb", "+"), (3, 0, "t3", "q3", "ab")];
fn low(b: u8) -> u8 { if b.is_ascii_uppercase() { b + 32 } else { b } }
fn eq_nocase(a: &[u8], c: &[u8]) -> bool { a.len() == c.len() && a.iter().zip(c).all(|(x, y)| low(*x) == low(*y)) }
fn trim(mut t: &[u8]) -> &[u8] {
    let ws = |c: u8| matches!(c, 9..=13 | 32);
    while !t.is_empty() && ws(t[0]) { t = &t[1..]; }
    while !t.is_empty() && ws(t[t.len() - 1]) { t = &t[..t.len() - 1]; }
    t
}
fn matches(t: &[u8], k: usize) -> bool { let t = trim(t); let (_, _, n, d, i) = TABLE[k]; eq_nocase(t, n.as_bytes()) || t == d.as_bytes() || (!i.is_empty() && t == i.as_bytes()) }
fn id(k: usize) -> OpId { OpId { arity: TABLE[k].0, id: TABLE[k].1 } }
fn agree(r: Result<OpId, LookupError>, want: &[usize], trimmed: &str) { match r {
    Ok(o) => { cover(1); check(want.len() == 1 && o == id(want[0]), "the one operator the token names"); }
    Err(LookupError::Unknown(s)) => { cover(2); check(want.is_empty(), "unknown only if nothing matches"); check(s == trimmed, "error names the token"); }
    Err(LookupError::Ambiguous { token, candidates }) => {
        cover(3); check(want.len() > 1, "ambiguous only if several match"); check(token == trimmed, "error names the token");
        let names: Vec<&str> = want.iter().map(|&k| TABLE[k].2).collect(); check(candidates == names, "and lists the candidates");
    }
} }
/// every ASCII token
#[no_mangle] pub extern "C" fn h_lookup() {
    let n = conc(us(0, p(0)));
    let bytes: Vec<u8> = (0..n).map(|_| u(0, 127) as u8).collect();
    let tok = std::str::from_utf8(&bytes).unwrap();
    let all: Vec<usize> = (0..7).filter(|&k| matches(&bytes, k)).collect();
    let trimmed = std::str::from_utf8(trim(&bytes)).unwrap();
    let got = LOps::lookup_all(tok);
    check(got.len() == all.len() && got.iter().zip(&all).all(|(g, k)| *g == id(*k)), "exactly the matching operators");
    agree(LOps::lookup(tok), &all, trimmed);
    let ar = conc(us(1, 4)) as u8;
    let of: Vec<usize> = all.iter().copied().filter(|&k| TABLE[k].0 == ar).collect();
    agree(LOps::lookup_with_arity(tok, ar), &of, trimmed);
}
const TOKS: [&str; 10] = ["ab", "-", "dup", "-n", "SB", "D2", "+", "T3", " xy ", "nope"];
fn which(t: &str, ar: Option<u8>) -> Vec<usize> { (0..7).filter(|&k| matches(t.as_bytes(), k) && ar.is_none_or(|a| a == TABLE[k].0)).collect() }
fn same_set<const D: usize>(r: &Operators<D>, want: &[usize]) {
    for a in 1..=D {
        let w: Vec<OpId> = want.iter().map(|&k| id(k)).filter(|o| o.arity as usize == a).collect();
        check(r.nops(a) == w.len() && r.ops_by_arity[a - 1] == w, "exactly the requested operators, by arity, in order");
    }
    check(r.total_ops_up_to(9) == want.len() && r.total_ops_up_to(1) == want.iter().filter(|&&k| TABLE[k].0 == 1).count(), "totals");
}
/// what goes wrong first, scanning in order
fn expect(list: &[(&str, Option<u8>)], d: usize) -> (Vec<usize>, Option<u8>) {
    let mut ok: Vec<usize> = vec![];
    for (t, ar) in list {
        let m = which(t, *ar);
        if m.len() != 1 { return (ok, Some(1)); }
        if TABLE[m[0]].0 as usize > d { return (ok, Some(2)); }
        if ok.contains(&m[0]) { return (ok, Some(3)); }
        ok.push(m[0]);
    }
    (ok, None)
}
fn verdict<const D: usize>(r: Result<Operators<D>, OperatorSelectError>, list: &[(&str, Option<u8>)]) {
    if list.is_empty() { check(matches!(r, Err(OperatorSelectError::Empty)), "empty selection is an error"); cover(10); return; }
    let (want, err) = expect(list, D);
    match r {
        Ok(o) => { check(err.is_none(), "selection accepted only if every token is usable"); same_set(&o, &want); cover(11); }
        Err(OperatorSelectError::Lookup(_)) => { check(err == Some(1), "lookup error"); cover(12); }
        Err(OperatorSelectError::ArityTooLarge { .. }) => { check(err == Some(2), "arity too large"); cover(13); }
        Err(OperatorSelectError::Duplicate(_)) => { check(err == Some(3), "duplicate"); cover(14); }
        Err(_) => check(false, "unexpected error"),
    }
}
#[no_mangle] pub extern "C" fn h_select() {
    let n = conc(us(0, p(0)));
    let v: Vec<&str> = (0..n).map(|_| TOKS[conc(us(0, 9))]).collect();
    let l: Vec<(&str, Option<u8>)> = v.iter().map(|t| (*t, None)).collect();
    if b() { verdict(Operators::<3>::from_names::<LOps>(&v), &l) } else { verdict(Operators::<2>::from_names::<LOps>(&v), &l) }
}
#[no_mangle] pub extern "C" fn h_select_by_arity() {
    let mut g: [Vec<&str>; 3] = [vec![], vec![], vec![]];
    for _ in 0..conc(us(0, p(0))) { g[conc(us(0, 2))].push(TOKS[conc(us(0, 9))]); }
    let mut l: Vec<(&str, Option<u8>)> = vec![];
    for a in 0..3u8 { for t in &g[a as usize] { l.push((t, Some(a + 1))); } }
    if b() { verdict(Operators::<3>::from_names_by_arity::<LOps>(&g[0], &g[1], &g[2]), &l) } else { verdict(Operators::<2>::from_names_by_arity::<LOps>(&g[0], &g[1], &g[2]), &l) }
}
/// drawing an operator yields an enabled one, each of them possible, never above the requested arity
#[no_mangle] pub extern "C" fn h_sample() {
    let mut o = Operators::<3>::new();
    let mut n = [0usize; 3];
    for a in 1..=3u8 { let k = conc(us(0, 2)); n[a as usize - 1] = k; for i in 0..k { o.push(OpId { arity: a, id: 10 * a as u16 + i as u16 }); } }
    let cap = conc(us(1, 4)); let tot: usize = n.iter().take(cap.min(3)).sum();
    if tot == 0 { reject(); }
    let mut rng = fastrand::Rng::with_seed(1);
    let a = o.sample_arity(&mut rng, cap);
    check(a >= 1 && a <= cap.min(3) && n[a - 1] > 0, "an arity that has operators, within the cap");
    let q = o.sample_op(&mut rng, a);
    check(q.arity as usize == a && o.ops_by_arity[a - 1].contains(&q), "an enabled operator of that arity"); cover(a as u64);
    // a single uniform draw over the operators within the cap reaches each of them equally often
    let mut cnt = [0usize; 4]; let mut ok = true;
    for v in 0..tot { fastrand::script(vec![(v as u64, tot as u64)]); let a = o.sample_arity(&mut rng, cap); ok &= fastrand::script_ok(); if a <= 3 { cnt[a] += 1; } }
    if ok { cover(4); for a in 1..=3usize { check(cnt[a] == if a <= cap { n[a - 1] } else { 0 }, "arities are drawn in proportion to their operators"); } }
    for a in 1..=cap.min(3) { if n[a - 1] == 0 { continue; }
        let mut seen = vec![]; let mut ok = true;
        for v in 0..n[a - 1] { fastrand::script(vec![(v as u64, n[a - 1] as u64)]); let q = o.sample_op(&mut rng, a); ok &= fastrand::script_ok(); if !seen.contains(&q) { seen.push(q); } }
        if ok { cover(5); check(seen.len() == n[a - 1], "every operator of the arity can be drawn"); }
    }
}
/// the built-in operators answer to their documented names
#[no_mangle] pub extern "C" fn h_builtin() {
    let ar = conc(us(1, 3)) as u8;
    let ids = BuiltinOpsF64::ops_with_arity(ar); let op = OpId { arity: ar, id: ids[conc(us(0, ids.len() - 1))] };
    let m = BuiltinOpsF64::meta(op).unwrap();
    check(m.id == op.id && m.arity == ar, "metadata belongs to the operator");
    let up = m.name.to_ascii_uppercase();
    check(matches!(BuiltinOpsF64::lookup(m.name), Ok(o) if o == op) && matches!(BuiltinOpsF64::lookup(&up), Ok(o) if o == op), "found by name");
    if let Some(i) = m.infix { check(matches!(BuiltinOpsF64::lookup_with_arity(i, ar), Ok(o) if o == op), "found by symbol and arity"); cover(1); }
    check(BuiltinOpsF64::meta(OpId { arity: ar, id: ids.len() as u16 }).is_none(), "no operator beyond the list"); cover(2);
}
harnesses!(h_lookup, h_select, h_select_by_arity, h_sample, h_builtin);
