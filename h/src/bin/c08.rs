//! C08: the text rendered for an expression denotes exactly that expression.
use dynamic_expressions::*;
use h::common::{decided, gen, Cfg};
use h::rt::*;
use h::harnesses;
use std::fmt;
dynamic_expressions::custom_opset! {
    pub struct TOps<f64> {
        1 {
            sq { eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            minus1 { display: "m", infix: "-", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            Disp { display: "D1", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
        2 {
            sub { infix: "-", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            plus { display: "P", infix: "+", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            max { eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
        3 {
            fma { eval(args) { args[0] }, partial(args, _i) { args[0] }, }
            semi { infix: "??", eval(args) { args[0] }, partial(args, _i) { args[0] }, }
        }
    }
}
/// a constant that prints one fixed token
#[derive(Clone, Copy)] struct K(u8);
impl fmt::Display for K { fn fmt(&self, o: &mut fmt::Formatter<'_>) -> fmt::Result { o.write_str(match self.0 { 0 => "-1.5", 1 => "2e-7", _ => "3" }) } }
type E = PostfixExpr<K, TOps, 3>;
fn tok(arity: u8, id: u16, pretty: bool) -> &'static str {
    match (arity, id, pretty) {
        (1, 0, _) => "sq", (1, 1, true) => "m", (1, 1, false) => "-", (1, 2, true) => "D1", (1, 2, false) => "Disp",
        (2, 0, true) => "sub", (2, 0, false) => "-", (2, 1, true) => "P", (2, 1, false) => "+", (2, 2, _) => "max",
        (3, 0, _) => "fma", (3, 1, true) => "semi", _ => "??",
    }
}
fn infix(arity: u8, id: u16) -> bool { matches!((arity, id), (2, 0) | (2, 1) | (3, 1)) }
/// reads rendered text back: whole := expr; expr := prim { ws OP ws prim } (one operator kind per level); prim := '(' expr ')' | name '(' expr, ... ')' | leaf
struct P<'a> { s: &'a [u8], i: usize, pretty: bool, names: &'a [&'a str] }
impl<'a> P<'a> {
    fn skip(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } }
    fn word(&mut self) -> &'a [u8] { let st = self.i; while self.i < self.s.len() && !matches!(self.s[self.i], b' ' | b'(' | b')' | b',') { self.i += 1; } &self.s[st..self.i] }
    fn expr(&mut self, out: &mut Vec<PNode>) -> Option<()> {
        self.prim(out)?;
        let mut n = 1; let mut o: Option<&[u8]> = None;
        loop {
            self.skip();
            if self.i >= self.s.len() || matches!(self.s[self.i], b')' | b',') { break; }
            let w = self.word(); if w.is_empty() { return None; }
            if let Some(p0) = o { if p0 != w { return None; } }
            o = Some(w); self.skip(); self.prim(out)?; n += 1;
        }
        if n == 1 { return Some(()); }
        for id in 0..3u16 { if (id as usize) < TOps::ops_with_arity(n).len() && infix(n, id) && tok(n, id, self.pretty).as_bytes() == o? { out.push(PNode::Op { arity: n, op: id }); return Some(()); } }
        None
    }
    fn prim(&mut self, out: &mut Vec<PNode>) -> Option<()> {
        self.skip();
        let w = self.word();
        if self.i < self.s.len() && self.s[self.i] == b'(' {
            self.i += 1;
            let mut n = 0u8;
            loop { self.expr(out)?; n += 1; self.skip(); if self.i >= self.s.len() { return None; } self.i += 1; match self.s[self.i - 1] { b',' => continue, b')' => break, _ => return None } }
            if w.is_empty() { return if n == 1 { Some(()) } else { None }; }
            if n > 3 { return None; }
            for id in 0..3u16 { if (id as usize) < TOps::ops_with_arity(n).len() && !infix(n, id) && tok(n, id, self.pretty).as_bytes() == w { out.push(PNode::Op { arity: n, op: id }); return Some(()); } }
            return None;
        }
        for (k, c) in ["-1.5", "2e-7", "3"].iter().enumerate() { if c.as_bytes() == w { out.push(PNode::Const { idx: k as u16 }); return Some(()); } }
        for (k, c) in self.names.iter().enumerate() { if c.as_bytes() == w { out.push(PNode::Var { feature: k as u16 }); return Some(()); } }
        None
    }
}
#[no_mangle] pub extern "C" fn h_roundtrip() {
    let t = decided(gen(Cfg { max: p(0), nf: 3, nc: 3, maxar: 3, ops: [0, 3, 3, 2] }));
    let pretty = b(); let src = conc(us(0, 3));
    names(t, pretty, if src & 1 == 1 { 3 } else { 0 }, if src & 2 == 2 { Some(2) } else { None });
    cover(src as u64);
}
/// names from the options win over the expression's own; missing ones fall back to x<k>
fn names(t: Vec<PNode>, pretty: bool, n_own: usize, n_given: Option<usize>) {
    let own: Vec<String> = ["own0", "own1", "own2"][..n_own].iter().map(|s| s.to_string()).collect();
    let given: Option<Vec<String>> = n_given.map(|n| ["a", "b_1", "c"][..n].iter().map(|s| s.to_string()).collect());
    let e = E::new(t.clone(), vec![K(0), K(1), K(2)], Metadata { variable_names: own.clone() });
    let s = string_tree(&e, StringTreeOptions { variable_names: given.as_deref(), pretty });
    let used: &[String] = match &given { Some(g) => g, None => &own };
    let names: Vec<&str> = (0..3).map(|k| if k < used.len() { used[k].as_str() } else { ["x0", "x1", "x2"][k] }).collect();
    let mut q = P { s: s.as_bytes(), i: 0, pretty, names: &names };
    let mut out = vec![];
    let ok = q.expr(&mut out);
    check(ok.is_some() && q.i == s.len(), "text can be read back");
    check(out == t, "and denotes the same expression");
    if n_own == 0 && n_given.is_none() && !pretty { cover(5); check(format!("{e}") == s, "Display is the default rendering"); }
    obs(s.len() as u64);
}
#[no_mangle] pub extern "C" fn h_names() {
    let t = decided(gen(Cfg { max: p(0), nf: 3, nc: 0, maxar: 2, ops: [0, 1, 1, 0] }));
    let g = if b() { Some(conc(us(0, 3))) } else { None };
    names(t, b(), conc(us(0, 3)), g); cover(1);
}
/// larger trees: every shape, pairwise different leaves, infix and function operators
#[no_mangle] pub extern "C" fn h_deep() {
    let t = gen(Cfg { max: p(0), nf: 1, nc: 0, maxar: 2, ops: [0, 1, 3, 0] });
    let mut k = 0u16;
    let t = decided(t).into_iter().map(|n| match n { PNode::Op { arity: 1, .. } => PNode::Op { arity: 1, op: 0 }, n @ PNode::Op { .. } => n, _ => { k += 1; if k % 3 == 0 { PNode::Const { idx: k % 2 } } else { PNode::Var { feature: k % 3 } } } }).collect();
    names(t, b(), 0, None); cover(1);
}
/// no two different expressions are rendered alike
#[no_mangle] pub extern "C" fn h_injective() {
    let c = Cfg { max: p(0), nf: 1, nc: 0, maxar: 3, ops: [0, 1, 2, 1] };
    let (a, d) = (decided(gen(c)), decided(gen(c)));
    let f = |t: &Vec<PNode>| string_tree(&E::new(t.clone(), vec![], Default::default()), StringTreeOptions::default());
    let (x, y) = (f(&a), f(&d));
    check((x == y) == (a == d), "same text only for the same expression"); cover((a == d) as u64);
}
/// much larger trees than those enumerated
#[no_mangle] pub extern "C" fn h_big() {
    let (t, _) = h::common::big_tree(p(0), 3, [0, 3, 3, 2]);
    names(h::common::leaves(t, 3, 3), b(), 0, None); cover(1);
}
harnesses!(h_big, h_roundtrip, h_names, h_deep, h_injective);
