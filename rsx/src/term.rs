//! Hash-consed term DAG over bit-vectors (width 1 = Bool) and floating-point operations.
//! Floating-point values are carried as their IEEE bit patterns (width 32/64).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt, Ite, Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FFloor, FCeil, FTrunc, FRint, FRound, FMa, FCopysign,
    FLt, FLe, FEq, FNan, FCall, SiToF, UiToF, FToSi, FToUi, FExt, FTr,
}
pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u16, pub aux: u32, pub args: [T; 3], pub na: u8, pub val: u128 }

#[derive(Clone)]
pub struct VarInfo { pub name: String, pub w: u16, pub is_f: bool, pub lo: u64, pub default: u128 }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    pub varsets: Vec<Rc<Vec<u32>>>,
    pub fnames: Vec<String>,
    pub empty: Rc<Vec<u32>>,
}
pub const UFVAR: u32 = u32::MAX;

static mut AR: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if AR.is_none() {
            AR = Some(Arena { nodes: vec![], map: HashMap::new(), vars: vec![], varsets: vec![], fnames: vec![], empty: Rc::new(vec![]) });
        }
        AR.as_mut().unwrap()
    }
}
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

fn is_uf(op: Op) -> bool { matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FMa | Op::FCall | Op::FTr | Op::FExt) }

fn mk(n: Node) -> T {
    let a = ar();
    if let Some(&t) = a.map.get(&n) { return t; }
    let id = a.nodes.len() as T;
    // variable set
    let vs = match n.op {
        Op::Const => a.empty.clone(),
        Op::Var => Rc::new(vec![n.aux]),
        _ => {
            let mut r: Rc<Vec<u32>> = a.varsets[n.args[0] as usize].clone();
            for i in 1..n.na as usize {
                let o = &a.varsets[n.args[i] as usize];
                if Rc::ptr_eq(o, &r) || o.is_empty() { continue; }
                if r.is_empty() { r = o.clone(); continue; }
                let mut m = Vec::with_capacity(r.len() + o.len());
                let (mut x, mut y) = (0, 0);
                while x < r.len() || y < o.len() {
                    if y >= o.len() || (x < r.len() && r[x] < o[y]) { m.push(r[x]); x += 1; }
                    else if x >= r.len() || o[y] < r[x] { m.push(o[y]); y += 1; }
                    else { m.push(r[x]); x += 1; y += 1; }
                }
                r = if m.len() == r.len() { r } else { Rc::new(m) };
            }
            if is_uf(n.op) && r.last() != Some(&UFVAR) { let mut m = (*r).clone(); m.push(UFVAR); r = Rc::new(m); }
            r
        }
    };
    a.varsets.push(vs);
    a.nodes.push(n.clone());
    a.map.insert(n, id);
    id
}
pub fn node(t: T) -> &'static Node { &ar().nodes[t as usize] }
pub fn width(t: T) -> u16 { node(t).w }
pub fn cst(v: u128, w: u16) -> T { mk(Node { op: Op::Const, w, aux: 0, args: [0; 3], na: 0, val: v & mask(w) }) }
pub fn tru() -> T { cst(1, 1) }
pub fn fls() -> T { cst(0, 1) }
pub fn new_var(name: String, w: u16, is_f: bool, default: u128) -> T {
    let a = ar();
    let i = a.vars.len() as u32;
    a.vars.push(VarInfo { name, w, is_f, lo: 0, default });
    mk(Node { op: Op::Var, w, aux: i, args: [0; 3], na: 0, val: 0 })
}
pub fn as_const(t: T) -> Option<u128> { let n = node(t); if n.op == Op::Const { Some(n.val) } else { None } }
pub fn fname(s: &str) -> u32 {
    let a = ar();
    if let Some(i) = a.fnames.iter().position(|x| x == s) { return i as u32; }
    a.fnames.push(s.to_string());
    a.fnames.len() as u32 - 1
}

fn f64v(v: u128) -> f64 { f64::from_bits(v as u64) }
fn f32v(v: u128) -> f32 { f32::from_bits(v as u32) }
pub fn call_math(name: &str, w: u16, x: u128, y: u128) -> u128 {
    macro_rules! go { ($x:expr,$y:expr,$t:ty) => {{
        let (x, y): ($t, $t) = ($x, $y);
        let r: $t = match name {
            "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(),
            "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(),
            "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(),
            "exp" => x.exp(), "exp2" => x.exp2(), "expm1" => x.exp_m1(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "log1p" => x.ln_1p(),
            "cbrt" => x.cbrt(), "pow" => x.powf(y), "atan2" => x.atan2(y), "hypot" => x.hypot(y),
            "powi" => x.powi(y.to_bits() as i32),
            _ => panic!("unknown math fn {}", name),
        };
        r
    }} }
    if w == 64 {
        if name == "powi" { return f64v(x).powi(y as u32 as i32).to_bits() as u128; }
        go!(f64v(x), f64v(y), f64).to_bits() as u128
    } else {
        if name == "powi" { return f32v(x).powi(y as u32 as i32).to_bits() as u128; }
        go!(f32v(x), f32v(y), f32).to_bits() as u128
    }
}

/// Concrete semantics of every operation (used for folding and for evaluating models).
pub fn eval_op(op: Op, w: u16, aux: u32, a: [u128; 3], aw: [u16; 3]) -> u128 {
    let m = mask(w);
    let fw = aw[0];
    macro_rules! f2 { ($f:expr, $g:expr) => { if fw == 64 { let f: fn(f64, f64) -> f64 = $f; f(f64v(a[0]), f64v(a[1])).to_bits() as u128 } else { let g: fn(f32, f32) -> f32 = $g; g(f32v(a[0]), f32v(a[1])).to_bits() as u128 } } }
    macro_rules! f1 { ($f:expr, $g:expr) => { if fw == 64 { let f: fn(f64) -> f64 = $f; f(f64v(a[0])).to_bits() as u128 } else { let g: fn(f32) -> f32 = $g; g(f32v(a[0])).to_bits() as u128 } } }
    macro_rules! fc { ($f:expr, $g:expr) => { if fw == 64 { let f: fn(f64, f64) -> bool = $f; f(f64v(a[0]), f64v(a[1])) as u128 } else { let g: fn(f32, f32) -> bool = $g; g(f32v(a[0]), f32v(a[1])) as u128 } } }
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => a[0].wrapping_add(a[1]) & m,
        Op::Sub => a[0].wrapping_sub(a[1]) & m,
        Op::Mul => a[0].wrapping_mul(a[1]) & m,
        Op::UDiv => if a[1] == 0 { m } else { a[0] / a[1] },
        Op::URem => if a[1] == 0 { a[0] } else { a[0] % a[1] },
        Op::SDiv => { let (x, y) = (sx(a[0], w), sx(a[1], w)); (if y == 0 { if x >= 0 { -1 } else { 1 } } else { x.wrapping_div(y) }) as u128 & m }
        Op::SRem => { let (x, y) = (sx(a[0], w), sx(a[1], w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m }
        Op::And => a[0] & a[1],
        Op::Or => a[0] | a[1],
        Op::Xor => a[0] ^ a[1],
        Op::Shl => if a[1] >= w as u128 { 0 } else { (a[0] << a[1]) & m },
        Op::LShr => if a[1] >= w as u128 { 0 } else { a[0] >> a[1] },
        Op::AShr => { let s = a[1].min(w as u128 - 1); ((sx(a[0], w) >> s) as u128) & m }
        Op::Concat => ((a[0] << aw[1]) | a[1]) & m,
        Op::Extract => (a[0] >> aux) & m,
        Op::ZExt => a[0],
        Op::SExt => sx(a[0], aw[0]) as u128 & m,
        Op::Ite => if a[0] != 0 { a[1] } else { a[2] },
        Op::Eq => (a[0] == a[1]) as u128,
        Op::Ult => (a[0] < a[1]) as u128,
        Op::Ule => (a[0] <= a[1]) as u128,
        Op::Slt => (sx(a[0], aw[0]) < sx(a[1], aw[0])) as u128,
        Op::Sle => (sx(a[0], aw[0]) <= sx(a[1], aw[0])) as u128,
        Op::FAdd => f2!(|x, y| x + y, |x, y| x + y),
        Op::FSub => f2!(|x, y| x - y, |x, y| x - y),
        Op::FMul => f2!(|x, y| x * y, |x, y| x * y),
        Op::FDiv => f2!(|x, y| x / y, |x, y| x / y),
        Op::FRem => f2!(|x, y| x % y, |x, y| x % y),
        Op::FNeg => a[0] ^ (1u128 << (w - 1)),
        Op::FAbs => a[0] & (mask(w - 1)),
        Op::FCopysign => (a[0] & mask(w - 1)) | (a[1] & (1u128 << (w - 1))),
        Op::FSqrt => f1!(|x| x.sqrt(), |x| x.sqrt()),
        Op::FFloor => f1!(|x| x.floor(), |x| x.floor()),
        Op::FCeil => f1!(|x| x.ceil(), |x| x.ceil()),
        Op::FTrunc => f1!(|x| x.trunc(), |x| x.trunc()),
        Op::FRint => f1!(|x| x.round_ties_even(), |x| x.round_ties_even()),
        Op::FRound => f1!(|x| x.round(), |x| x.round()),
        Op::FMa => if w == 64 { f64v(a[0]).mul_add(f64v(a[1]), f64v(a[2])).to_bits() as u128 } else { f32v(a[0]).mul_add(f32v(a[1]), f32v(a[2])).to_bits() as u128 },
        Op::FLt => fc!(|x, y| x < y, |x, y| x < y),
        Op::FLe => fc!(|x, y| x <= y, |x, y| x <= y),
        Op::FEq => fc!(|x, y| x == y, |x, y| x == y),
        Op::FNan => if fw == 64 { f64v(a[0]).is_nan() as u128 } else { f32v(a[0]).is_nan() as u128 },
        Op::FCall => call_math(&ar().fnames[aux as usize].clone(), w, a[0], a[1]),
        Op::SiToF => { let v = sx(a[0], aw[0]); if w == 64 { (v as f64).to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
        Op::UiToF => { if w == 64 { (a[0] as f64).to_bits() as u128 } else { (a[0] as f32).to_bits() as u128 } }
        Op::FToSi => { let x = if fw == 64 { f64v(a[0]) } else { f32v(a[0]) as f64 }; let v = x as i128; let lo = -(1i128 << (w - 1)); let hi = (1i128 << (w - 1)) - 1; (v.clamp(lo, hi) as u128) & m }
        Op::FToUi => { let x = if fw == 64 { f64v(a[0]) } else { f32v(a[0]) as f64 }; let v = x as u128; v.min(m) }
        Op::FExt => (f32v(a[0]) as f64).to_bits() as u128,
        Op::FTr => (f64v(a[0]) as f32).to_bits() as u128,
    }
}

pub fn not(t: T) -> T {
    let n = node(t);
    if n.op == Op::Xor && n.w == 1 { if as_const(n.args[1]) == Some(1) { return n.args[0]; } }
    app(Op::Xor, 1, 0, &[t, tru()])
}
pub fn and(a: T, b: T) -> T { app(Op::And, 1, 0, &[a, b]) }
pub fn or(a: T, b: T) -> T { app(Op::Or, 1, 0, &[a, b]) }
pub fn eq(a: T, b: T) -> T { app(Op::Eq, 1, 0, &[a, b]) }
pub fn ite(c: T, a: T, b: T) -> T { let w = width(a); app(Op::Ite, w, 0, &[c, a, b]) }
pub fn extract(t: T, lo: u16, w: u16) -> T { app(Op::Extract, w, lo as u32, &[t]) }
pub fn concat(hi: T, lo: T) -> T { let w = width(hi) + width(lo); app(Op::Concat, w, 0, &[hi, lo]) }
pub fn zext(t: T, w: u16) -> T { if width(t) == w { t } else { app(Op::ZExt, w, 0, &[t]) } }
fn is_not(t: T) -> Option<T> { let n = node(t); if n.op == Op::Xor && n.w == 1 && as_const(n.args[1]) == Some(1) { Some(n.args[0]) } else { None } }

/// Builds an application with simplification.
pub fn app(op: Op, w: u16, aux: u32, args: &[T]) -> T {
    let na = args.len();
    let mut a = [0u32; 3];
    a[..na].copy_from_slice(args);
    // constant folding
    if args.iter().all(|&t| node(t).op == Op::Const) {
        let mut v = [0u128; 3]; let mut aw = [0u16; 3];
        for i in 0..na { v[i] = node(a[i]).val; aw[i] = node(a[i]).w; }
        return cst(eval_op(op, w, aux, v, aw), w);
    }
    // exact floating-point normalisations (up to the sign/payload of NaN)
    let neg1 = if w == 64 { (-1.0f64).to_bits() as u128 } else { (-1.0f32).to_bits() as u128 };
    match op {
        Op::FSub => { let nb = app(Op::FNeg, w, 0, &[a[1]]); return app(Op::FAdd, w, 0, &[a[0], nb]); }
        Op::FMul | Op::FDiv => {
            let (n0, n1) = (node(a[0]), node(a[1]));
            match (n0.op == Op::FNeg, n1.op == Op::FNeg) {
                (true, true) => { let (x, y) = (n0.args[0], n1.args[0]); return app(op, w, 0, &[x, y]); }
                (true, false) => { let x = n0.args[0]; let r = app(op, w, 0, &[x, a[1]]); return app(Op::FNeg, w, 0, &[r]); }
                (false, true) => { let y = n1.args[0]; let r = app(op, w, 0, &[a[0], y]); return app(Op::FNeg, w, 0, &[r]); }
                _ => {}
            }
            let one = if w == 64 { 1.0f64.to_bits() as u128 } else { 1.0f32.to_bits() as u128 };
            if as_const(a[1]) == Some(one) { return a[0]; }
            if op == Op::FMul && as_const(a[0]) == Some(one) { return a[1]; }
            if as_const(a[1]) == Some(neg1) { return app(Op::FNeg, w, 0, &[a[0]]); }
            if op == Op::FMul && as_const(a[0]) == Some(neg1) { return app(Op::FNeg, w, 0, &[a[1]]); }
            let sign = 1u128 << (w - 1);
            if let Some(c) = as_const(a[1]) { if c & sign != 0 { let r = app(op, w, 0, &[a[0], cst(c ^ sign, w)]); return app(Op::FNeg, w, 0, &[r]); } }
            if let Some(c) = as_const(a[0]) { if c & sign != 0 { let r = app(op, w, 0, &[cst(c ^ sign, w), a[1]]); return app(Op::FNeg, w, 0, &[r]); } }
        }
        Op::FAdd => {
            let mz = 1u128 << (w - 1);
            if as_const(a[1]) == Some(mz) { return a[0]; }
            if as_const(a[0]) == Some(mz) { return a[1]; }
            if a[0] == a[1] { let two = if w == 64 { 2.0f64.to_bits() as u128 } else { 2.0f32.to_bits() as u128 }; return app(Op::FMul, w, 0, &[a[0], cst(two, w)]); }
        }
        _ => {}
    }
    // commutative normalisation: constants right, else by id
    match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq => {
            let (c0, c1) = (as_const(a[0]).is_some(), as_const(a[1]).is_some());
            if (c0 && !c1) || (c0 == c1 && a[0] > a[1]) { a.swap(0, 1); }
        }
        _ => {}
    }
    let c1 = if na > 1 { as_const(a[1]) } else { None };
    let m = mask(w);
    match op {
        Op::Add | Op::Sub => {
            if c1 == Some(0) { return a[0]; }
            if op == Op::Sub { if a[0] == a[1] { return cst(0, w); } if let Some(c) = c1 { return app(Op::Add, w, 0, &[a[0], cst(c.wrapping_neg(), w)]); } }
            if op == Op::Add { if let Some(c) = c1 { let n = node(a[0]); if n.op == Op::Add { if let Some(c2) = as_const(n.args[1]) { return app(Op::Add, w, 0, &[n.args[0], cst(c.wrapping_add(c2), w)]); } } } }
        }
        Op::Mul => { if c1 == Some(0) { return cst(0, w); } if c1 == Some(1) { return a[0]; }
            if let Some(c) = c1 { if c.is_power_of_two() { return app(Op::Shl, w, 0, &[a[0], cst(c.trailing_zeros() as u128, w)]); } } }
        Op::UDiv => { if c1 == Some(1) { return a[0]; } }
        Op::And => { if c1 == Some(0) { return cst(0, w); } if c1 == Some(m) || a[0] == a[1] { return a[0]; }
            if w == 1 { if is_not(a[0]) == Some(a[1]) || is_not(a[1]) == Some(a[0]) { return fls(); } }
            if let Some(c) = c1 { let n = node(a[0]); 
                if n.op == Op::ZExt { let iw = width(n.args[0]); if c & mask(iw) == mask(iw) { return a[0]; } 
                    return zext(app(Op::And, iw, 0, &[n.args[0], cst(c, iw)]), w); }
                if (c + 1).is_power_of_two() && c != 0 { let k = (c + 1).trailing_zeros() as u16; if k < w { return zext(extract(a[0], 0, k), w); } } }
        }
        Op::Or => { if c1 == Some(0) || a[0] == a[1] { return a[0]; } if c1 == Some(m) { return cst(m, w); }
            if w == 1 { if is_not(a[0]) == Some(a[1]) || is_not(a[1]) == Some(a[0]) { return tru(); } } }
        Op::Xor => { if c1 == Some(0) { return a[0]; } if a[0] == a[1] { return cst(0, w); }
            if w == 1 { if let Some(1) = c1 { if let Some(x) = is_not(a[0]) { return x; } } } }
        Op::Shl | Op::LShr | Op::AShr => {
            if c1 == Some(0) { return a[0]; }
            if let Some(c) = c1 {
                if c >= w as u128 { if op != Op::AShr { return cst(0, w); } }
                else if op == Op::LShr { let c = c as u16; return zext(extract(a[0], c, w - c), w); }
            }
        }
        Op::Extract => {
            let n = node(a[0]);
            if aux == 0 && w == n.w { return a[0]; }
            let (lo, hi) = (aux as u16, aux as u16 + w);
            match n.op {
                Op::Extract => return app(Op::Extract, w, aux + n.aux, &[n.args[0]]),
                Op::Concat => { let lw = width(n.args[1]);
                    if hi <= lw { return app(Op::Extract, w, aux, &[n.args[1]]); }
                    if lo >= lw { return app(Op::Extract, w, (lo - lw) as u32, &[n.args[0]]); }
                    return concat(extract(n.args[0], 0, hi - lw), extract(n.args[1], lo, lw - lo));
                }
                Op::ZExt => { let iw = width(n.args[0]);
                    if hi <= iw { return app(Op::Extract, w, aux, &[n.args[0]]); }
                    if lo >= iw { return cst(0, w); }
                    return zext(extract(n.args[0], lo, iw - lo), w);
                }
                Op::SExt => { let iw = width(n.args[0]); if hi <= iw { return app(Op::Extract, w, aux, &[n.args[0]]); } }
                Op::And | Op::Or | Op::Xor => { if lo == 0 || as_const(n.args[1]).is_some() { return app(n.op, w, 0, &[extract(n.args[0], lo, w), extract(n.args[1], lo, w)]); } }
                Op::Add | Op::Sub | Op::Mul if lo == 0 => return app(n.op, w, 0, &[extract(n.args[0], 0, w), extract(n.args[1], 0, w)]),
                Op::Ite => { if as_const(n.args[1]).is_some() || as_const(n.args[2]).is_some() || node(n.args[1]).op == Op::ZExt { return ite(n.args[0], extract(n.args[1], lo, w), extract(n.args[2], lo, w)); } }
                Op::Shl if lo == 0 => { if let Some(c) = as_const(n.args[1]) { if c < w as u128 { return app(Op::Shl, w, 0, &[extract(n.args[0], 0, w), cst(c, w)]); } else { return cst(0, w); } } }
                _ => {}
            }
        }
        Op::Concat => {
            if as_const(a[0]) == Some(0) { return zext(a[1], w); }
            let (h, l) = (node(a[0]), node(a[1]));
            if h.op == Op::Extract && l.op == Op::Extract && h.args[0] == l.args[0] && h.aux == l.aux + l.w as u32 { return app(Op::Extract, w, l.aux, &[l.args[0]]); }
            // concat(extract hi, concat(extract lo, rest))
            if h.op == Op::Extract && l.op == Op::Concat { let l0 = node(l.args[0]); if l0.op == Op::Extract && l0.args[0] == h.args[0] && h.aux == l0.aux + l0.w as u32 { return concat(extract(h.args[0], l0.aux as u16, h.w + l0.w), l.args[1]); } }
            if h.op == Op::ZExt { return zext(concat(h.args[0], a[1]), w); }
            if l.op == Op::Extract && h.op == Op::Concat { let h1 = node(h.args[1]); if h1.op == Op::Extract && h1.args[0] == l.args[0] && h1.aux == l.aux + l.w as u32 { return concat(h.args[0], extract(l.args[0], l.aux as u16, h1.w + l.w)); } }
        }
        Op::ZExt => { let n = node(a[0]); if n.op == Op::ZExt { return app(Op::ZExt, w, 0, &[n.args[0]]); }
            if n.op == Op::Ite && as_const(n.args[1]).is_some() && as_const(n.args[2]).is_some() { return ite(n.args[0], zext(n.args[1], w), zext(n.args[2], w)); } }
        Op::SExt => { let n = node(a[0]); if n.w == w { return a[0]; } if n.op == Op::ZExt && width(n.args[0]) < n.w { return app(Op::ZExt, w, 0, &[n.args[0]]); }
            if n.w == 1 { return ite(a[0], cst(m, w), cst(0, w)); } }
        Op::Ite => {
            if let Some(c) = as_const(a[0]) { return if c != 0 { a[1] } else { a[2] }; }
            if a[1] == a[2] { return a[1]; }
            if let Some(x) = is_not(a[0]) { return ite(x, a[2], a[1]); }
            if w == 1 {
                match (as_const(a[1]), as_const(a[2])) {
                    (Some(1), Some(0)) => return a[0],
                    (Some(0), Some(1)) => return not(a[0]),
                    (Some(1), None) => return or(a[0], a[2]),
                    (Some(0), None) => return and(not(a[0]), a[2]),
                    (None, Some(1)) => return or(not(a[0]), a[1]),
                    (None, Some(0)) => return and(a[0], a[1]),
                    _ => {}
                }
            }
            let n1 = node(a[1]); if n1.op == Op::Ite && n1.args[0] == a[0] { return ite(a[0], n1.args[1], a[2]); }
            let n2 = node(a[2]); if n2.op == Op::Ite && n2.args[0] == a[0] { return ite(a[0], a[1], n2.args[2]); }
        }
        Op::Eq => {
            if a[0] == a[1] { return tru(); }
            if width(a[0]) == 1 { match c1 { Some(1) => return a[0], Some(0) => return not(a[0]), _ => {} } }
            if let Some(c) = c1 {
                let n = node(a[0]);
                match n.op {
                    Op::ZExt => { let iw = width(n.args[0]); return if c & !mask(iw) != 0 { fls() } else { eq(n.args[0], cst(c, iw)) }; }
                    Op::Ite => { if as_const(n.args[1]).is_some() || as_const(n.args[2]).is_some() { return ite(n.args[0], eq(n.args[1], a[1]), eq(n.args[2], a[1])); } }
                    Op::Add => { if let Some(c2) = as_const(n.args[1]) { return eq(n.args[0], cst(c.wrapping_sub(c2), n.w)); } }
                    Op::Xor => { if let Some(c2) = as_const(n.args[1]) { return eq(n.args[0], cst(c ^ c2, n.w)); } }
                    Op::Concat => { let lw = width(n.args[1]); let hw = width(n.args[0]); return and(eq(n.args[0], cst(c >> lw, hw)), eq(n.args[1], cst(c, lw))); }
                    _ => {}
                }
            } else {
                let (n0, n1) = (node(a[0]), node(a[1]));
                if n0.op == Op::ZExt && n1.op == Op::ZExt && width(n0.args[0]) == width(n1.args[0]) { return eq(n0.args[0], n1.args[0]); }
                if n0.op == Op::ZExt && n1.op == Op::ZExt { let mw = width(n0.args[0]).max(width(n1.args[0])); if mw < n0.w { return eq(zext(n0.args[0], mw), zext(n1.args[0], mw)); } }
            }
        }
        Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
            let c0 = as_const(a[0]);
            if a[0] == a[1] { return if op == Op::Ule || op == Op::Sle { tru() } else { fls() }; }
            let aw = width(a[0]);
            if op == Op::Ult && c1 == Some(0) { return fls(); }
            if op == Op::Ule && c0 == Some(0) { return tru(); }
            if op == Op::Ule && c1 == Some(mask(aw)) { return tru(); }
            if op == Op::Ult && c1 == Some(1) { return eq(a[0], cst(0, aw)); }
            if op == Op::Ult && c0 == Some(0) { return not(eq(a[1], cst(0, aw))); }
            // zext narrowing
            let (n0, n1) = (node(a[0]), node(a[1]));
            let uop = match op { Op::Slt => Op::Ult, Op::Sle => Op::Ule, o => o };
            let zx = |n: &Node| n.op == Op::ZExt && width(n.args[0]) < n.w;
            if zx(n0) && zx(n1) { let mw = width(n0.args[0]).max(width(n1.args[0])); if mw < aw { return app(uop, 1, 0, &[zext(n0.args[0], mw), zext(n1.args[0], mw)]); } }
            if zx(n0) { if let Some(c) = c1 { let iw = width(n0.args[0]);
                let neg = (op == Op::Slt || op == Op::Sle) && sx(c, aw) < 0;
                if neg { return fls(); }
                if c > mask(iw) { return tru(); }
                return app(uop, 1, 0, &[n0.args[0], cst(c, iw)]); } }
            if zx(n1) { if let Some(c) = c0 { let iw = width(n1.args[0]);
                let neg = (op == Op::Slt || op == Op::Sle) && sx(c, aw) < 0;
                if neg { return tru(); }
                if c > mask(iw) { return fls(); }
                return app(uop, 1, 0, &[cst(c, iw), n1.args[0]]); } }
            if n0.op == Op::Ite && c1.is_some() && (as_const(n0.args[1]).is_some() || as_const(n0.args[2]).is_some()) { return ite(n0.args[0], app(op, 1, 0, &[n0.args[1], a[1]]), app(op, 1, 0, &[n0.args[2], a[1]])); }
            if n1.op == Op::Ite && c0.is_some() && (as_const(n1.args[1]).is_some() || as_const(n1.args[2]).is_some()) { return ite(n1.args[0], app(op, 1, 0, &[a[0], n1.args[1]]), app(op, 1, 0, &[a[0], n1.args[2]])); }
        }
        Op::FNeg => { let n = node(a[0]); if n.op == Op::FNeg { return n.args[0]; } }
        Op::FAbs => { let n = node(a[0]); if n.op == Op::FNeg || n.op == Op::FAbs { return app(Op::FAbs, w, 0, &[n.args[0]]); } }
        Op::FLt => { if a[0] == a[1] { return fls(); } }
        Op::FNan => { let n = node(a[0]); if matches!(n.op, Op::FNeg | Op::FAbs) { return app(Op::FNan, 1, 0, &[n.args[0]]); } if matches!(n.op, Op::SiToF | Op::UiToF) { return fls(); } }
        Op::FMul => { // exact: x * 1.0 == x (up to NaN payload)
            let one = if w == 64 { 1.0f64.to_bits() as u128 } else { 1.0f32.to_bits() as u128 };
            if c1 == Some(one) { return a[0]; } }
        Op::FDiv => { let one = if w == 64 { 1.0f64.to_bits() as u128 } else { 1.0f32.to_bits() as u128 };
            if c1 == Some(one) { return a[0]; } }
        _ => {}
    }
    mk(Node { op, w, aux, args: a, na: na as u8, val: 0 })
}

/// Evaluate a term with true semantics under an assignment of the variables.
pub fn eval(t: T, model: &[Option<u128>], memo: &mut HashMap<T, u128>) -> u128 {
    let n = node(t);
    match n.op {
        Op::Const => return n.val,
        Op::Var => return model.get(n.aux as usize).copied().flatten().unwrap_or(ar().vars[n.aux as usize].default),
        _ => {}
    }
    if let Some(&v) = memo.get(&t) { return v; }
    // iterative to survive deep DAGs
    let mut st = vec![t];
    while let Some(&x) = st.last() {
        if memo.contains_key(&x) { st.pop(); continue; }
        let n = node(x);
        let mut ready = true;
        let mut v = [0u128; 3]; let mut aw = [0u16; 3];
        for i in 0..n.na as usize {
            let c = n.args[i]; let cn = node(c);
            aw[i] = cn.w;
            match cn.op {
                Op::Const => v[i] = cn.val,
                Op::Var => v[i] = model.get(cn.aux as usize).copied().flatten().unwrap_or(ar().vars[cn.aux as usize].default),
                _ => match memo.get(&c) { Some(&y) => v[i] = y, None => { st.push(c); ready = false; } },
            }
        }
        if ready { let r = eval_op(n.op, n.w, n.aux, v, aw); memo.insert(x, r); st.pop(); }
    }
    memo[&t]
}

pub fn show(t: T, d: u32) -> String {
    if let Some(v) = as_const(t) { return format!("{:#x}", v); }
    let n = node(t);
    if d == 0 { return "..".into(); }
    if n.na == 0 { return format!("{:?}{}", n.op, n.aux); }
    format!("{:?}({})", n.op, (0..n.na as usize).map(|i| show(n.args[i], d - 1)).collect::<Vec<_>>().join(","))
}
