//! Lowers parsed LLVM functions to a compact executable form (operands resolved, GEPs flattened).
use crate::ir::*;
use crate::term::{mask, Op, T};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { I(u64), W(u128), S(T), A(Rc<Vec<Val>>) }
#[derive(Clone, Debug)]
pub enum O { R(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cst { Trunc, Zext, Sext, FToSi, FToUi, SiToF, UiToF, FExt, FTr, Bit }

/// flattened scalar layout of a first-class type
#[derive(Clone, Debug)]
pub enum Lay { S(u16), Agg(Vec<(u64, Lay)>) }

pub enum X {
    Bin(Op, u16, O, O),
    FNeg(u16, O),
    ICmp(u8, u16, O, O),
    FCmp(u8, u16, O, O),
    Cast(Cst, u16, u16, O),
    Select(O, O, O, Lay),
    Load(Lay, O),
    Store(Lay, O, O),
    Gep(O, i64, Vec<(i64, u16, O)>, u16),
    Alloca(u64, O),
    Call(Callee, Vec<O>, u16),
    Extract(O, Vec<u32>),
    Insert(O, O, Vec<u32>),
    ExtEl(O, O),
    InsEl(O, O, O),
    Shuf(O, O, Vec<i32>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u16, O, u32, Vec<(u128, u32)>),
    Ret(Option<O>),
    Unreachable,
    Copy(O),
    Rmw(String, u16, O, O),
    CmpXchg(u16, O, O, O),
    BitVec(Lay, Lay, O),
    Nop,
}
pub enum Callee { F(usize), Ext(String), Ind(O) }
pub struct XI { pub dst: u32, pub x: X, pub dbg: u32 }
pub struct XB { pub phis: Vec<(u32, Vec<(O, u32)>)>, pub ins: Vec<XI> }
pub struct XF { pub name: String, pub params: Vec<u32>, pub nregs: usize, pub blocks: Vec<XB> }

pub trait Addr { fn addr(&mut self, g: &str) -> u64; fn fidx(&mut self, g: &str) -> Option<usize>; /** a 32-bit token standing for `address - table` in a relative jump table */ fn rel(&mut self, target: u64) -> u32; }

pub fn lay(m: &Module, t: &Ty) -> Lay {
    match m.resolve(t).clone() {
        Ty::Int(w) => Lay::S(w), Ty::F32 => Lay::S(32), Ty::F64 | Ty::Ptr => Lay::S(64),
        Ty::St(v, _) => Lay::Agg((0..v.len()).map(|i| { let (o, et) = m.offset(t, i); (o, lay(m, &et)) }).collect()),
        Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = m.size(&e); let l = lay(m, &e); Lay::Agg((0..n).map(|i| (i * s, l.clone())).collect()) }
        Ty::Void | Ty::Other | Ty::Named(_) => Lay::Agg(vec![]),
    }
}
pub fn zero(l: &Lay) -> Val { match l { Lay::S(w) => if *w > 64 { Val::W(0) } else { Val::I(0) }, Lay::Agg(v) => Val::A(Rc::new(v.iter().map(|x| zero(&x.1)).collect())) } }
fn scalar(m: &Module, t: &Ty) -> u16 { match m.resolve(t) { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(_, e) => scalar(m, e), o => panic!("scalar of {:?}", o) } }

pub fn cval(m: &Module, a: &mut dyn Addr, t: &Ty, c: &C) -> Val {
    match c {
        C::Int(v) => { if scalar(m, t) > 64 { Val::W(*v) } else { Val::I(*v as u64) } }
        C::Null => Val::I(0),
        C::Zero | C::Undef => zero(&lay(m, t)),
        C::Glob(n) => Val::I(a.addr(n)),
        C::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| cval(m, a, t, c)).collect())),
        C::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
        C::Splat(x) => { let n = if let Ty::Vec(n, _) = m.resolve(t) { *n } else { panic!() }; let v = cval(m, a, &x.0, &x.1); Val::A(Rc::new(vec![v; n as usize])) }
        C::Gep(et, ix) => {
            let b = cval(m, a, &ix[0].0, &ix[0].1);
            let mut p = if let Val::I(p) = b { p } else { panic!() };
            let mut ty = (**et).clone();
            for (k, (it, ic)) in ix[1..].iter().enumerate() {
                let i = cval(m, a, it, ic); let w = scalar(m, it);
                let i = if let Val::I(i) = i { crate::term::sx(i as u128, w) as i64 } else { panic!() };
                if k == 0 { p = p.wrapping_add((i * m.size(&ty) as i64) as u64); }
                else if let Ty::St(..) = m.resolve(&ty) { let (o, t2) = m.offset(&ty, i as usize); p = p.wrapping_add(o); ty = t2; }
                else { let e = match m.resolve(&ty) { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; p = p.wrapping_add((i * m.size(&e) as i64) as u64); ty = e; }
            }
            Val::I(p)
        }
        C::Cast(_, x, t2) if matches!(&x.1, C::Bin(o, ..) if o == "sub") && scalar(m, t2) == 32 => { if let C::Bin(_, p, _) = &x.1 { if let Val::I(v) = cval(m, a, &p.0, &p.1) { Val::I(a.rel(v) as u64) } else { panic!() } } else { panic!() } }
        C::Cast(_, x, t2) => { let v = cval(m, a, &x.0, &x.1); let w = scalar(m, t2); if let Val::I(i) = v { Val::I((i as u128 & mask(w)) as u64) } else { v } }
        C::Bin(o, x, y) => { let w = scalar(m, &x.0); if let (Val::I(p), Val::I(q)) = (cval(m, a, &x.0, &x.1), cval(m, a, &y.0, &y.1)) { let r = match o.as_str() { "add" => p.wrapping_add(q), "sub" => p.wrapping_sub(q), "mul" => p.wrapping_mul(q), _ => p ^ q }; Val::I((r as u128 & mask(w)) as u64) } else { panic!() } }
    }
}

pub fn compile(m: &Module, a: &mut dyn Addr, f: &Func) -> XF {
    let mut blocks = vec![];
    macro_rules! o { ($t:expr, $v:expr) => { match $v { V::Reg(r) => O::R(*r), V::C(c) => O::K(cval(m, a, $t, c)) } } }
    for b in &f.blocks {
        let mut phis = vec![]; let mut ins = vec![];
        for i in b {
            let x = match &i.ins {
                Ins::Phi(t, v) => { let mut ps = vec![]; for (x, l) in v { ps.push((o!(t, x), *l)); } phis.push((i.dst, ps)); continue; }
                Ins::Bin(op, t, x, y) => { let w = scalar(m, t); let op = match *op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, "frem" => Op::FRem, _ => unreachable!() }; X::Bin(op, w, o!(t, x), o!(t, y)) }
                Ins::FNeg(t, x) => X::FNeg(scalar(m, t), o!(t, x)),
                Ins::ICmp(p, t, x, y) => { let k = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"].iter().position(|z| z == p).unwrap() as u8; X::ICmp(k, scalar(m, t), o!(t, x), o!(t, y)) }
                Ins::FCmp(p, t, x, y) => { let k = ["oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true", "false"].iter().position(|z| z == p).unwrap() as u8; X::FCmp(k, scalar(m, t), o!(t, x), o!(t, y)) }
                Ins::Cast(c, t, v, t2) => {
                    if c == "bitcast" && (matches!(m.resolve(t), Ty::Vec(..)) || matches!(m.resolve(t2), Ty::Vec(..))) { X::BitVec(lay(m, t), lay(m, t2), o!(t, v)) } else {
                    let k = match c.as_str() { "trunc" => Cst::Trunc, "zext" => Cst::Zext, "sext" => Cst::Sext, "fptosi" => Cst::FToSi, "fptoui" => Cst::FToUi, "sitofp" => Cst::SiToF, "uitofp" => Cst::UiToF, "fpext" => Cst::FExt, "fptrunc" => Cst::FTr, _ => Cst::Bit };
                    let (a1, a2) = (scalar(m, t), scalar(m, t2));
                    let k = if k == Cst::Bit && a1 < a2 { Cst::Zext } else if k == Cst::Bit && a1 > a2 { Cst::Trunc } else { k };
                    X::Cast(k, a1, a2, o!(t, v)) } }
                Ins::Select(ct, c, t, x, y) => X::Select(o!(ct, c), o!(t, x), o!(t, y), lay(m, t)),
                Ins::Load(t, p) => X::Load(lay(m, t), o!(&Ty::Ptr, p)),
                Ins::Store(t, v, p) => X::Store(lay(m, t), o!(t, v), o!(&Ty::Ptr, p)),
                Ins::Gep(et, bp, ix, bt) => {
                    if matches!(m.resolve(bt), Ty::Vec(..)) { panic!("vector gep"); }
                    let mut off = 0i64; let mut dynv: Vec<(i64, u16, O)> = vec![]; let mut ty = et.clone();
                    for (k, (it, iv)) in ix.iter().enumerate() {
                        let iw = scalar(m, it);
                        let iop = o!(it, iv);
                        let scale;
                        if k == 0 { scale = m.size(&ty) as i64; }
                        else if let Ty::St(..) = m.resolve(&ty) { let n = if let O::K(Val::I(n)) = iop { n } else { panic!() }; let (o, t2) = m.offset(&ty, n as usize); off += o as i64; ty = t2; continue; }
                        else { let e = match m.resolve(&ty) { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), o => panic!("gep {:?}", o) }; scale = m.size(&e) as i64; ty = e; }
                        match iop { O::K(Val::I(n)) => off += crate::term::sx(n as u128, iw) as i64 * scale, o => dynv.push((scale, iw, o)) }
                    }
                    X::Gep(o!(bt, bp), off, dynv, 64)
                }
                Ins::Alloca(t, nt, n) => X::Alloca(m.size(t), o!(nt, n)),
                Ins::Call(rt, cal, args) => {
                    let mut av = vec![]; for (t, v) in args { av.push(o!(t, v)); }
                    let rw = match m.resolve(rt) { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(_, e) => scalar(m, e), Ty::St(v, _) if !v.is_empty() && matches!(v[0], Ty::Int(_)) => scalar(m, &v[0]), _ => 0 };
                    let c = match cal { V::C(C::Glob(n)) => { match a.fidx(n) { Some(i) => Callee::F(i), None => Callee::Ext(n.clone()) } } v => Callee::Ind(o!(&Ty::Ptr, v)) };
                    X::Call(c, av, rw)
                }
                Ins::Extract(t, v, ix) => X::Extract(o!(t, v), ix.clone()),
                Ins::Insert(t, v, t2, v2, ix) => X::Insert(o!(t, v), o!(t2, v2), ix.clone()),
                Ins::ExtEl(t, v, ix) => X::ExtEl(o!(t, v), o!(&Ty::Int(64), ix)),
                Ins::InsEl(t, v, e, ix) => { let et = match m.resolve(t) { Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; X::InsEl(o!(t, v), o!(&et, e), o!(&Ty::Int(64), ix)) }
                Ins::Shuf(t, x, y, k) => X::Shuf(o!(t, x), o!(t, y), k.clone()),
                Ins::Br(l) => X::Br(*l),
                Ins::CondBr(c, x, y) => X::CondBr(o!(&Ty::Int(1), c), *x, *y),
                Ins::Switch(t, v, d, cs) => X::Switch(scalar(m, t), o!(t, v), *d, cs.clone()),
                Ins::Ret(None) => X::Ret(None),
                Ins::Ret(Some((t, v))) => X::Ret(Some(o!(t, v))),
                Ins::Unreachable => X::Unreachable,
                Ins::Freeze(t, v) => X::Copy(o!(t, v)),
                Ins::Rmw(op, p, t, v) => X::Rmw(op.clone(), scalar(m, t), o!(&Ty::Ptr, p), o!(t, v)),
                Ins::CmpXchg(p, t, x, y) => X::CmpXchg(scalar(m, t), o!(&Ty::Ptr, p), o!(t, x), o!(t, y)),
                Ins::Nop => X::Nop,
            };
            ins.push(XI { dst: i.dst, x, dbg: i.dbg });
        }
        blocks.push(XB { phis, ins });
    }
    XF { name: f.name.clone(), params: f.params.iter().map(|x| x.1).collect(), nregs: f.nregs as usize, blocks }
}
