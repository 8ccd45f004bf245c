//! Textual LLVM IR reader: parses the whole-program module rustc emits (post fat-LTO) into an executable form.
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Int(u16), F32, F64, Ptr, Void, Arr(u64, Box<Ty>), St(Vec<Ty>, bool), Vec(u64, Box<Ty>), Named(String), Other }

#[derive(Clone, Debug)]
pub enum C { Int(u128), Null, Zero, Undef, Glob(String), Agg(Vec<(Ty, C)>), Bytes(Vec<u8>), Gep(Box<Ty>, Vec<(Ty, C)>), Cast(String, Box<(Ty, C)>, Box<Ty>), Bin(String, Box<(Ty, C)>, Box<(Ty, C)>), Splat(Box<(Ty, C)>) }

#[derive(Clone, Debug)]
pub enum V { Reg(u32), C(C) }

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<C>, pub constant: bool, pub alias: bool }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(&'static str, Ty, V, V),
    FNeg(Ty, V),
    ICmp(String, Ty, V, V),
    FCmp(String, Ty, V, V),
    Cast(String, Ty, V, Ty),
    Select(Ty, V, Ty, V, V),
    Phi(Ty, Vec<(V, u32)>),
    Load(Ty, V),
    Store(Ty, V, V),
    Gep(Ty, V, Vec<(Ty, V)>, Ty),
    Alloca(Ty, Ty, V),
    Call(Ty, V, Vec<(Ty, V)>),
    Extract(Ty, V, Vec<u32>),
    Insert(Ty, V, Ty, V, Vec<u32>),
    ExtEl(Ty, V, V),
    InsEl(Ty, V, V, V),
    Shuf(Ty, V, V, Vec<i32>),
    Br(u32),
    CondBr(V, u32, u32),
    Switch(Ty, V, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, V)>),
    Unreachable,
    Freeze(Ty, V),
    Rmw(String, V, Ty, V),
    CmpXchg(V, Ty, V, V),
    Nop,
}
pub struct Inst { pub dst: u32, pub ins: Ins, pub dbg: u32 }
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub ret: Ty, pub nregs: u32, pub blocks: Vec<Vec<Inst>> }

pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub bodies: HashMap<String, (usize, usize)>, // line range
    pub meta: HashMap<u32, String>,
    pub lines: Vec<String>,
}
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { W(String), Loc(String), Glo(String), Str(Vec<u8>), CStr(Vec<u8>), P(char), Meta(String) }

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            o.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3;
        } else { o.push(s[i]); i += 1; }
    }
    o
}
pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes(); let mut i = 0; let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' { i += 1; continue; }
        if c == b';' { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c == b'"' || (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') {
            let isc = c == b'c'; let st = if isc { i + 2 } else { i + 1 };
            let mut j = st; while b[j] != b'"' { j += 1; }
            let v = unescape(&b[st..j]);
            o.push(if isc { Tok::CStr(v) } else { Tok::Str(v) });
            i = j + 1; continue;
        }
        if c == b'%' || c == b'@' || c == b'!' || c == b'#' || c == b'$' {
            let mut j = i + 1; let name;
            if j < b.len() && b[j] == b'"' { let mut k = j + 1; while b[k] != b'"' { k += 1; } name = String::from_utf8_lossy(&unescape(&b[j + 1..k])).to_string(); j = k + 1; }
            else { while j < b.len() && idc(b[j]) { j += 1; } name = s[i + 1..j].to_string(); }
            o.push(match c { b'%' => Tok::Loc(name), b'@' => Tok::Glo(name), _ => Tok::Meta(name) });
            i = j; continue;
        }
        if idc(c) || c == b'+' { let mut j = i + 1; while j < b.len() && (idc(b[j]) || (b[j] == b'+' && b[j - 1] == b'e')) { j += 1; } o.push(Tok::W(s[i..j].to_string())); i = j; continue; }
        o.push(Tok::P(c as char)); i += 1;
    }
    o
}

pub struct P<'a> { t: Vec<Tok>, p: usize, regs: Option<&'a mut HashMap<String, u32>>, labels: Option<&'a HashMap<String, u32>> }

impl<'a> P<'a> {
    pub fn new(t: Vec<Tok>) -> P<'a> { P { t, p: 0, regs: None, labels: None } }
    fn pk(&self) -> Option<&Tok> { self.t.get(self.p) }
    fn isw(&self, w: &str) -> bool { matches!(self.pk(), Some(Tok::W(x)) if x == w) }
    fn isp(&self, c: char) -> bool { matches!(self.pk(), Some(Tok::P(x)) if *x == c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.p += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.p += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eatp(c) { panic!("expected {} at {:?} in {:?}", c, self.pk(), self.t); } }
    fn word(&mut self) -> String { match self.t.get(self.p) { Some(Tok::W(x)) => { self.p += 1; x.clone() } o => panic!("expected word, got {:?} in {:?}", o, self.t) } }
    fn skip_parens(&mut self) { self.exp('('); let mut d = 1; while d > 0 { match &self.t[self.p] { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } self.p += 1; } }
    fn is_ty(&self) -> bool {
        match self.pk() {
            Some(Tok::W(x)) => matches!(x.as_str(), "float" | "double" | "half" | "ptr" | "void" | "label" | "metadata" | "x86_fp80" | "fp128" | "bfloat" | "token") || (x.len() > 1 && x.starts_with('i') && x[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(_)) => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.t[self.p].clone() {
            Tok::W(x) => { self.p += 1; match x.as_str() {
                "float" => Ty::F32, "double" => Ty::F64, "void" => Ty::Void,
                "ptr" => { if self.eatw("addrspace") { self.skip_parens(); } Ty::Ptr }
                "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "half" | "bfloat" | "opaque" => Ty::Other,
                _ => Ty::Int(x[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", x, self.t))),
            } }
            Tok::P('[') => { self.p += 1; let n: u64 = self.word().parse().unwrap(); assert!(self.eatw("x")); let t = self.ty(); self.exp(']'); Ty::Arr(n, Box::new(t)) }
            Tok::P('{') => { self.p += 1; let mut v = vec![]; if !self.eatp('}') { loop { v.push(self.ty()); if self.eatp('}') { break; } self.exp(','); } } Ty::St(v, false) }
            Tok::P('<') => { self.p += 1; if self.isp('{') { let t = self.ty(); self.exp('>'); if let Ty::St(v, _) = t { Ty::St(v, true) } else { unreachable!() } }
                else { let n: u64 = self.word().parse().unwrap(); assert!(self.eatw("x")); let t = self.ty(); self.exp('>'); Ty::Vec(n, Box::new(t)) } }
            Tok::Loc(n) => { self.p += 1; Ty::Named(n) }
            o => panic!("type? {:?} in {:?}", o, self.t),
        }
    }
    fn attrs(&mut self) {
        loop {
            if self.is_ty() { return; }
            match self.pk() {
                Some(Tok::W(x)) => {
                    if x.bytes().next().map_or(false, |c| c.is_ascii_digit() || c == b'-') || matches!(x.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "asm") { return; }
                    let al = x == "align"; self.p += 1;
                    if al { if self.isp('(') { self.skip_parens(); } else { self.p += 1; } }
                    else if self.isp('(') { self.skip_parens(); }
                }
                Some(Tok::Meta(_)) => { self.p += 1; }
                Some(Tok::Str(_)) => { self.p += 1; if self.eatp('=') { self.p += 1; } }
                _ => return,
            }
        }
    }
    fn fconst(x: &str, t: &Ty) -> u128 {
        if let Some(h) = x.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).unwrap(); return if *t == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 }; }
        if let Some(h) = x.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap() as u128; }
        let v: f64 = match x { "+qnan" => f64::NAN, "-qnan" => f64::from_bits(0xfff8000000000000), "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => x.parse().unwrap_or_else(|_| panic!("float {}", x)) };
        if *t == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
    }
    fn tc(&mut self) -> (Ty, C) { let t = self.ty(); self.attrs_val(); let c = self.cv(&t); (t, c) }
    fn attrs_val(&mut self) { // attributes between a type and a value
        loop { match self.pk() {
            Some(Tok::W(x)) if matches!(x.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "addrspacecast" | "dso_local_equivalent" | "none" | "asm" | "blockaddress" | "no_cfi" | "inf" | "nan") || x.bytes().next().map_or(false, |c| c.is_ascii_digit() || c == b'-' || c == b'+') || x.starts_with("f0x") => return,
            Some(Tok::W(x)) => { let al = x == "align"; self.p += 1; if al && !self.isp('(') { self.p += 1; } else if self.isp('(') { self.skip_parens(); } }
            Some(Tok::Str(_)) => { self.p += 1; if self.eatp('=') { self.p += 1; } }
            _ => return,
        } }
    }
    fn cv(&mut self, t: &Ty) -> C {
        let k = self.t[self.p].clone(); self.p += 1;
        match k {
            Tok::Glo(n) => C::Glob(n),
            Tok::CStr(b) => C::Bytes(b),
            Tok::P('[') | Tok::P('{') => { let cl = if k == Tok::P('[') { ']' } else { '}' }; let mut v = vec![]; if !self.eatp(cl) { loop { v.push(self.tc()); if self.eatp(cl) { break; } self.exp(','); } } C::Agg(v) }
            Tok::P('<') => { if self.isp('{') { let c = self.cv(t); self.exp('>'); return c; } let mut v = vec![]; loop { v.push(self.tc()); if self.eatp('>') { break; } self.exp(','); } C::Agg(v) }
            Tok::W(x) => match x.as_str() {
                "true" => C::Int(1), "false" => C::Int(0), "null" | "none" => C::Null, "zeroinitializer" => C::Zero, "undef" | "poison" => C::Undef,
                "splat" => { self.exp('('); let c = self.tc(); self.exp(')'); C::Splat(Box::new(c)) }
                "getelementptr" => { while matches!(self.pk(), Some(Tok::W(_))) { self.p += 1; if self.isp('(') && !self.is_gep_open() { self.skip_parens(); } }
                    self.exp('('); let et = self.ty(); let mut v = vec![]; while self.eatp(',') { self.eatw("inrange"); v.push(self.tc()); } self.exp(')'); C::Gep(Box::new(et), v) }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => { self.exp('('); let c = self.tc(); assert!(self.eatw("to")); let t2 = self.ty(); self.exp(')'); C::Cast(x, Box::new(c), Box::new(t2)) }
                "sub" | "add" | "xor" | "mul" => { while matches!(self.pk(), Some(Tok::W(_))) { self.p += 1; } self.exp('('); let a = self.tc(); self.exp(','); let b = self.tc(); self.exp(')'); C::Bin(x, Box::new(a), Box::new(b)) }
                "dso_local_equivalent" | "no_cfi" => self.cv(t),
                _ => {
                    if matches!(t, Ty::F32 | Ty::F64) { return C::Int(Self::fconst(&x, t)); }
                    if let Ty::Int(w) = t { let v: i128 = x.parse::<i128>().or_else(|_| x.parse::<u128>().map(|v| v as i128)).unwrap_or_else(|_| panic!("int const {} in {:?}", x, self.t)); return C::Int((v as u128) & crate::term::mask(*w)); }
                    if matches!(t, Ty::Other) { return C::Undef; }
                    panic!("const {} of {:?} in {:?}", x, t, self.t)
                }
            },
            o => panic!("const? {:?} in {:?}", o, self.t),
        }
    }
    fn is_gep_open(&self) -> bool { // "(" directly followed by a type and a comma
        let mut q = P::new(self.t[self.p + 1..].to_vec()); if !q.is_ty() { return false; }
        let _ = q.ty(); q.isp(',')
    }
    fn reg(&mut self, n: &str) -> u32 { let m = self.regs.as_mut().unwrap(); let l = m.len() as u32; *m.entry(n.to_string()).or_insert(l) }
    fn v(&mut self, t: &Ty) -> V { if let Some(Tok::Loc(n)) = self.pk().cloned() { self.p += 1; return V::Reg(self.reg(&n)); } V::C(self.cv(t)) }
    fn tv(&mut self) -> (Ty, V) { let t = self.ty(); self.attrs_val(); let v = self.v(&t); (t, v) }
    fn lab(&mut self) -> u32 { assert!(self.eatw("label")); if let Some(Tok::Loc(n)) = self.pk().cloned() { self.p += 1; *self.labels.unwrap().get(&n).unwrap_or_else(|| panic!("label {}", n)) } else { panic!("label? {:?}", self.t) } }
    fn flags(&mut self) { while let Some(Tok::W(x)) = self.pk() { if matches!(x.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" | "inrange") { self.p += 1; if self.isp('(') { self.skip_parens(); } } else { break; } } }
    fn dbg(&self) -> u32 { // last "!dbg !N"
        let mut i = self.t.len();
        while i > 1 { i -= 1; if let (Tok::Meta(a), Tok::Meta(b)) = (&self.t[i - 1], &self.t[i]) { if a == "dbg" { return b.parse().unwrap_or(0); } } }
        0
    }
    fn inst(&mut self) -> (Option<String>, Ins) {
        let mut dst = None;
        if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (self.t.get(0), self.t.get(1)) { dst = Some(n.clone()); self.p = 2; }
        let op = self.word();
        const BINS: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"];
        if let Some(b) = BINS.iter().find(|x| **x == op) { self.flags(); let t = self.ty(); let a = self.v(&t); self.exp(','); let c = self.v(&t); return (dst, Ins::Bin(b, t, a, c)); }
        let i = match op.as_str() {
            "fneg" => { self.flags(); let (t, v) = self.tv(); Ins::FNeg(t, v) }
            "icmp" | "fcmp" => { self.flags(); let p = self.word(); self.flags(); let t = self.ty(); let a = self.v(&t); self.exp(','); let b = self.v(&t); if op == "icmp" { Ins::ICmp(p, t, a, b) } else { Ins::FCmp(p, t, a, b) } }
            "trunc" | "zext" | "sext" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => { self.flags(); let (t, v) = self.tv(); assert!(self.eatw("to")); let t2 = self.ty(); Ins::Cast(op, t, v, t2) }
            "select" => { self.flags(); let (ct, c) = self.tv(); self.exp(','); let (t, a) = self.tv(); self.exp(','); let (_, b) = self.tv(); Ins::Select(ct, c, t, a, b) }
            "phi" => { self.flags(); let t = self.ty(); let mut v = vec![]; loop { self.exp('['); let x = self.v(&t); self.exp(','); let l = match self.pk().cloned() { Some(Tok::Loc(n)) => { self.p += 1; *self.labels.unwrap().get(&n).unwrap() } o => panic!("phi label {:?}", o) }; self.exp(']'); v.push((x, l)); if !self.isp(',') || !matches!(self.t.get(self.p + 1), Some(Tok::P('['))) { break; } self.exp(','); } Ins::Phi(t, v) }
            "load" => { self.flags(); let t = self.ty(); self.exp(','); let (_, p) = self.tv(); Ins::Load(t, p) }
            "store" => { self.flags(); let (t, v) = self.tv(); self.exp(','); let (_, p) = self.tv(); Ins::Store(t, v, p) }
            "getelementptr" => { self.flags(); let et = self.ty(); self.exp(','); let (bt, b) = self.tv(); let mut ix = vec![]; while self.isp(',') && !matches!(self.t.get(self.p + 1), Some(Tok::Meta(_))) { self.p += 1; ix.push(self.tv()); } Ins::Gep(et, b, ix, bt) }
            "alloca" => { let t = self.ty(); let mut n = (Ty::Int(32), V::C(C::Int(1))); if self.isp(',') { let s = self.p; self.p += 1; if self.is_ty() { n = self.tv(); } else { self.p = s; } } Ins::Alloca(t, n.0, n.1) }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op != "call" && op != "invoke" { self.p += 1; }
                self.attrs();
                let rt = self.ty();
                if self.isp('(') { self.skip_parens(); }
                self.attrs_val();
                let callee = if self.isw("asm") { while !matches!(self.pk(), Some(Tok::Str(_))) { self.p += 1; } self.p += 1; self.exp(','); self.p += 1; V::C(C::Glob("asm".into())) } else { self.v(&Ty::Ptr) };
                self.exp('(');
                let mut args = vec![];
                if !self.eatp(')') { loop {
                    let t = self.ty();
                    if t == Ty::Other { // metadata
                        let mut d = 0; loop { match &self.t[self.p] { Tok::P('(') => d += 1, Tok::P(')') => { if d == 0 { break; } d -= 1; } Tok::P(',') if d == 0 => break, _ => {} } self.p += 1; }
                        args.push((Ty::Other, V::C(C::Undef)));
                    } else { self.attrs_val(); let v = self.v(&t); args.push((t, v)); }
                    if self.eatp(')') { break; } self.exp(',');
                } }
                let c = Ins::Call(rt, callee, args);
                if op == "invoke" { // to label
                    while !self.isw("to") { self.p += 1; }
                    self.p += 1; let l = self.lab();
                    // encoded as call followed by br; marker kept in Switch default
                    INVOKE_TO.with(|x| x.set(Some(l)));
                }
                c
            }
            "extractvalue" => { let (t, v) = self.tv(); let mut ix = vec![]; while self.isp(',') && matches!(self.t.get(self.p + 1), Some(Tok::W(_))) { self.p += 1; ix.push(self.word().parse().unwrap()); } Ins::Extract(t, v, ix) }
            "insertvalue" => { let (t, v) = self.tv(); self.exp(','); let (t2, v2) = self.tv(); let mut ix = vec![]; while self.isp(',') && matches!(self.t.get(self.p + 1), Some(Tok::W(_))) { self.p += 1; ix.push(self.word().parse().unwrap()); } Ins::Insert(t, v, t2, v2, ix) }
            "extractelement" => { let (t, v) = self.tv(); self.exp(','); let (_, i) = self.tv(); Ins::ExtEl(t, v, i) }
            "insertelement" => { let (t, v) = self.tv(); self.exp(','); let (_, e) = self.tv(); self.exp(','); let (_, i) = self.tv(); Ins::InsEl(t, v, e, i) }
            "shufflevector" => { let (t, a) = self.tv(); self.exp(','); let (_, b) = self.tv(); self.exp(','); let mt = self.ty(); let n = if let Ty::Vec(n, _) = mt { n as usize } else { panic!() }; let c = self.cv(&mt);
                let m = match c { C::Zero | C::Undef => vec![0; n], C::Splat(x) => vec![if let C::Int(v) = x.1 { v as i32 } else { 0 }; n], C::Agg(v) => v.iter().map(|x| if let C::Int(k) = x.1 { k as i32 } else { -1 }).collect(), _ => panic!() }; Ins::Shuf(t, a, b, m) }
            "br" => { if self.isw("label") { Ins::Br(self.lab()) } else { let (_, c) = self.tv(); self.exp(','); let a = self.lab(); self.exp(','); let b = self.lab(); Ins::CondBr(c, a, b) } }
            "switch" => { let (t, v) = self.tv(); self.exp(','); let d = self.lab(); self.exp('['); let mut cs = vec![]; while !self.eatp(']') { let (_, c) = self.tc(); self.exp(','); let l = self.lab(); if let C::Int(k) = c { cs.push((k, l)); } } Ins::Switch(t, v, d, cs) }
            "ret" => { if self.eatw("void") { Ins::Ret(None) } else { let (t, v) = self.tv(); Ins::Ret(Some((t, v))) } }
            "unreachable" | "resume" => Ins::Unreachable,
            "landingpad" | "fence" => Ins::Nop,
            "freeze" => { let (t, v) = self.tv(); Ins::Freeze(t, v) }
            "atomicrmw" => { self.flags(); let o = self.word(); let (_, p) = self.tv(); self.exp(','); let (t, v) = self.tv(); Ins::Rmw(o, p, t, v) }
            "cmpxchg" => { self.flags(); let (_, p) = self.tv(); self.exp(','); let (t, a) = self.tv(); self.exp(','); let (_, b) = self.tv(); Ins::CmpXchg(p, t, a, b) }
            _ => panic!("instruction {} in {:?}", op, self.t),
        };
        (dst, i)
    }
}
thread_local! { static INVOKE_TO: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) }; }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let text = String::from_utf8_lossy(&text).to_string();
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module { types: HashMap::new(), globals: vec![], gidx: HashMap::new(), bodies: HashMap::new(), meta: HashMap::new(), lines: vec![] };
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            let c = l.as_bytes().first().copied().unwrap_or(0);
            match c {
                b'%' => { let t = lex(l); let mut p = P::new(t); if let Tok::Loc(n) = p.t[0].clone() { p.p = 2; assert!(p.eatw("type")); let ty = p.ty(); m.types.insert(n, ty); } }
                b'@' => { m.global(l); }
                b'!' => { if let Some(e) = l.find(" = ") { if let Ok(n) = l[1..e].parse::<u32>() { let r = &l[e + 3..]; if r.contains("!DILocation(") || r.contains("!DISubprogram(") || r.contains("!DIFile(") || r.contains("!DILexicalBlock") || r.contains("!DINamespace(") || r.contains("!DICompositeType(") || r.contains("!DIStructureType") { m.meta.insert(n, r.to_string()); } } } }
                b'd' if l.starts_with("define") => {
                    let t = lex(l);
                    let name = t.iter().find_map(|x| if let Tok::Glo(n) = x { Some(n.clone()) } else { None }).unwrap();
                    let st = i; while lines[i] != "}" { i += 1; }
                    m.bodies.insert(name, (st, i));
                }
                _ => {}
            }
            i += 1;
        }
        m.lines = lines;
        m
    }
    fn global(&mut self, l: &str) {
        let t = lex(l); let mut p = P::new(t);
        let name = if let Tok::Glo(n) = p.t[0].clone() { n } else { panic!() };
        p.p = 2;
        let mut ext = false; let mut constant = false; let mut alias = false;
        loop { match p.pk() {
            Some(Tok::W(x)) => { match x.as_str() { "global" => { p.p += 1; break; } "constant" => { constant = true; p.p += 1; break; } "alias" => { alias = true; p.p += 1; break; } "external" | "extern_weak" => { ext = true; } _ => {} } p.p += 1; if p.isp('(') { p.skip_parens(); } }
            _ => { p.p += 1; }
        } }
        let ty = p.ty();
        let init = if alias { if p.isp('(') { p.skip_parens(); } p.exp(','); Some(p.tc().1) } else if ext { None } else { Some(p.cv(&ty)) };
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, ty, init, constant, alias });
    }
    pub fn func(&self, name: &str) -> Option<Func> {
        let &(st, en) = self.bodies.get(name)?;
        let hdr = lex(&self.lines[st]);
        let mut p = P::new(hdr);
        p.p = 1; p.attrs();
        let ret = p.ty();
        while !matches!(p.pk(), Some(Tok::Glo(_))) { p.p += 1; }
        p.p += 1; p.exp('(');
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![]; let mut unnamed = 0u32;
        if !p.eatp(')') { let mut k = 0; loop {
            if p.isp('.') || p.isw("...") { p.p += 1; if p.eatp(')') { break; } }
            let t = p.ty(); p.attrs_val();
            let n = if let Some(Tok::Loc(n)) = p.pk().cloned() { p.p += 1; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } n } else { unnamed += 1; format!("{}", k) };
            k += 1;
            let r = regs.len() as u32; regs.insert(n, r); params.push((t, r));
            if p.eatp(')') { break; } p.exp(',');
        } }
        // first pass: labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32; let mut first = true;
        let islabel = |l: &str| -> Option<String> {
            let b = l.as_bytes(); if b.is_empty() || b[0] == b' ' || b[0] == b';' { return None; }
            if b[0] == b'"' { let e = l[1..].find('"')? + 1; return Some(String::from_utf8_lossy(&unescape(&b[1..e])).to_string()); }
            let e = l.find(':')?; Some(l[..e].to_string())
        };
        for l in &self.lines[st + 1..en] {
            if let Some(n) = islabel(l) { labels.insert(n, nb); nb += 1; first = false; }
            else if first && !l.trim().is_empty() && !l.trim_start().starts_with(';') { // unnamed entry block: number = params count
                labels.insert(format!("{}", unnamed), 0); nb += 1; first = false;
            }
        }
        let mut blocks: Vec<Vec<Inst>> = vec![];
        let mut i = st + 1; let mut cur: Vec<Inst> = vec![]; let mut started = false;
        let trampolines: Vec<(usize, u32)> = vec![]; let _ = trampolines;
        while i < en {
            let l = &self.lines[i];
            if let Some(_) = islabel(l) { if started { blocks.push(std::mem::take(&mut cur)); } started = true; i += 1; continue; }
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") { i += 1; continue; }
            started = true;
            let mut full = l.clone();
            if tl.starts_with("switch") { while !self.lines[i].trim_start().starts_with(']') { i += 1; full.push('\n'); full.push_str(&self.lines[i]); } }
            else if tl.starts_with("invoke") || tl.contains("= invoke ") { i += 1; full.push(' '); full.push_str(&self.lines[i]); }
            else if tl.contains("landingpad") { while i + 1 < en && { let n = self.lines[i + 1].trim_start(); n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") } { i += 1; } i += 1; continue; }
            let toks = lex(&full);
            let mut p = P { t: toks, p: 0, regs: Some(&mut regs), labels: Some(&labels) };
            let (d, ins) = p.inst();
            let dbg = p.dbg();
            let dst = match d { Some(n) => { let l = regs.len() as u32; *regs.entry(n).or_insert(l) } None => NOREG };
            cur.push(Inst { dst, ins, dbg });
            if let Some(to) = INVOKE_TO.with(|x| x.take()) { cur.push(Inst { dst: NOREG, ins: Ins::Br(to), dbg }); }
            i += 1;
        }
        blocks.push(cur);
        Some(Func { name: name.to_string(), params, ret, nregs: regs.len() as u32, blocks })
    }
    pub fn resolve<'b>(&'b self, t: &'b Ty) -> &'b Ty { match t { Ty::Named(n) => self.resolve(&self.types[n]), _ => t } }
    pub fn align(&self, t: &Ty) -> u64 {
        match self.resolve(t) { Ty::Int(w) => { let b = (*w as u64).div_ceil(8).next_power_of_two(); b.min(16) } Ty::F32 => 4, Ty::F64 => 8, Ty::Ptr => 8, Ty::Arr(_, e) => self.align(e),
            Ty::St(v, p) => if *p { 1 } else { v.iter().map(|x| self.align(x)).max().unwrap_or(1) }, Ty::Vec(_, _) => self.size(t).next_power_of_two(), _ => 1 }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        match self.resolve(t) { Ty::Int(w) => { let b = (*w as u64).div_ceil(8); let a = self.align(t); b.div_ceil(a) * a } Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8, Ty::Arr(n, e) => n * self.size(e),
            Ty::St(v, p) => { let mut o = 0u64; for x in v { if !p { let a = self.align(x); o = o.div_ceil(a as u64) * a; } o += self.size(x); } if !p { let a = self.align(t); o = o.div_ceil(a) * a; } o }
            Ty::Vec(n, e) => { if let Ty::Int(1) = **e { n.div_ceil(8) } else { n * self.size(e) } } _ => 0 }
    }
    pub fn offset(&self, t: &Ty, i: usize) -> (u64, Ty) {
        match self.resolve(t) { Ty::St(v, p) => { let mut o = 0u64; for (k, x) in v.iter().enumerate() { if !p { let a = self.align(x); o = o.div_ceil(a) * a; } if k == i { return (o, x.clone()); } o += self.size(x); } panic!() }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (i as u64 * self.size(e), (**e).clone()), o => panic!("offset into {:?}", o) }
    }
}
