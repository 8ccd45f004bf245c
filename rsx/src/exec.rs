//! Symbolic executor over the lowered LLVM IR.
use crate::comp::*;
use crate::ir::Module;
use crate::solver::*;
use crate::term::{self, *};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub const FBASE: u64 = 0x7000_0000;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: BTreeMap<u32, T>, pub heap: bool }

#[derive(Clone)]
pub struct Frame { pub f: Rc<XF>, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub ret: u32 }

pub type Model = Vec<Option<u128>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub pc: Vec<T>,
    pub bound: HashMap<u32, u128>,
    pub inputs: Vec<(u8, T, u64)>, // kind (0=u64,1=f64,2=f32), term, lo
    pub model: Option<Rc<Model>>,
    pub obs: Vec<T>,
    pub log: Vec<String>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub clock: u64,
    pub nck: u32,
    pub may_panic: bool,
    /// tasks a stub holds back
    pub held: u64,
    /// branches and assertions on floats are decided over exact real arithmetic where possible
    pub real_br: bool,
}

pub enum Stop { End, Assume, Panic(String), Ub(String), Fail, Unsup(String), Steps }
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Viol { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub confirmed: bool, pub log: Vec<String> }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub ok_paths: u64, pub assumed: u64, pub forks: u64, pub instrs: u64, pub checks_trivial: u64, pub checks_proved: u64, pub checks_real: u64, pub checks_ieee: u64, pub undecided: u64, pub incomplete: u64, pub infeasible: u64, pub cache_hits: u64,
    pub q_uf: u64, pub q_ieee: u64, pub q_real: u64, pub t_solver: f64, pub unknown: u64 }

pub struct Engine {
    pub m: Module,
    pub ro: Vec<Rc<Obj>>,
    pub gaddr: HashMap<String, u64>,
    pub fnames: Vec<String>,
    pub fmap: HashMap<String, usize>,
    pub code: Vec<Option<Rc<XF>>>,
    pub init_mem: Vec<Option<Rc<Obj>>>,
    pub uf: Solver, pub ieee: Solver, pub real: Solver, pub ord: Solver,
    pub mode: Mode,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub seen_sites: HashMap<String, u32>,
    pub notes: Vec<String>,
    pub stack: Vec<State>,
    pub vars: HashMap<(u32, u8, u16), T>,
    pub qcache: HashMap<Vec<T>, Option<Option<Rc<Vec<(u32, u128)>>>>>,
    pub rcache: HashMap<Vec<T>, bool>,
    pub dbg_hit: Vec<bool>,
    pub covers: BTreeMap<u32, u64>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub max_samples: usize,
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_viol_per_site: u32,
    pub rng: u64,
    pub real_timeout: u64,
    pub ieee_timeout: u64,
    pub stop_now: bool,
    pub params: Vec<u64>,
    pub stop_after: usize, pub defer: bool, pub obl: Vec<(State, T, String, String, Option<(T, T)>, Option<Vec<Option<u128>>>)>, pub trace_forks: bool, pub itrace: bool, pub prof: bool, pub rels: Vec<u64>,
}

impl Addr for Engine {
    fn addr(&mut self, g: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(g) { return a; }
        // function (defined or external)
        let i = match self.fmap.get(g) { Some(&i) => i, None => { let i = self.fnames.len(); self.fnames.push(g.to_string()); self.fmap.insert(g.to_string(), i); self.code.push(None); i } };
        let a = (FBASE + i as u64) << 32;
        self.gaddr.insert(g.to_string(), a);
        a
    }
    fn rel(&mut self, t: u64) -> u32 { self.rels.push(t); 0xA000_0000 + self.rels.len() as u32 - 1 }
    fn fidx(&mut self, g: &str) -> Option<usize> { if self.m.bodies.contains_key(g) && !is_ext(g) { self.addr(g); self.fmap.get(g).copied() } else { None } }
}

fn is_ext(n: &str) -> bool {
    n.contains("9panicking9panic_fmt") || n.contains("rust_begin_unwind") || n.contains("18panic_bounds_check") || n.contains("hashmap_random_keys") || n.contains("20panic_cannot_unwind")
        || n.contains("18panic_nounwind_fmt") || n.contains("9panicking5panic") || n.contains("11panic_const") || n.contains("13assert_failed") || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("16slice_index_fail") || n.contains("18handle_alloc_error") || n.contains("rsx_")
}

impl Obj {
    pub fn new(size: u64, heap: bool) -> Obj { Obj { size, data: vec![0; size as usize], sym: BTreeMap::new(), heap } }
    pub fn cell_at(&self, byte: u32) -> Option<(u32, T)> { // cell covering a byte
        let (&o, &t) = self.sym.range(..=byte).next_back()?;
        if byte < o + (width(t) / 8) as u32 { Some((o, t)) } else { None }
    }
    pub fn read(&self, off: u32, nb: u32) -> Val {
        if !self.sym.is_empty() {
            if let Some(&t) = self.sym.get(&off) { if width(t) as u32 == nb * 8 { return Val::S(t); } }
            let mut any = false;
            for i in 0..nb { if self.cell_at(off + i).is_some() { any = true; break; } }
            if any {
                let mut acc: Option<T> = None;
                for i in 0..nb {
                    let b = match self.cell_at(off + i) { Some((o, t)) => extract(t, ((off + i - o) * 8) as u16, 8), None => cst(self.data[(off + i) as usize] as u128, 8) };
                    acc = Some(match acc { None => b, Some(a) => concat(b, a) });
                }
                return from_term(acc.unwrap());
            }
        }
        let d = &self.data[off as usize..(off + nb) as usize];
        if nb <= 8 { let mut v = 0u64; for i in (0..nb as usize).rev() { v = (v << 8) | d[i] as u64; } Val::I(v) }
        else { let mut v = 0u128; for i in (0..nb as usize).rev() { v = (v << 8) | d[i] as u128; } Val::W(v) }
    }
    pub fn clear(&mut self, off: u32, nb: u32) {
        if self.sym.is_empty() || nb == 0 { return; }
        let keys: Vec<(u32, T)> = self.sym.range(off.saturating_sub(16)..off + nb).map(|(a, b)| (*a, *b)).collect();
        for (o, t) in keys {
            let n = (width(t) / 8) as u32;
            if o + n <= off { continue; }
            self.sym.remove(&o);
            for i in 0..n { let b = o + i; if b < off || b >= off + nb { let e = extract(t, (i * 8) as u16, 8); match as_const(e) { Some(v) => self.data[b as usize] = v as u8, None => { self.sym.insert(b, e); } } } }
        }
    }
    pub fn write(&mut self, off: u32, nb: u32, v: &Val) {
        self.clear(off, nb);
        match v {
            Val::I(x) => { let b = x.to_le_bytes(); let k = nb.min(8) as usize; self.data[off as usize..off as usize + k].copy_from_slice(&b[..k]); for i in k..nb as usize { self.data[off as usize + i] = 0; } }
            Val::W(x) => { let b = x.to_le_bytes(); self.data[off as usize..(off + nb) as usize].copy_from_slice(&b[..nb as usize]); }
            Val::S(t) => { let t = zext(*t, (nb * 8) as u16); match as_const(t) { Some(c) => { let b = c.to_le_bytes(); self.data[off as usize..(off + nb) as usize].copy_from_slice(&b[..nb as usize]); } None => { self.sym.insert(off, t); } } }
            Val::A(_) => panic!("aggregate scalar write"),
        }
    }
}

pub fn from_term(t: T) -> Val { match as_const(t) { Some(v) => if width(t) > 64 { Val::W(v) } else { Val::I(v as u64) }, None => Val::S(t) } }
fn to_term(v: &Val, w: u16) -> T { match v { Val::I(x) => cst(*x as u128, w), Val::W(x) => cst(*x, w), Val::S(t) => { if width(*t) != w { panic!("width mismatch {} vs {}", width(*t), w) } *t } Val::A(_) => panic!("agg to term") } }

impl Engine {
    pub fn new(m: Module, mode: Mode) -> Engine {
        let mut e = Engine { m, ro: vec![], gaddr: HashMap::new(), fnames: vec![], fmap: HashMap::new(), code: vec![], init_mem: vec![None], uf: Solver::new(Mode::Uf, 20000), ieee: Solver::new(Mode::Ieee, 20000), real: Solver::new(Mode::Real, 20000), ord: Solver::new(Mode::Real, 1000), mode, stats: Stats::default(), viols: vec![], seen_sites: HashMap::new(), notes: vec![], stack: vec![], vars: HashMap::new(), qcache: HashMap::new(), rcache: HashMap::new(), dbg_hit: vec![], covers: BTreeMap::new(), samples: vec![], max_samples: 4, max_steps: 20_000_000, deadline: Instant::now() + std::time::Duration::from_secs(600), max_viol_per_site: 2, rng: 0x9e3779b97f4a7c15, real_timeout: 20000, ieee_timeout: 20000, stop_now: false, params: vec![], stop_after: 4, defer: false, obl: vec![], trace_forks: std::env::var("RSX_TRACE").is_ok(), itrace: std::env::var("RSX_ITRACE").is_ok(), prof: std::env::var("RSX_PROF").is_ok(), rels: vec![] };
        // assign addresses to globals
        let n = e.m.globals.len();
        for i in 0..n { if !e.m.globals[i].alias { let nm = e.m.globals[i].name.clone(); if e.m.globals[i].init.is_none() { e.gaddr.insert(nm, 0); continue; } e.init_mem.push(None); let id = e.init_mem.len() as u64 - 1; e.gaddr.insert(nm, id << 32); } }
        let names: Vec<String> = e.m.bodies.keys().cloned().collect();
        let mut names = names; names.sort();
        for nm in names { e.addr(&nm); }
        let gl = std::mem::take(&mut e.m.globals);
        for g in &gl { if g.alias { if let Some(crate::ir::C::Glob(t)) = &g.init { let a = e.addr(&t.clone()); e.gaddr.insert(g.name.clone(), a); } } }
        for g in &gl {
            if g.alias || g.init.is_none() { continue; }
            let id = (e.gaddr[&g.name] >> 32) as usize;
            let sz = e.m.size(&g.ty);
            let mut o = Obj::new(sz, false);
            let mm = std::mem::replace(&mut e.m, Module { types: HashMap::new(), globals: vec![], gidx: HashMap::new(), bodies: HashMap::new(), meta: HashMap::new(), lines: vec![] });
            if let Some(c) = &g.init { if !matches!(c, crate::ir::C::Zero | crate::ir::C::Undef) { let mut ad = GA(&mut e, &mm); let v = cval(&mm, &mut ad, &g.ty, c); let l = lay(&mm, &g.ty); write_agg(&mut o, 0, &l, &v); } }
            e.m = mm;
            e.init_mem[id] = Some(Rc::new(o));
        }
        e
    }
    pub fn func(&mut self, i: usize) -> Rc<XF> {
        if let Some(f) = &self.code[i] { return f.clone(); }
        let nm = self.fnames[i].clone();
        let f = self.m.func(&nm).unwrap_or_else(|| panic!("no body {}", nm));
        let mm = std::mem::replace(&mut self.m, Module { types: HashMap::new(), globals: vec![], gidx: HashMap::new(), bodies: HashMap::new(), meta: HashMap::new(), lines: vec![] });
        let xf = { let mut ad = GA(self, &mm); Rc::new(compile(&mm, &mut ad, &f)) };
        self.m = mm;
        let mx = xf.blocks.iter().flat_map(|b| b.ins.iter()).map(|i| i.dbg).max().unwrap_or(0) as usize;
        if self.dbg_hit.len() <= mx { self.dbg_hit.resize(mx + 1, false); }
        self.code[i] = Some(xf.clone());
        xf
    }
    pub fn entry(&mut self, name: &str) -> State {
        let i = *self.fmap.get(name).unwrap_or_else(|| panic!("no harness {}", name));
        let f = self.func(i);
        let regs = vec![Val::I(0); f.nregs];
        State { frames: vec![Frame { f, blk: 0, ip: 0, regs, allocas: vec![], ret: crate::ir::NOREG }], mem: self.init_mem.clone(), pc: vec![], bound: HashMap::new(), inputs: vec![], model: Some(Rc::new(vec![])), obs: vec![], log: vec![], covers: vec![], steps: 0, clock: 1_000_000, nck: 0, may_panic: false, held: 0, real_br: false }
    }
    // ---------- solver interaction ----------
    pub fn slice(&self, pc: &[T], q: T) -> Vec<T> {
        let a = ar();
        let mut vs: HashSet<u32> = a.varsets[q as usize].iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let s = &a.varsets[c as usize];
                if s.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; for &v in s.iter() { vs.insert(v); } out.push(c); }
            }
            if !ch { break; }
        }
        out
    }
    /// None = unsat; Some(None) = unknown; Some(Some(assign)) = sat
    pub fn query(&mut self, pc: &[T], q: T) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        match as_const(q) { Some(0) => return None, Some(_) => return Some(Some(Rc::new(vec![]))), _ => {} }
        let mut key = self.slice(pc, q);
        key.push(q); key.sort(); key.dedup();
        if let Some(r) = self.qcache.get(&key) { self.stats.cache_hits += 1; return r.clone(); }
        if self.late() { self.stats.unknown += 1; return Some(None); }
        let left = self.left_ms();
        if self.mode == Mode::Uf && ncmp(&key).0 >= 3 && self.ord.ord_unsat(&key) { self.qcache.insert(key, None); return None; }
        let s = if self.mode == Mode::Ieee { self.ieee.set_timeout(self.ieee_timeout.min(left)); &mut self.ieee } else { self.uf.set_timeout(20000.min(left)); &mut self.uf };
        let r = match s.check(&key) { Res::Unsat => None, Res::Sat(m) => Some(Some(Rc::new(m))), Res::Unknown => { self.stats.unknown += 1; Some(None) } };
        if self.qcache.len() > 400_000 { self.qcache.clear(); }
        self.qcache.insert(key, r.clone());
        r
    }
    pub fn holds(&self, pc: &[T], model: &Model, memo: &mut HashMap<T, u128>) -> bool { pc.iter().all(|&c| term::eval(c, model, memo) == 1) }
    pub fn overlay(base: &Option<Rc<Model>>, asg: &[(u32, u128)]) -> Model {
        let mut m: Model = base.as_ref().map(|x| (**x).clone()).unwrap_or_default();
        for &(v, x) in asg { if m.len() <= v as usize { m.resize(v as usize + 1, None); } m[v as usize] = Some(x); }
        m
    }
    pub fn mk_model(&self, pc: &[T], q: T, base: &Option<Rc<Model>>, asg: &Option<Rc<Vec<(u32, u128)>>>) -> Option<Rc<Model>> {
        let asg = asg.as_ref()?;
        let m = Self::overlay(base, asg);
        let mut memo = HashMap::new();
        if term::eval(q, &m, &mut memo) == 1 && self.holds(pc, &m, &mut memo) { Some(Rc::new(m)) } else { None }
    }
    /// past the deadline: nothing further is decided (and everything left counts as incomplete)
    pub fn late(&mut self) -> bool { if Instant::now() > self.deadline { self.stop_now = true; true } else { false } }
    /// time left for solver work, in coarse steps (so that the option is not re-sent every query)
    pub fn left_ms(&self) -> u64 { let l = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64; if l >= 20000 { 20000 } else { (l / 1000 + 1) * 1000 } }
    pub fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    /// search for inputs satisfying pc /\ q under the true semantics
    pub fn true_model(&mut self, st: &State, q: T, hint: Option<&Model>) -> Result<Model, bool> { self.model_search(st, q, hint, true) }
    pub fn model_search(&mut self, st: &State, q: T, hint: Option<&Model>, ieee: bool) -> Result<Model, bool> {
        let mut pcq = st.pc.clone(); pcq.push(q);
        if let Some(h) = hint { let mut memo = HashMap::new(); if self.holds(&pcq, h, &mut memo) { return Ok(h.clone()); } }
        if let Some(m) = &st.model { let m = (**m).clone(); let mut memo = HashMap::new(); if self.holds(&pcq, &m, &mut memo) { return Ok(m); } }
        // pool search over the float inputs, discrete ones from the hint/model
        let mut base: Model = hint.cloned().or_else(|| st.model.as_ref().map(|x| (**x).clone())).unwrap_or_default();
        for (&v, &x) in st.bound.iter() { if base.len() <= v as usize { base.resize(v as usize + 1, None); } base[v as usize] = Some(x); }
        let fvars: Vec<(u32, u16)> = st.inputs.iter().filter(|x| x.0 > 0).map(|x| (node(x.1).aux, width(x.1))).filter(|x| !st.bound.contains_key(&x.0)).collect();
        const POOL: &[f64] = &[0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, -0.5, 0.25, 1.5, 10.0, -3.5, 1e-3, 1e3, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e-300, 0.75, 0.9, 7.0, -7.0, 0.1, 0.3, f64::MAX, -f64::MAX];
        if !fvars.is_empty() {
            for k in 0..400 {
                let mut m = base.clone();
                for &(v, w) in &fvars {
                    if m.len() <= v as usize { m.resize(v as usize + 1, None); }
                    let keep = self.rnd() % 4 == 0 && m[v as usize].is_some();
                    if !keep { let lim = if k < 200 { 14 } else { POOL.len() }; let x = POOL[(self.rnd() % lim as u64) as usize]; m[v as usize] = Some(if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 }); }
                }
                let mut memo = HashMap::new();
                if self.holds(&pcq, &m, &mut memo) { return Ok(m); }
            }
        }
        if !ieee || self.late() { return Err(false); }
        if let Some(m) = self.walk(&pcq, &base, &fvars, 400) { return Ok(m); }
        let left = self.left_ms(); self.ieee.set_timeout(self.ieee_timeout.min(left));
        // refine calls to library functions with observed values
        let mut extra: Vec<T> = vec![];
        for _ in 0..4 {
            let mut all = pcq.clone(); all.extend(extra.iter());
            match self.ieee.check(&all) {
                Res::Unsat => return Err(true),
                Res::Unknown => { return if self.late() { Err(false) } else { self.walk(&pcq, &base, &fvars, 3000).ok_or(false) }; }
                Res::Sat(asg) => {
                    let m = Self::overlay(&None, &asg);
                    let mut memo = HashMap::new();
                    if self.holds(&pcq, &m, &mut memo) { return Ok(m); }
                    // add lemmas f(args)=value at the model point
                    let mut added = false;
                    let keys: Vec<T> = memo.keys().copied().collect();
                    for t in keys { let n = node(t); if matches!(n.op, Op::FCall | Op::FRem) { let mut pre = tru(); for i in 0..n.na as usize { let av = term::eval(n.args[i], &m, &mut memo); pre = and(pre, eq(n.args[i], cst(av, width(n.args[i])))); } let v = memo[&t]; extra.push(or(not(pre), eq(t, cst(v, n.w)))); added = true; } }
                    if !added { return Err(false); }
                }
            }
        }
        Err(false)
    }
    /// local search for values of the float inputs that satisfy all conditions under the true semantics
    pub fn walk(&mut self, conds: &[T], base: &Model, fvars: &[(u32, u16)], ms: u64) -> Option<Model> {
        if fvars.is_empty() { return None; }
        const POOL: &[f64] = &[0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0, -0.5, 0.25, 1.5, 10.0, -3.5, 1e-3, 1e3, -1e3, 0.75, 0.9, 7.0, -7.0, 0.1, 1e-9, 1e9, -0.0, 1e300, -1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let until = Instant::now() + std::time::Duration::from_millis(ms.min(self.left_ms()));
        let bits = |x: f64, w: u16| if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
        let val = |b: u128, w: u16| if w == 64 { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
        // variables that have to be equal move together
        let mut cls: HashMap<u32, u32> = HashMap::new();
        fn rep(c: &HashMap<u32, u32>, mut v: u32) -> u32 { while let Some(&x) = c.get(&v) { v = x; } v }
        for &c in conds { let n = node(c); if n.op == Op::Eq { let (a, b) = (node(n.args[0]), node(n.args[1])); if a.op == Op::Var && b.op == Op::Var { let (x, y) = (rep(&cls, a.aux), rep(&cls, b.aux)); if x != y { cls.insert(x, y); } } } }
        let mut mem: HashMap<u32, Vec<u32>> = HashMap::new();
        for &(v, _) in fvars { mem.entry(rep(&cls, v)).or_default().push(v); }
        let fvars: Vec<(u32, u16)> = fvars.iter().filter(|v| mem[&rep(&cls, v.0)][0] == v.0).copied().collect();
        let group: Vec<Vec<u32>> = fvars.iter().map(|v| mem[&rep(&cls, v.0)].clone()).collect();
        // the variables and the compared terms of every condition
        let mut sup: Vec<Vec<usize>> = vec![]; let mut cmp: Vec<Vec<T>> = vec![]; let mut by: Vec<Vec<usize>> = vec![vec![]; fvars.len()];
        let idx: HashMap<u32, usize> = group.iter().enumerate().flat_map(|(i, g)| g.iter().map(move |v| (*v, i))).collect();
        for (k, &c) in conds.iter().enumerate() {
            let (mut seen, mut todo, mut s, mut q) = (std::collections::HashSet::new(), vec![c], vec![], vec![]);
            while let Some(t) = todo.pop() {
                if !seen.insert(t) { continue; }
                let n = node(t);
                if n.op == Op::Var { if let Some(&i) = idx.get(&n.aux) { if !s.contains(&i) { s.push(i); by[i].push(k); } } }
                if matches!(n.op, Op::FLt | Op::FLe | Op::FEq | Op::Eq) && q.len() < 24 { for i in 0..2 { if width(n.args[i]) >= 32 { q.push(n.args[i]); } } }
                for i in 0..n.na as usize { todo.push(n.args[i]); }
            }
            sup.push(s); cmp.push(q);
        }
        let mut m: Model = base.clone();
        // conditions on discrete inputs alone
        let pure: Vec<T> = (0..conds.len()).filter(|&k| sup[k].is_empty()).map(|k| conds[k]).collect();
        if !pure.is_empty() && !self.holds(&pure, &m, &mut HashMap::new()) {
            self.ieee.set_timeout(500);
            let Res::Sat(asg) = self.ieee.check(&pure) else { return None };
            let a = Self::overlay(&None, &asg);
            for (v, x) in a.iter().enumerate() { if x.is_some() { if m.len() <= v { m.resize(v + 1, None); } m[v] = *x; } }
            if !self.holds(&pure, &m, &mut HashMap::new()) { return None; }
        }
        let set = |m: &mut Model, i: usize, b: u128| for &v in &group[i] { if m.len() <= v as usize { m.resize(v as usize + 1, None); } m[v as usize] = Some(b); };
        for (i, &(v, w)) in fvars.iter().enumerate() { let b = m.get(v as usize).copied().flatten().unwrap_or(bits(1.0, w)); set(&mut m, i, b); }
        let mut round = 0;
        loop {
            if round > 0 { for i in 0..fvars.len() { let lim = if round % 2 == 1 { 12 } else { POOL.len() as u64 }; if self.rnd() % 3 > 0 { let x = POOL[(self.rnd() % lim) as usize]; set(&mut m, i, bits(x, fvars[i].1)); } } }
            round += 1;
            let mut memo = HashMap::new();
            let mut sat: Vec<bool> = conds.iter().map(|&c| term::eval(c, &m, &mut memo) == 1).collect();
            for _ in 0..60 {
                let bad: Vec<usize> = (0..conds.len()).filter(|&k| !sat[k]).collect();
                if bad.is_empty() { return Some(m); }
                if Instant::now() > until { if std::env::var("RSX_WALK").is_ok() { eprintln!("WALK fail round {} bad {} of {}: {}", round, bad.len(), conds.len(), bad.iter().map(|&k| format!("[{}]{}", sup[k].len(), term::show(conds[k], 6))).collect::<Vec<_>>().join(" ;; ")); for &(v, w) in &fvars { eprintln!("   v{} = {:?}", v, val(m[v as usize].unwrap(), w)); } } return None; }
                let k = bad[(self.rnd() % bad.len() as u64) as usize];
                if sup[k].is_empty() { break; }
                let mut best: Option<(i64, usize, u128)> = None;
                for _ in 0..sup[k].len().min(3) {
                    let i = sup[k][(self.rnd() % sup[k].len() as u64) as usize]; let (v, w) = fvars[i];
                    let cur = m[v as usize].unwrap();
                    let x = val(cur, w);
                    let mut cand: Vec<u128> = vec![bits(x * 2.0, w), bits(x * 0.5, w), bits(-x, w), bits(x + 1.0, w), bits(x * 1.0001, w), bits(x * 0.999, w)];
                    let mut memo = HashMap::new();
                    for &t in cmp[k].iter() { if width(t) == w { let b = term::eval(t, &m, &mut memo); cand.push(b); cand.push(b.wrapping_add(1) & term::mask(w)); cand.push(b.wrapping_sub(1) & term::mask(w)); } }
                    let o = fvars[(self.rnd() % fvars.len() as u64) as usize]; if o.1 == w { cand.push(m[o.0 as usize].unwrap()); }
                    for _ in 0..5 { cand.push(bits(POOL[(self.rnd() % POOL.len() as u64) as usize], w)); }
                    for b in cand {
                        if b == cur { continue; }
                        set(&mut m, i, b);
                        let mut memo = HashMap::new();
                        let mut d = 0i64; for &j in &by[i] { d += (term::eval(conds[j], &m, &mut memo) == 1) as i64 - sat[j] as i64; }
                        let d = d * 8 + (self.rnd() % 8) as i64;
                        if best.is_none_or(|q| d > q.0) { best = Some((d, i, b)); }
                    }
                    set(&mut m, i, cur);
                }
                let Some((d, i, b)) = best else { break };
                if d < 0 && self.rnd() % 4 > 0 { continue; }
                set(&mut m, i, b);
                let mut memo = HashMap::new();
                for &j in &by[i] { sat[j] = term::eval(conds[j], &m, &mut memo) == 1; }
            }
        }
    }
    pub fn inputs_of(st: &State, m: &Model) -> Vec<u64> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|(_, t, lo)| (term::eval(*t, m, &mut memo) as u64).wrapping_add(*lo)).collect()
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: String, m: Option<&Model>, confirmed: bool) {
        let site = format!("{}|{}", kind, msg);
        let c = self.seen_sites.entry(site).or_insert(0); *c += 1;
        if *c > self.max_viol_per_site { return; }
        let inputs = m.map(|m| Self::inputs_of(st, m)).unwrap_or_default();
        self.viols.push(Viol { kind: kind.into(), msg, inputs, confirmed, log: st.log.clone() });
        if self.viols.len() >= self.stop_after { self.stop_now = true; }
    }
    pub fn add_pc(&mut self, st: &mut State, c: T) {
        if as_const(c).is_some() { return; }
        let n = node(c);
        if n.op == Op::And && n.w == 1 { let (a, b) = (n.args[0], n.args[1]); self.add_pc(st, a); self.add_pc(st, b); return; }
        // bindings
        if n.op == Op::Eq { if let (Op::Var, Some(v)) = (node(n.args[0]).op, as_const(n.args[1])) { st.bound.insert(node(n.args[0]).aux, v); } }
        if n.op == Op::Var && n.w == 1 { st.bound.insert(n.aux, 1); }
        if n.op == Op::Xor && n.w == 1 && as_const(n.args[1]) == Some(1) && node(n.args[0]).op == Op::Var { st.bound.insert(node(n.args[0]).aux, 0); }
        if !st.pc.contains(&c) { st.pc.push(c); }
    }
    pub fn bound_eval(&self, st: &State, t: T) -> Option<u128> {
        if st.bound.is_empty() { return None; }
        let vs = ar().varsets[t as usize].clone();
        if !vs.iter().all(|v| *v == UFVAR || st.bound.contains_key(v)) { return None; }
        let mut m: Model = vec![];
        for v in vs.iter() { if *v == UFVAR { continue; } if m.len() <= *v as usize { m.resize(*v as usize + 1, None); } m[*v as usize] = Some(st.bound[v]); }
        let mut memo = HashMap::new();
        Some(term::eval(t, &m, &mut memo))
    }
    /// pc /\ q has no solution over exact real arithmetic
    pub fn real_unsat(&mut self, pc: &[T], q: T) -> bool {
        let mut key = pc.to_vec(); key.push(q); key.sort(); key.dedup();
        if let Some(&r) = self.rcache.get(&key) { self.stats.cache_hits += 1; return r; }
        if self.late() { return false; }
        let left = self.left_ms(); self.real.set_timeout(self.real_timeout.min(left));
        let r = matches!(self.real.check_real(pc, None, Some(q), false), Some((Res::Unsat, _)));
        self.rcache.insert(key, r); r
    }
    /// Decide a symbolic condition; pushes the other side as a new state if both are feasible.
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = as_const(c) { return Ok(v != 0); }
        if let Some(v) = self.bound_eval(st, c) { return Ok(v != 0); }
        if self.prof { let fr = st.frames.last().unwrap(); let n = format!("PROF {} bb{}", &fr.f.name[..fr.f.name.len().min(140)], fr.blk); eprintln!("{} known={} {}", n, st.model.is_some(), term::show(c, 3).chars().take(200).collect::<String>()); }
        let nc = not(c);
        if st.pc.contains(&c) { return Ok(true); }
        if st.pc.contains(&nc) { return Ok(false); }
        let known = st.model.as_ref().map(|m| { let mut memo = HashMap::new(); term::eval(c, m, &mut memo) == 1 });
        match known {
            Some(side) => {
                let other = if side { nc } else { c };
                let me = if side { c } else { nc };
                if let Some(asg) = self.query(&st.pc, other) {
                    if st.real_br && self.real_unsat(&st.pc, other) { self.add_pc(st, me); return Ok(side); }
                    let mut o = st.clone();
                    o.model = self.mk_model(&st.pc, other, &st.model, &asg);
                    self.add_pc(&mut o, other);
                    if self.trace_forks { eprintln!("FORK {} :: {}", self.trace(st), term::show(c, 6)); }
                    self.stats.forks += 1;
                    self.stack.push(o);
                    self.add_pc(st, me);
                }
                Ok(side)
            }
            None => {
                let a = self.query(&st.pc, c);
                let b = self.query(&st.pc, nc);
                let (a, b) = if st.real_br && a.is_some() && b.is_some() {
                    let (ru, rn) = (self.real_unsat(&st.pc, c), self.real_unsat(&st.pc, nc));
                    if ru && rn { self.stats.infeasible += 1; return Err(Stop::Assume); }
                    if ru { self.add_pc(st, nc); return Ok(false); }
                    if rn { self.add_pc(st, c); return Ok(true); }
                    (a, b)
                } else { (a, b) };
                match (a, b) {
                    (None, None) => { self.stats.infeasible += 1; Err(Stop::Assume) }
                    (Some(_), None) => Ok(true),
                    (None, Some(_)) => Ok(false),
                    (Some(x), Some(y)) => {
                        let mut o = st.clone();
                        o.model = self.mk_model(&st.pc, nc, &st.model, &y);
                        self.add_pc(&mut o, nc);
                        self.stats.forks += 1;
                        self.stack.push(o);
                        st.model = self.mk_model(&st.pc, c, &st.model, &x);
                        self.add_pc(st, c);
                        Ok(true)
                    }
                }
            }
        }
    }
    /// Make a term concrete, forking over its other feasible values.
    pub fn conc(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(v) = as_const(t) { return Ok(v); }
        if let Some(v) = self.bound_eval(st, t) { return Ok(v); }
        let v = match &st.model {
            Some(m) => { let mut memo = HashMap::new(); term::eval(t, m, &mut memo) }
            None => { // no concrete model at hand: take a value from the solver's assignment for the conditions that matter
                let nz = not(eq(t, cst(0, width(t))));
                match self.query(&st.pc, nz) {
                    None => 0,
                    Some(Some(a)) => { let m = Self::overlay(&None, &a); let mut memo = HashMap::new(); term::eval(t, &m, &mut memo) }
                    Some(None) => return self.conc_bits(st, t),
                }
            }
        };
        let c = eq(t, cst(v, width(t)));
        let n = st.pc.len();
        if self.decide(st, c)? { Ok(v) } else if st.pc.len() > n { self.conc(st, t) } else { self.conc_bits(st, t) }
    }
    fn conc_bits(&mut self, st: &mut State, t: T) -> R<u128> { let mut v = 0u128; for k in 0..width(t) { let bt = extract(t, k, 1); if self.decide(st, bt)? { v |= 1 << k; } } Ok(v) }
    pub fn cv(&mut self, st: &mut State, v: &Val) -> R<u64> { match v { Val::I(x) => Ok(*x), Val::W(x) => Ok(*x as u64), Val::S(t) => Ok(self.conc(st, *t)? as u64), Val::A(_) => panic!("agg as int") } }
    // ---------- memory ----------
    pub fn obj<'b>(&self, st: &'b State, addr: u64, n: u64) -> R<&'b Rc<Obj>> {
        let id = (addr >> 32) as usize; let off = addr & 0xffff_ffff;
        match st.mem.get(id) { Some(Some(o)) if off + n <= o.size => Ok(o), Some(Some(o)) => Err(Stop::Ub(format!("out-of-bounds access (offset {} + {} bytes, object of {} bytes)", off as i64, n, o.size))), _ => Err(Stop::Ub(format!("access to invalid or freed memory at {:#x}", addr))) }
    }
    pub fn obj_mut<'b>(&self, st: &'b mut State, addr: u64, n: u64) -> R<&'b mut Obj> { self.obj(st, addr, n)?; Ok(Rc::make_mut(st.mem[(addr >> 32) as usize].as_mut().unwrap())) }
    pub fn load(&mut self, st: &mut State, l: &Lay, addr: u64) -> R<Val> {
        match l {
            Lay::S(w) => { let nb = (*w as u32).div_ceil(8); let o = self.obj(st, addr, nb as u64)?; let v = o.read(addr as u32, nb);
                Ok(match v { Val::S(t) => { if width(t) != *w { from_term(extract(t, 0, *w)) } else { Val::S(t) } } Val::I(x) if *w < 64 => Val::I(x & mask(*w) as u64), v => v }) }
            Lay::Agg(v) => { let mut r = Vec::with_capacity(v.len()); for (o, l) in v { r.push(self.load(st, l, addr.wrapping_add(*o))?); } Ok(Val::A(Rc::new(r))) }
        }
    }
    pub fn store(&mut self, st: &mut State, l: &Lay, addr: u64, v: &Val) -> R<()> {
        match l {
            Lay::S(w) => { let nb = (*w as u32).div_ceil(8); let o = self.obj_mut(st, addr, nb as u64)?; o.write(addr as u32, nb, v); Ok(()) }
            Lay::Agg(ls) => { if let Val::A(vs) = v { for (i, (o, l)) in ls.iter().enumerate() { self.store(st, l, addr.wrapping_add(*o), &vs[i])?; } } Ok(()) }
        }
    }
    pub fn alloc(&self, st: &mut State, n: u64, heap: bool) -> R<u64> {
        if n > 1 << 31 { return Err(Stop::Unsup(format!("allocation of {} bytes", n))); }
        st.mem.push(Some(Rc::new(Obj::new(n, heap)))); Ok((st.mem.len() as u64 - 1) << 32)
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 || dst == src { return Ok(()); }
        let s = self.obj(st, src, n)?.clone();
        let so = src as u32;
        let d = self.obj_mut(st, dst, n)?;
        let dof = dst as u32;
        d.clear(dof, n as u32);
        d.data[dof as usize..dof as usize + n as usize].copy_from_slice(&s.data[so as usize..so as usize + n as usize]);
        if !s.sym.is_empty() {
            for (&o, &t) in s.sym.range(so.saturating_sub(16)..so + n as u32) {
                let k = (width(t) / 8) as u32;
                if o + k <= so { continue; }
                if o >= so && o + k <= so + n as u32 { d.sym.insert(dof + (o - so), t); }
                else { for i in 0..k { let b = o + i; if b >= so && b < so + n as u32 { let e = extract(t, (i * 8) as u16, 8); match as_const(e) { Some(v) => d.data[(dof + b - so) as usize] = v as u8, None => { d.sym.insert(dof + (b - so), e); } } } } }
            }
        }
        Ok(())
    }
    pub fn cstr(&self, st: &State, p: u64, n: u64) -> String { match self.obj(st, p, n) { Ok(o) => String::from_utf8_lossy(&o.data[p as u32 as usize..(p as u32 as u64 + n) as usize]).to_string(), Err(_) => "?".into() } }
    pub fn byte(&mut self, st: &State, p: u64) -> R<T> { let o = self.obj(st, p, 1)?; Ok(to_term(&o.read(p as u32, 1), 8)) }
    // ---------- operators ----------
    pub fn bin(&mut self, st: &mut State, op: Op, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = mask(w) as u64;
            return Ok(Val::I(match op {
                Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m }, Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => return Err(Stop::Ub("division by zero".into())),
                Op::UDiv => x / y, Op::URem => x % y,
                _ => term::eval_op(op, w, 0, [x as u128, y as u128, 0], [w, w, 0]) as u64,
            }));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) { let mut r = vec![]; for i in 0..x.len() { r.push(self.bin(st, op, w, &x[i], &y[i])?); } return Ok(Val::A(Rc::new(r))); }
        Ok(from_term(app(op, w, 0, &[to_term(a, w), to_term(b, w)])))
    }
    pub fn icmp(&self, k: u8, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let s = |v: u64| -> i64 { let sh = 64 - w as u32; ((v << sh) as i64) >> sh };
            return Val::I(match k { 0 => x == y, 1 => x != y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => s(*x) > s(*y), 7 => s(*x) >= s(*y), 8 => s(*x) < s(*y), _ => s(*x) <= s(*y) } as u64);
        }
        if let (Val::A(x), Val::A(y)) = (a, b) { return Val::A(Rc::new((0..x.len()).map(|i| self.icmp(k, w, &x[i], &y[i])).collect())); }
        let (x, y) = (to_term(a, w), to_term(b, w));
        let t = match k { 0 => eq(x, y), 1 => not(eq(x, y)), 2 => app(Op::Ult, 1, 0, &[y, x]), 3 => app(Op::Ule, 1, 0, &[y, x]), 4 => app(Op::Ult, 1, 0, &[x, y]), 5 => app(Op::Ule, 1, 0, &[x, y]), 6 => app(Op::Slt, 1, 0, &[y, x]), 7 => app(Op::Sle, 1, 0, &[y, x]), 8 => app(Op::Slt, 1, 0, &[x, y]), _ => app(Op::Sle, 1, 0, &[x, y]) };
        from_term(t)
    }
    pub fn fcmp(&self, k: u8, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) { return Val::A(Rc::new((0..x.len()).map(|i| self.fcmp(k, w, &x[i], &y[i])).collect())); }
        let (x, y) = (to_term(a, w), to_term(b, w));
        let lt = |a, b| app(Op::FLt, 1, 0, &[a, b]); let le = |a, b| app(Op::FLe, 1, 0, &[a, b]); let feq = app(Op::FEq, 1, 0, &[x, y]);
        let nan = |a| app(Op::FNan, 1, 0, &[a]); let uno = or(nan(x), nan(y));
        from_term(match k { 0 => feq, 1 => lt(y, x), 2 => le(y, x), 3 => lt(x, y), 4 => le(x, y), 5 => or(lt(x, y), lt(y, x)), 6 => not(uno), 7 => not(or(lt(x, y), lt(y, x))), 8 => not(le(x, y)), 9 => not(lt(x, y)), 10 => not(le(y, x)), 11 => not(lt(y, x)), 12 => not(feq), 13 => uno, 14 => tru(), _ => fls() })
    }
    pub fn cast(&self, k: Cst, a: u16, b: u16, v: &Val) -> Val {
        if let Val::A(x) = v { return Val::A(Rc::new(x.iter().map(|y| self.cast(k, a, b, y)).collect())); }
        match (k, v) {
            (Cst::Bit, _) => v.clone(),
            (Cst::Zext, Val::I(x)) if b <= 64 => Val::I(*x),
            (Cst::Trunc, Val::I(x)) => Val::I(x & mask(b) as u64),
            _ => { let t = to_term(v, a);
                from_term(match k { Cst::Zext => zext(t, b), Cst::Sext => app(Op::SExt, b, 0, &[t]), Cst::Trunc => extract(t, 0, b), Cst::FToSi => app(Op::FToSi, b, 0, &[t]), Cst::FToUi => app(Op::FToUi, b, 0, &[t]), Cst::SiToF => app(Op::SiToF, b, 0, &[t]), Cst::UiToF => app(Op::UiToF, b, 0, &[t]), Cst::FExt => app(Op::FExt, b, 0, &[t]), Cst::FTr => app(Op::FTr, b, 0, &[t]), Cst::Bit => t }) }
        }
    }
    pub fn sel(&self, c: &Val, a: &Val, b: &Val, l: &Lay) -> Val {
        match c {
            Val::I(x) => if *x & 1 != 0 { a.clone() } else { b.clone() },
            Val::A(cs) => { if let (Val::A(x), Val::A(y), Lay::Agg(ls)) = (a, b, l) { Val::A(Rc::new((0..cs.len()).map(|i| self.sel(&cs[i], &x[i], &y[i], &ls[i].1)).collect())) } else { panic!() } }
            Val::S(t) => match (a, b, l) {
                (Val::A(x), Val::A(y), Lay::Agg(ls)) => Val::A(Rc::new((0..x.len()).map(|i| self.sel(c, &x[i], &y[i], &ls[i].1)).collect())),
                (_, _, Lay::S(w)) => from_term(ite(*t, to_term(a, *w), to_term(b, *w))),
                _ => panic!(),
            },
            _ => panic!(),
        }
    }
}

pub struct GA<'a>(pub &'a mut Engine, pub &'a Module);
impl<'a> Addr for GA<'a> {
    fn addr(&mut self, g: &str) -> u64 { self.0.addr(g) }
    fn rel(&mut self, t: u64) -> u32 { self.0.rel(t) }
    fn fidx(&mut self, g: &str) -> Option<usize> { if self.1.bodies.contains_key(g) && !is_ext(g) { self.0.addr(g); self.0.fmap.get(g).copied() } else { self.0.addr(g); None } }
}
pub fn write_agg(o: &mut Obj, off: u64, l: &Lay, v: &Val) {
    match (l, v) { (Lay::S(w), _) => o.write(off as u32, (*w as u32).div_ceil(8), v), (Lay::Agg(ls), Val::A(vs)) => for (i, (f, l)) in ls.iter().enumerate() { write_agg(o, off + f, l, &vs[i]); }, _ => panic!() }
}

/// number of different float comparisons between two non-constant terms below the given conditions (stops at 3)
fn ncmp(key: &[T]) -> (usize, usize) {
    let mut seen = HashSet::new(); let mut st = key.to_vec(); let (mut k, mut a) = (0, 0);
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let n = node(x);
        if matches!(n.op, Op::FLt | Op::FLe | Op::FEq) { a += 1; if as_const(n.args[0]).is_none() && as_const(n.args[1]).is_none() { k += 1; } continue; }
        if n.w == 1 { for i in 0..n.na as usize { st.push(n.args[i]); } }
    }
    (k, a)
}
