//! Main interpreter loop, calls, intrinsics and the harness interface.
use crate::comp::*;
use crate::exec::*;
use crate::solver::*;
use crate::term::{self, *};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;
type R<X> = Result<X, Stop>;

fn tt(v: &Val, w: u16) -> T { match v { Val::I(x) => cst(*x as u128, w), Val::W(x) => cst(*x, w), Val::S(t) => *t, Val::A(_) => panic!("agg") } }
fn is_bits(l: &Lay) -> bool { matches!(l, Lay::Agg(v) if matches!(v.first(), Some((_, Lay::S(1))))) }
#[inline] fn get<'a>(fr: &'a Frame, o: &'a O) -> &'a Val { match o { O::R(r) => &fr.regs[*r as usize], O::K(v) => v } }

impl Engine {
    /// Explore one state to its end, pushing alternatives on the stack.
    pub fn run(&mut self, mut st: State) {
        let r = loop { match self.steps(&mut st) { Ok(()) => {} Err(s) => break s } };
        self.stats.paths += 1;
        self.stats.instrs += st.steps;
        match r {
            Stop::End => {
                self.stats.ok_paths += 1;
                for c in &st.covers { *self.covers.entry(*c).or_insert(0) += 1; }
                if self.samples.len() < self.max_samples || (self.rnd() % 64 == 0 && self.samples.len() < self.max_samples * 4) {
                    let m = match &st.model { Some(m) => Some((**m).clone()), None => self.model_search(&st, tru(), None, false).ok() };
                    if let Some(m) = m { let mut memo = HashMap::new(); let obs = st.obs.iter().map(|t| term::eval(*t, &m, &mut memo) as u64).collect(); let inp = Self::inputs_of(&st, &m); self.samples.push((inp, obs)); }
                }
            }
            Stop::Assume => { self.stats.assumed += 1; }
            Stop::Fail => {}
            Stop::Panic(_) if st.may_panic => { self.stats.ok_paths += 1; for c in &st.covers { *self.covers.entry(*c).or_insert(0) += 1; } }
            Stop::Panic(m) => self.path_viol(&st, "panic", m),
            Stop::Ub(m) => { let tr = self.trace(&st); self.path_viol(&st, "ub", format!("{} in {}", m, tr)); }
            Stop::Steps => self.path_viol(&st, "steps", format!("step limit exceeded in {}", st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default())),
            Stop::Unsup(m) => { self.stats.incomplete += 1; let tr = self.trace(&st); let n = format!("unsupported: {} in {}", m, tr); if self.notes.len() < 20 && !self.notes.contains(&n) { self.notes.push(n); } }
        }
    }
    pub fn trace(&self, st: &State) -> String { st.frames.iter().rev().take(3).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" <- ") }
    fn path_viol(&mut self, st: &State, kind: &str, msg: String) {
        if self.defer && self.model_search(st, tru(), None, false).is_err() { self.obl.push((st.clone(), fls(), kind.to_string(), msg, None, None)); return; }
        match self.true_model(st, tru(), None) {
            Ok(m) => self.report(st, kind, msg, Some(&m), true),
            Err(true) => { self.stats.infeasible += 1; }
            Err(false) => { self.stats.undecided += 1; let n = format!("undecided {}: {}", kind, msg); if self.notes.len() < 20 && !self.notes.contains(&n) { self.notes.push(n); } }
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, ps) = &b.phis[0];
                let v = ps.iter().find(|x| x.1 == from).map(|x| get(fr, &x.0).clone()).expect("phi");
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, ps)| ps.iter().find(|x| x.1 == from).map(|x| get(fr, &x.0).clone()).expect("phi")).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = to; fr.ip = 0;
    }
    fn steps(&mut self, st: &mut State) -> R<()> {
        let f = st.frames.last().unwrap().f.clone();
        loop {
            let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.blk, fr.ip) };
            let b = &f.blocks[blk as usize];
            let i = &b.ins[ip as usize];
            st.steps += 1;
            if st.steps & 0xffff == 0 { if st.steps > self.max_steps { return Err(Stop::Steps); } if Instant::now() > self.deadline { self.stop_now = true; return Err(Stop::Unsup("time limit".into())); } }
            if self.itrace { let fr = st.frames.last().unwrap(); if ip == 0 { eprintln!("{}{} bb{}", " ".repeat(st.frames.len()), &f.name[..f.name.len().min(90)], blk); for (k, r) in fr.regs.iter().enumerate() { if let Val::I(v) = r { if *v != 0 { eprint!(" r{}={:#x}", k, v); } } else if let Val::S(t) = r { eprint!(" r{}=S{}", k, t); } else if let Val::A(a) = r { eprint!(" r{}=A[", k); for x in a.iter() { if let Val::I(v) = x { eprint!("{:x} ", v) } else { eprint!("? ") } } eprint!("]"); } } eprintln!(); } }
            if i.dbg != 0 { self.dbg_hit[i.dbg as usize] = true; }
            macro_rules! g { ($o:expr) => { get(st.frames.last().unwrap(), $o) } }
            macro_rules! gc { ($o:expr) => { get(st.frames.last().unwrap(), $o).clone() } }
            macro_rules! set { ($v:expr) => {{ let v = $v; let fr = st.frames.last_mut().unwrap(); fr.regs[i.dst as usize] = v; fr.ip += 1; }} }
            match &i.x {
                X::Bin(op, w, a, c) => {
                    if let (Val::I(x), Val::I(y)) = (g!(a), g!(c)) {
                        let m = mask(*w) as u64;
                        let r = match op { Op::Add => x.wrapping_add(*y) & m, Op::Sub => x.wrapping_sub(*y) & m, Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y, Op::Mul => x.wrapping_mul(*y) & m,
                            _ => { let (a, b) = (Val::I(*x), Val::I(*y)); if let Val::I(r) = self.bin(st, *op, *w, &a, &b)? { r } else { panic!() } } };
                        set!(Val::I(r));
                    } else {
                        let (a, c) = (gc!(a), gc!(c));
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) { if let Val::S(t) = &c { let z = eq(*t, cst(0, *w)); if self.decide(st, z)? { return Err(Stop::Ub("division by zero".into())); } } }
                        let v = self.bin(st, *op, *w, &a, &c)?; set!(v);
                    }
                }
                X::FNeg(w, a) => { let a = gc!(a); let v = self.map1(&a, &|v| from_term(app(Op::FNeg, *w, 0, &[tt(v, *w)]))); set!(v); }
                X::ICmp(k, w, a, c) => { let v = self.icmp(*k, *w, g!(a), g!(c)); set!(v); }
                X::FCmp(k, w, a, c) => { let v = self.fcmp(*k, *w, g!(a), g!(c)); set!(v); }
                X::Cast(k, a, b, o) => { let v = self.cast(*k, *a, *b, g!(o)); set!(v); }
                X::Select(c, a, b, l) => { let v = self.sel(g!(c), g!(a), g!(b), l); set!(v); }
                X::Load(l, p) => { let p = gc!(p); let a = self.cv(st, &p)?; let v = self.load(st, l, a)?; set!(v); }
                X::Store(l, v, p) => { let p = gc!(p); let a = self.cv(st, &p)?; let v = gc!(v); self.store(st, l, a, &v)?; st.frames.last_mut().unwrap().ip += 1; }
                X::Gep(bp, off, dynv, _) => {
                    let fr = st.frames.last().unwrap();
                    let mut sym = false;
                    if let Val::S(_) = get(fr, bp) { sym = true; }
                    for (_, _, o) in dynv { if let Val::S(_) = get(fr, o) { sym = true; } }
                    let v = if !sym {
                        let mut p = match get(fr, bp) { Val::I(x) => *x, _ => panic!("gep base") };
                        p = p.wrapping_add(*off as u64);
                        for (s, w, o) in dynv { if let Val::I(x) = get(fr, o) { let sx = if *w < 64 { term::sx(*x as u128, *w) as i64 } else { *x as i64 }; p = p.wrapping_add(sx.wrapping_mul(*s) as u64); } }
                        Val::I(p)
                    } else {
                        let mut t = app(Op::Add, 64, 0, &[tt(get(fr, bp), 64), cst(*off as u64 as u128, 64)]);
                        for (s, w, o) in dynv { let x = tt(get(fr, o), *w); let x = if *w < 64 { app(Op::SExt, 64, 0, &[x]) } else { x }; let x = app(Op::Mul, 64, 0, &[x, cst(*s as u64 as u128, 64)]); t = app(Op::Add, 64, 0, &[t, x]); }
                        from_term(t)
                    };
                    set!(v);
                }
                X::Alloca(sz, n) => { let n = gc!(n); let k = self.cv(st, &n)?; let a = self.alloc(st, sz * k, false)?; st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32); set!(Val::I(a)); }
                X::Extract(a, ix) => { let mut v = g!(a).clone(); for k in ix { v = if let Val::A(x) = &v { x[*k as usize].clone() } else { panic!("extractvalue") }; } set!(v); }
                X::Insert(a, e, ix) => { let a = gc!(a); let e = gc!(e); let v = ins(&a, &e, ix); set!(v); }
                X::ExtEl(a, k) => { let kk = gc!(k); let k = self.cv(st, &kk)?; let v = if let Val::A(x) = g!(a) { x[k as usize].clone() } else { panic!() }; set!(v); }
                X::InsEl(a, e, k) => { let kk = gc!(k); let k = self.cv(st, &kk)?; let v = ins(g!(a), g!(e), &[k as u32]); set!(v); }
                X::Shuf(a, b, m) => { let v = if let (Val::A(x), Val::A(y)) = (g!(a), g!(b)) { Val::A(Rc::new(m.iter().map(|k| if *k < 0 { x[0].clone() } else if (*k as usize) < x.len() { x[*k as usize].clone() } else { y[*k as usize - x.len()].clone() }).collect())) } else { panic!() }; set!(v); }
                X::BitVec(l1, l2, v) if is_bits(l1) || is_bits(l2) => {
                    let v = gc!(v);
                    // vectors of i1 are packed, element 0 in the lowest bit
                    let packed: T = match (&v, l1) { (Val::A(xs), Lay::Agg(ls)) => { let mut acc: Option<T> = None; for (x, (_, l)) in xs.iter().zip(ls) { let w = if let Lay::S(w) = l { *w } else { panic!() }; let b = tt(x, w); acc = Some(match acc { None => b, Some(a) => concat(b, a) }); } acc.unwrap() } (_, Lay::S(w)) => tt(&v, *w), _ => panic!() };
                    let r = match l2 { Lay::S(_) => from_term(packed), Lay::Agg(ls) => { let mut at = 0u16; Val::A(Rc::new(ls.iter().map(|(_, l)| { let w = if let Lay::S(w) = l { *w } else { panic!() }; let e = from_term(extract(packed, at, w)); at += w; e }).collect())) } };
                    set!(r);
                }
                X::BitVec(l1, l2, v) => { let v = gc!(v); let mut o = Obj::new(64, false); write_agg(&mut o, 0, l1, &v); st.mem.push(Some(Rc::new(o))); let a = (st.mem.len() as u64 - 1) << 32; let r = self.load(st, l2, a)?; st.mem.pop(); set!(r); }
                X::Br(l) => self.goto(st, *l),
                X::CondBr(c, x, y) => { let side = match g!(c) { Val::I(v) => *v & 1 != 0, Val::S(t) => { let t = *t; self.decide(st, t)? } _ => panic!() }; self.goto(st, if side { *x } else { *y }); }
                X::Switch(w, v, d, cs) => {
                    let tgt = match g!(v) {
                        Val::I(x) => cs.iter().find(|c| c.0 as u64 == *x).map(|c| c.1).unwrap_or(*d),
                        Val::W(x) => cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*d),
                        Val::S(t) => {
                            let t = *t; let mut order: Vec<u32> = vec![]; let mut cond: HashMap<u32, T> = HashMap::new();
                            for (k, l) in cs { let e = eq(t, cst(*k, *w)); let c = cond.entry(*l).or_insert_with(|| { order.push(*l); fls() }); *c = or(*c, e); }
                            let mut r = None;
                            for l in order { if l == *d { continue; } if self.decide(st, cond[&l])? { r = Some(l); break; } }
                            r.unwrap_or(*d)
                        }
                        _ => panic!(),
                    };
                    self.goto(st, tgt);
                }
                X::Ret(v) => {
                    let v = v.as_ref().map(|v| gc!(v));
                    let fr = st.frames.pop().unwrap();
                    for a in fr.allocas { st.mem[a as usize] = None; }
                    while let Some(None) = st.mem.last() { st.mem.pop(); }
                    if st.frames.is_empty() { return Err(Stop::End); }
                    let ca = st.frames.last_mut().unwrap();
                    if fr.ret != crate::ir::NOREG { ca.regs[fr.ret as usize] = v.unwrap_or(Val::I(0)); }
                    ca.ip += 1;
                    return Ok(());
                }
                X::Unreachable => return Err(Stop::Ub("unreachable code reached".into())),
                X::Copy(a) => { let v = gc!(a); set!(v); }
                X::Nop => { st.frames.last_mut().unwrap().ip += 1; }
                X::Rmw(op, w, p, v) => {
                    let (p, v) = (gc!(p), gc!(v)); let a = self.cv(st, &p)?; let l = Lay::S(*w);
                    let old = self.load(st, &l, a)?;
                    let nv = match op.as_str() { "xchg" => v, "add" => self.bin(st, Op::Add, *w, &old, &v)?, "sub" => self.bin(st, Op::Sub, *w, &old, &v)?, "and" => self.bin(st, Op::And, *w, &old, &v)?, "or" => self.bin(st, Op::Or, *w, &old, &v)?, "xor" => self.bin(st, Op::Xor, *w, &old, &v)?, "umax" => { let c = self.icmp(2, *w, &old, &v); self.sel(&c, &old, &v, &l) } "umin" => { let c = self.icmp(4, *w, &old, &v); self.sel(&c, &old, &v, &l) } _ => return Err(Stop::Unsup(format!("atomicrmw {}", op))) };
                    self.store(st, &l, a, &nv)?; set!(old);
                }
                X::CmpXchg(w, p, x, y) => {
                    let (p, x, y) = (gc!(p), gc!(x), gc!(y)); let a = self.cv(st, &p)?; let l = Lay::S(*w);
                    let old = self.load(st, &l, a)?;
                    let c = self.icmp(0, *w, &old, &x);
                    let ok = match c { Val::I(v) => v != 0, Val::S(t) => self.decide(st, t)?, _ => panic!() };
                    if ok { self.store(st, &l, a, &y)?; }
                    set!(Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                }
                X::Call(c, args, rw) => {
                    let av: Vec<Val> = args.iter().map(|a| gc!(a)).collect();
                    let target = match c {
                        Callee::F(k) => Ok(*k),
                        Callee::Ext(n) => Err(n.clone()),
                        Callee::Ind(o) => { let v = gc!(o); let a = self.cv(st, &v)?; let k = (a >> 32).wrapping_sub(FBASE) as usize; if a & 0xffff_ffff != 0 || k >= self.fnames.len() { return Err(Stop::Ub(format!("call through invalid pointer {:#x}", a))); } let n = self.fnames[k].clone(); match self.fidx(&n) { Some(k) => Ok(k), None => Err(n) } }
                    };
                    match target {
                        Ok(k) => {
                            let nf = self.func(k);
                            if st.frames.len() > 2000 { return Err(Stop::Steps); }
                            let mut regs = vec![Val::I(0); nf.nregs];
                            for (p, v) in nf.params.iter().zip(av) { regs[*p as usize] = v; }
                            st.frames.push(Frame { f: nf, blk: 0, ip: 0, regs, allocas: vec![], ret: i.dst });
                            return Ok(());
                        }
                        Err(n) => { let v = self.ext(st, &n, &av, *rw)?; let fr = st.frames.last_mut().unwrap(); if i.dst != crate::ir::NOREG { fr.regs[i.dst as usize] = v; } fr.ip += 1; }
                    }
                }
            }
        }
    }
    fn map1(&self, a: &Val, f: &dyn Fn(&Val) -> Val) -> Val { if let Val::A(x) = a { Val::A(Rc::new(x.iter().map(|y| self.map1(y, f)).collect())) } else { f(a) } }
    fn map2(&self, a: &Val, b: &Val, f: &dyn Fn(&Val, &Val) -> Val) -> Val { if let (Val::A(x), Val::A(y)) = (a, b) { Val::A(Rc::new((0..x.len()).map(|i| self.map2(&x[i], &y[i], f)).collect())) } else { f(a, b) } }
    fn new_input(&mut self, st: &mut State, kind: u8, w: u16, lo: u64, hi: u64) -> T {
        let idx = st.inputs.len() as u32;
        let key = (idx, kind, w);
        let t = match self.vars.get(&key) { Some(&t) => t, None => {
            let d: u128 = match kind { 1 => 1.0f64.to_bits() as u128, 2 => 1.0f32.to_bits() as u128, _ => 0 };
            let t = new_var(format!("in{}", idx), w, kind > 0, d); self.vars.insert(key, t); t } };
        let _ = hi;
        st.inputs.push((kind, t, lo));
        t
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if let Some(v) = as_const(c) { return if v == 0 { Err(Stop::Assume) } else { Ok(()) }; }
        if st.pc.contains(&c) { return Ok(()); }
        let known = st.model.as_ref().map_or(false, |m| { let mut memo = HashMap::new(); term::eval(c, m, &mut memo) == 1 });
        if !known {
            match self.query(&st.pc, c) { None => return Err(Stop::Assume), Some(a) => { st.model = self.mk_model(&st.pc, c, &st.model, &a); } }
        }
        self.add_pc(st, c);
        Ok(())
    }
    fn check(&mut self, st: &mut State, c: T, kind: &str, msg: String, real: Option<(T, T)>) -> R<()> {
        st.nck += 1;
        if self.seen_sites.get(&format!("{}|{}", kind, msg)).map_or(false, |k| *k >= self.max_viol_per_site) { return Ok(()); }
        if as_const(c) == Some(1) { self.stats.checks_trivial += 1; return Ok(()); }
        let bad = not(c);
        if let Some(v) = self.bound_eval(st, c) { if v == 1 { self.stats.checks_proved += 1; return Ok(()); } }
        // cheap refutation by the state's own model
        let mut hint: Option<Vec<Option<u128>>> = None;
        let uf = self.query(&st.pc, bad);
        match uf {
            None => { self.stats.checks_proved += 1; return Ok(()); }
            Some(a) => { if let Some(a) = a { hint = Some(Self::overlay(&st.model, &a)); } }
        }
        // hard obligations met while the work is still being split up are left to the workers
        if self.defer { self.obl.push((st.clone(), c, kind.to_string(), msg, real, hint)); return Ok(()); }
        self.hard(st, c, kind, msg, real, hint)
    }
    pub fn hard(&mut self, st: &mut State, c: T, kind: &str, msg: String, real: Option<(T, T)>, mut hint: Option<Vec<Option<u128>>>) -> R<()> {
        let bad = not(c);
        if self.late() { self.stats.undecided += 1; let n = format!("time limit: {}", msg); if self.notes.len() < 20 && !self.notes.contains(&n) { self.notes.push(n); } return Ok(()); }
        if let Some((x, y)) = real {
            let pc = st.pc.clone();
            let left = self.left_ms();
            // without the path condition first: usually enough and much easier
            for frac in [false, true] {
                self.real.set_timeout(self.real_timeout.min(2000).min(left));
                if let Some((Res::Unsat, _)) = self.real.check_real(&[], Some((x, y)), None, frac) { self.stats.checks_real += 1; return Ok(()); }
            }
            for frac in [true, false] {
                self.real.set_timeout(self.real_timeout.min(self.left_ms()) / if frac { 2 } else { 1 });
                match self.real.check_real(&pc, Some((x, y)), None, frac) {
                    Some((Res::Unsat, _)) => { self.stats.checks_real += 1; return Ok(()); }
                    Some((Res::Sat(bv), rv)) => {
                        // candidate: evaluate numerically
                        let mut m = Self::overlay(&st.model, &bv);
                        for (v, f) in rv { let w = ar().vars[v as usize].w; if m.len() <= v as usize { m.resize(v as usize + 1, None); } m[v as usize] = Some(if w == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }); }
                        if self.real_diff(st, x, y, &m) { self.report(st, kind, msg, Some(&m), true); return self.after_fail(st, c); }
                        break;
                    }
                    _ => {}
                }
            }
            if let Some(m) = self.real_search(st, x, y) { self.report(st, kind, msg, Some(&m), true); return self.after_fail(st, c); }
            self.stats.undecided += 1; let n = format!("undecided (real): {}", msg); if self.notes.len() < 20 && !self.notes.contains(&n) { self.notes.push(n); }
            return Ok(());
        }
        if st.real_br {
            let pc = st.pc.clone(); let left = self.left_ms(); self.real.set_timeout(self.real_timeout.min(left));
            match self.real.check_real(&pc, None, Some(bad), false) {
                Some((Res::Unsat, _)) => { self.stats.checks_real += 1; return Ok(()); }
                Some((Res::Sat(bv), rv)) => {
                    let mut m = Self::overlay(&st.model, &bv);
                    for (v, f) in rv { let w = ar().vars[v as usize].w; if m.len() <= v as usize { m.resize(v as usize + 1, None); } m[v as usize] = Some(if w == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }); }
                    hint = Some(m);
                }
                _ => {}
            }
        }
        match self.true_model(st, bad, hint.as_ref()) {
            Ok(m) => { self.report(st, kind, msg, Some(&m), true); self.after_fail(st, c) }
            Err(true) => { self.stats.checks_ieee += 1; Ok(()) }
            Err(false) => { self.stats.undecided += 1; let n = format!("undecided: {} [{}]", msg, st.log.join("; ")); if self.notes.len() < 20 && !self.notes.contains(&n) { self.notes.push(n); } Ok(()) }
        }
    }
    fn after_fail(&mut self, st: &mut State, c: T) -> R<()> {
        if as_const(c) == Some(0) { return Err(Stop::Fail); }
        match self.query(&st.pc, c) { None => Err(Stop::Fail), Some(a) => { let m = self.mk_model(&st.pc, c, &st.model, &a); st.model = m; self.add_pc(st, c); Ok(()) } }
    }
    fn real_diff(&self, st: &State, x: T, y: T, m: &Vec<Option<u128>>) -> bool {
        let mut memo = HashMap::new();
        for &c in &st.pc { if term::eval(c, m, &mut memo) != 1 { return false; } }
        let f = |v: u128, w: u16| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
        let (a, b) = (f(term::eval(x, m, &mut memo), width(x)), f(term::eval(y, m, &mut memo), width(y)));
        let tol = if width(x) == 64 { 1e-6 } else { 1e-2 };
        a.is_finite() && b.is_finite() && (a - b).abs() > tol * 1f64.max(a.abs()).max(b.abs())
    }
    fn real_search(&mut self, st: &State, x: T, y: T) -> Option<Vec<Option<u128>>> {
        let fv: Vec<(u32, u16)> = st.inputs.iter().filter(|i| i.0 > 0).map(|i| (node(i.1).aux, width(i.1))).collect();
        let base = st.model.as_ref().map(|m| (**m).clone()).unwrap_or_default();
        const POOL: &[f64] = &[0.5, 1.5, -0.5, 2.0, 0.25, -1.5, 3.0, 0.75, -0.3, 0.9, 5.0, -2.0, 0.1];
        for _ in 0..400 {
            let mut m = base.clone();
            for &(v, w) in &fv { if m.len() <= v as usize { m.resize(v as usize + 1, None); } let p = POOL[(self.rnd() % POOL.len() as u64) as usize]; m[v as usize] = Some(if w == 64 { p.to_bits() as u128 } else { (p as f32).to_bits() as u128 }); }
            if self.real_diff(st, x, y, &m) { return Some(m); }
        }
        None
    }
    fn site(&self, st: &State, loc: u64) -> String {
        let rd = |p: u64| -> Option<u64> { let o = st.mem.get((p >> 32) as usize)?.as_ref()?; if (p & 0xffff_ffff) + 8 > o.size { return None; } if let Val::I(v) = o.read(p as u32, 8) { Some(v) } else { None } };
        let f = (|| { let p = rd(loc)?; let n = rd(loc + 8)?; let lc = rd(loc + 16)?; let o = st.mem.get((p >> 32) as usize)?.as_ref()?; let s = (p & 0xffff_ffff) as usize; let nm = String::from_utf8_lossy(o.data.get(s..s + n as usize)?).to_string(); Some(format!("{}:{}", nm.trim_end_matches('\0'), lc & 0xffff_ffff)) })();
        f.unwrap_or_else(|| self.trace(st))
    }
    fn ext(&mut self, st: &mut State, n: &str, a: &[Val], rw: u16) -> R<Val> {
        if let Some(r) = n.strip_prefix("llvm.") { return self.intrin(st, r, a, rw); }
        if let Some(r) = n.strip_prefix("rsx_") { return self.harness(st, r, a); }
        if n.contains("hashmap_random_keys") { return Ok(Val::A(Rc::new(vec![Val::I(0x1234), Val::I(0x5678)]))); }
        if n.contains("panic") || n.contains("rust_begin_unwind") || n.contains("assert_failed") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("slice_index_fail") || n.contains("handle_alloc_error") {
            let loc = a.iter().rev().find_map(|v| if let Val::I(p) = v { Some(*p) } else { None }).unwrap_or(0);
            let s = self.site(st, loc);
            return Err(Stop::Panic(format!("panic at {}", s)));
        }
        match n {
            "malloc" | "calloc" | "aligned_alloc" => {
                let k = if n == "malloc" { self.cv(st, &a[0])? } else if n == "calloc" { let x = self.cv(st, &a[0])?; let y = self.cv(st, &a[1])?; x.saturating_mul(y) } else { self.cv(st, &a[1])? };
                Ok(Val::I(self.alloc(st, k, true)?))
            }
            "posix_memalign" => { let k = self.cv(st, &a[2])?; let p = self.alloc(st, k, true)?; let d = self.cv(st, &a[0])?; self.store(st, &Lay::S(64), d, &Val::I(p))?; Ok(Val::I(0)) }
            "free" => { let p = self.cv(st, &a[0])?; if p != 0 { let id = (p >> 32) as usize; match st.mem.get(id) { Some(Some(o)) if o.heap && p & 0xffff_ffff == 0 => st.mem[id] = None, _ => return Err(Stop::Ub(format!("invalid free of {:#x}", p))) } } Ok(Val::I(0)) }
            "realloc" => {
                let p = self.cv(st, &a[0])?; let k = self.cv(st, &a[1])?;
                let q = self.alloc(st, k, true)?;
                if p != 0 { let os = match st.mem.get((p >> 32) as usize) { Some(Some(o)) if o.heap => o.size, _ => return Err(Stop::Ub("invalid realloc".into())) }; self.copy(st, q, p, os.min(k))?; st.mem[(p >> 32) as usize] = None; }
                Ok(Val::I(q))
            }
            "memcmp" | "bcmp" => {
                let p = self.cv(st, &a[0])?; let q = self.cv(st, &a[1])?; let k = self.cv(st, &a[2])?;
                let mut r = cst(0, 32);
                for i in (0..k).rev() {
                    let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                    if x == y { continue; }
                    let d = if n == "bcmp" { cst(1, 32) } else { ite(app(Op::Ult, 1, 0, &[x, y]), cst(0xffff_ffff, 32), cst(1, 32)) };
                    r = ite(eq(x, y), r, d);
                }
                Ok(from_term(r))
            }
            "memchr" => {
                let p = self.cv(st, &a[0])?; let k = self.cv(st, &a[2])?; let c = tt(&a[1], 32); let c = extract(c, 0, 8);
                for i in 0..k { let x = self.byte(st, p + i)?; let e = eq(x, c); if self.decide(st, e)? { return Ok(Val::I(p + i)); } }
                Ok(Val::I(0))
            }
            "strlen" => { let p = self.cv(st, &a[0])?; let mut i = 0; loop { let x = self.byte(st, p + i)?; if self.conc(st, x)? == 0 { return Ok(Val::I(i)); } i += 1; } }
            "memcpy" | "memmove" => { let d = self.cv(st, &a[0])?; let s = self.cv(st, &a[1])?; let k = self.cv(st, &a[2])?; self.copy(st, d, s, k)?; Ok(Val::I(d)) }
            "memset" => { let d = self.cv(st, &a[0])?; let k = self.cv(st, &a[2])?; self.memset(st, d, &a[1], k)?; Ok(Val::I(d)) }
            "clock_gettime" => { let p = self.cv(st, &a[1])?; st.clock += 1_000_000; let c = st.clock; self.store(st, &Lay::S(64), p, &Val::I(c / 1_000_000_000 + 1000))?; self.store(st, &Lay::S(64), p + 8, &Val::I(c % 1_000_000_000))?; Ok(Val::I(0)) }
            "getenv" => Ok(Val::I(0)),
            "asm" => Ok(a.first().cloned().unwrap_or(Val::I(0))),
            "abort" => Err(Stop::Panic("abort".into())),
            "__errno_location" => { let p = self.alloc(st, 8, true)?; Ok(Val::I(p)) }
            "syscall" if matches!(a.first(), Some(Val::I(202))) => { // futex: nobody else can wake a waiting thread
                let op = match a.get(2) { Some(v) => self.cv(st, v)? & 0x7f, None => 0 };
                if op != 0 && op != 9 { return Ok(Val::I(0)); }
                let at = self.trace(st);
                if st.held > 0 { Err(Stop::Assume) } else { Err(Stop::Panic(format!("waits for ever in {}", at))) }
            }
            "sched_yield" => Ok(Val::I(0)),
            "syscall" | "getrandom" => Ok(Val::I(a.get(if n == "syscall" { 2 } else { 1 }).map(|v| if let Val::I(x) = v { *x } else { 0 }).unwrap_or(0))),
            "sysconf" => Ok(Val::I(8)),
            "pthread_key_create" => { let p = self.cv(st, &a[0])?; st.clock += 1; let k = st.clock & 0xffff; self.store(st, &Lay::S(32), p, &Val::I(k | 1))?; Ok(Val::I(0)) }
            "__cxa_thread_atexit_impl" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" => Ok(Val::I(0)),
            "write" => { let k = self.cv(st, &a[2])?; Ok(Val::I(k)) }
            _ => {
                // libm
                let (base, w) = if let Some(b) = n.strip_suffix('f') { if is_math(b) && !is_math(n) { (b, 32u16) } else { (n, 64) } } else { (n, 64) };
                if is_math(base) { return Ok(self.math(base, w, a)); }
                Err(Stop::Unsup(format!("external function {}", n)))
            }
        }
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, k: u64) -> R<()> {
        if k == 0 { return Ok(()); }
        let o = self.obj_mut(st, d, k)?;
        match v { Val::I(b) => { o.clear(d as u32, k as u32); for x in &mut o.data[d as u32 as usize..(d as u32 as u64 + k) as usize] { *x = *b as u8; } } Val::S(t) => { let t8 = extract(*t, 0, 8); for i in 0..k { o.write(d as u32 + i as u32, 1, &from_term(t8)); } } _ => panic!() }
        Ok(())
    }
    fn math(&self, base: &str, w: u16, a: &[Val]) -> Val {
        let x = &a[0];
        match base {
            "fmod" => self.map2(x, &a[1], &|x, y| from_term(app(Op::FRem, w, 0, &[tt(x, w), tt(y, w)]))),
            "fmin" | "fmax" => self.map2(x, &a[1], &|x, y| self.fminmax(base == "fmin", false, w, x, y)),
            "sqrt" | "floor" | "ceil" | "trunc" | "rint" | "round" | "fabs" => { let op = match base { "sqrt" => Op::FSqrt, "floor" => Op::FFloor, "ceil" => Op::FCeil, "trunc" => Op::FTrunc, "rint" => Op::FRint, "round" => Op::FRound, _ => Op::FAbs }; self.map1(x, &|x| from_term(app(op, w, 0, &[tt(x, w)]))) }
            "fma" => from_term(app(Op::FMa, w, 0, &[tt(&a[0], w), tt(&a[1], w), tt(&a[2], w)])),
            "copysign" => from_term(app(Op::FCopysign, w, 0, &[tt(&a[0], w), tt(&a[1], w)])),
            "pow" | "atan2" | "hypot" => self.map2(x, &a[1], &|x, y| from_term(app(Op::FCall, w, fname(base), &[tt(x, w), tt(y, w)]))),
            _ => self.map1(x, &|x| from_term(app(Op::FCall, w, fname(base), &[tt(x, w)]))),
        }
    }
    fn fminmax(&self, min: bool, nanprop: bool, w: u16, x: &Val, y: &Val) -> Val {
        let (a, b) = (tt(x, w), tt(y, w));
        let nan = |t| app(Op::FNan, 1, 0, &[t]);
        let lt = if min { app(Op::FLt, 1, 0, &[b, a]) } else { app(Op::FLt, 1, 0, &[a, b]) };
        let core = ite(lt, b, a);
        from_term(if nanprop { ite(nan(a), a, ite(nan(b), b, core)) } else { ite(nan(a), b, ite(nan(b), a, core)) })
    }
    fn intrin(&mut self, st: &mut State, r: &str, a: &[Val], rw: u16) -> R<Val> {
        let base = r.split('.').next().unwrap();
        let unit = Val::I(0);
        let w = rw;
        let u = |f: &dyn Fn(T) -> T, me: &Engine| me.map1(&a[0], &|v| from_term(f(tt(v, w))));
        match base {
            "lifetime" | "experimental" | "invariant" | "donothing" | "prefetch" | "x86" | "dbg" | "sideeffect" | "allow" | "pseudoprobe" | "stacksave" | "stackrestore" | "fake" => Ok(unit),
            "assume" => { if let Some(Val::I(0)) = a.first() { return Err(Stop::Ub("violated compiler assumption".into())); } Ok(unit) }
            "expect" | "launder" | "strip" | "ssa" | "arithmetic" => Ok(a[0].clone()),
            "memcpy" | "memmove" => { let d = self.cv(st, &a[0])?; let s = self.cv(st, &a[1])?; let k = self.cv(st, &a[2])?; self.copy(st, d, s, k)?; Ok(unit) }
            "memset" => { let d = self.cv(st, &a[0])?; let k = self.cv(st, &a[2])?; self.memset(st, d, &a[1], k)?; Ok(unit) }
            "trap" | "debugtrap" | "ubsantrap" => Err(Stop::Panic("trap".into())),
            "threadlocal" => Ok(a[0].clone()),
            "is" if r.starts_with("is.constant") => Ok(Val::I(0)),
            "is" if r.starts_with("is.fpclass") => {
                let fw = if r.ends_with("f32") { 32 } else { 64 };
                let m = if let Val::I(m) = a[1] { m } else { panic!() };
                Ok(self.map1(&a[0], &|v| from_term(fpclass(tt(v, fw), fw, m))))
            }
            "objectsize" => Ok(Val::I(u64::MAX)),
            "ptrmask" => { let v = self.bin(st, Op::And, 64, &a[0], &a[1])?; Ok(v) }
            "load" if r.starts_with("load.relative") => { let b = self.cv(st, &a[0])?; let o = self.cv(st, &a[1])?; let v = self.load(st, &Lay::S(32), b.wrapping_add(o))?; let v = self.cv(st, &v)?; match self.rels.get((v as u32).wrapping_sub(0xA000_0000) as usize) { Some(t) => Ok(Val::I(*t)), None => Err(Stop::Unsup("load.relative".into())) } }
            "umax" | "umin" | "smax" | "smin" => { let k = match base { "umax" => 2, "umin" => 4, "smax" => 6, _ => 8 }; let me = &*self; Ok(me.map2(&a[0], &a[1], &|x, y| { let c = me.icmp(k, w, x, y); me.sel(&c, x, y, &Lay::S(w)) })) }
            "abs" => Ok(u(&|t| ite(app(Op::Slt, 1, 0, &[t, cst(0, w)]), app(Op::Sub, w, 0, &[cst(0, w), t]), t), self)),
            "ctlz" => Ok(u(&|t| { let mut r = cst(w as u128, w); for i in 0..w { r = ite(eq(extract(t, i, 1), tru()), cst((w - 1 - i) as u128, w), r); } r }, self)),
            "cttz" => Ok(u(&|t| { let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(eq(extract(t, i, 1), tru()), cst(i as u128, w), r); } r }, self)),
            "ctpop" => Ok(u(&|t| { let mut r = cst(0, w); for i in 0..w { r = app(Op::Add, w, 0, &[r, zext(extract(t, i, 1), w)]); } r }, self)),
            "bswap" => Ok(u(&|t| { let mut r = extract(t, 0, 8); for i in 1..w / 8 { r = concat(r, extract(t, i * 8, 8)); } r }, self)),
            "bitreverse" => Ok(u(&|t| { let mut r = extract(t, 0, 1); for i in 1..w { r = concat(r, extract(t, i, 1)); } r }, self)),
            "fshl" | "fshr" => {
                let (x, y, z) = (tt(&a[0], w), tt(&a[1], w), tt(&a[2], w));
                let wide = concat(x, y);
                let sh = zext(app(Op::URem, w, 0, &[z, cst(w as u128, w)]), 2 * w);
                Ok(from_term(if base == "fshl" { extract(app(Op::Shl, 2 * w, 0, &[wide, sh]), w, w) } else { extract(app(Op::LShr, 2 * w, 0, &[wide, sh]), 0, w) }))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if r.contains("with.overflow") => {
                let op = match &base[1..] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let sg = base.starts_with('s');
                let (x, y) = (tt(&a[0], w), tt(&a[1], w));
                let res = app(op, w, 0, &[x, y]);
                let ov = match (op, sg) {
                    (Op::Add, false) => app(Op::Ult, 1, 0, &[res, x]),
                    (Op::Sub, false) => app(Op::Ult, 1, 0, &[x, y]),
                    _ => { let ww = (2 * w).min(128); let (ex, ey) = if sg { (app(Op::SExt, ww, 0, &[x]), app(Op::SExt, ww, 0, &[y])) } else { (zext(x, ww), zext(y, ww)) }; let full = app(op, ww, 0, &[ex, ey]); let back = if sg { app(Op::SExt, ww, 0, &[res]) } else { zext(res, ww) }; not(eq(full, back)) }
                };
                Ok(Val::A(Rc::new(vec![from_term(res), from_term(ov)])))
            }
            "uadd" | "usub" | "sadd" | "ssub" => {
                let sg = base.starts_with('s'); let op = if base.ends_with("add") { Op::Add } else { Op::Sub };
                Ok(self.map2(&a[0], &a[1], &|x, y| { let (x, y) = (tt(x, w), tt(y, w)); let res = app(op, w, 0, &[x, y]);
                    from_term(if !sg { if op == Op::Add { ite(app(Op::Ult, 1, 0, &[res, x]), cst(mask(w), w), res) } else { ite(app(Op::Ult, 1, 0, &[x, y]), cst(0, w), res) } }
                    else { let ww = w * 2; let full = app(op, ww, 0, &[app(Op::SExt, ww, 0, &[x]), app(Op::SExt, ww, 0, &[y])]); let back = app(Op::SExt, ww, 0, &[res]); let neg = app(Op::Slt, 1, 0, &[full, cst(0, ww)]); ite(eq(full, back), res, ite(neg, cst(1u128 << (w - 1), w), cst(mask(w - 1), w))) }) }))
            }
            "ucmp" | "scmp" => {
                let iw: u16 = r.rsplit('.').next().unwrap().trim_start_matches('i').parse().unwrap();
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let (x, y) = (tt(&a[0], iw), tt(&a[1], iw));
                Ok(from_term(ite(app(op, 1, 0, &[x, y]), cst(mask(w), w), ite(eq(x, y), cst(0, w), cst(1, w)))))
            }
            "vector" => {
                let k = r.trim_start_matches("vector.reduce.").split('.').next().unwrap().to_string();
                if !r.starts_with("vector.reduce.") { return Err(Stop::Unsup(format!("llvm.{}", r))); }
                let vs = a.iter().find_map(|v| if let Val::A(x) = v { Some(x.clone()) } else { None }).unwrap();
                let mut acc = vs[0].clone();
                if k == "fadd" || k == "fmul" { acc = a[0].clone(); let op = if k == "fadd" { Op::FAdd } else { Op::FMul }; for v in vs.iter() { acc = from_term(app(op, w, 0, &[tt(&acc, w), tt(v, w)])); } return Ok(acc); }
                for v in vs.iter().skip(1) {
                    acc = match k.as_str() { "add" => self.bin(st, Op::Add, w, &acc, v)?, "mul" => self.bin(st, Op::Mul, w, &acc, v)?, "and" => self.bin(st, Op::And, w, &acc, v)?, "or" => self.bin(st, Op::Or, w, &acc, v)?, "xor" => self.bin(st, Op::Xor, w, &acc, v)?,
                        "umax" | "umin" | "smax" | "smin" => { let kk = match k.as_str() { "umax" => 2, "umin" => 4, "smax" => 6, _ => 8 }; let c = self.icmp(kk, w, &acc, v); self.sel(&c, &acc, v, &Lay::S(w)) }
                        _ => return Err(Stop::Unsup(format!("llvm.{}", r))) };
                }
                Ok(acc)
            }
            "fptosi" | "fptoui" => { let fw = if r.ends_with("f32") { 32 } else { 64 }; let op = if base == "fptosi" { Op::FToSi } else { Op::FToUi }; Ok(self.map1(&a[0], &|v| from_term(app(op, w, 0, &[tt(v, fw)])))) }
            "minnum" | "minimumnum" => Ok(self.map2(&a[0], &a[1], &|x, y| self.fminmax(true, false, w, x, y))),
            "maxnum" | "maximumnum" => Ok(self.map2(&a[0], &a[1], &|x, y| self.fminmax(false, false, w, x, y))),
            "minimum" => Ok(self.map2(&a[0], &a[1], &|x, y| self.fminmax(true, true, w, x, y))),
            "maximum" => Ok(self.map2(&a[0], &a[1], &|x, y| self.fminmax(false, true, w, x, y))),
            "fmuladd" => { let p = app(Op::FMul, w, 0, &[tt(&a[0], w), tt(&a[1], w)]); Ok(from_term(app(Op::FAdd, w, 0, &[p, tt(&a[2], w)]))) }
            "roundeven" | "nearbyint" => Ok(self.math("rint", w, a)),
            "powi" => Ok(from_term(app(Op::FCall, w, fname("powi"), &[tt(&a[0], w), tt(&a[1], 32)]))),
            _ if is_math(base) => Ok(self.math(base, w, a)),
            _ => Err(Stop::Unsup(format!("llvm.{}", r))),
        }
    }
    fn harness(&mut self, st: &mut State, r: &str, a: &[Val]) -> R<Val> {
        macro_rules! msg { ($i:expr) => {{ let p = self.cv(st, &a[$i])?; let n = self.cv(st, &a[$i + 1])?; self.cstr(st, p, n) }} }
        match r {
            "u64" => {
                let lo = self.cv(st, &a[0])?; let hi = self.cv(st, &a[1])?;
                if hi < lo { return Err(Stop::Assume); }
                let d = hi - lo;
                if d == 0 { st.inputs.push((0, cst(0, 64), lo)); return Ok(Val::I(lo)); }
                let w = (64 - d.leading_zeros()) as u16;
                let t = self.new_input(st, 0, w, lo, hi);
                if (d as u128) < mask(w) { let c = app(Op::Ule, 1, 0, &[t, cst(d as u128, w)]); 
                    // default value 0 satisfies the range
                    if let Some(m) = &st.model { let mut memo = HashMap::new(); if term::eval(c, m, &mut memo) != 1 { let mut mm = (**m).clone(); let v = node(t).aux as usize; if mm.len() <= v { mm.resize(v + 1, None); } mm[v] = Some(0); st.model = Some(Rc::new(mm)); } }
                    self.add_pc(st, c); }
                let z = zext(t, 64);
                Ok(from_term(app(Op::Add, 64, 0, &[z, cst(lo as u128, 64)])))
            }
            "f64" => Ok(Val::S(self.new_input(st, 1, 64, 0, 0))),
            "f32" => Ok(Val::S(self.new_input(st, 2, 32, 0, 0))),
            "assume" => { let c = extract(tt(&a[0], width_of(&a[0], 32)), 0, 1); self.assume(st, c)?; Ok(Val::I(0)) }
            "check" => { let c = extract(tt(&a[0], width_of(&a[0], 32)), 0, 1); let m = msg!(1); self.check(st, c, "check", m, None)?; Ok(Val::I(0)) }
            "same" | "same32" => { let w = if r == "same" { 64 } else { 32 }; let (x, y) = (tt(&a[0], w), tt(&a[1], w)); let m = msg!(2); let nan = |t| app(Op::FNan, 1, 0, &[t]); let c = or(eq(x, y), and(nan(x), nan(y))); self.check(st, c, "check", m, None)?; Ok(Val::I(0)) }
            "req" => { let (x, y) = (tt(&a[0], 64), tt(&a[1], 64)); let m = msg!(2); let nan = |t| app(Op::FNan, 1, 0, &[t]); let c = or(eq(x, y), and(nan(x), nan(y))); self.check(st, c, "check", m, Some((x, y)))?; Ok(Val::I(0)) }
            "obs" => { let t = tt(&a[0], 64); st.obs.push(t); Ok(Val::I(0)) }
            "obsf" => { let t = tt(&a[0], 64); // NaN payloads are not observable
                let c = ite(app(Op::FNan, 1, 0, &[t]), cst(0x7ff8000000000000, 64), t); st.obs.push(c); Ok(Val::I(0)) }
            "cover" => { let c = self.cv(st, &a[0])? as u32; if !st.covers.contains(&c) { st.covers.push(c); } Ok(Val::I(0)) }
            "note" => { let m = msg!(0); st.log.push(m); Ok(Val::I(0)) }
            "conc" => { let v = self.cv(st, &a[0])?; Ok(Val::I(v)) }
            "issym" => Ok(Val::I(1)),
            "reject" => Err(Stop::Assume),
            "real" => { st.real_br = self.cv(st, &a[0])? & 1 == 1; Ok(Val::I(0)) }
            "held" => { st.held = self.cv(st, &a[0])?; Ok(Val::I(0)) }
            "may_panic" => { st.may_panic = self.cv(st, &a[0])? & 1 == 1; Ok(Val::I(0)) }
            "param" => { let k = self.cv(st, &a[0])? as usize; Ok(Val::I(self.params.get(k).copied().unwrap_or(0))) }
            _ => Err(Stop::Unsup(format!("rsx_{}", r))),
        }
    }
}
fn width_of(v: &Val, d: u16) -> u16 { if let Val::S(t) = v { width(*t) } else { d } }
fn fpclass(t: T, w: u16, m: u64) -> T {
    let neg = extract(t, w - 1, 1);
    let abs = app(Op::FAbs, w, 0, &[t]);
    let inf = if w == 64 { f64::INFINITY.to_bits() as u128 } else { f32::INFINITY.to_bits() as u128 };
    let infc = cst(inf, w);
    let nan = app(Op::FNan, 1, 0, &[t]);
    let mut r = fls();
    if m & 3 == 3 { r = or(r, nan); } else if m & 3 != 0 { let q = if w == 64 { 51 } else { 22 }; let quiet = extract(t, q, 1); r = or(r, and(nan, if m & 2 != 0 { quiet } else { not(quiet) })); }
    // non-NaN classes by comparisons (keeps the real encoding usable)
    let isinf = app(Op::FEq, 1, 0, &[abs, infc]);
    let zero = app(Op::FEq, 1, 0, &[abs, cst(0, w)]);
    let minn = cst(if w == 64 { f64::MIN_POSITIVE.to_bits() as u128 } else { f32::MIN_POSITIVE.to_bits() as u128 }, w);
    if m & 0x3fc == 0x3fc { return or(r, not(nan)); }
    if m & 0x1f8 == 0x1f8 && m & 0x204 == 0 { return or(r, app(Op::FLt, 1, 0, &[abs, infc])); }
    let sub = and(app(Op::FLt, 1, 0, &[abs, minn]), not(zero));
    let nor = and(app(Op::FLe, 1, 0, &[minn, abs]), app(Op::FLt, 1, 0, &[abs, infc]));
    let mut add = |b: u64, c: T, n: bool| if m & b != 0 { r = or(r, and(c, if n { neg } else { not(neg) })); };
    add(0x4, isinf, true); add(0x8, nor, true); add(0x10, sub, true); add(0x20, zero, true); add(0x40, zero, false); add(0x80, sub, false); add(0x100, nor, false); add(0x200, isinf, false);
    r
}
fn ins(a: &Val, e: &Val, ix: &[u32]) -> Val {
    let mut v = match a { Val::A(x) => (**x).clone(), Val::I(_) => vec![], _ => panic!() };
    let k = ix[0] as usize;
    while v.len() <= k { v.push(Val::I(0)); }
    v[k] = if ix.len() == 1 { e.clone() } else { ins(&v[k], e, &ix[1..]) };
    Val::A(Rc::new(v))
}
fn is_math(n: &str) -> bool { matches!(n, "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" | "exp" | "exp2" | "expm1" | "log" | "log2" | "log10" | "log1p" | "cbrt" | "pow" | "atan2" | "hypot" | "fmod" | "fmin" | "fmax" | "sqrt" | "floor" | "ceil" | "trunc" | "rint" | "round" | "fabs" | "fma" | "copysign") }
