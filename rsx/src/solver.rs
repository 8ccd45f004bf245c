//! SMT back end: prints terms as SMT-LIB2 and talks to one long-lived z3 process per encoding.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Uf, Ieee, Real }

pub enum Res { Unsat, Sat(Vec<(u32, u128)>), Unknown }

pub struct Solver {
    pub mode: Mode,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    defined: HashSet<T>,
    rdef: HashMap<T, Result<String, ()>>,
    fdef: HashMap<T, Result<(String, Option<String>), ()>>,
    sqax: HashMap<T, String>,
    bdef: HashMap<T, Result<String, ()>>,
    decl: HashSet<String>,
    buf: String,
    pub timeout_ms: u64,
    pub queries: u64,
    pub secs: f64,
    pub unknowns: u64,
    pub sats: u64,
    pub unsats: u64,
    naux: u32,
    log: Option<std::fs::File>,
}

const PRELUDE: &str = r#"
(set-option :print-success false)
(define-fun fnan64 ((x (_ BitVec 64))) Bool (bvugt (bvand x #x7fffffffffffffff) #x7ff0000000000000))
(define-fun fzero64 ((x (_ BitVec 64))) Bool (= (bvand x #x7fffffffffffffff) #x0000000000000000))
(define-fun flt64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (fnan64 a)) (not (fnan64 b)) (ite (= ((_ extract 63 63) a) #b1) (ite (= ((_ extract 63 63) b) #b1) (bvult b a) (not (and (fzero64 a) (fzero64 b)))) (ite (= ((_ extract 63 63) b) #b1) false (bvult a b)))))
(define-fun feq64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (fnan64 a)) (not (fnan64 b)) (or (= a b) (and (fzero64 a) (fzero64 b)))))
(define-fun fle64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (or (flt64 a b) (feq64 a b)))
(define-fun fnan32 ((x (_ BitVec 32))) Bool (bvugt (bvand x #x7fffffff) #x7f800000))
(define-fun fzero32 ((x (_ BitVec 32))) Bool (= (bvand x #x7fffffff) #x00000000))
(define-fun flt32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (fnan32 a)) (not (fnan32 b)) (ite (= ((_ extract 31 31) a) #b1) (ite (= ((_ extract 31 31) b) #b1) (bvult b a) (not (and (fzero32 a) (fzero32 b)))) (ite (= ((_ extract 31 31) b) #b1) false (bvult a b)))))
(define-fun feq32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (fnan32 a)) (not (fnan32 b)) (or (= a b) (and (fzero32 a) (fzero32 b)))))
(define-fun fle32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (or (flt32 a b) (feq32 a b)))
"#;

fn bvconst(v: u128, w: u16) -> String {
    if w == 1 { return if v != 0 { "true".into() } else { "false".into() }; }
    if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("(_ bv{} {})", v, w) }
}
fn sort(w: u16) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }
fn tofp(w: u16) -> &'static str { if w == 64 { "(_ to_fp 11 53)" } else { "(_ to_fp 8 24)" } }

/// exact decimal/rational text of a finite double
pub fn real_const(x: f64) -> Option<String> {
    if !x.is_finite() { return None; }
    if x == 0.0 { return Some("0.0".into()); }
    let neg = x < 0.0;
    let bits = x.abs().to_bits();
    let e = (bits >> 52) as i64;
    let (mut m, mut ex) = if e == 0 { (bits & ((1 << 52) - 1), -1074) } else { ((bits & ((1 << 52) - 1)) | (1 << 52), e - 1075) };
    while m & 1 == 0 { m >>= 1; ex += 1; }
    let p2 = |k: i64| -> String { // 2^k as decimal integer
        let mut d = vec![1u8];
        for _ in 0..k { let mut c = 0; for x in d.iter_mut() { let v = *x * 2 + c; *x = v % 10; c = v / 10; } if c > 0 { d.push(c); } }
        d.iter().rev().map(|x| (b'0' + x) as char).collect()
    };
    let s = if ex >= 0 { format!("(* {}.0 {}.0)", m, p2(ex)) } else { format!("(/ {}.0 {}.0)", m, p2(-ex)) };
    Some(if neg { format!("(- {})", s) } else { s })
}

#[repr(C)] struct PollFd { fd: i32, events: i16, revents: i16 }
extern "C" { fn poll(p: *mut PollFd, n: u64, t: i32) -> i32; }
impl Solver {
    pub fn new(mode: Mode, timeout_ms: u64) -> Solver {
        let log = std::env::var("RSX_SMTLOG").ok().map(|p| std::fs::File::create(format!("{}.{:?}.{}", p, mode, std::process::id())).unwrap());
        Solver { mode, child: None, defined: HashSet::new(), rdef: HashMap::new(), fdef: HashMap::new(), sqax: HashMap::new(), bdef: HashMap::new(), decl: HashSet::new(), buf: String::new(), timeout_ms, queries: 0, secs: 0.0, unknowns: 0, sats: 0, unsats: 0, naux: 0, log }
    }
    /// forget the process (used after fork)
    pub fn detach(&mut self) {
        if let Some((c, i, o)) = self.child.take() { drop(i); drop(o); drop(c); }
        self.buf.clear();
        self.defined.clear(); self.rdef.clear(); self.fdef.clear(); self.sqax.clear(); self.bdef.clear(); self.decl.clear();
        self.queries = 0; self.secs = 0.0; self.unknowns = 0; self.sats = 0; self.unsats = 0;
    }
    pub fn kill(&mut self) {
        if let Some((mut c, i, o)) = self.child.take() { drop(i); drop(o); let _ = c.kill(); let _ = c.wait(); }
        self.defined.clear(); self.rdef.clear(); self.fdef.clear(); self.sqax.clear(); self.bdef.clear(); self.decl.clear();
    }
    fn start(&mut self) {
        if self.child.is_some() { return; }
        let bin = std::env::var("RSX_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut c = Command::new(&bin).args(["-in", "-smt2", "-memory:3000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn z3");
        let i = c.stdin.take().unwrap(); let o = BufReader::new(c.stdout.take().unwrap());
        self.child = Some((c, i, o));
        self.defined.clear(); self.rdef.clear(); self.fdef.clear(); self.sqax.clear(); self.bdef.clear(); self.decl.clear();
        let mut s = String::from(PRELUDE);
        s.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms));
        self.buf = s;
    }
    fn send(&mut self) {
        let b = std::mem::take(&mut self.buf);
        if let Some(l) = &mut self.log { let _ = l.write_all(b.as_bytes()); }
        let (_, i, _) = self.child.as_mut().unwrap();
        i.write_all(b.as_bytes()).expect("z3 write"); i.flush().unwrap();
    }
    fn line(&mut self) -> String {
        // z3 does not always honour its own timeout: enforce a hard one
        let dl = std::time::Instant::now() + std::time::Duration::from_millis(self.timeout_ms + self.timeout_ms / 2 + 1500);
        let (_, _, o) = self.child.as_mut().unwrap();
        let fd = { use std::os::fd::AsRawFd; o.get_ref().as_raw_fd() };
        let mut s = String::new();
        loop {
            if o.buffer().is_empty() {
                let left = dl.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
                let mut pf = PollFd { fd, events: 1, revents: 0 };
                if left <= 0 || unsafe { poll(&mut pf, 1, left) } <= 0 { return String::new(); }
            }
            let b = match o.fill_buf() { Ok(b) => b, Err(_) => return String::new() };
            if b.is_empty() { return String::new(); }
            if let Some(p) = b.iter().position(|c| *c == b'\n') { s.push_str(&String::from_utf8_lossy(&b[..=p])); o.consume(p + 1); return s; }
            let n = b.len(); s.push_str(&String::from_utf8_lossy(b)); o.consume(n);
        }
    }
    fn nm(t: T) -> String { match as_const(t) { Some(v) => bvconst(v, width(t)), None => format!("t{}", t) } }
    fn decl_fn(&mut self, name: &str, nargs: usize, w: u16) {
        if self.decl.insert(name.to_string()) {
            let mut s = format!("(declare-fun {} (", name);
            for _ in 0..nargs { s.push_str(&sort(w)); s.push(' '); }
            s.push_str(&format!(") {})\n", sort(w)));
            self.buf.push_str(&s);
        }
    }
    fn b2v(t: T) -> String { if width(t) == 1 { format!("(ite {} #b1 #b0)", Self::nm(t)) } else { Self::nm(t) } }
    fn expr(&mut self, n: &Node) -> String {
        let a = |i: usize| Self::nm(n.args[i]);
        let aw = if n.na > 0 { width(n.args[0]) } else { 0 };
        let w = n.w;
        let bin = |s: &str| format!("({} {} {})", s, a(0), a(1));
        let bo = w == 1;
        match n.op {
            Op::Const => bvconst(n.val, w),
            Op::Var => unreachable!(),
            Op::Add | Op::Sub if bo => bin("xor"),
            Op::Mul if bo => bin("and"),
            Op::Add => bin("bvadd"), Op::Sub => bin("bvsub"), Op::Mul => bin("bvmul"),
            Op::UDiv => bin("bvudiv"), Op::SDiv => bin("bvsdiv"), Op::URem => bin("bvurem"), Op::SRem => bin("bvsrem"),
            Op::And => if bo { bin("and") } else { bin("bvand") },
            Op::Or => if bo { bin("or") } else { bin("bvor") },
            Op::Xor => if bo { if as_const(n.args[1]) == Some(1) { format!("(not {})", a(0)) } else { bin("xor") } } else { bin("bvxor") },
            Op::Shl => bin("bvshl"), Op::LShr => bin("bvlshr"), Op::AShr => bin("bvashr"),
            Op::Concat => format!("(concat {} {})", Self::b2v(n.args[0]), Self::b2v(n.args[1])),
            Op::Extract => { let lo = n.aux; let hi = n.aux + w as u32 - 1; let e = format!("((_ extract {} {}) {})", hi, lo, Self::b2v(n.args[0])); if bo { format!("(= {} #b1)", e) } else { e } }
            Op::ZExt => format!("((_ zero_extend {}) {})", w - aw, Self::b2v(n.args[0])),
            Op::SExt => format!("((_ sign_extend {}) {})", w - aw, Self::b2v(n.args[0])),
            Op::Ite => format!("(ite {} {} {})", a(0), a(1), a(2)),
            Op::Eq => bin("="),
            Op::Ult => if aw == 1 { format!("(and (not {}) {})", a(0), a(1)) } else { bin("bvult") },
            Op::Ule => if aw == 1 { format!("(or (not {}) {})", a(0), a(1)) } else { bin("bvule") },
            Op::Slt => if aw == 1 { format!("(and {} (not {}))", a(0), a(1)) } else { bin("bvslt") },
            Op::Sle => if aw == 1 { format!("(or {} (not {}))", a(0), a(1)) } else { bin("bvsle") },
            Op::FLt => bin(&format!("flt{}", aw)), Op::FLe => bin(&format!("fle{}", aw)), Op::FEq => bin(&format!("feq{}", aw)),
            Op::FNan => format!("(fnan{} {})", aw, a(0)),
            Op::FNeg => format!("(bvxor {} {})", a(0), bvconst(1u128 << (w - 1), w)),
            Op::FAbs => format!("(bvand {} {})", a(0), bvconst(mask(w - 1), w)),
            Op::FCopysign => format!("(bvor (bvand {} {}) (bvand {} {}))", a(0), bvconst(mask(w - 1), w), a(1), bvconst(1u128 << (w - 1), w)),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv if self.mode == Mode::Ieee => {
                let o = match n.op { Op::FAdd => "add", Op::FSub => "sub", Op::FMul => "mul", _ => "div" };
                format!("(fp.to_ieee_bv (fp.{} RNE ({} {}) ({} {})))", o, tofp(w), a(0), tofp(w), a(1))
            }
            Op::FSqrt if self.mode == Mode::Ieee => format!("(fp.to_ieee_bv (fp.sqrt RNE ({} {})))", tofp(w), a(0)),
            Op::FMa if self.mode == Mode::Ieee => format!("(fp.to_ieee_bv (fp.fma RNE ({} {}) ({} {}) ({} {})))", tofp(w), a(0), tofp(w), a(1), tofp(w), a(2)),
            Op::FExt if self.mode == Mode::Ieee => format!("(fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) {})))", a(0)),
            Op::FTr if self.mode == Mode::Ieee => format!("(fp.to_ieee_bv ((_ to_fp 8 24) RNE ((_ to_fp 11 53) {})))", a(0)),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FMa => {
                let f = format!("uf_{:?}_{}", n.op, w);
                self.decl_fn(&f, n.na as usize, w);
                let mut s = format!("({}", f);
                for i in 0..n.na as usize { s.push(' '); s.push_str(&a(i)); }
                s.push(')'); s
            }
            Op::FExt | Op::FTr => {
                let f = format!("uf_{:?}", n.op);
                if self.decl.insert(f.clone()) { self.buf.push_str(&format!("(declare-fun {} ({}) {})\n", f, sort(aw), sort(w))); }
                format!("({} {})", f, a(0))
            }
            Op::FCall => {
                let f = format!("uf_{}_{}", ar().fnames[n.aux as usize], w);
                if f.contains("powi") { if self.decl.insert(f.clone()) { self.buf.push_str(&format!("(declare-fun {} ({} (_ BitVec 32)) {})\n", f, sort(w), sort(w))); } }
                else { self.decl_fn(&f, n.na as usize, w); }
                let mut s = format!("({}", f);
                for i in 0..n.na as usize { s.push(' '); s.push_str(&a(i)); }
                s.push(')'); s
            }
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound => {
                let rm = match n.op { Op::FFloor => "RTN", Op::FCeil => "RTP", Op::FTrunc => "RTZ", Op::FRint => "RNE", _ => "RNA" };
                format!("(fp.to_ieee_bv (fp.roundToIntegral {} ({} {})))", rm, tofp(w), a(0))
            }
            Op::SiToF => format!("(fp.to_ieee_bv ({} RNE {}))", tofp(w), Self::b2v(n.args[0])),
            Op::UiToF => format!("(fp.to_ieee_bv ({} RNE {}))", if w == 64 { "(_ to_fp_unsigned 11 53)" } else { "(_ to_fp_unsigned 8 24)" }, Self::b2v(n.args[0])),
            Op::FToSi | Op::FToUi => {
                let sg = n.op == Op::FToSi;
                let (lo, hi) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let (lob, hib) = if sg { (1u128 << (w - 1), mask(w - 1)) } else { (0, mask(w)) };
                let (lc, hc) = if aw == 64 { (bvconst(lo.to_bits() as u128, 64), bvconst(hi.to_bits() as u128, 64)) } else { (bvconst((lo as f32).to_bits() as u128, 32), bvconst((hi as f32).to_bits() as u128, 32)) };
                let x = a(0);
                format!("(ite (fnan{aw} {x}) {z} (ite (fle{aw} {x} {lc}) {l} (ite (fle{aw} {hc} {x}) {h} ((_ {cv} {w}) RTZ ({tf} {x})))))", aw = aw, x = x, z = bvconst(0, w), lc = lc, hc = hc, l = bvconst(lob, w), h = bvconst(hib, w), cv = if sg { "fp.to_sbv" } else { "fp.to_ubv" }, w = w, tf = tofp(aw))
            }
        }
    }
    fn define(&mut self, t: T) {
        if as_const(t).is_some() || self.defined.contains(&t) { return; }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.defined.contains(&x) { st.pop(); continue; }
            let n = node(x).clone();
            let mut ready = true;
            for i in 0..n.na as usize { let c = n.args[i]; if as_const(c).is_none() && !self.defined.contains(&c) { st.push(c); ready = false; } }
            if ready {
                if n.op == Op::Var { self.buf.push_str(&format!("(declare-const t{} {})\n", x, sort(n.w))); }
                else { let e = self.expr(&n); self.buf.push_str(&format!("(define-fun t{} () {} {})\n", x, sort(n.w), e)); }
                self.defined.insert(x); st.pop();
            }
        }
    }
    // ---------- real-arithmetic encoding ----------
    fn cval(t: T) -> Option<f64> { let n = node(t); if n.op == Op::Const { Some(if n.w == 64 { f64::from_bits(n.val as u64) } else { f32::from_bits(n.val as u32) as f64 }) } else { None } }
    fn real(&mut self, t: T) -> Result<String, ()> {
        if let Some(c) = Self::cval(t) { return real_const(c).ok_or(()); }
        if let Some(r) = self.rdef.get(&t) { return r.clone(); }
        let r = self.real_(t);
        self.rdef.insert(t, r.clone());
        r
    }
    /// ite(t == 0, 0, p * t): over the reals this is p * t
    fn zero_guard(n: &Node) -> bool {
        let c = node(n.args[0]); let m = node(n.args[2]);
        if c.op != Op::FEq || m.op != Op::FMul || Self::cval(n.args[1]) != Some(0.0) { return false; }
        let t = if Self::cval(c.args[1]) == Some(0.0) { c.args[0] } else if Self::cval(c.args[0]) == Some(0.0) { c.args[1] } else { return false };
        m.args[0] == t || m.args[1] == t
    }
    fn newreal(&mut self, pfx: &str) -> String { self.naux += 1; let s = format!("{}{}", pfx, self.naux); self.buf.push_str(&format!("(declare-const {} Real)\n", s)); s }
    fn real_(&mut self, t: T) -> Result<String, ()> {
        let n = node(t).clone();
        let name = format!("r{}", t);
        let e = match n.op {
            Op::Var => { if !ar().vars[n.aux as usize].is_f { return Err(()); } self.buf.push_str(&format!("(declare-const {} Real)\n", name)); return Ok(name); }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (x, y) = (self.real(n.args[0])?, self.real(n.args[1])?);
                let o = match n.op { Op::FAdd => "+", Op::FSub => "-", Op::FMul => "*", _ => "/" };
                format!("({} {} {})", o, x, y)
            }
            Op::FMa => { let (x, y, z) = (self.real(n.args[0])?, self.real(n.args[1])?, self.real(n.args[2])?); format!("(+ (* {} {}) {})", x, y, z) }
            Op::FNeg => { let x = self.real(n.args[0])?; format!("(- {})", x) }
            Op::FAbs => { let x = self.real(n.args[0])?; format!("(ite (>= {0} 0.0) {0} (- {0}))", x) }
            Op::FCopysign => { let x = self.real(n.args[0])?; let y = self.real(n.args[1])?; format!("(ite (>= {1} 0.0) (ite (>= {0} 0.0) {0} (- {0})) (ite (>= {0} 0.0) (- {0}) {0}))", x, y) }
            Op::FExt | Op::FTr => return self.real(n.args[0]),
            Op::Ite if Self::zero_guard(&n) => return self.real(n.args[2]),
            Op::Ite if self.rbool(n.args[0]).as_deref() == Ok("true") => return self.real(n.args[1]),
            Op::Ite if self.rbool(n.args[0]).as_deref() == Ok("false") => return self.real(n.args[2]),
            Op::Ite => { let c = self.rbool(n.args[0])?; let (x, y) = (self.real(n.args[1])?, self.real(n.args[2])?); format!("(ite {} {} {})", c, x, y) }
            Op::FSqrt => { let x = self.real(n.args[0])?; let s = self.newreal("sq"); self.sqax.insert(t, format!("(=> (>= {0} 0.0) (and (>= {1} 0.0) (= (* {1} {1}) {0})))", x, s)); s }
            Op::FCall => {
                let f = ar().fnames[n.aux as usize].clone();
                if f == "powi" {
                    let x = self.real(n.args[0])?; let k = as_const(n.args[1]).ok_or(())? as u32 as i32;
                    if k.abs() > 8 { return Err(()); }
                    let mut e = String::from("1.0"); for _ in 0..k.abs() { e = format!("(* {} {})", e, x); }
                    if k < 0 { format!("(/ 1.0 {})", e) } else { e }
                } else {
                    let mut xs = vec![];
                    for i in 0..n.na as usize { xs.push(self.real(n.args[i])?); }
                    match f.as_str() {
                        "sin" | "cos" | "tan" => { let (s, c) = self.sincos(&xs[0]); match f.as_str() { "sin" => s, "cos" => c, _ => format!("(/ {} {})", s, c) } }
                        "exp" => self.exp(&xs[0]),
                        "sinh" => { let e = self.exp(&xs[0]); format!("(/ (- {0} (/ 1.0 {0})) 2.0)", e) }
                        "cosh" => { let e = self.exp(&xs[0]); format!("(/ (+ {0} (/ 1.0 {0})) 2.0)", e) }
                        "tanh" => { let e = self.exp(&xs[0]); format!("(/ (- (* {0} {0}) 1.0) (+ (* {0} {0}) 1.0))", e) }
                        "cbrt" => { self.rfn("cbrt", 1); let c = format!("(rf_cbrt {})", xs[0]); self.buf.push_str(&format!("(assert (= (* {0} {0} {0}) {1}))\n", c, xs[0])); c }
                        _ => { self.rfn(&f, xs.len()); format!("(rf_{} {})", f, xs.join(" ")) }
                    }
                }
            }
            Op::SiToF => { let w = width(n.args[0]); let b = self.rb(n.args[0])?; format!("(to_real (- (ubv_to_int (bvxor {} {})) {}))", b, bvconst(1u128 << (w - 1), w), 1u128 << (w - 1)) }
            Op::UiToF => { let b = self.rb(n.args[0])?; format!("(to_real (ubv_to_int {}))", b) }
            _ => return Err(()),
        };
        self.buf.push_str(&format!("(define-fun {} () Real {})\n", name, e));
        Ok(name)
    }
    /// numerator and denominator (None = 1) of a real term: identities then need no division
    fn frac(&mut self, t: T) -> Result<(String, Option<String>), ()> {
        if Self::cval(t).is_some() { return Ok((self.real(t)?, None)); }
        if let Some(r) = self.fdef.get(&t) { return r.clone(); }
        let r = self.frac_(t);
        self.fdef.insert(t, r.clone());
        r
    }
    fn frac_(&mut self, t: T) -> Result<(String, Option<String>), ()> {
        let n = node(t).clone();
        let mul = |a: &Option<String>, b: &Option<String>| match (a, b) { (None, x) | (x, None) => x.clone(), (Some(a), Some(b)) => Some(format!("(* {} {})", a, b)) };
        let tm = |a: &str, b: &Option<String>| match b { None => a.to_string(), Some(b) => format!("(* {} {})", a, b) };
        let (nu, de) = match n.op {
            Op::FAdd | Op::FSub => { let ((a, b), (c, d)) = (self.frac(n.args[0])?, self.frac(n.args[1])?); let o = if n.op == Op::FAdd { "+" } else { "-" };
                if b == d { (format!("({} {} {})", o, a, c), b) } else { (format!("({} {} {})", o, tm(&a, &d), tm(&c, &b)), mul(&b, &d)) } }
            Op::FMul => { let ((a, b), (c, d)) = (self.frac(n.args[0])?, self.frac(n.args[1])?); (format!("(* {} {})", a, c), mul(&b, &d)) }
            Op::FDiv => { let ((a, b), (c, d)) = (self.frac(n.args[0])?, self.frac(n.args[1])?); (tm(&a, &d), Some(tm(&c, &b))) }
            Op::FMa => { let ((a, b), (c, d), (e, f)) = (self.frac(n.args[0])?, self.frac(n.args[1])?, self.frac(n.args[2])?); let bd = mul(&b, &d); (format!("(+ {} {})", tm(&format!("(* {} {})", a, c), &f), tm(&e, &bd)), mul(&bd, &f)) }
            Op::FNeg => { let (a, b) = self.frac(n.args[0])?; (format!("(- {})", a), b) }
            Op::FExt | Op::FTr => return self.frac(n.args[0]),
            Op::Ite if Self::zero_guard(&n) => return self.frac(n.args[2]),
            Op::Ite => { let c = self.rbool(n.args[0])?; let ((a, b), (x, d)) = (self.frac(n.args[1])?, self.frac(n.args[2])?);
                if b == d { (format!("(ite {} {} {})", c, a, x), b) } else { (format!("(ite {} {} {})", c, a, x), Some(format!("(ite {} {} {})", c, b.unwrap_or("1.0".into()), d.unwrap_or("1.0".into())))) } }
            _ => return Ok((self.real(t)?, None)),
        };
        self.buf.push_str(&format!("(define-fun fn{} () Real {})\n", t, nu));
        let d = match de { None => None, Some(d) => { if d.starts_with('(') { self.buf.push_str(&format!("(define-fun fd{} () Real {})\n", t, d)); Some(format!("fd{}", t)) } else { Some(d) } } };
        Ok((format!("fn{}", t), d))
    }
    fn sq_axioms(&self, roots: &[T]) -> Vec<String> {
        let mut seen = HashSet::new(); let mut st = roots.to_vec(); let mut out = vec![];
        while let Some(x) = st.pop() { if !seen.insert(x) { continue; } if let Some(a) = self.sqax.get(&x) { out.push(a.clone()); } let n = node(x); for i in 0..n.na as usize { st.push(n.args[i]); } }
        out
    }
    fn rfn(&mut self, f: &str, na: usize) { let nm = format!("rf_{}", f); if self.decl.insert(nm.clone()) { self.buf.push_str(&format!("(declare-fun {} ({}) Real)\n", nm, vec!["Real"; na].join(" "))); } }
    fn sincos(&mut self, x: &str) -> (String, String) {
        self.rfn("sin", 1); self.rfn("cos", 1);
        let (s, c) = (format!("(rf_sin {})", x), format!("(rf_cos {})", x));
        self.buf.push_str(&format!("(assert (= (+ (* {0} {0}) (* {1} {1})) 1.0))\n", s, c));
        (s, c)
    }
    fn exp(&mut self, x: &str) -> String { self.rfn("exp", 1); let e = format!("(rf_exp {})", x); self.buf.push_str(&format!("(assert (> {} 0.0))\n", e)); e }
    /// pure bit-vector term (no floating-point origin) in the real encoding
    fn rb(&mut self, t: T) -> Result<String, ()> {
        if let Some(v) = as_const(t) { return Ok(bvconst(v, width(t))); }
        if width(t) == 1 { return self.rbool(t); }
        let mut st = vec![t]; let mut seen = HashSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = node(x);
            match n.op { Op::Var if ar().vars[n.aux as usize].is_f => return Err(()),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FNeg | Op::FAbs | Op::FSqrt | Op::FMa | Op::FCall | Op::FLt | Op::FLe | Op::FEq | Op::FNan | Op::FToSi | Op::FToUi | Op::SiToF | Op::UiToF | Op::FCopysign | Op::FExt | Op::FTr | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound => return Err(()), _ => {} }
            for i in 0..n.na as usize { st.push(n.args[i]); }
        }
        self.define(t);
        Ok(Self::nm(t))
    }
    fn rbool(&mut self, t: T) -> Result<String, ()> {
        if let Some(v) = as_const(t) { return Ok(bvconst(v, 1)); }
        if let Some(r) = self.bdef.get(&t) { return r.clone(); }
        let r = self.rbool_(t);
        self.bdef.insert(t, r.clone());
        r
    }
    fn rbool_(&mut self, t: T) -> Result<String, ()> {
        let n = node(t).clone();
        let e = match n.op {
            Op::And | Op::Or => { let (x, y) = (self.rbool(n.args[0])?, self.rbool(n.args[1])?);
                let dom = if n.op == Op::And { "false" } else { "true" };
                if x == dom || y == dom { return Ok(dom.into()); }
                if x == "true" || x == "false" { return Ok(y); }
                if y == "true" || y == "false" { return Ok(x); }
                format!("({} {} {})", if n.op == Op::And { "and" } else { "or" }, x, y) }
            Op::Xor => { let (x, y) = (self.rbool(n.args[0])?, self.rbool(n.args[1])?);
                if as_const(n.args[1]) == Some(1) { if x == "true" { return Ok("false".into()); } if x == "false" { return Ok("true".into()); } }
                format!("(xor {} {})", x, y) }
            Op::Ite => { let (x, y, z) = (self.rbool(n.args[0])?, self.rbool(n.args[1])?, self.rbool(n.args[2])?); format!("(ite {} {} {})", x, y, z) }
            Op::FNan => { if let Some(c) = Self::cval(n.args[0]) { return Ok(if c.is_nan() { "true".into() } else { "false".into() }); } self.real(n.args[0])?; return Ok("false".into()); }
            Op::FLt | Op::FLe | Op::FEq => {
                let (c0, c1) = (Self::cval(n.args[0]), Self::cval(n.args[1]));
                let b = |x: bool| Ok(if x { "true".to_string() } else { "false".to_string() });
                if let Some(c) = c0 { if !c.is_finite() { return b(n.op != Op::FEq && c == f64::NEG_INFINITY); } }
                if let Some(c) = c1 { if !c.is_finite() { return b(n.op != Op::FEq && c == f64::INFINITY); } }
                let (x, y) = (self.real(n.args[0])?, self.real(n.args[1])?);
                format!("({} {} {})", match n.op { Op::FLt => "<", Op::FLe => "<=", _ => "=" }, x, y)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle if width(n.args[0]) > 1 => {
                let (x, y) = (self.rb(n.args[0])?, self.rb(n.args[1])?);
                format!("({} {} {})", match n.op { Op::Eq => "=", Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", _ => "bvsle" }, x, y)
            }
            Op::Eq => { let (x, y) = (self.rbool(n.args[0])?, self.rbool(n.args[1])?); format!("(= {} {})", x, y) }
            Op::Var => { self.define(t); return Ok(Self::nm(t)); }
            Op::Extract if n.aux as u16 == width(n.args[0]) - 1 && self.real(n.args[0]).is_ok() => { let x = self.real(n.args[0])?; format!("(< {} 0.0)", x) }
            Op::Extract => { let x = self.rb(n.args[0])?; format!("(= ((_ extract {0} {0}) {1}) #b1)", n.aux, x) }
            _ => return Err(()),
        };
        let name = format!("c{}", t);
        self.buf.push_str(&format!("(define-fun {} () Bool {})\n", name, e));
        Ok(name)
    }
    // ---------- order abstraction: floats as extended reals, everything but comparisons opaque ----------
    /// true = unsatisfiable already when only the order of the float terms is looked at
    pub fn ord_unsat(&mut self, conds: &[T]) -> bool {
        if self.child.is_none() { self.start(); self.buf.push_str("(declare-const PINF Real)\n(assert (> PINF 0.0))\n"); }
        let asserts: Vec<String> = conds.iter().map(|&c| self.ob(c)).collect();
        matches!(self.run(&asserts, &[]).0, Res::Unsat)
    }
    fn oname(&mut self, t: T) -> (String, String) { // value, is-nan
        if let Some(c) = Self::cval(t) {
            if c.is_nan() { return ("0.0".into(), "true".into()); }
            if c == f64::INFINITY { return ("PINF".into(), "false".into()); }
            if c == f64::NEG_INFINITY { return ("(- PINF)".into(), "false".into()); }
            let s = real_const(c).unwrap();
            if c != 0.0 && self.decl.insert(format!("oc{}", t)) { self.buf.push_str(&format!("(assert (and (< {} PINF) (< (- PINF) {})))\n", s, s)); }
            return (s, "false".into());
        }
        if self.decl.insert(format!("ov{}", t)) {
            let n = node(t).clone();
            let (v, b) = match n.op {
                Op::FNeg => { let (a, b) = self.oname(n.args[0]); (Some(format!("(- {})", a)), b) }
                Op::FAbs => { let (a, b) = self.oname(n.args[0]); (Some(format!("(ite (>= {0} 0.0) {0} (- {0}))", a)), b) }
                Op::Ite => { let c = self.ob(n.args[0]); let ((a, x), (b, y)) = (self.oname(n.args[1]), self.oname(n.args[2])); (Some(format!("(ite {} {} {})", c, a, b)), format!("(ite {} {} {})", c, x, y)) }
                _ => (None, String::new()),
            };
            match v {
                Some(v) => self.buf.push_str(&format!("(define-fun ov{0} () Real {1})\n(define-fun on{0} () Bool {2})\n", t, v, b)),
                None => self.buf.push_str(&format!("(declare-const ov{0} Real)\n(declare-const on{0} Bool)\n(assert (and (<= ov{0} PINF) (<= (- PINF) ov{0})))\n", t)),
            }
        }
        (format!("ov{}", t), format!("on{}", t))
    }
    fn ob(&mut self, t: T) -> String {
        if let Some(v) = as_const(t) { return bvconst(v, 1); }
        if self.decl.contains(&format!("ob{}", t)) { return format!("ob{}", t); }
        let n = node(t).clone();
        let e = match n.op {
            Op::And | Op::Or => { let (a, b) = (self.ob(n.args[0]), self.ob(n.args[1])); Some(format!("({} {} {})", if n.op == Op::And { "and" } else { "or" }, a, b)) }
            Op::Xor => { let (a, b) = (self.ob(n.args[0]), self.ob(n.args[1])); Some(format!("(xor {} {})", a, b)) }
            Op::Ite => { let (a, b, c) = (self.ob(n.args[0]), self.ob(n.args[1]), self.ob(n.args[2])); Some(format!("(ite {} {} {})", a, b, c)) }
            Op::Eq if width(n.args[0]) == 1 => { let (a, b) = (self.ob(n.args[0]), self.ob(n.args[1])); Some(format!("(= {} {})", a, b)) }
            Op::FLt | Op::FLe | Op::FEq => { let ((a, x), (b, y)) = (self.oname(n.args[0]), self.oname(n.args[1])); Some(format!("(and (not {}) (not {}) ({} {} {}))", x, y, match n.op { Op::FLt => "<", Op::FLe => "<=", _ => "=" }, a, b)) }
            Op::FNan => Some(self.oname(n.args[0]).1),
            _ => None,
        };
        self.decl.insert(format!("ob{}", t));
        match e { Some(e) => self.buf.push_str(&format!("(define-fun ob{} () Bool {})\n", t, e)), None => self.buf.push_str(&format!("(declare-const ob{} Bool)\n", t)) }
        format!("ob{}", t)
    }
    fn run(&mut self, asserts: &[String], vars: &[(u32, String)]) -> (Res, Vec<(u32, f64)>) {
        let t0 = Instant::now();
        self.buf.push_str("(push 1)\n");
        for a in asserts { self.buf.push_str(&format!("(assert {})\n", a)); }
        self.buf.push_str("(check-sat)\n");
        self.send();
        self.queries += 1;
        let mut l = self.line();
        while l.contains("(error") && l.contains("canceled") { l = self.line(); }
        let r = l.trim().to_string();
        if std::env::var("RSX_SLOW").is_ok() && t0.elapsed().as_secs_f64() > 1.0 { eprintln!("SLOW {:?} {:.1}s -> {} : {}", self.mode, t0.elapsed().as_secs_f64(), r, asserts.join(" ; ")); }
        let mut out = (Res::Unknown, vec![]);
        if r.is_empty() { self.unknowns += 1; self.kill(); self.secs += t0.elapsed().as_secs_f64(); return out; }
        match r.as_str() {
            "unsat" => { self.unsats += 1; out.0 = Res::Unsat; }
            "sat" => {
                self.sats += 1;
                let mut m = vec![];
                if !vars.is_empty() {
                    let names: Vec<&str> = vars.iter().map(|x| x.1.as_str()).collect();
                    self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
                    self.send();
                    let mut s = String::new();
                    let mut depth = 0i32;
                    loop {
                        let l = self.line();
                        if l.is_empty() { self.unknowns += 1; self.kill(); self.secs += t0.elapsed().as_secs_f64(); return (Res::Unknown, vec![]); }
                        for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
                        s.push_str(&l);
                        if depth <= 0 { break; }
                    }
                    let vals = parse_values(&s);
                    for (i, (v, _)) in vars.iter().enumerate() {
                        match &vals.get(i) {
                            Some(Val::Bv(x)) => m.push((*v, *x)),
                            Some(Val::R(x)) => out.1.push((*v, *x)),
                            None => panic!("bad get-value: {}", s),
                        }
                    }
                }
                out.0 = Res::Sat(m);
            }
            "unknown" | "timeout" => { self.unknowns += 1; }
            _ => panic!("solver said: {}", r),
        }
        self.buf.push_str("(pop 1)\n");
        self.secs += t0.elapsed().as_secs_f64();
        out
    }
    pub fn set_timeout(&mut self, ms: u64) { if ms != self.timeout_ms { self.timeout_ms = ms; if self.child.is_some() { self.buf.push_str(&format!("(set-option :timeout {})\n", ms)); } } }
    pub fn check(&mut self, conds: &[T]) -> Res {
        for &c in conds { if as_const(c) == Some(0) { return Res::Unsat; } }
        self.start();
        assert!(self.mode != Mode::Real);
        let mut vs: HashSet<u32> = HashSet::new();
        let mut asserts = vec![];
        for &c in conds { if as_const(c).is_some() { continue; } self.define(c); asserts.push(Self::nm(c)); for &v in ar().varsets[c as usize].iter() { if v != UFVAR { vs.insert(v); } } }
        let mut vars: Vec<(u32, String)> = vec![];
        for v in vs { let t = var_term(v); vars.push((v, format!("t{}", t))); }
        self.run(&asserts, &vars).0
    }
    /// Real-arithmetic query. Untranslatable path conjuncts are dropped (which only weakens the premise);
    /// an untranslatable goal gives None.
    pub fn check_real(&mut self, pc: &[T], goal_ne: Option<(T, T)>, goal: Option<T>, frac: bool) -> Option<(Res, Vec<(u32, f64)>)> {
        self.start();
        let mut asserts = vec![];
        let mut vs: HashSet<u32> = HashSet::new();
        let addv = |t: T, vs: &mut HashSet<u32>| { for &v in ar().varsets[t as usize].iter() { if v != UFVAR { vs.insert(v); } } };
        if let Some((a, b)) = goal_ne {
            if frac {
                let ((a, b), (c, d)) = (self.frac(a).ok()?, self.frac(b).ok()?);
                let m = |x: &str, y: &Option<String>| match y { None => x.to_string(), Some(y) => format!("(* {} {})", x, y) };
                for z in [&b, &d].into_iter().flatten() { asserts.push(format!("(not (= {} 0.0))", z)); }
                asserts.push(format!("(not (= {} {}))", m(&a, &d), m(&c, &b)));
            } else { let x = self.real(a).ok()?; let y = self.real(b).ok()?; asserts.push(format!("(not (= {} {}))", x, y)); }
            addv(a, &mut vs); addv(b, &mut vs);
        }
        if let Some(g) = goal { let x = self.rbool(g).ok()?; asserts.push(x); addv(g, &mut vs); }
        for &c in pc { if as_const(c).is_some() { continue; } if let Ok(s) = self.rbool(c) { asserts.push(s); addv(c, &mut vs); } }
        if !pc.is_empty() { let mut roots = pc.to_vec(); if let Some((a, b)) = goal_ne { roots.push(a); roots.push(b); } asserts.extend(self.sq_axioms(&roots)); }
        let mut vars = vec![];
        for v in vs { let t = var_term(v); if let Some(Ok(s)) = self.rdef.get(&t) { vars.push((v, s.clone())); } else if self.defined.contains(&t) { vars.push((v, format!("t{}", t))); } }
        Some(self.run(&asserts, &vars))
    }
}

pub fn var_term(v: u32) -> T {
    let a = ar();
    let vi = &a.vars[v as usize];
    *a.map.get(&Node { op: Op::Var, w: vi.w, aux: v, args: [0; 3], na: 0, val: 0 }).unwrap()
}

enum Val { Bv(u128), R(f64) }
/// parses ((name val) (name val) ...)
fn parse_values(s: &str) -> Vec<Val> {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)); } if c == '(' || c == ')' { toks.push(c.to_string()); } }
        else { cur.push(c); }
    }
    let mut p = 1; // skip outer (
    let mut out = vec![];
    while p < toks.len() && toks[p] == "(" {
        p += 1; // (
        // name may be a parenthesised expression; in our case it is a symbol
        p += 1;
        out.push(pval(&toks, &mut p));
        p += 1; // )
    }
    out
}
fn pval(t: &[String], p: &mut usize) -> Val {
    let x = t[*p].clone();
    if x == "(" {
        *p += 1;
        let op = t[*p].clone();
        if op == "root-obj" {
            // skip; take a crude value
            let mut d = 1; while d > 0 { *p += 1; if t[*p] == "(" { d += 1 } else if t[*p] == ")" { d -= 1 } }
            *p += 1;
            return Val::R(f64::NAN);
        }
        *p += 1;
        let mut vs = vec![];
        while t[*p] != ")" { if op == "_" { vs.push(t[*p].clone()); *p += 1; } else { if let Val::R(r) = pval(t, p) { vs.push(r.to_string()); } else { vs.push("0".into()); } } }
        *p += 1;
        match op.as_str() {
            "-" => { let v: Vec<f64> = vs.iter().map(|x| x.parse().unwrap()).collect(); Val::R(if v.len() == 1 { -v[0] } else { v[0] - v[1] }) }
            "/" => { let v: Vec<f64> = vs.iter().map(|x| x.parse().unwrap()).collect(); Val::R(v[0] / v[1]) }
            "_" => Val::Bv(vs[0].trim_start_matches("bv").parse().unwrap()),
            _ => Val::R(f64::NAN),
        }
    } else {
        *p += 1;
        if let Some(h) = x.strip_prefix("#x") { Val::Bv(u128::from_str_radix(h, 16).unwrap()) }
        else if let Some(h) = x.strip_prefix("#b") { Val::Bv(u128::from_str_radix(h, 2).unwrap()) }
        else if x == "true" { Val::Bv(1) } else if x == "false" { Val::Bv(0) }
        else { Val::R(x.trim_end_matches('?').parse().unwrap_or(f64::NAN)) }
    }
}
