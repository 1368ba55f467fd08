// z3 backend: path conditions over bounded integers, encoded in narrow bit-vectors or linear integers.
use crate::num::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

/// queries under way, for the watchdog: z3 does not always keep to its own time limit
static WATCH: std::sync::Mutex<std::collections::BTreeMap<usize, (Instant, u32)>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn watchdog(stop: &std::sync::atomic::AtomicBool) {
    for (z, (t, ms)) in WATCH.lock().unwrap().iter() {
        let e = t.elapsed().as_millis() as u64;
        if e > *ms as u64 + 1000 || (e > 300 && stop.load(std::sync::atomic::Ordering::Relaxed)) { unsafe { Z3_interrupt(*z as P) } }
    }
}
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_interrupt(c: P);
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}
pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Rel { Le, Eq, Ne }

#[derive(Debug)]
pub enum Constr {
    Rel(Poly, Rel),
    Def(u32), // the defining constraint of a quotient/remainder pair (id of the quotient var)
}

pub struct VarInfo {
    pub name: String,
    pub lo: Int,
    pub hi: Int,
    pub def: Option<(bool, Poly, Poly)>, // (is_remainder, dividend, divisor)
    pub mate: u32,
}

pub type Model = Rc<HashMap<u32, Int>>; // input variables only

pub struct Ctx {
    pub vars: Vec<VarInfo>,
    pub by_name: HashMap<String, u32>,
    pub divs: HashMap<(Poly, Poly), u32>,
    z: P,
    int_mode: bool,
    ib: Backend,
    bb: Backend,
    mode: u8, // 0 auto, 1 integers only, 2 bit-vectors only
    timeout_ms: u32,
    pub q_int: u64,
    pub q_bv: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

#[derive(Default)]
struct Backend { s: Option<P>, var_ast: Vec<P>, stack: Vec<Rc<Constr>>, cache: HashMap<(Poly, Rel), P>, tmo: u32 }

pub enum Ans { Sat(Model), Unsat, Unknown }

fn cs(s: &str) -> CString { CString::new(s).unwrap() }

impl Ctx {
    pub fn new(mode: u8, timeout_ms: u32) -> Ctx {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let z = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(z, Some(on_err));
            let mk = |int: bool| {
                let s = if int { Z3_mk_solver(z) } else { Z3_mk_simple_solver(z) };
                Z3_solver_inc_ref(z, s);
                Backend { s: Some(s), ..Default::default() }
            };
            Ctx {
                vars: vec![], by_name: HashMap::new(), divs: HashMap::new(), z, int_mode: true, ib: mk(true), bb: mk(false), mode, timeout_ms,
                q_int: 0, q_bv: 0,
                queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0,
            }
        }
    }
    fn be(&mut self) -> &mut Backend { if self.int_mode { &mut self.ib } else { &mut self.bb } }
    unsafe fn set_timeout(&mut self, ms: u32) {
        if self.be().tmo == ms { return; }
        self.be().tmo = ms;
        let p = Z3_mk_params(self.z);
        Z3_params_inc_ref(self.z, p);
        Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cs("timeout").as_ptr()), ms);
        Z3_params_set_uint(self.z, p, Z3_mk_string_symbol(self.z, cs("random_seed").as_ptr()), 1);
        let s = self.be().s.unwrap();
        Z3_solver_set_params(self.z, s, p);
    }
    fn va(&mut self, v: u32) -> P { while self.be().var_ast.len() <= v as usize { let k = self.be().var_ast.len() as u32; self.mk_var(k); } self.be().var_ast[v as usize] }
    pub fn input(&mut self, name: &str, lo: Int, hi: Int) -> u32 {
        let key = format!("{}#{}#{}", name, lo, hi);
        if let Some(v) = self.by_name.get(&key) { return *v; }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), lo, hi, def: None, mate: v });
        self.by_name.insert(key, v);
        v
    }
    fn mk_var(&mut self, v: u32) {
        let z = self.z; let _ = z;
        unsafe {
            let info = &self.vars[v as usize];
            let sort = if self.int_mode { Z3_mk_int_sort(self.z) } else { Z3_mk_bv_sort(self.z, info.lo.bits().max(info.hi.bits()) + 1) };
            let sym = Z3_mk_string_symbol(self.z, cs(&format!("{}{}", if self.int_mode { "i" } else { "b" }, v)).as_ptr());
            let a = Z3_mk_const(self.z, sym, sort);
            Z3_inc_ref(self.z, a);
            self.be().var_ast.push(a);
        }
    }
    /// Quotient and remainder variables of floor division p / d (meaningful where d > 0).
    pub fn divmod(&mut self, p: &Poly, d: &Poly) -> (u32, u32) {
        let key = (p.clone(), d.clone());
        if let Some(q) = self.divs.get(&key) { return (*q, *q + 1); }
        let (pl, ph) = self.base_interval(p);
        let (_, dh) = self.base_interval(d);
        let q = self.vars.len() as u32;
        let (ql, qh) = match d.as_const() {
            Some(c) => (pl.div_floor(&c), ph.div_floor(&c)),
            None => (pl.imin(&Int::S(0)), ph.imax(&Int::S(0))),
        };
        self.vars.push(VarInfo { name: format!("q{}", q), lo: ql, hi: qh, def: Some((false, p.clone(), d.clone())), mate: q + 1 });
        self.vars.push(VarInfo { name: format!("r{}", q), lo: Int::S(0), hi: dh.sub(&Int::S(1)).imax(&Int::S(0)), def: Some((true, p.clone(), d.clone())), mate: q });
        self.divs.insert(key, q);
        (q, q + 1)
    }
    pub fn base_interval(&self, p: &Poly) -> (Int, Int) { interval(p, &|v| { let i = &self.vars[v as usize]; (i.lo.clone(), i.hi.clone()) }) }
    pub fn eval(&self, p: &Poly, m: &Model) -> Int { p.eval(&mut |v| self.eval_var(v, m)) }
    pub fn eval_var(&self, v: u32, m: &Model) -> Int {
        let info = &self.vars[v as usize];
        match &info.def {
            None => m.get(&v).cloned().unwrap_or_else(|| default_value(info)),
            Some((rem, p, d)) => {
                let pv = self.eval(p, m);
                let dv = self.eval(d, m);
                if dv.sgn() <= 0 { return Int::S(0); }
                if *rem { pv.mod_floor(&dv) } else { pv.div_floor(&dv) }
            }
        }
    }
    unsafe fn num(&self, c: &Int, w: u32) -> P {
        if self.int_mode {
            let r = Z3_mk_numeral(self.z, cs(&c.to_string()).as_ptr(), Z3_mk_int_sort(self.z));
            Z3_inc_ref(self.z, r);
            return r;
        }
        let v = if c.sgn() < 0 { c.add(&pow2big(w)) } else { c.clone() };
        let r = Z3_mk_numeral(self.z, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.z, w));
        Z3_inc_ref(self.z, r);
        r
    }
    unsafe fn inc(&self, a: P) -> P { Z3_inc_ref(self.z, a); a }
    /// sum of terms as z3 term, wide enough that no overflow can happen
    unsafe fn poly_ast(&mut self, t: &[(Mono, Int)], w: u32) -> P {
        if self.int_mode {
            let mut parts = vec![];
            for (m, c) in t {
                let mut fs = vec![self.num(c, 0)];
                for v in m { fs.push(self.va(*v)); }
                parts.push(if fs.len() == 1 { fs[0] } else { self.inc(Z3_mk_mul(self.z, fs.len() as c_uint, fs.as_ptr())) });
            }
            return if parts.is_empty() { self.num(&Int::S(0), 0) } else { self.inc(Z3_mk_add(self.z, parts.len() as c_uint, parts.as_ptr())) };
        }
        let mut acc: Option<P> = None;
        for (m, c) in t {
            let mut f: Option<P> = None;
            for v in m {
                let i = &self.vars[*v as usize];
                let vw = i.lo.bits().max(i.hi.bits()) + 1;
                let va = self.va(*v);
                let x = self.inc(Z3_mk_sign_ext(self.z, w - vw, va));
                f = Some(match f { None => x, Some(y) => self.inc(Z3_mk_bvmul(self.z, y, x)) });
            }
            let k = match f {
                None => self.num(c, w),
                Some(y) => if c.is_one() { y } else { let n = self.num(c, w); self.inc(Z3_mk_bvmul(self.z, n, y)) },
            };
            acc = Some(match acc { None => k, Some(y) => self.inc(Z3_mk_bvadd(self.z, y, k)) });
        }
        acc.unwrap_or_else(|| self.num(&Int::S(0), w))
    }
    fn width_of(&self, t: &[(Mono, Int)]) -> u32 {
        let mut b = Int::S(1);
        let mut vw = 1;
        for (m, c) in t {
            let mut k = c.abs();
            for v in m {
                let i = &self.vars[*v as usize];
                vw = vw.max(i.lo.bits().max(i.hi.bits()) + 1);
                k = k.mul(&i.lo.abs().imax(&i.hi.abs()).imax(&Int::S(1)));
            }
            b = b.add(&k);
        }
        (b.bits() + 1).max(vw)
    }
    unsafe fn rel_ast(&mut self, p: &Poly, r: Rel) -> P {
        if let Some(a) = self.be().cache.get(&(p.clone(), r)) { return *a; }
        // lhs (positive-coef part) vs rhs keeps widths small
        let lhs: Vec<_> = p.t.iter().filter(|x| x.1.sgn() > 0).cloned().collect();
        let rhs: Vec<_> = p.t.iter().filter(|x| x.1.sgn() < 0).map(|(m, c)| (m.clone(), c.neg())).collect();
        let w = self.width_of(&lhs).max(self.width_of(&rhs));
        let a = self.poly_ast(&lhs, w);
        let b = self.poly_ast(&rhs, w);
        let e = match r {
            Rel::Le => if self.int_mode { Z3_mk_le(self.z, a, b) } else { Z3_mk_bvsle(self.z, a, b) },
            Rel::Eq => Z3_mk_eq(self.z, a, b),
            Rel::Ne => { let e = self.inc(Z3_mk_eq(self.z, a, b)); Z3_mk_not(self.z, e) }
        };
        self.inc(e);
        self.be().cache.insert((p.clone(), r), e);
        e
    }
    unsafe fn constr_ast(&mut self, c: &Constr) -> P {
        match c {
            Constr::Rel(p, r) => self.rel_ast(p, *r),
            Constr::Def(q) => {
                let (_, p, d) = self.vars[*q as usize].def.clone().unwrap();
                let qv = Poly::var(*q);
                let rv = Poly::var(*q + 1);
                // p = d*q + r, 0 <= r < d
                let e1 = self.rel_ast(&p.sub(&d.mul(&qv)).sub(&rv), Rel::Eq);
                let e2 = self.rel_ast(&rv.neg(), Rel::Le);
                let e3 = self.rel_ast(&rv.sub(&d).addc(&Int::S(1)), Rel::Le);
                let (ql, qh) = (self.vars[*q as usize].lo.clone(), self.vars[*q as usize].hi.clone());
                let e4 = self.rel_ast(&Poly::c(ql).sub(&qv), Rel::Le);
                let e5 = self.rel_ast(&qv.addc(&qh.neg()), Rel::Le);
                let v = [e1, e2, e3, e4, e5];
                self.inc(Z3_mk_and(self.z, 5, v.as_ptr()))
            }
        }
    }
    /// Is path /\ (disjunction of the extra constraints) satisfiable?
    pub fn check(&mut self, path: &[Rc<Constr>], extra: &[(Poly, Rel)]) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        let nonlin = |p: &Poly| p.degree() > 1;
        let hard = extra.iter().any(|e| nonlin(&e.0)) || path.iter().any(|c| match &**c { Constr::Rel(p, _) => nonlin(p), Constr::Def(q) => { let d = self.vars[*q as usize].def.as_ref().unwrap(); nonlin(&d.1) || !d.2.is_const() } });
        let plan: Vec<(bool, u32)> = match (self.mode, hard) {
            (1, _) | (0, false) => vec![(true, self.timeout_ms)],
            (2, _) => vec![(false, self.timeout_ms)],
            _ => vec![(true, 300), (false, self.timeout_ms), (true, self.timeout_ms)],
        };
        let mut ans = Ans::Unknown;
        for (int, ms) in plan {
            self.int_mode = int;
            if int { self.q_int += 1 } else { self.q_bv += 1 }
            ans = unsafe { self.check1(path, extra, ms) };
            if !matches!(ans, Ans::Unknown) { break; }
        }
        match ans { Ans::Sat(_) => self.sat += 1, Ans::Unsat => self.unsat += 1, Ans::Unknown => self.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        ans
    }
    unsafe fn check1(&mut self, path: &[Rc<Constr>], extra: &[(Poly, Rel)], ms: u32) -> Ans {
        self.set_timeout(ms);
        let s = self.be().s.unwrap();
        let mut k = 0;
        { let st = &self.be().stack; while k < st.len() && k < path.len() && Rc::ptr_eq(&st[k], &path[k]) { k += 1; } }
        let n = self.be().stack.len();
        if k < n {
            Z3_solver_pop(self.z, s, (n - k) as c_uint);
            self.be().stack.truncate(k);
        }
        for c in &path[k..] {
            Z3_solver_push(self.z, s);
            let a = self.constr_ast(c);
            Z3_solver_assert(self.z, s, a);
            self.be().stack.push(c.clone());
        }
        Z3_solver_push(self.z, s);
        let mut v = vec![];
        for (p, r) in extra { v.push(self.rel_ast(p, *r)); }
        if v.len() == 1 {
            Z3_solver_assert(self.z, s, v[0]);
        } else if v.len() > 1 {
            let a = self.inc(Z3_mk_or(self.z, v.len() as c_uint, v.as_ptr()));
            Z3_solver_assert(self.z, s, a);
        }
        WATCH.lock().unwrap().insert(self.z as usize, (Instant::now(), ms));
        let verdict = Z3_solver_check(self.z, s);
        WATCH.lock().unwrap().remove(&(self.z as usize));
        let ans = match verdict {
            1 => {
                let m = Z3_solver_get_model(self.z, s);
                Z3_model_inc_ref(self.z, m);
                let mut mm = HashMap::new();
                for i in 0..self.vars.len() {
                    if self.vars[i].def.is_some() { continue; }
                    let mut out: P = std::ptr::null_mut();
                    let va = self.va(i as u32);
                    if Z3_model_eval(self.z, m, va, true, &mut out) && !out.is_null() {
                        self.inc(out);
                        let st = Z3_get_numeral_string(self.z, out);
                        let st = CStr::from_ptr(st).to_string_lossy();
                        if let Some(mut x) = Int::parse(&st) {
                            if !self.int_mode {
                                let inf = &self.vars[i];
                                let w = inf.lo.bits().max(inf.hi.bits()) + 1;
                                if x >= pow2big(w - 1) { x = x.sub(&pow2big(w)); }
                            }
                            mm.insert(i as u32, x);
                        }
                        Z3_dec_ref(self.z, out);
                    }
                }
                Z3_model_dec_ref(self.z, m);
                Ans::Sat(Rc::new(mm))
            }
            -1 => Ans::Unsat,
            _ => Ans::Unknown,
        };
        Z3_solver_pop(self.z, s, 1);
        ans
    }
}

pub fn pow2big(k: u32) -> Int { Int::from_big(num_bigint::BigInt::from(1) << k) }

pub fn default_value(i: &VarInfo) -> Int {
    if i.lo.sgn() <= 0 && i.hi.sgn() >= 0 { Int::S(0) } else { i.lo.clone() }
}

pub fn interval(p: &Poly, f: &dyn Fn(u32) -> (Int, Int)) -> (Int, Int) {
    let mut lo = Int::S(0);
    let mut hi = Int::S(0);
    for (m, c) in &p.t {
        let (mut a, mut b) = (c.clone(), c.clone());
        let mut i = 0;
        while i < m.len() {
            let v = m[i];
            let mut n = 0;
            while i < m.len() && m[i] == v { n += 1; i += 1; }
            let (l, h) = f(v);
            let (mut pl, mut ph) = (l.clone(), h.clone());
            for _ in 1..n {
                let c4 = [pl.mul(&l), pl.mul(&h), ph.mul(&l), ph.mul(&h)];
                pl = c4.iter().min().unwrap().clone();
                ph = c4.iter().max().unwrap().clone();
            }
            if n % 2 == 0 && pl.sgn() < 0 {
                pl = if l.sgn() <= 0 && h.sgn() >= 0 { Int::S(0) } else { pl };
            }
            let c4 = [a.mul(&pl), a.mul(&ph), b.mul(&pl), b.mul(&ph)];
            a = c4.iter().min().unwrap().clone();
            b = c4.iter().max().unwrap().clone();
        }
        lo = lo.add(&a);
        hi = hi.add(&b);
    }
    (lo, hi)
}
