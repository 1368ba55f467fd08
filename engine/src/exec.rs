// Symbolic execution of LLVM IR.
use crate::ir::*;
use crate::num::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(Rc<Sym>), A(Rc<Vec<Val>>) }
#[derive(Debug)]
pub enum Sym {
    I(Poly),                      // machine integer, congruent to the polynomial mod 2^width
    Big(Poly),                    // handle of an exact integer
    Cat(Vec<(u32, u32, Val)>),    // disjoint bit fields (offset, width, value); the rest is zero
    Shr(u128, Val),               // a constant (a small set of bits) shifted right by a symbolic amount
}
use Val::{A, C, S as VS};

#[derive(Clone, Debug, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: BTreeMap<u32, (u32, Val)> }

#[derive(Clone, Debug)]
pub struct Frame { pub f: u32, pub blk: u32, pub pc: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub dst: u32, pub normal: Option<u32> }

#[derive(Clone, Debug, Default)]
pub struct Bound { pub lo: Option<Int>, pub hi: Option<Int>, pub ne: Vec<Int> }

#[derive(Clone, Debug, PartialEq)]
pub enum L { B(bool, bool, bool), V(Int, bool), NV(Int), K(Int) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub path: Vec<Rc<Constr>>,
    pub bounds: HashMap<Rc<Poly>, Rc<Bound>>,
    pub vb: HashMap<u32, (Int, Int)>,
    pub nfixed: usize,
    pub defs: BTreeSet<u32>,
    pub model: Model,
    pub log: Vec<L>,
    pub rpos: usize,
    pub inputs: Rc<Vec<(String, u32)>>,
    pub obs: Rc<Vec<(String, Val)>>,
    pub allow_panic: bool,
    pub steps: u64,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Assume,
    Panic(String),
    Violation(String),
    Engine(String),
    Restart,
}
pub type Res<T> = Result<T, Stop>;

pub struct Worker {
    pub prog: &'static Program,
    pub cx: Ctx,
    pub st: State,
    pub stack: Vec<State>,
    pub replay: Vec<L>,
    pub executed: Vec<bool>,
    pub steps: u64,
    pub forks: u64,
    pub decides: u64,
    pub unknowns: u64,
    pub covers: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub dbg: bool,
    pub stop_flag: &'static std::sync::atomic::AtomicBool,
    pub recent: Vec<Model>,
    pub seed: HashMap<String, Int>,
    pub cache_hits: u64,
    pub forksites: Option<HashMap<String, u64>>,
}

fn eng<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Engine(s.into())) }
fn i(x: i64) -> Int { Int::S(x) }

impl Worker {
    // ---------- path condition ----------
    fn fixed(&self, v: u32) -> Option<Int> {
        match self.st.vb.get(&v) { Some((a, b)) if a == b => Some(a.clone()), _ => None }
    }
    pub fn simp(&self, p: &Poly) -> Poly { if self.st.nfixed == 0 { p.clone() } else { p.subst(&|v| self.fixed(v)) } }
    fn var_itv(&self, v: u32) -> (Int, Int) {
        match self.st.vb.get(&v) { Some(x) => x.clone(), None => { let i = &self.cx.vars[v as usize]; (i.lo.clone(), i.hi.clone()) } }
    }
    fn q_itv(&self, q: &Poly) -> (Int, Int) {
        let (mut lo, mut hi) = interval(q, &|v| self.var_itv(v));
        if let Some(b) = self.st.bounds.get(q) {
            if let Some(l) = &b.lo { if *l > lo { lo = l.clone(); } }
            if let Some(h) = &b.hi { if *h < hi { hi = h.clone(); } }
        }
        (lo, hi)
    }
    pub fn itv(&self, p: &Poly) -> (Int, Int) {
        if let Some(c) = p.as_const() { return (c.clone(), c); }
        let (a, q, c) = p.split();
        let (lo, hi) = self.q_itv(&q);
        let (x, y) = (a.mul(&lo).add(&c), a.mul(&hi).add(&c));
        if a.sgn() > 0 { (x, y) } else { (y, x) }
    }
    fn bound_le(&mut self, q: &Poly, t: &Int) {
        self.upd(q, None, Some(t.clone()), None);
    }
    fn upd(&mut self, q: &Poly, lo: Option<Int>, hi: Option<Int>, ne: Option<Int>) {
        let mut b = self.st.bounds.get(q).map(|x| (**x).clone()).unwrap_or_default();
        if let Some(l) = lo { if b.lo.as_ref().map_or(true, |x| l > *x) { b.lo = Some(l); } }
        if let Some(h) = hi { if b.hi.as_ref().map_or(true, |x| h < *x) { b.hi = Some(h); } }
        if let Some(n) = ne { b.ne.push(n); }
        let single = q.t.len() == 1 && q.t[0].0.len() == 1 && q.t[0].1.is_one();
        let (mut l0, mut h0) = interval(q, &|v| self.var_itv(v));
        if let Some(l) = &b.lo { l0 = l0.imax(l); }
        if let Some(h) = &b.hi { h0 = h0.imin(h); }
        if !b.ne.is_empty() {
            while b.ne.contains(&l0) && l0 <= h0 { l0 = l0.add(&i(1)); b.lo = Some(l0.clone()); }
            while b.ne.contains(&h0) && l0 <= h0 { h0 = h0.sub(&i(1)); b.hi = Some(h0.clone()); }
        }
        if single {
            let v = q.t[0].0[0];
            let was = self.fixed(v).is_some();
            if l0 == h0 && !was { self.st.nfixed += 1; }
            self.st.vb.insert(v, (l0, h0));
        }
        self.st.bounds.insert(Rc::new(q.clone()), Rc::new(b));
    }
    fn push_c(&mut self, p: Poly, r: Rel) { self.st.path.push(Rc::new(Constr::Rel(p, r))); }
    /// record q<=t (kind 0), q>=t (1), q==t (2), q!=t (3)
    fn learn(&mut self, q: &Poly, t: &Int, kind: u8, forced: bool) {
        match kind {
            0 => { if !forced { self.push_c(q.addc(&t.neg()), Rel::Le); } self.bound_le(q, t); }
            1 => { if !forced { self.push_c(q.neg().addc(t), Rel::Le); } self.upd(q, Some(t.clone()), None, None); }
            2 => { if !forced { self.push_c(q.addc(&t.neg()), Rel::Eq); } self.upd(q, Some(t.clone()), Some(t.clone()), None); }
            _ => { if !forced { self.push_c(q.addc(&t.neg()), Rel::Ne); } self.upd(q, None, None, Some(t.clone())); }
        }
    }
    fn note_defs(&mut self, p: &Poly) {
        // make sure the defining constraints of quotient variables occurring in p are on the path
        let mut vs = vec![];
        p.vars(&mut vs);
        for v in vs { self.ensure_def(v); }
    }
    fn ensure_def(&mut self, v: u32) {
        if let Some((rem, p, d)) = self.cx.vars[v as usize].def.clone() {
            let q = if rem { v - 1 } else { v };
            if !self.st.defs.contains(&q) {
                self.st.defs.insert(q);
                self.note_defs(&p);
                self.note_defs(&d);
                self.st.path.push(Rc::new(Constr::Def(q)));
            }
        }
    }
    fn holds_under(&self, path: &[Rc<Constr>], m: &Model) -> bool {
        path.iter().rev().all(|c| match &**c {
            Constr::Rel(p, r) => { let v = self.cx.eval(p, m); match r { Rel::Le => v.sgn() <= 0, Rel::Eq => v.is_zero(), Rel::Ne => !v.is_zero() } }
            Constr::Def(_) => true,
        })
    }
    fn query(&mut self, extra: (Poly, Rel)) -> Res<Option<Model>> {
        // models of recent queries may already answer this one
        for k in 0..self.recent.len() {
            let m = self.recent[k].clone();
            let v = self.cx.eval(&extra.0, &m);
            let ok = match extra.1 { Rel::Le => v.sgn() <= 0, Rel::Eq => v.is_zero(), Rel::Ne => !v.is_zero() };
            if ok && self.holds_under(&self.st.path, &m) { self.cache_hits += 1; return Ok(Some(m)); }
        }
        match self.cx.check(&self.st.path, &[extra]) {
            Ans::Sat(m) => { self.recent.insert(0, m.clone()); self.recent.truncate(6); Ok(Some(m)) }
            Ans::Unsat => Ok(None),
            Ans::Unknown => { self.unknowns += 1; eng("solver returned unknown") }
        }
    }
    fn next_log(&mut self) -> Option<L> {
        if self.st.rpos < self.replay.len() { let l = self.replay[self.st.rpos].clone(); self.st.rpos += 1; Some(l) } else { None }
    }
    /// p <= 0 (Le) or p == 0 (Eq); forks when both outcomes are feasible
    pub fn decide(&mut self, p: &Poly, rel: Rel) -> Res<bool> {
        if rel == Rel::Ne { return Ok(!self.decide(p, Rel::Eq)?); }
        let p = self.simp(p);
        if let Some(c) = p.as_const() { return Ok(if rel == Rel::Le { c.sgn() <= 0 } else { c.is_zero() }); }
        let (a, q, c) = p.split();
        let (lo, hi) = self.q_itv(&q);
        let nc = c.neg();
        let (kt, kf, t, tf); // learn-kinds and thresholds for true / false
        if rel == Rel::Eq {
            if !a.divides(&nc) { return Ok(false); }
            t = nc.div_floor(&a);
            if t < lo || t > hi { return Ok(false); }
            if lo == hi { return Ok(true); }
            if let Some(b) = self.st.bounds.get(&q) { if b.ne.contains(&t) { return Ok(false); } }
            kt = 2; kf = 3; tf = t.clone();
        } else if a.sgn() > 0 {
            t = nc.div_floor(&a);
            if hi <= t { return Ok(true); }
            if lo > t { return Ok(false); }
            kt = 0; kf = 1; tf = t.add(&i(1));
        } else {
            // a*q <= nc  <=>  q >= ceil(nc/a)
            t = ceil_div(&nc, &a);
            if lo >= t { return Ok(true); }
            if hi < t { return Ok(false); }
            kt = 1; kf = 0; tf = t.sub(&i(1));
        }
        self.fork_on(&p, rel, &q, kt, &t, kf, &tf)
    }
    fn fork_on(&mut self, p: &Poly, rel: Rel, q: &Poly, kt: u8, t: &Int, kf: u8, tf: &Int) -> Res<bool> {
        self.decides += 1;
        self.note_defs(p);
        if let Some(l) = self.next_log() {
            return match l {
                L::B(b, forced, alt) => {
                    if b { self.learn(q, t, kt, forced) } else { self.learn(q, tf, kf, forced) }
                    self.st.log.push(L::B(b, forced, alt));
                    if alt { Err(Stop::Restart) } else { Ok(b) }
                }
                _ => eng("replay log mismatch"),
            };
        }
        let v = self.cx.eval(p, &self.st.model);
        let b = if rel == Rel::Le { v.sgn() <= 0 } else { v.is_zero() };
        let other = match (rel, b) {
            (Rel::Le, true) => (p.neg().addc(&i(1)), Rel::Le),
            (Rel::Le, false) => (p.clone(), Rel::Le),
            (_, true) => (p.clone(), Rel::Ne),
            (_, false) => (p.clone(), Rel::Eq),
        };
        let ans = self.query(other)?;
        let forced = ans.is_none();
        if let Some(m) = ans {
            self.forks += 1;
            if self.forksites.is_some() { let w = self.whereami(); *self.forksites.as_mut().unwrap().entry(w).or_insert(0) += 1; }
            let keep = self.st.clone();
            if b { self.learn(q, tf, kf, false) } else { self.learn(q, t, kt, false) }
            self.st.model = m;
            self.st.log.push(L::B(!b, false, true));
            let alt = std::mem::replace(&mut self.st, keep);
            self.stack.push(alt);
        }
        if b { self.learn(q, t, kt, forced) } else { self.learn(q, tf, kf, forced) }
        self.st.log.push(L::B(b, forced, false));
        Ok(b)
    }
    /// complete case split over the values of p
    pub fn concretize(&mut self, p: &Poly) -> Res<Int> {
        let p = self.simp(p);
        if let Some(c) = p.as_const() { return Ok(c); }
        let (a, q, c) = p.split();
        let (lo, hi) = self.q_itv(&q);
        if lo == hi { return Ok(a.mul(&lo).add(&c)); }
        self.note_defs(&p);
        if let Some(l) = self.next_log() {
            match l {
                L::NV(v) => { let t = v.sub(&c).div_floor(&a); self.learn(&q, &t, 3, false); self.st.log.push(L::NV(v)); return Err(Stop::Restart); }
                L::V(v, forced) => { let t = v.sub(&c).div_floor(&a); self.learn(&q, &t, 2, forced); self.st.log.push(L::V(v.clone(), forced)); return Ok(v); }
                _ => return eng("replay log mismatch (value)"),
            }
        }
        self.decides += 1;
        let v = self.cx.eval(&q, &self.st.model);
        let pv = a.mul(&v).add(&c);
        let ans = self.query((q.addc(&v.neg()), Rel::Ne))?;
        let forced = ans.is_none();
        if let Some(m) = ans {
            self.forks += 1;
            if self.forksites.is_some() { let w = format!("value {}", self.whereami()); *self.forksites.as_mut().unwrap().entry(w).or_insert(0) += 1; }
            let keep = self.st.clone();
            self.learn(&q, &v, 3, false);
            self.st.model = m;
            self.st.log.push(L::NV(pv.clone()));
            let alt = std::mem::replace(&mut self.st, keep);
            self.stack.push(alt);
        }
        self.learn(&q, &v, 2, forced);
        self.st.log.push(L::V(pv.clone(), forced));
        Ok(pv)
    }
    /// floor division and modulus for d > 0 on this path
    pub fn divmod(&mut self, p: &Poly, d: &Poly) -> Res<(Poly, Poly)> {
        let p = self.simp(p);
        let d = self.simp(d);
        if let Some(dc) = d.as_const() {
            if dc.sgn() <= 0 { return eng("divmod by non-positive"); }
            // split off the multiples of dc
            let mut q = Poly::zero();
            let mut r = Poly::zero();
            for (m, c) in &p.t {
                let k = c.div_floor(&dc);
                let e = c.sub(&k.mul(&dc));
                q = q.add(&Poly { t: if k.is_zero() { vec![] } else { vec![(m.clone(), k)] } });
                r = r.add(&Poly { t: if e.is_zero() { vec![] } else { vec![(m.clone(), e)] } });
            }
            let (lo, hi) = self.itv(&r);
            let (a, b) = (lo.div_floor(&dc), hi.div_floor(&dc));
            if a == b { return Ok((q.addc(&a), r.addc(&a.mul(&dc).neg()))); }
            let (qv, rv) = self.cx.divmod(&r, &Poly::c(dc.clone()));
            self.ensure_def(qv);
            self.upd(&Poly::var(qv), Some(a), Some(b), None);
            return Ok((q.add(&Poly::var(qv)), Poly::var(rv)));
        }
        if let Some(e) = p.div_exact(&d) { return Ok((e, Poly::zero())); }
        let (pl, ph) = self.itv(&p);
        let (dl, dh) = self.itv(&d);
        let dl = dl.imax(&i(1));
        let c4 = [pl.div_floor(&dl), pl.div_floor(&dh), ph.div_floor(&dl), ph.div_floor(&dh)];
        let a = c4.iter().min().unwrap().clone();
        let b = c4.iter().max().unwrap().clone();
        if a == b { return Ok((Poly::c(a.clone()), p.sub(&d.scale(&a)))); }
        // symbolic divisor: case split on the quotient, so that the remainder stays linear in p and d
        let k = match self.next_log() {
            Some(L::K(k)) => k,
            Some(_) => return eng("replay log mismatch (quotient)"),
            None => {
                let dv = self.cx.eval(&d, &self.st.model);
                if dv.sgn() <= 0 { return eng("divisor not positive in model"); }
                self.cx.eval(&p, &self.st.model).div_floor(&dv)
            }
        };
        self.st.log.push(L::K(k.clone()));
        let r = p.sub(&d.scale(&k));
        if !self.le(&Poly::zero(), &r)? || !self.lt(&r, &d)? { return eng("quotient case split"); }
        Ok((Poly::c(k), r))
    }
    pub fn lt(&mut self, a: &Poly, b: &Poly) -> Res<bool> { let d = a.sub(b).addc(&i(1)); self.decide(&d, Rel::Le) }
    pub fn le(&mut self, a: &Poly, b: &Poly) -> Res<bool> { let d = a.sub(b); self.decide(&d, Rel::Le) }
    pub fn eq(&mut self, a: &Poly, b: &Poly) -> Res<bool> { let d = a.sub(b); self.decide(&d, Rel::Eq) }
    /// truncated division (b != 0 on this path)
    pub fn tdiv(&mut self, a: &Poly, b: &Poly) -> Res<(Poly, Poly)> {
        let z = Poly::zero();
        let bneg = self.lt(b, &z)?;
        let aneg = self.lt(a, &z)?;
        let aa = if aneg { a.neg() } else { a.clone() };
        let bb = if bneg { b.neg() } else { b.clone() };
        let (q, r) = self.divmod(&aa, &bb)?;
        Ok((if aneg != bneg { q.neg() } else { q }, if aneg { r.neg() } else { r }))
    }

    // ---------- values ----------
    pub fn mk(&self, p: Poly, w: u32) -> Val { match p.as_const() { Some(c) => C(c.wrap(w)), None => VS(Rc::new(Sym::I(p))) } }
    fn raw(&mut self, v: &Val, w: u32) -> Res<Poly> {
        match v {
            C(x) => Ok(Poly::c(Int::from_i128(sext(*x, w)))),
            VS(s) => match &**s {
                Sym::I(p) => Ok(self.simp(p)),
                Sym::Cat(ps) => {
                    let mut r = Poly::zero();
                    for (o, pw, pv) in ps { let x = self.canon_u(pv, *pw)?; r = r.add(&x.scale(&Int::pow2(*o))); }
                    Ok(r)
                }
                Sym::Big(_) => eng("arithmetic on exact-integer handle"),
                Sym::Shr(..) => { let x = self.conc(v, w)?; Ok(Poly::c(Int::from_u128(x))) }
            },
            A(_) => eng("aggregate as int"),
        }
    }
    fn reduce(&mut self, p: Poly, w: u32, lo: Int) -> Res<Poly> {
        // representative of p modulo 2^w in [lo, lo+2^w)
        let m = Int::pow2(w);
        let (a, b) = self.itv(&p);
        let ka = a.sub(&lo).div_floor(&m);
        let kb = b.sub(&lo).div_floor(&m);
        if ka == kb { return Ok(p.addc(&ka.mul(&m).neg())); }
        if kb.sub(&ka) <= i(3) {
            let mut k = ka;
            while k < kb {
                // p < lo + (k+1) m ?
                let t = Poly::c(lo.add(&k.add(&i(1)).mul(&m)));
                if self.lt(&p, &t)? { break; }
                k = k.add(&i(1));
            }
            return Ok(p.addc(&k.mul(&m).neg()));
        }
        let (_, r) = self.divmod(&p.addc(&lo.neg()), &Poly::c(m))?;
        Ok(r.addc(&lo))
    }
    pub fn canon_s(&mut self, v: &Val, w: u32) -> Res<Poly> {
        if let C(x) = v { return Ok(Poly::c(Int::from_i128(sext(*x, w)))); }
        let p = self.raw(v, w)?;
        self.reduce(p, w, Int::pow2(w - 1).neg())
    }
    pub fn canon_u(&mut self, v: &Val, w: u32) -> Res<Poly> {
        if let C(x) = v { return Ok(Poly::c(Int::from_u128(*x))); }
        let p = self.raw(v, w)?;
        self.reduce(p, w, i(0))
    }
    pub fn conc(&mut self, v: &Val, w: u32) -> Res<u128> {
        match v {
            C(x) => Ok(*x),
            VS(s) => match &**s {
                Sym::I(p) => Ok(self.concretize(p)?.wrap(w)),
                Sym::Cat(ps) => {
                    let mut r = 0u128;
                    for (o, pw, pv) in ps { let x = self.conc(pv, *pw)?; r |= mask(x, *pw) << o; }
                    Ok(r)
                }
                Sym::Big(_) => eng("concrete use of exact-integer handle"),
                Sym::Shr(c, k) => { let k = self.conc(&k.clone(), w)? as u32; Ok(if k >= w { 0 } else { c >> k }) }
            },
            A(_) => eng("aggregate concretised"),
        }
    }
    fn opd(&self, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => C(*c),
            Opd::Agg(v) => A(Rc::new(v.iter().map(|x| self.opd(x)).collect())),
        }
    }
    fn cat_parts(v: &Val, w: u32) -> Vec<(u32, u32, Val)> {
        match v {
            C(0) => vec![],
            VS(s) => match &**s { Sym::Cat(p) => p.clone(), _ => vec![(0, w, v.clone())] },
            _ => vec![(0, w, v.clone())],
        }
    }
    fn mk_cat(&self, mut ps: Vec<(u32, u32, Val)>, w: u32) -> Val {
        ps.retain(|p| !matches!(p.2, C(0)));
        if ps.iter().all(|p| matches!(p.2, C(_))) {
            let mut r = 0u128;
            for (o, pw, v) in &ps { if let C(x) = v { r |= mask(*x, *pw) << o; } }
            return C(mask(r, w));
        }
        ps.sort_by_key(|p| p.0);
        if ps.len() == 1 && ps[0].0 == 0 && ps[0].1 == w { return ps.pop().unwrap().2; }
        VS(Rc::new(Sym::Cat(ps)))
    }
    /// extract bits [off, off+n) of a bit-field value; None if a field would be split
    fn cat_slice(&mut self, ps: &[(u32, u32, Val)], off: u32, n: u32) -> Res<Option<Vec<(u32, u32, Val)>>> {
        let mut r = vec![];
        for (o, w, v) in ps {
            if *o + *w <= off || *o >= off + n { continue; }
            if *o >= off && *o + *w <= off + n { r.push((*o - off, *w, v.clone())); continue; }
            if let C(x) = v {
                let lo = (*o).max(off);
                let hi = (*o + *w).min(off + n);
                r.push((lo - off, hi - lo, C(mask(x >> (lo - o), hi - lo))));
                continue;
            }
            // a field that is provably small may still fit
            if *o >= off {
                let p = self.raw(v, *w)?;
                let (a, b) = self.itv(&p);
                if a.sgn() >= 0 && b < Int::pow2(off + n - *o) { r.push((*o - off, off + n - *o, v.clone())); continue; }
            }
            return Ok(None);
        }
        Ok(Some(r))
    }
    /// the lowest bit of a shifted constant
    fn bit0(&mut self, v: &Val, w: u32) -> Res<Option<u128>> {
        if let VS(s) = v { if let Sym::Shr(c, k) = &**s {
            for b in 0..w { if (c >> b) & 1 == 1 && self.icmp(Pred::Eq, w, k, &C(b as u128))? { return Ok(Some(1)); } }
            return Ok(Some(0));
        } }
        Ok(None)
    }
    /// p & m for p >= 0: the sum over the runs of ones in m of the bits of p there
    fn and_mask(&mut self, p: &Poly, m: u128, split: bool) -> Res<Poly> {
        let mut r = Poly::zero();
        let mut k = 0;
        while k < 128 && m >> k != 0 {
            let tz = k + (m >> k).trailing_zeros();
            let run = (m >> tz).trailing_ones();
            let (_, hi) = self.itv(p);
            let q = if hi < Int::pow2((tz + run).min(126)) { p.clone() } else { self.low_bits(p, tz + run, split)? };
            r = r.add(&q);
            if tz > 0 { let l = self.low_bits(&q, tz, split)?; r = r.sub(&l); }
            k = tz + run;
        }
        Ok(r)
    }
    fn runs(m: u128) -> u32 { (m ^ (m << 1)).count_ones().div_ceil(2) }
    /// p mod 2^k for p >= 0, by case distinction on a small quotient if wanted
    fn low_bits(&mut self, p: &Poly, k: u32, split: bool) -> Res<Poly> {
        let d = Int::pow2(k);
        let (lo, hi) = self.itv(p);
        let (a, b) = (lo.div_floor(&d), hi.div_floor(&d));
        if split && b.sub(&a) <= i(7) {
            let mut t = a;
            while t < b {
                let top = t.add(&i(1)).mul(&d);
                if self.lt(p, &Poly::c(top.clone()))? { break; }
                t = t.add(&i(1));
            }
            return Ok(p.addc(&t.mul(&d).neg()));
        }
        Ok(self.divmod(p, &Poly::c(d))?.1)
    }
    fn bin(&mut self, op: Bop, w: u32, a: &Val, b: &Val) -> Res<Val> {
        if let (C(x), C(y)) = (a, b) { return Ok(C(cbin(op, w, *x, *y)?)); }
        match op {
            Bop::Add => { let p = self.raw(a, w)?.add(&self.raw(b, w)?); Ok(self.mk(p, w)) }
            Bop::Sub => { let p = self.raw(a, w)?.sub(&self.raw(b, w)?); Ok(self.mk(p, w)) }
            Bop::Mul => {
                let p = self.raw(a, w)?;
                let q = self.raw(b, w)?;
                Ok(self.mk(p.mul(&q), w))
            }
            Bop::Udiv | Bop::Urem => {
                let p = self.canon_u(a, w)?;
                let q = self.canon_u(b, w)?;
                let (d, r) = self.divmod(&p, &q)?;
                Ok(self.mk(if op == Bop::Udiv { d } else { r }, w))
            }
            Bop::Sdiv | Bop::Srem => {
                let p = self.canon_s(a, w)?;
                let q = self.canon_s(b, w)?;
                let (d, r) = self.tdiv(&p, &q)?;
                Ok(self.mk(if op == Bop::Sdiv { d } else { r }, w))
            }
            Bop::Shl => {
                let k = self.conc(b, w)? as u32;
                if k >= w { return Ok(C(0)); }
                if let VS(s) = a { if let Sym::Cat(ps) = &**s {
                    if let Some(ps) = self.cat_slice(&ps.clone(), 0, w - k)? { return Ok(self.mk_cat(ps.into_iter().map(|(o, pw, v)| (o + k, pw, v)).collect(), w)); }
                } }
                let p = self.raw(a, w)?;
                Ok(self.mk(p.scale(&Int::pow2(k)), w))
            }
            Bop::Lshr => {
                if let (C(c), VS(_)) = (a, b) { if c.count_ones() <= 8 { return Ok(VS(Rc::new(Sym::Shr(*c, b.clone())))); } }
                let k = self.conc(b, w)? as u32;
                if k >= w { return Ok(C(0)); }
                if let VS(s) = a { if let Sym::Cat(ps) = &**s {
                    if let Some(ps) = self.cat_slice(&ps.clone(), k, w - k)? { return Ok(self.mk_cat(ps, w)); }
                } }
                if k == w - 1 { let p = self.canon_s(a, w)?; return Ok(C(self.lt(&p, &Poly::zero())? as u128)); }
                let p = self.canon_u(a, w)?;
                let (q, _) = self.divmod(&p, &Poly::c(Int::pow2(k)))?;
                Ok(self.mk(q, w))
            }
            Bop::Ashr => {
                let k = self.conc(b, w)? as u32;
                let p = self.canon_s(a, w)?;
                if k >= w - 1 { return Ok(if self.lt(&p, &Poly::zero())? { C(mask(u128::MAX, w)) } else { C(0) }); }
                let (q, _) = self.divmod(&p, &Poly::c(Int::pow2(k)))?;
                Ok(self.mk(q, w))
            }
            Bop::And => {
                let (a, b) = if matches!(a, C(_)) { (b, a) } else { (a, b) };
                if let C(m) = b {
                    let m = *m;
                    if m == 0 { return Ok(C(0)); }
                    if m == 1 { if let Some(x) = self.bit0(a, w)? { return Ok(C(x)); } }
                    if m == mask(u128::MAX, w) { return Ok(a.clone()); }
                    if let VS(s) = a { if let Sym::Cat(ps) = &**s {
                        // keep whole fields
                        let ps = ps.clone();
                        let mut ok = true;
                        let mut r = vec![];
                        for (o, pw, v) in &ps {
                            let fm = mask(m >> o, *pw);
                            if let C(x) = v { r.push((*o, *pw, C(x & fm))); }
                            else if fm == mask(u128::MAX, *pw) { r.push((*o, *pw, v.clone())); }
                            else if fm != 0 { ok = false; }
                        }
                        if ok { return Ok(self.mk_cat(r, w)); }
                    } }
                    if Self::runs(m) == 1 || w <= 32 && Self::runs(m) <= 3 {
                        let p = self.canon_u(a, w)?;
                        let r = self.and_mask(&p, m, Self::runs(m) > 1)?;
                        return Ok(self.mk(r, w));
                    }
                }
                let x = self.conc(a, w)?;
                let y = self.conc(b, w)?;
                Ok(C(x & y))
            }
            Bop::Or | Bop::OrDisjoint => {
                if let C(0) = a { return Ok(b.clone()); }
                if let C(0) = b { return Ok(a.clone()); }
                let pa = Self::cat_parts(a, w);
                let pb = Self::cat_parts(b, w);
                // a concrete operand only occupies its set bits
                let span = |ps: &[(u32, u32, Val)]| -> u128 { ps.iter().map(|(o, pw, v)| if let C(x) = v { mask(*x, *pw) << o } else { mask(u128::MAX, *pw) << o }).fold(0, |x, y| x | y) };
                if span(&pa) & span(&pb) == 0 {
                    let mut r = vec![];
                    for (o, pw, v) in pa.iter().chain(pb.iter()) {
                        if let C(x) = v {
                            let mut k = 0; let x = mask(*x, *pw);
                            while k < *pw { if (x >> k) & 1 == 1 { let st = k; while k < *pw && (x >> k) & 1 == 1 { k += 1; } r.push((o + st, k - st, C(mask(u128::MAX, k - st)))); } else { k += 1; } }
                        } else { r.push((*o, *pw, v.clone())); }
                    }
                    return Ok(self.mk_cat(r, w));
                }
                if op == Bop::OrDisjoint { let p = self.raw(a, w)?.add(&self.raw(b, w)?); return Ok(self.mk(p, w)); }
                if let (true, (C(m), v) | (v, C(m))) = (w <= 32, (a, b)) { if Self::runs(*m) <= 3 {
                    let p = self.canon_u(v, w)?;
                    let r = self.and_mask(&p, *m, true)?;
                    return Ok(self.mk(p.sub(&r).addc(&Int::from_u128(*m)), w));
                } }
                let x = self.conc(a, w)?;
                let y = self.conc(b, w)?;
                Ok(C(x | y))
            }
            Bop::Xor => {
                let (a, b) = if matches!(a, C(_)) { (b, a) } else { (a, b) };
                if let C(m) = b {
                    if *m == 0 { return Ok(a.clone()); }
                    if *m == mask(u128::MAX, w) { let p = self.raw(a, w)?; return Ok(self.mk(p.neg().addc(&i(-1)), w)); }
                    if *m == 1u128 << (w - 1) { let p = self.raw(a, w)?; return Ok(self.mk(p.addc(&Int::pow2(w - 1)), w)); }
                }
                if let (true, C(m)) = (w > 1 && w <= 32, b) { if Self::runs(*m) <= 3 {
                    let p = self.canon_u(a, w)?;
                    let r = self.and_mask(&p, *m, true)?.scale(&i(2));
                    return Ok(self.mk(p.sub(&r).addc(&Int::from_u128(*m)), w));
                } }
                let x = self.conc(a, w)?;
                let y = self.conc(b, w)?;
                Ok(C(x ^ y))
            }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Res<bool> {
        if let (C(x), C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            return Ok(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy });
        }
        if matches!(p, Pred::Eq | Pred::Ne) {
            let multi = |v: &Val| matches!(v, VS(s) if matches!(&**s, Sym::Cat(ps) if ps.len() > 1 || ps[0].0 > 0));
            if multi(a) || multi(b) {
                // field by field where both sides split alike
                let (pa, pb) = (Self::cat_parts(a, w), Self::cat_parts(b, w));
                let mut cuts: Vec<u32> = vec![0, w];
                for (o, pw, v) in pa.iter().chain(pb.iter()) { if !matches!(v, C(_)) { cuts.push(*o); cuts.push(*o + *pw); } }
                cuts.sort();
                cuts.dedup();
                let mut fields = vec![];
                for k in 1..cuts.len() {
                    let (o, n) = (cuts[k - 1], cuts[k] - cuts[k - 1]);
                    match (self.cat_slice(&pa, o, n)?, self.cat_slice(&pb, o, n)?) {
                        (Some(x), Some(y)) => fields.push((n, self.mk_cat(x, n), self.mk_cat(y, n))),
                        _ => { fields.clear(); break; }
                    }
                }
                if !fields.is_empty() {
                    for (n, x, y) in fields { if !self.icmp(Pred::Eq, n, &x, &y)? { return Ok(p == Pred::Ne); } }
                    return Ok(p == Pred::Eq);
                }
            }
        }
        let signed = matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge);
        let (x, y) = if matches!(p, Pred::Eq | Pred::Ne) {
            let x = self.raw(a, w)?;
            let y = self.raw(b, w)?;
            // equality modulo 2^w: compare canonical forms unless both already lie in one window
            let d = x.sub(&y);
            let (lo, hi) = self.itv(&d);
            let m = Int::pow2(w);
            let k0 = lo.neg().div_floor(&m).neg(); // ceil(lo/m)
            let k1 = hi.div_floor(&m);
            if k0 > k1 { return Ok(p == Pred::Ne); }
            if k0 == k1 { let e = self.decide(&d.addc(&k0.mul(&m).neg()), Rel::Eq)?; return Ok(if p == Pred::Eq { e } else { !e }); }
            (self.canon_s(a, w)?, self.canon_s(b, w)?)
        } else if signed { (self.canon_s(a, w)?, self.canon_s(b, w)?) } else { (self.canon_u(a, w)?, self.canon_u(b, w)?) };
        match p {
            Pred::Eq => self.eq(&x, &y),
            Pred::Ne => Ok(!self.eq(&x, &y)?),
            Pred::Ult | Pred::Slt => self.lt(&x, &y),
            Pred::Ule | Pred::Sle => self.le(&x, &y),
            Pred::Ugt | Pred::Sgt => self.lt(&y, &x),
            Pred::Uge | Pred::Sge => self.le(&y, &x),
        }
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, size: u64) -> Res<u64> {
        if size > 1 << 30 { return eng(format!("allocation of {} bytes", size)); }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: BTreeMap::new() });
        let id = match self.st.free.pop() { Some(id) => { self.st.mem[id as usize] = Some(o); id } None => { self.st.mem.push(Some(o)); self.st.mem.len() as u32 - 1 } };
        Ok((id as u64) << 32)
    }
    pub fn dealloc(&mut self, p: u64) -> Res<()> {
        if p == 0 { return Ok(()); }
        let id = (p >> 32) as usize;
        if id >= self.st.mem.len() || self.st.mem[id].is_none() { return eng("invalid free"); }
        self.st.mem[id] = None;
        self.st.free.push(id as u32);
        Ok(())
    }
    fn obj(&self, p: u64, n: u64) -> Res<(&Obj, usize)> {
        let id = (p >> 32) as usize;
        let off = (p & 0xffff_ffff) as usize;
        match self.st.mem.get(id) {
            Some(Some(o)) => if off as u64 + n <= o.data.len() as u64 { Ok((o, off)) } else { eng(format!("out of bounds access obj {} off {} n {} size {} in {}", id, off, n, o.data.len(), self.whereami())) },
            _ => eng(format!("bad pointer {:#x} (n={}) in {}", p, n, self.whereami())),
        }
    }
    fn obj_mut(&mut self, p: u64, n: u64) -> Res<(&mut Obj, usize)> {
        self.obj(p, n)?;
        let id = (p >> 32) as usize;
        Ok((Rc::make_mut(self.st.mem[id].as_mut().unwrap()), (p & 0xffff_ffff) as usize))
    }
    pub fn whereami(&self) -> String {
        let fs: Vec<_> = self.st.frames.iter().rev().take(6).map(|f| format!("{}:{}:{}", self.prog.funcs[f.f as usize].name, f.blk, f.pc)).collect();
        fs.join(" < ")
    }
    /// cells overlapping [off, off+n)
    fn cells(o: &Obj, off: usize, n: u64) -> Vec<(u32, u32, Val)> {
        if o.sym.is_empty() { return vec![]; }
        let st = (off as u32).saturating_sub(16);
        let en = (off as u64 + n) as u32;
        o.sym.range(st..en).filter(|(k, (l, _))| **k + *l > off as u32).map(|(k, (l, v))| (*k, *l, v.clone())).collect()
    }
    fn conc_cell(&mut self, p: u64, k: u32) -> Res<()> {
        let base = p & !0xffff_ffff;
        let (l, v) = { let (o, _) = self.obj(base, 0)?; o.sym[&k].clone() };
        if let VS(s) = &v { if let Sym::Cat(ps) = &**s {
            // split into its byte aligned fields
            if ps.iter().all(|(o, w, _)| o % 8 == 0 && w % 8 == 0) {
                let ps = ps.clone();
                let (ob, _) = self.obj_mut(base, 0)?;
                ob.sym.remove(&k);
                for b in 0..l { ob.data[(k + b) as usize] = 0; }
                for (o, w, v) in ps {
                    if let C(x) = v { for b in 0..w / 8 { ob.data[(k + o / 8 + b) as usize] = (x >> (8 * b)) as u8; } } else { ob.sym.insert(k + o / 8, (w / 8, v)); }
                }
                return Ok(());
            }
        } }
        let x = self.conc(&v, l * 8)?;
        let (o, _) = self.obj_mut(base, 0)?;
        o.sym.remove(&k);
        for b in 0..l { o.data[(k + b) as usize] = (x >> (8 * b)) as u8; }
        Ok(())
    }
    pub fn load(&mut self, p: u64, n: u64, vec: bool) -> Res<Val> {
        if n == 0 { return Ok(C(0)); }
        loop {
            let (o, off) = self.obj(p, n)?;
            let cs = Self::cells(o, off, n);
            if cs.is_empty() {
                if n > 16 { return eng(format!("load of {} bytes", n)); }
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
                return Ok(C(u128::from_le_bytes(b)));
            }
            if cs.len() == 1 && cs[0].0 as usize == off && cs[0].1 as u64 == n && !vec { return Ok(cs[0].2.clone()); }
            // any partial overlap (or vector load): concretise that cell and retry
            if let Some(c) = cs.iter().find(|c| vec || (c.0 as usize) < off || (c.0 + c.1) as u64 > off as u64 + n) {
                let k = c.0;
                self.conc_cell(p, k)?;
                continue;
            }
            let data = o.data[off..off + n as usize].to_vec();
            let mut ps = vec![];
            let mut b = 0usize;
            while b < n as usize {
                if let Some(c) = cs.iter().find(|c| c.0 as usize == off + b) {
                    match &c.2 {
                        VS(s) if matches!(&**s, Sym::Cat(_)) => for (o2, w2, v2) in Self::cat_parts(&c.2, c.1 * 8) { ps.push((o2 + 8 * b as u32, w2, v2)); },
                        v => ps.push((8 * b as u32, 8 * c.1, v.clone())),
                    }
                    b += c.1 as usize;
                } else { ps.push((8 * b as u32, 8, C(data[b] as u128))); b += 1; }
            }
            return Ok(self.mk_cat(ps, n as u32 * 8));
        }
    }
    fn clear_cells(&mut self, p: u64, n: u64) -> Res<()> {
        loop {
            let (o, off) = self.obj(p, n)?;
            let cs = Self::cells(o, off, n);
            if cs.is_empty() { return Ok(()); }
            if let Some(c) = cs.iter().find(|c| (c.0 as usize) < off || (c.0 + c.1) as u64 > off as u64 + n) { let k = c.0; self.conc_cell(p, k)?; continue; }
            let (o, _) = self.obj_mut(p, n)?;
            for c in cs { o.sym.remove(&c.0); }
            return Ok(());
        }
    }
    pub fn store(&mut self, p: u64, n: u64, v: &Val) -> Res<()> {
        if n == 0 { return Ok(()); }
        self.clear_cells(p, n)?;
        match v {
            C(x) => {
                let (o, off) = self.obj_mut(p, n)?;
                let b = x.to_le_bytes();
                o.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
            }
            VS(s) => {
                if let Sym::Cat(ps) = &**s {
                    if ps.iter().all(|(o, w, _)| o % 8 == 0 && w % 8 == 0) {
                        let (o, off) = self.obj_mut(p, n)?;
                        for b in 0..n as usize { o.data[off + b] = 0; }
                        for (po, pw, pv) in ps {
                            let at = off + (*po / 8) as usize;
                            if let C(x) = pv { for b in 0..(*pw / 8) as usize { o.data[at + b] = (x >> (8 * b)) as u8; } }
                            else { o.sym.insert(at as u32, (*pw / 8, pv.clone())); }
                        }
                        return Ok(());
                    }
                }
                let (o, off) = self.obj_mut(p, n)?;
                o.sym.insert(off as u32, (n as u32, v.clone()));
            }
            A(_) => return eng("store of aggregate scalar"),
        }
        Ok(())
    }
    fn load_ty(&mut self, ty: &Ty, p: u64) -> Res<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = match ty { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(_, n) => *n, _ => 0 };
                let mut v = vec![];
                for k in 0..n { v.push(self.load_ty(ty.field(k), p + ty.field_off(k))?); }
                Ok(A(Rc::new(v)))
            }
            Ty::Int(w) => {
                let v = self.load(p, ty.store_bytes(), false)?;
                if w % 8 != 0 { if let C(x) = v { return Ok(C(mask(x, *w))); } let x = self.conc(&v, ty.store_bytes() as u32 * 8)?; return Ok(C(mask(x, *w))); }
                Ok(v)
            }
            Ty::F64 | Ty::F32 => { let v = self.load(p, ty.size(), false)?; Ok(C(self.conc(&v, ty.bits() as u32)?)) }
            Ty::Vec(..) => self.load(p, ty.size(), true),
            _ => self.load(p, ty.size(), false),
        }
    }
    fn store_ty(&mut self, ty: &Ty, p: u64, v: &Val) -> Res<()> {
        match (ty, v) {
            (Ty::Struct(..) | Ty::Arr(..), A(vs)) => { for (k, e) in vs.iter().enumerate() { self.store_ty(ty.field(k as u64), p + ty.field_off(k as u64), e)?; } Ok(()) }
            _ => self.store(p, ty.store_bytes(), v),
        }
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 || d == s { return Ok(()); }
        loop {
            let (o, off) = self.obj(s, n)?;
            let cs = Self::cells(o, off, n);
            if let Some(c) = cs.iter().find(|c| (c.0 as usize) < off || (c.0 + c.1) as u64 > off as u64 + n) { let k = c.0; self.conc_cell(s, k)?; continue; }
            let data = o.data[off..off + n as usize].to_vec();
            self.clear_cells(d, n)?;
            let (o2, off2) = self.obj_mut(d, n)?;
            o2.data[off2..off2 + n as usize].copy_from_slice(&data);
            for c in cs { o2.sym.insert((c.0 as usize - off + off2) as u32, (c.1, c.2)); }
            return Ok(());
        }
    }
    /// -1/0/1 lexicographic byte comparison (or equality only)
    fn memcmp(&mut self, a: u64, b: u64, n: u64, eq_only: bool) -> Res<i32> {
        let mut k = 0u64;
        while k < n {
            let (oa, fa) = self.obj(a, n)?;
            let ca = Self::cells(oa, fa + k as usize, 1).into_iter().next();
            let xa = oa.data[fa + k as usize];
            let (ob, fb) = self.obj(b, n)?;
            let cb = Self::cells(ob, fb + k as usize, 1).into_iter().next();
            let xb = ob.data[fb + k as usize];
            match (&ca, &cb) {
                (None, None) => { if xa != xb { return Ok(if xa < xb { -1 } else { 1 }); } k += 1; }
                _ => {
                    let la = ca.as_ref().map(|c| c.1 as u64).unwrap_or(0);
                    let lb = cb.as_ref().map(|c| c.1 as u64).unwrap_or(0);
                    let l = la.max(lb).min(n - k).max(1);
                    if !eq_only && l > 1 { // order on bytes: only defined per byte
                        if let Some(c) = ca { self.conc_cell(a, c.0)?; }
                        if let Some(c) = cb { self.conc_cell(b, c.0)?; }
                        continue;
                    }
                    let va = self.load(a + k, l, false)?;
                    let vb = self.load(b + k, l, false)?;
                    if self.icmp(Pred::Eq, l as u32 * 8, &va, &vb)? { k += l; } else if eq_only { return Ok(1); }
                    else { return Ok(if self.icmp(Pred::Ult, l as u32 * 8, &va, &vb)? { -1 } else { 1 }); }
                }
            }
        }
        Ok(0)
    }
    pub fn cstr(&mut self, p: u64) -> Res<String> {
        let mut s = vec![];
        let mut q = p;
        loop { let v = self.load(q, 1, false)?; let b = self.conc(&v, 8)? as u8; if b == 0 { break; } s.push(b); q += 1; }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    // ---------- execution ----------
    fn set(&mut self, r: u32, v: Val) { if r != NODST { let f = Rc::make_mut(self.st.frames.last_mut().unwrap()); f.regs[r as usize] = v; } }
    fn jump(&mut self, to: u32) -> Res<()> {
        let (f, from) = { let fr = self.st.frames.last().unwrap(); (fr.f, fr.blk) };
        let b = &self.prog.funcs[f as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, ins) in &b.phis {
                let o = match ins.iter().find(|x| x.0 == from) { Some(x) => &x.1, None => return eng(format!("phi edge {} -> {} {:?} {:?}", from, to, ins.iter().map(|x| x.0).collect::<Vec<_>>(), self.whereami())) };
                vals.push((*d, self.opd(o)));
            }
            let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
        fr.blk = to;
        fr.pc = 0;
        Ok(())
    }
    pub fn push_call(&mut self, f: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> Res<()> {
        let fun = &self.prog.funcs[f as usize];
        if self.st.frames.len() > 4000 { return Err(Stop::Violation("recursion does not end (4000 calls deep)".into())); }
        self.executed[f as usize] = true;
        let mut regs = vec![C(0); fun.nregs as usize];
        for (p, a) in fun.params.iter().zip(args) { regs[*p as usize] = a; }
        self.st.frames.push(Rc::new(Frame { f, blk: 0, pc: 0, regs, allocas: vec![], dst, normal }));
        Ok(())
    }
    fn adv(&mut self) { Rc::make_mut(self.st.frames.last_mut().unwrap()).pc += 1; }
    pub fn run(&mut self) -> Stop {
        loop {
            match self.step() { Ok(()) => {} Err(Stop::Restart) => {} Err(s) => return s }
            self.st.steps += 1;
            self.steps += 1;
            if self.st.steps > self.max_steps { return Stop::Violation(format!("does not return (within {} instructions)", self.max_steps)); }
            if self.steps & 0xffff == 0 && self.stop_flag.load(std::sync::atomic::Ordering::Relaxed) { return Stop::Engine("time limit".into()); }
        }
    }
    fn step(&mut self) -> Res<()> {
        let (f, b, pc) = { let fr = self.st.frames.last().unwrap(); (fr.f, fr.blk, fr.pc) };
        let prog: &'static Program = self.prog;
        let inst = &prog.funcs[f as usize].blocks[b as usize].ins[pc as usize];
        let d = inst.dst;
        match &inst.ins {
            Ins::Alloca { size } => {
                let p = self.alloc((*size).max(1))?;
                let fr = Rc::make_mut(self.st.frames.last_mut().unwrap());
                fr.allocas.push((p >> 32) as u32);
                fr.regs[d as usize] = C(p as u128);
                fr.pc += 1;
            }
            Ins::Load { ty, p } => { let pv = self.opd(p); let p = self.conc(&pv, 64)? as u64; let v = self.load_ty(ty, p)?; self.set(d, v); self.adv(); }
            Ins::Store { ty, v, p } => { let pv = self.opd(p); let p = self.conc(&pv, 64)? as u64; let v = self.opd(v); self.store_ty(ty, p, &v)?; self.adv(); }
            Ins::Gep { b, off, idx } => {
                let bv = self.opd(b);
                let mut a = self.conc(&bv, 64)? as u64;
                a = a.wrapping_add(*off as u64);
                for (o, sc, w) in idx { let v = self.opd(o); let x = self.conc(&v, *w)?; a = a.wrapping_add((sext(x, *w) as i64).wrapping_mul(*sc) as u64); }
                self.set(d, C(a as u128));
                self.adv();
            }
            Ins::Bin { op, w, n, a, b } => {
                let (x, y) = (self.opd(a), self.opd(b));
                let r = if *n == 1 { self.bin(*op, *w, &x, &y)? } else {
                    let (x, y) = (self.conc(&x, w * n)?, self.conc(&y, w * n)?);
                    let mut r = 0u128;
                    for k in 0..*n { r |= cbin(*op, *w, mask(x >> (k * w), *w), mask(y >> (k * w), *w))? << (k * w); }
                    C(r)
                };
                self.set(d, r);
                self.adv();
            }
            Ins::Icmp { p, w, n, a, b } => {
                let (x, y) = (self.opd(a), self.opd(b));
                let r = if *n == 1 { self.icmp(*p, *w, &x, &y)? as u128 } else {
                    let (x, y) = (self.conc(&x, w * n)?, self.conc(&y, w * n)?);
                    let mut r = 0u128;
                    for k in 0..*n { r |= (self.icmp(*p, *w, &C(mask(x >> (k * w), *w)), &C(mask(y >> (k * w), *w)))? as u128) << k; }
                    r
                };
                self.set(d, C(r));
                self.adv();
            }
            Ins::Cast { k, from, to, a } => {
                let x = self.opd(a);
                let v = self.cast(*k, from, to, &x)?;
                self.set(d, v);
                self.adv();
            }
            Ins::Select { c, cw, w, a, b } => {
                let cv = self.opd(c);
                let c = self.conc(&cv, *cw)?;
                let v = if *cw == 1 { if c & 1 == 1 { self.opd(a) } else { self.opd(b) } } else {
                    let lw = w;
                    let (x, y) = (self.opd(a), self.opd(b));
                    let (x, y) = (self.conc(&x, 128)?, self.conc(&y, 128)?);
                    let mut r = 0u128;
                    for k in 0..*cw { let s = if (c >> k) & 1 == 1 { x } else { y }; r |= mask(s >> (k * lw), *lw) << (k * lw); }
                    C(r)
                };
                self.set(d, v);
                self.adv();
            }
            Ins::Br(l) => self.jump(*l)?,
            Ins::CondBr(c, a, b) => { let cv = self.opd(c); let c = self.conc(&cv, 1)?; self.jump(if c & 1 == 1 { *a } else { *b })?; }
            Ins::Switch { w, v, def, cases } => {
                let v = self.opd(v);
                let mut to = *def;
                if let C(x) = v { for (c, l) in cases { if *c == x { to = *l; break; } } }
                else { for (c, l) in cases { if self.icmp(Pred::Eq, *w, &v, &C(*c))? { to = *l; break; } } }
                self.jump(to)?;
            }
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| self.opd(o));
                let fr = self.st.frames.pop().unwrap();
                for id in &fr.allocas { self.st.mem[*id as usize] = None; self.st.free.push(*id); }
                if self.st.frames.is_empty() { return Err(Stop::Done); }
                if let Some(r) = r { self.set(fr.dst, r); }
                match fr.normal { Some(l) => self.jump(l)?, None => self.adv() }
            }
            Ins::Unreachable => return eng(format!("unreachable executed in {}", self.whereami())),
            Ins::Call { f, args, rw, normal } => {
                let vals: Vec<Val> = args.iter().map(|(o, _)| self.opd(o)).collect();
                let target = match f {
                    Callee::Fn(i) => *i as u64 + FN_BASE,
                    Callee::Ext(i) => *i as u64 + EXT_BASE,
                    Callee::Ind(o) => { let v = self.opd(o); self.conc(&v, 64)? as u64 >> 32 }
                };
                if target >= EXT_BASE {
                    let name = match prog.exts.get((target - EXT_BASE) as usize) { Some(n) => n, None => return eng("bad indirect call") };
                    let ws: Vec<u32> = args.iter().map(|a| a.1).collect();
                    let r = self.ext(name, &vals, &ws, *rw)?;
                    if let Some(r) = r { self.set(d, r); }
                    match normal { Some(l) => self.jump(*l)?, None => self.adv() }
                } else if target >= FN_BASE {
                    if (target - FN_BASE) as usize >= prog.funcs.len() { return eng("bad indirect call"); }
                    self.push_call((target - FN_BASE) as u32, vals, d, *normal)?;
                } else { return eng(format!("call to data {:#x} in {}", target, self.whereami())); }
            }
            Ins::Extract { a, path } => {
                let mut v = self.opd(a);
                for k in path { v = match v { A(x) => x[*k as usize].clone(), _ => return eng("extract of non aggregate") }; }
                self.set(d, v);
                self.adv();
            }
            Ins::Insert { a, v, path } => {
                let base = self.opd(a);
                let x = self.opd(v);
                let r = insert(&base, path, x)?;
                self.set(d, r);
                self.adv();
            }
            Ins::Rmw { op, ty, p, v } => {
                let pv = self.opd(p);
                let p = self.conc(&pv, 64)? as u64;
                let old = self.load_ty(ty, p)?;
                let w = ty.bits() as u32;
                let o = self.conc(&old, w)?;
                let vv = self.opd(v);
                let x = self.conc(&vv, w)?;
                let n = match &op[..] { "add" => o.wrapping_add(x), "sub" => o.wrapping_sub(x), "xchg" => x, "and" => o & x, "or" => o | x, "xor" => o ^ x, _ => return eng("atomicrmw") };
                self.store_ty(ty, p, &C(mask(n, w)))?;
                self.set(d, C(o));
                self.adv();
            }
            Ins::Cas { ty, p, c, n } => {
                let pv = self.opd(p);
                let p = self.conc(&pv, 64)? as u64;
                let w = ty.bits() as u32;
                let old = self.load_ty(ty, p)?;
                let o = self.conc(&old, w)?;
                let cv = self.opd(c);
                let x = self.conc(&cv, w)?;
                let ok = o == x;
                if ok { let nv = self.opd(n); self.store_ty(ty, p, &nv)?; }
                self.set(d, A(Rc::new(vec![C(o), C(ok as u128)])));
                self.adv();
            }
            Ins::Copy(a) => { let v = self.opd(a); self.set(d, v); self.adv(); }
            Ins::FBin { op, ty, a, b } => {
                let (x, y) = (self.opd(a), self.opd(b));
                if !matches!(ty, Ty::F64 | Ty::F32) { return eng("vector float op"); }
                let w = ty.bits() as u32;
                let (x, y) = (self.conc(&x, w)?, self.conc(&y, w)?);
                let g = |x: f64, y: f64| match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y };
                let r = if w == 64 { g(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128 } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y }).to_bits() as u128
                };
                self.set(d, C(r));
                self.adv();
            }
            Ins::FNeg { ty, a } => { let x = self.opd(a); let w = ty.bits() as u32; let x = self.conc(&x, w)?; self.set(d, C(x ^ (1u128 << (w - 1)))); self.adv(); }
            Ins::Fcmp { pred, ty, a, b } => {
                let (x, y) = (self.opd(a), self.opd(b));
                let w = ty.bits() as u32;
                let (x, y) = (self.conc(&x, w)?, self.conc(&y, w)?);
                let g = |v: u128| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let (x, y) = (g(x), g(y));
                let un = x.is_nan() || y.is_nan();
                let r = match &pred[..] { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, "uno" => un, "true" => true, _ => false };
                self.set(d, C(r as u128));
                self.adv();
            }
            Ins::Shuffle { a, b, n, w, m } => {
                let (x, y) = (self.opd(a), self.opd(b));
                let (x, y) = (self.conc(&x, n * w)?, self.conc(&y, n * w)?);
                let mut r = 0u128;
                for (k, s) in m.iter().enumerate() {
                    let s = *s as u32;
                    let e = if s < *n { mask(x >> (s * w), *w) } else { mask(y >> ((s - n) * w), *w) };
                    if (k as u32) * w < 128 { r |= e << (k as u32 * w); }
                }
                self.set(d, C(r));
                self.adv();
            }
            Ins::InsElt { a, v, i, w } => {
                let (x, v, k) = (self.opd(a), self.opd(v), self.opd(i));
                let (x, v, k) = (self.conc(&x, 128)?, self.conc(&v, *w)?, self.conc(&k, 32)? as u32);
                let m = mask(u128::MAX, *w) << (k * w);
                self.set(d, C((x & !m) | (mask(v, *w) << (k * w))));
                self.adv();
            }
            Ins::ExtElt { a, i, w } => {
                let (x, k) = (self.opd(a), self.opd(i));
                let (x, k) = (self.conc(&x, 128)?, self.conc(&k, 32)? as u32);
                self.set(d, C(mask(x >> (k * w), *w)));
                self.adv();
            }
            Ins::Phi | Ins::Nop => self.adv(),
            Ins::Bad(s) => return eng(format!("unsupported instruction {}", s)),
        }
        Ok(())
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, a: &Val) -> Res<Val> {
        let (fw, fl) = from.lanes();
        let (tw, _) = to.lanes();
        match k {
            Cast::Bit => Ok(a.clone()),
            Cast::Zext | Cast::Sext | Cast::Trunc if fl > 1 => {
                let x = self.conc(a, fw * fl)?;
                let mut r = 0u128;
                for l in 0..fl { let e = mask(x >> (l * fw), fw); let e = if k == Cast::Sext { mask(sext(e, fw) as u128, tw) } else { mask(e, tw) }; r |= e << (l * tw); }
                Ok(C(r))
            }
            Cast::Zext => {
                if let C(x) = a { return Ok(C(*x)); }
                if let VS(s) = a { match &**s {
                    Sym::Big(_) => return Ok(a.clone()),
                    Sym::Shr(..) => {}
                    Sym::Cat(_) => return Ok(a.clone()),
                    Sym::I(p) => { let p = self.simp(p); if tw < 64 || fw != 32 { let (lo, hi) = self.itv(&p); if lo.sgn() >= 0 && hi < Int::pow2(fw) { return Ok(self.mk(p, tw)); } } else if let Some(c) = p.as_const() { return Ok(C(c.wrap(fw))); } }
                } }
                Ok(VS(Rc::new(Sym::Cat(vec![(0, fw, a.clone())]))))
            }
            Cast::Sext => { if let C(x) = a { return Ok(C(mask(sext(*x, fw) as u128, tw))); } let p = self.canon_s(a, fw)?; Ok(self.mk(p, tw)) }
            Cast::Trunc => {
                if let C(x) = a { return Ok(C(mask(*x, tw))); }
                if tw == 1 { if let Some(x) = self.bit0(a, fw)? { return Ok(C(x)); } }
                if let VS(s) = a { match &**s {
                    Sym::Cat(ps) => if let Some(ps) = self.cat_slice(&ps.clone(), 0, tw)? { return Ok(self.mk_cat(ps, tw)); },
                    Sym::Big(_) => return eng("trunc of exact-integer handle"),
                    _ => {}
                } }
                let p = self.raw(a, fw)?;
                let (lo, hi) = self.itv(&p);
                let p = if lo >= Int::pow2(tw).neg() && hi <= Int::pow2(tw) { p } else { self.divmod(&p, &Poly::c(Int::pow2(tw)))?.1 };
                let v = self.mk(p, tw);
                if tw == 1 { return Ok(C(self.conc(&v, 1)?)); }
                Ok(v)
            }
            Cast::SiToFp => { let x = self.conc(a, fw)?; let f = sext(x, fw) as f64; Ok(C(if tw == 64 { f.to_bits() as u128 } else { (sext(x, fw) as f32).to_bits() as u128 })) }
            Cast::UiToFp => { let x = self.conc(a, fw)?; Ok(C(if tw == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 })) }
            Cast::FpToSi | Cast::FpToUi => {
                let x = self.conc(a, fw)?;
                let f = if fw == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                Ok(C(mask(if k == Cast::FpToSi { (f as i128) as u128 } else { f as u128 }, tw)))
            }
            Cast::FpExt => { let x = self.conc(a, 32)?; Ok(C((f32::from_bits(x as u32) as f64).to_bits() as u128)) }
            Cast::FpTrunc => { let x = self.conc(a, 64)?; Ok(C((f64::from_bits(x as u64) as f32).to_bits() as u128)) }
        }
    }

    // ---------- external functions, intrinsics and models ----------
    fn cu(&mut self, v: &Val) -> Res<u64> { Ok(self.conc(v, 64)? as u64) }
    fn big(&self, v: &Val) -> Res<Poly> {
        match v { VS(s) => match &**s { Sym::Big(p) => Ok(self.simp(p)), _ => eng("not an exact-integer handle") }, _ => eng(format!("not an exact-integer handle: {:?} in {}", v, self.whereami())) }
    }
    fn mkbig(&self, p: Poly) -> Val { VS(Rc::new(Sym::Big(p))) }
    pub fn gcd(&mut self, a: &Poly, b: &Poly) -> Res<Poly> {
        let (a, b) = (self.simp(a), self.simp(b));
        if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) { return Ok(Poly::c(x.gcd(&y))); }
        for (x, y) in [(&a, &b), (&b, &a)] {
            if let Some(c) = x.as_const() {
                let c = c.abs();
                if c.is_one() { return Ok(Poly::c(i(1))); }
                if !c.is_zero() {
                    let r = self.divmod(y, &Poly::c(c.clone()))?.1;
                    let v = self.concretize(&r)?;
                    return Ok(Poly::c(c.gcd(&v)));
                }
            }
        }
        let z = Poly::zero();
        let mut x = if self.lt(&a, &z)? { a.neg() } else { a };
        let mut y = if self.lt(&b, &z)? { b.neg() } else { b };
        if self.lt(&x, &y)? { std::mem::swap(&mut x, &mut y); }
        let mut n = 0;
        while !self.eq(&y, &z)? {
            if self.eq(&y, &Poly::c(i(1)))? { return Ok(Poly::c(i(1))); }
            if self.eq(&x, &y)? { break; }
            let r = self.divmod(&x, &y)?.1;
            x = y;
            y = r;
            n += 1;
            if n > 200 { return eng("gcd loop"); }
        }
        Ok(x)
    }
    fn panic_msg(&mut self, name: &str, args: &[Val]) -> String {
        // the last pointer argument of the panic entry points is &Location
        let mut loc = String::new();
        if let Some(C(p)) = args.last() {
            let p = *p as u64;
            let g = |w: &mut Self, a: u64, n| match w.load(a, n, false) { Ok(C(x)) => Some(x as u64), _ => None };
            if self.obj(p, 24).is_ok() {
                if let (Some(fp), Some(fl), Some(line)) = (g(self, p, 8), g(self, p + 8, 8), g(self, p + 16, 4)) {
                    let fl = if fl > 0 && fl < 400 { fl } else { 0 };
                    let mut s = vec![];
                    for k in 0..fl { if let Some(b) = g(self, fp + k, 1) { s.push(b as u8); } }
                    let s = String::from_utf8_lossy(&s).into_owned();
                    loc = format!("{}:{}", s.trim_end_matches('\0'), line);
                }
            }
        }
        if std::env::var("SX_STACK").is_ok() { loc = format!("{} [{}]", loc, self.whereami()); }
        let short = if name.contains("panic_fmt") { "panic" } else { name };
        format!("{} at {}", short, loc)
    }
    fn ext(&mut self, name: &str, a: &[Val], ws: &[u32], rw: u32) -> Res<Option<Val>> {
        let w0 = ws.first().copied().unwrap_or(0);
        if let Some(n) = name.strip_prefix("llvm.") {
            let base: Vec<&str> = n.split('.').collect();
            match base[0] {
                "memcpy" | "memmove" => { let (d, s, k) = (self.cu(&a[0])?, self.cu(&a[1])?, self.cu(&a[2])?); self.memcpy(d, s, k)?; return Ok(None); }
                "memset" => {
                    let (d, v, k) = (self.cu(&a[0])?, self.conc(&a[1], 8)? as u8, self.cu(&a[2])?);
                    if k > 0 { self.clear_cells(d, k)?; let (o, off) = self.obj_mut(d, k)?; for b in &mut o.data[off..off + k as usize] { *b = v; } }
                    return Ok(None);
                }
                "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" if base.len() > 2 && base[1] == "with" => {
                    let signed = base[0].starts_with('s');
                    let w = w0;
                    let (x, y) = if signed { (self.canon_s(&a[0], w)?, self.canon_s(&a[1], w)?) } else { (self.canon_u(&a[0], w)?, self.canon_u(&a[1], w)?) };
                    let r = match &base[0][1..] { "add" => x.add(&y), "sub" => x.sub(&y), _ => x.mul(&y) };
                    let (lo, hi) = if signed { (Int::pow2(w - 1).neg(), Int::pow2(w - 1).sub(&i(1))) } else { (i(0), Int::pow2(w).sub(&i(1))) };
                    let ov = self.lt(&r, &Poly::c(lo))? || self.lt(&Poly::c(hi), &r)?;
                    return Ok(Some(A(Rc::new(vec![self.mk(r, w), C(ov as u128)]))));
                }
                "sadd" | "uadd" | "ssub" | "usub" if base.len() > 1 && base[1] == "sat" => {
                    if ws[0] > 64 { 
                        // vector saturating op on bytes
                        let lw: u32 = base[2].trim_start_matches(|c: char| c == 'v').split('i').nth(1).and_then(|s| s.parse().ok()).unwrap_or(8);
                        let (x, y) = (self.conc(&a[0], 128)?, self.conc(&a[1], 128)?);
                        let mut r = 0u128;
                        for k in 0..(ws[0] / lw) { let (p, q) = (mask(x >> (k * lw), lw), mask(y >> (k * lw), lw)); let e = if base[0] == "usub" { p.saturating_sub(q) } else { (p + q).min(mask(u128::MAX, lw)) }; r |= e << (k * lw); }
                        return Ok(Some(C(r)));
                    }
                    let signed = base[0].starts_with('s');
                    let w = w0;
                    let (x, y) = if signed { (self.canon_s(&a[0], w)?, self.canon_s(&a[1], w)?) } else { (self.canon_u(&a[0], w)?, self.canon_u(&a[1], w)?) };
                    let r = if &base[0][1..] == "add" { x.add(&y) } else { x.sub(&y) };
                    let (lo, hi) = if signed { (Int::pow2(w - 1).neg(), Int::pow2(w - 1).sub(&i(1))) } else { (i(0), Int::pow2(w).sub(&i(1))) };
                    let r = if self.lt(&r, &Poly::c(lo.clone()))? { Poly::c(lo) } else if self.lt(&Poly::c(hi.clone()), &r)? { Poly::c(hi) } else { r };
                    return Ok(Some(self.mk(r, w)));
                }
                "umax" | "umin" | "smax" | "smin" => {
                    if n.contains(".v") { 
                        let (x, y) = (self.conc(&a[0], 128)?, self.conc(&a[1], 128)?);
                        let lw: u32 = n.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(8);
                        let mut r = 0u128;
                        for k in 0..(ws[0] / lw) { let (p, q) = (mask(x >> (k * lw), lw), mask(y >> (k * lw), lw)); let e = match base[0] { "umax" => p.max(q), "umin" => p.min(q), "smax" => if sext(p, lw) > sext(q, lw) { p } else { q }, _ => if sext(p, lw) < sext(q, lw) { p } else { q } }; r |= e << (k * lw); }
                        return Ok(Some(C(r)));
                    }
                    let lt = self.icmp(if base[0].starts_with('u') { Pred::Ult } else { Pred::Slt }, w0, &a[0], &a[1])?;
                    return Ok(Some(if lt == base[0].ends_with("min") { a[0].clone() } else { a[1].clone() }));
                }
                "ucmp" | "scmp" => {
                    let (l, e) = (if base[0] == "ucmp" { Pred::Ult } else { Pred::Slt }, Pred::Eq);
                    let r: i32 = if self.icmp(e, w0, &a[0], &a[1])? { 0 } else if self.icmp(l, w0, &a[0], &a[1])? { -1 } else { 1 };
                    return Ok(Some(C(mask(r as i128 as u128, rw))));
                }
                "abs" => { let x = self.canon_s(&a[0], w0)?; let neg = self.lt(&x, &Poly::zero())?; return Ok(Some(self.mk(if neg { x.neg() } else { x }, w0))); }
                "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                    let x = self.conc(&a[0], w0)?;
                    let w = w0;
                    let r = match base[0] {
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                        "ctpop" => x.count_ones() as u128,
                        "bswap" => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return Ok(Some(C(r)));
                }
                "fshl" | "fshr" => {
                    let (x, y, s) = (self.conc(&a[0], w0)?, self.conc(&a[1], w0)?, self.conc(&a[2], w0)? as u32 % w0);
                    let r = if base[0] == "fshl" { if s == 0 { x } else { (x << s) | (y >> (w0 - s)) } } else if s == 0 { y } else { (x << (w0 - s)) | (y >> s) };
                    return Ok(Some(C(mask(r, w0))));
                }
                "threadlocal" | "launder" | "strip" => return Ok(Some(a[0].clone())),
                "expect" => return Ok(Some(a[0].clone())),
                "is" => return Ok(Some(C(0))),
                "trap" => return Err(Stop::Panic("trap".into())),
                "sqrt" | "log" | "ceil" | "floor" | "fabs" | "exp" | "log2" | "log10" | "trunc" | "round" | "rint" | "nearbyint" | "roundeven" => {
                    let x = f64::from_bits(self.conc(&a[0], 64)? as u64);
                    let r = match base[0] { "sqrt" => x.sqrt(), "log" => x.ln(), "ceil" => x.ceil(), "floor" => x.floor(), "fabs" => x.abs(), "exp" => x.exp(), "log2" => x.log2(), "log10" => x.log10(), "trunc" => x.trunc(), "round" => x.round(), _ => x.round_ties_even() };
                    return Ok(Some(C(r.to_bits() as u128)));
                }
                "pow" | "powi" | "copysign" | "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                    let x = f64::from_bits(self.conc(&a[0], 64)? as u64);
                    let yv = self.conc(&a[1], ws[1])?;
                    let y = f64::from_bits(yv as u64);
                    let r = match base[0] { "pow" => x.powf(y), "powi" => x.powi(sext(yv, ws[1]) as i32), "copysign" => x.copysign(y), "maxnum" | "maximumnum" => x.max(y), _ => x.min(y) };
                    return Ok(Some(C(r.to_bits() as u128)));
                }
                "fptosi" | "fptoui" => {
                    let x = f64::from_bits(self.conc(&a[0], 64)? as u64);
                    let r = if base[0] == "fptosi" { let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1); ((x as i128).clamp(lo, hi)) as u128 } else { (x as u128).min(mask(u128::MAX, rw)) };
                    return Ok(Some(C(mask(r, rw))));
                }
                "x86" => {
                    let x = self.conc(&a[0], ws[0])?;
                    match n {
                        "x86.sse2.pmovmskb.128" => { let mut r = 0u128; for k in 0..16 { r |= ((x >> (8 * k + 7)) & 1) << k; } return Ok(Some(C(r))); }
                        "x86.addcarry.64" | "x86.subborrow.64" => {
                            let (p, q) = (self.conc(&a[1], 64)?, self.conc(&a[2], 64)?);
                            let c = (x != 0) as u128;
                            let (r, o) = if n.contains("add") { let s = p + q + c; (mask(s, 64), s >> 64) } else { let s = p.wrapping_sub(q).wrapping_sub(c); (mask(s, 64), (p < q + c) as u128) };
                            return Ok(Some(A(Rc::new(vec![C(o), C(r)]))));
                        }
                        _ => return eng(format!("intrinsic {}", name)),
                    }
                }
                "vector" if base.len() > 2 && base[1] == "reduce" => {
                    let x = self.conc(&a[0], w0)?;
                    let lw: u32 = n.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(8);
                    let k = w0 / lw;
                    let es: Vec<u128> = (0..k).map(|j| mask(x >> (j * lw), lw)).collect();
                    let r = match base[2] { "or" => es.iter().fold(0, |p, q| p | q), "and" => es.iter().fold(u128::MAX, |p, q| p & q), "add" => mask(es.iter().fold(0, |p, q| p + q), lw), "umax" => *es.iter().max().unwrap(), "umin" => *es.iter().min().unwrap(), _ => return eng(format!("intrinsic {}", name)) };
                    return Ok(Some(C(mask(r, lw))));
                }
                _ => return eng(format!("intrinsic {}", name)),
            }
        }
        if let Some(n) = name.strip_prefix("sx_") { return self.model(n, a, ws); }
        match name {
            "malloc" | "__rust_alloc" => { let n = self.cu(&a[0])?; return Ok(Some(C(self.alloc(n)? as u128))); }
            "calloc" => { let n = self.cu(&a[0])? * self.cu(&a[1])?; return Ok(Some(C(self.alloc(n)? as u128))); }
            "realloc" => {
                let (p, n) = (self.cu(&a[0])?, self.cu(&a[1])?);
                let q = self.alloc(n)?;
                if p != 0 { let old = self.obj(p, 0)?.0.data.len() as u64; self.memcpy(q, p, old.min(n))?; self.dealloc(p)?; }
                return Ok(Some(C(q as u128)));
            }
            "posix_memalign" => { let n = self.cu(&a[2])?; let d = self.cu(&a[0])?; let p = self.alloc(n)?; self.store(d, 8, &C(p as u128))?; return Ok(Some(C(0))); }
            "aligned_alloc" => { let n = self.cu(&a[1])?; return Ok(Some(C(self.alloc(n)? as u128))); }
            "free" => { let p = self.cu(&a[0])?; self.dealloc(p)?; return Ok(None); }
            "bcmp" | "memcmp" => { let (p, q, n) = (self.cu(&a[0])?, self.cu(&a[1])?, self.cu(&a[2])?); let r = self.memcmp(p, q, n, name == "bcmp")?; return Ok(Some(C(mask(r as i128 as u128, 32)))); }
            "strlen" => { let p = self.cu(&a[0])?; let s = self.cstr(p)?; return Ok(Some(C(s.len() as u128))); }
            "abort" => return Err(Stop::Panic("abort".into())),
            "log" | "ln" | "exp" | "sqrt" => { let x = f64::from_bits(self.conc(&a[0], 64)? as u64); let r = match name { "exp" => x.exp(), "sqrt" => x.sqrt(), _ => x.ln() }; return Ok(Some(C(r.to_bits() as u128))); }
            "pow" => { let x = f64::from_bits(self.conc(&a[0], 64)? as u64); let y = f64::from_bits(self.conc(&a[1], 64)? as u64); return Ok(Some(C(x.powf(y).to_bits() as u128))); }
            "fmod" => { let x = f64::from_bits(self.conc(&a[0], 64)? as u64); let y = f64::from_bits(self.conc(&a[1], 64)? as u64); return Ok(Some(C((x % y).to_bits() as u128))); }
            "getrandom" => { let (p, n) = (self.cu(&a[0])?, self.cu(&a[1])?); for k in 0..n { self.store(p + k, 1, &C(0))?; } return Ok(Some(C(n as u128))); }
            "__cxa_thread_atexit_impl" => return Ok(Some(C(0))),
            "write" => return Ok(Some(a[2].clone())),
            _ => {}
        }
        if name.contains("hash_one") { return Ok(Some(C(0))); }
        if name.contains("hashmap_random_keys") { return Ok(Some(A(Rc::new(vec![C(1), C(2)])))); }
        if name.contains("panic") || name.contains("handle_alloc_error") || name.contains("_fail") {
            let m = self.panic_msg(name, a);
            return Err(Stop::Panic(m));
        }
        eng(format!("external function {} in {}", name, self.whereami()))
    }
    fn model(&mut self, n: &str, a: &[Val], _ws: &[u32]) -> Res<Option<Val>> {
        match n {
            "sym" => {
                let p = self.cu(&a[0])?;
                let mut nm = self.cstr(p)?;
                let lo = Int::from_i128(sext(self.conc(&a[1], 64)?, 64));
                let hi = Int::from_i128(sext(self.conc(&a[2], 64)?, 64));
                let dup = self.st.inputs.iter().filter(|x| x.0 == nm || x.0.starts_with(&format!("{}~", nm))).count();
                if dup > 0 { nm = format!("{}~{}", nm, dup); }
                if lo == hi {
                    return Ok(Some(C(lo.wrap(64))));
                }
                let v = self.cx.input(&nm, lo.clone(), hi.clone());
                Rc::make_mut(&mut self.st.inputs).push((nm, v));
                let x = Poly::var(v);
                self.push_c(Poly::c(lo.clone()).sub(&x), Rel::Le);
                self.push_c(x.sub(&Poly::c(hi.clone())), Rel::Le);
                if self.st.model.get(&v).map_or(true, |x| *x < lo || *x > hi) {
                    let mut m = (*self.st.model).clone();
                    let seed = self.seed.get(&self.cx.vars[v as usize].name).filter(|x| **x >= lo && **x <= hi).cloned();
                    m.insert(v, seed.unwrap_or_else(|| default_value(&self.cx.vars[v as usize])));
                    self.st.model = Rc::new(m);
                }
                Ok(Some(VS(Rc::new(Sym::I(x)))))
            }
            "assume" => { let c = self.conc(&a[0], 8)?; if c & 1 == 0 { Err(Stop::Assume) } else { Ok(None) } }
            "assert" => {
                let c = self.conc(&a[0], 8)?;
                if c & 1 == 0 { let p = self.cu(&a[1])?; let m = self.cstr(p)?; Err(Stop::Violation(m)) } else { Ok(None) }
            }
            "cover" => { let p = self.cu(&a[0])?; let m = self.cstr(p)?; if self.st.rpos >= self.replay.len() { *self.covers.entry(m).or_insert(0) += 1; } Ok(None) }
            "observe" => { let p = self.cu(&a[0])?; let m = self.cstr(p)?; let w = 64; let v = if let C(_) = a[1] { a[1].clone() } else { let q = self.canon_s(&a[1], w)?; self.mk(q, w) }; Rc::make_mut(&mut self.st.obs).push((m, v)); Ok(None) }
            "allow_panic" => { let c = self.conc(&a[0], 8)?; self.st.allow_panic = c & 1 == 1; Ok(None) }
            "conc" => { let x = self.conc(&a[0], 64)?; Ok(Some(C(x))) }
            "debug" => { let p = self.cu(&a[0])?; let m = self.cstr(p)?; if self.dbg { eprintln!("DEBUG {} {:?} itv", m, a[1]); } Ok(None) }
            "big_from" => {
                let p = match (&a[0], &a[1]) {
                    (C(lo), C(hi)) => Poly::c(Int::from_i128(((*hi << 64) | *lo) as i128)),
                    _ => return eng("big_from"),
                };
                Ok(Some(self.mkbig(p)))
            }
            "big_from_i64" => { let p = self.canon_s(&a[0], 64)?; Ok(Some(self.mkbig(p))) }
            "big_from_u64" => { let p = self.canon_u(&a[0], 64)?; Ok(Some(self.mkbig(p))) }
            "big_add" => { let p = self.big(&a[0])?.add(&self.big(&a[1])?); Ok(Some(self.mkbig(p))) }
            "big_sub" => { let p = self.big(&a[0])?.sub(&self.big(&a[1])?); Ok(Some(self.mkbig(p))) }
            "big_mul" => { let p = self.big(&a[0])?.mul(&self.big(&a[1])?); Ok(Some(self.mkbig(p))) }
            "big_neg" => { let p = self.big(&a[0])?.neg(); Ok(Some(self.mkbig(p))) }
            "big_div" | "big_rem" | "big_divf" | "big_modf" => {
                let (x, y) = (self.big(&a[0])?, self.big(&a[1])?);
                let z = Poly::zero();
                if self.eq(&y, &z)? { return Err(Stop::Panic("panic at exact-integer division by zero".into())); }
                let (q, r) = if n == "big_div" || n == "big_rem" { self.tdiv(&x, &y)? } else if self.lt(&y, &z)? { let (q, r) = self.divmod(&x.neg(), &y.neg())?; (q, r.neg()) } else { self.divmod(&x, &y)? };
                Ok(Some(self.mkbig(if n.starts_with("big_div") { q } else { r })))
            }
            "big_gcd" => { let (x, y) = (self.big(&a[0])?, self.big(&a[1])?); let g = self.gcd(&x, &y)?; Ok(Some(self.mkbig(g))) }
            "big_cmp" => {
                let (x, y) = (self.big(&a[0])?, self.big(&a[1])?);
                let r: i32 = if self.eq(&x, &y)? { 0 } else if self.lt(&x, &y)? { -1 } else { 1 };
                Ok(Some(C(mask(r as i128 as u128, 32))))
            }
            "big_lt" => { let (x, y) = (self.big(&a[0])?, self.big(&a[1])?); Ok(Some(C(self.lt(&x, &y)? as u128))) }
            "big_eq" => { let (x, y) = (self.big(&a[0])?, self.big(&a[1])?); Ok(Some(C(self.eq(&x, &y)? as u128))) }
            "big_is_const" => { let x = self.big(&a[0])?; Ok(Some(C(x.is_const() as u128))) }
            "big_to_i64" | "big_to_u64" | "big_to_i32" => {
                // writes the value, returns 1 if it fits
                let x = self.big(&a[0])?;
                let d = self.cu(&a[1])?;
                let (lo, hi) = match n { "big_to_i64" => (Int::pow2(63).neg(), Int::pow2(63)), "big_to_u64" => (i(0), Int::pow2(64)), _ => (i(-(1 << 31)), i(1 << 31)) };
                if self.lt(&x, &Poly::c(lo))? || !self.lt(&x, &Poly::c(hi))? { return Ok(Some(C(0))); }
                let v = self.mk(x, 64);
                self.store(d, 8, &v)?;
                Ok(Some(C(1)))
            }
            "big_conc" => { let x = self.big(&a[0])?; let c = self.concretize(&x)?; Ok(Some(self.mkbig(Poly::c(c)))) }
            "big_limb" => {
                let x = self.big(&a[0])?; let c = self.concretize(&x)?; let k = self.cu(&a[1])? as u32;
                let v = c.abs().div_floor(&pow2big(64 * k)); Ok(Some(C(v.wrap(64))))
            }
            "big_bits" => { let x = self.big(&a[0])?; let c = self.concretize(&x)?; Ok(Some(C(c.bits() as u128))) }
            "ratio_norm" => {
                // (num, den>0) -> cheaper equivalent pair
                let (mut x, mut y) = (self.big(&a[0])?, self.big(&a[1])?);
                if x.t.is_empty() { y = Poly::c(i(1)); }
                else if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) { let g = p.gcd(&q); x = Poly::c(p.div_floor(&g)); y = Poly::c(q.div_floor(&g)); }
                else {
                    let g = x.content().gcd(&y.content());
                    x = x.div_exact_c(&g);
                    y = y.div_exact_c(&g);
                    if !y.is_const() {
                        if let Some(e) = x.div_exact(&y) { x = e; y = Poly::c(i(1)); }
                        else if let Some(e) = y.div_exact(&x) { if !x.is_const() {
                            // 1/e up to the sign of x
                            if self.lt(&x, &Poly::zero())? { x = Poly::c(i(-1)); y = e.neg(); } else { x = Poly::c(i(1)); y = e; }
                        } }
                    }
                }
                let (d0, d1) = (self.cu(&a[2])?, self.cu(&a[3])?);
                let (bx, by) = (self.mkbig(x), self.mkbig(y));
                self.store(d0, 8, &bx)?;
                self.store(d1, 8, &by)?;
                Ok(None)
            }
            "ratio_full" => {
                // fully reduced numerator and denominator
                let (x, y) = (self.big(&a[0])?, self.big(&a[1])?);
                let g = self.gcd(&x, &y)?;
                let g = self.concretize(&g)?;
                let (x, y) = if g.is_one() { (x, y) } else { let g = Poly::c(g); (self.divmod(&x, &g)?.0, self.divmod(&y, &g)?.0) };
                let (d0, d1) = (self.cu(&a[2])?, self.cu(&a[3])?);
                let (bx, by) = (self.mkbig(x), self.mkbig(y));
                self.store(d0, 8, &bx)?;
                self.store(d1, 8, &by)?;
                Ok(None)
            }
            "gcd_i64" => {
                let (x, y) = (self.canon_s(&a[0], 64)?, self.canon_s(&a[1], 64)?);
                let g = self.gcd(&x, &y)?;
                let g = self.concretize(&g)?;
                Ok(Some(C(g.wrap(64))))
            }
            _ => eng(format!("model sx_{}", n)),
        }
    }
}

fn ceil_div(a: &Int, b: &Int) -> Int { a.neg().div_floor(b).neg() }

fn insert(base: &Val, path: &[u32], x: Val) -> Res<Val> {
    if path.is_empty() { return Ok(x); }
    match base {
        A(v) => { let mut v2 = (**v).clone(); v2[path[0] as usize] = insert(&v[path[0] as usize], &path[1..], x)?; Ok(A(Rc::new(v2))) }
        _ => eng("insertvalue into scalar"),
    }
}

fn cbin(op: Bop, w: u32, x: u128, y: u128) -> Res<u128> {
    Ok(mask(match op {
        Bop::Add => x.wrapping_add(y),
        Bop::Sub => x.wrapping_sub(y),
        Bop::Mul => x.wrapping_mul(y),
        Bop::Udiv => if y == 0 { return eng("udiv by zero") } else { x / y },
        Bop::Urem => if y == 0 { return eng("urem by zero") } else { x % y },
        Bop::Sdiv => if y == 0 { return eng("sdiv by zero") } else { (sext(x, w).wrapping_div(sext(y, w))) as u128 },
        Bop::Srem => if y == 0 { return eng("srem by zero") } else { (sext(x, w).wrapping_rem(sext(y, w))) as u128 },
        Bop::Shl => if y >= w as u128 { 0 } else { x << y },
        Bop::Lshr => if y >= w as u128 { 0 } else { x >> y },
        Bop::Ashr => (sext(x, w) >> (y.min(w as u128 - 1))) as u128,
        Bop::And => x & y,
        Bop::Or | Bop::OrDisjoint => x | y,
        Bop::Xor => x ^ y,
    }, w))
}
