// Exact integers and multivariate integer polynomials.
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive};
use std::cmp::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Int {
    S(i64),
    B(Arc<BigInt>),
}
use Int::*;

impl Int {
    pub fn from_big(b: BigInt) -> Int {
        match b.to_i64() {
            Some(x) => S(x),
            None => B(Arc::new(b)),
        }
    }
    pub fn from_i128(x: i128) -> Int {
        if x >= i64::MIN as i128 && x <= i64::MAX as i128 { S(x as i64) } else { Int::from_big(BigInt::from(x)) }
    }
    pub fn from_u128(x: u128) -> Int {
        if x <= i64::MAX as u128 { S(x as i64) } else { Int::from_big(BigInt::from(x)) }
    }
    pub fn big(&self) -> BigInt {
        match self { S(x) => BigInt::from(*x), B(b) => (**b).clone() }
    }
    pub fn pow2(k: u32) -> Int { if k < 62 { S(1i64 << k) } else { Int::from_big(BigInt::from(1) << k) } }
    pub fn is_zero(&self) -> bool { matches!(self, S(0)) }
    pub fn is_one(&self) -> bool { matches!(self, S(1)) }
    pub fn sgn(&self) -> i32 {
        match self { S(x) => x.signum() as i32, B(b) => if b.is_negative() { -1 } else { 1 } }
    }
    pub fn neg(&self) -> Int {
        match self { S(x) if *x != i64::MIN => S(-x), _ => Int::from_big(-self.big()) }
    }
    pub fn abs(&self) -> Int { if self.sgn() < 0 { self.neg() } else { self.clone() } }
    pub fn add(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) { if let Some(c) = a.checked_add(*b) { return S(c); } }
        Int::from_big(self.big() + o.big())
    }
    pub fn sub(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) { if let Some(c) = a.checked_sub(*b) { return S(c); } }
        Int::from_big(self.big() - o.big())
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) { if let Some(c) = a.checked_mul(*b) { return S(c); } }
        Int::from_big(self.big() * o.big())
    }
    pub fn div_floor(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) { if !(*a == i64::MIN && *b == -1) { return S(Integer::div_floor(a, b)); } }
        Int::from_big(self.big().div_floor(&o.big()))
    }
    pub fn mod_floor(&self, o: &Int) -> Int { self.sub(&self.div_floor(o).mul(o)) }
    pub fn div_trunc(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) { if !(*a == i64::MIN && *b == -1) { return S(a / b); } }
        Int::from_big(self.big() / o.big())
    }
    pub fn gcd(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if *a != i64::MIN && *b != i64::MIN { return S(a.gcd(b)); }
        }
        Int::from_big(self.big().gcd(&o.big()))
    }
    pub fn divides(&self, o: &Int) -> bool { if self.is_zero() { o.is_zero() } else { o.mod_floor(self).is_zero() } }
    pub fn to_i64(&self) -> Option<i64> { match self { S(x) => Some(*x), B(_) => None } }
    pub fn to_i128(&self) -> Option<i128> { match self { S(x) => Some(*x as i128), B(b) => b.to_i128() } }
    pub fn bits(&self) -> u32 {
        match self { S(x) => 64 - x.unsigned_abs().leading_zeros(), B(b) => b.bits() as u32 }
    }
    /// value mod 2^w as u128 (w <= 128)
    pub fn wrap(&self, w: u32) -> u128 {
        match self {
            S(x) => mask((*x as i128) as u128, w),
            B(b) => {
                let m: BigInt = BigInt::from(1) << w;
                let r = b.mod_floor(&m);
                r.to_u128().unwrap()
            }
        }
    }
    pub fn parse(s: &str) -> Option<Int> { s.parse::<BigInt>().ok().map(Int::from_big) }
    pub fn imin(&self, o: &Int) -> Int { if self <= o { self.clone() } else { o.clone() } }
    pub fn imax(&self, o: &Int) -> Int { if self >= o { self.clone() } else { o.clone() } }
}
pub fn mask(x: u128, w: u32) -> u128 { if w >= 128 { x } else { x & ((1u128 << w) - 1) } }
pub fn sext(x: u128, w: u32) -> i128 {
    if w >= 128 { x as i128 } else { let s = 128 - w; ((x << s) as i128) >> s }
}
impl PartialOrd for Int { fn partial_cmp(&self, o: &Int) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self, o) { (S(a), S(b)) => a.cmp(b), _ => self.big().cmp(&o.big()) }
    }
}
impl std::fmt::Display for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { S(x) => write!(f, "{}", x), B(b) => write!(f, "{}", b) }
    }
}

pub type Mono = Vec<u32>; // sorted var ids with repetition

/// Sum of coef*mono; sorted by (degree, lex) with the constant first; no zero coefs.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Poly { pub t: Vec<(Mono, Int)> }

fn mcmp(a: &Mono, b: &Mono) -> Ordering { a.len().cmp(&b.len()).then_with(|| a.cmp(b)) }

impl Poly {
    pub fn zero() -> Poly { Poly { t: vec![] } }
    pub fn c(x: Int) -> Poly { if x.is_zero() { Poly::zero() } else { Poly { t: vec![(vec![], x)] } } }
    pub fn var(v: u32) -> Poly { Poly { t: vec![(vec![v], S(1))] } }
    pub fn as_const(&self) -> Option<Int> {
        match self.t.len() {
            0 => Some(S(0)),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_const(&self) -> bool { self.t.is_empty() || (self.t.len() == 1 && self.t[0].0.is_empty()) }
    pub fn cterm(&self) -> Int {
        match self.t.first() { Some((m, c)) if m.is_empty() => c.clone(), _ => S(0) }
    }
    fn merge(&self, o: &Poly, f: impl Fn(&Int) -> Int) -> Poly {
        let (a, b) = (&self.t, &o.t);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            let ord = if i == a.len() { Ordering::Greater } else if j == b.len() { Ordering::Less } else { mcmp(&a[i].0, &b[j].0) };
            match ord {
                Ordering::Less => { r.push(a[i].clone()); i += 1; }
                Ordering::Greater => { r.push((b[j].0.clone(), f(&b[j].1))); j += 1; }
                Ordering::Equal => {
                    let c = a[i].1.add(&f(&b[j].1));
                    if !c.is_zero() { r.push((a[i].0.clone(), c)); }
                    i += 1; j += 1;
                }
            }
        }
        Poly { t: r }
    }
    pub fn add(&self, o: &Poly) -> Poly { self.merge(o, |x| x.clone()) }
    pub fn sub(&self, o: &Poly) -> Poly { self.merge(o, |x| x.neg()) }
    pub fn addc(&self, c: &Int) -> Poly { if c.is_zero() { self.clone() } else { self.add(&Poly::c(c.clone())) } }
    pub fn scale(&self, c: &Int) -> Poly {
        if c.is_zero() { return Poly::zero(); }
        if c.is_one() { return self.clone(); }
        Poly { t: self.t.iter().map(|(m, k)| (m.clone(), k.mul(c))).collect() }
    }
    pub fn neg(&self) -> Poly { self.scale(&S(-1)) }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() { return o.scale(&c); }
        if let Some(c) = o.as_const() { return self.scale(&c); }
        let mut acc: std::collections::HashMap<Mono, Int> = Default::default();
        for (m, a) in &self.t {
            for (n, b) in &o.t {
                let mut k = Vec::with_capacity(m.len() + n.len());
                let (mut i, mut j) = (0, 0);
                while i < m.len() || j < n.len() {
                    if j == n.len() || (i < m.len() && m[i] <= n[j]) { k.push(m[i]); i += 1; } else { k.push(n[j]); j += 1; }
                }
                let c = a.mul(b);
                let e = acc.entry(k).or_insert(S(0));
                *e = e.add(&c);
            }
        }
        let mut t: Vec<_> = acc.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        t.sort_by(|a, b| mcmp(&a.0, &b.0));
        Poly { t }
    }
    pub fn content(&self) -> Int {
        let mut g = S(0);
        for (_, c) in &self.t { g = g.gcd(c); if g.is_one() { break; } }
        g
    }
    pub fn div_exact_c(&self, c: &Int) -> Poly {
        if c.is_one() { return self.clone(); }
        Poly { t: self.t.iter().map(|(m, k)| (m.clone(), k.div_floor(c))).collect() }
    }
    pub fn degree(&self) -> usize { self.t.last().map_or(0, |x| x.0.len()) }
    pub fn vars(&self, out: &mut Vec<u32>) {
        for (m, _) in &self.t { for v in m { if !out.contains(v) { out.push(*v); } } }
    }
    pub fn eval(&self, f: &mut dyn FnMut(u32) -> Int) -> Int {
        let mut s = S(0);
        for (m, c) in &self.t {
            let mut k = c.clone();
            for v in m { k = k.mul(&f(*v)); }
            s = s.add(&k);
        }
        s
    }
    pub fn subst(&self, f: &dyn Fn(u32) -> Option<Int>) -> Poly {
        let mut any = false;
        for (m, _) in &self.t { for v in m { if f(*v).is_some() { any = true; } } }
        if !any { return self.clone(); }
        let mut acc: std::collections::HashMap<Mono, Int> = Default::default();
        for (m, c) in &self.t {
            let mut k = vec![];
            let mut cc = c.clone();
            for v in m { match f(*v) { Some(x) => cc = cc.mul(&x), None => k.push(*v) } }
            let e = acc.entry(k).or_insert(S(0));
            *e = e.add(&cc);
        }
        let mut t: Vec<_> = acc.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        t.sort_by(|a, b| mcmp(&a.0, &b.0));
        Poly { t }
    }
    /// Replace var v by poly p.
    pub fn subst_poly(&self, v: u32, p: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in &self.t {
            let n = m.iter().filter(|&&x| x == v).count();
            let rest: Mono = m.iter().cloned().filter(|&x| x != v).collect();
            let mut q = Poly { t: vec![(rest, c.clone())] };
            for _ in 0..n { q = q.mul(p); }
            r = r.add(&q);
        }
        r
    }
    /// Exact multivariate division (graded lex order), over Z.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if let Some(c) = d.as_const() {
            if c.is_zero() { return None; }
            for (_, k) in &self.t { if !c.divides(k) { return None; } }
            return Some(self.div_exact_c(&c));
        }
        let (lm, lc) = d.t.last().unwrap().clone();
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut n = 0;
        while let Some((m, c)) = rem.t.last().cloned() {
            n += 1;
            if n > 2000 { return None; }
            // m / lm
            let mut k = vec![];
            let mut j = 0;
            for v in &m { if j < lm.len() && lm[j] == *v { j += 1; } else { k.push(*v); } }
            if j < lm.len() || !lc.divides(&c) { return None; }
            let t = Poly { t: vec![(k, c.div_floor(&lc))] };
            rem = rem.sub(&t.mul(d));
            q = q.add(&t);
        }
        Some(q)
    }
    /// p = a*q + c with q primitive, no constant term, positive leading coefficient.
    pub fn split(&self) -> (Int, Poly, Int) {
        let c = self.cterm();
        let mut q = Poly { t: self.t.iter().filter(|(m, _)| !m.is_empty()).cloned().collect() };
        let mut a = q.content();
        if let Some((_, k)) = q.t.last() { if k.sgn() < 0 { a = a.neg(); } }
        if !a.is_zero() { q = q.div_exact_c(&a); }
        (a, q, c)
    }
}
