// Symbolic periodic graphs, and the independent references the graph harnesses use.
#![allow(dead_code)]
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Zero};
use rust_systre::pgraphs::*;
use std::ffi::CStr;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct W {}
pub type L2 = LabelVector2d<W>;
pub type L3 = LabelVector3d<W>;
pub type G2 = Graph<L2, W>;
pub type G3 = Graph<L3, W>;
pub type Q = BigRational;
pub fn q(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }

/// an edge as plain numbers: head, tail, shift (third component 0 in two dimensions)
pub type E = (u32, u32, [i32; 3]);
pub fn rev(e: &E) -> E { (e.1, e.0, [-e.2[0], -e.2[1], -e.2[2]]) }
pub fn e2(e: &E) -> Edge<L2, W> { Edge::new(e.0, e.1, L2::new(e.2[0], e.2[1])) }
pub fn e3(e: &E) -> Edge<L3, W> { Edge::new(e.0, e.1, L3::new(e.2[0], e.2[1], e.2[2])) }
pub fn g2(es: &[E]) -> G2 { Graph::new(&es.iter().map(e2).collect::<Vec<_>>()) }
pub fn g3(es: &[E]) -> G3 { Graph::new(&es.iter().map(e3).collect::<Vec<_>>()) }
pub fn un<T: LabelVector<W>>(e: &Edge<T, W>) -> E { let v = e.shift.to_vec(); (e.head, e.tail, [v[0], v[1], if v.len() > 2 { v[2] } else { 0 }]) }
pub fn shift(n: &'static CStr, d: usize, b: i64) -> [i32; 3] { let mut s = [0; 3]; for k in 0..d { s[k] = int(n, -b, b) as i32; } s }
pub fn cshift(n: &'static CStr, d: usize, b: i64) -> [i32; 3] { let mut s = [0; 3]; for k in 0..d { s[k] = conc(int(n, -b, b)) as i32; } s }
pub fn sum(a: &[i32; 3], b: &[i32; 3]) -> [i32; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn dif(a: &[i32; 3], b: &[i32; 3]) -> [i32; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }

/// distinct undirected edges
pub fn undirected(es: &[E]) -> Vec<E> {
    let mut r: Vec<E> = vec![];
    for e in es { if !r.iter().any(|f| f == e || *f == rev(e)) { r.push(*e); } }
    r
}
/// the edges leaving v; an edge from v to v with shift zero counts twice
pub fn star(es: &[E], v: u32) -> Vec<E> {
    let mut r = vec![];
    for e in undirected(es) { if e.0 == v { r.push(e); } if e.1 == v { r.push(rev(&e)); } }
    r
}
pub fn verts(es: &[E]) -> Vec<u32> {
    let mut r: Vec<u32> = vec![];
    for e in es { for v in [e.0, e.1] { if !r.contains(&v) { r.push(v); } } }
    r.sort();
    r
}
/// does the quotient graph connect all vertices?
pub fn quotient_connected(es: &[E]) -> bool {
    let vs = verts(es);
    if vs.is_empty() { return true; }
    let mut seen = vec![vs[0]];
    let mut k = 0;
    while k < seen.len() {
        for e in es { for (a, b) in [(e.0, e.1), (e.1, e.0)] { if a == seen[k] && !seen.contains(&b) { seen.push(b); } } }
        k += 1;
    }
    seen.len() == vs.len()
}
/// symbolic graph: k edges on vertices 1..=n (end points decided per path), symbolic shifts
pub fn graph(k: usize, n: usize, d: usize, b: i64) -> Vec<E> {
    (0..k).map(|_| { let h = idx(c"head", 1, n) as u32; let t = idx(c"tail", 1, n) as u32; (h, t, shift(c"s", d, b)) }).collect()
}
pub fn vadd(a: &[Q], b: &[Q]) -> Vec<Q> { a.iter().zip(b).map(|(x, y)| x + y).collect() }
pub fn qv(s: &[i32; 3], d: usize) -> Vec<Q> { (0..d).map(|k| q(s[k] as i64, 1)).collect() }

/// exact stand-in for modular_solver::solve (which is decided by its own property)
pub fn model_solve(a: &Vec<Vec<i64>>, b: &Vec<Vec<i64>>) -> Option<Vec<Vec<BigRational>>> {
    let (n, k) = (a.len(), b[0].len());
    let mut m: Vec<Vec<Q>> = (0..n).map(|i| a[i].iter().chain(b[i].iter()).map(|&x| Q::from(BigInt::from(x))).collect()).collect();
    for c in 0..n {
        let p = (c..n).find(|&r| !m[r][c].is_zero())?;
        m.swap(c, p);
        let inv = Q::one() / &m[c][c];
        for j in c..n + k { m[c][j] = &m[c][j] * &inv; }
        for r in 0..n {
            if r != c && !m[r][c].is_zero() {
                let f = m[r][c].clone();
                for j in c..n + k { let t = &m[r][j] - &f * &m[c][j]; m[r][j] = t; }
            }
        }
    }
    Some(m.iter().map(|r| r[n..].to_vec()).collect())
}
/// components of the quotient graph, with a potential for each vertex along a spanning tree
pub fn potentials(es: &[E]) -> Vec<(u32, usize, [i32; 3])> {
    let vs = verts(es);
    let mut pot: Vec<(u32, usize, [i32; 3])> = vec![];
    let mut comp = 0;
    for &v0 in &vs {
        if pot.iter().any(|p| p.0 == v0) { continue; }
        pot.push((v0, comp, [0; 3]));
        let mut changed = true;
        while changed {
            changed = false;
            for e in es { for f in [*e, rev(e)] {
                let from = pot.iter().find(|p| p.0 == f.0).cloned();
                if let Some(p) = from { if !pot.iter().any(|p| p.0 == f.1) { pot.push((f.1, comp, sum(&p.2, &f.2))); changed = true; } }
            } }
        }
        comp += 1;
    }
    pot
}
pub fn gcd(a: i64, b: i64) -> i64 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }

/// cycle shift of each edge of the component of v0, relative to a spanning tree
pub fn cycles(es: &[E], v0: u32) -> Vec<[i64; 3]> {
    let pot = potentials(es);
    let at = |v: u32| pot.iter().find(|p| p.0 == v).unwrap().clone();
    let c0 = at(v0).1;
    es.iter().filter(|e| at(e.0).1 == c0).map(|e| { let s = dif(&sum(&at(e.0).2, &e.2), &at(e.1).2); [s[0] as i64, s[1] as i64, s[2] as i64] }).collect()
}
pub fn det2(a: &[i64; 3], b: &[i64; 3], i: usize, j: usize) -> i64 { a[i] * b[j] - a[j] * b[i] }
pub fn det3(a: &[i64; 3], b: &[i64; 3], c: &[i64; 3]) -> i64 { a[0] * det2(b, c, 1, 2) - a[1] * det2(b, c, 0, 2) + a[2] * det2(b, c, 0, 1) }

/// rank and index of the lattice spanned by the vectors, from minors
pub fn lattice(c: &[[i64; 3]], d: usize) -> (usize, i64) {
    let mut g = 0;
    if d == 2 { for i in 0..c.len() { for j in 0..i { g = gcd(g, det2(&c[i], &c[j], 0, 1)); } } }
    else { for i in 0..c.len() { for j in 0..i { for k in 0..j { g = gcd(g, det3(&c[i], &c[j], &c[k])); } } } }
    if g != 0 { return (d, g); }
    if d == 3 { for i in 0..c.len() { for j in 0..i { for (k, l) in [(0, 1), (0, 2), (1, 2)] { if det2(&c[i], &c[j], k, l) != 0 { return (2, 0); } } } } }
    if c.iter().any(|x| x != &[0, 0, 0]) { (1, 0) } else { (0, 0) }
}


/// is the periodic graph connected, with translations of full rank?
pub fn connected(es: &[E], d: usize) -> bool {
    let pot = potentials(es);
    pot.iter().all(|p| p.1 == 0) && lattice(&cycles(es, verts(es)[0]), d) == (d, 1)
}
pub fn directed(es: &[E]) -> Vec<E> { let mut r = vec![]; for e in undirected(es) { r.push(e); r.push(rev(&e)); } r }
fn lcm(a: &BigInt, b: i64) -> i64 { use num_traits::ToPrimitive; let a = a.to_i64().unwrap(); a / gcd(a, b) * b }
pub fn to_i(x: &Q) -> i64 { use num_traits::ToPrimitive; x.to_integer().to_i64().unwrap() }
/// barycentric positions of the vertices, times a common denominator (also returned)
pub fn positions(es: &[E], d: usize) -> (Vec<(u32, [i64; 3])>, i64) {
    let vs = verts(es);
    let ix = |v: u32| vs.iter().position(|x| *x == v).unwrap();
    let n = vs.len();
    let (mut a, mut b) = (vec![vec![0; n]; n], vec![vec![0; d]; n]);
    a[0][0] = 1;
    for i in 1..n { for e in star(es, vs[i]) {
        a[i][i] += 1;
        a[i][ix(e.1)] -= 1;
        for k in 0..d { b[i][k] += e.2[k] as i64; }
    } }
    let p = model_solve(&a, &b).unwrap();
    let mut den = 1;
    for r in &p { for x in r { den = lcm(x.denom(), den); } }
    let f = q(den, 1);
    let res = vs.iter().enumerate().map(|(i, &v)| { let mut x = [0; 3]; for k in 0..d { x[k] = to_i(&(&p[i][k] * &f)); } (v, x) }).collect();
    (res, den)
}
pub type V = [i64; 3];
pub type A = (Vec<(u32, u32)>, Vec<(E, E)>, [V; 3]);
/// directed edges with their vectors (times the common denominator)
pub fn with_vectors(es: &[E], d: usize) -> Vec<(E, V)> {
    let (pos, den) = positions(es, d);
    let at = |v: u32| pos.iter().find(|p| p.0 == v).unwrap().1;
    directed(es).iter().map(|e| { let (p, r) = (at(e.0), at(e.1)); let mut x = [0; 3]; for k in 0..d { x[k] = r[k] + den * e.2[k] as i64 - p[k]; } (*e, x) }).collect()
}
pub fn locally_stable(es: &[E], d: usize) -> bool {
    let w = with_vectors(es, d);
    for i in 0..w.len() { for j in 0..i { if w[i].0.0 == w[j].0.0 && w[i].1 == w[j].1 { return false; } } }
    true
}
pub fn stable(es: &[E], d: usize) -> bool {
    let (pos, den) = positions(es, d);
    for i in 0..pos.len() { for j in 0..i { if (0..d).all(|k| (pos[i].1[k] - pos[j].1[k]) % den == 0) { return false; } } }
    true
}
pub fn apply(m: &[V; 3], v: &V) -> V { let mut r = [0; 3]; for i in 0..3 { for j in 0..3 { r[i] += m[i][j] * v[j]; } } r }
pub fn mat_det(m: &[V; 3]) -> i64 { det3(&m[0], &m[1], &m[2]) }
fn columns(c: &[V], d: usize) -> [V; 3] { let mut m = [[0; 3]; 3]; for j in 0..3 { for i in 0..3 { m[i][j] = if j < d { c[j][i] } else { (i == j) as i64 }; } } m }
/// the matrix taking the vectors in src to those in dst, if it is integral and invertible over the integers
fn taking(src: &[V], dst: &[V], d: usize) -> Option<[V; 3]> {
    let (b, f) = (columns(src, d), columns(dst, d));
    let db = mat_det(&b);
    let df = mat_det(&f);
    if df != db && df != -db { return None; }
    let mut m = [[0; 3]; 3];
    for i in 0..3 { for j in 0..3 {
        let mut s = 0;
        for k in 0..3 {
            let (r1, r2, c1, c2) = ((j + 1) % 3, (j + 2) % 3, (k + 1) % 3, (k + 2) % 3);
            s += f[i][k] * (b[r1][c1] * b[r2][c2] - b[r1][c2] * b[r2][c1]);
        }
        if s % db != 0 { return None; }
        m[i][j] = s / db;
    } }
    Some(m)
}
/// the graph map taking v0 to w with linear part m
pub fn extend(w: &[(E, V)], v0: u32, img: u32, m: &[V; 3]) -> Option<A> {
    let mut vm = vec![(v0, img)];
    let mut em = vec![];
    let mut k = 0;
    while k < vm.len() {
        let (a, b) = vm[k];
        for (e, x) in w.iter().filter(|x| x.0.0 == a) {
            let y = apply(m, x);
            let f = w.iter().find(|f| f.0.0 == b && f.1 == y)?.0;
            match vm.iter().find(|p| p.0 == e.1) { Some(p) => if p.1 != f.1 { return None; }, None => vm.push((e.1, f.1)) }
            em.push((*e, f));
        }
        k += 1;
    }
    Some((vm, em, *m))
}
/// every automorphism of a connected, locally stable graph, by trying all images of d independent edges
pub fn automorphisms(es: &[E], d: usize) -> Vec<A> {
    let w = with_vectors(es, d);
    let v0 = verts(es)[0];
    let b = frame(&w, d);
    let mut ms: Vec<[V; 3]> = vec![];
    let mut vecs: Vec<V> = vec![];
    for (_, x) in &w { if !vecs.contains(x) { vecs.push(*x); } }
    let n = vecs.len();
    for t in 0..n.pow(d as u32) {
        let dst: Vec<V> = (0..d).map(|k| vecs[t / n.pow(k as u32) % n]).collect();
        if let Some(m) = taking(&b, &dst, d) {
            // edge vectors go to edge vectors
            if !ms.contains(&m) && vecs.iter().all(|x| vecs.contains(&apply(&m, x))) { ms.push(m); }
        }
    }
    let mut res = vec![];
    for m in &ms { for v in verts(es) { if let Some(a) = extend(&w, v0, v, m) { res.push(a); } } }
    res
}

/// modular_solver::solve is redirected here where a harness asks for it
#[no_mangle]
pub fn place_solve(a: &Vec<Vec<i64>>, b: &Vec<Vec<i64>>) -> Option<Vec<Vec<Q>>> { model_solve(a, b) }

/// some isomorphism between two connected, locally stable graphs, by trying all images of d independent edges
pub fn isomorphic(es: &[E], fs: &[E], d: usize) -> bool {
    if verts(es).len() != verts(fs).len() || undirected(es).len() != undirected(fs).len() { return false; }
    let (mut w, mut x) = (with_vectors(es, d), with_vectors(fs, d));
    let (p, r) = (positions(es, d).1, positions(fs, d).1);
    for a in w.iter_mut() { for k in 0..3 { a.1[k] *= r; } }
    for a in x.iter_mut() { for k in 0..3 { a.1[k] *= p; } }
    let b = frame(&w, d);
    let mut vecs: Vec<V> = vec![];
    for (_, v) in &x { if !vecs.contains(v) { vecs.push(*v); } }
    let n = vecs.len();
    for t in 0..n.pow(d as u32) {
        let dst: Vec<V> = (0..d).map(|k| vecs[t / n.pow(k as u32) % n]).collect();
        if let Some(m) = taking(&b, &dst, d) {
            if w.iter().all(|a| vecs.contains(&apply(&m, &a.1))) {
                for v in verts(fs) { if covers(&w, &x, w[0].0.0, v, &m) { return true; } }
            }
        }
    }
    false
}
/// does the linear map extend to a bijection of the edges at corresponding vertices, starting from v0 -> img?
fn covers(w: &[(E, V)], x: &[(E, V)], v0: u32, img: u32, m: &[V; 3]) -> bool {
    let mut vm = vec![(v0, img)];
    let mut k = 0;
    while k < vm.len() {
        let (a, b) = vm[k];
        if w.iter().filter(|e| e.0.0 == a).count() != x.iter().filter(|e| e.0.0 == b).count() { return false; }
        for (e, y) in w.iter().filter(|e| e.0.0 == a) {
            let z = apply(m, y);
            match x.iter().find(|f| f.0.0 == b && f.1 == z) {
                None => return false,
                Some(f) => match vm.iter().find(|p| p.0 == e.1) { Some(p) => if p.1 != f.0.1 { return false; }, None => vm.push((e.1, f.0.1)) }
            }
        }
        k += 1;
    }
    true
}
fn frame(w: &[(E, V)], d: usize) -> Vec<V> {
    let mut b: Vec<V> = vec![];
    for (_, x) in w {
        if b.len() == d { break; }
        let mut c = b.clone();
        c.push(*x);
        let indep = match c.len() { 1 => c[0] != [0; 3], 2 if d == 2 => det2(&c[0], &c[1], 0, 1) != 0, 2 => [(0, 1), (0, 2), (1, 2)].iter().any(|&(i, j)| det2(&c[0], &c[1], i, j) != 0), _ => det3(&c[0], &c[1], &c[2]) != 0 };
        if indep { b = c; }
    }
    b
}
/// the same graph over the sublattice spanned by the rows of an upper triangular matrix with positive diagonal
pub fn supercell(es: &[E], h: &[[i32; 3]; 3]) -> Vec<E> {
    let (a, b, c) = (h[0][0], h[1][1], h[2][2]);
    // r = representative + q * h
    let split = |r: [i32; 3]| {
        let mut x = r;
        let mut qs = [0; 3];
        for i in 0..3 { let k = x[i].div_euclid(h[i][i]); qs[i] = k; for j in 0..3 { x[j] -= k * h[i][j]; } }
        (x, qs)
    };
    let n = (a * b * c) as u32;
    let label = |v: u32, r: &[i32; 3]| (v - 1) * n + (r[0] + a * (r[1] + b * r[2])) as u32 + 1;
    let mut res = vec![];
    for e in es { for z in 0..c { for y in 0..b { for x in 0..a {
        let r = [x, y, z];
        let (t, s) = split(sum(&r, &e.2));
        res.push((label(e.0, &r), label(e.1, &t), s));
    } } } }
    res
}
/// classes of vertices under translations, by the independent search
pub fn translation_classes(es: &[E], d: usize) -> Vec<Vec<u32>> {
    let w = with_vectors(es, d);
    let vs = verts(es);
    let id = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    let maps: Vec<A> = vs.iter().filter_map(|&v| extend(&w, vs[0], v, &id)).collect();
    let mut res: Vec<Vec<u32>> = vec![];
    for &v in &vs {
        if res.iter().any(|c| c.contains(&v)) { continue; }
        let mut c: Vec<u32> = maps.iter().map(|m| m.0.iter().find(|x| x.0 == v).unwrap().1).collect();
        c.sort();
        c.dedup();
        res.push(c);
    }
    res
}
