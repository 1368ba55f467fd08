// Classification of single operations and of plane groups: order, axis, orientation, crystal system, bases.
use super::grp::*;
use super::sx::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::finder::verif::*;
use rust_systre::spacegroups::types::*;

fn deti(m: &M) -> i64 {
    match m.len() {
        1 => m[0][0],
        2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
        _ => (0..3).map(|j| m[0][j] * (m[1][(j + 1) % 3] * m[2][(j + 2) % 3] - m[1][(j + 2) % 3] * m[2][(j + 1) % 3])).sum(),
    }
}
fn order(m: &M) -> usize {
    let d = m.len();
    let mut a = m.clone();
    for k in 1..=6 {
        if a == id(d) { return k; }
        for r in &a { for x in r { if x.abs() > 1000000 { return 0; } } }
        a = mm(&a, m);
    }
    0
}
/// integer vectors v != 0 in a small box with m v = e v
fn fixed(m: &M, e: i64) -> Vec<Vec<i64>> {
    let d = m.len();
    // all directions of the fixed space: kernel of m - e by elimination over the rationals
    let mut rows: Vec<Vec<Q>> = (0..d).map(|i| (0..d).map(|j| q(m[i][j] - if i == j { e } else { 0 }, 1)).collect()).collect();
    let mut piv = vec![];
    let mut r = 0;
    for c in 0..d {
        if let Some(p) = (r..d).find(|&i| !rows[i][c].is_zero()) {
            rows.swap(r, p);
            let f = Q::one() / &rows[r][c];
            for k in 0..d { rows[r][k] = &rows[r][k] * &f; }
            for i in 0..d { if i != r && !rows[i][c].is_zero() { let f = rows[i][c].clone(); for k in 0..d { let t = &rows[r][k] * &f; rows[i][k] = &rows[i][k] - t; } } }
            piv.push(c);
            r += 1;
        }
    }
    let mut res = vec![];
    for c in 0..d {
        if piv.contains(&c) { continue; }
        let mut v = vec![Q::zero(); d];
        v[c] = Q::one();
        for (i, &p) in piv.iter().enumerate() { v[p] = -&rows[i][c]; }
        let mut l = BigInt::one();
        for x in &v { let f = x.denom().clone(); if (&l % &f) != BigInt::zero() { l = l * f; } }
        res.push(v.iter().map(|x| (x * Q::from(l.clone())).to_integer().to_i64().unwrap()).collect());
    }
    res
}
fn check_details(m: &M) {
    let d = m.len();
    let (axis, ord, direct, clockwise) = operator_details(qm(m));
    let (dt, want) = (deti(m), order(m));
    check(direct == (dt >= 0), c"orientation");
    check(ord == want, c"order, zero if it is not 1 to 6");
    let f = fixed(m, if d % 2 == 1 && dt < 0 { -1 } else { 1 });
    check(axis.is_some() == (f.len() == 1), c"an axis exactly if the operation or its inverse through a point fixes one direction");
    if let Some(a) = &axis {
        check(a.len() == d && a.iter().any(|x| !x.is_zero()), c"the axis is a direction");
        check(a.iter().find(|x| !x.is_zero()).unwrap().is_positive(), c"the axis points in positive direction");
        for i in 0..d { for j in 0..i { check(&a[i] * q(f[0][j], 1) == &a[j] * q(f[0][i], 1), c"the axis is fixed"); } }
    }
    if d == 2 && direct && want > 2 {
        // a quarter (third, sixth) turn takes every vector to the same side
        for v in [[1, 0], [0, 1], [1, 1], [2, -1]] {
            let w = [m[0][0] * v[0] + m[0][1] * v[1], m[1][0] * v[0] + m[1][1] * v[1]];
            check(clockwise == (v[0] * w[1] - v[1] * w[0] < 0), c"sense of rotation in the plane");
        }
    }
    if d == 2 && !direct { check(!clockwise, c"reflections have no sense of rotation"); }
    if d == 3 && want > 2 && f.len() == 1 {
        let a = axis.unwrap();
        for v in [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 2, -1]] {
            let w: Vec<i64> = (0..3).map(|i| (0..3).map(|j| m[i][j] * v[j]).sum()).collect();
            let t = &a[0] * q(v[1] * w[2] - v[2] * w[1], 1) + &a[1] * q(v[2] * w[0] - v[0] * w[2], 1) + &a[2] * q(v[0] * w[1] - v[1] * w[0], 1);
            if !t.is_zero() { check(clockwise == t.is_positive(), c"sense of rotation about the axis"); }
        }
    }
}
/// every integer matrix with entries in the given range
#[no_mangle]
pub extern "C-unwind" fn harness_details2() {
    let n = sz(2, 3);
    let m: M = (0..2).map(|_| (0..2).map(|_| conc(int(c"m", -n, n))).collect()).collect();
    check_details(&m);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_details1() {
    check_details(&vec![vec![conc(int(c"m", -3, 3))]]);
    cover(c"end");
}
/// rotations, reflections and inversions of all crystal systems in skewed bases
#[no_mangle]
pub extern "C-unwind" fn harness_details3() {
    let u = change(3, sz(1, 2));
    let b = [cubic(0), cubic(1), cubic(3), cubic(5), cubic(6), trigonal(0), trigonal(1), trigonal(3), trigonal(4)][idx(c"op", 0, 8)].clone();
    let mut m = b.clone();
    for _ in 1..idx(c"power", 1, 3) { m = mm(&m, &b); }
    if idx(c"neg", 0, 1) == 1 { for r in m.iter_mut() { for x in r.iter_mut() { *x = -*x; } } }
    check_details(&conj(&m, &u));
    cover(c"end");
}
/// any unimodular or singular matrix in three dimensions with entries -1..1 and two further zeros
#[no_mangle]
pub extern "C-unwind" fn harness_details3_any() {
    let (i, j) = (idx(c"zero", 0, 8), idx(c"zero", 0, 8));
    assume(i < j);
    assume(sz(0, 1) == 1 || i % 4 == 1);
    let e: Vec<i64> = (0..9).map(|k| if k == i || k == j { 0 } else { conc(int(c"m", -1, 1)) }).collect();
    check_details(&e.chunks(3).map(|r| r.to_vec()).collect());
    cover(c"end");
}

fn group(gens: &[M]) -> Vec<M> { closure(&gens.iter().map(|g| (g.clone(), vec![0; g.len()])).collect::<Vec<_>>()).into_iter().map(|o| o.0).collect() }
/// the ten point groups of the plane: p1 2 m(rect) m(rhomb) 2mm(rect) 2mm(rhomb) 4 4mm 3 3m1 31m 6 6mm
fn point_group(k: usize) -> Vec<M> {
    let (s, h) = (square, hexagonal);
    group(&match k {
        0 => vec![id(2)],
        1 => vec![s(2)],
        2 => vec![s(0)],
        3 => vec![s(1)],
        4 => vec![s(0), s(2)],
        5 => vec![s(1), s(2)],
        6 => vec![s(3)],
        7 => vec![s(3), s(0)],
        8 => vec![h(0)],
        9 => vec![h(0), h(2)],
        10 => vec![h(0), h(3)],
        11 => vec![h(1)],
        _ => vec![h(1), h(2)],
    })
}
#[no_mangle]
pub extern "C-unwind" fn harness_system2() {
    let u = change(2, sz(2, 4));
    let k = idx(c"group", 0, 12);
    let mut ops: Vec<M> = point_group(k).iter().map(|m| conj(m, &u)).collect();
    // the result may not depend on which operation comes first, except where there is a choice
    let r = idx(c"first", 0, 11);
    assume(r < ops.len());
    ops.rotate_left(r);
    let (sys, b) = crystal_system_and_basis_2d(&ops.iter().map(|m| qm(m)).collect::<Vec<_>>());
    let want = match k { 0 | 1 => CrystalSystem::Oblique, 2..=5 => CrystalSystem::Rectangular, 6 | 7 => CrystalSystem::Square, _ => CrystalSystem::Hexagonal };
    check(sys == want, c"crystal system");
    check(b.len() == 2 && b.iter().all(|v| v.shape() == (2, 1)), c"a basis of the plane");
    let (x, y): (Vec<Q>, Vec<Q>) = ((0..2).map(|i| b[0][(i, 0)].clone()).collect(), (0..2).map(|i| b[1][(i, 0)].clone()).collect());
    check((&x[0] * &y[1] - &x[1] * &y[0]).is_positive(), c"right-handed");
    let ap = |m: &M, v: &Vec<Q>| -> Vec<Q> { (0..2).map(|i| q(m[i][0], 1) * &v[0] + q(m[i][1], 1) * &v[1]).collect() };
    let pm = |v: &Vec<Q>, w: &Vec<Q>| v == w || (v[0] == -&w[0] && v[1] == -&w[1]);
    let mirrors: Vec<&M> = ops.iter().filter(|m| deti(m) < 0).collect();
    match k {
        2..=5 => for m in &mirrors {
            check(pm(&ap(m, &x), &x) && pm(&ap(m, &y), &y), c"both basis vectors lie on mirrors or across them");
        },
        6 | 7 => check(ops.iter().any(|m| deti(m) > 0 && order(m) == 4 && pm(&ap(m, &x), &y)), c"basis vectors related by a quarter turn"),
        8..=12 => check(ops.iter().any(|m| deti(m) > 0 && order(m) == 3 && pm(&ap(m, &x), &y)), c"basis vectors related by a third turn"),
        _ => {}
    }
    if k >= 6 && !mirrors.is_empty() { check(mirrors.iter().any(|m| ap(m, &x) == x), c"the first basis vector lies on a mirror"); }
    cover(c"end");
}

fn index(l: &[Vec<i64>], v: &[Vec<Q>], den: i64) -> (bool, Q) {
    // v in terms of the basis l / den
    let v: Vec<Vec<Q>> = v.iter().map(|w| w.iter().map(|x| x * q(den, 1)).collect()).collect();
    let d = l[0][0] * l[1][1] - l[0][1] * l[1][0];
    let co = |w: &Vec<Q>| -> Vec<Q> { vec![(&w[0] * q(l[1][1], 1) - &w[1] * q(l[1][0], 1)) / q(d, 1), (&w[1] * q(l[0][0], 1) - &w[0] * q(l[0][1], 1)) / q(d, 1)] };
    let (a, b) = (co(&v[0]), co(&v[1]));
    (a.iter().chain(&b).all(|x| x.is_integer()), (&a[0] * &b[1] - &a[1] * &b[0]).abs())
}
/// conventional cell of a lattice given by any of its bases
#[no_mangle]
pub extern "C-unwind" fn harness_normalized_basis2() {
    let kind = idx(c"kind", 0, 3);
    let u = change(2, sz(1, 2));
    let (a, b) = (conc(int(c"a", 1, sz(6, 9))), conc(int(c"b", 1, sz(6, 9))));
    let base: M = match kind {
        0 => vec![vec![a, conc(int(c"c", -3, 3))], vec![conc(int(c"d", -3, 3)), b]],
        1 => vec![vec![a, 0], vec![0, b]],
        2 => vec![vec![a, b], vec![-a, b]],
        _ => vec![vec![a, b - 1], vec![1 - b, a]],
    };
    if kind == 0 { assume(base[0][0] * base[1][1] != base[0][1] * base[1][0]); }
    let l = mm(&u, &base);
    let sys = match kind { 0 => CrystalSystem::Oblique, 1 | 2 => CrystalSystem::Rectangular, _ => CrystalSystem::Square };
    let den = [1, 24][idx(c"den", 0, 1)];
    let (r, cen) = normalized_basis_2d(sys, &l.iter().map(|v| Matrix::col(&[q(v[0], den), q(v[1], den)])).collect());
    check(r.len() == 2, c"two basis vectors");
    let v: Vec<Vec<Q>> = r.iter().map(|c| vec![c[(0, 0)].clone(), c[(1, 0)].clone()]).collect();
    let (inside, n) = index(&l, &v, den);
    check(inside, c"basis vectors are lattice vectors");
    match kind {
        2 => {
            check(cen == Centering::Centered2d && n == q(2, 1), c"centered cell of a rhombic lattice");
            check(index(&l, &[(0..2).map(|i| (&v[0][i] + &v[1][i]) / q(2, 1)).collect(), v[0].clone()], den).0, c"the centre of the cell is a lattice point");
        }
        _ => check(cen == Centering::Primitive2d && n == q(1, 1), c"primitive cell"),
    }
    if kind == 1 || kind == 2 { check(v[0][0].is_zero() && v[1][1].is_zero() || v[0][1].is_zero() && v[1][0].is_zero(), c"basis vectors lie on the axes"); }
    if kind == 3 { check(v[1][0] == -&v[0][1] && v[1][1] == v[0][0], c"basis vectors related by a quarter turn"); }
    cover(c"end");
}
