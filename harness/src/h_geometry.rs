// Affine geometry: maps, coordinate changes, scalar products and reduction modulo lattice translations.
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Zero};
use rust_systre::arithmetic::geometry::*;
use rust_systre::arithmetic::matrices::Matrix;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct A {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct B {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct C {}
type Q = BigRational;
fn q(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
fn rat(n: &'static std::ffi::CStr, b: i64, i: usize) -> Q { q(int(n, -b, b), [2, 3, 4, 6][i % 4]) }
fn ints(n: &'static std::ffi::CStr, k: usize, b: i64) -> Vec<Q> { (0..k).map(|_| q(int(n, -b, b), 1)).collect() }
fn mat(n: &'static std::ffi::CStr, d: usize, b: i64) -> Matrix<Q> { Matrix::new(d, &ints(n, d * d, b)) }
fn vec_(n: &'static std::ffi::CStr, d: usize, b: i64) -> Vec<Q> { (0..d).map(|i| rat(n, b, i)).collect() }
fn dim() -> usize { idx(c"dim", 1, 3) }

#[no_mangle]
pub extern "C-unwind" fn harness_affine() {
    let d = dim();
    let (la, lb) = (mat(c"a", d, 9), mat(c"b", d, 9));
    let (sa, sb) = (vec_(c"s", d, 9), vec_(c"t", d, 9));
    let f = AffineMap::<Q, A>::new(&la, &Vector::new(&sa));
    let g = AffineMap::<Q, A>::new(&lb, &Vector::new(&sb));
    let p = Point::<Q, A>::new(&vec_(c"p", d, 9));
    let v = Vector::<Q, A>::new(&vec_(c"v", d, 9));
    // definition
    let fp = &f * &p;
    let fv = &f * &v;
    for i in 0..d {
        let mut s = Q::zero();
        for j in 0..d { s += &la[(i, j)] * &p[j]; }
        check(fp[i] == s + &sa[i], c"image of a point");
        let mut s = Q::zero();
        for j in 0..d { s += &la[(i, j)] * &v[j]; }
        check(fv[i] == s, c"image of a vector ignores the shift");
    }
    check((&f * &g) * &p == &f * &(&g * &p), c"composition on points");
    check((&f * &g) * &v == &f * &(&g * &v), c"composition on vectors");
    check(&f * &(&p + &v) == &fp + &fv, c"affine");
    check(&(&p + &v) - &p == v, c"p + v - p = v");
    check(&(&p - &v) + &v == p, c"p - v + v = p");
    let id = AffineMap::<Q, A>::identity(d);
    check(&id * &f == f && &f * &id == f, c"identity is neutral");
    check(id.is_identity(), c"identity is recognised");
    cover(c"end");
}

fn unimod(d: usize) -> Matrix<Q> {
    // determinant 1 or 2, two symbolic entries
    let (x, y, z) = (int(c"x", -3, 3), int(c"y", -3, 3), int(c"z", 1, 3));
    let m = |v: &[i64]| Matrix::new(d, &v.iter().map(|&k| q(k, 1)).collect::<Vec<_>>());
    match d { 1 => m(&[z]), 2 => m(&[x, z, -1, y]), _ => m(&[1, x, 0, 0, 1, y, z, 0, 2]) }
}

#[no_mangle]
pub extern "C-unwind" fn harness_affine_inverse() {
    let d = dim();
    let l = unimod(d);
    let f = AffineMap::<Q, A>::new(&l, &Vector::new(&vec_(c"s", d, 3)));
    let p = Point::<Q, A>::new(&vec_(c"p", d, 3));
    match f.inverse() {
        None => {
            let mut det = if d == 1 { l[(0, 0)].clone() } else { &l[(0, 0)] * &l[(1, 1)] - &l[(0, 1)] * &l[(1, 0)] };
            if d == 3 { det = &l[(0, 0)] * &l[(1, 1)] * &l[(2, 2)] + &l[(0, 1)] * &l[(1, 2)] * &l[(2, 0)]; }
            check(det.is_zero(), c"invertible map has an inverse");
        }
        Some(g) => {
            check((&g * &f).is_identity(), c"f^-1 f = 1");
            check((&f * &g).is_identity(), c"f f^-1 = 1");
            check(&g * &(&f * &p) == p, c"f^-1 (f p) = p");
        }
    }
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_is_identity() {
    let d = dim();
    let l: Vec<i64> = (0..d * d).map(|_| int(c"l", -1, 1)).collect();
    let s: Vec<i64> = (0..d).map(|_| int(c"s", -1, 1)).collect();
    let f = AffineMap::<i64, A>::new(&Matrix::new(d, &l), &Vector::new(&s));
    let want = (0..d).all(|i| s[i] == 0 && (0..d).all(|j| l[i * d + j] == (i == j) as i64));
    check(f.is_identity() == want, c"is_identity");
    observe(c"id", want as i64);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_coordmap() {
    let d = idx(c"dim", 1, 3);
    let l = unimod(d);
    if d == 2 { assume(int_of(&l[(0, 0)]) * int_of(&l[(1, 1)]) + int_of(&l[(0, 1)]) != 0); }
    if d == 3 { assume(int_of(&l[(0, 1)]) * int_of(&l[(1, 2)]) * int_of(&l[(2, 0)]) != -2); }
    let basis: Vec<Vector<Q, B>> = (0..d).map(|j| l.get_col(j).into_iter().collect()).collect();
    let m = CoordinateMap::<Q, A, B>::from_basis(&basis);
    let p = Point::<Q, A>::new(&vec_(c"p", d, 3));
    let v = Vector::<Q, A>::new(&vec_(c"v", d, 3));
    for k in 0..d { check(&m * &Vector::<Q, A>::unit(d, k) == basis[k], c"from_basis maps the k-th unit vector to the k-th basis vector"); }
    let inv = m.inverse();
    check(&inv * &(&m * &p) == p, c"inverse undoes the map on points");
    check(&inv * &(&m * &v) == v, c"inverse undoes the map on vectors");
    check((&inv * &m).is_identity(), c"m^-1 m = 1");
    let m2 = CoordinateMap::<Q, B, C>::new(&AffineMap::new(&Matrix::new(d, &(0..d * d).map(|i| q([1, 1, 0, 0, 1, 1, 0, 0, 1][if d == 2 { [0, 1, 3, 4][i] } else { i }], 1)).collect::<Vec<_>>()), &Vector::new(&vec_(c"t", d, 3))));
    let mm = &m2 * &m;
    check(&mm * &p == &m2 * &(&m * &p), c"composition of coordinate changes");
    check(&mm.inverse() * &(&mm * &p) == p, c"composition carries its inverse");
    // an operation written in the other coordinates does the same thing
    let op = AffineMap::<Q, A>::new(&mat(c"o", d, 1), &Vector::new(&vec_(c"u", d, 3)));
    check((&m2 * &(&m * &op)) * &(&mm * &p) == &mm * &(&op * &p), c"an operation keeps its meaning under a coordinate change");
    check(mm.forward() * &p == inv_coords(&mm, &p), c"forward map");
    let det = m.determinant();
    check(det == { let x = inv.determinant(); Q::one() / x }, c"determinant of the inverse");
    cover(c"end");
}
fn int_of(x: &Q) -> i64 { use num_traits::ToPrimitive; x.to_integer().to_i64().unwrap() }
fn inv_coords(m: &CoordinateMap<Q, A, C>, p: &Point<Q, A>) -> Point<Q, A> { (m * p).into_iter().collect() }

#[no_mangle]
pub extern "C-unwind" fn harness_to_basis() {
    let d = idx(c"dim", 1, 3);
    let l = unimod(d);
    if d == 2 { assume(int_of(&l[(0, 0)]) * int_of(&l[(1, 1)]) + int_of(&l[(0, 1)]) != 0); }
    if d == 3 { assume(int_of(&l[(0, 1)]) * int_of(&l[(1, 2)]) * int_of(&l[(2, 0)]) != -2); }
    let basis: Vec<Vector<Q, A>> = (0..d).map(|j| l.get_col(j).into_iter().collect()).collect();
    let m = CoordinateMap::<Q, A, B>::to_basis(&basis);
    for k in 0..d { check(&m * &basis[k] == Vector::<Q, B>::unit(d, k), c"to_basis maps the k-th basis vector to the k-th unit vector"); }
    cover(c"end");
}

/// lengths and angles do not depend on the coordinate system
#[no_mangle]
pub extern "C-unwind" fn harness_scalar_product() {
    let d = idx(c"dim", 1, 3);
    let (a, b, c) = (int(c"ga", 1, 4), int(c"gb", -2, 2), int(c"gc", -1, 1));
    let g: Vec<i64> = match d { 1 => vec![a], 2 => vec![a, b, b, 5], _ => vec![a + 2, b, c, b, 6, 1, c, 1, 7] };
    let gm = Matrix::new(d, &g.iter().map(|&x| q(x, 1)).collect::<Vec<_>>());
    if d == 2 { assume(5 * a - b * b > 0); }
    let sp = ScalarProduct::<Q, A>::from(gm.clone());
    let u = Vector::<Q, A>::new(&vec_(c"u", d, 3));
    let v = Vector::<Q, A>::new(&vec_(c"v", d, 3));
    let uv = sp.apply(&u, &v);
    let mut s = Q::zero();
    for i in 0..d { for j in 0..d { s += &u[i] * &gm[(i, j)] * &v[j]; } }
    check(uv == s, c"u^T G v");
    check(sp.apply(&v, &u) == uv, c"symmetric");
    let z = int(c"z", 1, 3);
    let m = CoordinateMap::<Q, A, B>::from(Matrix::new(d, &match d { 1 => vec![q(z, 2)], 2 => vec![q(1, 2), q(z, 1), q(0, 1), q(-1, 1)], _ => vec![q(0, 1), q(1, 1), q(z, 1), q(1, 1), q(1, 1), q(0, 1), q(0, 1), q(0, 1), q(2, 3)] }));
    check((&m * &sp).apply(&(&m * &u), &(&m * &v)) == uv, c"invariant under a change of coordinates");
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_scalar_product_refuse() {
    let (a, b, c, e) = (int(c"a", -3, 3), int(c"b", -3, 3), int(c"c", -3, 3), int(c"e", -3, 3));
    let ok = b == c && a > 0 && a * e - b * c > 0;
    allow_panic(!ok);
    let sp = ScalarProduct::<i64, A>::from(Matrix::new(2, &[a, b, c, e]));
    check(ok, c"a scalar product must be symmetric and positive definite");
    observe(c"x", sp[(0, 1)]);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_scalar_product_refuse3() {
    let n = sz(2, 3);
    let d = [1, 3][idx(c"dim", 0, 1)];
    let g: Vec<i64> = if d == 1 { vec![int(c"a", -9, 9)] } else {
        let (x, y, z) = (int(c"x", -n, n), int(c"y", -n, n), int(c"z", -n, n));
        vec![int(c"a", -n, n), x, y, x, 2, z, y, z, int(c"f", -n, n)]
    };
    let det = if d == 1 { g[0] } else { g[0] * (2 * g[8] - g[5] * g[5]) - g[1] * (g[1] * g[8] - g[5] * g[2]) + g[2] * (g[1] * g[5] - 2 * g[2]) };
    let ok = g[0] > 0 && det > 0 && (d == 1 || 2 * g[0] - g[1] * g[1] > 0);
    allow_panic(!ok);
    let sp = ScalarProduct::<i64, A>::from(Matrix::new(d, &g));
    check(ok, c"a scalar product must be positive definite");
    observe(c"x", sp[(0, 0)]);
    cover(c"end");
}

fn fract(x: &Q, y: &Q) -> bool { y >= &Q::zero() && y < &Q::one() && (x - y).is_integer() }

/// reduction modulo lattice translations picks one representative per class
#[no_mangle]
pub extern "C-unwind" fn harness_mod_z() {
    let d = idx(c"dim", 1, 3);
    let s: Vec<Q> = (0..d).map(|i| rat(c"s", 9, i)).collect();
    let far = [0, 1001, -1_000_000_007][idx(c"far", 0, 2)];
    let k: Vec<Q> = (0..d).map(|_| q(int(c"k", -2, 2) + far, 1)).collect();
    let v = Vector::<Q, A>::new(&s);
    let w = &v + &Vector::<Q, A>::new(&k);
    check((0..d).all(|i| (&v[i] - v.mod_z()[i].clone()).is_integer()), c"differs from the original by a lattice vector");
    check(v.mod_z() == w.mod_z(), c"one representative per class");
    check((0..d).all(|i| fract(&v[i], &v.mod_z()[i])), c"representative in [0, 1)");
    let l = mat(c"l", d, 1);
    let f = AffineMap::<Q, A>::new(&l, &v);
    let g = AffineMap::<Q, A>::new(&l, &w);
    check(f.mod_z() == g.mod_z(), c"operations equal modulo lattice translations are identified");
    check(f.mod_z().linear_matrix() == l, c"linear part kept");
    observe(c"n", (v.mod_z()[0] > q(1, 2)) as i64);
    cover(c"end");
}

/// vectors and points are what their coordinates are, in every form of every operation
fn vectors<T>(mk: fn(i64) -> T, u: &[i64], v: &[i64], k: i64, s: T, quot: fn(i64, i64) -> T)
where T: Clone + PartialEq + Zero + One + std::fmt::Display,
    T: for<'a> std::ops::AddAssign<&'a T> + for<'a> std::ops::SubAssign<&'a T> + for<'a> std::ops::MulAssign<&'a T> + for<'a> std::ops::DivAssign<&'a T>,
    Vector<T, A>: std::ops::Neg<Output = Vector<T, A>>,
    for<'a> &'a Vector<T, A>: std::ops::Neg<Output = Vector<T, A>>,
{
    let d = u.len();
    let t = |w: &dyn Fn(usize) -> i64| -> Vec<T> { (0..d).map(|i| mk(w(i))).collect() };
    let same = |x: &Vector<T, A>, w: &[T]| x.dim() == d && (0..d).all(|i| x[i] == w[i]) && x.iter().zip(w).all(|(a, b)| a == b) && x.clone().into_iter().eq(w.iter().cloned());
    let psame = |x: &Point<T, A>, w: &[T]| x.dim() == d && (0..d).all(|i| x[i] == w[i]) && x.iter().zip(w).all(|(a, b)| a == b) && x.clone().into_iter().eq(w.iter().cloned());
    let (cu, cv) = (t(&|i| u[i]), t(&|i| v[i]));
    let (sum, dif) = (t(&|i| u[i] + v[i]), t(&|i| u[i] - v[i]));
    let x = Vector::<T, A>::new(&cu);
    let y: Vector<T, A> = cv.iter().cloned().collect();
    check(same(&x, &cu) && same(&y, &cv) && same(&Vector::from(Matrix::col(&cu)), &cu), c"a vector has the given coordinates");
    check((x == y) == (cu == cv), c"vectors are equal exactly if their coordinates are");
    check(same(&Vector::zero(d), &t(&|_| 0)), c"zero vector");
    for j in 0..d { check(same(&Vector::unit(d, j), &(0..d).map(|i| if i == j { T::one() } else { T::zero() }).collect::<Vec<_>>()), c"unit vectors"); }
    check([&x + &y, &x + y.clone(), x.clone() + &y, x.clone() + y.clone()].iter().all(|r| same(r, &sum)), c"sum of vectors");
    check([&x - &y, &x - y.clone(), x.clone() - &y, x.clone() - y.clone()].iter().all(|r| same(r, &dif)), c"difference of vectors");
    check([-&x, -x.clone()].iter().all(|r| same(r, &t(&|i| -u[i]))), c"negative vector");
    check([&x * &s, &x * s.clone(), x.clone() * &s, x.clone() * s.clone()].iter().all(|r| same(r, &t(&|i| u[i] * k))), c"multiple of a vector");
    if k != 0 {
        let w: Vec<T> = u.iter().map(|&a| quot(a, k)).collect();
        check([&x / &s, &x / s.clone(), x.clone() / &s, x.clone() / s.clone()].iter().all(|r| same(r, &w)), c"quotient of a vector");
    }
    let mut z = x.clone();
    z += &y; check(same(&z, &sum), c"sum in place");
    z -= y.clone(); check(same(&z, &cu), c"difference in place");
    z -= &y; check(same(&z, &dif), c"difference in place");
    z += y.clone(); check(same(&z, &cu), c"sum in place");
    z *= &s; check(same(&z, &t(&|i| u[i] * k)), c"multiple in place");
    if k != 0 { z /= s.clone(); check(same(&z, &cu), c"quotient in place"); z *= s.clone(); z /= &s; check(same(&z, &cu), c"quotient in place"); }
    let mut z = x.clone();
    z[d - 1] = mk(0);
    check(same(&z, &t(&|i| if i + 1 == d { 0 } else { u[i] })), c"assignment to a coordinate");
    let p = Point::<T, A>::new(&cu);
    let r: Point<T, A> = cv.iter().cloned().collect();
    check(psame(&p, &cu) && psame(&r, &cv) && psame(&Point::from(Matrix::col(&cu)), &cu), c"a point has the given coordinates");
    check((p == r) == (cu == cv), c"points are equal exactly if their coordinates are");
    check(psame(&Point::origin(d), &t(&|_| 0)), c"origin");
    check([&p + &y, &p + y.clone(), p.clone() + &y, p.clone() + y.clone()].iter().all(|a| psame(a, &sum)), c"translated point");
    check([&p - &y, &p - y.clone(), p.clone() - &y, p.clone() - y.clone()].iter().all(|a| psame(a, &dif)), c"point translated back");
    check([&p - &r, &p - r.clone(), p.clone() - &r, p.clone() - r.clone()].iter().all(|a: &Vector<T, A>| same(a, &dif)), c"vector between points");
    let mut z = p.clone();
    z += &y; check(psame(&z, &sum), c"translation in place");
    z -= y.clone(); check(psame(&z, &cu), c"translation in place");
    z -= &y; check(psame(&z, &dif), c"translation in place");
    z += y.clone(); check(psame(&z, &cu), c"translation in place");
    let mut z = p.clone();
    z[0] = mk(1);
    check(psame(&z, &t(&|i| if i == 0 { 1 } else { u[i] })), c"assignment to a coordinate");
    observe(c"n", u[0] + v[d - 1]);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_vectors() {
    let d = idx(c"dim", 1, sz(3, 4) as usize);
    let n = if idx(c"size", 0, 1) == 0 { 9 } else { 1_000_000_000_000 };
    let u: Vec<i64> = (0..d).map(|_| int(c"u", -n, n)).collect();
    let v: Vec<i64> = (0..d).map(|_| int(c"v", -n, n)).collect();
    let k = [0, 1, -1, 3, -7][idx(c"k", 0, 4)];
    if idx(c"scalars", 0, 1) == 0 { vectors::<i64>(|a| a, &u, &v, k, k, |a, b| a / b) } else { vectors::<Q>(|a| q(a, 6), &u, &v, k, q(k, 1), |a, b| q(a, 6 * b)) }
}
/// operands of different dimensions are refused
#[no_mangle]
pub extern "C-unwind" fn harness_vectors_refuse() {
    let (d, e) = (idx(c"d", 1, 3), idx(c"e", 1, 3));
    let (cu, cv): (Vec<i64>, Vec<i64>) = ((0..d).map(|_| int(c"u", -9, 9)).collect(), (0..e).map(|_| int(c"v", -9, 9)).collect());
    let (x, y) = (Vector::<i64, A>::new(&cu), Vector::<i64, A>::new(&cv));
    let (p, r) = (Point::<i64, A>::new(&cu), Point::<i64, A>::new(&cv));
    let l: Vec<i64> = (0..d * d).map(|i| i as i64).collect();
    let f = AffineMap::<i64, A>::new(&Matrix::new(d, &l), &x);
    let g = AffineMap::<i64, A>::new(&Matrix::new(e, &(0..e * e).map(|i| i as i64).collect::<Vec<_>>()), &y);
    let what = idx(c"what", 0, 13);
    let bad = d != e;
    allow_panic(bad);
    let mut z = x.clone();
    let mut s = p.clone();
    match what {
        0 => { let _ = &x + &y; }
        1 => { let _ = x.clone() - y; }
        2 => z += &y,
        3 => z -= y,
        4 => { let _ = &p + y; }
        5 => { let _ = p.clone() - &y; }
        6 => s += y,
        7 => s -= &y,
        8 => { let _ = &p - &r; }
        9 => { let _ = p.clone() - r; }
        10 => { let _ = &f * &g; }
        11 => { let _ = &f * &r; }
        12 => { let _ = &f * &y; }
        _ => { let _ = AffineMap::<i64, A>::new(&Matrix::new(d, &l), &y); }
    }
    check(!bad, c"operands of different dimensions are refused");
    cover(c"fit");
}
