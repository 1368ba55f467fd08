// Exact linear algebra over the rationals.
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::linear_algebra::*;
use rust_systre::arithmetic::matrices::Matrix;

type Q = BigRational;
type V = Vec<Vec<Q>>;

fn q(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
fn den(n: &'static std::ffi::CStr) -> i64 { [1, 2, 3][idx(n, 0, 2)] }
fn see(n: &'static std::ffi::CStr, x: &Q) {
    observe(n, x.numer().to_i64().unwrap_or(-1));
    observe(n, x.denom().to_i64().unwrap_or(-1));
}
fn vv(m: &Matrix<Q>) -> V { let (r, c) = m.shape(); (0..r).map(|i| (0..c).map(|j| m[(i, j)].clone()).collect()).collect() }
fn det(a: &V) -> Q {
    let n = a.len();
    if n == 1 { return a[0][0].clone(); }
    let mut s = Q::zero();
    for j in 0..n {
        let m: V = (1..n).map(|i| (0..n).filter(|&k| k != j).map(|k| a[i][k].clone()).collect()).collect();
        let t = &a[0][j] * det(&m);
        if j % 2 == 0 { s += t } else { s -= t }
    }
    s
}
fn mul(a: &V, b: &V) -> V {
    (0..a.len()).map(|i| (0..b[0].len()).map(|j| { let mut s = Q::zero(); for k in 0..b.len() { s += &a[i][k] * &b[k][j]; } s }).collect()).collect()
}
fn mat(r: usize, c: usize, n: i64, with_den: bool) -> Matrix<Q> {
    let v: Vec<Q> = (0..r * c).map(|i| { let d = if with_den && i == 0 { den(c"den") } else { [1, 2, 1, 3][i % 4] }; q(int(c"m", -n, n), if with_den { d } else { 1 }) }).collect();
    Matrix::new(c, &v)
}
/// rank by determinants of all square submatrices
fn rank(a: &V, ncols: usize) -> usize {
    let n = a.len();
    let sub = |n: usize, k: usize| -> Vec<Vec<usize>> { (0..1usize << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect() };
    let mut best = 0;
    for k in 1..=n.min(ncols) {
        for r in sub(n, k) { for c in sub(ncols, k) {
            if best == k { continue; }
            let m: V = r.iter().map(|&i| c.iter().map(|&j| a[i][j].clone()).collect()).collect();
            if !det(&m).is_zero() { best = k; }
        } }
        if best < k { break; }
    }
    best
}

fn check_rref(a: &Matrix<Q>) {
    let (n, m) = a.shape();
    let r = a.reduced_basis();
    let rows = vv(&r);
    let av = vv(a);
    let k = rank(&av, m);
    check(rows.len() == k, c"as many rows as the rank");
    check(a.rank() == k, c"rank");
    let mut piv = vec![];
    for (i, row) in rows.iter().enumerate() {
        match row.iter().position(|x| !x.is_zero()) {
            None => { check(false, c"zero row in reduced basis"); return; }
            Some(p) => {
                check(i == 0 || p > piv[i - 1], c"pivots move right");
                check(row[p].is_one(), c"pivots are one");
                for l in 0..i { check(rows[l][p].is_zero(), c"entries above a pivot vanish"); }
                piv.push(p);
            }
        }
    }
    for i in 0..n { for j in 0..m {
        let mut s = Q::zero();
        for l in 0..k { s += &av[i][piv[l]] * &rows[l][j]; }
        check(s == av[i][j], c"given row lies in the span of the reduced basis");
    } }
    if n2(a) { for row in &rows { for x in row { see(c"r", x); } } }
}

#[no_mangle]
pub extern "C-unwind" fn harness_rref22() { check_rref(&mat(2, 2, sz(4, 7), true)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_rref23() { check_rref(&mat(2, 3, sz(2, 3), true)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_rref32() { check_rref(&mat(3, 2, sz(2, 3), false)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_rref33() { check_rref(&mat(3, 3, 1, false)); cover(c"end"); }

#[no_mangle]
pub extern "C-unwind" fn harness_qdet() {
    let n = idx(c"n", 1, 3);
    let a = mat(n, n, 9, n < 3);
    let d = a.determinant();
    check(d == det(&vv(&a)), c"determinant");
    see(c"d", &d);
    cover(c"end");
}

fn fam4(k: usize, p: &[i64; 4]) -> Matrix<Q> {
    let [x, y, z, w] = *p;
    let e = [
        [1, 0, 0, x, 0, 2, y, 0, 0, z, 1, 1, w, 0, 1, 3],
        [0, 0, x, 1, 0, y, 1, 2, z, 1, 0, 0, 1, w, 1, 1],
        [x, 1, 1, 0, 1, y, 0, 1, 1, 0, z, 1, 0, 1, 1, w],
    ][k];
    Matrix::new(4, &e.iter().map(|&v| q(v, 1)).collect::<Vec<_>>())
}

#[no_mangle]
pub extern "C-unwind" fn harness_qdet4() {
    let n = sz(1, 2);
    let a = fam4(idx(c"k", 0, 2), &[int(c"x", -n, n), int(c"y", -n, n), int(c"z", -n, n), int(c"w", -n, n)]);
    let d = a.determinant();
    check(d == det(&vv(&a)), c"determinant of a 4x4 matrix");
    see(c"d", &d);
    cover(c"end");
}

fn check_solve(a: &Matrix<Q>, b: &Matrix<Q>) -> bool {
    match a.solve(b) {
        Some(x) => {
            check(x.shape() == (a.shape().1, b.shape().1), c"shape of the solution");
            let y = mul(&vv(a), &vv(&x));
            check(y == vv(b), c"A x = b");
            if n2(a) { for r in vv(&x) { for e in r { see(c"x", &e); } } }
            true
        }
        None => {
            let n = a.shape().1;
            let ab = Matrix::hstack(&[a.clone(), b.clone()]);
            check(rank(&vv(a), n) < rank(&vv(&ab), n + b.shape().1), c"reported unsolvable only if inconsistent");
            false
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_qsolve22() {
    let a = mat(2, 2, sz(2, 3), true);
    let b = Matrix::col(&[q(int(c"x", -3, 3), 1), q(int(c"y", -3, 3), 2)]);
    check_solve(&a, &b);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_qsolve_rect() {
    let (r, c) = [(1, 3), (2, 3), (3, 2)][idx(c"shape", 0, 2)];
    let a = mat(r, c, 1, false);
    let w: V = (0..c).map(|_| vec![q(int(c"w", -2, 2), 1)]).collect();
    let b: Vec<Q> = mul(&vv(&a), &w).into_iter().map(|mut r| r.remove(0)).collect();
    check(check_solve(&a, &Matrix::col(&b)), c"solvable system is solved");
    cover(c"end");
}

fn check_null(a: &Matrix<Q>) {
    let (n, m) = a.shape();
    let k = rank(&vv(a), m);
    match a.null_space() {
        None => check(k == m, c"no null space only for full column rank"),
        Some(z) => {
            check(k < m && z.shape() == (m, m - k), c"dimension of the null space");
            let y = mul(&vv(a), &vv(&z));
            check(y.len() == n && y.iter().all(|r| r.iter().all(|x| x.is_zero())), c"A n = 0");
            check(rank(&vv(&z), m - k) == m - k, c"null vectors are independent");
            for r in vv(&z) { for e in r { see(c"z", &e); } }
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_qnull() {
    let (r, c, n) = [(1, 3, 2), (2, 2, 3), (2, 3, 1), (3, 2, 1), (3, 3, 1)][idx(c"shape", 0, 4)];
    check_null(&mat(r, c, n, false));
    cover(c"end");
}

fn check_inverse(a: &Matrix<Q>) {
    let n = a.shape().0;
    let d = det(&vv(a));
    match a.inverse() {
        None => check(d.is_zero(), c"only singular matrices have no inverse"),
        Some(x) => {
            check(!d.is_zero(), c"singular matrix has no inverse");
            check(x.shape() == (n, n), c"shape of the inverse");
            let y = mul(&vv(a), &vv(&x));
            for i in 0..n { for j in 0..n { check(if i == j { y[i][j].is_one() } else { y[i][j].is_zero() }, c"A A^-1 = 1"); } }
            if n2(a) { see(c"i", &x[(0, 0)]); }
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_qinv2() { check_inverse(&mat(2, 2, sz(4, 6), true)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_qinv3() { check_inverse(&mat(3, 3, 1, false)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_qinv4() {
    let n = sz(1, 2);
    check_inverse(&fam4(idx(c"k", 0, 2), &[int(c"x", -n, n), int(c"y", -n, n), int(c"z", -n, n), int(c"w", -n, n)]));
    cover(c"end");
}

/// the model of the rational numbers that the encoding uses, against the definition
#[no_mangle]
pub extern "C-unwind" fn harness_qmodel() {
    let (a, c) = (int(c"a", -6, 6), int(c"c", -6, 6));
    let (b, d) = (int(c"b", 1, 3), int(c"d", 1, 3));
    let (x, y) = (q(a, b), q(c, d));
    check((x < y) == (a * d < c * b), c"order");
    check((x == y) == (a * d == c * b), c"equality");
    let f = x.floor();
    check(f.is_integer() && f <= x && x < &f + Q::one(), c"floor");
    let r = x.round();
    check(r.is_integer() && (&r - &x).abs() <= q(1, 2), c"round");
    see(c"s", &(&x + &y)); see(c"d", &(&x - &y)); see(c"p", &(&x * &y)); see(c"f", &f); see(c"r", &r);
    if c != 0 { see(c"q", &(&x / &y)); }
    see(c"m", &x.clone().max(y.clone()));
    cover(c"end");
}
/// observed values have to be brought to lowest terms, which is worth it only for small cases
fn n2(a: &Matrix<Q>) -> bool { a.shape() == (1, 3) || a.iter().skip(1).all(|x| x.is_integer()) && a.shape() == (2, 2) && !cfg!(sx_thorough) }

#[no_mangle]
pub extern "C-unwind" fn harness_qsolve33() {
    let k = idx(c"k", 0, 2);
    let n = sz(2, 3);
    let (p, r, s) = (int(c"p", -n, n), int(c"q", -n, n), int(c"r", -n, n));
    let e = [
        [1, p, r, 0, 2, s, 0, 0, 3],
        [p, 1, 2, r, 0, 1, s, 1, 1],
        [2, p, 0, 1, r, 1, 1, s, 3],
    ][k];
    let a = Matrix::new(3, &e.iter().map(|&x| q(x, 1)).collect::<Vec<_>>());
    let b = Matrix::col(&[q(int(c"x", -2, 2), 2), q(1, 1), q(int(c"z", -2, 2), 3)]);
    check_solve(&a, &b);
    cover(c"end");
}

/// arbitrary right-hand sides of systems with more equations than unknowns, and several right-hand sides
#[no_mangle]
pub extern "C-unwind" fn harness_qsolve_over() {
    let (r, c, k) = [(1, 1, 2), (2, 1, 1), (2, 1, 2), (3, 1, 1), (2, 2, 2), (3, 2, 1), (1, 2, 2)][idx(c"shape", 0, 6)];
    let n = if r * (c + k) > 6 { 1 } else { 2 };
    let a = Matrix::new(c, &(0..r * c).map(|_| q(int(c"a", -1, n), 1)).collect::<Vec<_>>());
    let b = Matrix::new(k, &(0..r * k).map(|i| q(int(c"b", -1, n), 1 + (i % 2) as i64)).collect::<Vec<_>>());
    check_solve(&a, &b);
    cover(c"end");
}

/// larger matrices of known reduced form, rows combined with rational factors
#[no_mangle]
pub extern "C-unwind" fn harness_qlarge() {
    let n = idx(c"n", 4, sz(6, 7) as usize);
    let k = n - idx(c"defect", 0, 2);
    let skip = if k == n { 0 } else { idx(c"skip", 0, k) };
    let f = idx(c"f", 0, sz(1, 3) as usize) as i64;
    let big = [1, 99991][idx(c"big", 0, 1)];
    let piv: Vec<usize> = (0..k).map(|i| if i >= skip { i + n - k } else { i }).collect();
    let h: V = (0..k).map(|i| (0..n).map(|j| {
        if piv.contains(&j) || j < piv[i] { q((piv[i] == j) as i64, 1) } else { q((3 * i as i64 + j as i64 + f) % 7 - 3, big + j as i64) }
    }).collect()).collect();
    let c = [q(conc(int(c"c", -1, 2)), 3), q(1, big), q(conc(int(c"e", -1, 1)), 1), q(-5, 2)];
    let rot = idx(c"rot", 0, sz(1, 3) as usize);
    let mut a = h.clone();
    while a.len() < n { let r = a.len(); let x = (0..n).map(|j| &a[0][j] * &c[0] - &a[r / 2][j]).collect(); a.push(x); }
    for i in 0..n {
        let t = (i * 2 + 1 + rot) % n;
        if t != i { for j in 0..n { let x = &a[t][j] * &c[i % 4]; a[i][j] += x; } }
    }
    a.rotate_left(rot % n);
    let m = Matrix::new(n, &a.iter().flatten().cloned().collect::<Vec<_>>());
    check(vv(&m.reduced_basis()) == h, c"reduced form of a larger matrix");
    check(m.rank() == k, c"rank of a larger matrix");
    let d = m.determinant();
    if k < n { check(d.is_zero(), c"determinant of a singular larger matrix"); } else { check(d.abs() == det(&a).abs() && d == det(&a), c"determinant of a larger matrix"); }
    let x: V = (0..n as i64).map(|i| vec![q((i * 3 + f) % 5 - 2, i + 1), q(i - 1, 1)]).collect();
    let b = mul(&a, &x);
    match m.solve(&Matrix::new(2, &b.iter().flatten().cloned().collect::<Vec<_>>())) {
        None => check(false, c"solvable larger system is solved"),
        Some(y) => check(mul(&a, &vv(&y)) == b, c"A x = b"),
    }
    // a right-hand side that fits only if it depends on the columns
    let at = idx(c"row", 0, 1) * (n - 1);
    let b1: V = (0..n).map(|i| vec![&b[i][0] + q((i == at) as i64, 1)]).collect();
    let ext: V = (0..n).map(|i| a[i].iter().chain(&b1[i]).cloned().collect()).collect();
    check(m.solve(&Matrix::new(1, &b1.iter().flatten().cloned().collect::<Vec<_>>())).is_some() == (eliminate(ext) == k), c"solved exactly if consistent");
    match m.null_space() {
        None => check(k == n, c"a singular matrix has a null space"),
        Some(z) => {
            let z = vv(&z);
            check(z.len() == n && z[0].len() == n - k, c"dimension of the null space");
            check(mul(&a, &z).iter().flatten().all(|x| x.is_zero()), c"A n = 0");
            check(rank(&z, n - k) == n - k, c"null vectors are independent");
        }
    }
    match m.inverse() {
        None => check(k < n, c"a regular matrix has an inverse"),
        Some(y) => check(k == n && mul(&a, &vv(&y)) == (0..n).map(|i| (0..n).map(|j| q((i == j) as i64, 1)).collect()).collect::<V>(), c"A A^-1 = 1"),
    }
    cover(c"end");
}
fn eliminate(mut a: V) -> usize {
    let mut r = 0;
    for c in 0..a[0].len() {
        if let Some(p) = (r..a.len()).find(|&i| !a[i][c].is_zero()) {
            a.swap(r, p);
            for i in r + 1..a.len() {
                let f = &a[i][c] / &a[r][c];
                for j in c..a[0].len() { let x = &a[r][j] * &f; a[i][j] -= x; }
            }
            r += 1;
        }
    }
    r
}
/// floating point numbers: the same answers up to rounding, where elimination meets small numbers only
#[no_mangle]
pub extern "C-unwind" fn harness_float() {
    let (n, m) = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)][idx(c"shape", 0, 6)];
    let e: Vec<i64> = if n * m < 6 { (0..n * m).map(|_| conc(int(c"a", -2, 2))).collect() } else {
        // three entries arbitrary
        let f = [[1, 0, -1, 1, 1, 0, 0, 1, 1], [0, 1, 1, 1, 0, 1, -1, 1, 0], [1, 1, 0, -1, -1, 1, 1, 0, 1], [0, 0, 1, 0, 1, -1, 0, 1, 1]][idx(c"family", 0, 3)];
        let k = idx(c"first", 0, sz(1, 2) as usize);
        (0..n * m).map(|i| if i % 3 == k && i / 3 < 3 { conc(int(c"a", -1, 1)) } else { f[i] }).collect()
    };
    let a = Matrix::new(m, &e.iter().map(|&x| qi_(x)).collect::<Vec<Q>>());
    let f = Matrix::new(m, &e.iter().map(|&x| x as f64).collect::<Vec<f64>>());
    let near = |x: f64, y: &Q| { let v = y.numer().to_i64().unwrap() as f64 / y.denom().to_i64().unwrap() as f64; (x - v).abs() < 1e-9 };
    let like = |x: &Matrix<f64>, y: &Matrix<Q>| x.shape() == y.shape() && (0..x.shape().0).all(|i| (0..x.shape().1).all(|j| near(x[(i, j)], &y[(i, j)])));
    check(f.rank() == a.rank(), c"rank over floating point numbers");
    observe(c"rank", a.rank() as i64);
    if n == m { check(near(f.determinant(), &a.determinant()), c"determinant over floating point numbers"); }
    if a.rank() > 0 { check(like(&f.reduced_basis(), &a.reduced_basis()), c"reduced form over floating point numbers"); }
    match (f.null_space(), a.null_space()) { (None, None) => {}, (Some(x), Some(y)) => check(like(&x, &y), c"null space over floating point numbers"), _ => check(false, c"existence of a null space over floating point numbers") }
    if n == m { match (f.inverse(), a.inverse()) { (None, None) => {}, (Some(x), Some(y)) => check(like(&x, &y), c"inverse over floating point numbers"), _ => check(false, c"existence of an inverse over floating point numbers") } }
    let b: Vec<i64> = [[1, 0, -1], [0, 1, 0], [1, 1, 1]][idx(c"rhs", 0, 2)][..n].to_vec();
    let (fb, qb) = (Matrix::col(&b.iter().map(|&x| x as f64).collect::<Vec<f64>>()), Matrix::col(&b.iter().map(|&x| qi_(x)).collect::<Vec<Q>>()));
    match (f.solve(&fb), a.solve(&qb)) {
        (None, None) => {}
        (Some(x), Some(_)) => {
            check(x.shape() == (m, 1), c"shape of a solution over floating point numbers");
            for i in 0..n { let mut s = 0.0; for k in 0..m { s += f[(i, k)] * x[(k, 0)]; } check((s - b[i] as f64).abs() < 1e-9, c"solution over floating point numbers"); }
        }
        _ => check(false, c"existence of a solution over floating point numbers"),
    }
    cover(c"end");
}
fn qi_(n: i64) -> Q { q(n, 1) }
