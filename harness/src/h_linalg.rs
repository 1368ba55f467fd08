// Exact linear algebra over the integers: gcdx, Hermite normal form, rank, determinant, solve, null space, inverse.
use super::sx::*;
use rust_systre::arithmetic::linear_algebra::*;
use rust_systre::arithmetic::matrices::Matrix;

type M = Matrix<i64>;

fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 { let t = a % b; a = b; b = t; }
    a
}

fn det_n(a: &Vec<Vec<i64>>) -> i64 {
    let n = a.len();
    if n == 1 { return a[0][0]; }
    if n == 2 { return a[0][0] * a[1][1] - a[0][1] * a[1][0]; }
    let mut s = 0;
    for j in 0..n {
        let m: Vec<Vec<i64>> = (1..n).map(|i| (0..n).filter(|&k| k != j).map(|k| a[i][k]).collect()).collect();
        let t = a[0][j] * det_n(&m);
        if j % 2 == 0 { s += t } else { s -= t }
    }
    s
}

fn vv(m: &M) -> Vec<Vec<i64>> {
    let (r, c) = m.shape();
    (0..r).map(|i| (0..c).map(|j| m[(i, j)]).collect()).collect()
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// gcd of the k x k minors; equal for two matrices of rank k with one row lattice inside the other iff the lattices are equal
fn minors_gcd(a: &Vec<Vec<i64>>, ncols: usize, k: usize) -> i64 {
    let mut g = 0;
    for r in subsets(a.len(), k) {
        for c in subsets(ncols, k) {
            g = gcd(det_n(&r.iter().map(|&i| c.iter().map(|&j| a[i][j]).collect()).collect()), g);
        }
    }
    g
}

fn check_hnf(a: &M) {
    let (n, m) = a.shape();
    let r = a.reduced_basis();
    let rows = vv(&r);
    check(rows.len() <= n, c"no more rows than given");
    check(rows.len() == 0 || r.shape().1 == m, c"number of columns kept");
    let mut piv = vec![];
    let mut last = 0;
    for (i, row) in rows.iter().enumerate() {
        match row.iter().position(|&x| x != 0) {
            None => { check(false, c"zero row in reduced basis"); return; }
            Some(p) => {
                check(i == 0 || p > last, c"pivots move right");
                check(row[p] > 0, c"positive pivots");
                for k in 0..i { check(0 <= rows[k][p] && rows[k][p] < row[p], c"entries above a pivot are reduced"); }
                last = p;
                piv.push(p);
            }
        }
    }
    for v in vv(a) {
        let mut v = v;
        for (i, &p) in piv.iter().enumerate() {
            check(v[p] % rows[i][p] == 0, c"given row is a combination of the reduced basis (divisibility)");
            let q = v[p] / rows[i][p];
            for k in 0..m { v[k] -= q * rows[i][k]; }
        }
        check(v.iter().all(|&x| x == 0), c"given row is a combination of the reduced basis");
    }
    let k = rows.len();
    check(a.rank() == k, c"rank = size of reduced basis");
    if k > 0 {
        if k == n && n == m {
            let mut p = 1;
            for i in 0..k { p *= rows[i][piv[i]]; }
            let d = det_n(&vv(a));
            check(d == p || d == -p, c"same lattice volume");
        } else {
            check(minors_gcd(&rows, m, k) == minors_gcd(&vv(a), m, k), c"same lattice (determinantal divisors)");
        }
    }
    for row in &rows { for &x in row { observe(c"r", x); } }
}

#[no_mangle]
pub extern "C-unwind" fn harness_gcdx() {
    let n = sz(40, 150);
    let a = int(c"a", -n, n);
    let b = int(c"b", -n, n);
    let (g, r, s, t, u) = gcdx(a, b);
    check(g == r * a + s * b, c"g = r a + s b");
    check(0 == t * a + u * b, c"0 = t a + u b");
    let d = r * u - s * t;
    check(d == 1 || d == -1, c"unimodular");
    if g != 0 { check(a % g == 0 && b % g == 0, c"g divides a and b"); } else { check(a == 0 && b == 0, c"g = 0 only for 0, 0"); }
    cover(c"end");
    observe(c"g", g);
}

#[no_mangle]
pub extern "C-unwind" fn harness_hnf22() {
    let n = sz(7, 12);
    let e: Vec<i64> = vec![int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n)];
    let a = Matrix::new(2, &e);
    check_hnf(&a);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_hnf23() {
    let n = sz(2, 3);
    let e: Vec<i64> = vec![int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n), int(c"e", -n, n), int(c"f", -n, n)];
    check_hnf(&Matrix::new(3, &e));
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_hnf32() {
    let n = sz(2, 3);
    let e: Vec<i64> = vec![int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n), int(c"e", -n, n), int(c"f", -n, n)];
    check_hnf(&Matrix::new(2, &e));
    cover(c"end");
}

fn m33(lo: i64, hi: i64) -> M {
    Matrix::new(3, &[
        int(c"a", lo, hi), int(c"b", lo, hi), int(c"c", lo, hi),
        int(c"d", lo, hi), int(c"e", lo, hi), int(c"f", lo, hi),
        int(c"g", lo, hi), int(c"h", lo, hi), int(c"i", lo, hi),
    ])
}

#[no_mangle]
pub extern "C-unwind" fn harness_hnf33() { check_hnf(&m33(-1, 1)); cover(c"end"); }

/// 3x3 triangular-ish input with large entries: exercises the reduction above the pivots
#[no_mangle]
pub extern "C-unwind" fn harness_hnf_upper() {
    let p = int(c"p", 1, 4); let q = int(c"q", 1, 4); let r = int(c"r", 1, 4);
    let n = sz(9, 20);
    let x = int(c"x", -n, n); let y = int(c"y", -n, n); let z = int(c"z", -n, n);
    check_hnf(&Matrix::new(3, &[p, x, y, 0, q, z, 0, 0, r]));
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_det() {
    let n = idx(c"n", 1, 3);
    let v: Vec<i64> = (0..n * n).map(|_| int(c"m", -20, 20)).collect();
    let a = Matrix::new(n, &v);
    let d = a.determinant();
    check(d == det_n(&vv(&a)), c"determinant");
    observe(c"d", d);
    cover(c"end");
}

/// 4x4 determinant goes through the triangulation: permuted / sheared blocks
#[no_mangle]
pub extern "C-unwind" fn harness_det4() {
    let n = sz(2, 3);
    let (a, b, c, d) = (int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n));
    let e = int(c"e", -1, n - 1);
    let k = idx(c"perm", 0, 5);
    let base = [[a, b, 0, e], [c, d, 0, 1], [0, 1, 2, 0], [1, 0, e, -1]];
    let p = [[0, 1, 2, 3], [1, 0, 3, 2], [3, 0, 1, 2], [2, 3, 0, 1], [3, 2, 1, 0], [0, 2, 1, 3]][k];
    let mut v = vec![];
    for i in 0..4 { for j in 0..4 { v.push(base[p[i]][j]); } }
    let m = Matrix::new(4, &v);
    let x = m.determinant();
    check(x == det_n(&vv(&m)), c"determinant of a 4x4 matrix");
    observe(c"d", x);
    cover(c"end");
}

fn check_solve(a: &M, b: &M) -> bool {
    match a.solve(b) {
        Some(x) => {
            check(x.shape() == (a.shape().1, b.shape().1), c"shape of the solution");
            let (a, b, x) = (vv(a), vv(b), vv(&x));
            for i in 0..a.len() { for j in 0..b[0].len() {
                let mut s = 0;
                for k in 0..x.len() { s += a[i][k] * x[k][j]; }
                check(s == b[i][j], c"A x = b");
            } }
            for r in &x { for &e in r { observe(c"x", e); } }
            true
        }
        None => { observe(c"none", 1); false }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_solve22() {
    let n = sz(2, 3);
    let a = Matrix::new(2, &[int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n)]);
    let b = Matrix::new(1, &[int(c"x", -6, 6), int(c"y", -6, 6)]);
    check_solve(&a, &b);
    cover(c"end");
}

/// completeness: b = A w for an arbitrary integer vector w, so a solution exists
#[no_mangle]
pub extern "C-unwind" fn harness_solve_complete() {
    let n = sz(2, 3);
    let (p, q, r, s) = (int(c"a", -n, n), int(c"b", -n, n), int(c"c", -n, n), int(c"d", -n, n));
    let (x, y) = (int(c"x", -3, 3), int(c"y", -3, 3));
    let a = Matrix::new(2, &[p, q, r, s]);
    let b = Matrix::new(1, &[p * x + q * y, r * x + s * y]);
    check(check_solve(&a, &b), c"solvable system is solved");
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_solve_rect() {
    let k = idx(c"shape", 0, 2);
    let (r, c) = [(1, 3), (2, 3), (3, 2)][k];
    let e: Vec<i64> = (0..r * c).map(|_| int(c"m", -1, 1)).collect();
    let w: Vec<i64> = (0..c).map(|_| int(c"w", -2, 2)).collect();
    let a = Matrix::new(c, &e);
    let b: Vec<i64> = (0..r).map(|i| (0..c).map(|j| e[i * c + j] * w[j]).sum()).collect();
    check(check_solve(&a, &Matrix::col(&b)), c"solvable rectangular system is solved");
    cover(c"end");
}

fn check_null(a: &M) {
    let (n, m) = a.shape();
    let k = a.rank();
    match a.null_space() {
        None => { check(k == m, c"no null space only for full column rank"); observe(c"none", 1); }
        Some(z) => {
            check(z.shape() == (m, m - k), c"dimension of the null space");
            check(k < m, c"null space not empty");
            let (av, zv) = (vv(a), vv(&z));
            for i in 0..n { for j in 0..m - k {
                let mut s = 0;
                for l in 0..m { s += av[i][l] * zv[l][j]; }
                check(s == 0, c"A n = 0");
            } }
            let zt: Vec<Vec<i64>> = (0..m - k).map(|j| (0..m).map(|i| zv[i][j]).collect()).collect();
            check(minors_gcd(&zt, m, m - k) == 1, c"the basis spans every integer solution");
            for r in &zv { for &e in r { observe(c"z", e); } }
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_null() {
    let k = idx(c"shape", 0, 3);
    let (r, c, b) = [(1, 3, 3), (2, 2, 3), (2, 3, 1), (3, 2, 1)][k];
    let e: Vec<i64> = (0..r * c).map(|_| int(c"m", -b, b)).collect();
    check_null(&Matrix::new(c, &e));
    cover(c"end");
}

fn check_inverse(a: &M) {
    let n = a.shape().0;
    let d = det_n(&vv(a));
    match a.inverse() {
        None => { check(d != 1 && d != -1, c"a unimodular matrix has an inverse"); observe(c"none", 1); }
        Some(x) => {
            check(d == 1 || d == -1, c"only unimodular matrices have an inverse");
            check(x.shape() == (n, n), c"shape of the inverse");
            let (a, x) = (vv(a), vv(&x));
            for i in 0..n { for j in 0..n {
                let mut s = 0;
                for k in 0..n { s += a[i][k] * x[k][j]; }
                check(s == (i == j) as i64, c"A A^-1 = 1");
            } }
        }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_inv2() {
    check_inverse(&Matrix::new(2, &[int(c"a", -5, 5), int(c"b", -5, 5), int(c"c", -5, 5), int(c"d", -5, 5)]));
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_inv3() { check_inverse(&m33(-1, 1)); cover(c"end"); }

/// 4x4 and 4x5: a shuffled triangular basis with symbolic entries next to the pivots
#[no_mangle]
pub extern "C-unwind" fn harness_hnf44() {
    let k = idx(c"k", 0, 3);
    let (x, y, z) = (int(c"x", -4, 4), int(c"y", -4, 4), int(c"z", -4, 4));
    let p = int(c"p", 1, 3);
    let rows = [
        [[1, 0, 0, x], [0, 1, 0, y], [0, 0, 1, z], [0, 0, 0, p]],
        [[0, 0, 1, z], [1, x, 0, 0], [0, p, 0, y], [0, 0, 0, 2]],
        [[0, 0, 0, p], [0, 2, x, 1], [0, 0, 2, y], [1, 0, z, 0]],
        [[1, 1, x, 0], [1, 1, y, 2], [0, p, 0, 1], [0, 0, z, 1]],
    ][k];
    let v: Vec<i64> = rows.iter().flat_map(|r| r.iter().cloned()).collect();
    check_hnf(&Matrix::new(4, &v));
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_solve33() {
    let k = idx(c"k", 0, 2);
    let n = sz(1, 2);
    let (p, q, r) = (int(c"p", -n, n), int(c"q", -n, n), int(c"r", -n, n));
    let w = [int(c"x", -3, 3), int(c"y", -3, 3), int(c"z", -3, 3)];
    let e = [
        [1, p, q, 0, 2, r, 0, 0, 3],
        [p, 1, 2, q, 0, 1, r, 1, 1],
        [2, p, 0, 1, q, 1, 1, r, 3],
    ][k];
    let b: Vec<i64> = (0..3).map(|i| (0..3).map(|j| e[i * 3 + j] * w[j]).sum()).collect();
    check(check_solve(&Matrix::new(3, &e), &Matrix::col(&b)), c"solvable 3x3 system is solved");
    cover(c"end");
}

/// any number of right-hand sides, mostly inconsistent; a solution over the integers is one over the rationals
#[no_mangle]
pub extern "C-unwind" fn harness_solve_over() {
    let (r, c, k) = [(1, 1, 2), (2, 1, 1), (2, 1, 2), (3, 1, 1), (2, 2, 2), (3, 2, 1)][idx(c"shape", 0, 5)];
    let n = if r * (c + k) > 6 { 1 } else { 2 };
    let a: Vec<i64> = (0..r * c).map(|_| int(c"a", -1, n)).collect();
    let b: Vec<i64> = (0..r * k).map(|_| int(c"b", -1, n)).collect();
    check_solve(&Matrix::new(c, &a), &Matrix::new(k, &b));
    cover(c"end");
}

/// a matrix of rank k in Hermite normal form, with pivots that leave out a column if k < n
fn hermite(n: usize, k: usize, skip: usize, w: i64, f: usize) -> Vec<Vec<i64>> {
    let piv: Vec<usize> = (0..k).map(|i| if i >= skip { i + n - k } else { i }).collect();
    let p = |i: usize| [1, 2, 1, 3, w, 1, 4, 1][(i + f) % 8];
    (0..k).map(|i| (0..n).map(|j| {
        if j < piv[i] { 0 } else if j == piv[i] { p(i) } else {
            match piv.iter().position(|&x| x == j) { Some(l) => (7 * i + 3 * j + f) as i64 % p(l), None => ((i + 2 * j + f) % 5) as i64 - 2 }
        }
    }).collect()).collect()
}
/// the same rows combined into n rows that span the same lattice
fn mixed(h: &Vec<Vec<i64>>, n: usize, c: &[i64], rot: usize) -> Vec<Vec<i64>> {
    let mut a = h.clone();
    while a.len() < n { let r = a.len(); let x = (0..a[0].len()).map(|j| a[0][j] * c[0] - a[r / 2][j]).collect(); a.push(x); }
    for i in 0..n {
        let t = (i * 2 + 1 + rot) % n;
        if t != i { for j in 0..a[0].len() { let x = a[t][j]; a[i][j] += c[i % c.len()] * x; } }
    }
    a.rotate_left(rot % n);
    a
}
fn flat(a: &Vec<Vec<i64>>) -> Vec<i64> { a.iter().flatten().cloned().collect() }

/// larger matrices of known Hermite normal form
#[no_mangle]
pub extern "C-unwind" fn harness_hnf_large() {
    let n = idx(c"n", 4, sz(6, 7) as usize);
    let k = n - idx(c"defect", 0, 2);
    let w = [2, sz(1009, 97)][idx(c"w", 0, 1)];
    let skip = idx(c"skip", 0, if k == n { 0 } else { k });
    let h = hermite(n, k, skip, w, idx(c"f", 0, sz(1, 7) as usize));
    let c = [conc(int(c"c", -1, 1)), 1, conc(int(c"e", -sz(1, 2), 2))];
    let rot = idx(c"rot", 0, sz(1, 2) as usize);
    let a = mixed(&h, n, &c, rot);
    let m = Matrix::new(n, &flat(&a));
    check(vv(&m.reduced_basis()) == h, c"Hermite normal form of a larger matrix");
    check(m.rank() == k, c"rank of a larger matrix");
    let d = m.determinant();
    if k < n { check(d == 0, c"determinant of a singular larger matrix"); } else { check(d.abs() == (0..n).map(|i| h[i][i]).product::<i64>() && d == det_n(&a), c"determinant of a larger matrix"); }
    // solving
    let x: Vec<i64> = (0..n).map(|i| (i as i64 * 3 + c[2]) % 5 - 2).collect();
    let b: Vec<i64> = a.iter().map(|r| r.iter().zip(&x).map(|(p, q)| p * q).sum()).collect();
    check(check_solve(&m, &Matrix::col(&b)), c"solvable larger system is solved");
    // the null space of the transposed matrix has as many vectors as rows are redundant
    match m.null_space() {
        None => check(k == n, c"a singular matrix has a null space"),
        Some(z) => {
            let z = vv(&z);
            check(z.len() == n && z[0].len() == n - k, c"dimension of the null space");
            for r in &a { for j in 0..n - k { check((0..n).map(|i| r[i] * z[i][j]).sum::<i64>() == 0, c"A n = 0"); } }
            check(minors_gcd(&z, n - k, n - k) == 1, c"the null space is primitive");
        }
    }
    let inv = m.inverse();
    if k < n { check(inv.is_none(), c"a singular matrix has no inverse"); }
    cover(c"end");
}
/// inverses of larger unimodular matrices, and matrices that have none
#[no_mangle]
pub extern "C-unwind" fn harness_inv_large() {
    let n = idx(c"n", 4, sz(6, 7) as usize);
    let c = [conc(int(c"c", -2, 2)), -1, conc(int(c"e", -1, 1)), 1];
    let p = [1, -1, 2][idx(c"p", 0, 2)];
    let at = idx(c"at", 0, n - 1);
    let h: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| if i == j { if i == at { p } else { 1 } } else { 0 }).collect()).collect();
    check_inverse(&Matrix::new(n, &flat(&mixed(&h, n, &c, idx(c"rot", 0, sz(1, 6) as usize)))));
    cover(c"end");
}
/// greatest common divisors of large numbers
#[no_mangle]
pub extern "C-unwind" fn harness_gcdx_large() {
    let g = [1, 12, 65536, 2_147_483_648][idx(c"g", 0, 3)];
    let w = [7, 32749, 46341, 1_000_003][idx(c"w", 0, 3)];
    let n = sz(3, 10);
    let (a, b) = (g * (w + conc(int(c"a", -n, n))), g * (1346269 + conc(int(c"b", -n, n))) * [1, -1][idx(c"sign", 0, 1)]);
    let (a, b) = if idx(c"swap", 0, 1) == 0 { (a, b) } else { (b, a) };
    let (d, r, s, t, u) = gcdx(a, b);
    let x = |p: i64, q: i64| p as i128 * q as i128;
    check(d as i128 == x(r, a) + x(s, b), c"g = r a + s b");
    check(0 == x(t, a) + x(u, b), c"0 = t a + u b");
    check((x(r, u) - x(s, t)).abs() == 1, c"unimodular");
    check(d != 0 && a % d == 0 && b % d == 0, c"g divides a and b");
    cover(c"end");
}
