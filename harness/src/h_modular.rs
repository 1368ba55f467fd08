// Arithmetic modulo a prime and the exact p-adic linear solver.
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;
use rust_systre::arithmetic::modular_solver::*;

type M = Vec<Vec<i64>>;
fn sym(n: &'static std::ffi::CStr, r: usize, c: usize, lo: i64, hi: i64) -> M { (0..r).map(|_| (0..c).map(|_| int(n, lo, hi)).collect()).collect() }
fn det(a: &M) -> i64 {
    match a.len() {
        1 => a[0][0],
        2 => a[0][0] * a[1][1] - a[0][1] * a[1][0],
        _ => (0..3).map(|j| a[0][j] * (a[1][(j + 1) % 3] * a[2][(j + 2) % 3] - a[1][(j + 2) % 3] * a[2][(j + 1) % 3])).sum(),
    }
}
fn md(x: i64, p: i64) -> i64 { x.rem_euclid(p) }

#[no_mangle]
pub extern "C-unwind" fn harness_modinv() {
    let m = idx(c"m", 2, sz(16, 40) as usize) as i64;
    let a = int(c"a", 0, sz(40, 120));
    let r = modular_inverse(a, m);
    match r {
        Some(x) => {
            check(x >= 0 && x < m, c"inverse is reduced");
            check(md(a * x, m) == 1, c"a a^-1 = 1");
            observe(c"x", x);
        }
        None => {
            // a common divisor exists
            let mut common = false;
            for d in 2..=m { if m % d == 0 { common |= a % d == 0; } }
            check(common, c"units are invertible");
        }
    }
    cover(c"end");
}

/// inverses modulo the solver's own prime
#[no_mangle]
pub extern "C-unwind" fn harness_modinv_large() {
    let p = 9999991;
    let a = int(c"a", 1, 40) * [1, 7919, 249999][idx(c"k", 0, 2)];
    match modular_inverse(a, p) {
        Some(x) => { check(x > 0 && x < p && md(a * x, p) == 1, c"a a^-1 = 1"); observe(c"x", x); }
        None => check(false, c"non-zero residues are invertible"),
    }
    cover(c"end");
}

fn check_echelon(a: &M, p: i64) {
    let (r, c) = (a.len(), a[0].len());
    let e = modular_row_echelon_form(a, p);
    check(e.len() == r && e.iter().all(|x| x.len() == c), c"shape");
    let mut piv = vec![];
    let mut ended = false;
    for i in 0..r {
        for j in 0..c { check(e[i][j] >= 0 && e[i][j] < p, c"entries are reduced"); }
        match (0..c).find(|&j| e[i][j] != 0) {
            Some(j) => {
                check(!ended, c"zero rows come last");
                check(piv.last().map_or(true, |&k| k < j), c"pivots move right");
                check(e[i][j] == 1, c"pivots are one");
                for k in 0..r { check(k == i || e[k][j] == 0, c"pivot columns are clear"); }
                piv.push(j);
            }
            None => ended = true,
        }
    }
    // every row of a is a combination of the rows of e ...
    for i in 0..r {
        for j in 0..c {
            let s: i64 = piv.iter().enumerate().map(|(k, &q)| a[i][q] * e[k][j]).sum();
            check(md(s - a[i][j], p) == 0, c"row space contains the input rows");
        }
    }
    // ... and a has that rank, so the row spaces agree
    let n = piv.len();
    let mut full = n == 0;
    if n == 1 { for i in 0..r { for j in 0..c { full |= md(a[i][j], p) != 0; } } }
    if n == 2 { for i in 0..r { for k in 0..i { for j in 0..c { for l in 0..j { full |= md(a[i][j] * a[k][l] - a[i][l] * a[k][j], p) != 0; } } } } }
    if n == 3 { full = md(det(a), p) != 0; }
    check(full, c"rank");
}

fn pr(k: i64) -> i64 { [2, 3, 5, 7][idx(c"p", 0, k as usize)] }
#[no_mangle]
pub extern "C-unwind" fn harness_modrref22() { let p = pr(3); let mut a = sym(c"a", 2, 2, 0, p - 1); a[0][0] -= p; a[1][0] += p * int(c"k", -2, 2); check_echelon(&a, p); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_modrref23() { let p = pr(sz(2, 3)); let mut a = sym(c"a", 2, 3, 0, p - 1); a[1][1] -= p; check_echelon(&a, p); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_modrref32() { let p = pr(sz(2, 3)); let mut a = sym(c"a", 3, 2, 0, p - 1); a[2][0] -= p; check_echelon(&a, p); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_modrref33() { let p = pr(1); let mut a = sym(c"a", 3, 3, 0, p - 1); a[0][1] -= p; check_echelon(&a, p); cover(c"end"); }

fn check_inverse(a: &M, p: i64) {
    let n = a.len();
    let inv = modular_matrix_inverse(a, p);
    let d = md(det(a), p);
    match inv {
        None => check(d == 0, c"regular matrices have an inverse"),
        Some(b) => {
            check(d != 0, c"singular matrices have no inverse");
            check(b.len() == n && b.iter().all(|x| x.len() == n), c"shape");
            for i in 0..n { for j in 0..n {
                let s: i64 = (0..n).map(|k| a[i][k] * b[k][j]).sum();
                check(b[i][j] >= 0 && b[i][j] < p && md(s - (i == j) as i64, p) == 0, c"a a^-1 = 1");
            } }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn harness_modmatinv() {
    let n = idx(c"n", 1, 3);
    let p = if n == 3 { pr(sz(0, 1)) } else { pr(3) };
    let mut a = sym(c"a", n, n, 0, p - 1);
    a[0][0] -= p;
    check_inverse(&a, p);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_modmatinv_large() {
    let n = idx(c"n", 1, 2);
    let b = if n == 1 { 40 } else { sz(2, 3) };
    let mut a = sym(c"a", n, n, -b, b);
    for r in a.iter_mut() { for x in r.iter_mut() { *x = conc(*x); } }
    check_inverse(&a, 9999991);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_modproducts() {
    let (r, m, c) = (idx(c"r", 1, 2), idx(c"m", 1, 3), idx(c"c", 1, 2));
    let p = [2, 7, 9999991][idx(c"p", 0, 2)];
    // one symbolic row and column each; the others tell positions apart
    let a: M = (0..r).map(|i| (0..m).map(|k| if i == 0 { conc(int(c"a", 0, 1)) * (p - 1) } else { k as i64 + 3 }).collect()).collect();
    let b: M = (0..m).map(|k| (0..c).map(|j| if j == 0 { int(c"b", -4, 4) } else { 5 - 4 * k as i64 }).collect()).collect();
    let x = integer_matrix_product(&a, &b);
    let y = modular_matrix_product(&a, &b, p);
    check(x.len() == r && y.len() == r, c"rows");
    for i in 0..r {
        check(x[i].len() == c && y[i].len() == c, c"columns");
        for j in 0..c {
            let s: i64 = (0..m).map(|k| a[i][k] * b[k][j]).sum();
            check(x[i][j] == s, c"integer product");
            check(y[i][j] > -p && y[i][j] < p && (y[i][j] - s) % p == 0, c"modular product");
        }
    }
    cover(c"end");
}

fn check_solve(a: &M, b: &M) {
    let (n, k) = (a.len(), b[0].len());
    let d = det(a);
    match solve(a, b) {
        None => check(d % 9999991 == 0, c"regular systems have a solution"),
        Some(x) => {
            check(d != 0, c"singular systems are refused");
            check(x.len() == n && x.iter().all(|r| r.len() == k), c"shape");
            for i in 0..n { for j in 0..k {
                let mut s = BigRational::zero();
                for l in 0..n { s += &x[l][j] * BigInt::from(a[i][l]); }
                check(s == BigRational::from(BigInt::from(b[i][j])), c"a x = b");
            } }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn harness_padic1() {
    let w = [1, 100, 5000][idx(c"w", 0, 2)];
    let n = sz(12, 40);
    let k = idx(c"k", 1, 2);
    check_solve(&vec![vec![w * int(c"a", -n, n) + 1]], &sym(c"b", 1, k, -n, n).iter().map(|r| r.iter().map(|x| x * w + 1).collect()).collect());
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_padic2() {
    let n = 2;
    let w = [1, 1000, 40000][idx(c"w", 0, 2)];
    let mut a = sym(c"a", 2, 2, -n, n);
    for r in a.iter_mut() { for x in r.iter_mut() { *x = conc(*x) * w; } }
    a[0][0] += 1;
    a[1][1] += w / 3;
    check_solve(&a, &sym(c"b", 2, 1, -n, n).iter().map(|r| r.iter().map(|x| conc(*x) * w).collect()).collect());
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_padic3() {
    // the weighted Laplacian shape that barycentric placement solves
    let (x, y, z) = (conc(int(c"x", 0, sz(4, 6))), conc(int(c"y", 0, sz(4, 6))), conc(int(c"z", 0, 3)));
    let a = vec![vec![1, 0, 0], vec![-x, x + z, -z], vec![-y, -z, y + z]];
    let n = sz(3, 6);
    check_solve(&a, &vec![vec![0, 0], vec![conc(int(c"s", -n, n)), 1], vec![conc(int(c"t", -n, n)), -2]]);
    cover(c"end");
}

/// determinant modulo 9999991 by elimination
fn det_mod(a: &M) -> i64 {
    let p = 9999991i128;
    let pow = |mut b: i128, mut e: i128| { let mut r = 1; b %= p; while e > 0 { if e % 2 == 1 { r = r * b % p; } b = b * b % p; e /= 2; } r };
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| (x as i128).rem_euclid(p)).collect()).collect();
    let mut d = 1;
    for c in 0..n {
        let r = match (c..n).find(|&r| m[r][c] != 0) { None => return 0, Some(r) => r };
        if r != c { m.swap(r, c); d = p - d; }
        d = d * m[c][c] % p;
        let f = pow(m[c][c], p - 2);
        for i in c + 1..n { let t = m[i][c] * f % p; for j in c..n { m[i][j] = (m[i][j] + (p - t) * m[c][j]) % p; } }
    }
    d as i64
}
fn check_solve_large(a: &M, b: &M) {
    let (n, k) = (a.len(), b[0].len());
    match solve(a, b) {
        None => check(det_mod(a) == 0, c"regular systems have a solution"),
        Some(x) => {
            check(det_mod(a) != 0, c"singular systems are refused");
            check(x.len() == n && x.iter().all(|r| r.len() == k), c"shape");
            for i in 0..n { for j in 0..k {
                let mut s = BigRational::zero();
                for l in 0..n { s += &x[l][j] * BigInt::from(a[i][l]); }
                check(s == BigRational::from(BigInt::from(b[i][j])), c"a x = b");
            } }
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn harness_padic_limits() {
    // around the sizes where one further digit is needed
    let w = [1950i64, 2500, 3162, 6180335, 8000000, 9999991, 19543950000, 27000000000, 31622762000][idx(c"w", 0, 8)];
    let n = sz(2, 5);
    let a = conc(int(c"a", -n, n)) + w;
    let b = (conc(int(c"b", -n, n)) + w) * [1, -1][idx(c"sign", 0, 1)];
    assume(a % 9999991 != 0);
    check_solve_large(&vec![vec![a]], &vec![vec![b]]);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_padic_large() {
    let n = idx(c"n", 4, sz(6, 8) as usize);
    let w = [1, 50, 3000, 100000][idx(c"w", 0, 3)];
    let x = conc(int(c"x", -2, 2));
    let y = conc(int(c"y", 0, 2));
    let a: M = match idx(c"family", 0, 3) {
        // rows nearly orthogonal, so that the determinant is nearly as large as it can be
        0 => (0..n).map(|i| (0..n).map(|j| if (i & j).count_ones() % 2 == 0 { w } else { -w } + (i == j) as i64 * x).collect()).collect(),
        // Vandermonde
        1 => (0..n).map(|i| (0..n).map(|j| (i as i64 + y - 1).pow(j as u32)).collect()).collect(),
        // Laplacian of a wheel with a first row that fixes a point
        2 => (0..n).map(|i| (0..n).map(|j| if i == 0 { (j == 0) as i64 } else if i == j { 3 * w + x } else if j == 0 { -w } else if (i + n + 1 - j) % n == 0 || (j + n + 1 - i) % n == 0 { -w + y } else { 0 }).collect()).collect(),
        // permuted and triangular
        _ => (0..n).map(|i| { let i = (i + 1) % n; (0..n).map(|j| if j < i { x * w } else if i == j { w + y } else { 0 }).collect() }).collect(),
    };
    let b: M = (0..n).map(|i| vec![w + i as i64, if i == 1 { w * x } else { y - 1 }]).collect();
    check_solve_large(&a, &b);
    cover(c"end");
}
