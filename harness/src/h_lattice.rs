// Lattice reduction and lattices spanned by rational vectors.
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, ToPrimitive, Zero};
use rust_systre::spacegroups::lattices::*;

type Q = BigRational;
type V = Vec<Q>;
fn q(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
fn qi(n: i64) -> Q { q(n, 1) }
fn vq(v: &[i64]) -> V { v.iter().map(|&x| qi(x)).collect() }
fn vi(v: &[Q]) -> Vec<i64> { v.iter().map(|x| { check(x.is_integer(), c"lattice vectors stay lattice vectors"); conc(x.to_integer().to_i64().unwrap()) }).collect() }
/// tolerance: zero, or one too small to matter for the numbers that occur
fn tol() -> Q { if idx(c"tol", 0, 1) == 0 { Q::zero() } else { q(1, 10000000) } }
fn form(g: &[V], v: &[Q], w: &[Q]) -> Q {
    let mut s = Q::zero();
    for i in 0..v.len() { for j in 0..w.len() { if !v[i].is_zero() && !w[j].is_zero() { s += &v[i] * &w[j] * &g[i][j]; } } }
    s
}
fn det(m: &[Vec<i64>]) -> i64 {
    match m.len() {
        1 => m[0][0],
        2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
        _ => m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]),
    }
}
fn boxed(d: usize, b: i64) -> Vec<Vec<i64>> {
    let mut r = vec![vec![]];
    for _ in 0..d { r = r.iter().flat_map(|v: &Vec<i64>| (-b..=b).map(move |x| { let mut w = v.clone(); w.push(x); w })).collect(); }
    r
}
fn comb(x: &[i64], b: &[Vec<i64>]) -> Vec<i64> { (0..b[0].len()).map(|k| (0..x.len()).map(|i| x[i] * b[i][k]).sum()).collect() }
/// |v| is at most |w|, both with coefficients known on this path
fn shorter(g: &[V], v: &[i64], w: &[i64]) -> bool { form(g, &vq(v), &vq(v)) <= form(g, &vq(w), &vq(w)) }

/// Gram matrix of an arbitrary lattice basis e1, e2, e3 forming an obtuse superbase with e4 = -e1-e2-e3;
/// every lattice has such a basis, so up to the choice of basis these are all lattices
fn obtuse3(b: i64) -> Vec<V> {
    let p: Vec<i64> = (0..6).map(|_| int(c"p", 0, b)).collect();
    obtuse3_of(&p)
}
fn obtuse3_of(p: &[i64]) -> Vec<V> {
    let (p12, p13, p14, p23, p24, p34) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    // positive definite: the graph of the positive parameters connects all four vectors
    assume(p12 + p13 + p14 > 0 && p12 + p23 + p24 > 0 && p13 + p23 + p34 > 0 && p14 + p24 + p34 > 0);
    assume(p13 + p14 + p23 + p24 > 0 && p12 + p14 + p23 + p34 > 0 && p12 + p13 + p24 + p34 > 0);
    let o = |x: i64| qi(-x);
    vec![vec![qi(p12 + p13 + p14), o(p12), o(p13)], vec![o(p12), qi(p12 + p23 + p24), o(p23)], vec![o(p13), o(p23), qi(p13 + p23 + p34)]]
}
fn obtuse2(p: &[i64]) -> Vec<V> {
    assume(p[0] + p[1] > 0 && p[0] + p[2] > 0 && p[1] + p[2] > 0);
    vec![vec![qi(p[0] + p[1]), qi(-p[0])], vec![qi(-p[0]), qi(p[0] + p[2])]]
}
fn change(d: usize, n: i64) -> Vec<Vec<i64>> {
    let mut u: Vec<Vec<i64>> = (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect();
    let mut add = |i: usize, j: usize, k: i64| { for c in 0..d { let t = u[j][c]; u[i][c] += k * t; } };
    if d == 2 {
        add(0, 1, conc(int(c"u", -n, n)));
        add(1, 0, conc(int(c"u", -n, n)));
    } else {
        add(0, 1, conc(int(c"u", -n, n)));
        add(1, 2, conc(int(c"u", -n, n)));
        add(2, 0, conc(int(c"u", -n, n)));
    }
    u
}

/// shortest vector of each class of lattice vectors modulo 2 (Voronoi: these decide the Dirichlet domain)
fn check_dirichlet(g: &[V], ws: &[Vec<i64>], d: usize) {
    check(ws.len() == if d == 2 { 3 } else { 7 }, c"number of Dirichlet vectors");
    let b: Vec<Vec<i64>> = ws[..d].to_vec();
    check(det(&b).abs() == 1, c"the first vectors form a basis");
    let odd = |w: &[i64]| w.iter().fold(0, |n, x| 2 * n + x.rem_euclid(2)) as usize;
    for (i, w) in ws.iter().enumerate() { check(odd(w) != 0 && ws[..i].iter().all(|v| odd(v) != odd(w)), c"one vector for each class modulo 2"); }
    for x in boxed(d, 2) {
        let y = comb(&x, &b);
        if let Some(w) = ws.iter().find(|w| odd(w) == odd(&y)) { check(shorter(g, w, &y), c"shortest in its class modulo 2"); }
    }
}
fn check_reduced(g: &[V], a: &[Vec<i64>], d: usize) {
    check(a.len() == d && det(a).abs() == 1, c"a basis of the lattice");
    let zero = |v: &[i64]| v.iter().all(|x| *x == 0);
    for x in boxed(d, 2) {
        if zero(&x) { continue; }
        let y = comb(&x, a);
        // the last nonzero coefficient decides which basis vector y may not undercut
        let k = (0..d).rev().find(|&i| x[i] != 0).unwrap();
        check(shorter(g, &a[k], &y), c"basis vectors are successively shortest");
    }
    for k in 1..d { check(shorter(g, &a[k - 1], &a[k]), c"sorted by length"); check(form(g, &vq(&a[0]), &vq(&a[k])) <= Q::zero(), c"obtuse to the first vector"); }
}

#[no_mangle]
pub extern "C-unwind" fn harness_dirichlet3() {
    let g = obtuse3(1000);
    let u: Vec<V> = change(3, sz(1, 2)).iter().map(|v| vq(v)).collect();
    let ws: Vec<Vec<i64>> = dirichlet_vectors(&u, |v, w| form(&g, v, w), &tol()).iter().map(|v| vi(v)).collect();
    check_dirichlet(&g, &ws, 3);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced3() {
    // one or two free parameters; the others fixed by a choice of lattice
    let fam: [[i64; 6]; 6] = [[0, 0, 1, 0, 1, 1], [1, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 0], [3, 1, 4, 1, 5, 9], [2, 0, 0, 2, 0, 2], [0, 0, 2, 3, 0, 5]];
    let mut p = fam[idx(c"lattice", 0, fam.len() - 1)];
    let k = idx(c"free", 0, 5);
    p[k] = int(c"x", 0, 1000);
    let l = idx(c"free", 0, 5);
    if l > k { p[l] = int(c"y", 0, 1000); } else { assume(l == k); }
    let g = obtuse3_of(&p);
    let u: Vec<V> = [vec![vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 1]], vec![vec![1, 1, 0], vec![0, 1, 1], vec![0, 0, 1]]][idx(c"basis", 0, sz(0, 1) as usize)].iter().map(|v| vq(v)).collect();
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &Q::zero());
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 3);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced3_setting() {
    let fam: [[i64; 6]; 6] = [[0, 0, 1, 0, 1, 1], [1, 1, 1, 1, 1, 1], [0, 1, 1, 1, 1, 0], [3, 1, 4, 1, 5, 9], [2, 0, 0, 2, 0, 2], [0, 0, 2, 3, 0, 5]];
    let g = obtuse3_of(&fam[idx(c"lattice", 0, fam.len() - 1)]);
    let u: Vec<V> = change(3, sz(2, 3)).iter().map(|v| vq(v)).collect();
    let e = tol();
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &e);
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 3);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced2() {
    let p: Vec<i64> = (0..3).map(|_| conc(int(c"p", 0, sz(4, 7)))).collect();
    let g = obtuse2(&p);
    let u: Vec<V> = change(2, sz(2, 3)).iter().map(|v| vq(v)).collect();
    let e = tol();
    let ws: Vec<Vec<i64>> = dirichlet_vectors(&u, |v, w| form(&g, v, w), &e).iter().map(|v| vi(v)).collect();
    check_dirichlet(&g, &ws, 2);
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &e);
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 2);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced_line() {
    // rank one, and vectors that span no lattice
    let x = int(c"x", -50, 50);
    assume(x != 0);
    let one = vec![vec![q(x, 3)]];
    let dot = |v: &[Q], w: &[Q]| { let mut s = Q::zero(); for i in 0..v.len() { s += &v[i] * &w[i]; } s };
    check(dirichlet_vectors(&one, dot, &Q::zero()) == one, c"Dirichlet vectors of a line");
    check(reduced_lattice_basis(&one, dot, &Q::zero()) == Some(one.clone()), c"reduced basis of a line");
    cover(c"end");
}

/// unit basis sheared many times in turn, so that reduction needs about as many steps
fn skewed(d: usize, n: usize, k: i64, l: i64) -> Vec<V> {
    let mut u: Vec<Vec<i64>> = (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect();
    for s in 0..n {
        let (i, j) = (s % d, (s + 1) % d);
        let f = if s % 3 == 2 { l } else { k };
        for c in 0..d { let t = u[j][c]; u[i][c] += f * t; }
    }
    u.iter().map(|v| vq(v)).collect()
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced_skew2() {
    let f = [[0, 1, 1], [1, 1, 1], [1, 3, 2], [0, 5, 1]][idx(c"lattice", 0, 3)];
    let mut p = f.to_vec();
    p[idx(c"free", 0, 2)] = conc(int(c"p", 0, sz(3, 9)));
    let g = obtuse2(&p);
    let u = skewed(2, 4 + 2 * idx(c"shears", 0, sz(3, 5) as usize), conc(int(c"u", 1, 2)), conc(int(c"u", -2, 2)));
    let e = tol();
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &e);
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 2);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_reduced_skew3() {
    let fam: [[i64; 6]; 4] = [[0, 0, 1, 0, 1, 1], [1, 1, 1, 1, 1, 1], [3, 1, 4, 1, 5, 9], [0, 0, 2, 3, 0, 5]];
    let g = obtuse3_of(&fam[idx(c"lattice", 0, 3)]);
    let u = skewed(3, 6 + 3 * idx(c"shears", 0, sz(2, 4) as usize), conc(int(c"u", 1, 2)), conc(int(c"u", -2, 2)));
    let e = tol();
    let ws: Vec<Vec<i64>> = dirichlet_vectors(&u, |v, w| form(&g, v, w), &e).iter().map(|v| vi(v)).collect();
    check_dirichlet(&g, &ws, 3);
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &e);
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 3);
    cover(c"end");
}

fn gram(k: usize) -> (usize, Vec<V>) {
    match k {
        0 => (2, obtuse2(&[0, 1, 1])),
        1 => (2, obtuse2(&[1, 1, 1])),
        2 => (2, obtuse2(&[1, 3, 2])),
        3 => (3, obtuse3_of(&[0, 0, 1, 0, 1, 1])),
        4 => (3, obtuse3_of(&[1, 1, 1, 1, 1, 1])),
        5 => (3, obtuse3_of(&[0, 1, 1, 1, 1, 0])),
        _ => (3, obtuse3_of(&[1, 0, 2, 1, 0, 3])),
    }
}
fn check_shift(k: usize, b: i64) {
    let (d, g) = gram(k);
    let e: Vec<V> = (0..d).map(|i| (0..d).map(|j| qi((i == j) as i64)).collect()).collect();
    let dot = |v: &[Q], w: &[Q]| form(&g, v, w);
    let eps = if d == 2 { tol() } else { Q::zero() };
    let vs = dirichlet_vectors(&e, dot, &eps);
    let m = [1, 2, 3, 4, 6][idx(c"den", 0, 4)];
    let p: V = (0..d).map(|i| q(int(c"x", -b, b), if i == 0 { m } else { [2, 3, 1][i % 3] })).collect();
    let s = shift_for_dirichlet_domain(&p, &vs, dot, &eps);
    check(s.len() == d && s.iter().all(|x| x.is_integer()), c"the shift is a lattice vector");
    let r: V = (0..d).map(|i| &p[i] + &s[i]).collect();
    for x in boxed(d, 2) {
        let x = vq(&x);
        let t = form(&g, &x, &x) + form(&g, &x, &r) * qi(2);
        check(!t.is_negative(), c"no lattice translate is closer to the origin");
    }
}
#[no_mangle]
pub extern "C-unwind" fn harness_dirichlet_shift2() { check_shift(idx(c"lattice", 0, 2), sz(9, 20)); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_dirichlet_shift3() { check_shift(idx(c"lattice", 3, 6), sz(3, 4)); cover(c"end"); }

/// order of the group generated by the vectors modulo integers, with all numerators over one denominator
fn closure(vs: &[Vec<i64>], m: i64) -> usize {
    let d = vs[0].len();
    let mut all = vec![vec![0; d]];
    let mut i = 0;
    while i < all.len() {
        for v in vs {
            let w: Vec<i64> = (0..d).map(|k| (all[i][k] + v[k]).rem_euclid(m)).collect();
            if !all.contains(&w) { all.push(w); }
        }
        i += 1;
    }
    all.len()
}
fn check_lattice(vs: &[Vec<i64>], m: i64) {
    let d = vs[0].len();
    let input: Vec<V> = vs.iter().map(|v| v.iter().map(|&x| q(x, m)).collect()).collect();
    let b = rational_lattice_basis(&input);
    check(b.len() == d && b.iter().all(|v| v.len() == d), c"full rank");
    let mut dt = qi(1);
    for i in 0..d {
        check(b[i][i].is_positive(), c"right-handed");
        for j in 0..i { check(b[i][j].is_zero(), c"triangular"); }
        dt *= &b[i][i];
    }
    // every generator is an integral combination of the basis
    for k in 0..d + vs.len() {
        let mut v: V = if k < d { (0..d).map(|j| qi((j == k) as i64)).collect() } else { input[k - d].clone() };
        for i in 0..d {
            let f = &v[i] / &b[i][i];
            check(f.is_integer(), c"every given vector and every unit vector is in the lattice of the basis");
            for j in i..d { v[j] = &v[j] - &b[i][j] * &f; }
        }
    }
    check(dt * qi(closure(vs, m) as i64) == qi(1), c"the basis spans nothing else");
}
#[no_mangle]
pub extern "C-unwind" fn harness_lattice2() {
    let m = [1, 2, 3, 4, 6, 5, 8][idx(c"den", 0, sz(4, 6) as usize)];
    let n = idx(c"count", 1, 2);
    let b = if n == 1 { 2 * m } else { m.min(sz(3, 4)) };
    let vs: Vec<Vec<i64>> = (0..n).map(|_| (0..2).map(|_| conc(int(c"x", -b, b))).collect()).collect();
    check_lattice(&vs, m);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_lattice3() {
    let m = [2, 3, 4, 6][idx(c"den", 0, 3)];
    let n = idx(c"count", 1, sz(1, 2) as usize);
    let b = if n == 1 { m } else { 1 };
    let vs: Vec<Vec<i64>> = (0..n).map(|_| (0..3).map(|_| conc(int(c"x", -b, b))).collect()).collect();
    check_lattice(&vs, m);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_lattice3_two() {
    // two centering vectors whose denominators differ
    let (m, k) = [(2, 3), (2, 4), (3, 6), (4, 6)][idx(c"den", 0, 3)];
    let l = m * k;
    let mut v: Vec<i64> = (0..3).map(|_| conc(int(c"x", 0, 1)) * (l / m)).collect();
    let w: Vec<i64> = (0..3).map(|_| conc(int(c"y", -1, 1)) * (l / k)).collect();
    if conc(int(c"neg", 0, 1)) == 1 { for x in v.iter_mut() { *x = -*x; } }
    check_lattice(&[v, w], l);
    cover(c"end");
}
/// many vectors with different denominators, far away, repeated or dependent
#[no_mangle]
pub extern "C-unwind" fn harness_lattice_large() {
    let d = idx(c"dim", 1, 4);
    let n = idx(c"count", 1, sz(4, 6) as usize);
    let dens = [[2, 3, 4, 6], [5, 7, 1, 5], [12, 8, 6, 3], [9, 2, 9, 3]][idx(c"dens", 0, 3)];
    let x = idx(c"variant", 0, sz(5, 19) as usize);
    let far = int(c"far", -1_000_000_000_000, 1_000_000_000_000);
    let m = dens.iter().fold(1i64, |m, &k| m / num_integer::gcd(m, k) * k);
    let mut r = (x * 7919 + n * 31 + d) as u64;
    let mut rnd = |m: u64| { r = (r * 1103515245 + 12345) % (1 << 31); ((r >> 12) % m) as i64 };
    let mut vs: Vec<Vec<i64>> = vec![];
    for i in 0..n {
        let k = dens[i % 4];
        let v: Vec<i64> = if i >= 2 && rnd(4) == 0 { (0..d).map(|j| vs[0][j] - 3 * vs[1][j]).collect() }
            else { (0..d).map(|j| (if rnd(3) == 0 { 0 } else { rnd(k as u64) } - k * (rnd(2) + if (i + j) % 3 == 0 { far } else { 0 })) * (m / k)).collect() };
        vs.push(v);
    }
    check_lattice(&vs, m);
    cover(c"end");
}
/// every Gram matrix of a reduced form, in the given basis and with the basis vectors in any order and direction
#[no_mangle]
pub extern "C-unwind" fn harness_reduced3_any() {
    let g = obtuse3(sz(2, 3));
    let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][idx(c"perm", 0, sz(0, 5) as usize)];
    let s = if idx(c"sign", 0, 1) == 0 { 1 } else { -1 };
    let u: Vec<V> = (0..3).map(|i| (0..3).map(|j| qi(if j == p[i] { if i == 1 { s } else { 1 } } else { 0 })).collect()).collect();
    let a = reduced_lattice_basis(&u, |v, w| form(&g, v, w), &Q::zero());
    check(a.is_some(), c"a basis is found");
    let a: Vec<Vec<i64>> = a.unwrap().iter().map(|v| vi(v)).collect();
    check_reduced(&g, &a, 3);
    cover(c"end");
}
