// Matrix algebra: every operation against its entrywise definition, for all small shapes.
use super::sx::*;
use rust_systre::arithmetic::matrices::Matrix;

type M = Matrix<i64>;
fn sym(n: &'static std::ffi::CStr, r: usize, c: usize) -> (Vec<Vec<i64>>, M) {
    let v: Vec<Vec<i64>> = (0..r).map(|_| (0..c).map(|_| int(n, -1000, 1000)).collect()).collect();
    let f: Vec<i64> = v.iter().flatten().cloned().collect();
    (v, Matrix::new(c, &f))
}
fn same(m: &M, r: usize, c: usize, f: &dyn Fn(usize, usize) -> i64) -> bool {
    if m.shape() != (r, c) { return false; }
    let mut ok = true;
    for i in 0..r { for j in 0..c { if m[(i, j)] != f(i, j) { ok = false; } } }
    ok
}
fn shape() -> (usize, usize) { let n = sz(3, 4) as usize; (idx(c"r", 1, n), idx(c"c", 1, n)) }

#[no_mangle]
pub extern "C-unwind" fn harness_mat_elementwise() {
    let (r, c) = shape();
    let (a, x) = sym(c"a", r, c);
    let (b, y) = sym(c"b", r, c);
    let k = int(c"k", -1000, 1000);
    check(same(&(&x + &y), r, c, &|i, j| a[i][j] + b[i][j]), c"A + B");
    check(same(&(x.clone() + y.clone()), r, c, &|i, j| a[i][j] + b[i][j]), c"A + B by value");
    check(same(&(&x - &y), r, c, &|i, j| a[i][j] - b[i][j]), c"A - B");
    check(same(&(x.clone() - y.clone()), r, c, &|i, j| a[i][j] - b[i][j]), c"A - B by value");
    check(same(&(-&x), r, c, &|i, j| -a[i][j]), c"-A");
    check(same(&(-(x.clone())), r, c, &|i, j| -a[i][j]), c"-A by value");
    check(same(&(&x + k), r, c, &|i, j| a[i][j] + k), c"A + k");
    check(same(&(&x + &k), r, c, &|i, j| a[i][j] + k), c"A + &k");
    check(same(&(&x - k), r, c, &|i, j| a[i][j] - k), c"A - k");
    check(same(&(&x - &k), r, c, &|i, j| a[i][j] - k), c"A - &k");
    check(same(&(&x * k), r, c, &|i, j| a[i][j] * k), c"A * k");
    check(same(&(&x * &k), r, c, &|i, j| a[i][j] * k), c"A * &k");
    let d = idx(c"d", 1, 3) as i64;
    check(same(&(&x / d), r, c, &|i, j| a[i][j] / d), c"A / d");
    check(same(&(&x / &d), r, c, &|i, j| a[i][j] / d), c"A / &d");
    let mut z = x.clone();
    let (pi, pj) = (idx(c"pi", 0, r - 1), idx(c"pj", 0, c - 1));
    z[(pi, pj)] = k;
    check(same(&z, r, c, &|i, j| if (i, j) == (pi, pj) { k } else { a[i][j] }), c"assignment changes one entry");
    observe(c"s", (&x + &y)[(r - 1, c - 1)]);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_mat_product() {
    let n = sz(3, 3) as usize;
    let (r, m, c) = (idx(c"r", 1, n), idx(c"m", 1, n), idx(c"c", 1, n));
    let (a, x) = sym(c"a", r, m);
    let (b, y) = sym(c"b", m, c);
    let prod = |i: usize, j: usize| (0..m).map(|k| a[i][k] * b[k][j]).sum::<i64>();
    let p = &x * &y;
    check(same(&p, r, c, &prod), c"A B");
    check(same(&(x.clone() * &y), r, c, &prod), c"A B, left by value");
    check(same(&(&x * y.clone()), r, c, &prod), c"A B, right by value");
    check(same(&(x.clone() * y.clone()), r, c, &prod), c"A B by value");
    check((&y.transpose() * &x.transpose()) == p.transpose(), c"(A B)^T = B^T A^T");
    check(same(&(&M::identity(r) * &x), r, m, &|i, j| a[i][j]), c"1 A");
    check(same(&(&x * M::identity(m)), r, m, &|i, j| a[i][j]), c"A 1");
    observe(c"p", p[(0, 0)]);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_mat_shapes() {
    let (r, c) = shape();
    let (a, x) = sym(c"a", r, c);
    let c2 = idx(c"c2", 1, 2);
    let r2 = idx(c"r2", 1, 2);
    let (b, y) = sym(c"b", r, c2);
    let (d, z) = sym(c"d", r2, c);
    check(same(&x, r, c, &|i, j| a[i][j]), c"row-major construction");
    check(same(&x.transpose(), c, r, &|i, j| a[j][i]), c"transpose");
    check(same(&M::hstack(&[x.clone(), y.clone(), x.clone()]), r, 2 * c + c2, &|i, j| if j < c { a[i][j] } else if j < c + c2 { b[i][j - c] } else { a[i][j - c - c2] }), c"hstack");
    check(same(&M::vstack(&[x.clone(), z.clone(), x.clone()]), 2 * r + r2, c, &|i, j| if i < r { a[i][j] } else if i < r + r2 { d[i - r][j] } else { a[i - r - r2][j] }), c"vstack");
    let (r0, c0) = (idx(c"r0", 0, r - 1), idx(c"c0", 0, c - 1));
    let (r1, c1) = (idx(c"r1", r0 + 1, r), idx(c"c1", c0 + 1, c));
    check(same(&x.submatrix(r0..r1, c0..c1), r1 - r0, c1 - c0, &|i, j| a[i + r0][j + c0]), c"submatrix");
    check(x.get_row(r0) == a[r0], c"row");
    check(x.get_rows() == a, c"rows");
    check(x.get_col(c0) == a.iter().map(|v| v[c0]).collect::<Vec<_>>(), c"column");
    check(x.iter().cloned().collect::<M>().reshape(c) == x, c"iteration in row-major order");
    check(same(&M::row(&a[r0]), 1, c, &|_, j| a[r0][j]), c"row matrix");
    check(same(&M::col(&a[r0]), c, 1, &|i, _| a[r0][i]), c"column matrix");
    check(same(&M::zero(r, c), r, c, &|_, _| 0), c"zero");
    check(same(&M::identity(r), r, r, &|i, j| (i == j) as i64), c"identity");
    check(same(&M::unit_vector(c, c0), 1, c, &|_, j| (j == c0) as i64), c"unit vector");
    observe(c"t", x.transpose()[(c - 1, r - 1)]);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_mat_eq() {
    let (r, c) = (idx(c"r", 1, 3), idx(c"c", 1, 3));
    let v: Vec<i64> = (0..r * c).map(|_| int(c"a", -2, 2)).collect();
    let w: Vec<i64> = (0..r * c).map(|i| if i < 2 { int(c"b", -2, 2) } else { v[i] }).collect();
    let x = M::new(c, &v);
    let id = r == c && (0..r).all(|i| (0..c).all(|j| v[i * c + j] == (i == j) as i64));
    check(x.is_identity() == id, c"is_identity");
    check((x == M::new(c, &w)) == (v == w), c"equality is entrywise");
    if r != c && r * c > 1 { check(x != M::new(r, &v), c"shape is part of equality"); }
    cover(c"end");
    observe(c"id", id as i64);
}

/// access outside the matrix, and operands of the wrong shape, are refused
#[no_mangle]
pub extern "C-unwind" fn harness_mat_refuse() {
    let (r, c) = (idx(c"r", 1, 3), idx(c"c", 1, 3));
    let (_, x) = sym(c"a", r, c);
    let (r2, c2) = (idx(c"r2", 1, 3), idx(c"c2", 1, 3));
    let y: M = Matrix::zero(r2, c2);
    let op = idx(c"op", 0, 7);
    let i = idx(c"i", 0, 4);
    let j = idx(c"j", 0, 4);
    let bad = match op {
        0 => i >= r || j >= c,
        1 => i >= r || j >= c,
        2 | 3 => r != r2 || c != c2,
        4 => c != r2,
        5 => r != r2,
        6 => c != c2,
        _ => i > r || j > c,
    };
    assume(op == 0 || op == 1 || op == 7 || (i == 0 && j == 0));
    assume(!(op == 0 || op == 1 || op == 7) || (r2 == 1 && c2 == 1));
    allow_panic(bad);
    match op {
        0 => { observe(c"e", x[(i, j)]); }
        1 => { let mut x = x; x[(i, j)] = 5; observe(c"e", x[(i, j)]); }
        2 => { observe(c"e", (&x + &y)[(0, 0)]); }
        3 => { observe(c"e", (&x - &y)[(0, 0)]); }
        4 => { observe(c"e", (&x * &y)[(0, 0)]); }
        5 => { observe(c"e", M::hstack(&[x, y]).shape().1 as i64); }
        6 => { observe(c"e", M::vstack(&[x, y]).shape().0 as i64); }
        _ => { observe(c"e", x.submatrix(0..i, 0..j).shape().0 as i64); }
    }
    check(!bad, c"accepted an impossible access or combination of shapes");
    cover(c"end");
}

/// all forms of all operations on larger matrices
#[no_mangle]
pub extern "C-unwind" fn harness_mat_large() {
    let (r, c) = ([1, 2, 4, 5, 9, 17][idx(c"r", 0, 5)], [1, 3, 5, 9, 18, 33][idx(c"c", 0, 5)]);
    assume(r < 5 || c < 5 || sz(0, 1) == 1 && r * c < 170);
    let n = 1_000_000_000i64;
    let mk = |s: &'static std::ffi::CStr, r: usize, c: usize| -> (Vec<Vec<i64>>, M) {
        let v: Vec<Vec<i64>> = (0..r).map(|_| (0..c).map(|_| int(s, -n, n)).collect()).collect();
        let m = v.iter().flatten().cloned().collect::<M>().reshape(c);
        (v, m)
    };
    let (a, x) = mk(c"a", r, c);
    let (b, y) = mk(c"b", r, c);
    let k = [-3, 7][idx(c"k", 0, 1)];
    let add = |i: usize, j: usize| a[i][j] + b[i][j];
    let sub = |i: usize, j: usize| a[i][j] - b[i][j];
    check([&x + &y, &x + y.clone(), x.clone() + &y, x.clone() + y.clone()].iter().all(|m| same(m, r, c, &add)), c"A + B");
    check([&x - &y, &x - y.clone(), x.clone() - &y, x.clone() - y.clone()].iter().all(|m| same(m, r, c, &sub)), c"A - B");
    check([&x + k, &x + &k, x.clone() + k, x.clone() + &k].iter().all(|m| same(m, r, c, &|i, j| a[i][j] + k)), c"A + k");
    check([&x - k, &x - &k, x.clone() - k, x.clone() - &k].iter().all(|m| same(m, r, c, &|i, j| a[i][j] - k)), c"A - k");
    check([&x * k, &x * &k, x.clone() * k, x.clone() * &k].iter().all(|m| same(m, r, c, &|i, j| a[i][j] * k)), c"A * k");
    let (e, h): (Vec<i64>, usize) = ((0..r * c).map(|i| i as i64 * 37 % 101 - 50).collect(), (r * c) / 2);
    let e: Vec<i64> = e.iter().enumerate().map(|(i, &v)| if i == h { a[0][0] } else { v }).collect();
    let u: M = Matrix::new(c, &e);
    check([&u / k, &u / &k, u.clone() / k, u.clone() / &k].iter().all(|m| same(m, r, c, &|i, j| e[i * c + j] / k)), c"A / k");
    check([-&x, -x.clone()].iter().all(|m| same(m, r, c, &|i, j| -a[i][j])), c"-A");
    let mut z = x.clone();
    z += &y; check(same(&z, r, c, &add), c"A += &B");
    z -= y.clone(); check(same(&z, r, c, &|i, j| a[i][j]), c"A -= B");
    z -= &y; check(same(&z, r, c, &sub), c"A -= &B");
    z += y.clone(); check(same(&z, r, c, &|i, j| a[i][j]), c"A += B");
    z += k; z += &k; check(same(&z, r, c, &|i, j| a[i][j] + 2 * k), c"A += k");
    z -= &k; z -= k; check(same(&z, r, c, &|i, j| a[i][j]), c"A -= k");
    z *= k; z *= &k; check(same(&z, r, c, &|i, j| a[i][j] * k * k), c"A *= k");
    let mut v = &u * (k * k);
    v /= &k; v /= k; check(same(&v, r, c, &|i, j| e[i * c + j]), c"A /= k");
    check( same(&x.transpose().transpose(), r, c, &|i, j| a[i][j]) && same(&x.transpose(), c, r, &|i, j| a[j][i]), c"transpose");
    check(x.get_rows() == a && (0..c).all(|j| x.get_col(j) == a.iter().map(|v| v[j]).collect::<Vec<_>>()), c"rows and columns");
    // products with a given matrix
    let m = [1, 4, 7, 19][idx(c"m", 0, if r > 5 { 0 } else if c > 9 { 1 } else { 3 })];
    let f = |i: usize, j: usize| (i as i64 * 5 + j as i64 * 3 + 1) % 11 - 5;
    let g: M = Matrix::new(m, &(0..c * m).map(|i| f(i / m, i % m)).collect::<Vec<_>>());
    let prod = |i: usize, j: usize| (0..c).map(|l| a[i][l] * f(l, j)).sum::<i64>();
    check([&x * &g, x.clone() * &g, &x * g.clone(), x.clone() * g.clone()].iter().all(|p| same(p, r, m, &prod)), c"A B");
    let (gt, xt) = (g.transpose(), x.transpose());
    check([&gt * &xt, gt.clone() * &xt, &gt * xt.clone(), gt.clone() * xt.clone()].iter().all(|p| same(p, m, r, &|i, j| prod(j, i))), c"B A");
    // many parts of different sizes
    let w: Vec<usize> = vec![[2, 1, 3, 1, 2, 4], [1, 1, 1, 5, 1, 1]][idx(c"widths", 0, 1)][..idx(c"parts", 1, sz(4, 6) as usize)].to_vec();
    let at = |p: usize, i: usize, j: usize| (p * 100 + i * 10 + j) as i64 + a[0][0];
    let hs: Vec<M> = w.iter().enumerate().map(|(p, &w)| Matrix::new(w, &(0..r * w).map(|i| at(p, i / w, i % w)).collect::<Vec<_>>())).collect();
    let vs: Vec<M> = w.iter().enumerate().map(|(p, &w)| Matrix::new(c, &(0..c * w).map(|i| at(p, i / c, i % c)).collect::<Vec<_>>())).collect();
    let place: Vec<(usize, usize)> = w.iter().enumerate().flat_map(|(p, &w)| (0..w).map(move |j| (p, j))).collect();
    check(same(&M::hstack(&hs), r, place.len(), &|i, j| at(place[j].0, i, place[j].1)), c"hstack of many parts");
    check(same(&M::vstack(&vs), place.len(), c, &|i, j| at(place[i].0, place[i].1, j)), c"vstack of many parts");
    check(same(&M::identity(r), r, r, &|i, j| (i == j) as i64) && M::identity(r).is_identity(), c"identity");
    observe(c"x", x[(r - 1, c - 1)]);
    cover(c"end");
}
