// Space groups: generation modulo lattice translations, primitive settings, invariant Gram matrices and shifts.
use super::grp::*;
use super::sx::*;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct S {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct P {}
pub fn op(o: &Op) -> AffineMap<Q, S> { AffineMap::new(&qm(&o.0), &Vector::new(&o.1.iter().map(|&x| q(x, 12)).collect::<Vec<_>>())) }
fn back(o: &AffineMap<Q, S>) -> Op {
    let m = o.linear_matrix();
    let d = o.dim();
    let t = q(12, 1);
    let num = |x: &Q| { check(x.is_integer(), c"coordinates stay in the lattice of the input"); conc(x.to_integer().to_i64().unwrap()) };
    let s = o.shift();
    ((0..d).map(|i| (0..d).map(|j| num(&m[(i, j)])).collect()).collect(), (0..d).map(|i| num(&(&s[i] * &t))).collect())
}
fn shifts(d: usize, full: bool) -> Vec<i64> { (0..d).map(|_| if full { [0, 6, 4, 3][idx(c"shift", 0, 3)] } else { [0, 6][idx(c"half", 0, 1)] }).collect() }

fn check_generate(gens: &[Op]) -> Vec<Op> {
    let want = closure(gens);
    let r = generate(&gens.iter().map(op).collect::<Vec<_>>());
    check(r.len() == want.len(), c"as many operations as the group has modulo lattice translations");
    let got: Vec<Op> = r.iter().map(back).collect();
    for (i, g) in got.iter().enumerate() {
        check(g.1.iter().all(|&x| x >= 0 && x < 12), c"operations are reduced modulo lattice translations");
        check(want.contains(g), c"only products of the generators");
        check(!got[..i].contains(g), c"no operation twice");
    }
    check(got[0] == (id(gens[0].1.len()), vec![0; gens[0].1.len()]), c"the identity comes first");
    want
}
fn trace(m: &M) -> i64 { (0..m.len()).map(|i| m[i][i]).sum() }
fn points(ops: &[Op]) -> Vec<M> { let mut r: Vec<M> = vec![]; for o in ops { if !r.contains(&o.0) { r.push(o.0.clone()); } } r }

fn check_spaces(gens: &[Op], all: &[Op]) {
    let d = gens[0].1.len();
    let ops: Vec<_> = gens.iter().map(op).collect();
    let pts = points(all);
    // dimensions of the invariants from the characters of the group
    let n = pts.len() as i64;
    let vec_dim = pts.iter().map(|m| trace(m)).sum::<i64>() / n;
    let sym_dim = pts.iter().map(|m| (trace(m) * trace(m) + trace(&mm(m, m))) / 2).sum::<i64>() / n;
    match shift_space(&ops) {
        None => check(vec_dim == 0, c"shifts that commute with the group are found"),
        Some(z) => {
            check(z.shape() == (d, vec_dim as usize), c"dimension of the space of shifts");
            check(independent(&z), c"independent shifts");
            for g in gens { for c in 0..z.shape().1 { for i in 0..d {
                let mut s = Q::zero();
                for j in 0..d { s += &z[(j, c)] * q(g.0[i][j], 1); }
                check(s == z[(i, c)], c"shifts are fixed by every operation");
            } } }
        }
    }
    match gram_matrix_configuration_space(&ops) {
        None => check(sym_dim == 0, c"invariant Gram matrices are found"),
        Some(z) => {
            check(z.shape() == (d * (d + 1) / 2, sym_dim as usize), c"dimension of the space of Gram matrices");
            check(independent(&z), c"independent Gram matrices");
            for c in 0..z.shape().1 {
                let mut g = vec![vec![Q::zero(); d]; d];
                let mut k = 0;
                for i in 0..d { for j in i..d { g[i][j] = z[(k, c)].clone(); g[j][i] = z[(k, c)].clone(); k += 1; } }
                for o in gens { for a in 0..d { for b in a..d {
                    let mut s = Q::zero();
                    for i in 0..d { for j in 0..d { if o.0[i][a] * o.0[j][b] != 0 { s += &g[i][j] * q(o.0[i][a] * o.0[j][b], 1); } } }
                    check(s == g[a][b], c"operations are isometries of every Gram matrix");
                } } }
            }
        }
    }
}
/// independent columns, by elimination
fn independent(z: &Matrix<Q>) -> bool {
    let (n, m) = z.shape();
    let mut a: Vec<Vec<Q>> = (0..m).map(|j| (0..n).map(|i| z[(i, j)].clone()).collect()).collect();
    for j in 0..m {
        let p = match (0..n).find(|&i| !a[j][i].is_zero()) { Some(p) => p, None => return false };
        for k in j + 1..m { let f = &a[k][p] / &a[j][p]; for i in 0..n { let t = &a[j][i] * &f; a[k][i] = &a[k][i] - t; } }
    }
    true
}

fn check_primitive(all: &[Op]) {
    let d = all[0].1.len();
    let one = id(d);
    let ts: Vec<&Vec<i64>> = all.iter().filter(|o| o.0 == one).map(|o| &o.1).collect();
    let pts = points(all);
    check(all.len() == ts.len() * pts.len(), c"the reference closure is a group");
    let (cell, map, ops): (Vec<Vector<Q, S>>, CoordinateMap<Q, S, P>, Vec<AffineMap<Q, P>>) = PrimitiveSetting::verif_new(&all.iter().map(op).collect());
    check(cell.len() == d, c"the cell has full rank");
    // volume and membership: cell is triangular or not, so use Cramer's rule
    let b: Vec<Vec<Q>> = (0..d).map(|i| (0..d).map(|j| cell[j][i].clone()).collect()).collect();
    let vol = dq(&b);
    check(vol == q(1, ts.len() as i64), c"volume of the primitive cell");
    let coords = |v: &[Q]| -> Vec<Q> { (0..d).map(|j| { let mut c = b.clone(); for i in 0..d { c[i][j] = v[i].clone(); } dq(&c) / &vol }).collect() };
    for i in 0..d { check(coords(&(0..d).map(|j| q((i == j) as i64, 1)).collect::<Vec<_>>()).iter().all(|x| x.is_integer()), c"unit vectors are lattice vectors of the primitive cell"); }
    for t in &ts { check(coords(&t.iter().map(|&x| q(x, 12)).collect::<Vec<_>>()).iter().all(|x| x.is_integer()), c"translations of the group are lattice vectors of the primitive cell"); }
    for (j, v) in cell.iter().enumerate() {
        let w = &map * v;
        check((0..d).all(|i| w[i] == q((i == j) as i64, 1)), c"the coordinate map takes the cell to unit vectors");
    }
    check(ops.len() == pts.len(), c"one operation for each linear part");
    let mut used: Vec<usize> = vec![];
    for o in &ops {
        let (l, t) = (o.linear_matrix(), o.shift());
        check((0..d).all(|i| t[i] >= Q::zero() && t[i] < Q::one()), c"operations are reduced in the primitive setting");
        // B L = M B
        let bl: Vec<Vec<Q>> = (0..d).map(|i| (0..d).map(|j| { let mut s = Q::zero(); for k in 0..d { s += &b[i][k] * &l[(k, j)]; } s }).collect()).collect();
        let k = pts.iter().position(|m| (0..d).all(|i| (0..d).all(|j| { let mut s = Q::zero(); for k in 0..d { if m[i][k] != 0 { s += q(m[i][k], 1) * &b[k][j]; } } s == bl[i][j] })));
        check(k.is_some(), c"every operation is one of the group in primitive coordinates");
        let k = k.unwrap();
        check(!used.contains(&k), c"operations differ in their linear parts");
        used.push(k);
        let s: &Vec<i64> = &all.iter().find(|a| a.0 == pts[k]).unwrap().1;
        let v: Vec<Q> = (0..d).map(|i| { let mut x = q(s[i], 12); for k in 0..d { x = x - &b[i][k] * &t[k]; } x }).collect();
        check(coords(&v).iter().all(|x| x.is_integer()), c"shifts agree modulo the primitive lattice");
    }
}
fn dq(a: &[Vec<Q>]) -> Q {
    match a.len() {
        1 => a[0][0].clone(),
        2 => &a[0][0] * &a[1][1] - &a[0][1] * &a[1][0],
        _ => &a[0][0] * (&a[1][1] * &a[2][2] - &a[1][2] * &a[2][1]) - &a[0][1] * (&a[1][0] * &a[2][2] - &a[1][2] * &a[2][0]) + &a[0][2] * (&a[1][0] * &a[2][1] - &a[1][1] * &a[2][0]),
    }
}

/// two generators with shifts, in a skewed basis (where shifts are still multiples of 1/12)
fn plane(small: bool) -> Vec<Op> {
    let u = if small { [id(2), m2([1, 2, 0, 1]), m2([2, 1, 1, 1])][idx(c"basis", 0, 2)].clone() } else { change(2, sz(1, 2)) };
    let hex = idx(c"system", 0, 1) == 1;
    let n = idx(c"gens", 1, 2);
    let mut gens = vec![];
    let mut last = 0;
    for _ in 0..n {
        let k = idx(c"op", last, 4);
        last = k;
        gens.push((conj(&if hex { hexagonal(k) } else { square(k) }, &u), shifts(2, n == 1 && !small)));
    }
    gens
}
#[no_mangle]
pub extern "C-unwind" fn harness_generate2() { let g = plane(false); let all = check_generate(&g); check_spaces(&g, &all); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_primitive2() {
    let mut g = plane(sz(0, 1) == 0);
    // a centering
    let t = [[0, 0], [6, 6], [6, 0], [4, 8], [4, 4], [3, 6]][idx(c"centering", 0, 5)];
    g.push((id(2), t.to_vec()));
    let all = closure(&g);
    assume(all.len() <= sz(24, 48) as usize);
    check_primitive(&all);
    cover(c"end");
}
fn space(small: bool) -> Vec<Op> {
    let u = [id(3), m3([1, 1, 0, 0, 1, 0, 0, 0, 1]), m3([1, 0, 0, -1, 1, 0, 0, 2, 1]), m3([0, 0, 1, 1, 0, 0, 0, 1, 1])][idx(c"basis", 0, if small { 1 } else { 3 })].clone();
    let tri = idx(c"system", 0, 1) == 1;
    let mut gens = vec![];
    let n = idx(c"gens", 1, 2);
    let mut last = 0;
    for _ in 0..n {
        let top = if tri { 4 } else { 6 };
        assume(last <= top);
        let k = idx(c"op", last, top);
        last = k + 1;
        let s = [[0, 0, 0], [6, 0, 0], [0, 0, 3], [0, 4, 8], [6, 6, 6]][idx(c"shift", 0, if small { 1 } else { sz(2, 4) as usize })];
        gens.push((conj(&if tri { trigonal(k) } else { cubic(k) }, &u), s.to_vec()));
    }
    gens
}
#[no_mangle]
pub extern "C-unwind" fn harness_generate3() { let g = space(false); let all = check_generate(&g); check_spaces(&g, &all); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_primitive3() {
    let mut g = space(sz(0, 1) == 0);
    let t = [[0, 0, 0], [6, 6, 6], [6, 6, 0], [8, 4, 4], [0, 0, 6]][idx(c"centering", 0, 4)];
    g.push((id(3), t.to_vec()));
    let all = closure(&g);
    assume(all.len() <= sz(24, 48) as usize);
    check_primitive(&all);
    cover(c"end");
}
/// point groups of up to three generators without shifts
#[no_mangle]
pub extern "C-unwind" fn harness_spaces3() {
    let u = change(3, sz(1, 2));
    let tri = idx(c"system", 0, 1) == 1;
    let n = idx(c"gens", 1, sz(2, 3) as usize);
    let mut gens: Vec<Op> = vec![];
    let mut last = 0;
    for _ in 0..n {
        let top = if tri { 4 } else { 6 };
        assume(last <= top);
        let k = idx(c"op", last, top);
        last = k + 1;
        gens.push((conj(&if tri { trigonal(k) } else { cubic(k) }, &u), vec![0; 3]));
    }
    let all = closure(&gens);
    check_spaces(&gens, &all);
    cover(c"end");
}
/// one dimension, and the group of lattice translations alone
#[no_mangle]
pub extern "C-unwind" fn harness_group1() {
    let d = idx(c"dim", 1, 3);
    let mut g: Vec<Op> = vec![];
    for _ in 0..idx(c"gens", 1, 2) {
        let e = if idx(c"neg", 0, 1) == 0 { 1 } else { -1 };
        g.push(((0..d).map(|i| (0..d).map(|j| if i == j { e } else { 0 }).collect()).collect(), (0..d).map(|i| if i == 0 { conc(int(c"s", 0, 11)) } else { 0 }).collect()));
    }
    let all = check_generate(&g);
    check_spaces(&g, &all);
    check_primitive(&all);
    cover(c"end");
}
/// any integer matrix in two dimensions, invertible or not: the equations and their solution spaces
#[no_mangle]
pub extern "C-unwind" fn harness_spaces_any() {
    let n = sz(2, 3);
    let m: M = vec![vec![int(c"m", -n, n), conc(int(c"m", -n, n))], vec![conc(int(c"m", -n, n)), int(c"m", -n, n)]];
    let o: Op = (m.clone(), vec![0, 0]);
    let ops = vec![op(&o)];
    let (a, b, c, d) = (m[0][0], m[0][1], m[1][0], m[1][1]);
    // shifts
    let det = (a - 1) * (d - 1) - b * c;
    match shift_space(&ops) {
        None => check(det != 0, c"a fixed shift is found"),
        Some(z) => {
            let k = if a == 1 && b == 0 && c == 0 && d == 1 { 2 } else { 1 };
            check(det == 0 && z.shape() == (2, k), c"dimension of the space of shifts");
            check(independent(&z), c"independent shifts");
            for j in 0..k { check((&z[(0, j)] * q(a, 1) + &z[(1, j)] * q(b, 1)) == z[(0, j)] && (&z[(0, j)] * q(c, 1) + &z[(1, j)] * q(d, 1)) == z[(1, j)], c"shifts are fixed"); }
        }
    }
    // Gram matrices (x, y; y, z)
    let e = [[a * a - 1, 2 * a * c, c * c], [a * b, a * d + b * c - 1, c * d], [b * b, 2 * b * d, d * d - 1]];
    let det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]);
    match gram_matrix_configuration_space(&ops) {
        None => check(det != 0, c"an invariant Gram matrix is found"),
        Some(z) => {
            let minors = (0..3).any(|r| (0..3).any(|s| { let (r1, r2, s1, s2) = ((r + 1) % 3, (r + 2) % 3, (s + 1) % 3, (s + 2) % 3); e[r1][s1] * e[r2][s2] != e[r1][s2] * e[r2][s1] }));
            let zero = e.iter().all(|r| r.iter().all(|x| *x == 0));
            let k = if zero { 3 } else if minors { 1 } else { 2 };
            check(det == 0 && z.shape() == (3, k), c"dimension of the space of Gram matrices");
            check(independent(&z), c"independent Gram matrices");
            for j in 0..k { for r in e.iter() { check((q(r[0], 1) * &z[(0, j)] + q(r[1], 1) * &z[(1, j)] + q(r[2], 1) * &z[(2, j)]).is_zero(), c"operations are isometries of every Gram matrix"); } }
        }
    }
    cover(c"end");
}
/// large groups: the whole cubic and hexagonal ones with centerings, and four dimensions
#[no_mangle]
pub extern "C-unwind" fn harness_group_large() {
    let kind = idx(c"kind", 0, 4);
    let g: Vec<Op> = if kind == 4 {
        // permutations and changes of sign of four axes
        let p = |v: [usize; 4], e: [i64; 4]| -> M { (0..4).map(|i| (0..4).map(|j| if v[i] == j { e[i] } else { 0 }).collect()).collect() };
        let all = [p([1, 2, 3, 0], [1; 4]), p([1, 0, 2, 3], [1; 4]), p([0, 1, 2, 3], [-1, -1, 1, 1]), p([0, 1, 2, 3], [-1; 4]), p([1, 0, 3, 2], [1, -1, 1, 1])];
        let (a, b) = (idx(c"a", 0, 3), idx(c"b", 1, 4));
        assume(a < b);
        vec![(all[a].clone(), [vec![0; 4], vec![6, 0, 0, 3]][idx(c"shift", 0, 1)].clone()), (all[b].clone(), vec![0; 4])]
    } else {
        let hex = kind % 2 == 1;
        let u = [id(3), m3([1, 1, 0, 0, 1, 0, 2, 0, 1])][idx(c"basis", 0, 1)].clone();
        let s = [[0, 0, 0], [6, 0, 0], [3, 9, 3]][idx(c"shift", 0, 2)];
        let mut g: Vec<Op> = if hex { vec![(conj(&trigonal(0), &u), s.to_vec()), (conj(&trigonal(1), &u), vec![0; 3]), (conj(&trigonal(2), &u), vec![0; 3]), (conj(&m3([-1, 0, 0, 0, -1, 0, 0, 0, 1]), &u), vec![0, 0, 6])] }
            else { vec![(conj(&cubic(0), &u), s.to_vec()), (conj(&cubic(1), &u), vec![0; 3]), (conj(&cubic(2), &u), vec![0; 3])] };
        if kind > 1 { g.push((id(3), [vec![6, 6, 6], vec![4, 8, 4]][hex as usize].clone())); }
        g
    };
    let all = check_generate(&g);
    if kind < 4 { check_spaces(&g, &all); check_primitive(&all); }
    cover(c"end");
}
/// shifts with any integer parts
#[no_mangle]
pub extern "C-unwind" fn harness_generate_far() {
    let g = if idx(c"dim", 2, 3) == 2 { plane(true) } else { space(true) };
    let far = int(c"far", -1_000_000_000_000, 1_000_000_000_000);
    let h: Vec<Op> = g.iter().enumerate().map(|(k, o)| (o.0.clone(), o.1.iter().enumerate().map(|(i, x)| x + 12 * far * [1, -2, 0, 1][(i + k) % 4]).collect())).collect();
    let want = closure(&g);
    let r: Vec<Op> = generate(&h.iter().map(op).collect::<Vec<_>>()).iter().map(back).collect();
    check(r.len() == want.len() && r.iter().all(|o| want.contains(o)), c"only the shifts modulo one matter");
    cover(c"end");
}
