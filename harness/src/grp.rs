// Small integer groups modulo lattice translations: the reference for the space group harnesses.
#![allow(dead_code)]
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use rust_systre::arithmetic::matrices::Matrix;

pub type Q = BigRational;
pub fn q(n: i64, d: i64) -> Q { Q::new(BigInt::from(n), BigInt::from(d)) }
pub type M = Vec<Vec<i64>>;
/// operation modulo lattice translations: linear part and shift in units of 1/12, reduced
pub type Op = (M, Vec<i64>);

pub fn mm(a: &M, b: &M) -> M { (0..a.len()).map(|i| (0..b[0].len()).map(|j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect() }
pub fn id(d: usize) -> M { (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect() }
fn prod(a: &Op, b: &Op) -> Op {
    let d = a.1.len();
    (mm(&a.0, &b.0), (0..d).map(|i| (a.1[i] + (0..d).map(|k| a.0[i][k] * b.1[k]).sum::<i64>()).rem_euclid(12)).collect())
}
pub fn closure(gens: &[Op]) -> Vec<Op> {
    let d = gens[0].1.len();
    let mut r = vec![(id(d), vec![0; d])];
    let mut i = 0;
    while i < r.len() {
        for g in gens { let p = prod(g, &r[i]); if !r.contains(&p) { r.push(p); } }
        i += 1;
        assume(r.len() <= 200);
    }
    r
}
pub fn qm(m: &M) -> Matrix<Q> { Matrix::new(m[0].len(), &m.iter().flatten().map(|&x| q(x, 1)).collect::<Vec<_>>()) }
/// inverse of a unimodular integer matrix
pub fn inv(u: &M) -> M {
    match u.len() {
        1 => vec![vec![u[0][0]]],
        2 => { let e = u[0][0] * u[1][1] - u[0][1] * u[1][0]; vec![vec![e * u[1][1], -e * u[0][1]], vec![-e * u[1][0], e * u[0][0]]] }
        _ => {
            let c = |i: usize, j: usize| { let (a, b, x, y) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3); u[a][x] * u[b][y] - u[a][y] * u[b][x] };
            let e = u[0][0] * c(0, 0) + u[0][1] * c(0, 1) + u[0][2] * c(0, 2);
            (0..3).map(|i| (0..3).map(|j| e * c(j, i)).collect()).collect()
        }
    }
}
/// a unimodular change of basis
pub fn change(d: usize, n: i64) -> M {
    let mut u = id(d);
    for i in 0..d {
        if d == 1 { break; }
        let (j, k) = ((i + 1) % d, conc(int(c"u", -n, n)));
        for c in 0..d { let t = u[j][c]; u[i][c] += k * t; }
    }
    u
}
pub fn conj(m: &M, u: &M) -> M { mm(&mm(u, m), &inv(u)) }
pub fn m2(e: [i64; 4]) -> M { vec![e[..2].to_vec(), e[2..].to_vec()] }
pub fn m3(e: [i64; 9]) -> M { vec![e[..3].to_vec(), e[3..6].to_vec(), e[6..].to_vec()] }
pub fn square(k: usize) -> M { m2([[-1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, -1], [0, -1, 1, 0], [1, 0, 0, 1]][k]) }
pub fn hexagonal(k: usize) -> M { m2([[0, -1, 1, -1], [1, -1, 1, 0], [0, 1, 1, 0], [0, -1, -1, 0], [-1, 0, 0, -1]][k]) }
pub fn cubic(k: usize) -> M { m3([[0, -1, 0, 1, 0, 0, 0, 0, 1], [0, 0, 1, 1, 0, 0, 0, 1, 0], [-1, 0, 0, 0, -1, 0, 0, 0, -1], [-1, 0, 0, 0, 1, 0, 0, 0, -1], [1, 0, 0, 0, 1, 0, 0, 0, -1], [0, 1, 0, 1, 0, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 0, 1]][k]) }
pub fn trigonal(k: usize) -> M { m3([[0, -1, 0, 1, -1, 0, 0, 0, 1], [0, 1, 0, 1, 0, 0, 0, 0, -1], [-1, 0, 0, 0, -1, 0, 0, 0, -1], [1, -1, 0, 1, 0, 0, 0, 0, 1], [0, -1, 0, -1, 0, 0, 0, 0, 1]][k]) }

