// Text forms of matrices, maps and graphs.
use super::gr::*;
use super::nets::*;
use super::sx::*;
use num_bigint::BigInt;
use rust_systre::arithmetic::geometry::*;
use rust_systre::arithmetic::matrices::Matrix;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct A {}
/// the numbers in a line, as fractions
fn numbers(s: &str) -> Vec<(i64, i64)> {
    let b = s.as_bytes();
    let digit = |i: usize| i < b.len() && b[i] >= b'0' && b[i] <= b'9';
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if !digit(i) { i += 1; continue; }
        let neg = i > 0 && b[i - 1] == b'-';
        let mut n = 0;
        while digit(i) { n = n * 10 + (b[i] - b'0') as i64; i += 1; }
        let mut d = 1;
        if i < b.len() && b[i] == b'/' && digit(i + 1) { i += 1; d = 0; while digit(i) { d = d * 10 + (b[i] - b'0') as i64; i += 1; } }
        r.push((if neg { -n } else { n }, d));
    }
    r
}
fn lists(s: &str, rows: &[Vec<(i64, i64)>]) -> bool {
    for l in s.lines() { for x in numbers(l) { observe(c"shown", x.0 * 1000 + x.1); } }
    let ls: Vec<&str> = s.lines().collect();
    ls.len() == rows.len() && s.ends_with('\n') && ls.iter().zip(rows).all(|(l, r)| { let m = numbers(l); m.len() == r.len() && m.iter().zip(r).all(|(a, b)| a.0 * b.1 == b.0 * a.1) })
}
/// one entry arbitrary, the others all different
fn entries(n: usize) -> Vec<(i64, i64)> {
    let at = idx(c"at", 0, n - 1);
    let v = conc(int(c"x", -sz(12, 101), sz(12, 101)));
    let d = [1, 2, 3, 7][idx(c"den", 0, 3)];
    (0..n).map(|i| if i == at { (v, d) } else { (11 * i as i64 - 7, 1 + 4 * (i as i64 % 3)) }).collect()
}
fn rows(e: &[(i64, i64)], m: usize) -> Vec<Vec<(i64, i64)>> { e.chunks(m).map(|c| c.to_vec()).collect() }
fn qs(e: &[(i64, i64)]) -> Vec<Q> { e.iter().map(|x| q(x.0, x.1)).collect() }

#[no_mangle]
pub extern "C-unwind" fn harness_text_matrix() {
    let (n, m) = (idx(c"rows", 1, sz(3, 5) as usize), idx(c"cols", 1, sz(3, 5) as usize));
    let e = entries(n * m);
    check(lists(&format!("{}", Matrix::new(m, &qs(&e))), &rows(&e, m)), c"a matrix lists its entries row by row");
    let k: Vec<(i64, i64)> = e.iter().map(|x| (x.0, 1)).collect();
    check(lists(&format!("{}", Matrix::new(m, &k.iter().map(|x| x.0).collect::<Vec<i64>>())), &rows(&k, m)), c"a matrix of integers lists its entries row by row");
    check(lists(&format!("{}", Matrix::new(m, &k.iter().map(|x| BigInt::from(x.0)).collect::<Vec<BigInt>>())), &rows(&k, m)), c"a matrix of large integers lists its entries row by row");
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_text_vectors() {
    let d = idx(c"dim", 1, sz(4, 6) as usize);
    let e = entries(d);
    check(lists(&format!("{}", Vector::<Q, A>::new(&qs(&e))), &rows(&e, 1)), c"a vector lists its coordinates");
    check(lists(&format!("{}", Point::<Q, A>::new(&qs(&e))), &rows(&e, 1)), c"a point lists its coordinates");
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_text_maps() {
    let d = idx(c"dim", 1, 3);
    let e = entries(d * d + d);
    let a = Matrix::new(d, &qs(&e[..d * d]));
    let f = AffineMap::<Q, A>::new(&a, &Vector::new(&qs(&e[d * d..])));
    let want: Vec<Vec<(i64, i64)>> = (0..d).map(|i| { let mut r = e[i * d..i * d + d].to_vec(); r.push(e[d * d + i]); r }).collect();
    check(lists(&format!("{}", f), &want), c"a map lists its matrix and shift");
    if f.inverse().is_some() {
        check(lists(&format!("{}", CoordinateMap::<Q, A, W>::new(&f)), &want), c"a coordinate map lists its matrix and shift");
        cover(c"invertible");
    }
    // a positive definite form: dominant diagonal
    let (x, y) = (conc(int(c"g", -1, sz(1, 2))), [1, 7][idx(c"gden", 0, 1)]);
    let g: Vec<(i64, i64)> = (0..d * d).map(|k| { let (i, j) = (k / d, k % d); if i == j { (11 + i as i64, 1) } else if i + j == 1 { (x, y) } else { (i as i64 + j as i64, 5) } }).collect();
    let sp: ScalarProduct<Q, A> = Matrix::new(d, &qs(&g)).into();
    check(lists(&format!("{}", sp), &rows(&g, d)), c"a scalar product lists its Gram matrix");
    cover(c"end");
}
fn shown(e: &E, d: usize) -> Vec<(i64, i64)> {
    let mut r = vec![(e.0 as i64, 1)];
    for k in 0..d { r.push((e.2[k] as i64, 1)); }
    r.push((e.1 as i64, 1));
    r
}
#[no_mangle]
pub extern "C-unwind" fn harness_text_graph() {
    let d = idx(c"d", 2, 3);
    let mut es = if idx(c"many", 0, 1) == 1 { larger(d, sz(3, 5) as usize, sz(2, 7) as usize) } else {
        let k = idx(c"k", 1, 2);
        (0..k).map(|i| (1 + i as u32, idx(c"tail", 1, 2) as u32 * 99, cshift(c"s", if i == 0 { d } else { 1 }, if i == 0 && d == 2 { sz(12, 30) } else { sz(2, 4) }))).collect()
    };
    let e = es[0];
    let s = if d == 2 { format!("{}", e2(&e)) } else { format!("{}", e3(&e)) };
    check(lists(&(s + "\n"), &[shown(&e, d)]), c"an edge shows head, shift and tail");
    let v = if d == 2 { format!("{}\n", e2(&e).shift) } else { format!("{}\n", e3(&e).shift) };
    check(lists(&v, &[shown(&e, d)[1..=d].to_vec()]), c"a shift shows its coordinates");
    es = undirected(&es);
    let s = if d == 2 { format!("{}", g2(&es)) } else { format!("{}", g3(&es)) };
    let ls: Vec<Vec<(i64, i64)>> = s.lines().map(numbers).collect();
    check(ls.len() == es.len() && s.ends_with('\n'), c"a graph shows one edge per line");
    let mut used = vec![false; es.len()];
    for l in &ls {
        match (0..es.len()).find(|&i| !used[i] && (shown(&es[i], d) == *l || shown(&rev(&es[i]), d) == *l)) {
            Some(i) => used[i] = true,
            None => check(false, c"every line is an edge of the graph, once"),
        }
    }
    cover(c"end");
}
