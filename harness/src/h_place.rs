// Placement and stability of periodic graphs.
use super::gr::*;
use super::sx::*;
use num_traits::{One, Zero};
use rust_systre::pgraphs::*;

fn check_placement<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) {
    let vs = verts(es);
    let p0 = g.position(&vs[0]);
    for k in 0..d { check(p0[k].is_zero(), c"the first vertex is at the origin"); }
    for &v in &vs {
        let p = g.position(&v);
        // the neighbours' centre of gravity
        let mut s = vec![Q::zero(); d];
        for e in star(es, v) {
            let t = g.position(&e.1);
            for k in 0..d { s[k] += &t[k] + q(e.2[k] as i64, 1) - &p[k]; }
        }
        for k in 0..d { check(s[k].is_zero(), c"every vertex is at the centre of gravity of its neighbours"); }
    }
    for e in g.directed_edges() {
        let (x, y) = (g.position(&e.head), g.position(&e.tail));
        let u = un(&e);
        let v = g.edge_vector(&e);
        let w = g.edge_vector(&-&e);
        for k in 0..d {
            check(v[k] == &y[k] + q(u.2[k] as i64, 1) - &x[k], c"edge vector leads from head to tail");
            check(w[k] == -&v[k], c"reversed edge has the opposite vector");
        }
    }
}

fn tree(n: usize) -> Vec<(u32, u32)> { match n { 2 => vec![(1, 2)], 3 => if idx(c"tree", 0, 1) == 0 { vec![(1, 2), (2, 3)] } else { vec![(1, 2), (1, 3)] }, _ => match idx(c"tree", 0, 2) { 0 => vec![(1, 2), (2, 3), (3, 4)], 1 => vec![(1, 2), (1, 3), (1, 4)], _ => vec![(2, 1), (2, 3), (2, 4)] } } }

/// a connected quotient graph: a tree plus k further edges, every shift symbolic
fn connected(n: usize, k: usize, d: usize, b: i64) -> Vec<E> {
    let mut es: Vec<E> = tree(n).iter().map(|&(h, t)| (h, t, shift(c"s", d, b))).collect();
    for _ in 0..k { let (h, t) = (idx(c"head", 1, n) as u32, idx(c"tail", 1, n) as u32); es.push((h, t, shift(c"t", d, b))); }
    es
}

/// exact linear solver in place of the p-adic one: arbitrary shifts
#[no_mangle]
pub extern "C-unwind" fn harness_placement2() {
    let n = idx(c"n", 2, 3);
    let es = connected(n, 2, 2, 1000000);
    check_placement(&g2(&es), &es, 2);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_placement3() {
    let es = connected(idx(c"n", 2, sz(2, 3) as usize), 2, 3, 1000000);
    check_placement(&g3(&es), &es, 3);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_placement4() {
    let es = connected(4, 2, 2, 1000000);
    check_placement(&g2(&es), &es, 2);
    cover(c"end");
}
/// the code as it is, p-adic solver included, for small shifts
#[no_mangle]
pub extern "C-unwind" fn harness_placement_padic() {
    let n = idx(c"n", 2, 3);
    let mut es: Vec<E> = tree(n).iter().map(|&(h, t)| (h, t, [0; 3])).collect();
    for i in 0..2 { let (h, t) = (idx(c"head", 1, n) as u32, idx(c"tail", 1, n) as u32); assume(h <= t); es.push((h, t, cshift(c"t", 2, if i == 0 { sz(1, 3) } else { 1 }))); }
    check_placement(&g2(&es), &es, 2);
    cover(c"end");
}

fn integral(x: &Q) -> bool { x.is_integer() }
fn same_mod1<T: LabelVector<W>>(g: &Graph<T, W>, v: u32, w: u32, d: usize) -> bool {
    let (p, r) = (g.position(&v), g.position(&w));
    (0..d).all(|k| integral(&(&p[k] - &r[k])))
}
fn delta<T: LabelVector<W>>(g: &Graph<T, W>, e: &E, d: usize) -> Vec<Q> {
    let (p, r) = (g.position(&e.0), g.position(&e.1));
    (0..d).map(|k| &r[k] + q(e.2[k] as i64, 1) - &p[k]).collect()
}
fn check_stability<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) -> bool {
    let vs = verts(es);
    for &v in &vs {
        let (p, n) = (g.position(&v), g.position_normalized(&v));
        for k in 0..d { check(n[k] >= Q::zero() && n[k] < Q::one() && integral(&(&p[k] - &n[k])), c"normalised position"); }
    }
    let mut collide = false;
    for (i, &v) in vs.iter().enumerate() { for &w in &vs[..i] { collide |= same_mod1(g, v, w, d); } }
    check(g.is_stable() == !collide, c"stable exactly if no two vertices share a position");
    collide
}
fn check_local<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) -> bool {
    let vs = verts(es);
    let mut collide = false;
    for &v in &vs {
        let st = star(es, v);
        let ds: Vec<Vec<Q>> = st.iter().map(|e| delta(g, e, d)).collect();
        for i in 0..ds.len() { for j in 0..i { collide |= ds[i] == ds[j]; } }
        for i in 0..ds.len() {
            let count = (0..ds.len()).filter(|&j| ds[j] == ds[i]).count();
            let got = g.edge_by_unique_delta(&v, &Vector::new(&ds[i]));
            check(got.is_some() == (count == 1), c"an edge is found exactly if its vector is unique at the vertex");
            if let Some(e) = got { check(un(&e) == st[i], c"the edge with that vector"); }
        }
        let mut other = vec![q(1, 7); d];
        other[0] = q(12345, 7);
        check(g.edge_by_unique_delta(&v, &Vector::new(&other)).is_none(), c"no edge for other vectors");
    }
    check(g.is_locally_stable() == !collide, c"locally stable exactly if neighbours have distinct positions");
    collide
}
fn check_second<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) -> bool {
    let vs = verts(es);
    let stars: Vec<Vec<Vec<Q>>> = vs.iter().map(|&v| star(es, v).iter().map(|e| delta(g, e, d)).collect()).collect();
    let mut second = false;
    for i in 0..vs.len() { for j in 0..i {
        if !same_mod1(g, vs[i], vs[j], d) || stars[i].len() != stars[j].len() { continue; }
        // same neighbour positions with the same multiplicities
        second |= stars[i].iter().all(|x| stars[i].iter().filter(|y| *y == x).count() == stars[j].iter().filter(|y| *y == x).count());
    } }
    check(g.has_second_order_collisions() == second, c"second-order collision exactly if position and all neighbour positions agree");
    second
}

#[no_mangle]
pub extern "C-unwind" fn harness_stable() {
    let n = idx(c"n", 2, 3);
    let es = connected(n, 4 - n, 2, sz(2, 4));
    if check_stability(&g2(&es), &es, 2) { cover(c"collision"); } else { cover(c"no collision"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_stable3() {
    let es = connected(2, 1, 3, 2);
    if check_stability(&g3(&es), &es, 3) { cover(c"collision"); } else { cover(c"no collision"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_locally_stable() {
    let n = idx(c"n", 2, 3);
    let es = connected(n, 4 - n, 2, 1000000);
    if check_local(&g2(&es), &es, 2) { cover(c"collision"); } else { cover(c"no collision"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_second_order() {
    // two vertices hanging between the same neighbours
    let k = idx(c"k", 2, 3);
    let b = sz(1, 2);
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (1, 3, [0; 3]), (2, 4, shift(c"s", 2, b)), (3, 4, shift(c"s", 2, b)), (1, 1, [1, 0, 0]), (4, 4, [0, 1, 0])];
    if k == 3 { es.push((idx(c"h", 2, 3) as u32, idx(c"t", 1, 3) as u32, shift(c"x", 2, b))); }
    if check_second(&g2(&es), &es, 2) { cover(c"collision"); } else { cover(c"no collision"); }
}

fn check_all<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize, moved: bool) {
    if !moved { check_placement(g, es, d); return; }
    if check_stability(g, es, d) { cover(c"collision"); } else { cover(c"no collision"); }
    check_local(g, es, d);
    check_second(g, es, d);
}
/// graphs with many vertices, one of them anywhere
#[no_mangle]
pub extern "C-unwind" fn harness_placement_lifted() {
    let d = idx(c"d", 2, 3);
    let es = super::nets::lifted(&super::nets::larger(d, sz(3, 4) as usize, sz(7, 15) as usize), d, 1_000_000);
    if d == 2 { check_all(&g2(&es), &es, 2, false) } else { check_all(&g3(&es), &es, 3, false) }
    cover(c"end");
}
/// the code as it is, with the solver, on graphs with many vertices
#[no_mangle]
pub extern "C-unwind" fn harness_placement_large() {
    let d = idx(c"d", 2, 3);
    let es = super::nets::larger(d, sz(3, 4) as usize, sz(7, 15) as usize);
    if d == 2 { check_all(&g2(&es), &es, 2, false) } else { check_all(&g3(&es), &es, 3, false) }
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_stable_large() {
    let d = idx(c"d", 2, 3);
    let es = super::nets::lifted(&super::nets::large(d), d, 1000);
    if d == 2 { check_all(&g2(&es), &es, 2, true) } else { check_all(&g3(&es), &es, 3, true) }
}
