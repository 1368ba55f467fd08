// Periodic graphs as values: label vectors, edges, construction, incidences, coordination sequences.
use super::gr::*;
use super::sx::*;
use rust_systre::pgraphs::*;

fn check_label<T: LabelVector<W>>(d: usize) {
    let b = 1000000000;
    let comp = |n: &'static std::ffi::CStr| -> Vec<i32> { (0..d).map(|_| int(n, -b, b) as i32).collect() };
    let (x, y) = (comp(c"x"), comp(c"y"));
    let (u, v) = (T::from_vec(&x), T::from_vec(&y));
    check(T::dim() == d, c"dimension");
    check(u.to_vec() == x, c"round trip");
    for (k, z) in (u + v).to_vec().iter().enumerate() { check(*z == x[k] + y[k], c"sum"); }
    for (k, z) in (u - v).to_vec().iter().enumerate() { check(*z == x[k] - y[k], c"difference"); }
    for (k, z) in (-u).to_vec().iter().enumerate() { check(*z == -x[k], c"negative"); }
    check(T::zero().to_vec().iter().all(|z| *z == 0) && T::zero().is_zero(), c"zero");
    check(u.is_zero() == x.iter().all(|z| *z == 0), c"is_zero");
    check(u.is_zero() as u8 + u.is_positive() as u8 + u.is_negative() as u8 == 1, c"exactly one sign");
    check(u.is_positive() == (-u).is_negative(), c"signs are opposite");
    check((u == v) == (x == y), c"equality");
}
#[no_mangle]
pub extern "C-unwind" fn harness_label2() { check_label::<L2>(2); cover(c"end"); }
#[no_mangle]
pub extern "C-unwind" fn harness_label3() { check_label::<L3>(3); cover(c"end"); }

/// positive label vectors are closed under addition, so the sign is that of an ordered group
#[no_mangle]
pub extern "C-unwind" fn harness_label_order() {
    let b = 1000000000;
    let (u, v) = (L3::new(int(c"x", -b, b) as i32, int(c"y", -b, b) as i32, int(c"z", -b, b) as i32), L3::new(int(c"x", -b, b) as i32, int(c"y", -b, b) as i32, int(c"z", -b, b) as i32));
    check(!(u.is_positive() && v.is_positive()) || (u + v).is_positive(), c"sum of positives is positive");
    check((u < v) == (v - u).is_positive(), c"order agrees with the sign of the difference");
    let (u, v) = (L2::new(int(c"x", -b, b) as i32, int(c"y", -b, b) as i32), L2::new(int(c"x", -b, b) as i32, int(c"y", -b, b) as i32));
    check(!(u.is_positive() && v.is_positive()) || (u + v).is_positive(), c"sum of positives is positive");
    check((u < v) == (v - u).is_positive(), c"order agrees with the sign of the difference");
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_edge() {
    let d = idx(c"dim", 2, 3);
    let b = 1000000;
    let e: E = (int(c"head", 0, b) as u32, int(c"tail", 0, b) as u32, shift(c"s", d, b));
    macro_rules! go { ($mk:ident) => {{
        let x = $mk(&e);
        let n = -&x;
        check(un(&n) == rev(&e), c"reverse");
        check(-&n == x, c"reversing twice");
        let k = x.canonical();
        check(k == x || k == n, c"canonical is one of the two directions");
        check(n.canonical() == k, c"both directions have the same canonical form");
        check(k.canonical() == k, c"canonical is idempotent");
        check(k.head <= k.tail, c"canonical edges go up");
    }} }
    if d == 2 { go!(e2) } else { go!(e3) }
    cover(c"end");
}

fn check_graph<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E]) {
    let vs = verts(es);
    check(g.vertices() == vs, c"vertices are the end points");
    let mut total = 0;
    for &v in &vs {
        let want = star(es, v);
        let got: Vec<E> = g.incidences(&v).iter().map(un).collect();
        total += want.len();
        check(got.len() == want.len(), c"degree");
        for e in &want { check(got.contains(e), c"every edge is incident to both its ends"); }
        for e in &got { check(e.0 == v && want.contains(e), c"only given edges are incident"); }
    }
    let all = g.directed_edges();
    check(all.len() == total, c"directed edges");
    check(all.len() == 2 * undirected(es).len(), c"each edge in both directions");
}

#[no_mangle]
pub extern "C-unwind" fn harness_graph_build2() {
    let k = idx(c"k", 1, 3);
    let es = graph(k, if k == 3 { sz(2, 3) as usize } else { 3 }, 2, 100000);
    check_graph(&g2(&es), &es);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_graph_build3() {
    let k = idx(c"k", 1, sz(2, 3) as usize);
    let es = graph(k, 2, 3, 100000);
    check_graph(&g3(&es), &es);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_graph_build4() {
    // all edges between the same two vertices, so that only the shifts tell them apart
    let es: Vec<E> = (0..sz(5, 6)).map(|i| { let s = shift(c"s", 2, 1000); if i == 1 { (2, 1, s) } else { (1, 2, s) } }).collect();
    check_graph(&g2(&es), &es);
    cover(c"end");
}

/// the order and direction in which edges are given do not matter
#[no_mangle]
pub extern "C-unwind" fn harness_graph_order() {
    let es = graph(3, sz(2, 3) as usize, 2, 100000);
    let perm = [[1, 0, 2], [1, 2, 0], [0, 2, 1], [0, 1, 2], [2, 0, 1], [2, 1, 0]][idx(c"perm", 0, sz(1, 5) as usize)];
    let flip = [0, 1, 2, 7, 3, 4, 5, 6][idx(c"flip", 0, sz(3, 7) as usize)];
    let fs: Vec<E> = perm.iter().map(|&i| if flip >> i & 1 == 1 { rev(&es[i]) } else { es[i] }).collect();
    let (g, h) = (g2(&es), g2(&fs));
    let (x, y) = (g.directed_edges(), h.directed_edges());
    check(x.len() == y.len(), c"same number of edges");
    for (a, b) in x.iter().zip(&y) { check(a == b, c"same edges in the same order"); }
    cover(c"end");
}

/// shells by breadth-first search with the full history
fn shells(es: &[E], v0: u32, n: usize) -> Vec<usize> {
    let mut seen: Vec<(u32, [i32; 3])> = vec![(v0, [0; 3])];
    let mut from = 0;
    let mut res = vec![];
    for _ in 0..n {
        let to = seen.len();
        for i in from..to {
            let (v, s) = seen[i];
            for e in star(es, v) {
                let w = (e.1, sum(&s, &e.2));
                if !seen.contains(&w) { seen.push(w); }
            }
        }
        from = to;
        res.push(seen.len() - to);
    }
    res
}
fn check_coordination(es: &[E], d: usize, n: usize) {
    let vs = verts(es);
    let v0 = vs[idx(c"v0", 0, vs.len() - 1)];
    let want = shells(es, v0, n);
    let got: Vec<usize> = if d == 2 { g2(es).coordination_sequence(&v0).take(n).collect() } else { g3(es).coordination_sequence(&v0).take(n).collect() };
    for k in 0..n {
        observe(c"cs", got[k] as i64);
        check(got[k] == want[k], c"number of vertices at this distance");
    }
}
#[no_mangle]
pub extern "C-unwind" fn harness_coordination2() {
    let k = idx(c"k", 1, 3);
    let es: Vec<E> = (0..k).map(|_| { let (h, t) = (idx(c"head", 1, 2) as u32, idx(c"tail", 1, 2) as u32); (h, t, cshift(c"s", 2, 1)) }).collect();
    assume(k < 3 || es[0].2 == [0, 0, 0] || es[0].2 == [1, 0, 0]);
    check_coordination(&es, 2, sz(3, 4) as usize);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_coordination3() {
    let t = idx(c"tail", 1, 2) as u32;
    let es: Vec<E> = vec![(1, t, [1, 0, 0]), (t, 1, cshift(c"s", 3, 1)), (1, 2, cshift(c"t", 3, 1)), (2, 2, [0, 0, 1])];
    check_coordination(&es, 3, sz(3, 4) as usize);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_coordination_sym() {
    // the shifts stay symbolic: the sequence may depend on their coincidences only
    let es: Vec<E> = vec![(1, 1, shift(c"s", 2, 1000)), (1, 2, shift(c"t", 2, 1000)), (1, 2, [0, 0, 0])];
    check_coordination(&es, 2, sz(3, 4) as usize);
    cover(c"end");
}

/// many edges, repeated, reversed and in another order
#[no_mangle]
pub extern "C-unwind" fn harness_graph_large() {
    let d = idx(c"d", 2, 3);
    let es = super::nets::lifted(&super::nets::larger(d, 5, sz(3, 11) as usize), d, 1000);
    let n = es.len();
    let k = [1, 3, 7][idx(c"stride", 0, 2)];
    let mut fs: Vec<E> = vec![];
    for i in 0..n + 3 { let e = es[(i * k + i * k / n) % n]; fs.push(if i % 3 == 1 { rev(&e) } else { e }); }
    for e in &es { fs.push(if e.0 % 2 == 0 { rev(e) } else { *e }); }
    if d == 2 { check_graph(&g2(&fs), &es); } else { check_graph(&g3(&fs), &es); }
    cover(c"end");
}
/// many vertices, and many shells of small graphs
#[no_mangle]
pub extern "C-unwind" fn harness_coordination_large() {
    let d = idx(c"d", 2, 3);
    if idx(c"small", 0, 1) == 1 {
        let mut nets = super::nets::plane();
        nets.extend(super::nets::space());
        let net = &nets[idx(c"net", 0, nets.len() - 1)];
        assume(net.1 == d);
        check_coordination(&net.2, d, if d == 2 { sz(7, 10) } else { sz(4, 5) } as usize);
    } else {
        check_coordination(&super::nets::large(d), d, 4);
    }
    cover(c"end");
}
