// Shift normalisation and component measures.
use super::gr::*;
use super::sx::*;
use rust_systre::pgraphs::*;

fn check_measures<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) -> bool {
    let vs = verts(es);
    let pot = potentials(es);
    let mut first = None;
    for &v in &vs {
        let (size, rank, mult) = graph_component_measures(g, &v);
        let comp = pot.iter().find(|p| p.0 == v).unwrap().1;
        check(size == pot.iter().filter(|p| p.1 == comp).count(), c"number of vertices in the component");
        let (r, m) = lattice(&cycles(es, v), d);
        check(rank == r, c"rank of the translations of the component");
        check(mult == if r == d { Some(m as i32) } else { None }, c"number of translates of the component");
        if first.is_none() { first = Some((size, m)); }
    }
    let conn = first.map_or(true, |(s, m)| s == vs.len() && m == 1);
    check(g.is_connected() == conn, c"connected exactly if one component covers everything");
    conn
}

#[no_mangle]
pub extern "C-unwind" fn harness_measures2() {
    let k = idx(c"k", 1, 3);
    let n = if k == 3 { 2 } else { 3 };
    let b = if k == 3 { sz(2, 3) } else { 3 };
    let es: Vec<E> = (0..k).map(|i| { let h = idx(c"head", 1, n) as u32; let t = idx(c"tail", 1, n) as u32; assume(h <= t || i > 0); (h, t, shift(c"s", 2, b)) }).collect();
    let g = g2(&es);
    if check_measures(&g, &es, 2) { cover(c"connected"); } else { cover(c"disconnected"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_measures_loops2() {
    // one vertex with three loops: every sublattice of the plane
    let b = sz(3, 4);
    let es: Vec<E> = (0..3).map(|i| (1, 1, shift(c"s", 2, if i == 2 { 1 } else { b }))).collect();
    let g = g2(&es);
    if check_measures(&g, &es, 2) { cover(c"connected"); } else { cover(c"disconnected"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_measures3() {
    // upper triangular translations and one further loop
    let n = sz(2, 3);
    let es: Vec<E> = vec![
        (1, 2, [5, -7, 11]),
        (2, 1, [int(c"p", -n, n) as i32, 0, 0]),
        (1, 1, [int(c"q", -n, n) as i32, int(c"r", -n, n) as i32, 0]),
        (2, 2, [1, int(c"t", -n, n) as i32, int(c"u", 0, n) as i32]),
    ];
    let g = g3(&es);
    if check_measures(&g, &es, 3) { cover(c"connected"); } else { cover(c"disconnected"); }
}

/// the normalised graph is the original one up to a choice of vertex representatives
fn check_normalized<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E]) {
    let h = g.shift_normalized();
    let hs: Vec<E> = h.directed_edges().iter().map(un).collect();
    check(h.vertices() == verts(es), c"same vertices");
    check(hs.len() == 2 * undirected(es).len(), c"same number of edges");
    let pot = potentials(es);
    let vs = verts(es);
    // offsets t with: edge (h, t, s) of the original <-> edge (h, t, off[h] + s - off[t]) of the result.  The result has a
    // spanning forest of edges with shift zero; along it the offsets are determined.
    let off_of = |from: u32, off: &Vec<(u32, [i32; 3])>, v: u32| -> Option<[i32; 3]> { let _ = from; off.iter().find(|o| o.0 == v).map(|o| o.1) };
    let mut ok_any = true;
    let comps = pot.iter().map(|p| p.1).max().map_or(0, |m| m + 1);
    for c in 0..comps {
        let members: Vec<u32> = vs.iter().cloned().filter(|v| pot.iter().any(|p| p.0 == *v && p.1 == c)).collect();
        let sub: Vec<E> = undirected(es).into_iter().filter(|e| members.contains(&e.0)).collect();
        let hsub: Vec<E> = hs.iter().cloned().filter(|e| members.contains(&e.0)).collect();
        check(hsub.len() == 2 * sub.len(), c"same number of edges in the component");
        // zero-shift edges connect the component
        let mut reach = vec![members[0]];
        let mut k = 0;
        while k < reach.len() { for e in &hsub { if e.0 == reach[k] && e.2 == [0, 0, 0] && !reach.contains(&e.1) { reach.push(e.1); } } k += 1; }
        check(reach.len() == members.len(), c"a spanning tree has shift zero");
        // search the offsets among the path sums of the original
        let mut cands: Vec<Vec<(u32, [i32; 3])>> = vec![vec![(members[0], [0; 3])]];
        for &v in &reach[1..] {
            let mut next = vec![];
            for o in &cands {
                for e in &sub { for f in [*e, rev(e)] {
                    if f.1 == v { if let Some(a) = off_of(f.0, o, f.0) { let mut o2 = o.clone(); o2.push((v, sum(&a, &f.2))); if !next.contains(&o2) { next.push(o2); } } }
                } }
            }
            cands = next;
        }
        let mut found = false;
        for o in &cands {
            let at = |v: u32| o.iter().find(|x| x.0 == v).unwrap().1;
            // as a multiset: the images are distinct edges of the result
            let img: Vec<E> = sub.iter().map(|e| (e.0, e.1, dif(&sum(&at(e.0), &e.2), &at(e.1)))).collect();
            if img.iter().all(|e| hsub.contains(e)) { found = true; break; }
        }
        ok_any &= found;
    }
    check(ok_any, c"the result differs only by the choice of vertex representatives");
}
#[no_mangle]
pub extern "C-unwind" fn harness_normalized2() {
    let n = idx(c"n", 1, 2);
    let k = idx(c"k", 1, 3);
    let es: Vec<E> = (0..k).map(|_| { let h = idx(c"head", 1, n) as u32; let t = idx(c"tail", 1, n) as u32; (h, t, shift(c"s", 2, 1000000)) }).collect();
    check_normalized(&g2(&es), &es);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_normalized3() {
    // triangle and path shapes, with a chord or loop
    let es: Vec<E> = vec![(1, 2, shift(c"s", 2, 1000000)), (3, 2, shift(c"s", 2, 1000000)), (idx(c"h", 1, 3) as u32, idx(c"t", 1, 3) as u32, shift(c"s", 2, 1000000))];
    check_normalized(&g2(&es), &es);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_normalized4() {
    // several components
    let es: Vec<E> = vec![(2, 4, shift(c"s", 2, 1000000)), (1, 3, shift(c"s", 2, 1000000)), (1, 3, shift(c"s", 2, 1000000)), (idx(c"h", 1, 4) as u32, idx(c"t", 1, 4) as u32, [1, 0, 0])];
    check_normalized(&g2(&es), &es);
    cover(c"end");
}
/// vertex labels in any order along a path, so that edges are met from either end
#[no_mangle]
pub extern "C-unwind" fn harness_normalized_order() {
    let perm = [[1, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]][idx(c"perm", 0, 5)];
    let mut es: Vec<E> = vec![(perm[0], perm[1], [0; 3]), (perm[1], perm[2], shift(c"s", 2, 1000000))];
    for _ in 0..2 { es.push((idx(c"h", 1, 3) as u32, idx(c"t", 1, 3) as u32, shift(c"s", 2, 1000000))); }
    let e = es[3];
    assume(e.0 <= e.1);
    check_normalized(&g2(&es), &es);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_measures_large() {
    let d = idx(c"d", 2, 3);
    let mut es = super::nets::large(d);
    // leaving out an edge may divide the graph or thin out its translations; doubling them makes several translates
    let k = idx(c"without", 0, 3);
    if k > 0 { es.remove(es.len() * k / 4); }
    let m = idx(c"times", 1, 2) as i32;
    for e in es.iter_mut() { e.2[d - 1] *= m; }
    if if d == 2 { check_measures(&g2(&es), &es, 2) } else { check_measures(&g3(&es), &es, 3) } { cover(c"connected"); } else { cover(c"disconnected"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_normalized_large() {
    let d = idx(c"d", 2, 3);
    let mut es = super::nets::lifted(&super::nets::large(d), d, 1000);
    let k = idx(c"without", 0, 3);
    if k > 0 { es.remove(es.len() * k / 4); }
    if d == 2 { check_normalized(&g2(&es), &es); } else { check_normalized(&g3(&es), &es); }
    cover(c"end");
}
