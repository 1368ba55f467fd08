// Translational symmetries that the given lattice misses.
use super::gr::*;
use super::nets::*;
use super::sx::*;
use rust_systre::pgraphs::*;
use rust_systre::symmetries::*;

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Out {}

fn same_classes(a: &[Vec<u32>], b: &[Vec<u32>]) -> bool { a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.len() == y.len() && x.iter().all(|v| y.contains(v)))) }

/// all facts about translations of a stable graph; returns the edges of its minimal image
fn check_minimal2(es: &[E]) -> Option<Vec<E>> {
    let g = g2(es);
    let classes = translation_classes(es, 2);
    check(same_classes(&translational_orbits(&g), &classes), c"translational orbits");
    check(!is_ladder(&g) && ladder_symmetries(&g).is_empty(), c"stable graphs are no ladders");
    check(is_minimal(&g) == (classes[0].len() == 1), c"minimal exactly if no further translation exists");
    let r = minimal_image::<_, LabelVector2d<Out>, W, Out>(&g);
    check(r.is_none() == (classes[0].len() == 1), c"nothing to do for minimal graphs");
    r.map(|h| { check(is_minimal(&h), c"the image is minimal"); h.directed_edges().iter().filter(|e| **e == e.canonical()).map(|e| { let s = e.shift.to_vec(); (e.head, e.tail, [s[0], s[1], 0]) }).collect() })
}
fn check_minimal3(es: &[E]) -> Option<Vec<E>> {
    let g = g3(es);
    let classes = translation_classes(es, 3);
    check(same_classes(&translational_orbits(&g), &classes), c"translational orbits");
    check(is_minimal(&g) == (classes[0].len() == 1), c"minimal exactly if no further translation exists");
    let r = minimal_image::<_, LabelVector3d<Out>, W, Out>(&g);
    check(r.is_none() == (classes[0].len() == 1), c"nothing to do for minimal graphs");
    r.map(|h| { check(is_minimal(&h), c"the image is minimal"); h.directed_edges().iter().filter(|e| **e == e.canonical()).map(|e| { let s = e.shift.to_vec(); (e.head, e.tail, [s[0], s[1], s[2]]) }).collect() })
}
fn sublattice(d: usize, m: usize) -> [[i32; 3]; 3] {
    let n = idx(c"index", 2, m) as i32;
    let (a, b) = (idx(c"a", 1, n as usize) as i32, idx(c"b", 1, n as usize) as i32);
    let c = if d == 3 { idx(c"c", 1, n as usize) as i32 } else { 1 };
    assume(a * b * c == n);
    let off = |n: &'static std::ffi::CStr, k: i32| conc(int(n, 0, k as i64 - 1)) as i32;
    [[a, off(c"x", b), if d == 3 { off(c"y", c) } else { 0 }], [0, b, if d == 3 { off(c"z", c) } else { 0 }], [0, 0, c]]
}

#[no_mangle]
pub extern "C-unwind" fn harness_min_cells2() {
    let nets = plane();
    let k = idx(c"net", 0, nets.len() - 1);
    let net = &nets[k];
    let h = sublattice(2, if k == 3 { 4 } else { sz(6, 9) } as usize);
    match check_minimal2(&supercell(&net.2, &h)) {
        None => check(false, c"supercells are not minimal"),
        Some(fs) => check(isomorphic(&net.2, &fs, 2), c"the minimal image of a supercell is the net itself"),
    }
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_min_cells_setting2() {
    let nets = plane();
    let net = &nets[idx(c"net", 0, 2)];
    let h = sublattice(2, 3);
    let es = transformed(&supercell(&net.2, &h), &unimodular(2, 1));
    let es = relabelled(&es);
    match check_minimal2(&es) {
        None => check(false, c"supercells are not minimal"),
        Some(fs) => check(isomorphic(&net.2, &fs, 2), c"the minimal image of a supercell is the net itself"),
    }
    cover(c"end");
}
/// representatives of the vertices in arbitrary cells (exact solver in place of the p-adic one)
#[no_mangle]
pub extern "C-unwind" fn harness_min_cells_shifted2() {
    let nets = plane();
    let net = &nets[idx(c"net", 0, 2)];
    let h = sublattice(2, 3);
    let es = reshifted(&supercell(&net.2, &h), 2, sz(1, 2));
    match check_minimal2(&es) {
        None => check(false, c"supercells are not minimal"),
        Some(fs) => check(isomorphic(&net.2, &fs, 2), c"the minimal image of a supercell is the net itself"),
    }
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_min_cells3() {
    let nets = space();
    let net = &nets[idx(c"net", 0, 3)];
    let h = sublattice(3, sz(4, 6) as usize);
    match check_minimal3(&supercell(&net.2, &h)) {
        None => check(false, c"supercells are not minimal"),
        Some(fs) => check(isomorphic(&net.2, &fs, 3), c"the minimal image of a supercell is the net itself"),
    }
    cover(c"end");
}
/// supercells with an edge added, which removes some or all of the further translations
#[no_mangle]
pub extern "C-unwind" fn harness_min_defect2() {
    let nets = plane();
    let net = &nets[idx(c"net", 0, 1)];
    let h = sublattice(2, 4);
    let mut es = supercell(&net.2, &h);
    let n = verts(&es).len();
    let (s, t, v) = (1 + idx(c"s", 0, 1) as u32, idx(c"t", 1, n) as u32, cshift(c"v", 2, 1));
    es.push((s, t, v));
    let twice = conc(int(c"twice", 0, 1)) == 1;
    if twice { es.push((3.min(n as u32), 1 + (t - 1 + 2) % n as u32, v)); }
    assume(undirected(&es).len() == es.len() && es.iter().all(|e| e.0 != e.1 || e.2 != [0; 3]));
    if sz(0, 1) == 0 { assume(v[0] >= 0 && v[1] >= 0); }
    assume(locally_stable(&es, 2) && stable(&es, 2));
    match check_minimal2(&es) {
        None => cover(c"minimal"),
        Some(fs) => {
            cover(c"not minimal");
            // the image covered by the same supercell has as many edges per vertex, and the same shells
            let k = translation_classes(&es, 2)[0].len();
            check(verts(&fs).len() * k == n && undirected(&fs).len() * k == es.len(), c"size of the image");
            let (g, f) = (g2(&es), g2(&fs));
            let seqs = |g: &G2, k: usize| { let mut r: Vec<Vec<usize>> = vec![]; for v in g.vertices() { for _ in 0..k { r.push(g.coordination_sequence(&v).take(3).collect()); } } r.sort(); r };
            check(seqs(&g, 1) == seqs(&f, k), c"coordination sequences");
        }
    }
}
/// any small graph
#[no_mangle]
pub extern "C-unwind" fn harness_min_any2() {
    let s = shift(c"s", 2, sz(10, 20));
    let k = idx(c"k", 0, 3);
    let es: Vec<E> = match k {
        0 => vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, s)],
        1 => vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (2, 2, [0, 1, 0]), (1, 2, s)],
        2 => vec![(1, 2, [0; 3]), (2, 3, [0; 3]), (3, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, [0, 1, 0]), (3, 3, s)],
        _ => vec![(1, 2, [0; 3]), (2, 3, [0; 3]), (3, 1, [1, 0, 0]), (1, 2, [0, 1, 0]), (2, 3, [0, 1, 0]), (3, 1, s)],
    };
    assume(undirected(&es).len() == es.len() && es.iter().all(|e| e.0 != e.1 || e.2 != [0; 3]));
    assume(locally_stable(&es, 2) && stable(&es, 2));
    match check_minimal2(&es) {
        None => cover(c"minimal"),
        Some(fs) => { cover(c"not minimal"); let k = translation_classes(&es, 2)[0].len(); check(verts(&fs).len() * k == verts(&es).len() && undirected(&fs).len() * k == es.len(), c"size of the image"); }
    }
}
/// ladders are recognised: a symmetry without linear part that keeps positions
#[no_mangle]
pub extern "C-unwind" fn harness_min_ladder2() {
    let n = idx(c"n", 2, 3) as u32;
    let k = idx(c"k", 0, 2);
    let (r, s) = (shift(c"r", 2, sz(4, 8)), shift(c"s", 2, sz(4, 8)));
    let mut es = vec![];
    for v in 1..=n {
        es.push((v, v, [1, 0, 0]));
        es.push((v, v, if k == 1 && v == n { r } else { [0, 1, 0] }));
        if n > 2 || v == 1 { es.push((v, v % n + 1, if k == 2 && v == n { r } else { s })); }
    }
    assume(undirected(&es).len() == es.len() && es.iter().all(|e| e.0 != e.1 || e.2 != [0; 3]) && locally_stable(&es, 2));
    let g = g2(&es);
    let (w, (pos, den)) = (with_vectors(&es, 2), positions(&es, 2));
    let id = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    let swaps = (2..=n).filter(|&v| extend(&w, 1, v, &id).is_some() && { let p = pos.iter().find(|p| p.0 == v).unwrap().1; p[0] % den == 0 && p[1] % den == 0 }).count();
    check(ladder_symmetries(&g).len() == swaps, c"ladder symmetries");
    check(is_ladder(&g) == (swaps > 0), c"ladder exactly if such a symmetry exists");
    if swaps > 0 { cover(c"ladder") } else { cover(c"no ladder") }
}

#[no_mangle]
pub extern "C-unwind" fn harness_min_ladder_cells2() {
    // layers of a square net in a two-fold ladder, whatever the vertex labels
    let t = cshift(c"t", 2, sz(1, 3));
    let base: Vec<E> = vec![(1, 1, [1, 0, 0]), (2, 2, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, [0, 1, 0]), (1, 2, t)];
    assume(locally_stable(&base, 2));
    let h = sublattice(2, 2); // see harness_min_ladder_three for others
    let es = relabelled(&supercell(&base, &h));
    let g = g2(&es);
    check(is_ladder(&g) && !is_minimal(&g), c"a ladder that is not minimal");
    match minimal_image::<_, LabelVector2d<Out>, W, Out>(&g) {
        None => check(false, c"supercells are not minimal"),
        Some(h) => {
            check(is_minimal(&h), c"the image is minimal");
            let fs: Vec<E> = h.directed_edges().iter().filter(|e| **e == e.canonical()).map(|e| { let s = e.shift.to_vec(); (e.head, e.tail, [s[0], s[1], 0]) }).collect();
            // which layer a translation leads to is a matter of choice
            check(verts(&fs).len() == 2 && fs.len() == base.len(), c"size of the image");
            check(is_ladder(&h), c"the image is a ladder");
            for v in h.vertices() { check(h.coordination_sequence(&v).take(3).eq(g2(&base).coordination_sequence(&1).take(3)), c"coordination sequences"); }
        }
    }
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_min_ladder_three() {
    let base: Vec<E> = vec![(1, 1, [1, 0, 0]), (2, 2, [1, 0, 0]), (3, 3, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, [0, 1, 0]), (3, 3, [0, 1, 0]), (1, 2, [1, 1, 0]), (2, 3, [1, 1, 0]), (3, 1, [1, 1, 0])];
    let es = supercell(&base, &[[2, 0, 0], [0, 1, 0], [0, 0, 1]]);
    // second cell's labels rotated, so that a translation combined with a layer change comes first
    let es: Vec<E> = es.iter().map(|e| { let m = |v: u32| [1, 6, 3, 2, 5, 4][v as usize - 1]; (m(e.0), m(e.1), e.2) }).collect();
    let g = g2(&es);
    check(is_ladder(&g) && !is_minimal(&g), c"a ladder that is not minimal");
    let h = minimal_image::<_, LabelVector2d<Out>, W, Out>(&g).unwrap();
    check(h.vertices().len() == 3, c"translations keep the layers of a ladder apart");
}

#[no_mangle]
pub extern "C-unwind" fn harness_min_large() {
    let d = idx(c"d", 2, 3);
    let es = super::nets::lifted(&large(d), d, 1000);
    assume(connected(&es, d) && stable(&es, d) && locally_stable(&es, d));
    match if d == 2 { check_minimal2(&es) } else { check_minimal3(&es) } {
        None => cover(c"minimal"),
        Some(fs) => {
            // a further supercell has the same image
            let m = translation_classes(&es, d)[0].len();
            check(verts(&fs).len() * m == verts(&es).len() && undirected(&fs).len() * m == undirected(&es).len(), c"the image has as many vertices as there are classes");
            cover(c"not minimal");
        }
    }
}
