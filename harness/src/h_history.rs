// Questions about one graph, in any order: answers are remembered inside the graph.
use super::gr::*;
use super::nets::*;
use super::sx::*;
use num_traits::ToPrimitive;
use rust_systre::pgraphs::*;
use rust_systre::symmetries::*;

fn nums<'a>(v: impl Iterator<Item = &'a Q>) -> Vec<i64> { v.flat_map(|x| [x.numer().to_i64().unwrap(), x.denom().to_i64().unwrap()]).collect() }
fn edge(e: &E) -> Vec<i64> { vec![e.0 as i64, e.1 as i64, e.2[0] as i64, e.2[1] as i64, e.2[2] as i64] }
fn ints(v: &[Vertex]) -> Vec<i64> { v.iter().map(|&x| x as i64).collect() }
fn syms<T: LabelVector<W>>(l: &[Automorphism<T, W>]) -> Vec<Vec<i64>> {
    let mut r: Vec<Vec<i64>> = l.iter().map(|a| {
        let (v, e, t) = a.verif_parts();
        let mut x: Vec<Vec<i64>> = v.iter().map(|(x, y)| vec![*x as i64, *y as i64]).chain(e.iter().map(|(x, y)| [edge(&un(x)), edge(&un(y))].concat())).collect();
        x.sort();
        x.push(nums(t.linear_matrix().iter()));
        x.push(nums(t.shift().iter()));
        x.concat()
    }).collect();
    r.sort();
    r
}
const KINDS: usize = 20;
/// question k of graph g, as numbers; v and w are vertices of the graph
fn ask<T: LabelVector<W>>(g: &Graph<T, W>, k: usize, v: Vertex, w: Vertex) -> Vec<Vec<i64>> {
    match k {
        0 => vec![ints(&g.vertices())],
        1 => g.incidences(&v).iter().map(|e| edge(&un(e))).collect(),
        2 => g.incidences(&w).iter().map(|e| edge(&un(e))).collect(),
        3 => g.directed_edges().iter().map(|e| edge(&un(e))).collect(),
        4 => vec![nums(g.position(&v).iter())],
        5 => vec![nums(g.position(&w).iter())],
        6 => vec![nums(g.position_normalized(&w).iter())],
        7 => { let e = g.incidences(&w)[0]; vec![nums(g.edge_vector(&e).iter())] }
        8 => { let e = g.incidences(&v)[0]; let d = g.edge_vector(&e); g.edge_by_unique_delta(&v, &d).iter().map(|e| edge(&un(e))).collect() }
        9 => { let e = g.incidences(&w)[0]; let d = g.edge_vector(&e); [&v, &w].iter().flat_map(|x| g.edge_by_unique_delta(x, &d)).map(|e| edge(&un(&e))).collect() }
        10 => vec![vec![g.is_stable() as i64, g.is_locally_stable() as i64, g.has_second_order_collisions() as i64, g.is_connected() as i64]],
        11 => vec![g.coordination_sequence(&v).take(2).map(|x| x as i64).collect()],
        12 => vec![g.coordination_sequence(&w).take(3).map(|x| x as i64).collect()],
        13 => syms(&g.symmetries()),
        14 => syms(&symmetries(g)),
        15 => g.vertex_orbits().iter().map(|o| ints(o)).collect(),
        16 => g.edge_orbits().iter().map(|o| o.iter().flat_map(|e| edge(&un(e))).collect()).collect(),
        17 => translational_orbits(g).iter().map(|o| ints(o)).collect(),
        18 => { let h = g.shift_normalized(); h.directed_edges().iter().map(|e| edge(&un(e))).chain([nums(h.position(&v).iter()), nums(h.position(&w).iter())]).collect() }
        _ => match minimal_image::<T, T, W, W>(g) { None => vec![], Some(h) => h.directed_edges().iter().map(|e| edge(&un(e))).collect() },
    }
}
fn history<T: LabelVector<W>>(make: &dyn Fn() -> Graph<T, W>, es: &[E]) {
    let vs = verts(es);
    let (v, w) = (vs[0], vs[vs.len() - 1]);
    let g = make();
    let a = idx(c"first", 0, KINDS - 1);
    let b = idx(c"second", 0, KINDS - 1);
    let c = if sz(0, 1) == 1 { idx(c"third", 0, KINDS - 1) } else { a };
    for (i, &k) in [a, b, c, b].iter().enumerate() {
        let x = ask(&g, k, v, w);
        observe(c"size", x.iter().map(|l| l.len() as i64).sum());
        check(x == ask(&make(), k, v, w), [c"the first answer", c"the answer after another question", c"the answer after two questions", c"the answer to a question asked before"][i]);
    }
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_history2() {
    let es: Vec<E> = match idx(c"net", 0, 4) {
        0 => vec![(1, 2, Z), (1, 2, [1, 0, 0]), (1, 2, [0, 1, 0])],
        // a general net
        1 => vec![(3, 7, Z), (3, 7, [1, 0, 0]), (7, 3, [0, 1, 0]), (3, 3, [1, 2, 0])],
        // a ladder
        2 => vec![(2, 5, Z), (2, 2, [1, 0, 0]), (5, 5, [1, 0, 0]), (2, 2, [0, 1, 0]), (5, 5, [0, 1, 0])],
        // the square net over a doubled cell
        3 => vec![(4, 9, Z), (9, 4, [1, 0, 0]), (4, 4, [0, 1, 0]), (9, 9, [0, 1, 0])],
        // three vertices, one of them of degree two
        _ => vec![(1, 8, Z), (8, 6, [2, 0, 0]), (6, 1, [-1, 0, 0]), (1, 6, [0, 1, 0]), (1, 1, [0, 1, 0])],
    };
    let t = cshift(c"t", 1, sz(0, 2));
    let w = verts(&es)[1];
    let es: Vec<E> = es.iter().map(|e| { let s = if e.1 == w { sum(&e.2, &t) } else { e.2 }; (e.0, e.1, if e.0 == w { dif(&s, &t) } else { s }) }).collect();
    history(&|| g2(&es), &es);
}
#[no_mangle]
pub extern "C-unwind" fn harness_history3() {
    let es: Vec<E> = match idx(c"net", 0, sz(0, 1) as usize) {
        0 => vec![(1, 1, [1, 0, 0]), (1, 2, Z), (1, 2, [0, 1, 0]), (2, 1, [0, 0, 1]), (2, 2, [1, 1, 0])],
        _ => vec![(4, 9, Z), (9, 4, [1, 0, 0]), (4, 4, [0, 1, 1]), (9, 9, [0, 1, 1]), (4, 4, [1, 0, 2]), (9, 9, [1, 0, 2])],
    };
    history(&|| g3(&es), &es);
}
