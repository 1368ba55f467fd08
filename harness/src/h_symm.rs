// Symmetries of periodic graphs, against an independent search.
use super::gr::*;
use super::nets::*;
use super::sx::*;
use rust_systre::pgraphs::*;

fn part<T: LabelVector<W>>(a: &Automorphism<T, W>, d: usize) -> A {
    let (v, e, t) = a.verif_parts();
    let l = t.linear_matrix();
    let mut m = [[0; 3]; 3];
    for i in 0..3 { for j in 0..3 { m[i][j] = if i < d && j < d { let x = &l[(i, j)]; check(x.is_integer(), c"linear parts are integral"); to_i(x) } else { (i == j) as i64 }; } }
    (v.iter().map(|(x, y)| (*x, *y)).collect(), e.iter().map(|(x, y)| (un(x), un(y))).collect(), m)
}
fn same(a: &A, b: &A) -> bool { a.2 == b.2 && a.0.len() == b.0.len() && a.1.len() == b.1.len() && a.0.iter().all(|x| b.0.contains(x)) && a.1.iter().all(|x| b.1.contains(x)) }

fn check_group<T: LabelVector<W>>(g: &Graph<T, W>, es: &[E], d: usize) -> usize {
    let want = automorphisms(es, d);
    let got: Vec<A> = g.symmetries().iter().map(|a| part(a, d)).collect();
    observe(c"order", got.len() as i64);
    for a in &got { check(want.iter().any(|b| same(a, b)), c"every reported symmetry is an automorphism"); }
    for b in &want { check(got.iter().any(|a| same(a, b)), c"every automorphism is reported"); }
    check(got.len() == want.len(), c"no symmetry is reported twice");
    // orbits
    let vs = verts(es);
    let vo = g.vertex_orbits();
    let mut total = 0;
    for o in &vo { total += o.len(); for v in &vs {
        let reach = want.iter().any(|a| a.0.contains(&(o[0], *v)));
        check(reach == o.contains(v), c"vertex orbits");
    } }
    check(total == vs.len(), c"each vertex in one orbit");
    let eo = g.edge_orbits();
    let ue = undirected(es);
    let mut total = 0;
    for o in &eo {
        total += o.len();
        let o: Vec<E> = o.iter().map(un).collect();
        for e in &ue {
            let (f, r) = (o.contains(e), o.contains(&rev(e)));
            check(!(f && r), c"each edge once");
            let reach = want.iter().any(|a| a.1.contains(&(o[0], *e)) || a.1.contains(&(o[0], rev(e))));
            check(reach == (f || r), c"edge orbits");
        }
    }
    check(total == ue.len(), c"each edge in one orbit");
    want.len()
}

#[no_mangle]
pub extern "C-unwind" fn harness_sym_loops2() {
    let k = idx(c"k", 2, 3);
    let b = if k == 2 { sz(3, 5) } else { sz(1, 2) };
    let es: Vec<E> = (0..k).map(|_| (1, 1, cshift(c"s", 2, b))).collect();
    assume(es.iter().all(|e| e.2 > [0, 0, 0]) && es.windows(2).all(|x| x[0].2 < x[1].2));
    assume(connected(&es, 2));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_parallel2() {
    // bonds between two vertices
    let k = idx(c"k", 3, 4);
    let mut es: Vec<E> = vec![(1, 2, [0; 3])];
    for _ in 1..k { es.push((1, 2, cshift(c"s", 2, if k == 3 { sz(3, 4) } else { sz(1, 2) }))); }
    assume(es[1..].windows(2).all(|x| x[0].2 < x[1].2) && undirected(&es).len() == k);
    assume(connected(&es, 2) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_mixed2() {
    // a bond, a loop at each end, and a further edge
    let b = 1;
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (1, 1, cshift(c"s", 2, b)), (2, 2, cshift(c"s", 2, b))];
    let t = idx(c"t", 0, 2);
    if t > 0 { es.push((1, t as u32, cshift(c"s", 2, b))); }
    assume(es[1].2 > [0; 3] && es[2].2 > [0; 3] && (t != 1 || es[3].2 > es[1].2) && undirected(&es).len() == es.len());
    assume(connected(&es, 2) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 2 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_three2() {
    let b = 1;
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (2, 3, [0; 3])];
    let mut c = 0;
    for i in 0..sz(2, 3) { let p = idx(c"p", c, 5); c = p; let (h, t) = [(1, 3), (1, 2), (1, 1), (2, 2), (2, 3), (3, 3)][p]; es.push((h, t, if i == 2 { [1, 0, 0] } else { cshift(c"s", 2, b) })); }
    assume(undirected(&es).len() == es.len() && (es[2].0 < es[2].1 || es[2].2 > [0; 3]) && (es[3].0 < es[3].1 || es[3].2 > [0; 3]));
    assume(connected(&es, 2) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
/// layers that collide in position: the linear part does not determine the symmetry
#[no_mangle]
pub extern "C-unwind" fn harness_sym_ladder2() {
    let n = idx(c"n", 2, 3) as u32;
    let (r, s, t) = (cshift(c"r", 2, 1), cshift(c"s", 2, 1), [1, 0, 0]);
    let mut es = vec![];
    for v in 1..=n {
        es.push((v, v, t));
        es.push((v, v, r));
        if n > 2 || v == 1 { es.push((v, v % n + 1, s)); }
    }
    assume(undirected(&es).len() == es.len() && connected(&es, 2) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 2 * n as usize { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_loops3() {
    let (a, b, c) = (conc(int(c"a", -1, 1)) as i32, conc(int(c"b", -1, 1)) as i32, conc(int(c"c", -1, 1)) as i32);
    let mut es: Vec<E> = vec![(1, 1, [1, 0, 0]), (1, 1, [a, 1, 0]), (1, 1, [b, c, 1])];
    if idx(c"k", 3, 4) == 4 { let s = cshift(c"s", 3, 1); assume(s > [0; 3]); es.push((1, 1, s)); assume(undirected(&es).len() == 4); if sz(0, 1) == 0 { assume(a >= b && b >= 0); } }
    if check_group(&g3(&es), &es, 3) > 8 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_bonds3() {
    // diamond in all its small triangular settings, and with a further edge
    let (a, b, c) = (conc(int(c"a", -1, 1)) as i32, conc(int(c"b", -1, 1)) as i32, conc(int(c"c", -1, 1)) as i32);
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (1, 2, [a, 1, 0]), (2, 1, [b, c, 1])];
    let k = idx(c"k", 0, 2);
    if k > 0 { assume(a >= b && b >= sz(0, -1) as i32); let mut s = cshift(c"s", 3, 1); if k == 2 { s = [s[0], s[1], 1]; } es.push((1, k as u32, s)); assume((k == 2 || s > [0; 3]) && undirected(&es).len() == 5); }
    assume(locally_stable(&es, 3));
    if check_group(&g3(&es), &es, 3) > 4 { cover(c"special"); } else { cover(c"general"); }
}
/// vertices with planar surroundings: symmetries are found from chains of edges
#[no_mangle]
pub extern "C-unwind" fn harness_sym_chains3() {
    let (a, b, c) = (conc(int(c"a", -1, 1)) as i32, conc(int(c"b", -1, 1)) as i32, conc(int(c"c", -1, 1)) as i32);
    let srs = boolean(c"srs");
    let es: Vec<E> = if srs { vec![(1, 2, [0; 3]), (1, 3, [0; 3]), (1, 4, [0; 3]), (2, 3, [1, 0, 0]), (3, 4, [a, 1, 0]), (4, 2, [b, c, 1])] }
        else { vec![(1, 2, [0; 3]), (1, 3, [0; 3]), (1, 3, [1, 0, 0]), (2, 4, [0; 3]), (2, 4, [a, 1, 0]), (3, 4, [b, c, 1])] };
    assume(locally_stable(&es, 3));
    if check_group(&g3(&es), &es, 3) > 16 { cover(c"special"); } else { cover(c"general"); }
}
/// graphs that are not locally stable are refused
#[no_mangle]
pub extern "C-unwind" fn harness_sym_refuse() {
    let k = idx(c"k", 0, 2);
    let s = cshift(c"s", 2, 2);
    let es: Vec<E> = match k {
        0 => vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (1, 2, [0; 3]), (1, 3, s)],
        1 => vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (1, 2, [0; 3]), (2, 3, s), (3, 4, [0; 3]), (4, 1, [0; 3])],
        _ => vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (1, 2, [0; 3]), (2, 3, [0; 3]), (2, 4, s)],
    };
    let g = g2(&es);
    check(!g.is_locally_stable() == !locally_stable(&es, 2), c"local stability");
    assume(!locally_stable(&es, 2));
    cover(c"refused");
    allow_panic(true);
    g.symmetries();
    check(false, c"refused");
}

// The remaining harnesses leave shifts symbolic throughout (with an exact solver in place of the p-adic one), so that each
// path stands for a whole family of graphs.

fn distinct(es: &[E]) -> bool { undirected(es).len() == es.len() }
#[no_mangle]
pub extern "C-unwind" fn harness_sym_any_loops2() {
    let k = idx(c"k", 1, 2);
    let mut es: Vec<E> = vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0])];
    for _ in 0..k { es.push((1, 1, shift(c"s", 2, if k == 1 { 1000 } else { sz(2, 3) }))); }
    assume(distinct(&es) && es[2..].iter().all(|e| e.2 != [0; 3]));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_any_bonds2() {
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (1, 2, [0, 1, 0])];
    es.push((1, 2, shift(c"s", 2, sz(4, 6))));
    assume(distinct(&es));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_any_mixed2() {
    let k = idx(c"k", 0, 4);
    let s = shift(c"s", 2, sz(7, 12));
    let es: Vec<E> = match k {
        0 => vec![(1, 2, [0; 3]), (1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, s)],
        1 => vec![(1, 2, [0; 3]), (1, 1, [1, 0, 0]), (2, 2, [0, 1, 0]), (1, 2, s)],
        2 => vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (2, 2, [0, 1, 0]), (1, 2, s)],
        3 => vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (1, 1, [0, 1, 0]), (2, 2, s)],
        _ => vec![(1, 2, [0; 3]), (1, 2, [1, 0, 0]), (1, 2, [0, 1, 0]), (1, 1, s)],
    };
    assume(distinct(&es) && (es[3].0 != es[3].1 || s != [0; 3]) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 4 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_any_three2() {
    let s = shift(c"s", 2, sz(3, 6));
    let k = idx(c"k", 0, 3);
    let mut es: Vec<E> = vec![(1, 2, [0; 3]), (2, 3, [0; 3]), (1, 3, [1, 0, 0]), (1, 2, [0, 1, 0])];
    es.push([(1, 3, s), (3, 3, s), (2, 3, s), (1, 2, s)][k]);
    assume(distinct(&es) && (k != 1 || s != [0; 3]) && locally_stable(&es, 2));
    if check_group(&g2(&es), &es, 2) > 2 { cover(c"special"); } else { cover(c"general"); }
}
#[no_mangle]
pub extern "C-unwind" fn harness_sym_any_loops3() {
    let s = shift(c"s", 3, sz(2, 3));
    let es: Vec<E> = vec![(1, 1, [1, 0, 0]), (1, 1, [0, 1, 0]), (1, 1, [0, 0, 1]), (1, 1, s)];
    assume(distinct(&es) && s != [0; 3]);
    if check_group(&g3(&es), &es, 3) > 8 { cover(c"special"); } else { cover(c"general"); }
}

// ---- the same net in another setting ----
fn sizes<X>(o: &[Vec<X>]) -> Vec<usize> { let mut r: Vec<usize> = o.iter().map(|x| x.len()).collect(); r.sort(); r }
fn check_setting<T: LabelVector<W>>(g: &Graph<T, W>, net: &Net, base: &Graph<T, W>) {
    let n = verts(&net.2).len();
    check(g.vertices().len() == n && g.directed_edges().len() == 2 * net.2.len(), c"numbers of vertices and edges");
    check(g.is_connected(), c"connected in every setting");
    check(g.is_stable() && g.is_locally_stable() && !g.has_second_order_collisions(), c"stable in every setting");
    check(g.symmetries().len() == net.3, c"number of symmetries");
    let (vo, eo) = (g.vertex_orbits(), g.edge_orbits());
    check(vo.len() == net.4 && sizes(&vo).iter().sum::<usize>() == n, c"vertex orbits");
    check(eo.len() == net.5 && sizes(&eo).iter().sum::<usize>() == net.2.len(), c"edge orbits");
    check(sizes(&vo) == sizes(&base.vertex_orbits()) && sizes(&eo) == sizes(&base.edge_orbits()), c"orbit sizes");
    let seqs = |g: &Graph<T, W>| { let mut r: Vec<Vec<usize>> = g.vertices().iter().map(|v| g.coordination_sequence(v).take(3).collect()).collect(); r.sort(); r };
    check(seqs(g) == seqs(base), c"coordination sequences");
    check(rust_systre::symmetries::is_minimal(g), c"minimal in every setting");
}
#[no_mangle]
pub extern "C-unwind" fn harness_setting_plane() {
    let nets = plane();
    let net = &nets[idx(c"net", 0, nets.len() - 1)];
    let es = transformed(&net.2, &unimodular(2, sz(2, 4)));
    check_setting(&g2(&es), net, &g2(&net.2));
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_setting_vertices() {
    let nets = plane();
    let net = &nets[idx(c"net", 0, nets.len() - 1)];
    let es = relabelled(&reshifted(&transformed(&net.2, &unimodular(2, 1)), 2, 1000));
    check_setting(&g2(&es), net, &g2(&net.2));
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_setting_space() {
    let nets = space();
    let net = &nets[idx(c"net", 0, nets.len() - 1)];
    let es = transformed(&net.2, &unimodular(3, 1));
    check_setting(&g3(&es), net, &g3(&net.2));
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_setting_space_vertices() {
    let nets = space();
    let net = &nets[idx(c"net", 1, nets.len() - 1)];
    let mut u = unimodular(3, 0);
    u[2][0] += 1;
    let es = relabelled(&reshifted(&transformed(&net.2, &u), 3, 1000));
    check_setting(&g3(&es), net, &g3(&net.2));
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_sym_large() {
    let d = idx(c"d", 2, 3);
    let es = if d == 2 { lifted(&large(d), d, 1000) } else { large(d) };
    assume(connected(&es, d) && locally_stable(&es, d) && (d == 2 || verts(&es).len() < sz(9, 13) as usize));
    check_group2or3(&es, d);
    cover(c"end");
}
fn check_group2or3(es: &[E], d: usize) { if d == 2 { check_group(&g2(es), es, 2); } else { check_group(&g3(es), es, 3); } }
#[no_mangle]
pub extern "C-unwind" fn harness_sym_decorated() {
    let nets = decorated();
    let net = &nets[idx(c"net", 0, 1)];
    let es = relabelled(&transformed(&net.2, &unimodular(net.1, 0)));
    check_group2or3(&es, net.1);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_setting_large() {
    let nets = decorated();
    let net = &nets[idx(c"net", 0, 1)];
    let es = relabelled(&transformed(&net.2, &unimodular(net.1, if net.1 == 2 { sz(1, 2) } else { 0 })));
    if net.1 == 2 { check_setting(&g2(&es), net, &g2(&net.2)); } else { check_setting(&g3(&es), net, &g3(&net.2)); }
    cover(c"end");
}
