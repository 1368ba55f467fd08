// Well-known nets, and changes of setting that do not change what they are.
#![allow(dead_code)]
use super::gr::*;
use super::sx::*;

pub const Z: [i32; 3] = [0; 3];
const X: [i32; 3] = [1, 0, 0];
const Y: [i32; 3] = [0, 1, 0];
const C: [i32; 3] = [0, 0, 1];
/// name, dimension, edges, number of symmetries modulo translations, vertex orbits, edge orbits
pub type Net = (&'static str, usize, Vec<E>, usize, usize, usize);
pub fn plane() -> Vec<Net> { vec![
    ("sql", 2, vec![(1, 1, X), (1, 1, Y)], 8, 1, 1),
    ("hcb", 2, vec![(1, 2, Z), (1, 2, X), (1, 2, Y)], 12, 1, 1),
    ("hxl", 2, vec![(1, 1, X), (1, 1, Y), (1, 1, [1, 1, 0])], 12, 1, 1),
    ("kgm", 2, vec![(1, 2, Z), (1, 3, Z), (2, 3, Z), (2, 1, X), (3, 1, Y), (2, 3, [1, -1, 0])], 12, 1, 1),
    // a decorated square net with a general edge
    ("low", 2, vec![(1, 2, Z), (1, 2, X), (1, 2, Y), (1, 1, [1, 2, 0])], 1, 2, 4),
] }
pub fn space() -> Vec<Net> { vec![
    ("pcu", 3, vec![(1, 1, X), (1, 1, Y), (1, 1, C)], 48, 1, 1),
    ("dia", 3, vec![(1, 2, Z), (1, 2, X), (1, 2, Y), (1, 2, C)], 48, 1, 1),
    ("srs", 3, vec![(1, 2, Z), (1, 3, Z), (1, 4, Z), (2, 3, X), (3, 4, Y), (4, 2, C)], 24, 1, 1),
    ("ths", 3, vec![(1, 2, Z), (1, 3, Z), (1, 3, X), (2, 4, Z), (2, 4, Y), (3, 4, C)], 16, 1, 2),
] }
/// an arbitrary integral change of basis: shears decided per path, times a permutation of the axes with signs
pub fn unimodular(d: usize, b: i64) -> [[i32; 3]; 3] {
    let mut u = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
    let add = |u: &mut [[i32; 3]; 3], i: usize, j: usize, k: i32| { for c in 0..3 { u[i][c] += k * u[j][c]; } };
    add(&mut u, 0, 1, conc(int(c"u", -b, b)) as i32);
    if d == 3 { add(&mut u, 1, 2, conc(int(c"u", -b, b)) as i32); add(&mut u, 2, 0, conc(int(c"u", -b, b)) as i32); }
    else { add(&mut u, 1, 0, conc(int(c"u", -b, b)) as i32); }
    if conc(int(c"flip", 0, 1)) == 1 { u.swap(0, 1); }
    u
}
pub fn transformed(es: &[E], u: &[[i32; 3]; 3]) -> Vec<E> {
    es.iter().map(|e| { let mut s = [0; 3]; for i in 0..3 { for j in 0..3 { s[i] += u[i][j] * e.2[j]; } } (e.0, e.1, s) }).collect()
}
/// other representatives of the vertices, arbitrary shifts
pub fn reshifted(es: &[E], d: usize, b: i64) -> Vec<E> {
    let t: Vec<(u32, [i32; 3])> = verts(es).iter().enumerate().map(|(i, &v)| (v, if i == 0 { Z } else { shift(c"t", d, b) })).collect();
    let at = |v: u32| t.iter().find(|x| x.0 == v).unwrap().1;
    es.iter().map(|e| (e.0, e.1, dif(&sum(&e.2, &at(e.1)), &at(e.0)))).collect()
}
/// the last vertex at any other representative
pub fn lifted(es: &[E], d: usize, b: i64) -> Vec<E> {
    let v = *verts(es).last().unwrap();
    let t = shift(c"t", d, b);
    es.iter().map(|e| { let s = if e.1 == v { sum(&e.2, &t) } else { e.2 }; (e.0, e.1, if e.0 == v { dif(&s, &t) } else { s }) }).collect()
}
/// other labels: rotation or reversal of the labels, spread out
pub fn relabelled(es: &[E]) -> Vec<E> {
    let n = verts(es).len() as u32;
    let r = idx(c"rot", 0, n as usize - 1) as u32;
    let f = conc(int(c"rev", 0, 1)) == 1;
    let m = |v: u32| { let k = (v - 1 + r) % n; 3 + 7 * if f { n - 1 - k } else { k } };
    es.iter().map(|e| (m(e.0), m(e.1), e.2)).collect()
}

/// larger nets: a square or an octahedron in place of each vertex of the square or cubic net
pub fn decorated() -> Vec<Net> {
    let cab: Vec<E> = (0..6u32).flat_map(|i| (0..i).filter(move |j| (i + j) % 6 != 5).map(move |j| (j + 1, i + 1, Z)))
        .chain((0..3).map(|i| { let mut s = Z; s[i as usize] = 1; (i + 1, 6 - i, s) })).collect();
    vec![("fes", 2, vec![(1, 2, Z), (2, 3, Z), (3, 4, Z), (4, 1, Z), (1, 3, X), (2, 4, Y)], 8, 1, 2), ("cab", 3, cab, 48, 1, 2)]
}
/// graphs with many vertices and far apart labels, always with a connected quotient
pub fn large(d: usize) -> Vec<E> { larger(d, sz(2, 3) as usize, sz(3, 11) as usize) }
pub fn larger(d: usize, ns: usize, xs: usize) -> Vec<E> {
    let n = [5, 7, 9, 12, 16, 33][idx(c"n", 0, ns)];
    let lab = idx(c"labels", 0, 2);
    let l = |i: usize| -> u32 { let i = (i % n) as u32; match lab { 0 => i + 1, 1 => 2000 - 37 * i, _ => u32::MAX - (i * 5) % n as u32 * 1001 } };
    let x = idx(c"variant", 0, xs);
    let unit = |k: usize, c: i32| { let mut s = Z; s[k] = c; s };
    let mut es: Vec<E> = vec![];
    match idx(c"family", 0, 3) {
        // a ring whose ends are one cell apart, with chords
        0 => for i in 0..n {
            es.push((l(i), l(i + 1), unit(0, (i + 1 == n) as i32)));
            if i % 2 == 0 { es.push((l(i), l(i + 2 + x % (n - 3)), unit(1, 1 - 2 * (i % 4 / 2) as i32))); }
            if d == 3 && i % 3 == x % 3 { es.push((l(i), l(i), unit(2, 1 + (i == 0) as i32))); }
        },
        // a hub with spokes
        1 => for i in 1..n {
            es.push((l(0), l(i), unit(i % d, (i % 3) as i32 - 1)));
            if i + 1 < n || x % 2 == 0 { es.push((l(i), l(if i + 1 < n { i + 1 } else { 1 }), unit((i + x) % d, (i % 2) as i32))); }
        },
        // layers of the square or cubic net, each moved with respect to the one before; x = 3k: a defect
        2 => for i in 0..n {
            let wrap = |j: usize| (j / n) as i32;
            es.push((l(i), l(i + 1), unit(0, wrap(i + 1))));
            let mut s = unit(1, 1);
            s[0] = wrap(i + x % n);
            es.push((l(i), l(i + x % n), s));
            if d == 3 { es.push((l(i), l(i), unit(2, 1))); }
            if x % 3 == 0 && i == 1 { es.push((l(i), l(i + 2), [wrap(i + 2) + 1, 1, 0])); }
        },
        // a tree with further edges, all irregular
        _ => {
            let mut r = (x * 7919 + n * 31 + d) as u64;
            let mut rnd = |m: u64| { r = (r * 1103515245 + 12345) % (1 << 31); (r >> 12) % m };
            for i in 1..n + 2 + n / 2 {
                let (h, t) = if i < n { (rnd(i as u64) as usize, i) } else { (rnd(n as u64) as usize, rnd(n as u64) as usize) };
                let mut s = Z;
                for k in 0..d { s[k] = rnd(5) as i32 - 2; }
                es.push(if rnd(2) == 0 { (l(h), l(t), s) } else { rev(&(l(h), l(t), s)) });
            }
        }
    }
    undirected(&es)
}
