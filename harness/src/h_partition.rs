// Partition: the equivalence closure of the united pairs.
use super::sx::*;
use rust_systre::partitions::Partition;

const N: usize = 8;
#[derive(Clone)]
struct Ref { n: usize, cls: [usize; N] }
impl Ref {
    fn new(n: usize) -> Ref { let mut cls = [0; N]; for i in 0..N { cls[i] = i; } Ref { n, cls } }
    fn unite(&mut self, a: usize, b: usize) { let (x, y) = (self.cls[a], self.cls[b]); for i in 0..N { if self.cls[i] == y { self.cls[i] = x; } } }
}
// spread the values so that they are not their own indices
fn val(i: usize) -> u32 { 1000 - 7 * i as u32 }

fn compare(p: &Partition<u32>, r: &Ref) {
    for i in 0..r.n {
        let f = p.find(&val(i));
        let k = (0..r.n).find(|&k| val(k) == f);
        check(k.map_or(false, |k| r.cls[k] == r.cls[i]), c"the representative is in the class");
        check(p.find(&f) == f, c"a representative represents itself");
        for j in 0..i { check((p.find(&val(j)) == f) == (r.cls[i] == r.cls[j]), c"equivalent exactly if connected by unions"); }
        check(p.find(&val(i)) == f, c"find does not change classes");
    }
}
fn compare_classes(p: &Partition<u32>, r: &Ref, elms: &[usize]) {
    let e: Vec<u32> = elms.iter().map(|&i| val(i)).collect();
    let cs = p.classes(&e);
    // reference: group in order of first appearance
    let mut want: Vec<Vec<usize>> = vec![];
    for &i in elms {
        match want.iter().position(|c| r.cls[c[0]] == r.cls[i]) { Some(k) => want[k].push(i), None => want.push(vec![i]) }
    }
    check(cs.len() == want.len(), c"number of classes");
    for (c, w) in cs.iter().zip(&want) {
        check(c.len() == w.len(), c"class size");
        for (x, &i) in c.iter().zip(w) { check(*x == val(i), c"class members in input order"); }
    }
}

#[no_mangle]
pub extern "C-unwind" fn harness_part_unions() {
    let n = sz(5, 6) as usize;
    let k = idx(c"k", 0, 4);
    let mut p = Partition::new();
    let mut r = Ref::new(n);
    for _ in 0..k {
        let a = idx(c"a", 0, n - 1);
        let b = idx(c"b", 0, n - 1);
        assume(a <= b || k <= 2);
        p.unite(&val(a), &val(b));
        r.unite(a, b);
    }
    compare(&p, &r);
    cover(c"end");
}

#[no_mangle]
pub extern "C-unwind" fn harness_part_classes() {
    let n = 4;
    let mut p = Partition::new();
    let mut r = Ref::new(n);
    for _ in 0..2 {
        let a = idx(c"a", 0, n - 1);
        let b = idx(c"b", 0, n - 1);
        assume(a <= b);
        p.unite(&val(a), &val(b));
        r.unite(a, b);
    }
    let k = idx(c"k", 0, sz(4, 5) as usize);
    let e: Vec<usize> = (0..k).map(|_| idx(c"e", 0, n - 1)).collect();
    compare_classes(&p, &r, &e);
    cover(c"end");
}

/// deep trees: unions of equal ranks, path compression, then a further union
#[no_mangle]
pub extern "C-unwind" fn harness_part_deep() {
    let mut p = Partition::new();
    let mut r = Ref::new(N);
    for (a, b) in [(0, 1), (2, 3), (4, 5), (6, 7), (1, 3), (5, 7)] {
        let (a, b) = if conc(int(c"flip", 0, 1)) == 1 { (b, a) } else { (a, b) };
        p.unite(&val(a), &val(b));
        r.unite(a, b);
    }
    // a find may compress any path first
    let f = idx(c"f", 0, N - 1);
    p.find(&val(f));
    let (a, b) = (idx(c"a", 0, 3), idx(c"b", 4, 7));
    p.unite(&val(a), &val(b));
    r.unite(a, b);
    compare(&p, &r);
    compare_classes(&p, &r, &[0, 4, 1, 5, 2, 6, 3, 7]);
    cover(c"end");
}

/// interleaved queries and unions
#[no_mangle]
pub extern "C-unwind" fn harness_part_history() {
    let n = 4;
    let mut p = Partition::new();
    let mut r = Ref::new(n);
    for _ in 0..sz(4, 5) {
        let a = idx(c"a", 0, n - 1);
        let b = idx(c"b", 0, n);
        if b == n { p.find(&val(a)); } else {
            assume(a != b);
            check((p.find(&val(a)) == p.find(&val(b))) == (r.cls[a] == r.cls[b]), c"answers are right at every step");
            p.unite(&val(a), &val(b));
            r.unite(a, b);
        }
    }
    compare(&p, &r);
    compare_classes(&p, &r, &[3, 1, 0, 2]);
    cover(c"end");
}

/// arbitrary elements: every pattern of coincidences between the arguments of four (five) unions
#[no_mangle]
pub extern "C-unwind" fn harness_part_any() {
    let k = sz(4, 5) as usize;
    let v: Vec<i64> = (0..2 * k).map(|_| int(c"v", -1000000000, 1000000000)).collect();
    let mut p = Partition::new();
    let mut cls: Vec<usize> = (0..2 * k).collect();
    let mut join = |cls: &mut Vec<usize>, a: usize, b: usize| { let (x, y) = (cls[a], cls[b]); for c in cls.iter_mut() { if *c == y { *c = x; } } };
    for i in 0..k { p.unite(&v[2 * i], &v[2 * i + 1]); }
    for i in 0..2 * k { for j in 0..i { if v[i] == v[j] { join(&mut cls, i, j); } } }
    for i in 0..k { join(&mut cls, 2 * i, 2 * i + 1); }
    for i in 0..2 * k {
        let f = p.find(&v[i]);
        let mut inside = false;
        for j in 0..2 * k { if v[j] == f { inside = cls[j] == cls[i]; } }
        check(inside, c"the representative is in the class");
        for j in 0..i { check((p.find(&v[j]) == f) == (cls[i] == cls[j]), c"equivalent exactly if connected by unions"); }
    }
    cover(c"end");
}
/// every forest grown by five (thorough six) unions, each of two classes, in every order and direction
#[no_mangle]
pub extern "C-unwind" fn harness_part_forest() {
    let k = sz(5, 6) as usize;
    let mut p = Partition::new();
    let mut r = Ref::new(8);
    let mut used = 0;
    for _ in 0..k {
        // elements are numbered in order of first use
        let a = idx(c"a", 0, if used < 8 { used } else { 7 });
        if a == used { used += 1; }
        let b = idx(c"b", 0, if used < 8 { used } else { 7 });
        if b == used { used += 1; }
        assume(r.cls[a] != r.cls[b]);
        p.unite(&val(a), &val(b));
        r.unite(a, b);
    }
    r.n = used;
    compare(&p, &r);
    cover(c"end");
}

/// many elements, united along chains, stars and trees with one pair left out, then joined once more
#[no_mangle]
pub extern "C-unwind" fn harness_part_large() {
    let n = [9, 17, 35, 67, 131][idx(c"n", 0, sz(3, 4) as usize)];
    let fam = idx(c"family", 0, 4);
    let mut pairs: Vec<(usize, usize)> = (1..n).map(|i| match fam { 0 => (i - 1, i), 1 => (i, i - 1), 2 => (0, i), 3 => (i, i / 2), _ => (n - i, n - 1 - i) }).collect();
    let out = idx(c"without", 0, n - 1);
    if out < n - 1 { pairs.remove(out); }
    let k = [1, 5, 7][idx(c"stride", 0, 2)];
    let mut p = Partition::new();
    let mut cls: Vec<usize> = (0..n).collect();
    let m = pairs.len();
    assume(m % 5 != 0 && m % 7 != 0 || k == 1);
    for i in 0..m {
        let (a, b) = pairs[i * k % m];
        if i % 4 == 3 { let _ = p.find(&val(b)); }
        p.unite(&val(a), &val(b));
        let (x, y) = (cls[a], cls[b]);
        for c in cls.iter_mut() { if *c == y { *c = x; } }
    }
    let rep: Vec<u32> = (0..n).map(|i| p.find(&val(i))).collect();
    for i in 0..n {
        check((0..n).any(|j| val(j) == rep[i] && cls[j] == cls[i]), c"the representative is in the class");
        check(p.find(&rep[i]) == rep[i], c"a representative represents itself");
        for j in 0..i { check((rep[i] == rep[j]) == (cls[i] == cls[j]), c"equivalent exactly if connected by unions"); }
    }
    let elms: Vec<usize> = (0..n).map(|i| i * k % n).collect();
    let cs = p.classes(&elms.iter().map(|&i| val(i)).collect::<Vec<_>>());
    let mut want: Vec<Vec<u32>> = vec![];
    let mut seen: Vec<usize> = vec![];
    for &i in &elms { match seen.iter().position(|&c| c == cls[i]) { Some(q) => want[q].push(val(i)), None => { seen.push(cls[i]); want.push(vec![val(i)]); } } }
    check(cs == want, c"classes in input order");
    cover(c"end");
}
