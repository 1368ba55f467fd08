// Text form of symmetry operations: parsing and printing.
use super::grp::*;
use super::sx::*;
use num_rational::Ratio;
use num_traits::{One, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::parse_operator::parse_operator;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct A {}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct B {}

fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
/// a fraction n/d with d > 0, not reduced
type F = (i64, i64);
fn addf(a: F, b: F) -> F { (a.0 * b.1 + b.0 * a.1, a.1 * b.1) }
fn same(x: &Ratio<i32>, f: F) -> bool { *x.numer() as i64 * f.1 == f.0 * *x.denom() as i64 }
/// coefficients of x, y, z and 1
type Row = [F; 4];

/// One to three coordinates in the documented notation, by recursive descent; None if the text is anything else.
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn at(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn int(&mut self) -> Option<i64> {
        let (mut n, mut k) = (0i64, 0);
        while self.i < self.s.len() && self.s[self.i] >= b'0' && self.s[self.i] <= b'9' { n = n * 10 + (self.s[self.i] - b'0') as i64; k += 1; self.i += 1; if k > 9 { return None; } }
        if k > 0 { Some(n) } else { None }
    }
    fn axis(&mut self) -> Option<usize> { let c = self.at(); let r = if c == b'x' { 0 } else if c == b'y' { 1 } else if c == b'z' { 2 } else { return None }; self.i += 1; Some(r) }
    fn term(&mut self, row: &mut Row, sign: i64) -> Option<()> {
        let c = self.at();
        if !(c >= b'0' && c <= b'9') { let a = self.axis()?; row[a] = addf(row[a], (sign, 1)); return Some(()); }
        let n = self.int()?;
        let mut d = 1;
        let j = self.i;
        self.ws();
        if self.at() == b'/' {
            self.i += 1;
            self.ws();
            d = self.int()?;
            if d == 0 { return None; }
        } else { self.i = j; }
        let j = self.i;
        if self.at() == b'*' { self.i += 1; let a = self.axis()?; row[a] = addf(row[a], (sign * n, d)); return Some(()); }
        self.ws();
        match self.axis() { Some(a) => row[a] = addf(row[a], (sign * n, d)), None => { self.i = j; row[3] = addf(row[3], (sign * n, d)); } }
        Some(())
    }
    fn sign(&mut self) -> Option<i64> { let c = self.at(); let r = if c == b'+' { 1 } else if c == b'-' { -1 } else { return None }; self.i += 1; self.ws(); Some(r) }
    fn all(mut self) -> Option<Vec<Row>> {
        let mut rows = vec![];
        self.ws();
        loop {
            let mut row = [(0, 1); 4];
            let s = self.sign().unwrap_or(1);
            self.term(&mut row, s)?;
            loop {
                let j = self.i;
                self.ws();
                match self.sign() { Some(s) => self.term(&mut row, s)?, None => { self.i = j; break; } }
            }
            rows.push(row);
            self.ws();
            if self.i == self.s.len() { break; }
            if self.at() != b',' { return None; }
            self.i += 1;
            self.ws();
        }
        if rows.len() > 3 { return None; }
        for r in &rows { for k in rows.len()..3 { if r[k].0 != 0 { return None; } } }
        Some(rows)
    }
}

fn compare(s: &[u8], want: &Option<Vec<Row>>) {
    let t = text(s);
    match AffineMap::<Q, A>::from_string(t) {
        None => check(want.is_none(), c"a well-formed operation is read"),
        Some(f) => {
            check(want.is_some(), c"only well-formed operations are accepted");
            let w = want.as_ref().unwrap();
            let (d, m, v) = (f.dim(), f.linear_matrix(), f.shift());
            check(d == w.len() && m.shape() == (d, d), c"one coordinate for each part");
            for i in 0..d {
                for j in 0..d { check(m[(i, j)] == q(w[i][j].0, w[i][j].1), c"coefficients of the axes"); }
                check(v[i] == q(w[i][3].0, w[i][3].1), c"constant part");
            }
        }
    }
    match parse_operator(t) {
        Err(_) => check(want.is_none(), c"a well-formed operation is parsed"),
        Ok((rest, (rows, shift))) => {
            check(t.ends_with(rest), c"the rest is the end of the text");
            if let Some(w) = want {
                check(rest.is_empty() && rows.len() == w.len() && shift.len() == w.len(), c"a well-formed operation is parsed to its end");
                for i in 0..w.len() { check(rows[i].len() == w.len() && (0..w.len()).all(|j| same(&rows[i][j], w[i][j])) && same(&shift[i], w[i][3]), c"parsed values"); }
            } else { check(!rest.is_empty() || rows.len() > 3, c"malformed text is not parsed to its end"); }
        }
    }
}

/// any ASCII text
#[no_mangle]
pub extern "C-unwind" fn harness_op_any() {
    let n = idx(c"len", 0, sz(4, 5) as usize);
    let s: Vec<u8> = (0..n).map(|_| int(c"c", 0, 127) as u8).collect();
    let want = P { s: &s, i: 0 }.all();
    compare(&s, &want);
    cover(c"end");
}
/// any text over the characters that have a meaning
#[no_mangle]
pub extern "C-unwind" fn harness_op_chars() {
    let n = sz(6, 7) as usize;
    let s: Vec<u8> = (0..n).map(|_| b"y1-/, "[idx(c"c", 0, 5)]).collect();
    let want = P { s: &s, i: 0 }.all();
    compare(&s, &want);
    cover(c"end");
}

fn put(s: &mut Vec<u8>, t: &str) { s.extend_from_slice(t.as_bytes()); }
fn digits(s: &mut Vec<u8>, k: usize, lo: i64) -> i64 {
    let mut n = 0;
    for _ in 0..k { let d = int(c"d", 0, 9); n = n * 10 + d; s.push(b'0' + d as u8); }
    assume(n >= lo);
    n
}
/// write a term in one of its notations
fn term(s: &mut Vec<u8>, row: &mut Row, first: bool, two: usize) {
    let g = idx(c"sign", if first { 0 } else { 1 }, 2);
    put(s, ["", "+", "-"][g]);
    let sign = if g == 2 { -1 } else { 1 };
    if g > 0 && idx(c"gap", 0, 1) == 1 { put(s, " "); }
    let a = idx(c"axis", 0, 3);
    let k = idx(c"coef", if a == 3 { 1 } else { 0 }, 2);
    let f = match k {
        0 => (1, 1),
        1 => (digits(s, 1, 0), 1),
        _ => { let n = digits(s, 1, 0); put(s, ["/", " / "][idx(c"slash", 0, 1)]); (n, digits(s, two, 1)) }
    };
    if a < 3 { if k > 0 { put(s, ["", "*", " "][idx(c"times", 0, 2)]); } put(s, ["x", "y", "z"][a]); }
    row[a] = addf(row[a], (sign * f.0, f.1));
}
/// all notations of one coordinate with two terms, digits arbitrary
#[no_mangle]
pub extern "C-unwind" fn harness_op_terms() {
    let mut s = vec![];
    let mut row = [(0, 1); 4];
    let k = idx(c"place", 0, 2);
    let mut want: Vec<Row> = vec![];
    for i in 0..3 {
        if i > 0 { put(&mut s, ","); }
        if i == k {
            term(&mut s, &mut row, true, 1);
            want.push(row);
        } else {
            put(&mut s, ["y", "-z", "x-y"][i]);
            let mut r = [(0, 1); 4];
            match i { 0 => r[1] = (1, 1), 1 => r[2] = (-1, 1), _ => { r[0] = (1, 1); r[1] = (-1, 1); } }
            want.push(r);
        }
    }
    compare(&s, &Some(want));
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_op_sums() {
    // two terms, possibly of the same axis, and spaces around
    let mut s = vec![];
    let mut row = [(0, 1); 4];
    let form = idx(c"form", 0, 2);
    put(&mut s, ["", "  ", "\t"][form]);
    match idx(c"first", 0, sz(2, 5) as usize) {
        0 => { put(&mut s, "x"); row[0] = (1, 1); }
        1 => { put(&mut s, "-2z"); row[2] = (-2, 1); }
        2 => { put(&mut s, "1 / 3"); row[3] = (1, 3); }
        3 => { put(&mut s, "3*y"); row[1] = (3, 1); }
        4 => { put(&mut s, "+ 5/6 x"); row[0] = (5, 6); }
        _ => { put(&mut s, "-7"); row[3] = (-7, 1); }
    }
    put(&mut s, ["", " ", ""][form]);
    term(&mut s, &mut row, false, 1);
    put(&mut s, [", y,z", " ,y , z ", ",y"][form]);
    let d = if s.ends_with(b",y") { 2 } else { 3 };
    let mut want = vec![row, [(0, 1), (1, 1), (0, 1), (0, 1)], [(0, 1), (0, 1), (1, 1), (0, 1)]];
    want.truncate(d);
    let bad = d == 2 && row[2].0 != 0;
    compare(&s, &if bad { None } else { Some(want) });
    cover(c"end");
}
/// long sums, in which every axis may occur any number of times at any place
#[no_mangle]
pub extern "C-unwind" fn harness_op_long() {
    let mut s = vec![];
    let mut row = [(0, 1); 4];
    let n = idx(c"terms", 3, 12);
    // all choices up to five (seven) terms, alternations of three choices with one exception beyond
    let full = n <= sz(5, 7) as usize;
    let ch: Vec<usize> = if full { (0..n).map(|_| idx(c"a", 0, 3)).collect() } else {
        let p = [idx(c"a", 0, 3), idx(c"a", 0, 3)];
        let at = idx(c"at", 0, n - 1);
        let x = idx(c"a", 0, 3);
        (0..n).map(|i| if i == at { x } else { p[i % 2] }).collect()
    };
    for (i, &a) in ch.iter().enumerate() {
        let sign = if (i / 2) % 2 == 0 { 1 } else { -1 };
        put(&mut s, if sign < 0 { "-" } else if i > 0 { "+" } else { "" });
        let c = 1i64 << i;
        put(&mut s, &c.to_string());
        put(&mut s, ["x", "y", "z", ""][a]);
        row[a] = addf(row[a], (sign * c, 1));
    }
    put(&mut s, ",z,-y");
    compare(&s, &Some(vec![row, [(0, 1), (0, 1), (1, 1), (0, 1)], [(0, 1), (-1, 1), (0, 1), (0, 1)]]));
    cover(c"end");
}
/// numbers with many digits and sums that leave the range of the coefficients
#[no_mangle]
pub extern "C-unwind" fn harness_op_large() {
    let mut s = vec![];
    let n = idx(c"len", 8, 10);
    for i in 0..n { s.push(b'0' + if i == 0 { int(c"d", 0, 9) } else if i + 1 == n { conc(int(c"d", 0, 9)) } else { [0, 9][idx(c"mid", 0, 1) * (i % 2)] } as u8); }
    put(&mut s, ["x", "", "/7x", "x+999999999x", "x+999999999x+999999999x+1", "-999999999", "/999999999+1/999999998"][idx(c"tail", 0, 6)]);
    let want = P { s: &s, i: 0 }.all();
    if let Some(f) = AffineMap::<Q, A>::from_string(text(&s)) {
        check(want.is_some(), c"only well-formed operations are accepted");
        let w = want.unwrap();
        check(f.dim() == 1 && f.linear_matrix()[(0, 0)] == q(w[0][0].0, w[0][0].1) && f.shift()[0] == q(w[0][3].0, w[0][3].1), c"an operation is read exactly or refused");
    }
    cover(c"end");
}
/// coordinate changes: invertible operations only
#[no_mangle]
pub extern "C-unwind" fn harness_op_change() {
    let mut s = vec![];
    let d = idx(c"dim", 1, 3);
    let mut m = vec![vec![0i64; d]; d];
    let mut t = vec![];
    for i in 0..d {
        if i > 0 { put(&mut s, ","); }
        for j in 0..d {
            if d == 3 && i > j { continue; }
            let e = idx(c"entry", 0, 2);
            m[i][j] = [0, 1, -2][e];
            put(&mut s, ["+0", "+", "-2"][e]);
            put(&mut s, ["x", "y", "z"][j]);
        }
        let x = int(c"t", 0, 9);
        s.push(b'+');
        s.push(b'0' + x as u8);
        t.push(x);
    }
    let det = match d { 1 => m[0][0], 2 => m[0][0] * m[1][1] - m[0][1] * m[1][0], _ => m[0][0] * m[1][1] * m[2][2] };
    match CoordinateMap::<Q, A, B>::from_string(text(&s)) {
        None => check(det == 0, c"an invertible change of coordinates is read"),
        Some(f) => {
            check(det != 0, c"a singular change of coordinates is refused");
            let g = f.forward();
            check((0..d).all(|i| (0..d).all(|j| g.linear_matrix()[(i, j)] == q(m[i][j], 1)) && g.shift()[i] == q(t[i], 1)), c"values of the change of coordinates");
        }
    }
    cover(c"end");
}
