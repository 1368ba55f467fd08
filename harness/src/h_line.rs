// Lines of CGD files.
use super::sx::*;
use rust_systre::io::parse_cgd_line::*;

fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
/// what a field should be
#[derive(Clone)]
enum W { Frac(i64, i64), Num(f64), Key(Vec<u8>), Name(Vec<u8>) }
/// End of the well-formed part, or an exponent without digits (where only an error of some kind is required)
struct Read { fields: Vec<W>, rest: usize, exponent: bool }

fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn stop(c: u8) -> bool { c == b'"' || c == b'#' || c == b' ' || c == b'\t' }
fn pow10(k: i64) -> f64 { let mut f = 1.0; for _ in 0..k { f *= 10.0; } f }
/// left to right reader of a line, written independently of the parser
fn scan(s: &[u8]) -> Read {
    let n = s.len();
    let at = |i: usize| if i < n { s[i] } else { 0 };
    let run = |mut i: usize| { while i < n && digit(s[i]) { i += 1; } i };
    let value = |a: usize, b: usize| { let mut v = 0i64; for k in a..b { if v < 1 << 50 { v = v * 10 + (s[k] - b'0') as i64; } } v };
    let mut r = Read { fields: vec![], rest: 0, exponent: false };
    let mut i = 0;
    loop {
        let j = i;
        while i < n && (s[i] == b' ' || s[i] == b'\t') { i += 1; }
        if i == n || s[i] == b'#' { r.rest = n; return r; }
        // fields are separated by blanks
        if j == i && !r.fields.is_empty() { r.rest = i; return r; }
        r.rest = i;
        let first = r.fields.is_empty();
        // fraction
        let neg = at(i) == b'-';
        let a = if neg { i + 1 } else { i };
        let b = run(a);
        if b > a && at(b) == b'/' {
            let c = run(b + 1);
            if c > b + 1 && b - a <= 9 && c - b - 1 <= 9 {
                let d = value(b + 1, c);
                if d != 0 { let v = value(a, b); r.fields.push(W::Frac(if neg { -v } else { v }, d)); i = c; continue; }
            }
        }
        // number
        let a = if at(i) == b'-' || at(i) == b'+' { i + 1 } else { i };
        let b = run(a);
        let mut e = b;
        let mut places = 0;
        let (mut m, mut over) = (0, 0);
        for k in a..b { if m < 1 << 55 { m = m * 10 + (s[k] - b'0') as i64; } else { over += 1; } }
        let ok = if at(b) == b'.' && b < n { e = run(b + 1); places = (e - b - 1) as i64; for k in b + 1..e { if m < 1 << 55 { m = m * 10 + (s[k] - b'0') as i64; } else { over += 1; } } b > a || places > 0 } else { b > a };
        if ok {
            let mut x = 0;
            if e < n && (s[e] == b'e' || s[e] == b'E') {
                let f = if at(e + 1) == b'-' || at(e + 1) == b'+' { e + 2 } else { e + 1 };
                let g = run(f);
                if g == f { r.exponent = true; return r; }
                x = value(f, g);
                if at(e + 1) == b'-' { x = -x; }
                e = g;
            }
            let x = x - places + over;
            let x = if m == 0 { 0 } else if x > 400 { 400 } else if x < -400 { -400 } else { x };
            let v = if x >= 0 { m as f64 * pow10(x) } else { m as f64 / pow10(-x) };
            r.fields.push(W::Num(if at(i) == b'-' { -v } else { v }));
            i = e;
            continue;
        }
        if s[i] == b'"' {
            let mut k = i + 1;
            while k < n && s[k] != b'"' { k += 1; }
            if k == n || k == i + 1 { return r; }
            r.fields.push(W::Name(s[i + 1..k].to_vec()));
            i = k + 1;
            continue;
        }
        let mut k = i;
        while k < n && !stop(s[k]) { k += 1; }
        let c = s[i] | 32;
        let t = s[i..k].to_vec();
        r.fields.push(if first && c >= b'a' && c <= b'z' { W::Key(t) } else { W::Name(t) });
        i = k;
    }
}
/// large integers and powers beyond 10^22 are not exact
fn close(x: f64, v: f64) -> bool { x == v || (x - v).abs() <= 1e-12 * v.abs() && !(v.abs() > 1e-22 && v.abs() < 9e15) || x.abs() < 1e-290 && v.abs() < 1e-290 }
fn same(f: &Field, w: &W) -> bool {
    match (f, w) {
        (Field::Fraction(x), W::Frac(n, d)) => *x.numer() as i64 * d == n * *x.denom() as i64 && *x.denom() > 0,
        (Field::Int(k), W::Num(v)) => *k as f64 == *v,
        (Field::Double(x), W::Num(v)) => close(*x, *v) && !(*v as i64 as f64 == *v && *v >= -2147483648.0 && *v <= 2147483647.0),
        (Field::Key(a), W::Key(b)) | (Field::Name(a), W::Name(b)) => a.as_bytes() == &b[..],
        _ => false,
    }
}
fn compare(s: &[u8]) {
    let w = scan(s);
    match parse_cgd_line(text(s)) {
        Err(_) => check(w.exponent, c"only an exponent without digits makes a line unreadable"),
        Ok((rest, fields)) => {
            check(!w.exponent || !rest.is_empty(), c"an exponent without digits is reported");
            if w.exponent { return; }
            check(rest.len() == s.len() - w.rest && text(s).ends_with(rest), c"the text from the first malformed field on is reported as rest");
            check(fields.len() == w.fields.len(), c"number of fields");
            for (f, x) in fields.iter().zip(&w.fields) { check(same(f, x), c"type and value of each field"); }
        }
    }
}

/// every ASCII text; digits are one of three
#[no_mangle]
pub extern "C-unwind" fn harness_line_any() {
    let n = idx(c"len", 0, sz(5, 6) as usize);
    let s: Vec<u8> = (0..n).map(|_| {
        let c = int(c"c", 0, 127) as u8;
        if digit(c) { [b'0', b'1', b'7'][idx(c"digit", 0, if n > 3 { 1 } else { 2 })] } else { c }
    }).collect();
    compare(&s);
    cover(c"end");
}
/// three or four tokens of all kinds with all separators
const TOKENS: [&str; 24] = ["12/30", "-7/3", "+1/2", "1/0", "0", "-0", "+12", "3.5", "-.25", "4.", "1e3", "-2.5E-1", "2e", "2147483648", "12345678901/2",
    "\"a b\"", "\"#\"", "\"\"", "\"x", "Name", "nano", "-x", "inf", "q/2"];
#[no_mangle]
pub extern "C-unwind" fn harness_line_tokens() {
    let mut s: Vec<u8> = vec![];
    s.extend_from_slice(["", " ", "\t "][idx(c"lead", 0, 2)].as_bytes());
    let k = 2;
    for i in 0..k {
        s.extend_from_slice(TOKENS[idx(c"token", 0, 23)].as_bytes());
        if i + 1 < k { s.extend_from_slice([" ", "", "\t", "  "][idx(c"sep", 0, 3)].as_bytes()); }
    }
    s.extend_from_slice(["", " ", " # 1 \"x\"", "#", "\"", " é"][idx(c"tail", 0, 5)].as_bytes());
    compare(&s);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_line_many() {
    let mut s: Vec<u8> = vec![];
    let k = sz(3, 4) as usize;
    for _ in 0..k {
        s.extend_from_slice(["-5/3", "1.5", "-4", "\"a #\"", "Ab", "\u{e9}\u{85}x", "1/0", "#"][idx(c"token", 0, 7)].as_bytes());
        s.extend_from_slice([" ", "", "\t"][idx(c"sep", 0, 2)].as_bytes());
    }
    compare(&s);
    cover(c"end");
}
/// fractions with arbitrary digits
#[no_mangle]
pub extern "C-unwind" fn harness_line_fraction() {
    let mut s: Vec<u8> = vec![];
    if idx(c"key", 0, 1) == 1 { s.extend_from_slice(b"X "); }
    s.extend_from_slice(["", "-"][idx(c"sign", 0, 1)].as_bytes());
    let (n, d) = (idx(c"numer", 1, sz(1, 2) as usize), idx(c"denom", 1, 2));
    for _ in 0..n { s.push(b'0' + int(c"n", 0, 9) as u8); }
    s.push(b'/');
    let z = int(c"d", 0, 9) as u8;
    s.push(b'0' + z);
    if d == 2 { s.push(b'0' + int(c"d", 0, 9) as u8); }
    // with denominator zero the numerator is read as a number, which needs its digits
    let m = s.len();
    assume(s[m - 1] != b'0' || s[m - 2] != b'0');
    if s[m - 2] == b'/' { assume(s[m - 1] != b'0'); }
    s.extend_from_slice(["", " #", " 4"][idx(c"tail", 0, 2)].as_bytes());
    compare(&s);
    cover(c"end");
}
/// decimal numbers in every notation
#[no_mangle]
pub extern "C-unwind" fn harness_line_number() {
    let d = |s: &mut Vec<u8>, k: usize| for _ in 0..k { s.push([b'0', b'3', b'9'][idx(c"digit", 0, 2)]); };
    let mut s: Vec<u8> = vec![];
    s.extend_from_slice(["", "-", "+"][idx(c"sign", 0, 2)].as_bytes());
    d(&mut s, idx(c"int", 0, 2));
    if idx(c"point", 0, 1) == 1 { s.push(b'.'); d(&mut s, idx(c"frac", 0, 2)); }
    if idx(c"exp", 0, 1) == 1 {
        s.push([b'e', b'E'][idx(c"e", 0, 1)]);
        s.extend_from_slice(["", "-", "+"][idx(c"esign", 0, 2)].as_bytes());
        d(&mut s, idx(c"edigits", 0, 1));
    }
    compare(&s);
    cover(c"end");
}
/// names and quoted strings with arbitrary characters
#[no_mangle]
pub extern "C-unwind" fn harness_line_names() {
    let mut s: Vec<u8> = vec![];
    let form = idx(c"form", 0, 2);
    s.extend_from_slice(["", "k \"", "\""][form].as_bytes());
    for _ in 0..(if form > 0 { sz(4, 6) } else { sz(6, 8) }) { let c = int(c"c", 32, 126) as u8; assume(!digit(c)); s.push(c); }
    if form > 0 { s.push(b'"'); }
    compare(&s);
    cover(c"end");
}
/// at the limits of the integers
#[no_mangle]
pub extern "C-unwind" fn harness_line_limits() {
    let t = ["2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "999999999/999999999", "-999999999/1", "1000000000/3", "1e9", "1e10", "3e9", "2147483647.5", "-0.0", "1/999999999"][idx(c"text", 0, 13)];
    let mut s: Vec<u8> = vec![];
    if idx(c"key", 0, 1) == 1 { s.extend_from_slice(b"key\t"); }
    s.extend_from_slice(t.as_bytes());
    compare(&s);
    cover(c"end");
}
/// many fields, some of them long
#[no_mangle]
pub extern "C-unwind" fn harness_line_long() {
    let long = "Xy-".repeat(30);
    let quoted = format!("\"{}\"", "a # \t".repeat(20));
    let tok: [&str; 13] = ["-5/3", "1.5", "-4", "\"a #\"", "Ab", "\u{e9}\u{85}x", &long, "123456789/987654321", &quoted, "-0.00000000000000000001", "+12345678901234567", "end", "7"];
    let k = [6, 13, 34][idx(c"fields", 0, 2)];
    let (first, step) = (idx(c"first", 0, 12), idx(c"step", 0, sz(4, 12) as usize));
    let odd = idx(c"odd", 0, 6);
    let at = if odd == 0 { 0 } else { idx(c"at", 0, k - 1) };
    let mut s: Vec<u8> = vec![];
    for i in 0..k {
        s.extend_from_slice(if odd > 0 && i == at { ["", "\"", "2e", "1/0", "#", "x\"y\"", "\"\""][odd] } else { tok[(first + i * step) % 13] }.as_bytes());
        if i + 1 < k { s.extend_from_slice([" ", "\t", "   \t "][(i + step) % 3].as_bytes()); }
    }
    compare(&s);
    cover(c"end");
}
