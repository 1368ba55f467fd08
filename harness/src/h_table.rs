// The table of space group settings.
use super::sx::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::Zero;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap};
use rust_systre::spacegroups::parse_table::*;
use rust_systre::spacegroups::types::{Centering, CrystalSystem};

type Map = CoordinateMap<BigRational, Group, Setting>;
type Opr = AffineMap<BigRational, Setting>;
const SYSTEMS: [&str; 10] = ["oblique", "rectangular", "square", "hexagonal", "cubic", "orthorhombic", "tetragonal", "trigonal", "monoclinic", "triclinic"];
const CENTERINGS: [&str; 9] = ["p", "c", "P", "F", "I", "R", "A", "B", "C"];
fn system(i: usize) -> CrystalSystem {
    [CrystalSystem::Oblique, CrystalSystem::Rectangular, CrystalSystem::Square, CrystalSystem::Hexagonal, CrystalSystem::Cubic, CrystalSystem::Orthorhombic, CrystalSystem::Tetragonal,
        CrystalSystem::Trigonal, CrystalSystem::Monoclinic, CrystalSystem::Triclinic].into_iter().nth(i).unwrap()
}
fn centering(i: usize) -> Centering {
    [Centering::Primitive2d, Centering::Centered2d, Centering::Primitive, Centering::FaceCentered, Centering::BodyCentered, Centering::Rhombohedral, Centering::AFaceCentered, Centering::BFaceCentered,
        Centering::CFaceCentered].into_iter().nth(i).unwrap()
}
fn blank(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn lower(s: &str) -> String { s.to_ascii_lowercase() }
fn words(s: &str) -> Vec<String> {
    let mut r: Vec<Vec<u8>> = vec![];
    let mut open = false;
    for &c in s.as_bytes() {
        if blank(c) { open = false; } else { if !open { r.push(vec![]); open = true; } r.last_mut().unwrap().push(c); }
    }
    r.into_iter().map(|w| String::from_utf8(w).unwrap()).collect()
}

fn trim(s: &str) -> &str {
    let b = s.as_bytes();
    let (mut i, mut j) = (0, b.len());
    while i < j && blank(b[i]) { i += 1; }
    while j > i && blank(b[j - 1]) { j -= 1; }
    unsafe { std::str::from_utf8_unchecked(&b[i..j]) }
}

/// what the lines of a table mean, by line
enum L { Nothing, Op(Option<Opr>), Alias(Option<(String, String)>), Look(Option<(String, usize, usize, Map)>), Setting(String, Option<Map>) }
fn meaning(s: &str) -> L {
    let w = words(s);
    if w.is_empty() || w[0].as_bytes()[0] == b'#' { return L::Nothing; }
    if s.as_bytes()[0] == b' ' { return L::Op(Opr::from_string(trim(s))); }
    if lower(&w[0]) == "alias" { return L::Alias(if w.len() >= 3 { Some((w[1].clone(), w[2].clone())) } else { None }); }
    if lower(&w[0]) == "lookup" {
        if w.len() < 5 { return L::Look(None); }
        let sy = SYSTEMS.iter().position(|x| *x == lower(&w[2]));
        let ce = CENTERINGS.iter().position(|x| *x == w[3]);
        return L::Look(match (sy, ce, Map::from_string(&w[4..].join(" "))) { (Some(a), Some(b), Some(m)) => Some((w[1].clone(), a, b, m)), _ => None });
    }
    L::Setting(w[0].clone(), Map::from_string(&w[1..].join(" ")))
}
fn compare(lines: &[&str], t: Option<Tables>) {
    let m: Vec<L> = lines.iter().map(|s| meaning(s)).collect();
    let first = m.iter().position(|l| matches!(l, L::Setting(..))).unwrap_or(m.len());
    let bad = m.iter().enumerate().any(|(i, l)| match l { L::Op(None) | L::Alias(None) | L::Look(None) | L::Setting(_, None) => true, L::Op(_) => i < first, _ => false });
    check(t.is_some() != bad, c"a table is refused exactly if a line is malformed");
    let t = match t { Some(t) => t, None => return };
    let name = |i: usize| match &m[i] { L::Setting(n, _) => Some(n.clone()), _ => None };
    let mut count = 0;
    for i in 0..m.len() {
        let (n, map) = match &m[i] { L::Setting(n, Some(x)) => (n, x), _ => continue };
        if (i + 1..m.len()).any(|j| name(j).as_ref() == Some(n)) { continue; }
        count += 1;
        let e = match t.settings.get(n) { Some(e) => e, None => { check(false, c"every setting is in the table"); return; } };
        let (en, ec, et, eo) = e.verif_parts();
        check(en == n && et == map, c"name and transform of a setting");
        let canon = (0..=i).rev().find(|&j| matches!(&m[j], L::Setting(_, Some(x)) if x.is_identity()));
        check(ec == canon.map_or(String::new(), |j| name(j).unwrap()), c"the group is that of the last setting with identity transform");
        let next = (i + 1..m.len()).find(|&j| name(j).is_some()).unwrap_or(m.len());
        let ops: Vec<&Opr> = (i + 1..next).filter_map(|j| match &m[j] { L::Op(o) => o.as_ref(), _ => None }).collect();
        check(eo.len() == ops.len() && eo.iter().zip(&ops).all(|(a, b)| a == *b), c"operators of a setting, in order");
    }
    check(t.settings.len() == count, c"no further setting");
    let mut count = 0;
    for i in 0..m.len() {
        if let L::Alias(Some((a, b))) = &m[i] {
            if (i + 1..m.len()).any(|j| matches!(&m[j], L::Alias(Some((c, _))) if c == a)) { continue; }
            count += 1;
            check(t.alias.get(a) == Some(b), c"alias");
        }
    }
    check(t.alias.len() == count, c"no further alias");
    let looks: Vec<&(String, usize, usize, Map)> = m.iter().filter_map(|l| match l { L::Look(x) => x.as_ref(), _ => None }).collect();
    check(t.lookup.len() == looks.len(), c"number of lookup entries");
    for (l, (n, a, b, x)) in t.lookup.iter().zip(looks) {
        let (ln, ls, lc, lm) = l.verif_parts();
        check(ln == n && *ls == system(*a) && *lc == centering(*b) && lm == x, c"lookup entry");
    }
}
const LINES: [&str; 22] = ["", "P1 x,y", "P1:a x-1/4, y ", "Q2\ty,x", " x,y", "   -x, y+1/2 ", "alias b P1", "Lookup P1 Cubic F y,x+1/4", " # c", "#x,y",
    "q1 x", "p1 x", " -y,x", "ALIAS P1 Q2 x", "lookup Q2 square c x", "\tx,y", "alias b", "lookup P1 cubic P", "lookup P1 Cubics P x,y", "lookup P1 cubic Q x,y", "P2 x,x", "  x,y w"];
fn parse(lines: &[&str], end: bool, crlf: bool) -> Option<Tables> {
    let mut s: Vec<u8> = vec![];
    for (i, l) in lines.iter().enumerate() {
        s.extend_from_slice(l.as_bytes());
        if end || i + 1 < lines.len() { s.extend_from_slice(if crlf { b"\r\n" } else { b"\n" }); }
    }
    parse_space_group_table(&s[..])
}
#[no_mangle]
pub extern "C-unwind" fn harness_table_lines() {
    let n = idx(c"lines", 0, 3);
    let lines: Vec<&str> = (0..n).map(|_| LINES[idx(c"line", 0, 21)]).collect();
    compare(&lines, if idx(c"newline", 0, 1) == 1 { parse(&lines, true, false) } else { parse(&lines, false, true) });
    cover(c"end");
}
/// longer tables of well-formed lines
#[no_mangle]
pub extern "C-unwind" fn harness_table_many() {
    let mut lines = vec!["G x"];
    for _ in 0..sz(4, 5) { lines.push(["H -x", "G x", "K x-1/3", " x", "  -x", "alias H G", "alias K H"][idx(c"line", 0, 6)]); }
    compare(&lines, parse(&lines, true, false));
    cover(c"end");
}
/// one arbitrary line
#[no_mangle]
pub extern "C-unwind" fn harness_table_any() {
    let pre = ["", "P", "P x", " ", " x,", "alias a", "lookup P square c "][idx(c"start", 0, 6)];
    let mut s = pre.as_bytes().to_vec();
    // a search for the line end in 16 bytes or more takes the bytes by words
    for _ in 0..idx(c"len", 0, if pre.len() > 3 { 1 } else { sz(3, 4) as usize }) { let c = int(c"c", 0, 127) as u8; assume(c != b'\n'); s.push(c); }
    assume(s.last() != Some(&b'\r'));
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    let lines = ["A x", t, "B x"];
    compare(&lines, parse(&lines, true, false));
    cover(c"end");
}
/// text that is not UTF-8
#[no_mangle]
pub extern "C-unwind" fn harness_table_unreadable() {
    let mut s = b"P1 x,y,z\n x,y,z\nalias a b\n#".to_vec();
    let k = idx(c"at", 0, s.len());
    s.insert(k, [0x80, 0xc3, 0xff][idx(c"byte", 0, 2)]);
    check(parse_space_group_table(&s[..]).is_none(), c"unreadable text is refused");
    cover(c"end");
}
/// coefficients as text
const COEFF: [(&str, i64, i64); 7] = [("0", 0, 1), ("1", 1, 1), ("-1", -1, 1), ("2", 2, 1), ("-3", -3, 1), ("1/2", 1, 2), ("-2/3", -2, 3)];
fn q(n: i64, d: i64) -> BigRational { BigRational::new(BigInt::from(n), BigInt::from(d)) }
/// sum of the first terms given, in the notation of the table; true if the line printed is the operator
fn printed(s: &str, rows: &[Vec<usize>]) -> bool {
    let op = match Opr::from_string(s) { Some(op) => op, None => return false };
    let d = rows.len();
    if op.dim() != d { return false; }
    let (a, t) = (op.linear_matrix(), op.shift());
    rows.iter().enumerate().all(|(i, r)| (0..=d).all(|j| { let (_, n, e) = COEFF[r[j]]; let v = if j < d { a[(i, j)].clone() } else { t[i].clone() }; v == q(n, e) }))
}
fn spec(rows: &[Vec<usize>]) -> String {
    let d = rows.len();
    let row = |r: &Vec<usize>| {
        let mut s = String::from("0");
        for j in 0..=d {
            let c = COEFF[r[j]].0;
            if !c.starts_with('-') { s.push('+'); }
            s.push_str(c);
            if j < d { s.push('*'); s.push_str(["x", "y", "z"][j]); }
        }
        s
    };
    rows.iter().map(row).collect::<Vec<_>>().join(",")
}
fn show(rows: &[Vec<usize>]) {
    let text = format!("N{}\n {}\n {}\nlookup L monoclinic A {}\n", ["", " x", " x,y", " x,y,z"][rows.len()], spec(rows), ["", "-x", "y,x", "y,z,x"][rows.len()], ["", "x", "x,y", "x,y,z"][rows.len()]);
    let t = match parse_space_group_table(text.as_bytes()) { Some(t) => t, None => { check(false, c"operator in full notation is read"); return; } };
    let s = format!("{}", t.settings["N"]);
    let l: Vec<&str> = s.lines().collect();
    check(l.len() == 6 && s.ends_with('\n') && l[0] == "Setting Name: N" && l[1] == "Group name: N" && l[2] == ["", "Transform: x", "Transform: x,y", "Transform: x,y,z"][rows.len()] && l[3] == "Operators:", c"layout of a setting");
    check(printed(l[4], rows), c"a printed operator is read back as the same operator");
    check(l[5] == ["", "-x", "y,x", "y,z,x"][rows.len()], c"plain operator");
}
#[no_mangle]
pub extern "C-unwind" fn harness_table_show() {
    let d = idx(c"dim", 1, 3);
    // one arbitrary row, among fixed ones
    let at = idx(c"row", 0, d - 1);
    let mut rows: Vec<Vec<usize>> = (0..d).map(|i| (0..=d).map(|j| if (i + 1) % d == j { 2 } else if j == d { 5 } else { 0 }).collect()).collect();
    for j in 0..=d { rows[at][j] = idx(c"coeff", 0, if d < 3 || j > 1 { 6 } else { sz(3, 6) as usize }); }
    show(&rows);
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_table_show_lookup() {
    let (a, b) = (idx(c"system", 0, 9), idx(c"centering", 0, 8));
    let r: Vec<usize> = (0..3).map(|_| idx(c"coeff", 0, if a == b { 6 } else { 1 })).collect();
    assume(r[0] > 0);
    let rows = vec![r, vec![0, 2, 5]];
    let text = format!("lookup L {} {} {}", SYSTEMS[a], CENTERINGS[b], spec(&rows));
    let t = match parse_space_group_table(text.as_bytes()) { Some(t) => t, None => { check(false, c"lookup entry is read"); return; } };
    let s = format!("{}", t.lookup[0]);
    let l: Vec<&str> = s.lines().collect();
    check(l.len() == 4 && s.ends_with('\n') && l[0] == "Lookup name: L", c"layout of a lookup entry");
    check(l[1] == format!("Crystal system: {}", SYSTEMS[a]) && l[2] == format!("Centering: {}", CENTERINGS[b]), c"system and centering as in the table");
    check(l[3].starts_with("Transform: ") && printed(&l[3][11..], &rows), c"printed transform is read back");
    cover(c"end");
}
#[no_mangle]
pub extern "C-unwind" fn harness_table_lookup() {
    let pick: Vec<(usize, usize)> = (0..2).map(|i| (idx(c"system", 0, if i == 0 { 9 } else { 2 }) * (i * 2 + 1), idx(c"centering", 0, if i == 0 { 8 } else { 2 }) * (i * 2 + 1))).collect();
    let mut text = String::new();
    for (i, (a, b)) in pick.iter().enumerate() { text.push_str(&format!("lookup {} {} {} {}\n", ["L", "M"][i], SYSTEMS[*a], CENTERINGS[*b], ["x,y", "y,x+1/2"][i])); }
    text.push_str("lookup N trigonal F x,y\n");
    let t = match parse_space_group_table(text.as_bytes()) { Some(t) => t, None => { check(false, c"lookup entries are read"); return; } };
    for a in 0..10 { for b in 0..9 {
        let r = t.lookup_settings(system(a), centering(b));
        let want: Vec<usize> = (0..3).filter(|&i| if i < 2 { pick[i] == (a, b) } else { (a, b) == (7, 3) }).collect();
        check(r.len() == want.len(), c"lookup finds exactly the entries with this system and centering");
        for (x, i) in r.iter().zip(want) {
            check(x.0 == ["L", "M", "N"][i], c"name of a setting found");
            let f = x.1.forward();
            check(if i == 1 { f.shift()[1] == q(1, 2) && f.linear_matrix()[(0, 0)].is_zero() } else { f.is_identity() }, c"transform of a setting found");
        }
    } }
    cover(c"end");
}
/// names of systems and centerings: no other text is accepted
#[no_mangle]
pub extern "C-unwind" fn harness_table_names() {
    let n = idx(c"len", 0, 2);
    let s: Vec<u8> = (0..n).map(|_| int(c"c", 0, 127) as u8).collect();
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    check(Centering::from_string(t) == CENTERINGS.iter().position(|x| x.as_bytes() == &s[..]).map(centering), c"centering");
    // one letter of the name of a system, arbitrary or in capitals
    let k = idx(c"system", 0, 9);
    let mut w = SYSTEMS[k].as_bytes().to_vec();
    let i = idx(c"at", 0, w.len() - 1);
    w[i] = int(c"letter", 0, 127) as u8;
    let x = w[i];
    let same = x == SYSTEMS[k].as_bytes()[i] || x + 32 == SYSTEMS[k].as_bytes()[i];
    check(CrystalSystem::from_string(unsafe { std::str::from_utf8_unchecked(&w) }) == if same { Some(system(k)) } else { None }, c"crystal system");
    cover(c"end");
}
/// many settings with many operators, with names that return
#[no_mangle]
pub extern "C-unwind" fn harness_table_large() {
    let settings = [3, 10][idx(c"settings", 0, 1)];
    let ops = [2, 17][idx(c"operators", 0, 1)];
    let names = [2, 5, 99][idx(c"names", 0, 2)];
    let maps = ["x,y,z", "x-y,y,z+1/4", "y,x,-z", "x,y,z "];
    let list = ["  x,y,z", " -x,-y+1/2,z", " -y, x-y, z+1/3", "\t", " z+1/4,y+3/4,-x", "# note", "   1/2-x,y,z"];
    let (a, b) = (idx(c"a", 0, sz(2, 3) as usize), idx(c"b", 0, sz(2, 6) as usize));
    let odd = idx(c"odd", 0, 5);
    let at = idx(c"at", 0, if odd == 0 { 0 } else { 1 }) * (settings - 1);
    let mut lines: Vec<String> = vec![];
    for i in 0..settings {
        lines.push(format!("G{}:{} {}", i % names, i % names * 7, maps[(a + i * (b + 1)) % 4]));
        for j in 0..ops { lines.push(list[(j * b + i + j / 7) % 7].to_string()); }
        if i % 2 == b % 2 { lines.push(format!("alias H{} G{}", i % (names + 1), i)); }
        if i % 3 == a % 3 { lines.push(format!("lookup G{} {} {} {}", i, SYSTEMS[i % 10], CENTERINGS[(i + b) % 9], maps[(a + i) % 4])); }
        if i == at { lines.push(["", "alias x", "lookup G1 cubic P", "G x,y", " x,y,", "# \u{e4} "][odd].to_string()); }
    }
    if odd == 5 { let l = lines.len() / 2; lines[l] = format!("#{}", "x".repeat(9000)); }
    let lines: Vec<&str> = lines.iter().map(|s| &s[..]).collect();
    // a line of blanks only is not an operator
    compare(&lines, parse(&lines, b % 2 == 0, a % 2 == 1));
    cover(c"end");
}
