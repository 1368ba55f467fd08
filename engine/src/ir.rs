// Parser for the textual LLVM IR of the program under check.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F64,
    F32,
    Ptr,
    Arr(Box<Ty>, u64),
    Struct(Vec<Ty>, bool),
    Vec(Box<Ty>, u64),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = int_align(*w); (b + a - 1) / a * a }
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => (t.bits() * n + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs { if !packed { let a = f.align(); o = (o + a - 1) / a * a; } o += f.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
        }
    }
    pub fn store_bytes(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => int_align(*w),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::F64 | Ty::Ptr => 64, Ty::F32 => 32, Ty::Vec(t, n) => t.bits() * n, _ => self.size() * 8 }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(t, _) => t.size() * i,
            Ty::Vec(t, _) => t.size() * i,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed { let a = f.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return o; }
                    o += f.size();
                }
                o
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> &Ty {
        match self { Ty::Arr(t, _) | Ty::Vec(t, _) => t, Ty::Struct(fs, _) => &fs[i as usize], _ => panic!("field of {:?}", self) }
    }
    pub fn lanes(&self) -> (u32, u32) { match self { Ty::Vec(t, n) => (t.bits() as u32, *n as u32), _ => (self.bits() as u32, 1) } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..)) }
}
fn int_align(w: u32) -> u64 { match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 } }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(u128), Agg(Vec<Opd>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop { Add, Sub, Mul, Udiv, Sdiv, Urem, Srem, Shl, Lshr, Ashr, And, Or, Xor, OrDisjoint }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Zext, Sext, Trunc, Bit, FpToSi, FpToUi, SiToFp, UiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(u32), Ind(Opd) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { size: u64 },
    Load { ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { b: Opd, off: i64, idx: Vec<(Opd, i64, u32)> },
    Bin { op: Bop, w: u32, n: u32, a: Opd, b: Opd },
    FBin { op: u8, ty: Ty, a: Opd, b: Opd },
    FNeg { ty: Ty, a: Opd },
    Fcmp { pred: String, ty: Ty, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, a: Opd },
    Icmp { p: Pred, w: u32, n: u32, a: Opd, b: Opd },
    Select { c: Opd, cw: u32, w: u32, a: Opd, b: Opd },
    Phi,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Call { f: Callee, args: Vec<(Opd, u32)>, rw: u32, normal: Option<u32> },
    Extract { a: Opd, path: Vec<u32> },
    Insert { a: Opd, v: Opd, path: Vec<u32> },
    Rmw { op: String, ty: Ty, p: Opd, v: Opd },
    Cas { ty: Ty, p: Opd, c: Opd, n: Opd },
    Copy(Opd),
    Shuffle { a: Opd, b: Opd, n: u32, w: u32, m: Vec<i32> },
    InsElt { a: Opd, v: Opd, i: Opd, w: u32 },
    ExtElt { a: Opd, i: Opd, w: u32 },
    Nop,
    Bad(String),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub ins: Ins }
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Inst>,
}
#[derive(Clone, Debug, Default)]
pub struct Func { pub name: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub ninst: usize }

#[derive(Clone, Debug)]
pub struct Global { pub name: String, pub constant: bool, pub data: Vec<u8>, pub id: u32 }

#[derive(Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub fn_id: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub ext_id: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_id: HashMap<String, u32>,
    pub alias: HashMap<String, String>,
}
pub const FN_BASE: u64 = 0x4000_0000;
pub const EXT_BASE: u64 = 0x6000_0000;

struct Px<'a> {
    s: &'a [u8],
    i: usize,
    types: &'a HashMap<String, String>,
    prog: &'a Program,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> Px<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at {}", c as char, self.rest())) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]).into_owned() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.') { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let k = { self.ws(); self.i }; let w = self.word(); self.i = k; w }
    fn eat_word(&mut self, w: &str) -> bool { if self.peek_word() == w { self.word(); true } else { false } }
    fn group(&mut self) {
        // skip balanced parentheses
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    /// name after % or @ (quoted or plain)
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_.$-".contains(&self.s[self.i])) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn number(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' { self.i += 1; }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("number at {}", self.rest()))
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' { return true; }
        let w = self.peek_word();
        matches!(w, "void" | "ptr" | "double" | "float" | "half" | "x86_fp80" | "metadata" | "label" | "token" | "opaque")
            || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'{' => { self.i += 1; let v = self.tylist(b'}')?; Ok(Ty::Struct(v, false)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let v = self.tylist(b'}')?; self.need(b'>')?; Ok(Ty::Struct(v, true)) }
                else { let n = self.number()? as u64; if !self.eat_word("x") { return Err("vec".into()); } let t = self.ty()?; self.need(b'>')?; Ok(Ty::Vec(Box::new(t), n)) }
            }
            b'[' => { self.i += 1; let n = self.number()? as u64; if !self.eat_word("x") { return Err("arr".into()); } let t = self.ty()?; self.need(b']')?; Ok(Ty::Arr(Box::new(t), n)) }
            b'%' => {
                self.i += 1;
                let n = self.ident();
                let body = self.types.get(&n).ok_or_else(|| format!("unknown type {}", n))?;
                let mut p = Px { s: body.as_bytes(), i: 0, types: self.types, prog: self.prog, regs: HashMap::new(), labels: HashMap::new() };
                p.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ok(Ty::Void), "ptr" => Ok(Ty::Ptr), "double" => Ok(Ty::F64), "float" => Ok(Ty::F32),
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "opaque" => Ok(Ty::Other),
                    _ if w.len() > 1 && w.starts_with('i') => w[1..].parse().map(Ty::Int).map_err(|_| format!("type {}", w)),
                    _ => Err(format!("type '{}' at {}", w, self.rest())),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat(end) { return Ok(v); } self.need(b',')?; }
    }
    fn addr_of(&self, n: &str) -> R<u128> {
        let n = self.prog.alias.get(n).map(|s| &s[..]).unwrap_or(n);
        if let Some(i) = self.prog.fn_id.get(n) { return Ok(((FN_BASE + *i as u64) << 32) as u128); }
        if let Some(i) = self.prog.glob_id.get(n) { return Ok(((self.prog.globals[*i as usize].id as u64) << 32) as u128); }
        if let Some(i) = self.prog.ext_id.get(n) { return Ok(((EXT_BASE + *i as u64) << 32) as u128); }
        Err(format!("unknown symbol {}", n))
    }
    fn val(&mut self, t: &Ty) -> R<Opd> {
        match self.peek() {
            b'%' => { self.i += 1; let n = self.ident(); let k = self.regs.len() as u32; Ok(Opd::R(*self.regs.entry(n).or_insert(k))) }
            _ => self.cval(t),
        }
    }
    fn zero(t: &Ty) -> Opd {
        match t { Ty::Struct(fs, _) => Opd::Agg(fs.iter().map(Self::zero).collect()), Ty::Arr(e, n) => Opd::Agg((0..*n).map(|_| Self::zero(e)).collect()), _ => Opd::C(0) }
    }
    fn cval(&mut self, t: &Ty) -> R<Opd> {
        let c = self.peek();
        if c == b'@' { self.i += 1; let n = self.ident(); return Ok(Opd::C(self.addr_of(&n)?)); }
        if c == b'{' || c == b'[' {
            self.i += 1;
            let end = if c == b'{' { b'}' } else { b']' };
            let mut v = vec![];
            if self.eat(end) { return Ok(Opd::Agg(v)); }
            loop { let t = self.ty()?; v.push(self.cval(&t)?); if self.eat(end) { return Ok(Opd::Agg(v)); } self.need(b',')?; }
        }
        if c == b'<' {
            self.i += 1;
            if self.eat(b'{') {
                let mut v = vec![];
                if !self.eat(b'}') { loop { let t = self.ty()?; v.push(self.cval(&t)?); if self.eat(b'}') { break; } self.need(b',')?; } }
                self.need(b'>')?;
                return Ok(Opd::Agg(v));
            }
            let (w, _) = t.lanes();
            let mut x: u128 = 0;
            let mut k = 0;
            loop { let e = self.ty()?; if let Opd::C(y) = self.cval(&e)? { if w * k < 128 { x |= crate::num::mask(y, w) << (w * k); } } k += 1; if self.eat(b'>') { return Ok(Opd::C(x)); } self.need(b',')?; }
        }
        if c == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
            let b = self.cstr();
            return Ok(Opd::Agg(b.into_iter().map(|x| Opd::C(x as u128)).collect()));
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            match t {
                Ty::F64 | Ty::F32 => {
                    let st = self.i;
                    // infinities and NaNs are printed as +inf, -inf, +qnan, -nan(0x...), ...
                    let neg = c == b'-';
                    let rest = &self.s[st + usize::from(!c.is_ascii_digit())..];
                    if rest.starts_with(b"inf") {
                        self.i += 4;
                        let f = if neg { f64::NEG_INFINITY } else { f64::INFINITY };
                        return Ok(Opd::C(if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }));
                    }
                    if let Some(w) = [&b"qnan"[..], b"nan"].into_iter().find(|w| rest.starts_with(w)) {
                        self.i += 1 + w.len();
                        if self.i < self.s.len() && self.s[self.i] == b'(' { return Err("float NaN payload".into()); }
                        let f = if neg { -f64::NAN } else { f64::NAN };
                        let b32 = if neg { 0xffc0_0000u128 } else { 0x7fc0_0000 };
                        return Ok(Opd::C(if *t == Ty::F32 { b32 } else { (f.to_bits() & 0x7fff_ffff_ffff_ffff) as u128 | (u128::from(neg) << 63) }));
                    }
                    if self.s[self.i..].starts_with(b"0x") {
                        self.i += 2;
                        let h = self.word();
                        let bits = u64::from_str_radix(h, 16).map_err(|_| format!("hex float {}", h))?;
                        return Ok(Opd::C(if *t == Ty::F32 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 }));
                    }
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"+-.".contains(&self.s[self.i])) { self.i += 1; }
                    let f: f64 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|_| "float".to_string())?;
                    return Ok(Opd::C(if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }));
                }
                _ => { let n = self.number()?; return Ok(Opd::C(crate::num::mask(n as u128, t.bits().min(128) as u32))); }
            }
        }
        let w = self.word();
        match w {
            "true" => Ok(Opd::C(1)),
            "false" | "null" | "none" => Ok(Opd::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(t)),
            w if w.starts_with("f0x") => {
                let h = &w[3..];
                let bits = u64::from_str_radix(h, 16).map_err(|_| format!("hex float {}", h))?;
                Ok(Opd::C(if *t == Ty::F32 && h.len() > 8 { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 }))
            }
            "splat" => {
                self.need(b'(')?;
                let e = self.ty()?;
                let v = self.cval(&e)?;
                self.need(b')')?;
                let (w, n) = t.lanes();
                if let Opd::C(v) = v { let mut x = 0u128; for k in 0..n { if w * k < 128 { x |= crate::num::mask(v, w) << (w * k); } } Ok(Opd::C(x)) } else { Err("splat".into()) }
            }
            "getelementptr" => {
                loop { let w = self.peek_word(); if w == "inbounds" || w == "nuw" || w == "nusw" { self.word(); } else if w == "inrange" { self.word(); self.group(); } else { break; } }
                self.need(b'(')?;
                let t = self.ty()?;
                self.need(b',')?;
                self.ty()?;
                let b = self.cval(&Ty::Ptr)?;
                let mut idx = vec![];
                while self.eat(b',') { let it = self.ty()?; let v = self.cval(&it)?; idx.push((it, v)); }
                self.need(b')')?;
                let (off, rest) = gep_off(&t, idx)?;
                if !rest.is_empty() { return Err("const gep".into()); }
                if let Opd::C(b) = b { Ok(Opd::C((b as u64).wrapping_add(off as u64) as u128)) } else { Err("const gep".into()) }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.need(b'(')?;
                let t0 = self.ty()?;
                let v = self.cval(&t0)?;
                if !self.eat_word("to") { return Err("cast".into()); }
                let t1 = self.ty()?;
                self.need(b')')?;
                if let Opd::C(x) = v { Ok(Opd::C(crate::num::mask(x, t1.bits() as u32))) } else { Ok(v) }
            }
            "add" | "sub" | "xor" | "mul" => {
                while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                self.need(b'(')?;
                let t0 = self.ty()?; let a = self.cval(&t0)?; self.need(b',')?;
                let t1 = self.ty()?; let b = self.cval(&t1)?; self.need(b')')?;
                if let (Opd::C(a), Opd::C(b)) = (a, b) {
                    let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                    Ok(Opd::C(crate::num::mask(r, t0.bits() as u32)))
                } else { Err("const bin".into()) }
            }
            _ => Err(format!("const '{}' {}", w, self.rest())),
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        self.i += 2;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if let Ok(x) = u8::from_str_radix(h, 16) { v.push(x); self.i += 3; } else { v.push(b'\\'); self.i += 2; }
            } else { v.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        v
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue; }
            if !c.is_ascii_alphabetic() { return; }
            if c == b'c' && self.s[self.i + 1] == b'"' { return; }
            let w = self.peek_word();
            if matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "add" | "sub" | "xor" | "mul" | "trunc" | "bitcast" | "ptrtoaddr" | "asm" | "blockaddress") { return; }
            self.word();
            if w == "align" && self.peek().is_ascii_digit() { self.word(); continue; }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.group(); }
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; let v = self.val(&t)?; Ok((t, v)) }
    fn label(&mut self) -> R<u32> {
        if !self.eat_word("label") { return Err(format!("label at {}", self.rest())); }
        self.need(b'%')?;
        let n = self.ident();
        self.labels.get(&n).copied().ok_or_else(|| format!("unknown label {}", n))
    }
}

fn gep_off(t: &Ty, idx: Vec<(Ty, Opd)>) -> R<(i64, Vec<(Opd, i64, u32)>)> {
    let mut off = 0i64;
    let mut rest = vec![];
    let mut cur = t.clone();
    for (k, (it, v)) in idx.into_iter().enumerate() {
        if k == 0 {
            let sc = cur.size() as i64;
            match v { Opd::C(c) => off = off.wrapping_add((crate::num::sext(c, it.bits() as u32) as i64).wrapping_mul(sc)), v => rest.push((v, sc, it.bits() as u32)) }
        } else {
            match (&cur, v) {
                (_, Opd::C(c)) => { let c = crate::num::sext(c, it.bits() as u32) as i64; 
                    if let Ty::Struct(..) = cur { off += cur.field_off(c as u64) as i64; } else { off += cur.field(0).size() as i64 * c; }
                    cur = cur.field(if matches!(cur, Ty::Struct(..)) { c as u64 } else { 0 }).clone(); }
                (_, v) => { let e = cur.field(0).clone(); rest.push((v, e.size() as i64, it.bits() as u32)); cur = e; }
            }
        }
    }
    Ok((off, rest))
}

fn write_const(data: &mut Vec<u8>, off: usize, t: &Ty, v: &Opd) {
    match v {
        Opd::C(x) => {
            let n = t.store_bytes() as usize;
            if matches!(t, Ty::Struct(..) | Ty::Arr(..)) { return; }
            for k in 0..n.min(16) { data[off + k] = (x >> (8 * k)) as u8; }
        }
        Opd::Agg(vs) => for (i, e) in vs.iter().enumerate() { write_const(data, off + t.field_off(i as u64) as usize, t.field(i as u64), e); },
        Opd::R(_) => {}
    }
}

pub fn parse(text: &str, aliases: &[(String, String)]) -> R<Program> {
    let mut types: HashMap<String, String> = HashMap::new();
    let mut prog = Program::default();
    for (a, b) in aliases { prog.alias.insert(a.clone(), b.clone()); }
    let mut fn_src: Vec<(String, Vec<&str>)> = vec![];
    let mut gl_src: Vec<(String, String)> = vec![];
    let mut lines = text.lines();
    let empty = HashMap::new();
    while let Some(l) = lines.next() {
        if l.starts_with('%') {
            if let Some(k) = l.find(" = type ") { let n = l[1..k].trim_matches('"').to_string(); types.insert(n, l[k + 8..].to_string()); }
        } else if l.starts_with('@') {
            let p = Program::default();
            let mut px = Px { s: l.as_bytes(), i: 1, types: &empty, prog: &p, regs: HashMap::new(), labels: HashMap::new() };
            let n = px.ident();
            let r = l[px.i..].trim_start().trim_start_matches('=').trim_start().to_string();
            gl_src.push((n, r));
        } else if l.starts_with("define ") {
            let mut body = vec![];
            for b in lines.by_ref() { if b == "}" { break; } body.push(b); }
            fn_src.push((l.to_string(), body));
        } else if l.starts_with("declare ") {
            if let Some(k) = l.find('@') {
                let p = Program::default();
                let mut px = Px { s: l.as_bytes(), i: k + 1, types: &empty, prog: &p, regs: HashMap::new(), labels: HashMap::new() };
                let n = px.ident();
                let id = prog.exts.len() as u32;
                prog.exts.push(n.clone());
                prog.ext_id.insert(n, id);
            }
        }
    }
    for (i, (h, _)) in fn_src.iter().enumerate() {
        let k = h.find('@').unwrap();
        let p = Program::default();
        let mut px = Px { s: h.as_bytes(), i: k + 1, types: &empty, prog: &p, regs: HashMap::new(), labels: HashMap::new() };
        let n = px.ident();
        prog.fn_id.insert(n.clone(), i as u32);
    }
    // global headers
    let mut gl_body: Vec<(usize, String)> = vec![];
    for (n, r) in &gl_src {
        let is_const = r.contains(" constant ") || r.starts_with("constant ");
        let kw = if let Some(k) = find_kw(r, "constant") { k + 8 } else if let Some(k) = find_kw(r, "global") { k + 6 } else {
            // alias: @x = alias ty, ptr @y
            if let Some(k) = r.rfind('@') { let t: String = r[k + 1..].chars().take_while(|c| c.is_alphanumeric() || "_.$".contains(*c)).collect(); prog.alias.insert(n.clone(), t); }
            continue;
        };
        let id = prog.globals.len() as u32 + 1;
        prog.glob_id.insert(n.clone(), prog.globals.len() as u32);
        gl_body.push((prog.globals.len(), r[kw..].to_string()));
        prog.globals.push(Global { name: n.clone(), constant: is_const && !r.contains("thread_local"), data: vec![], id });
    }
    let mut datas = vec![];
    for (gi, b) in &gl_body {
        let mut px = Px { s: b.as_bytes(), i: 0, types: &types, prog: &prog, regs: HashMap::new(), labels: HashMap::new() };
        let t = px.ty().map_err(|e| format!("global {}: {}", prog.globals[*gi].name, e))?;
        let mut data = vec![0u8; t.size() as usize];
        let c = px.peek();
        if c != b',' && c != 0 {
            // fast path for strings
            if c == b'c' { data = px.cstr(); } else {
                match px.cval(&t) {
                    Ok(v) => write_const(&mut data, 0, &t, &v),
                    Err(e) => return Err(format!("global {}: {}", prog.globals[*gi].name, e)),
                }
            }
        }
        datas.push((*gi, data));
    }
    for (gi, d) in datas { prog.globals[gi].data = d; }
    // functions
    let mut funcs = vec![];
    for (h, body) in &fn_src { funcs.push(parse_fn(h, body, &types, &prog).map_err(|e| format!("{}: {}", &h[..h.len().min(200)], e))?); }
    prog.funcs = funcs;
    Ok(prog)
}

fn find_kw(r: &str, kw: &str) -> Option<usize> {
    let pat = format!("{} ", kw);
    let mut st = 0;
    while let Some(k) = r[st..].find(&pat) {
        let k = st + k;
        if k == 0 || r.as_bytes()[k - 1] == b' ' { 
            // must come before any initializer
            if !r[..k].contains('"') && !r[..k].contains('{') && !r[..k].contains('[') { return Some(k); } else { return None; }
        }
        st = k + 1;
    }
    None
}

fn parse_fn(h: &str, body: &[&str], types: &HashMap<String, String>, prog: &Program) -> R<Func> {
    let k = h.find('@').unwrap();
    let mut px = Px { s: h.as_bytes(), i: k + 1, types, prog, regs: HashMap::new(), labels: HashMap::new() };
    let name = px.ident();
    px.need(b'(')?;
    let mut params = vec![];
    let mut unnamed = 0u32;
    if !px.eat(b')') {
        loop {
            if px.peek() == b'.' { px.i += 3; px.need(b')')?; break; }
            let _t = px.ty()?;
            px.skip_attrs();
            let n = if px.eat(b'%') { px.ident() } else { let s = unnamed.to_string(); unnamed += 1; s };
            let id = px.regs.len() as u32;
            px.regs.insert(n, id);
            params.push(id);
            if px.eat(b')') { break; }
            px.need(b',')?;
        }
    }
    // labels
    let mut nb = 0u32;
    let mut labels = HashMap::new();
    let first_named = body.first().map_or(false, |l| !l.starts_with(' ') && !l.is_empty() && is_label(l));
    if !first_named {
        // implicit entry label takes the next number
        let k = px.regs.keys().filter(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit())).count();
        labels.insert(format!("{}", k), 0);
        nb = 1;
    }
    for l in body { if let Some(n) = label_name(l) { labels.insert(n, nb); nb += 1; } }
    px.labels = labels;
    let mut blocks: Vec<Block> = vec![];
    if !first_named { blocks.push(Block::default()); }
    let mut i = 0;
    let mut ninst = 0;
    while i < body.len() {
        let l = body[i];
        i += 1;
        if l.is_empty() { continue; }
        if label_name(l).is_some() { blocks.push(Block::default()); continue; }
        let mut line = l.to_string();
        if l.contains(" switch ") || l.trim_start().starts_with("switch ") {
            while !body[i - 1].trim_end().ends_with(']') && !body[i - 1].trim_start().starts_with(']') && i < body.len() { line.push('\n'); line.push_str(body[i]); i += 1; }
        } else if l.contains(" landingpad ") || l.contains("invoke ") {
            while i < body.len() && (body[i].trim_start().starts_with("cleanup") || body[i].trim_start().starts_with("filter") || body[i].trim_start().starts_with("catch") || body[i].trim_start().starts_with("to label")) { line.push(' '); line.push_str(body[i].trim()); i += 1; }
        }
        ninst += 1;
        let blk = blocks.len() - 1;
        px.s = unsafe { std::mem::transmute::<&[u8], &[u8]>(line.as_bytes()) };
        px.i = 0;
        let mut dst = NODST;
        if px.peek() == b'%' {
            px.i += 1;
            let n = px.ident();
            px.need(b'=')?;
            let k = px.regs.len() as u32;
            dst = *px.regs.entry(n).or_insert(k);
        }
        let ins = match parse_ins(&mut px, blk, &mut blocks, dst) { Ok(x) => x, Err(e) => Ins::Bad(format!("{} :: {}", e, line.trim())) };
        px.s = b"";
        if !matches!(ins, Ins::Phi | Ins::Nop) { blocks[blk].ins.push(Inst { dst, ins }); }
    }
    Ok(Func { name, params, nregs: px.regs.len() as u32, blocks, ninst })
}
fn is_label(l: &str) -> bool { label_name(l).is_some() }
fn label_name(l: &str) -> Option<String> {
    if l.starts_with(' ') || l.starts_with(';') || l.is_empty() { return None; }
    if l.starts_with('"') { let k = l[1..].find('"')?; return Some(l[1..k + 1].to_string()); }
    let k = l.find(':')?;
    let n = &l[..k];
    if n.bytes().all(|b| b.is_ascii_alphanumeric() || b"_.$-".contains(&b)) { Some(n.to_string()) } else { None }
}

fn parse_ins(px: &mut Px, blk: usize, blocks: &mut Vec<Block>, dst: u32) -> R<Ins> {
    let mut op = px.word();
    while matches!(op, "tail" | "musttail" | "notail") { op = px.word(); }
    let bop = |o: &str| Some(match o { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::Udiv, "sdiv" => Bop::Sdiv, "urem" => Bop::Urem, "srem" => Bop::Srem, "shl" => Bop::Shl, "lshr" => Bop::Lshr, "ashr" => Bop::Ashr, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, _ => return None });
    if let Some(mut b) = bop(op) {
        loop { match px.peek_word() { "nuw" | "nsw" | "exact" => { px.word(); } "disjoint" => { px.word(); b = Bop::OrDisjoint; } _ => break } }
        let t = px.ty()?;
        let a = px.val(&t)?;
        px.need(b',')?;
        let c = px.val(&t)?;
        let (w, n) = t.lanes();
        return Ok(Ins::Bin { op: b, w, n, a, b: c });
    }
    let cast = |o: &str| Some(match o { "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Cast::Bit, "fptosi" => Cast::FpToSi, "fptoui" => Cast::FpToUi, "sitofp" => Cast::SiToFp, "uitofp" => Cast::UiToFp, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc, _ => return None });
    if let Some(mut k) = cast(op) {
        while matches!(px.peek_word(), "nneg" | "nuw" | "nsw") { px.word(); }
        let from = px.ty()?;
        let a = px.val(&from)?;
        if !px.eat_word("to") { return Err("cast".into()); }
        let to = px.ty()?;
        if k == Cast::Bit && op != "bitcast" { k = if from.bits() < to.bits() { Cast::Zext } else if from.bits() > to.bits() { Cast::Trunc } else { Cast::Bit }; }
        return Ok(Ins::Cast { k, from, to, a });
    }
    match op {
        "alloca" => {
            let t = px.ty()?;
            let mut n = 1;
            if px.eat(b',') { if px.is_type_start() { let it = px.ty()?; if let Opd::C(c) = px.val(&it)? { n = c as u64; } else { return Err("dynamic alloca".into()); } } }
            Ok(Ins::Alloca { size: t.size() * n })
        }
        "load" => {
            while matches!(px.peek_word(), "volatile" | "atomic") { px.word(); }
            let ty = px.ty()?; px.need(b',')?; px.ty()?; let p = px.val(&Ty::Ptr)?;
            Ok(Ins::Load { ty, p })
        }
        "store" => {
            while matches!(px.peek_word(), "volatile" | "atomic") { px.word(); }
            let ty = px.ty()?; let v = px.val(&ty)?; px.need(b',')?; px.ty()?; let p = px.val(&Ty::Ptr)?;
            Ok(Ins::Store { ty, v, p })
        }
        "getelementptr" => {
            loop { let w = px.peek_word(); if matches!(w, "inbounds" | "nuw" | "nusw") { px.word(); } else { break; } }
            let t = px.ty()?; px.need(b',')?;
            let pt = px.ty()?; let b = px.val(&pt)?;
            let mut idx = vec![];
            while px.eat(b',') { if px.peek() == b'!' { break; } idx.push(px.tyval()?); }
            let (off, rest) = gep_off(&t, idx)?;
            Ok(Ins::Gep { b, off, idx: rest })
        }
        "icmp" => {
            if px.peek_word() == "samesign" { px.word(); }
            let p = match px.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x => return Err(format!("icmp {}", x)) };
            if px.peek_word() == "samesign" { px.word(); }
            let t = px.ty()?; let a = px.val(&t)?; px.need(b',')?; let b = px.val(&t)?;
            let (w, n) = t.lanes();
            Ok(Ins::Icmp { p, w, n, a, b })
        }
        "fcmp" => {
            while matches!(px.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { px.word(); }
            let pred = px.word().to_string();
            let ty = px.ty()?; let a = px.val(&ty)?; px.need(b',')?; let b = px.val(&ty)?;
            Ok(Ins::Fcmp { pred, ty, a, b })
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while matches!(px.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { px.word(); }
            let ty = px.ty()?; let a = px.val(&ty)?; px.need(b',')?; let b = px.val(&ty)?;
            Ok(Ins::FBin { op: match op { "fadd" => 0, "fsub" => 1, "fmul" => 2, "fdiv" => 3, _ => 4 }, ty, a, b })
        }
        "fneg" => { let ty = px.ty()?; let a = px.val(&ty)?; Ok(Ins::FNeg { ty, a }) }
        "select" => {
            while matches!(px.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { px.word(); }
            let (ct, c) = px.tyval()?; px.need(b',')?; let (t, a) = px.tyval()?; px.need(b',')?; let (_, b) = px.tyval()?;
            let (w, _) = t.lanes();
            let (_, cn) = ct.lanes();
            Ok(Ins::Select { c, cw: cn, w, a, b })
        }
        "phi" => {
            while matches!(px.peek_word(), "fast" | "nnan" | "ninf" | "nsz") { px.word(); }
            let t = px.ty()?;
            let mut v = vec![];
            loop {
                px.need(b'[')?; let o = px.val(&t)?; px.need(b',')?; px.need(b'%')?;
                let n = px.ident(); px.need(b']')?;
                let l = *px.labels.get(&n).ok_or("phi label")?;
                v.push((l, o));
                if !px.eat(b',') { break; }
                if px.peek() != b'[' { break; }
            }
            blocks[blk].phis.push((dst, v));
            Ok(Ins::Phi)
        }
        "br" => {
            if px.peek_word() == "label" { return Ok(Ins::Br(px.label()?)); }
            let (_, c) = px.tyval()?; px.need(b',')?; let a = px.label()?; px.need(b',')?; let b = px.label()?;
            Ok(Ins::CondBr(c, a, b))
        }
        "switch" => {
            let (t, v) = px.tyval()?; px.need(b',')?; let def = px.label()?; px.need(b'[')?;
            let mut cases = vec![];
            while !px.eat(b']') { let (_, c) = px.tyval()?; px.need(b',')?; let l = px.label()?; if let Opd::C(c) = c { cases.push((c, l)); } }
            Ok(Ins::Switch { w: t.bits() as u32, v, def, cases })
        }
        "ret" => { let t = px.ty()?; if t == Ty::Void { Ok(Ins::Ret(None)) } else { Ok(Ins::Ret(Some(px.val(&t)?))) } }
        "unreachable" | "resume" | "landingpad" => Ok(Ins::Unreachable),
        "call" | "invoke" => {
            loop {
                if px.peek() == b'#' { px.i += 1; px.word(); continue; }
                if px.is_type_start() { break; }
                let w = px.word();
                if w.is_empty() { return Err(format!("call {}", px.rest())); }
                if w == "align" { px.word(); }
                if px.i < px.s.len() && px.s[px.i] == b'(' { px.group(); }
            }
            let rt = px.ty()?;
            if px.peek() == b'(' { px.group(); }
            if px.peek_word() == "asm" { return Ok(Ins::Nop); }
            let callee;
            if px.eat(b'@') {
                let n = px.ident();
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.dbg") || n.starts_with("llvm.invariant") || n == "llvm.x86.sse2.pause" || n.starts_with("llvm.prefetch") { return Ok(Ins::Nop); }
                let n2 = px.prog.alias.get(&n).cloned().unwrap_or(n);
                callee = if let Some(i) = px.prog.fn_id.get(&n2) { Callee::Fn(*i) } else if let Some(i) = px.prog.ext_id.get(&n2) { Callee::Ext(*i) } else { return Err(format!("callee {}", n2)); };
            } else { callee = Callee::Ind(px.val(&Ty::Ptr)?); }
            px.need(b'(')?;
            let mut args = vec![];
            if !px.eat(b')') {
                loop {
                    let t = px.ty()?;
                    if t == Ty::Other { // metadata
                        let mut d = 0;
                        while px.i < px.s.len() { let c = px.s[px.i]; if c == b'(' { d += 1; } if (c == b',' || c == b')') && d == 0 { break; } if c == b')' { d -= 1; } px.i += 1; }
                    } else {
                        px.skip_attrs();
                        let v = px.val(&t)?;
                        args.push((v, t.bits() as u32));
                    }
                    if px.eat(b')') { break; }
                    px.need(b',')?;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                let st = px.i;
                let s = std::str::from_utf8(&px.s[st..]).unwrap();
                let k = s.find("to label ").ok_or("invoke")?;
                px.i = st + k + 3;
                normal = Some(px.label()?);
            }
            Ok(Ins::Call { f: callee, args, rw: rt.bits() as u32, normal })
        }
        "extractvalue" => {
            let (_, a) = px.tyval()?;
            let mut path = vec![];
            while px.eat(b',') { if px.peek() == b'!' { break; } path.push(px.number()? as u32); }
            Ok(Ins::Extract { a, path })
        }
        "insertvalue" => {
            let (_, a) = px.tyval()?; px.need(b',')?; let (_, v) = px.tyval()?;
            let mut path = vec![];
            while px.eat(b',') { if px.peek() == b'!' { break; } path.push(px.number()? as u32); }
            Ok(Ins::Insert { a, v, path })
        }
        "atomicrmw" => {
            if px.peek_word() == "volatile" { px.word(); }
            let o = px.word().to_string(); px.ty()?; let p = px.val(&Ty::Ptr)?; px.need(b',')?; let (ty, v) = px.tyval()?;
            Ok(Ins::Rmw { op: o, ty, p, v })
        }
        "cmpxchg" => {
            while matches!(px.peek_word(), "weak" | "volatile") { px.word(); }
            px.ty()?; let p = px.val(&Ty::Ptr)?; px.need(b',')?; let (ty, c) = px.tyval()?; px.need(b',')?; let (_, n) = px.tyval()?;
            Ok(Ins::Cas { ty, p, c, n })
        }
        "freeze" => { let (_, a) = px.tyval()?; Ok(Ins::Copy(a)) }
        "fence" => Ok(Ins::Nop),
        "shufflevector" => {
            let (t, a) = px.tyval()?; px.need(b',')?; let (_, b) = px.tyval()?; px.need(b',')?;
            let mt = px.ty()?;
            let (w, n) = t.lanes();
            let mn = mt.lanes().1;
            let mut m = vec![];
            if px.eat(b'<') {
                loop { px.ty()?; let c = px.peek(); if c == b'p' || c == b'u' { px.word(); m.push(0); } else { m.push(px.number()? as i32); } if px.eat(b'>') { break; } px.need(b',')?; }
            } else { px.word(); m = vec![0; mn as usize]; }
            Ok(Ins::Shuffle { a, b, n, w, m })
        }
        "insertelement" => { let (t, a) = px.tyval()?; px.need(b',')?; let (_, v) = px.tyval()?; px.need(b',')?; let (_, i) = px.tyval()?; Ok(Ins::InsElt { a, v, i, w: t.lanes().0 }) }
        "extractelement" => { let (t, a) = px.tyval()?; px.need(b',')?; let (_, i) = px.tyval()?; Ok(Ins::ExtElt { a, i, w: t.lanes().0 }) }
        _ => Err(format!("op {}", op)),
    }
}
