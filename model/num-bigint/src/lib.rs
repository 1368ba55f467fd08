//! Verification model of num-bigint: BigInt is a handle of an exact integer
//! (a polynomial over the symbolic inputs) kept by the symbolic executor.
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::*;
use core::str::FromStr;
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed, ToPrimitive, Zero};

extern "C" {
    fn sx_big_from(lo: u64, hi: u64) -> u64;
    fn sx_big_from_i64(a: i64) -> u64;
    fn sx_big_from_u64(a: u64) -> u64;
    fn sx_big_add(a: u64, b: u64) -> u64;
    fn sx_big_sub(a: u64, b: u64) -> u64;
    fn sx_big_mul(a: u64, b: u64) -> u64;
    fn sx_big_neg(a: u64) -> u64;
    fn sx_big_div(a: u64, b: u64) -> u64;
    fn sx_big_rem(a: u64, b: u64) -> u64;
    fn sx_big_divf(a: u64, b: u64) -> u64;
    fn sx_big_modf(a: u64, b: u64) -> u64;
    fn sx_big_gcd(a: u64, b: u64) -> u64;
    fn sx_big_cmp(a: u64, b: u64) -> i32;
    fn sx_big_lt(a: u64, b: u64) -> u8;
    fn sx_big_eq(a: u64, b: u64) -> u8;
    fn sx_big_is_const(a: u64) -> u8;
    fn sx_big_to_i64(a: u64, out: *mut i64) -> u8;
    fn sx_big_to_u64(a: u64, out: *mut u64) -> u8;
    fn sx_big_to_i32(a: u64, out: *mut i64) -> u8;
    fn sx_big_limb(a: u64, k: u64) -> u64;
    fn sx_big_bits(a: u64) -> u64;
    fn sx_ratio_norm(n: u64, d: u64, on: *mut u64, od: *mut u64);
    fn sx_ratio_full(n: u64, d: u64, on: *mut u64, od: *mut u64);
}

#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign { Minus, NoSign, Plus }

impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign { match self { Sign::Minus => Sign::Plus, Sign::NoSign => Sign::NoSign, Sign::Plus => Sign::Minus } }
}

#[repr(transparent)]
pub struct BigInt { h: u64 }

/// Non-negative exact integer.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct BigUint { v: BigInt }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError { _p: () }
impl fmt::Display for ParseBigIntError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid digit found in string") } }
impl std::error::Error for ParseBigIntError {}

#[inline] fn mk(h: u64) -> BigInt { BigInt { h } }

impl Clone for BigInt { #[inline] fn clone(&self) -> BigInt { mk(self.h) } }
impl Default for BigInt { fn default() -> BigInt { BigInt::zero() } }
impl Default for BigUint { fn default() -> BigUint { BigUint { v: BigInt::zero() } } }
impl PartialEq for BigInt { #[inline] fn eq(&self, o: &BigInt) -> bool { unsafe { sx_big_eq(self.h, o.h) != 0 } } }
impl Eq for BigInt {}
impl PartialOrd for BigInt {
    #[inline] fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> { Some(self.cmp(o)) }
    #[inline] fn lt(&self, o: &BigInt) -> bool { unsafe { sx_big_lt(self.h, o.h) != 0 } }
    #[inline] fn gt(&self, o: &BigInt) -> bool { unsafe { sx_big_lt(o.h, self.h) != 0 } }
    #[inline] fn le(&self, o: &BigInt) -> bool { unsafe { sx_big_lt(o.h, self.h) == 0 } }
    #[inline] fn ge(&self, o: &BigInt) -> bool { unsafe { sx_big_lt(self.h, o.h) == 0 } }
}
impl Ord for BigInt { #[inline] fn cmp(&self, o: &BigInt) -> Ordering { let c = unsafe { sx_big_cmp(self.h, o.h) }; if c < 0 { Ordering::Less } else if c > 0 { Ordering::Greater } else { Ordering::Equal } } }
impl Hash for BigInt { fn hash<H: Hasher>(&self, s: &mut H) { self.low().hash(s) } }

impl BigInt {
    /// low 128 bits of the magnitude with sign (concretises)
    fn low(&self) -> i128 {
        let neg = self.is_negative();
        let m = unsafe { (sx_big_limb(self.h, 0) as u128) | ((sx_big_limb(self.h, 1) as u128) << 64) };
        if neg { (m as i128).wrapping_neg() } else { m as i128 }
    }
    pub fn from_biguint(s: Sign, u: BigUint) -> BigInt { match s { Sign::Minus => -u.v, Sign::NoSign => BigInt::zero(), Sign::Plus => u.v } }
    pub fn sign(&self) -> Sign { if self.is_zero() { Sign::NoSign } else if self.is_negative() { Sign::Minus } else { Sign::Plus } }
    pub fn magnitude(&self) -> &BigUint { Box::leak(Box::new(BigUint { v: self.abs() })) }
    pub fn into_parts(self) -> (Sign, BigUint) { (self.sign(), BigUint { v: self.abs() }) }
    pub fn to_biguint(&self) -> Option<BigUint> { if self.is_negative() { None } else { Some(BigUint { v: self.clone() }) } }
    pub fn bits(&self) -> u64 { unsafe { sx_big_bits(self.h) } }
    pub fn pow(&self, e: u32) -> BigInt { let mut r = BigInt::one(); for _ in 0..e { r = r * self; } r }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigInt> { let s = core::str::from_utf8(b).ok()?; BigInt::from_str_radix(s, radix).ok() }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) }
    pub fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) }
    pub fn checked_div(&self, o: &BigInt) -> Option<BigInt> { if o.is_zero() { None } else { Some(self / o) } }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        let mut e = e.clone(); let mut b = self.mod_floor(m); let mut r = BigInt::one().mod_floor(m);
        while !e.is_zero() { if e.is_odd() { r = (&r * &b).mod_floor(m); } b = (&b * &b).mod_floor(m); e = e / 2; }
        r
    }
    pub fn sqrt(&self) -> BigInt { let mut r = BigInt::zero(); while (&r + 1i64) * (&r + 1i64) <= *self { r = r + 1i64; } r }
    pub fn set_bit(&mut self, bit: u64, value: bool) { let c = self.bit(bit); let p = BigInt::from(2).pow(bit as u32); if c && !value { *self -= p; } else if !c && value { *self += p; } }
    pub fn bit(&self, bit: u64) -> bool { self.div_floor(&BigInt::from(2).pow(bit as u32)).is_odd() }
}
impl fmt::Debug for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.low(), f) } }
impl fmt::Display for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.low(), f) } }
impl fmt::LowerHex for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::LowerHex::fmt(&self.low(), f) } }
impl fmt::UpperHex for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::UpperHex::fmt(&self.low(), f) } }
impl fmt::Octal for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Octal::fmt(&self.low(), f) } }
impl fmt::Binary for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Binary::fmt(&self.low(), f) } }
impl fmt::Debug for BigUint { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.v, f) } }
impl fmt::Display for BigUint { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.v, f) } }

impl Zero for BigInt {
    #[inline] fn zero() -> BigInt { unsafe { mk(sx_big_from(0, 0)) } }
    #[inline] fn is_zero(&self) -> bool { *self == BigInt::zero() }
    #[inline] fn set_zero(&mut self) { *self = BigInt::zero(); }
}
impl One for BigInt {
    #[inline] fn one() -> BigInt { unsafe { mk(sx_big_from(1, 0)) } }
    #[inline] fn is_one(&self) -> bool { *self == BigInt::one() }
    #[inline] fn set_one(&mut self) { *self = BigInt::one(); }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigInt, ParseBigIntError> { i128::from_str_radix(s, radix).map(BigInt::from).map_err(|_| ParseBigIntError { _p: () }) }
}
impl FromStr for BigInt { type Err = ParseBigIntError; fn from_str(s: &str) -> Result<BigInt, ParseBigIntError> { BigInt::from_str_radix(s, 10) } }
impl Signed for BigInt {
    fn abs(&self) -> BigInt { if self.is_negative() { -self } else { self.clone() } }
    fn abs_sub(&self, o: &BigInt) -> BigInt { if *self <= *o { BigInt::zero() } else { self - o } }
    fn signum(&self) -> BigInt { if self.is_zero() { BigInt::zero() } else if self.is_negative() { -BigInt::one() } else { BigInt::one() } }
    #[inline] fn is_positive(&self) -> bool { *self > BigInt::zero() }
    #[inline] fn is_negative(&self) -> bool { *self < BigInt::zero() }
}
impl Integer for BigInt {
    const SX: bool = true;
    fn sx_norm(n: &BigInt, d: &BigInt) -> (BigInt, BigInt) { let (mut a, mut b) = (0, 0); unsafe { sx_ratio_norm(n.h, d.h, &mut a, &mut b) }; (mk(a), mk(b)) }
    fn sx_full(n: &BigInt, d: &BigInt) -> (BigInt, BigInt) { let (mut a, mut b) = (0, 0); unsafe { sx_ratio_full(n.h, d.h, &mut a, &mut b) }; (mk(a), mk(b)) }
    fn sx_same(a: &BigInt, b: &BigInt) -> bool { let d = a - b; unsafe { sx_big_is_const(d.h) != 0 && sx_big_eq(a.h, b.h) != 0 } }
    fn div_floor(&self, o: &BigInt) -> BigInt { unsafe { mk(sx_big_divf(self.h, o.h)) } }
    fn mod_floor(&self, o: &BigInt) -> BigInt { unsafe { mk(sx_big_modf(self.h, o.h)) } }
    fn gcd(&self, o: &BigInt) -> BigInt { unsafe { mk(sx_big_gcd(self.h, o.h)) } }
    fn lcm(&self, o: &BigInt) -> BigInt { if self.is_zero() && o.is_zero() { BigInt::zero() } else { (self / self.gcd(o) * o).abs() } }
    fn divides(&self, o: &BigInt) -> bool { self.is_multiple_of(o) }
    fn is_multiple_of(&self, o: &BigInt) -> bool { if o.is_zero() { return self.is_zero(); } (self % o).is_zero() }
    fn is_even(&self) -> bool { self.mod_floor(&BigInt::from(2)).is_zero() }
    fn is_odd(&self) -> bool { !self.is_even() }
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) { (self / o, self % o) }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) { (self.div_floor(o), self.mod_floor(o)) }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> { let mut v = 0; if unsafe { sx_big_to_i64(self.h, &mut v) } != 0 { Some(v) } else { None } }
    fn to_u64(&self) -> Option<u64> { let mut v = 0; if unsafe { sx_big_to_u64(self.h, &mut v) } != 0 { Some(v) } else { None } }
    fn to_i32(&self) -> Option<i32> { let mut v = 0; if unsafe { sx_big_to_i32(self.h, &mut v) } != 0 { Some(v as i32) } else { None } }
    fn to_i128(&self) -> Option<i128> { if self.bits() < 127 { Some(self.low()) } else { None } }
    fn to_u128(&self) -> Option<u128> { if self.bits() < 127 && !self.is_negative() { Some(self.low() as u128) } else { None } }
    fn to_f64(&self) -> Option<f64> { Some(self.low() as f64) }
    fn to_f32(&self) -> Option<f32> { Some(self.low() as f32) }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> { Some(BigInt::from(n)) }
    fn from_u64(n: u64) -> Option<BigInt> { Some(BigInt::from(n)) }
    fn from_i128(n: i128) -> Option<BigInt> { Some(BigInt::from(n)) }
    fn from_u128(n: u128) -> Option<BigInt> { Some(BigInt::from(n as i128)) }
    fn from_f64(n: f64) -> Option<BigInt> { if n.is_finite() { Some(BigInt::from(n as i128)) } else { None } }
}
impl FromPrimitive for BigUint {
    fn from_i64(n: i64) -> Option<BigUint> { if n < 0 { None } else { Some(BigUint { v: BigInt::from(n) }) } }
    fn from_u64(n: u64) -> Option<BigUint> { Some(BigUint { v: BigInt::from(n) }) }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> { self.v.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.v.to_u64() }
}
impl ShlAssign<usize> for BigUint { fn shl_assign(&mut self, k: usize) { self.v = &self.v << k; } }
impl From<BigUint> for BigInt { fn from(u: BigUint) -> BigInt { u.v } }
impl From<i128> for BigInt { fn from(n: i128) -> BigInt { unsafe { mk(sx_big_from(n as u64, (n >> 64) as u64)) } } }
impl From<u128> for BigInt { fn from(n: u128) -> BigInt { BigInt::from(n as i128) } }
impl From<i64> for BigInt { #[inline] fn from(n: i64) -> BigInt { unsafe { mk(sx_big_from_i64(n)) } } }
impl From<u64> for BigInt { #[inline] fn from(n: u64) -> BigInt { unsafe { mk(sx_big_from_u64(n)) } } }
macro_rules! froms { ($($t:ty => $u:ty),*) => { $( impl From<$t> for BigInt { #[inline] fn from(n: $t) -> BigInt { BigInt::from(n as $u) } } )* } }
froms!(i8 => i64, i16 => i64, i32 => i64, isize => i64, u8 => u64, u16 => u64, u32 => u64, usize => u64, bool => u64);

pub trait ToBigInt { fn to_bigint(&self) -> Option<BigInt>; }
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
macro_rules! tobig { ($($t:ty),*) => { $( impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } } )* } }
tobig!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, i128, u128);
macro_rules! tryfrom { ($($t:ty : $f:ident),*) => { $(
    impl core::convert::TryFrom<BigInt> for $t { type Error = ParseBigIntError; fn try_from(v: BigInt) -> Result<$t, ParseBigIntError> { v.$f().ok_or(ParseBigIntError { _p: () }) } }
    impl core::convert::TryFrom<&BigInt> for $t { type Error = ParseBigIntError; fn try_from(v: &BigInt) -> Result<$t, ParseBigIntError> { v.$f().ok_or(ParseBigIntError { _p: () }) } }
)* } }
tryfrom!(i32: to_i32, i64: to_i64, u64: to_u64, u32: to_u32, usize: to_usize, isize: to_isize, i128: to_i128);

impl Neg for BigInt { type Output = BigInt; #[inline] fn neg(self) -> BigInt { unsafe { mk(sx_big_neg(self.h)) } } }
impl<'a> Neg for &'a BigInt { type Output = BigInt; #[inline] fn neg(self) -> BigInt { unsafe { mk(sx_big_neg(self.h)) } } }

macro_rules! prim_op { ($tr:ident, $m:ident, $tra:ident, $ma:ident, $($t:ty),*) => { $(
    impl $tr<$t> for BigInt { type Output = BigInt; #[inline] fn $m(self, o: $t) -> BigInt { self.$m(BigInt::from(o)) } }
    impl<'a> $tr<$t> for &'a BigInt { type Output = BigInt; #[inline] fn $m(self, o: $t) -> BigInt { self.$m(BigInt::from(o)) } }
    impl<'a> $tr<&'a $t> for BigInt { type Output = BigInt; #[inline] fn $m(self, o: &'a $t) -> BigInt { self.$m(BigInt::from(*o)) } }
    impl<'a, 'b> $tr<&'a $t> for &'b BigInt { type Output = BigInt; #[inline] fn $m(self, o: &'a $t) -> BigInt { self.$m(BigInt::from(*o)) } }
    impl $tr<BigInt> for $t { type Output = BigInt; #[inline] fn $m(self, o: BigInt) -> BigInt { BigInt::from(self).$m(o) } }
    impl<'a> $tr<&'a BigInt> for $t { type Output = BigInt; #[inline] fn $m(self, o: &'a BigInt) -> BigInt { BigInt::from(self).$m(o) } }
    impl $tra<$t> for BigInt { #[inline] fn $ma(&mut self, o: $t) { self.$ma(BigInt::from(o)) } }
)* } }
macro_rules! ops { ($($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident;)*) => { $(
    impl $tr<BigInt> for BigInt { type Output = BigInt; #[inline] fn $m(self, o: BigInt) -> BigInt { unsafe { mk($f(self.h, o.h)) } } }
    impl<'a> $tr<&'a BigInt> for BigInt { type Output = BigInt; #[inline] fn $m(self, o: &'a BigInt) -> BigInt { unsafe { mk($f(self.h, o.h)) } } }
    impl<'a> $tr<BigInt> for &'a BigInt { type Output = BigInt; #[inline] fn $m(self, o: BigInt) -> BigInt { unsafe { mk($f(self.h, o.h)) } } }
    impl<'a, 'b> $tr<&'b BigInt> for &'a BigInt { type Output = BigInt; #[inline] fn $m(self, o: &'b BigInt) -> BigInt { unsafe { mk($f(self.h, o.h)) } } }
    impl $tra<BigInt> for BigInt { #[inline] fn $ma(&mut self, o: BigInt) { self.h = unsafe { $f(self.h, o.h) } } }
    impl<'a> $tra<&'a BigInt> for BigInt { #[inline] fn $ma(&mut self, o: &'a BigInt) { self.h = unsafe { $f(self.h, o.h) } } }
    prim_op!($tr, $m, $tra, $ma, i8, i16, i32, i64, isize, i128, u8, u16, u32, u64, usize, u128);
)* } }
ops! {
    Add, add, AddAssign, add_assign, sx_big_add;
    Sub, sub, SubAssign, sub_assign, sx_big_sub;
    Mul, mul, MulAssign, mul_assign, sx_big_mul;
    Div, div, DivAssign, div_assign, sx_big_div;
    Rem, rem, RemAssign, rem_assign, sx_big_rem;
}
macro_rules! shifts { ($($t:ty),*) => { $(
    impl Shl<$t> for BigInt { type Output = BigInt; fn shl(self, k: $t) -> BigInt { let two = BigInt::from(2); self * two.pow(k as u32) } }
    impl<'a> Shl<$t> for &'a BigInt { type Output = BigInt; fn shl(self, k: $t) -> BigInt { let two = BigInt::from(2); self * two.pow(k as u32) } }
    impl Shr<$t> for BigInt { type Output = BigInt; fn shr(self, k: $t) -> BigInt { self.div_floor(&BigInt::from(2).pow(k as u32)) } }
    impl<'a> Shr<$t> for &'a BigInt { type Output = BigInt; fn shr(self, k: $t) -> BigInt { self.div_floor(&BigInt::from(2).pow(k as u32)) } }
)* } }
shifts!(usize, u32, i32, u64);
macro_rules! pows { ($($t:ty),*) => { $(
    impl Pow<$t> for BigInt { type Output = BigInt; fn pow(self, e: $t) -> BigInt { BigInt::pow(&self, e as u32) } }
    impl<'a> Pow<$t> for &'a BigInt { type Output = BigInt; fn pow(self, e: $t) -> BigInt { BigInt::pow(self, e as u32) } }
)* } }
pows!(u8, u16, u32, u64, usize);
impl CheckedAdd for BigInt { fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) } }
impl CheckedSub for BigInt { fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) } }
impl CheckedMul for BigInt { fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) } }
impl CheckedDiv for BigInt { fn checked_div(&self, o: &BigInt) -> Option<BigInt> { if o.is_zero() { None } else { Some(self / o) } } }
impl Sum for BigInt { fn sum<I: Iterator<Item = BigInt>>(i: I) -> BigInt { i.fold(BigInt::zero(), |a, b| a + b) } }
impl<'a> Sum<&'a BigInt> for BigInt { fn sum<I: Iterator<Item = &'a BigInt>>(i: I) -> BigInt { i.fold(BigInt::zero(), |a, b| a + b) } }
impl Product for BigInt { fn product<I: Iterator<Item = BigInt>>(i: I) -> BigInt { i.fold(BigInt::one(), |a, b| a * b) } }
impl<'a> Product<&'a BigInt> for BigInt { fn product<I: Iterator<Item = &'a BigInt>>(i: I) -> BigInt { i.fold(BigInt::one(), |a, b| a * b) } }
impl ShlAssign<usize> for BigInt { fn shl_assign(&mut self, k: usize) { *self = &*self << k; } }
impl ShrAssign<usize> for BigInt { fn shr_assign(&mut self, k: usize) { *self = &*self >> k; } }
