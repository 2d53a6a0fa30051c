//! Symbolic stand-in for num-bigint: every value is a handle to a mathematical integer kept by
//! the executor.  Only the arithmetic of num-bigint itself is replaced; everything that uses it is
//! the real code.
use num_integer::Integer;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed, ToPrimitive, Unsigned, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

extern "C" {
    fn sx_z_from_u64(x: u64) -> u64;
    fn sx_z_from_i64(x: i64) -> u64;
    fn sx_z_add(a: u64, b: u64) -> u64;
    fn sx_z_sub(a: u64, b: u64) -> u64;
    fn sx_z_mul(a: u64, b: u64) -> u64;
    /// truncated division
    fn sx_z_tdiv(a: u64, b: u64) -> u64;
    fn sx_z_trem(a: u64, b: u64) -> u64;
    fn sx_z_fdiv(a: u64, b: u64) -> u64;
    fn sx_z_fmod(a: u64, b: u64) -> u64;
    fn sx_z_gcd(a: u64, b: u64) -> u64;
    fn sx_z_shl(a: u64, n: u64) -> u64;
    /// floor shift
    fn sx_z_shr(a: u64, n: u64) -> u64;
    fn sx_z_and(a: u64, b: u64) -> u64;
    fn sx_z_or(a: u64, b: u64) -> u64;
    fn sx_z_xor(a: u64, b: u64) -> u64;
    fn sx_z_lt(a: u64, b: u64) -> bool;
    fn sx_z_eq(a: u64, b: u64) -> bool;
    fn sx_z_bits(a: u64) -> u64;
    /// upper bound (concrete) on the number of bits of |a|
    fn sx_z_max_bits(a: u64) -> u64;
    fn sx_z_low_u64(a: u64) -> u64;
    fn sx_z_to_f64(a: u64) -> f64;
    fn sx_z_from_f64(a: f64) -> u64;
    /// writes a decimal rendering (or a token for a symbolic value) into buf, returns its length
    fn sx_z_render(a: u64, radix: u64, buf: *mut u8, cap: u64) -> u64;
    fn sx_z_parse(ptr: *const u8, len: u64, radix: u64, ok: *mut u8) -> u64;
    fn sx_z_from_bytes_le(ptr: *const u8, len: u64) -> u64;
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Sign { Minus, NoSign, Plus }
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign { match self { Sign::Minus => Sign::Plus, Sign::NoSign => Sign::NoSign, Sign::Plus => Sign::Minus } }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid digit found in string") } }
impl std::error::Error for ParseBigIntError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TryFromBigIntError<T>(T);
impl<T> fmt::Display for TryFromBigIntError<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("out of range conversion regarding big integer attempted") } }

#[repr(transparent)]
pub struct BigInt { h: u64 }
#[repr(transparent)]
pub struct BigUint { h: u64 }

pub trait ToBigInt { fn to_bigint(&self) -> Option<BigInt>; }
pub trait ToBigUint { fn to_biguint(&self) -> Option<BigUint>; }

#[inline] fn zero_h() -> u64 { unsafe { sx_z_from_u64(0) } }
#[inline] fn lt(a: u64, b: u64) -> bool { unsafe { sx_z_lt(a, b) } }
#[inline] fn eqh(a: u64, b: u64) -> bool { unsafe { sx_z_eq(a, b) } }

trait Raw: Sized { fn mk(h: u64) -> Self; fn raw(&self) -> u64; const UNSIGNED: bool; }
impl Raw for BigInt { #[inline] fn mk(h: u64) -> Self { BigInt { h } } #[inline] fn raw(&self) -> u64 { self.h } const UNSIGNED: bool = false; }
impl Raw for BigUint { #[inline] fn mk(h: u64) -> Self { BigUint { h } } #[inline] fn raw(&self) -> u64 { self.h } const UNSIGNED: bool = true; }

fn do_add(a: u64, b: u64, _u: bool) -> u64 { unsafe { sx_z_add(a, b) } }
fn do_sub(a: u64, b: u64, u: bool) -> u64 {
    if u && lt(a, b) { panic!("Cannot subtract b from a because b is larger than a."); }
    unsafe { sx_z_sub(a, b) }
}
fn do_mul(a: u64, b: u64, _u: bool) -> u64 { unsafe { sx_z_mul(a, b) } }
fn do_div(a: u64, b: u64, _u: bool) -> u64 {
    if eqh(b, zero_h()) { panic!("attempt to divide by zero"); }
    unsafe { sx_z_tdiv(a, b) }
}
fn do_rem(a: u64, b: u64, _u: bool) -> u64 {
    if eqh(b, zero_h()) { panic!("attempt to divide by zero"); }
    unsafe { sx_z_trem(a, b) }
}
fn do_and(a: u64, b: u64, _u: bool) -> u64 { unsafe { sx_z_and(a, b) } }
fn do_or(a: u64, b: u64, _u: bool) -> u64 { unsafe { sx_z_or(a, b) } }
fn do_xor(a: u64, b: u64, _u: bool) -> u64 { unsafe { sx_z_xor(a, b) } }

macro_rules! binop {
    ($T:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $op:ident) => {
        impl $Tr<$T> for $T { type Output = $T; #[inline] fn $f(self, o: $T) -> $T { $T::mk($op(self.h, o.h, $T::UNSIGNED)) } }
        impl<'a> $Tr<&'a $T> for $T { type Output = $T; #[inline] fn $f(self, o: &'a $T) -> $T { $T::mk($op(self.h, o.h, $T::UNSIGNED)) } }
        impl<'a> $Tr<$T> for &'a $T { type Output = $T; #[inline] fn $f(self, o: $T) -> $T { $T::mk($op(self.h, o.h, $T::UNSIGNED)) } }
        impl<'a, 'b> $Tr<&'b $T> for &'a $T { type Output = $T; #[inline] fn $f(self, o: &'b $T) -> $T { $T::mk($op(self.h, o.h, $T::UNSIGNED)) } }
        impl $TrA<$T> for $T { #[inline] fn $fa(&mut self, o: $T) { self.h = $op(self.h, o.h, $T::UNSIGNED); } }
        impl<'a> $TrA<&'a $T> for $T { #[inline] fn $fa(&mut self, o: &'a $T) { self.h = $op(self.h, o.h, $T::UNSIGNED); } }
    };
}
macro_rules! binop_prim {
    ($T:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $op:ident, $($p:ty)*) => { $(
        impl $Tr<$p> for $T { type Output = $T; #[inline] fn $f(self, o: $p) -> $T { $T::mk($op(self.h, $T::from(o).h, $T::UNSIGNED)) } }
        impl<'a> $Tr<$p> for &'a $T { type Output = $T; #[inline] fn $f(self, o: $p) -> $T { $T::mk($op(self.h, $T::from(o).h, $T::UNSIGNED)) } }
        impl<'a> $Tr<&'a $p> for $T { type Output = $T; #[inline] fn $f(self, o: &'a $p) -> $T { $T::mk($op(self.h, $T::from(*o).h, $T::UNSIGNED)) } }
        impl $Tr<$T> for $p { type Output = $T; #[inline] fn $f(self, o: $T) -> $T { $T::mk($op($T::from(self).h, o.h, $T::UNSIGNED)) } }
        impl<'a> $Tr<&'a $T> for $p { type Output = $T; #[inline] fn $f(self, o: &'a $T) -> $T { $T::mk($op($T::from(self).h, o.h, $T::UNSIGNED)) } }
        impl $TrA<$p> for $T { #[inline] fn $fa(&mut self, o: $p) { self.h = $op(self.h, $T::from(o).h, $T::UNSIGNED); } }
    )* };
}
fn shamt<N: ToPrimitive>(n: N) -> u64 { match n.to_u64() { Some(v) => v, None => panic!("attempt to shift left with negative") } }
macro_rules! shifts {
    ($T:ident, $($p:ty)*) => { $(
        impl Shl<$p> for $T { type Output = $T; fn shl(self, n: $p) -> $T { $T::mk(unsafe { sx_z_shl(self.h, shamt(n)) }) } }
        impl<'a> Shl<$p> for &'a $T { type Output = $T; fn shl(self, n: $p) -> $T { $T::mk(unsafe { sx_z_shl(self.h, shamt(n)) }) } }
        impl<'a> Shl<&'a $p> for $T { type Output = $T; fn shl(self, n: &'a $p) -> $T { $T::mk(unsafe { sx_z_shl(self.h, shamt(*n)) }) } }
        impl ShlAssign<$p> for $T { fn shl_assign(&mut self, n: $p) { self.h = unsafe { sx_z_shl(self.h, shamt(n)) } } }
        impl Shr<$p> for $T { type Output = $T; fn shr(self, n: $p) -> $T { $T::mk(unsafe { sx_z_shr(self.h, shamt(n)) }) } }
        impl<'a> Shr<$p> for &'a $T { type Output = $T; fn shr(self, n: $p) -> $T { $T::mk(unsafe { sx_z_shr(self.h, shamt(n)) }) } }
        impl<'a> Shr<&'a $p> for $T { type Output = $T; fn shr(self, n: &'a $p) -> $T { $T::mk(unsafe { sx_z_shr(self.h, shamt(*n)) }) } }
        impl ShrAssign<$p> for $T { fn shr_assign(&mut self, n: $p) { self.h = unsafe { sx_z_shr(self.h, shamt(n)) } } }
    )* };
}
fn from_u128h(x: u128) -> u64 {
    unsafe { sx_z_add(sx_z_from_u64(x as u64), sx_z_shl(sx_z_from_u64((x >> 64) as u64), 64)) }
}
fn from_i128h(x: i128) -> u64 {
    unsafe { sx_z_add(sx_z_from_u64(x as u64), sx_z_shl(sx_z_from_i64((x >> 64) as i64), 64)) }
}
macro_rules! from_u { ($T:ident, $($p:ty)*) => { $( impl From<$p> for $T { #[inline] fn from(x: $p) -> $T { $T::mk(unsafe { sx_z_from_u64(x as u64) }) } } )* }; }
macro_rules! from_i { ($T:ident, $($p:ty)*) => { $( impl From<$p> for $T { #[inline] fn from(x: $p) -> $T { $T::mk(unsafe { sx_z_from_i64(x as i64) }) } } )* }; }
macro_rules! to_prim_fn { ($($f:ident $p:ty, $bits:expr, $signed:expr;)*) => { $(
    fn $f(&self) -> Option<$p> {
        let h = self.h;
        let two = unsafe { sx_z_from_u64(1) };
        if $signed {
            let lim = unsafe { sx_z_shl(two, $bits - 1) };
            let nlim = unsafe { sx_z_sub(zero_h(), lim) };
            if lt(h, nlim) || !lt(h, lim) { return None; }
        } else {
            let lim = unsafe { sx_z_shl(two, $bits) };
            if lt(h, zero_h()) || !lt(h, lim) { return None; }
        }
        let lo = unsafe { sx_z_low_u64(h) };
        if $bits > 64 {
            let hi = unsafe { sx_z_low_u64(sx_z_shr(h, 64)) };
            return Some((((hi as u128) << 64) | lo as u128) as $p);
        }
        Some(lo as $p)
    } )* };
}
macro_rules! common {
    ($T:ident, [$($prims:ty)*]) => {
        impl Clone for $T { #[inline] fn clone(&self) -> $T { $T::mk(self.h) } }
        impl Default for $T { fn default() -> $T { $T::mk(zero_h()) } }
        impl PartialEq for $T { #[inline] fn eq(&self, o: &$T) -> bool { eqh(self.h, o.h) } }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> { Some(self.cmp(o)) }
            #[inline] fn lt(&self, o: &$T) -> bool { lt(self.h, o.h) }
            #[inline] fn gt(&self, o: &$T) -> bool { lt(o.h, self.h) }
            #[inline] fn le(&self, o: &$T) -> bool { !lt(o.h, self.h) }
            #[inline] fn ge(&self, o: &$T) -> bool { !lt(self.h, o.h) }
        }
        impl Ord for $T { fn cmp(&self, o: &$T) -> Ordering { if lt(self.h, o.h) { Ordering::Less } else if eqh(self.h, o.h) { Ordering::Equal } else { Ordering::Greater } } }
        impl Hash for $T { fn hash<H: Hasher>(&self, s: &mut H) { let d = self.to_bytes_raw(); d.hash(s) } }
        impl fmt::Display for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&render(self.h, 10)) } }
        impl fmt::Debug for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&render(self.h, 10)) } }
        impl fmt::LowerHex for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&render(self.h, 16)) } }
        impl fmt::Binary for $T { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&render(self.h, 2)) } }
        impl FromStr for $T { type Err = ParseBigIntError; fn from_str(s: &str) -> Result<$T, ParseBigIntError> { Self::from_str_radix(s, 10) } }
        binop!($T, Add, add, AddAssign, add_assign, do_add);
        binop!($T, Sub, sub, SubAssign, sub_assign, do_sub);
        binop!($T, Mul, mul, MulAssign, mul_assign, do_mul);
        binop!($T, Div, div, DivAssign, div_assign, do_div);
        binop!($T, Rem, rem, RemAssign, rem_assign, do_rem);
        binop!($T, BitAnd, bitand, BitAndAssign, bitand_assign, do_and);
        binop!($T, BitOr, bitor, BitOrAssign, bitor_assign, do_or);
        binop!($T, BitXor, bitxor, BitXorAssign, bitxor_assign, do_xor);
        binop_prim!($T, Add, add, AddAssign, add_assign, do_add, $($prims)*);
        binop_prim!($T, Sub, sub, SubAssign, sub_assign, do_sub, $($prims)*);
        binop_prim!($T, Mul, mul, MulAssign, mul_assign, do_mul, $($prims)*);
        binop_prim!($T, Div, div, DivAssign, div_assign, do_div, $($prims)*);
        binop_prim!($T, Rem, rem, RemAssign, rem_assign, do_rem, $($prims)*);
        shifts!($T, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        from_u!($T, u8 u16 u32 u64 usize bool);
        impl From<u128> for $T { fn from(x: u128) -> $T { $T::mk(from_u128h(x)) } }
        impl Zero for $T { fn zero() -> $T { $T::mk(zero_h()) } fn is_zero(&self) -> bool { eqh(self.h, zero_h()) } }
        impl One for $T { fn one() -> $T { $T::from(1u8) } fn is_one(&self) -> bool { eqh(self.h, unsafe { sx_z_from_u64(1) }) } }
        impl Num for $T {
            type FromStrRadixErr = ParseBigIntError;
            fn from_str_radix(s: &str, radix: u32) -> Result<$T, ParseBigIntError> {
                let mut ok = 0u8;
                let h = unsafe { sx_z_parse(s.as_ptr(), s.len() as u64, radix as u64, &mut ok) };
                if ok == 1 { if $T::UNSIGNED && lt(h, zero_h()) { Err(ParseBigIntError) } else { Ok($T::mk(h)) } } else { Err(ParseBigIntError) }
            }
        }
        impl ToPrimitive for $T {
            to_prim_fn!(to_i8 i8, 8, true; to_i16 i16, 16, true; to_i32 i32, 32, true; to_i64 i64, 64, true; to_i128 i128, 128, true; to_isize isize, 64, true;
                        to_u8 u8, 8, false; to_u16 u16, 16, false; to_u32 u32, 32, false; to_u64 u64, 64, false; to_u128 u128, 128, false; to_usize usize, 64, false;);
            fn to_f64(&self) -> Option<f64> { Some(unsafe { sx_z_to_f64(self.h) }) }
            fn to_f32(&self) -> Option<f32> { Some(unsafe { sx_z_to_f64(self.h) } as f32) }
        }
        impl FromPrimitive for $T {
            fn from_i64(n: i64) -> Option<$T> { if $T::UNSIGNED && n < 0 { None } else { Some($T::mk(unsafe { sx_z_from_i64(n) })) } }
            fn from_i128(n: i128) -> Option<$T> { if $T::UNSIGNED && n < 0 { None } else { Some($T::mk(from_i128h(n))) } }
            fn from_u64(n: u64) -> Option<$T> { Some($T::from(n)) }
            fn from_u128(n: u128) -> Option<$T> { Some($T::from(n)) }
            fn from_f64(n: f64) -> Option<$T> { if n.is_finite() { Some($T::mk(unsafe { sx_z_from_f64(n.trunc()) })) } else { None } }
        }
        impl Integer for $T {
            fn div_floor(&self, o: &$T) -> $T { if o.is_zero() { panic!("attempt to divide by zero"); } $T::mk(unsafe { sx_z_fdiv(self.h, o.h) }) }
            fn mod_floor(&self, o: &$T) -> $T { if o.is_zero() { panic!("attempt to divide by zero"); } $T::mk(unsafe { sx_z_fmod(self.h, o.h) }) }
            fn gcd(&self, o: &$T) -> $T { $T::mk(unsafe { sx_z_gcd(self.h, o.h) }) }
            fn lcm(&self, o: &$T) -> $T { if self.is_zero() && o.is_zero() { return $T::zero(); } let g = self.gcd(o); (self / g) * o }
            fn divides(&self, o: &$T) -> bool { self.is_multiple_of(o) }
            fn is_multiple_of(&self, o: &$T) -> bool { if o.is_zero() { return self.is_zero(); } (self % o).is_zero() }
            fn is_even(&self) -> bool { !self.bit(0) }
            fn is_odd(&self) -> bool { self.bit(0) }
            fn div_rem(&self, o: &$T) -> ($T, $T) { (self / o, self % o) }
        }
        impl CheckedAdd for $T { fn checked_add(&self, o: &$T) -> Option<$T> { Some(self + o) } }
        impl CheckedMul for $T { fn checked_mul(&self, o: &$T) -> Option<$T> { Some(self * o) } }
        impl CheckedSub for $T { fn checked_sub(&self, o: &$T) -> Option<$T> { if $T::UNSIGNED && lt(self.h, o.h) { None } else { Some(self - o) } } }
        impl CheckedDiv for $T { fn checked_div(&self, o: &$T) -> Option<$T> { if o.is_zero() { None } else { Some(self / o) } } }
        impl Sum for $T { fn sum<I: Iterator<Item = $T>>(it: I) -> $T { it.fold($T::zero(), |a, b| a + b) } }
        impl<'a> Sum<&'a $T> for $T { fn sum<I: Iterator<Item = &'a $T>>(it: I) -> $T { it.fold($T::zero(), |a, b| a + b) } }
        impl Product for $T { fn product<I: Iterator<Item = $T>>(it: I) -> $T { it.fold($T::one(), |a, b| a * b) } }
        impl<'a> Product<&'a $T> for $T { fn product<I: Iterator<Item = &'a $T>>(it: I) -> $T { it.fold($T::one(), |a, b| a * b) } }
        impl Pow<u32> for $T { type Output = $T; fn pow(self, e: u32) -> $T { $T::pow(&self, e) } }
        impl<'a> Pow<u32> for &'a $T { type Output = $T; fn pow(self, e: u32) -> $T { $T::pow(self, e) } }
        impl $T {
            pub const ZERO: $T = $T { h: 0 };
            fn abs_h(&self) -> u64 { if $T::UNSIGNED { self.h } else if lt(self.h, zero_h()) { unsafe { sx_z_sub(zero_h(), self.h) } } else { self.h } }
            pub fn bits(&self) -> u64 { unsafe { sx_z_bits(self.abs_h()) } }
            pub fn bit(&self, i: u64) -> bool { unsafe { sx_z_low_u64(sx_z_shr(self.h, i)) & 1 == 1 } }
            pub fn set_bit(&mut self, i: u64, v: bool) {
                let cur = self.bit(i);
                let p = unsafe { sx_z_shl(sx_z_from_u64(1), i) };
                if v && !cur { self.h = unsafe { sx_z_add(self.h, p) } } else if !v && cur { self.h = unsafe { sx_z_sub(self.h, p) } }
            }
            pub fn pow(&self, e: u32) -> $T { let mut r = $T::one(); for _ in 0..e { r = r * self; } r }
            pub fn modpow(&self, e: &$T, m: &$T) -> $T {
                let mut r = $T::one() % m; let n = e.bits();
                for i in (0..n).rev() { r = (&r * &r) % m; if e.bit(i) { r = (&r * self) % m; } }
                r
            }
            fn digits_raw(&self, w: u64) -> Vec<u64> {
                let mut out = Vec::new();
                let mut h = self.abs_h();
                let n = (unsafe { sx_z_max_bits(h) } + w - 1) / w;
                for _ in 0..n {
                    if eqh(h, zero_h()) { break; }
                    let lo = unsafe { sx_z_low_u64(h) };
                    out.push(if w == 64 { lo } else { lo & ((1u64 << w) - 1) });
                    h = unsafe { sx_z_shr(h, w) };
                }
                out
            }
            fn to_bytes_raw(&self) -> Vec<u8> { let v: Vec<u8> = self.digits_raw(8).into_iter().map(|d| d as u8).collect(); if v.is_empty() { vec![0] } else { v } }
            fn u32_raw(&self) -> Vec<u32> { self.digits_raw(32).into_iter().map(|d| d as u32).collect() }
            pub fn to_str_radix(&self, radix: u32) -> String { render(self.h, radix as u64) }
            pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<$T> { std::str::from_utf8(buf).ok().and_then(|s| <$T as Num>::from_str_radix(s, radix).ok()) }
        }
    };
}
fn render(h: u64, radix: u64) -> String {
    let mut buf = vec![0u8; 400];
    let n = unsafe { sx_z_render(h, radix, buf.as_mut_ptr(), 400) } as usize;
    buf.truncate(n);
    unsafe { String::from_utf8_unchecked(buf) }
}
common!(BigInt, [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize]);
common!(BigUint, [u8 u16 u32 u64 u128 usize]);
from_i!(BigInt, i8 i16 i32 i64 isize);
impl From<i128> for BigInt { fn from(x: i128) -> BigInt { BigInt::mk(from_i128h(x)) } }
impl From<BigUint> for BigInt { fn from(x: BigUint) -> BigInt { BigInt::mk(x.h) } }
impl Unsigned for BigUint {}
impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt::mk(unsafe { sx_z_sub(zero_h(), self.h) }) } }
impl<'a> Neg for &'a BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt::mk(unsafe { sx_z_sub(zero_h(), self.h) }) } }
impl Signed for BigInt {
    fn abs(&self) -> BigInt { BigInt::mk(self.abs_h()) }
    fn abs_sub(&self, o: &BigInt) -> BigInt { if self <= o { BigInt::zero() } else { self - o } }
    fn signum(&self) -> BigInt { match self.sign() { Sign::Plus => BigInt::one(), Sign::Minus => -BigInt::one(), Sign::NoSign => BigInt::zero() } }
    fn is_positive(&self) -> bool { lt(zero_h(), self.h) }
    fn is_negative(&self) -> bool { lt(self.h, zero_h()) }
}
impl BigInt {
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt { BigInt::from_slice(sign, &digits) }
    pub fn from_slice(sign: Sign, digits: &[u32]) -> BigInt {
        let mut r = BigInt::zero();
        for d in digits.iter().rev() { r = (r << 32u32) + *d; }
        BigInt::with_sign(sign, r)
    }
    fn with_sign(sign: Sign, m: BigInt) -> BigInt { match sign { Sign::Plus => m, Sign::Minus => -m, Sign::NoSign => BigInt::zero() } }
    pub fn from_biguint(sign: Sign, m: BigUint) -> BigInt { BigInt::with_sign(sign, BigInt::mk(m.h)) }
    pub fn from_bytes_le(sign: Sign, bytes: &[u8]) -> BigInt { BigInt::with_sign(sign, BigInt::mk(unsafe { sx_z_from_bytes_le(bytes.as_ptr(), bytes.len() as u64) })) }
    pub fn from_bytes_be(sign: Sign, bytes: &[u8]) -> BigInt { let mut v = bytes.to_vec(); v.reverse(); BigInt::from_bytes_le(sign, &v) }
    pub fn sign(&self) -> Sign { if lt(self.h, zero_h()) { Sign::Minus } else if eqh(self.h, zero_h()) { Sign::NoSign } else { Sign::Plus } }
    pub fn magnitude(&self) -> &BigUint { Box::leak(Box::new(BigUint::mk(self.abs_h()))) }
    pub fn into_parts(self) -> (Sign, BigUint) { (self.sign(), BigUint::mk(self.abs_h())) }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) { (self.sign(), self.to_bytes_raw()) }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) { let mut v = self.to_bytes_raw(); v.reverse(); (self.sign(), v) }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) { (self.sign(), self.u32_raw()) }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) { (self.sign(), self.digits_raw(64)) }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> { self.u32_raw().into_iter() }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> { self.digits_raw(64).into_iter() }
    pub fn to_biguint(&self) -> Option<BigUint> { if lt(self.h, zero_h()) { None } else { Some(BigUint::mk(self.h)) } }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> { Some(self + v) }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> { Some(self - v) }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> { Some(self * v) }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> { if v.is_zero() { None } else { Some(self / v) } }
}
impl BigUint {
    pub fn new(digits: Vec<u32>) -> BigUint { BigUint::from_slice(&digits) }
    pub fn from_slice(digits: &[u32]) -> BigUint { BigUint::mk(BigInt::from_slice(Sign::Plus, digits).h) }
    pub fn from_bytes_le(bytes: &[u8]) -> BigUint { BigUint::mk(BigInt::from_bytes_le(Sign::Plus, bytes).h) }
    pub fn from_bytes_be(bytes: &[u8]) -> BigUint { BigUint::mk(BigInt::from_bytes_be(Sign::Plus, bytes).h) }
    pub fn to_bytes_le(&self) -> Vec<u8> { self.to_bytes_raw() }
    pub fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_raw(); v.reverse(); v }
    pub fn to_u32_digits(&self) -> Vec<u32> { self.u32_raw() }
    pub fn to_u64_digits(&self) -> Vec<u64> { self.digits_raw(64) }
    pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> { self.u32_raw().into_iter() }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> { self.digits_raw(64).into_iter() }
}
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
impl ToBigInt for BigUint { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::mk(self.h)) } }
impl ToBigUint for BigInt { fn to_biguint(&self) -> Option<BigUint> { BigInt::to_biguint(self) } }
impl ToBigUint for BigUint { fn to_biguint(&self) -> Option<BigUint> { Some(self.clone()) } }
macro_rules! to_big { ($($p:ty)*) => { $(
    impl ToBigInt for $p { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } }
)* } }
to_big!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! try_from { ($($p:ty, $f:ident;)*) => { $(
    impl TryFrom<BigInt> for $p { type Error = TryFromBigIntError<BigInt>; fn try_from(v: BigInt) -> Result<$p, Self::Error> { v.$f().ok_or(TryFromBigIntError(v)) } }
    impl<'a> TryFrom<&'a BigInt> for $p { type Error = TryFromBigIntError<()>; fn try_from(v: &'a BigInt) -> Result<$p, Self::Error> { v.$f().ok_or(TryFromBigIntError(())) } }
    impl TryFrom<BigUint> for $p { type Error = TryFromBigIntError<BigUint>; fn try_from(v: BigUint) -> Result<$p, Self::Error> { v.$f().ok_or(TryFromBigIntError(v)) } }
    impl<'a> TryFrom<&'a BigUint> for $p { type Error = TryFromBigIntError<()>; fn try_from(v: &'a BigUint) -> Result<$p, Self::Error> { v.$f().ok_or(TryFromBigIntError(())) } }
)* } }
try_from!(u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; u128, to_u128; usize, to_usize; i8, to_i8; i16, to_i16; i32, to_i32; i64, to_i64; i128, to_i128; isize, to_isize;);
/// used by the harness only
pub fn __raw(h: u64) -> BigInt { BigInt::mk(h) }
pub fn __handle(b: &BigInt) -> u64 { b.raw() }
