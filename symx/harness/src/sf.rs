//! Symbolic prime-field element: a handle to an integer polynomial taken modulo the field order
//! (BLS12-381 scalar field, the `Fr` of /repo).  A concrete handle value is the element itself.
use ff::{Field, PrimeField, PrimeFieldBits, FieldBits};
use rand_core::RngCore;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

extern "C" {
    fn sx_f_from_u64(x: u64) -> u64;
    fn sx_f_add(a: u64, b: u64) -> u64;
    fn sx_f_sub(a: u64, b: u64) -> u64;
    fn sx_f_mul(a: u64, b: u64) -> u64;
    fn sx_f_inv(a: u64) -> u64;
    fn sx_f_eq(a: u64, b: u64) -> bool;
    fn sx_f_lt(a: u64, b: u64) -> bool;
    fn sx_f_byte(a: u64, i: u64) -> u8;
    fn sx_f_from_bytes(p: *const u8, ok: *mut u8) -> u64;
    fn sx_f_select(c: u8, a: u64, b: u64) -> u64;
    fn sx_f_from_str(p: *const u8, len: u64, ok: *mut u8) -> u64;
}
#[derive(Clone, Copy, Debug, Default)]
#[repr(transparent)]
pub struct SF(pub u64);
#[derive(Clone, Copy, Debug)]
pub struct Repr(pub [u8; 32]);
impl Default for Repr { fn default() -> Self { Repr([0; 32]) } }
impl AsRef<[u8]> for Repr { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for Repr { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }

macro_rules! op { ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $op:ident) => {
    impl $Tr for SF { type Output = SF; #[inline] fn $f(self, o: SF) -> SF { SF(unsafe { $op(self.0, o.0) }) } }
    impl<'a> $Tr<&'a SF> for SF { type Output = SF; #[inline] fn $f(self, o: &'a SF) -> SF { SF(unsafe { $op(self.0, o.0) }) } }
    impl<'a> $Tr<SF> for &'a SF { type Output = SF; #[inline] fn $f(self, o: SF) -> SF { SF(unsafe { $op(self.0, o.0) }) } }
    impl<'a, 'b> $Tr<&'b SF> for &'a SF { type Output = SF; #[inline] fn $f(self, o: &'b SF) -> SF { SF(unsafe { $op(self.0, o.0) }) } }
    impl $TrA for SF { #[inline] fn $fa(&mut self, o: SF) { self.0 = unsafe { $op(self.0, o.0) } } }
    impl<'a> $TrA<&'a SF> for SF { #[inline] fn $fa(&mut self, o: &'a SF) { self.0 = unsafe { $op(self.0, o.0) } } }
} }
op!(Add, add, AddAssign, add_assign, sx_f_add);
op!(Sub, sub, SubAssign, sub_assign, sx_f_sub);
op!(Mul, mul, MulAssign, mul_assign, sx_f_mul);
impl Neg for SF { type Output = SF; fn neg(self) -> SF { SF(unsafe { sx_f_sub(0, self.0) }) } }
impl<'a> Neg for &'a SF { type Output = SF; fn neg(self) -> SF { SF(unsafe { sx_f_sub(0, self.0) }) } }
impl Sum for SF { fn sum<I: Iterator<Item = SF>>(i: I) -> SF { i.fold(SF::ZERO, |a, b| a + b) } }
impl<'a> Sum<&'a SF> for SF { fn sum<I: Iterator<Item = &'a SF>>(i: I) -> SF { i.fold(SF::ZERO, |a, b| a + b) } }
impl Product for SF { fn product<I: Iterator<Item = SF>>(i: I) -> SF { i.fold(SF::ONE, |a, b| a * b) } }
impl<'a> Product<&'a SF> for SF { fn product<I: Iterator<Item = &'a SF>>(i: I) -> SF { i.fold(SF::ONE, |a, b| a * b) } }
impl PartialEq for SF { fn eq(&self, o: &SF) -> bool { unsafe { sx_f_eq(self.0, o.0) } } }
impl Eq for SF {}
impl PartialOrd for SF { fn partial_cmp(&self, o: &SF) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for SF { fn cmp(&self, o: &SF) -> std::cmp::Ordering {
    if unsafe { sx_f_lt(self.0, o.0) } { std::cmp::Ordering::Less } else if self == o { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } } }
impl From<u64> for SF { #[inline] fn from(x: u64) -> SF { SF(unsafe { sx_f_from_u64(x) }) } }
impl From<SF> for Repr { fn from(x: SF) -> Repr { x.to_repr() } }
impl ConditionallySelectable for SF {
    fn conditional_select(a: &SF, b: &SF, c: Choice) -> SF { SF(unsafe { sx_f_select(c.unwrap_u8(), a.0, b.0) }) }
}
impl ConstantTimeEq for SF { fn ct_eq(&self, o: &SF) -> Choice { Choice::from(unsafe { sx_f_eq(self.0, o.0) } as u8) } }
impl Field for SF {
    const ZERO: SF = SF(0);
    const ONE: SF = SF(1);
    fn random(_rng: impl RngCore) -> SF { unimplemented!("random field element") }
    #[inline] fn square(&self) -> SF { *self * *self }
    #[inline] fn double(&self) -> SF { *self + *self }
    fn invert(&self) -> CtOption<SF> {
        let nz = !self.is_zero();
        CtOption::new(SF(unsafe { sx_f_inv(self.0) }), nz)
    }
    fn sqrt_ratio(_n: &SF, _d: &SF) -> (Choice, SF) { unimplemented!("square roots") }
}
impl PrimeField for SF {
    type Repr = Repr;
    fn from_str_vartime(s: &str) -> Option<SF> {
        let mut ok = 0u8;
        let h = unsafe { sx_f_from_str(s.as_ptr(), s.len() as u64, &mut ok) };
        if ok == 1 { Some(SF(h)) } else { None }
    }
    fn from_repr(r: Repr) -> CtOption<SF> {
        let mut ok = 0u8;
        let h = unsafe { sx_f_from_bytes(r.0.as_ptr(), &mut ok) };
        CtOption::new(SF(h), Choice::from(ok))
    }
    fn to_repr(&self) -> Repr {
        let mut r = [0u8; 32];
        for i in 0..32 { r[i] = unsafe { sx_f_byte(self.0, i as u64) }; }
        Repr(r)
    }
    fn is_odd(&self) -> Choice { Choice::from(unsafe { sx_f_byte(self.0, 0) } & 1) }
    const MODULUS: &'static str = "0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    // the remaining constants are not meaningful for a symbolic element (unused by /repo)
    const TWO_INV: SF = SF(2);
    const MULTIPLICATIVE_GENERATOR: SF = SF(7);
    const S: u32 = 32;
    const ROOT_OF_UNITY: SF = SF(7);
    const ROOT_OF_UNITY_INV: SF = SF(7);
    const DELTA: SF = SF(7);
}
impl PrimeFieldBits for SF {
    type ReprBits = [u64; 4];
    fn to_le_bits(&self) -> FieldBits<[u64; 4]> {
        let b = self.to_repr().0;
        let mut w = [0u64; 4];
        for i in 0..4 { let mut x = [0u8; 8]; x.copy_from_slice(&b[8 * i..8 * i + 8]); w[i] = u64::from_le_bytes(x); }
        FieldBits::new(w)
    }
    fn char_le_bits() -> FieldBits<[u64; 4]> {
        FieldBits::new([0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48])
    }
}
