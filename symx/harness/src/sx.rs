//! Harness interface: inputs, parameters, assumptions, outputs and a recording constraint system.
//! In the symbolic world the extern functions are implemented by the executor; in the native world
//! by nat.rs.
use bellpepper_core::{boolean::Boolean, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;
use num_bigint::BigInt;

#[cfg(feature = "sym")]
pub type F = crate::sf::SF;
#[cfg(not(feature = "sym"))]
pub use crate::nat::F;

#[cfg(feature = "sym")]
mod imp {
    use super::*;
    extern "C" {
        fn sx_param(p: *const u8, n: u64) -> u64;
        fn sx_in_int(p: *const u8, n: u64, i: u64, bits: u64) -> u64;
        fn sx_in_int_hi(p: *const u8, n: u64, i: u64, bits: u64) -> u64;
        fn sx_in_bool(p: *const u8, n: u64, i: u64) -> bool;
        fn sx_in_choice(p: *const u8, n: u64, i: u64) -> bool;
        fn sx_in_f(p: *const u8, n: u64, i: u64, bits: u64) -> u64;
        fn sx_in_z(p: *const u8, n: u64, i: u64, bits: u64) -> u64;
        fn sx_assume(b: bool);
        fn sx_out_int(p: *const u8, n: u64, i: u64, v: u64);
        fn sx_out_int_hi(p: *const u8, n: u64, i: u64, lo: u64, hi: u64);
        fn sx_out_bool(p: *const u8, n: u64, i: u64, v: bool);
        fn sx_out_f(p: *const u8, n: u64, i: u64, v: u64);
        fn sx_out_z(p: *const u8, n: u64, i: u64, v: u64);
        fn sx_lc_begin(p: *const u8, n: u64, i: u64);
        fn sx_lc_term(is_aux: u64, idx: u64, coeff: u64);
        fn sx_lc_end();
        fn sx_alloc(kind: u64, v: u64) -> u64;
        fn sx_alloc_novalue(kind: u64) -> u64;
        fn sx_enforce();
        fn sx_note(p: *const u8, n: u64);
    }
    macro_rules! nm { ($s:expr) => { ($s.as_ptr(), $s.len() as u64) } }
    pub fn param(name: &str) -> u64 { let (p, n) = nm!(name); unsafe { sx_param(p, n) } }
    pub fn in_u64(name: &str, i: usize, bits: u64) -> u64 { let (p, n) = nm!(name); unsafe { sx_in_int(p, n, i as u64, bits) } }
    pub fn in_u128(name: &str, i: usize, bits: u64) -> u128 {
        let (p, n) = nm!(name);
        let lo = unsafe { sx_in_int(p, n, i as u64, if bits > 64 { 64 } else { bits }) };
        let hi = if bits > 64 { unsafe { sx_in_int_hi(p, n, i as u64, bits - 64) } } else { 0 };
        ((hi as u128) << 64) | lo as u128
    }
    pub fn in_bool(name: &str, i: usize) -> bool { let (p, n) = nm!(name); unsafe { sx_in_bool(p, n, i as u64) } }
    pub fn in_choice(name: &str, i: usize) -> bool { let (p, n) = nm!(name); unsafe { sx_in_choice(p, n, i as u64) } }
    pub fn in_f(name: &str, i: usize, bits: u64) -> F { let (p, n) = nm!(name); crate::sf::SF(unsafe { sx_in_f(p, n, i as u64, bits) }) }
    pub fn in_z(name: &str, i: usize, bits: u64) -> BigInt { let (p, n) = nm!(name); num_bigint::__raw(unsafe { sx_in_z(p, n, i as u64, bits) }) }
    pub fn assume(b: bool) { unsafe { sx_assume(b) } }
    pub fn out_u64(name: &str, i: usize, v: u64) { let (p, n) = nm!(name); unsafe { sx_out_int(p, n, i as u64, v) } }
    pub fn out_u128(name: &str, i: usize, v: u128) { let (p, n) = nm!(name); unsafe { sx_out_int_hi(p, n, i as u64, v as u64, (v >> 64) as u64) } }
    pub fn out_bool(name: &str, i: usize, v: bool) { let (p, n) = nm!(name); unsafe { sx_out_bool(p, n, i as u64, v) } }
    pub fn out_f(name: &str, i: usize, v: &F) { let (p, n) = nm!(name); unsafe { sx_out_f(p, n, i as u64, v.0) } }
    pub fn out_z(name: &str, i: usize, v: &BigInt) { let (p, n) = nm!(name); unsafe { sx_out_z(p, n, i as u64, num_bigint::__handle(v)) } }
    pub fn lc_begin(name: &str, i: usize) { let (p, n) = nm!(name); unsafe { sx_lc_begin(p, n, i as u64) } }
    pub fn lc_term(is_aux: u64, idx: usize, c: &F) { unsafe { sx_lc_term(is_aux, idx as u64, c.0) } }
    pub fn lc_end() { unsafe { sx_lc_end() } }
    pub fn alloc(kind: u64, v: Option<F>) -> usize { match v { Some(v) => unsafe { sx_alloc(kind, v.0) as usize }, None => unsafe { sx_alloc_novalue(kind) as usize } } }
    pub fn enforce() { unsafe { sx_enforce() } }
    pub fn note(s: &str) { let (p, n) = nm!(s); unsafe { sx_note(p, n) } }
}
#[cfg(not(feature = "sym"))]
use crate::nat as imp;

pub use imp::{alloc as raw_alloc, assume, in_bool, in_choice, in_f, in_u128, in_u64, in_z, note, out_bool, out_f, out_u128, out_u64, out_z, param};

pub fn in_u32(name: &str, i: usize) -> u32 { in_u64(name, i, 32) as u32 }

pub fn out_lc(name: &str, i: usize, lc: &LinearCombination<F>) {
    imp::lc_begin(name, i);
    for (v, c) in lc.iter() {
        match v.0 { Index::Input(k) => imp::lc_term(0, k, c), Index::Aux(k) => imp::lc_term(1, k, c) }
    }
    imp::lc_end();
}
pub fn out_var(name: &str, i: usize, v: Variable) { out_lc(name, i, &LinearCombination::from_variable(v)) }
pub fn out_boolean(name: &str, i: usize, b: &Boolean) {
    out_lc(name, i, &b.lc(CS::one(), F::from(1u64)));
    match b.get_value() { Some(v) => out_bool(name, i, v), None => out_u64("missing_value", i, 1) }
}
pub fn err_code(e: &SynthesisError) -> u64 {
    match e {
        SynthesisError::AssignmentMissing => 1,
        SynthesisError::Unsatisfiable => 2,
        SynthesisError::IoError(_) => 3,
        _ => 4,
    }
}

/// Records allocations and constraints; `with_values == false` synthesises like a key generator:
/// witness closures are never called.
pub struct CS { pub with_values: bool }
impl CS { pub fn new_cs() -> CS { CS { with_values: param("novalues") == 0 } } }
impl ConstraintSystem<F> for CS {
    type Root = CS;
    fn alloc<Fn_, A, AR>(&mut self, _a: A, f: Fn_) -> Result<Variable, SynthesisError>
    where Fn_: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.with_values { Some(f()?) } else { None };
        Ok(Variable::new_unchecked(Index::Aux(imp::alloc(1, v))))
    }
    fn alloc_input<Fn_, A, AR>(&mut self, _a: A, f: Fn_) -> Result<Variable, SynthesisError>
    where Fn_: FnOnce() -> Result<F, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.with_values { Some(f()?) } else { None };
        Ok(Variable::new_unchecked(Index::Input(imp::alloc(0, v))))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _a: A, a: LA, b: LB, c: LC)
    where A: FnOnce() -> AR, AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F> {
        out_lc("A", 0, &a(LinearCombination::zero()));
        out_lc("B", 0, &b(LinearCombination::zero()));
        out_lc("C", 0, &c(LinearCombination::zero()));
        imp::enforce();
    }
    fn push_namespace<NR, N>(&mut self, _n: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self) {}
    fn get_root(&mut self) -> &mut CS { self }
}
