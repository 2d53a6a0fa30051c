#![allow(dead_code)]
#[cfg(not(feature = "sym"))]
mod nat;
#[cfg(feature = "sym")]
mod sf;
mod sx;

use bellpepper_core::boolean::Boolean;
use bellpepper_core::num::AllocatedNum;
use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
use ff::{Field, PrimeField};
use num_bigint::BigInt;
use std::cell::Cell;
use sx::*;
use validate_btc_header::btc_validation::{difficulty_update, header_step, median};
use validate_btc_header::mp::bignat::{limbs_to_nat, nat_to_limbs, BigNat};
use validate_btc_header::util::bit::{Bit, Bitvector};
use validate_btc_header::util::convert::{f_to_nat, f_to_usize, nat_to_f, usize_to_f};
use validate_btc_header::util::gadget::Gadget;
use validate_btc_header::util::lazy::LazyCell;
use validate_btc_header::util::num::Num;

macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $( #[cfg_attr(feature = "sym", no_mangle)] pub extern "C" fn $name() $body )*
        #[cfg(not(feature = "sym"))]
        const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), || $name()) ),* ];
    };
}
#[cfg(not(feature = "sym"))]
fn main() { nat::run(TABLE) }

fn pu(name: &str) -> usize { param(name) as usize }
fn pow2(n: usize) -> BigInt { BigInt::from(1u8) << n }

/// an allocated number holding input `name`/`i` below 2^bits (0: any field element)
fn in_num(cs: &mut CS, name: &str, i: usize, bits: u64) -> AllocatedNum<F> {
    let v = in_f(name, i, bits);
    let n = AllocatedNum::alloc(&mut *cs, || Ok(v)).unwrap();
    out_var(name, i, n.get_variable());
    n
}
/// the same as a repository `Num`
fn in_rnum(cs: &mut CS, name: &str, i: usize, bits: u64) -> Num<F> {
    let v = in_f(name, i, bits);
    let n = Num::alloc(&mut *cs, || Ok(v)).unwrap();
    out_lc(name, i, &n.num);
    n
}
/// a `BigNat` with `n` limb inputs below 2^bits (0: any field element)
fn in_bn(cs: &mut CS, name: &str, n: usize, w: usize, bits: u64, max_word: Option<BigInt>) -> BigNat<F> {
    let vs: Vec<F> = (0..n).map(|i| in_f(name, i, bits)).collect();
    let b = BigNat::alloc_from_limbs(&mut *cs, || Ok(vs), max_word, w, n).unwrap();
    for i in 0..n { out_lc(name, i, &b.limbs[i]); }
    b
}
/// a bit whose variable is an input
fn in_bit(cs: &mut CS, name: &str, i: usize) -> Bit<F> {
    let v = if cs.with_values { Some(in_bool(name, i)) } else { None };
    let b = Bit::alloc(&mut *cs, v).unwrap();
    out_lc(name, i, &b.bit);
    b
}
macro_rules! out_bn { ($n:literal, $b:expr) => { {
    let b: &BigNat<F> = $b;
    for (i, l) in b.limbs.iter().enumerate() { out_lc($n, i, l); }
    if let Some(vs) = &b.limb_values { for (i, v) in vs.iter().enumerate() { out_f(concat!($n, ".v"), i, v); } }
    if let Some(z) = &b.value { out_z(concat!($n, ".z"), 0, z); }
    out_z(concat!($n, ".mw"), 0, &b.params.max_word);
    out_u64(concat!($n, ".min"), 0, b.params.min_bits as u64);
    out_u64(concat!($n, ".n"), 0, b.params.n_limbs as u64);
    out_u64(concat!($n, ".w"), 0, b.params.limb_width as u64);
} } }
fn out_bv(name: &str, vname: &str, aname: &str, b: &Bitvector<F>) {
    for (i, l) in b.bits.iter().enumerate() { out_lc(name, i, l); }
    if let Some(vs) = &b.values { for (i, v) in vs.iter().enumerate() { out_bool(vname, i, *v); } }
    for (i, a) in b.allocations.iter().enumerate() { out_lc(aname, i, &a.bit); }
}
fn out_err(e: &SynthesisError) { out_u64("err", 0, err_code(e)) }
/// operands a and b of the two-operand harnesses
fn two(cs: &mut CS) -> (BigNat<F>, BigNat<F>) {
    let (na, nb, w) = (pu("na"), pu("nb"), pu("w"));
    let mw = |own: u64| { let k = if own > 0 { own } else { param("mwbits") }; if k > 0 { Some(pow2(k as usize) - 1) } else { None } };
    let a = in_bn(cs, "a", na, w, param("abits"), mw(param("amw")));
    let b = in_bn(cs, "b", nb, if param("wb") > 0 { pu("wb") } else { w }, param("bbits"), mw(param("bmw")));
    (a, b)
}
/// `a` as the crate's own polynomial type (whose module is private)
fn poly_of<P>(b: &BigNat<F>) -> P where P: From<BigNat<F>> { P::from(b.clone()) }
fn same<T>(_: &T, _: &T) {}
/// forces `P` to be the polynomial type of `BigNat::from_poly`
fn as_poly<P>(p: P, _f: impl Fn(P, usize, BigInt) -> BigNat<F>) -> P { p }

harnesses! {
    // ------------------------------------------------------------------ equality and comparison
    h_equals {
        let mut cs = CS::new_cs();
        let a = in_num(&mut cs, "a", 0, 0);
        let b = in_num(&mut cs, "b", 0, 0);
        match BigNat::<F>::equals(cs.namespace(|| "e"), &a, &b) {
            Ok(r) => out_boolean("r", 0, &r),
            Err(e) => out_err(&e),
        }
    }
    h_is_equal {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.is_equal(cs.namespace(|| "e"), &b) {
            Ok(r) => out_boolean("r", 0, &r),
            Err(e) => out_err(&e),
        }
    }
    h_less_than {
        let mut cs = CS::new_cs();
        let n = param("n_bits");
        let a = in_num(&mut cs, "a", 0, n);
        let b = in_num(&mut cs, "b", 0, n);
        match median::less_than(cs.namespace(|| "lt"), &a, &b, n as usize) {
            Ok(r) => out_boolean("r", 0, &r),
            Err(e) => out_err(&e),
        }
    }
    h_leq {
        let mut cs = CS::new_cs();
        let n = param("n_bits");
        let a = in_num(&mut cs, "a", 0, n);
        let b = in_num(&mut cs, "b", 0, n);
        match median::leq(cs.namespace(|| "le"), &a, &b, n as usize) {
            Ok(r) => out_boolean("r", 0, &r),
            Err(e) => out_err(&e),
        }
    }
    // ------------------------------------------------------------------ median
    h_median {
        let n = pu("n");
        let mut ts: Vec<u32> = (0..n).map(|i| in_u64("t", i, 32) as u32).collect();
        let m = median::compute_median_timestamp(&mut ts);
        out_u64("m", 0, m as u64);
        out_u64("len", 0, ts.len() as u64);
        for (i, t) in ts.iter().enumerate() { out_u64("s", i, *t as u64); }
    }
    h_verify_median {
        let mut cs = CS::new_cs();
        let n = pu("n");
        let mut ts: Vec<u32> = (0..n).map(|i| in_u64("t", i, 32) as u32).collect();
        let m = in_u64("m", 0, 32) as u32;
        match median::verify_median_timestamp(cs.namespace(|| "v"), &mut ts, m) {
            Ok(r) => out_boolean("r", 0, &r),
            Err(e) => out_err(&e),
        }
        for (i, t) in ts.iter().enumerate() { out_u64("s", i, *t as u64); }
    }
    // ------------------------------------------------------------------ difficulty
    h_verify_difficulty {
        let mut cs = CS::new_cs();
        let cu = in_u128("cu", 0, 128);
        let cl = in_u128("cl", 0, 128);
        let pbits = param("pbits");
        let pu_ = if pbits > 128 { in_u128("pu", 0, pbits - 128) } else { 0 };
        let pl = in_u128("pl", 0, if pbits > 128 { 128 } else { pbits });
        let t = in_u64("t", 0, 32) as u32;
        difficulty_update::verify_difficulty_update(cs.namespace(|| "d"), cu, cl, pu_, pl, t);
        out_u64("done", 0, 1);
    }
    h_calc_difficulty {
        let mut cs = CS::new_cs();
        let p = in_num(&mut cs, "p", 0, param("pbits"));
        let t = in_num(&mut cs, "t", 0, 32);
        match difficulty_update::calculate_difficulty_update(cs.namespace(|| "d"), &p, &t) {
            Ok(r) => out_bn!("r", &r),
            Err(e) => out_err(&e),
        }
    }
    // ------------------------------------------------------------------ limb codec
    h_nat_to_limbs {
        let z = in_z("z", 0, param("zbits"));
        match nat_to_limbs::<F>(&z, pu("w"), pu("n")) {
            Ok(v) => { out_u64("len", 0, v.len() as u64); for (i, x) in v.iter().enumerate() { out_f("l", i, x); } }
            Err(e) => out_err(&e),
        }
    }
    h_limbs_to_nat {
        let n = pu("n");
        let v: Vec<F> = (0..n).map(|i| in_f("l", i, param("bits"))).collect();
        let z = limbs_to_nat::<F, _, _>(v.iter(), pu("w"));
        out_z("z", 0, &z);
    }
    h_alloc_from_nat {
        let mut cs = CS::new_cs();
        let z = in_z("z", 0, param("zbits"));
        match BigNat::<F>::alloc_from_nat(cs.namespace(|| "a"), || Ok(z), pu("w"), pu("n")) {
            Ok(b) => out_bn!("r", &b),
            Err(e) => out_err(&e),
        }
    }
    h_alloc_from_limbs {
        let mut cs = CS::new_cs();
        let (n, k) = (pu("n"), pu("k"));
        let v: Vec<F> = (0..k).map(|i| in_f("l", i, param("bits"))).collect();
        match BigNat::<F>::alloc_from_limbs(cs.namespace(|| "a"), || Ok(v), None, pu("w"), n) {
            Ok(b) => out_bn!("r", &b),
            Err(e) => out_err(&e),
        }
    }
    h_from_limbs {
        let mut cs = CS::new_cs();
        let n = pu("n");
        let v: Vec<Num<F>> = (0..n).map(|i| in_rnum(&mut cs, "l", i, param("bits"))).collect();
        let b = BigNat::<F>::from_limbs(v, pu("w"));
        out_bn!("r", &b);
        for (i, l) in b.as_limbs::<CS>().iter().enumerate() {
            out_lc("al", i, &l.num);
            if let Some(x) = &l.value { out_f("al.v", i, x); }
        }
    }
    // ------------------------------------------------------------------ range check, bits
    h_fits {
        let mut cs = CS::new_cs();
        let a = in_rnum(&mut cs, "a", 0, param("bits"));
        match a.fits_in_bits(cs.namespace(|| "f"), pu("n")) {
            Ok(()) => out_u64("ok", 0, 1),
            Err(e) => out_err(&e),
        }
    }
    h_well_formed {
        let mut cs = CS::new_cs();
        let a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        match a.assert_well_formed(cs.namespace(|| "f")) {
            Ok(()) => out_u64("ok", 0, 1),
            Err(e) => out_err(&e),
        }
    }
    h_decompose {
        let mut cs = CS::new_cs();
        let a = in_rnum(&mut cs, "a", 0, param("bits"));
        match a.decompose(cs.namespace(|| "f"), pu("n")) {
            Ok(bv) => out_bv("b", "b.v", "b.a", &bv),
            Err(e) => out_err(&e),
        }
    }
    h_bn_decompose {
        let mut cs = CS::new_cs();
        let a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        match a.decompose(cs.namespace(|| "f")) {
            Ok(bv) => {
                out_bv("b", "b.v", "b.a", &bv);
                let r = BigNat::recompose(&bv, pu("rw"));
                out_bn!("r", &r);
            }
            Err(e) => out_err(&e),
        }
    }
    h_recompose {
        let mut cs = CS::new_cs();
        let bits: Vec<Bit<F>> = (0..pu("n")).map(|i| in_bit(&mut cs, "x", i)).collect();
        let r = BigNat::recompose(&Bitvector::from_bits(bits), pu("rw"));
        out_bn!("r", &r);
    }
    h_num_is_equal {
        let mut cs = CS::new_cs();
        let bits: Vec<Bit<F>> = (0..pu("n")).map(|i| in_bit(&mut cs, "x", i)).collect();
        let a = in_rnum(&mut cs, "a", 0, 0);
        match a.is_equal(cs.namespace(|| "f"), &Bitvector::from_bits(bits)) {
            Ok(()) => out_u64("ok", 0, 1),
            Err(e) => out_err(&e),
        }
    }
    h_from_num {
        let mut cs = CS::new_cs();
        let a = in_rnum(&mut cs, "a", 0, param("bits"));
        match BigNat::<F>::from_num(cs.namespace(|| "f"), a, pu("w"), pu("n")) {
            Ok(r) => out_bn!("r", &r),
            Err(e) => out_err(&e),
        }
    }
    h_as_sapling {
        let mut cs = CS::new_cs();
        let a = in_rnum(&mut cs, "a", 0, 0);
        let b = in_rnum(&mut cs, "b", 0, 0);
        let l = Num::new(match (a.value, b.value) { (Some(x), Some(y)) => Some(x + y + y), _ => None }, a.num.clone() + &b.num + &b.num);
        match l.as_sapling_allocated_num(cs.namespace(|| "f")) {
            Ok(r) => { out_var("r", 0, r.get_variable()); if let Some(v) = r.get_value() { out_f("r.v", 0, &v) } }
            Err(e) => out_err(&e),
        }
        let n = Num::from(in_num(&mut cs, "c", 0, 0));
        out_lc("n", 0, &n.num);
        if let Some(v) = n.value { out_f("n.v", 0, &v) }
    }
    // ------------------------------------------------------------------ equality of numbers
    h_equal {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.equal(cs.namespace(|| "e"), &b) { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_err(&e) }
    }
    h_ewc {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.equal_when_carried(cs.namespace(|| "e"), &b) { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_err(&e) }
    }
    h_ewcr {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.equal_when_carried_regroup(cs.namespace(|| "e"), &b) { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_err(&e) }
    }
    // ------------------------------------------------------------------ arithmetic
    h_mult {
        let mut cs = CS::new_cs();
        let (mut a, mut b) = two(&mut cs);
        a.params.min_bits = pu("amin");
        b.params.min_bits = pu("bmin");
        match a.mult(cs.namespace(|| "m"), &b) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    h_divides {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.divides(cs.namespace(|| "m"), &b) { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_err(&e) }
    }
    h_mult_mod {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let mut m = in_bn(&mut cs, "m", pu("nm"), pu("w"), param("mbits"), None);
        m.params.min_bits = pu("mmin");
        match a.mult_mod(cs.namespace(|| "m"), &b, &m) {
            Ok((q, r)) => { out_bn!("q", &q); out_bn!("r", &r); }
            Err(e) => out_err(&e),
        }
    }
    h_red_mod {
        let mut cs = CS::new_cs();
        let w = pu("w");
        let a = in_bn(&mut cs, "a", pu("na"), w, param("abits"), None);
        let mut m = in_bn(&mut cs, "m", pu("nm"), w, param("mbits"), None);
        m.params.min_bits = pu("mmin");
        match a.red_mod(cs.namespace(|| "m"), &m) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    h_assert_product_mod {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let w = pu("w");
        let m = in_bn(&mut cs, "m", pu("nm"), w, param("mbits"), None);
        let r = in_bn(&mut cs, "r", pu("nm"), w, param("mbits"), None);
        match a.assert_product_mod(cs.namespace(|| "m"), &b, &m, &r) { Ok(q) => out_bn!("q", &q), Err(e) => out_err(&e) }
    }
    h_add {
        let mut cs = CS::new_cs();
        let (mut a, mut b) = two(&mut cs);
        a.params.min_bits = pu("amin");
        b.params.min_bits = pu("bmin");
        match a.add::<CS>(&b) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    h_sub {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.sub(cs.namespace(|| "s"), &b) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    // ------------------------------------------------------------------ reshaping
    h_concat {
        let mut cs = CS::new_cs();
        let (mut a, mut b) = two(&mut cs);
        a.params.min_bits = pu("amin");
        b.params.min_bits = pu("bmin");
        match a.concat(&b) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    h_truncate {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        a.params.min_bits = pu("amin");
        out_bn!("r", &a.truncate_limbs(pu("k")));
    }
    h_group {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        a.params.min_bits = pu("amin");
        out_bn!("r", &a.group_limbs(pu("k")));
    }
    h_with_n_limbs {
        let mut cs = CS::new_cs();
        let mw = if param("mwbits") > 0 { Some(pow2(pu("mwbits")) - 1) } else { None };
        let a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), mw);
        out_u64("nbits", 0, a.n_bits() as u64);
        out_bn!("r", &a.with_n_limbs::<CS>(pu("k")));
    }
    h_shift {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        a.params.min_bits = pu("amin");
        let c = in_f("c", 0, param("cbits"));
        out_bn!("r", &a.shift::<CS>(c));
    }
    h_scale {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        a.params.min_bits = pu("amin");
        let c = F::from(param("c"));
        out_bn!("r", &a.scale::<CS>(c));
    }
    h_one {
        let _cs = CS::new_cs();
        let r = BigNat::<F>::one::<CS>(pu("w"));
        out_bn!("r", &r);
        out_u64("nbits", 0, r.n_bits() as u64);
    }
    // ------------------------------------------------------------------ selection
    h_mux {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let s = in_bit(&mut cs, "s", 0);
        match Gadget::mux(cs.namespace(|| "m"), &s, &a, &b) { Ok(r) => { let r: BigNat<F> = r; out_bn!("r", &r) }, Err(e) => out_err(&e) }
    }
    h_switch {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let s = in_bit(&mut cs, "s", 0);
        match Gadget::switch(cs.namespace(|| "m"), &s, &a, &b) { Ok((r, q)) => { let r: BigNat<F> = r; out_bn!("r", &r); out_bn!("q", &q) }, Err(e) => out_err(&e) }
    }
    h_mux_tree {
        let mut cs = CS::new_cs();
        let (k, w) = (pu("k"), pu("w"));
        let n = pu("n");
        let mut ins = Vec::new();
        let names = ["i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"];
        for j in 0..n { ins.push(in_bn(&mut cs, names[j], 1, w, w as u64, None)); }
        let s: Vec<Bit<F>> = (0..k).map(|i| in_bit(&mut cs, "s", i)).collect();
        match Gadget::mux_tree(cs.namespace(|| "m"), s.iter(), &ins) { Ok(r) => { let r: BigNat<F> = r; out_bn!("r", &r) }, Err(e) => out_err(&e) }
    }
    h_min {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.min(cs.namespace(|| "m"), &b) { Ok(r) => out_bn!("r", &r), Err(e) => out_err(&e) }
    }
    h_gadget {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        match a.as_nums(cs.namespace(|| "n")) {
            Ok(v) => for (i, x) in v.iter().enumerate() { out_var("n", i, x.get_variable()); if let Some(y) = x.get_value() { out_f("n.v", i, &y) } },
            Err(e) => out_err(&e),
        }
        match Gadget::assert_equal(cs.namespace(|| "eq"), &a, &b) { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_u64("err2", 0, err_code(&e)) }
    }
    // ------------------------------------------------------------------ public inputs
    h_inputize {
        let mut cs = CS::new_cs();
        let a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        let base = param("base");
        let _ = base;
        let r = if param("gadget") == 1 { Gadget::inputize(&a, cs.namespace(|| "i")) } else { BigNat::inputize(&a, cs.namespace(|| "i")) };
        match r { Ok(()) => out_u64("ok", 0, 1), Err(e) => out_err(&e) }
    }
    // ------------------------------------------------------------------ minimum size
    h_full_bits {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        match a.enforce_full_bits(cs.namespace(|| "f")) { Ok(()) => out_bn!("r", &a), Err(e) => out_err(&e) }
    }
    h_min_bits {
        let mut cs = CS::new_cs();
        let mut a = in_bn(&mut cs, "a", pu("n"), pu("w"), param("bits"), None);
        match a.enforce_min_bits(cs.namespace(|| "f"), pu("k")) { Ok(()) => out_bn!("r", &a), Err(e) => out_err(&e) }
    }
    // ------------------------------------------------------------------ polynomials
    h_poly_product {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let pa = as_poly(poly_of(&a), BigNat::<F>::from_poly);
        let pb = as_poly(poly_of(&b), BigNat::<F>::from_poly);
        match pa.alloc_product(cs.namespace(|| "p"), &pb) {
            Ok(p) => {
                for (i, l) in p.coefficients.iter().enumerate() { out_lc("p", i, l); }
                if let Some(vs) = &p.values { for (i, v) in vs.iter().enumerate() { out_f("p.v", i, v); } }
                let x = in_f("x", 0, 0);
                if let (Some(u), Some(v), Some(t)) = (pa.evaluate_at(x), pb.evaluate_at(x), p.evaluate_at(x)) {
                    out_f("ea", 0, &u); out_f("eb", 0, &v); out_f("ep", 0, &t);
                }
            }
            Err(e) => out_err(&e),
        }
    }
    h_poly_sum {
        let mut cs = CS::new_cs();
        let (a, b) = two(&mut cs);
        let pa = as_poly(poly_of(&a), BigNat::<F>::from_poly);
        let pb = as_poly(poly_of(&b), BigNat::<F>::from_poly);
        let p = pa.sum(&pb);
        for (i, l) in p.coefficients.iter().enumerate() { out_lc("p", i, l); }
        if let Some(vs) = &p.values { for (i, v) in vs.iter().enumerate() { out_f("p.v", i, v); } }
    }
    // ------------------------------------------------------------------ bit vectors
    h_bits {
        let mut cs = CS::new_cs();
        let n = pu("n");
        let bits: Vec<Bit<F>> = (0..n).map(|i| in_bit(&mut cs, "x", i)).collect();
        let y = in_bit(&mut cs, "y", 0);
        let k = pu("k");
        let bv = Bitvector::from_bits(bits);
        match param("op") {
            0 => out_bv("b", "b.v", "b.a", &bv.reversed()),
            1 => out_bv("b", "b.v", "b.a", &bv.truncate(k)),
            2 => out_bv("b", "b.v", "b.a", &bv.shr(k)),
            3 => out_bv("b", "b.v", "b.a", &bv.shl(k)),
            4 => { let mut bv = bv; match bv.pop() { Some(p) => { out_lc("p", 0, &p.bit); if let Some(v) = p.value { out_bool("p.v", 0, v) } }, None => out_u64("none", 0, 1) }; out_bv("b", "b.v", "b.a", &bv) }
            5 => { let mut bv = bv; bv.push(y); out_bv("b", "b.v", "b.a", &bv) }
            6 => { let mut bv = bv; bv.insert(k, y); out_bv("b", "b.v", "b.a", &bv) }
            7 => { let mut bv = bv; let z: Vec<Bit<F>> = (0..k).map(|i| in_bit(&mut cs, "z", i)).collect(); bv.append(Bitvector::from_bits(z)); out_bv("b", "b.v", "b.a", &bv) }
            8 => for (i, b) in bv.into_bits().iter().enumerate() { out_lc("b", i, &b.bit); if let Some(v) = b.value { out_bool("b.v", i, v) } },
            9 => match bv.get(k) { Some(b) => { out_lc("b", 0, &b.bit); if let Some(v) = b.value { out_bool("b.v", 0, v) } }, None => out_u64("none", 0, 1) },
            10 => { let b = y.not::<CS>(); out_lc("b", 0, &b.bit); if let Some(v) = b.value { out_bool("b.v", 0, v) } }
            11 => { y.constrain_value(cs.namespace(|| "c"), k == 1); out_u64("ok", 0, 1) }
            12 => { let b = Bit::<F>::new_value::<CS>(k == 1); out_lc("b", 0, &b.bit); if let Some(v) = b.value { out_bool("b.v", 0, v) } }
            13 => {
                let b = Boolean::from(bellpepper_core::boolean::AllocatedBit::alloc(cs.namespace(|| "ab"), y.value).unwrap());
                let b = if k == 1 { b.not() } else { b };
                out_lc("src", 0, &b.lc(CS::one(), F::ONE));
                let c = Bit::<F>::from_sapling::<CS>(b);
                out_lc("b", 0, &c.bit); if let Some(v) = c.value { out_bool("b.v", 0, v) }
            }
            _ => { // a history of operations chosen by the solver
                let mut bv = bv;
                for i in 0..k {
                    if in_choice("op", i) {
                        if in_choice("arg", i) { bv = bv.shl(1).truncate(n) } else { bv = bv.shr(1); bv.push(Bit::new(y.bit.clone(), y.value)) }
                    } else if in_choice("arg", i) { bv = bv.reversed() } else if let Some(p) = bv.pop() { bv.insert(0, p) }
                }
                out_bv("b", "b.v", "b.a", &bv)
            }
        }
    }
    // ------------------------------------------------------------------ lazy cells
    h_lazy {
        let n = Cell::new(0u64);
        let x = in_u64("x", 0, 64);
        let c = LazyCell::new(|| { n.set(n.get() + 1); x.wrapping_add(n.get()) });
        out_u64("before", 0, n.get());
        let d = c.clone();
        for i in 0..pu("k") {
            let v = if in_choice("which", i) { *c.borrow() } else { *d.borrow() };
            out_u64("v", i, v);
            out_u64("n", i, n.get());
        }
    }
    // ------------------------------------------------------------------ conversions
    h_f_to_nat { let f = in_f("f", 0, 0); out_z("z", 0, &f_to_nat(&f)); }
    h_nat_to_f {
        let z = in_z("z", 0, param("zbits"));
        let z = if param("neg") == 1 { -z } else { z };
        match nat_to_f::<F>(&z) { Some(f) => { out_u64("some", 0, 1); out_f("f", 0, &f) }, None => out_u64("some", 0, 0) }
    }
    h_usize_to_f { let n = in_u64("n", 0, 64); out_f("f", 0, &usize_to_f::<F>(n as usize)); }
    h_f_to_usize { let f = in_f("f", 0, param("bits")); out_u64("n", 0, f_to_usize(&f) as u64); }
    // ------------------------------------------------------------------ header step
    h_header_step {
        // the 80 bytes of the header; byte 75 (the exponent of the target) may be a parameter
        use nova_snark::traits::circuit::StepCircuit;
        let mut cs = CS::new_cs();
        let mut h = [0u64; 10];
        for i in 0..80 {
            let b = if i == 75 && param("anyexp") == 0 { param("e") } else { in_u64("b", i, 8) };
            h[i / 8] |= b << (56 - 8 * (i % 8));
        }
        let z: Vec<AllocatedNum<F>> = (0..16).map(|i| in_num(&mut cs, "z", i, match i { 0 => param("hbits"), 1..=11 | 13 => 32, 12 => param("tbits"), 14 => 11, _ => 0 })).collect();
        let b = header_step::BlockHeader::<F>::new_blocks(vec![h]);
        out_u64("arity", 0, b[0].arity() as u64);
        match b[0].synthesize(&mut cs, &z) {
            Ok(zo) => for (i, n) in zo.iter().enumerate() { out_var("zo", i, n.get_variable()); if let Some(v) = n.get_value() { out_f("zo.v", i, &v) } },
            Err(e) => out_err(&e),
        }
    }
    h_initial_state {
        let z = header_step::BlockHeader::<F>::initial_z_i_scalars();
        for (i, v) in z.iter().enumerate() { out_f("z", i, v); }
    }
}
