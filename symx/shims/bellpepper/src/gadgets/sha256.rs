//! sha256 as an uninterpreted function: it reports its preimage bits and allocates 256 boolean
//! output bits whose values the environment chooses.
use super::boolean::{AllocatedBit, Boolean};
use bellpepper_core::{ConstraintSystem, Index, SynthesisError};
use ff::PrimeField;

extern "C" {
    /// returns the number of this call
    fn sx_sha_begin(n_bits: u64) -> u64;
    /// kind: 0 constant, 1 variable, 2 negated variable
    fn sx_sha_in(call: u64, i: u64, kind: u64, var: u64, value: u64);
    fn sx_sha_out(call: u64, i: u64) -> u64;
    fn sx_sha_out_var(call: u64, i: u64, var: u64);
}
fn idx(i: Index) -> u64 { match i { Index::Input(k) => (k as u64) << 1, Index::Aux(k) => ((k as u64) << 1) | 1 } }
pub fn sha256<Scalar, CS>(mut cs: CS, input: &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>
where
    Scalar: PrimeField,
    CS: ConstraintSystem<Scalar>,
{
    assert!(input.len() % 8 == 0);
    let call = unsafe { sx_sha_begin(input.len() as u64) };
    for (i, b) in input.iter().enumerate() {
        let v = match b.get_value() { Some(v) => v as u64, None => 2 };
        match b {
            Boolean::Constant(_) => unsafe { sx_sha_in(call, i as u64, 0, 0, v) },
            Boolean::Is(a) => unsafe { sx_sha_in(call, i as u64, 1, idx(a.get_variable().0), v) },
            Boolean::Not(a) => unsafe { sx_sha_in(call, i as u64, 2, idx(a.get_variable().0), v) },
        }
    }
    let known = input.iter().all(|b| b.get_value().is_some());
    let mut out = Vec::with_capacity(256);
    for i in 0..256u64 {
        let v = if known { Some(unsafe { sx_sha_out(call, i) } & 1 == 1) } else { None };
        let a = AllocatedBit::alloc(cs.namespace(|| format!("out {}", i)), v)?;
        unsafe { sx_sha_out_var(call, i, idx(a.get_variable().0)) };
        out.push(Boolean::from(a));
    }
    Ok(out)
}
