//! The part of nova-snark that /repo implements: the StepCircuit trait (same signature as 0.35.0).
pub mod traits {
    pub mod circuit {
        use bellpepper_core::{num::AllocatedNum, ConstraintSystem, SynthesisError};
        use ff::PrimeField;
        pub trait StepCircuit<F: PrimeField>: Send + Sync + Clone {
            fn arity(&self) -> usize;
            fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, z: &[AllocatedNum<F>]) -> Result<Vec<AllocatedNum<F>>, SynthesisError>;
        }
        #[derive(Clone, Debug, Default, PartialEq, Eq)]
        pub struct TrivialCircuit<F: PrimeField> { _p: std::marker::PhantomData<F> }
        impl<F: PrimeField> StepCircuit<F> for TrivialCircuit<F> {
            fn arity(&self) -> usize { 1 }
            fn synthesize<CS: ConstraintSystem<F>>(&self, _cs: &mut CS, z: &[AllocatedNum<F>]) -> Result<Vec<AllocatedNum<F>>, SynthesisError> { Ok(z.to_vec()) }
        }
    }
}
