pub use bellpepper_core::boolean;
#[macro_use]
pub mod boolean_utils;
pub mod lookup;
pub mod multieq;
pub mod multipack;
pub use bellpepper_core::num;
pub mod sha256;
pub mod uint32;
use bellpepper_core::SynthesisError;
pub trait Assignment<T> {
    fn get(&self) -> Result<&T, SynthesisError>;
}
impl<T> Assignment<T> for Option<T> {
    fn get(&self) -> Result<&T, SynthesisError> {
        match *self {
            Some(ref v) => Ok(v),
            None => Err(SynthesisError::AssignmentMissing),
        }
    }
}
