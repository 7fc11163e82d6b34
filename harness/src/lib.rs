//! Shared machinery of the conformance drivers: reading Quint (ITF) traces,
//! calling the code under test with panics caught and hangs detected, and
//! reporting what was compared.
pub mod big;
#[cfg(feature = "field")]
pub mod fields;
pub mod ec;
pub mod fp;
pub mod itf;
pub mod keccak;
pub mod run;
pub mod stark;

pub use big::Int;
pub use itf::*;
pub use run::*;
