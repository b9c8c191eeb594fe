//! Stand-in for Expander's `arith` crate (not available offline).
pub use xcore::field::*;
pub use xcore::fr::Fr;
