//! Minimal stand-ins for the parts of PolyhedraZK/Expander that
//! expander_compiler is written against (the real crates cannot be fetched offline).
pub use {ethnum, rand, serdes};
pub mod circuit;
pub mod crosslayer;
pub mod engine;
pub mod field;
pub mod fr;
