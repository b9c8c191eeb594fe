pub use xcore::field::{GF2, GF2x8};
