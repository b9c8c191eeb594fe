pub use xcore::field::{M31, M31x16};
