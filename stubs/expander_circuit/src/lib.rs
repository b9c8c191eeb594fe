pub use xcore::circuit::*;
