pub use xcore::engine::*;
