pub use xcore::field::{Goldilocks, Goldilocksx8};
