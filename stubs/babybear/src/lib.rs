pub use xcore::field::{BabyBear, BabyBearx16};
