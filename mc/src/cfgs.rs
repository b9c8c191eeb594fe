//! Tiny prime fields and configurations over which everything can be enumerated.
use expander_compiler::circuit::config::Config;
use expander_compiler::field::{Field, FieldRaw};
use gkr_engine::{FieldEngine, GKREngine};

xcore::prime_field!(F3, 3, 2, 1);
xcore::prime_field!(F5, 5, 3, 1);
xcore::prime_field!(F7, 7, 3, 1);
// a five-element field that passes for one of 31 bits, for the comparison operations
xcore::prime_field!(F5g, 5, 32, 1);
xcore::simd_field!(F5gx2, F5g, 2);
// large enough to tell values apart
xcore::prime_field!(F16, 65537, 17, 4);
xcore::simd_field!(F16x2, F16, 2);
xcore::simd_field!(F3x1, F3, 1);
xcore::simd_field!(F3x2, F3, 2);
xcore::simd_field!(F3x4, F3, 4);
xcore::simd_field!(F5x1, F5, 1);
xcore::simd_field!(F5x2, F5, 2);
xcore::simd_field!(F5x4, F5, 4);
xcore::simd_field!(F7x2, F7, 2);
xcore::simd_field!(F7x8, F7, 8);

macro_rules! plain {
    ($($t:ty),*) => {$(impl Field for $t {} impl FieldRaw for $t {})*};
}
plain!(F3, F5, F7, F5g, F16);
macro_rules! raw {
    ($($t:ty),*) => {$(impl FieldRaw for $t {})*};
}
raw!(F16x2, F5gx2, F3x1, F3x2, F3x4, F5x1, F5x2, F5x4, F7x2, F7x8);

macro_rules! cfg {
    ($c:ident, $fe:ident, $f:ty, $s:ty, $id:expr, $rand:expr, [$ci:expr, $cv:expr, $cm:expr, $ca:expr, $cc:expr]) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $fe;
        impl FieldEngine for $fe {
            type CircuitField = $f;
            type SimdCircuitField = $s;
            type ChallengeField = $f;
        }
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $c;
        impl GKREngine for $c {
            type FieldConfig = $fe;
        }
        impl Config for $c {
            const CONFIG_ID: usize = $id;
            const COST_INPUT: usize = $ci;
            const COST_VARIABLE: usize = $cv;
            const COST_MUL: usize = $cm;
            const COST_ADD: usize = $ca;
            const COST_CONST: usize = $cc;
            const ENABLE_RANDOM_COMBINATION: bool = $rand;
        }
    };
}
// field / lanes / random combination of assertions / gate costs
cfg!(C3, E3, F3, F3x1, 101, true, [1000, 100, 10, 3, 3]);
cfg!(C3n, E3n, F3, F3x2, 102, false, [1000, 100, 200, 3, 3]);
cfg!(C3w, E3w, F3, F3x4, 103, true, [1000, 1, 1000, 3, 3]);
cfg!(C5, E5, F5, F5x1, 104, true, [1000, 100, 10, 3, 3]);
cfg!(C5n, E5n, F5, F5x2, 105, false, [1000, 100, 10, 3, 3]);
cfg!(C5w, E5w, F5, F5x4, 106, true, [1000, 100, 200, 3, 3]);
cfg!(C7, E7, F7, F7x2, 107, true, [1000, 100, 10, 3, 3]);
cfg!(C7w, E7w, F7, F7x8, 108, true, [1000, 100, 10, 3, 3]);
cfg!(C5g, E5g, F5g, F5gx2, 109, false, [1000, 100, 10, 3, 3]);
cfg!(C3q, E3q, F3, F3x4, 111, false, [1000, 100, 10, 3, 3]);
cfg!(C7q, E7q, F7, F7x8, 112, false, [1000, 100, 10, 3, 3]);
cfg!(C16n, E16n, F16, F16x2, 110, false, [1000, 100, 10, 3, 3]);
