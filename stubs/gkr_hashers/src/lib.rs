//! Stand-in for the Poseidon parameter tables of `gkr_hashers` (first rows of the circulant
//! matrices and the seed prefix of the round constants).
pub mod poseidon {
    pub mod r#impls {
        pub const POSEIDON_SEED_PREFIX: &str = "poseidon_seed";
        pub const MATRIX_CIRC_MDS_8_SML_ROW: [u32; 8] = [7, 1, 3, 8, 8, 3, 4, 9];
        pub const MATRIX_CIRC_MDS_12_SML_ROW: [u32; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];
        pub const MATRIX_CIRC_MDS_16_SML_ROW: [u32; 16] =
            [1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3];
    }
}
