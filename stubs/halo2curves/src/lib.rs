pub mod bn256 {
    pub use xcore::fr::Fr;
}
