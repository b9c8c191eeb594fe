//! Stand-in for the parts of `ark-ff` the gadget library's hints use.
pub use num_traits::{One, Zero};
pub mod fields {
    pub use super::Field;
}
pub trait Field: Clone + PartialEq + Zero + One + for<'a> std::ops::MulAssign<&'a Self> {
    fn inverse(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let mut r = Self::one();
        for limb in e.as_ref().iter().rev() {
            for i in (0..64).rev() {
                let t = r.clone();
                r *= &t;
                if limb >> i & 1 == 1 {
                    r *= self;
                }
            }
        }
        r
    }
    fn square(&self) -> Self {
        let mut r = self.clone();
        r *= self;
        r
    }
}
