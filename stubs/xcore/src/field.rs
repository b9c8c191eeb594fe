use ethnum::U256;
use rand::RngCore;
use serdes::ExpSerde;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub trait Field:
    Copy
    + Clone
    + Debug
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + Hash
    + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + Sum<Self>
    + Product<Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + Send
    + Sync
    + Sized
    + ExpSerde
    + 'static
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const MODULUS: U256;

    fn zero() -> Self {
        Self::ZERO
    }
    fn one() -> Self {
        Self::ONE
    }
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(rng: impl RngCore) -> Self;
    fn double(&self) -> Self {
        *self + *self
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn exp(&self, e: u128) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        let mut e = e;
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b = b.square();
            e >>= 1;
        }
        r
    }
    fn inv(&self) -> Option<Self>;
    fn mul_by_2(&self) -> Self {
        self.double()
    }
    fn mul_by_3(&self) -> Self {
        self.double() + *self
    }
    fn mul_by_5(&self) -> Self {
        self.double().double() + *self
    }
    fn mul_by_6(&self) -> Self {
        self.mul_by_3().double()
    }
    fn as_u32_unchecked(&self) -> u32;
    fn from_uniform_bytes(bytes: &[u8]) -> Self;
    fn to_u256(&self) -> U256;
    fn from_u256(v: U256) -> Self;
}

pub trait SimdField: From<<Self as SimdField>::Scalar> + Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, challenge: &Self::Scalar) -> Self;
    fn pack(base_vec: &[Self::Scalar]) -> Self;
    fn pack_full(base: &Self::Scalar) -> Self;
    fn unpack(&self) -> Vec<Self::Scalar>;
}

pub type SimdField_ = ();

/// Thread-local override of `random_unsafe`: an explorer can own the random
/// coefficients drawn by the code under test.
thread_local! {
    pub static RANDOM_HOOK: std::cell::RefCell<Option<Box<dyn FnMut() -> u64>>> =
        const { std::cell::RefCell::new(None) };
}
pub fn hooked_random() -> Option<u64> {
    RANDOM_HOOK.with(|h| h.borrow_mut().as_mut().map(|f| f()))
}

#[macro_export]
macro_rules! field_ops {
    ($T:ty) => {
        impl std::ops::Add<&$T> for $T {
            type Output = $T;
            #[inline]
            fn add(self, o: &$T) -> $T {
                self + *o
            }
        }
        impl std::ops::Sub<&$T> for $T {
            type Output = $T;
            #[inline]
            fn sub(self, o: &$T) -> $T {
                self - *o
            }
        }
        impl std::ops::Mul<&$T> for $T {
            type Output = $T;
            #[inline]
            fn mul(self, o: &$T) -> $T {
                self * *o
            }
        }
        impl std::ops::AddAssign for $T {
            #[inline]
            fn add_assign(&mut self, o: $T) {
                *self = *self + o;
            }
        }
        impl std::ops::SubAssign for $T {
            #[inline]
            fn sub_assign(&mut self, o: $T) {
                *self = *self - o;
            }
        }
        impl std::ops::MulAssign for $T {
            #[inline]
            fn mul_assign(&mut self, o: $T) {
                *self = *self * o;
            }
        }
        impl std::ops::AddAssign<&$T> for $T {
            #[inline]
            fn add_assign(&mut self, o: &$T) {
                *self = *self + *o;
            }
        }
        impl std::ops::SubAssign<&$T> for $T {
            #[inline]
            fn sub_assign(&mut self, o: &$T) {
                *self = *self - *o;
            }
        }
        impl std::ops::MulAssign<&$T> for $T {
            #[inline]
            fn mul_assign(&mut self, o: &$T) {
                *self = *self * *o;
            }
        }
        impl std::iter::Sum for $T {
            fn sum<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold(<$T as $crate::field::Field>::ZERO, |a, b| a + b)
            }
        }
        impl std::iter::Product for $T {
            fn product<I: Iterator<Item = $T>>(it: I) -> $T {
                it.fold(<$T as $crate::field::Field>::ONE, |a, b| a * b)
            }
        }
        impl<'a> std::iter::Sum<&'a $T> for $T {
            fn sum<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold(<$T as $crate::field::Field>::ZERO, |a, b| a + *b)
            }
        }
        impl<'a> std::iter::Product<&'a $T> for $T {
            fn product<I: Iterator<Item = &'a $T>>(it: I) -> $T {
                it.fold(<$T as $crate::field::Field>::ONE, |a, b| a * *b)
            }
        }
    };
}

/// A prime field with a 64-bit modulus, values kept canonical.
#[macro_export]
macro_rules! prime_field {
    ($T:ident, $p:expr, $bits:expr, $size:expr) => {
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $T {
            pub v: u64,
        }
        impl $T {
            pub const P: u64 = $p;
            #[inline]
            pub const fn new(v: u64) -> Self {
                Self { v: v % Self::P }
            }
        }
        impl From<u32> for $T {
            #[inline]
            fn from(v: u32) -> Self {
                Self::new(v as u64)
            }
        }
        impl From<u64> for $T {
            #[inline]
            fn from(v: u64) -> Self {
                Self::new(v)
            }
        }
        impl std::ops::Neg for $T {
            type Output = $T;
            #[inline]
            fn neg(self) -> $T {
                if self.v == 0 {
                    self
                } else {
                    Self { v: Self::P - self.v }
                }
            }
        }
        impl std::ops::Add for $T {
            type Output = $T;
            #[inline]
            fn add(self, o: $T) -> $T {
                let (s, c) = self.v.overflowing_add(o.v);
                if c || s >= Self::P {
                    Self { v: s.wrapping_sub(Self::P) }
                } else {
                    Self { v: s }
                }
            }
        }
        impl std::ops::Sub for $T {
            type Output = $T;
            #[inline]
            fn sub(self, o: $T) -> $T {
                if self.v >= o.v {
                    Self { v: self.v - o.v }
                } else {
                    Self { v: Self::P - (o.v - self.v) }
                }
            }
        }
        impl std::ops::Mul for $T {
            type Output = $T;
            #[inline]
            fn mul(self, o: $T) -> $T {
                if Self::P < 1 << 32 {
                    Self { v: self.v * o.v % Self::P }
                } else {
                    Self { v: ((self.v as u128 * o.v as u128) % (Self::P as u128)) as u64 }
                }
            }
        }
        $crate::field_ops!($T);
        impl $crate::serdes::ExpSerde for $T {
            fn serialize_into<W: std::io::Write>(&self, mut w: W) -> $crate::serdes::SerdeResult<()> {
                w.write_all(&self.v.to_le_bytes()[..$size])?;
                Ok(())
            }
            fn deserialize_from<R: std::io::Read>(mut r: R) -> $crate::serdes::SerdeResult<Self> {
                let mut b = [0u8; 8];
                r.read_exact(&mut b[..$size])?;
                let v = u64::from_le_bytes(b);
                if v >= Self::P {
                    return Err($crate::serdes::SerdeError::DeserializeError);
                }
                Ok(Self::new(v))
            }
        }
        impl $crate::field::Field for $T {
            const NAME: &'static str = stringify!($T);
            const SIZE: usize = $size;
            const FIELD_SIZE: usize = $bits;
            const ZERO: Self = Self { v: 0 };
            const ONE: Self = Self { v: 1 % $p };
            const MODULUS: $crate::ethnum::U256 = $crate::ethnum::U256::new($p as u128);
            fn random_unsafe(mut rng: impl $crate::rand::RngCore) -> Self {
                if let Some(x) = $crate::field::hooked_random() {
                    return Self::new(x);
                }
                Self::new(((rng.next_u64() as u128 * Self::P as u128) >> 64) as u64)
            }
            fn random_bool(mut rng: impl $crate::rand::RngCore) -> Self {
                Self::new(rng.next_u64() & 1)
            }
            fn inv(&self) -> Option<Self> {
                if self.v == 0 {
                    return None;
                }
                Some(self.exp((Self::P - 2) as u128))
            }
            fn as_u32_unchecked(&self) -> u32 {
                self.v as u32
            }
            fn from_uniform_bytes(bytes: &[u8]) -> Self {
                let mut r = Self::ZERO;
                let b256 = Self::new(256 % Self::P);
                for b in bytes.iter().rev() {
                    r = r * b256 + Self::new(*b as u64);
                }
                r
            }
            fn to_u256(&self) -> $crate::ethnum::U256 {
                $crate::ethnum::U256::from(self.v)
            }
            fn from_u256(v: $crate::ethnum::U256) -> Self {
                Self { v: (v % $crate::ethnum::U256::from(Self::P)).as_u64() }
            }
        }
    };
}

/// `N` lanes of a scalar field.
#[macro_export]
macro_rules! simd_field {
    ($T:ident, $S:ident, $n:expr) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $T {
            pub v: [$S; $n],
        }
        impl Default for $T {
            fn default() -> Self {
                Self { v: [<$S as $crate::field::Field>::ZERO; $n] }
            }
        }
        impl From<u32> for $T {
            fn from(v: u32) -> Self {
                Self { v: [$S::from(v); $n] }
            }
        }
        impl From<$S> for $T {
            fn from(v: $S) -> Self {
                Self { v: [v; $n] }
            }
        }
        impl std::ops::Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                Self { v: std::array::from_fn(|i| -self.v[i]) }
            }
        }
        impl std::ops::Add for $T {
            type Output = $T;
            fn add(self, o: $T) -> $T {
                Self { v: std::array::from_fn(|i| self.v[i] + o.v[i]) }
            }
        }
        impl std::ops::Sub for $T {
            type Output = $T;
            fn sub(self, o: $T) -> $T {
                Self { v: std::array::from_fn(|i| self.v[i] - o.v[i]) }
            }
        }
        impl std::ops::Mul for $T {
            type Output = $T;
            fn mul(self, o: $T) -> $T {
                Self { v: std::array::from_fn(|i| self.v[i] * o.v[i]) }
            }
        }
        $crate::field_ops!($T);
        impl $crate::serdes::ExpSerde for $T {
            fn serialize_into<W: std::io::Write>(&self, w: W) -> $crate::serdes::SerdeResult<()> {
                self.v.serialize_into(w)
            }
            fn deserialize_from<R: std::io::Read>(r: R) -> $crate::serdes::SerdeResult<Self> {
                Ok(Self { v: <[$S; $n]>::deserialize_from(r)? })
            }
        }
        impl $crate::field::Field for $T {
            const NAME: &'static str = stringify!($T);
            const SIZE: usize = <$S as $crate::field::Field>::SIZE * $n;
            const FIELD_SIZE: usize = <$S as $crate::field::Field>::FIELD_SIZE;
            const ZERO: Self = Self { v: [<$S as $crate::field::Field>::ZERO; $n] };
            const ONE: Self = Self { v: [<$S as $crate::field::Field>::ONE; $n] };
            const MODULUS: $crate::ethnum::U256 = <$S as $crate::field::Field>::MODULUS;
            fn random_unsafe(mut rng: impl $crate::rand::RngCore) -> Self {
                Self {
                    v: std::array::from_fn(|_| {
                        <$S as $crate::field::Field>::random_unsafe(&mut rng)
                    }),
                }
            }
            fn random_bool(mut rng: impl $crate::rand::RngCore) -> Self {
                Self {
                    v: std::array::from_fn(|_| <$S as $crate::field::Field>::random_bool(&mut rng)),
                }
            }
            fn inv(&self) -> Option<Self> {
                let mut r = *self;
                for x in r.v.iter_mut() {
                    *x = $crate::field::Field::inv(x)?;
                }
                Some(r)
            }
            fn as_u32_unchecked(&self) -> u32 {
                self.v[0].as_u32_unchecked()
            }
            fn from_uniform_bytes(bytes: &[u8]) -> Self {
                Self { v: [<$S as $crate::field::Field>::from_uniform_bytes(bytes); $n] }
            }
            fn to_u256(&self) -> $crate::ethnum::U256 {
                self.v[0].to_u256()
            }
            fn from_u256(v: $crate::ethnum::U256) -> Self {
                Self { v: [<$S as $crate::field::Field>::from_u256(v); $n] }
            }
        }
        impl $crate::field::SimdField for $T {
            type Scalar = $S;
            const PACK_SIZE: usize = $n;
            fn scale(&self, c: &$S) -> Self {
                Self { v: std::array::from_fn(|i| self.v[i] * *c) }
            }
            fn pack(b: &[$S]) -> Self {
                assert_eq!(b.len(), $n);
                Self { v: std::array::from_fn(|i| b[i]) }
            }
            fn pack_full(b: &$S) -> Self {
                Self { v: [*b; $n] }
            }
            fn unpack(&self) -> Vec<$S> {
                self.v.to_vec()
            }
        }
    };
}

crate::prime_field!(GF2, 2, 1, 1);
crate::prime_field!(M31, 2147483647, 32, 4);
crate::prime_field!(BabyBear, 0x78000001, 32, 4);
crate::prime_field!(Goldilocks, 0xffff_ffff_0000_0001, 64, 8);
crate::simd_field!(GF2x8, GF2, 8);
crate::simd_field!(M31x16, M31, 16);
crate::simd_field!(BabyBearx16, BabyBear, 16);
crate::simd_field!(Goldilocksx8, Goldilocks, 8);
