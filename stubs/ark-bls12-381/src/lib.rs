//! Stand-in for the field tower of `ark-bls12-381` (the real crate is not available offline):
//! Fq, Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(u+1)), Fq12 = Fq6[w]/(w^2-v), textbook formulas.
use ark_ff::{Field, One, Zero};
use num_bigint::BigUint;
use std::fmt;
use std::ops::*;
use std::sync::OnceLock;

pub fn modulus() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        BigUint::parse_bytes(b"1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16).unwrap()
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fq([u32; 12]);
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}

impl Fq {
    fn mk(v: BigUint) -> Self {
        let d = (v % modulus()).to_u32_digits();
        Fq(std::array::from_fn(|i| *d.get(i).unwrap_or(&0)))
    }
    fn big(&self) -> BigUint {
        BigUint::from_slice(&self.0)
    }
}
impl<T: Into<BigUint>> From<T> for Fq {
    fn from(v: T) -> Self {
        Fq::mk(v.into())
    }
}
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.big(), f)
    }
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    fn mul_xi(&self) -> Self {
        Fq2::new(&self.c0 - &self.c1, &self.c0 + &self.c1)
    }
    pub fn mul_assign_by_fp(&mut self, e: &Fq) {
        self.c0 = &self.c0 * e;
        self.c1 = &self.c1 * e;
    }
}
impl Fq6 {
    pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Fq6 { c0, c1, c2 }
    }
    fn mul_v(&self) -> Self {
        Fq6::new(self.c2.mul_xi(), self.c0.clone(), self.c1.clone())
    }
}
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> Self {
        Fq12 { c0, c1 }
    }
}

macro_rules! op {
    ($T:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $Tr<&$T> for &$T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                let ($a, $b): (&$T, &$T) = (self, o);
                $e
            }
        }
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                $Tr::$f(&self, &o)
            }
        }
        impl $Tr<&$T> for $T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                $Tr::$f(&self, o)
            }
        }
        impl $TrA<&$T> for $T {
            fn $fa(&mut self, o: &$T) {
                *self = $Tr::$f(&*self, o);
            }
        }
        impl $TrA<$T> for $T {
            fn $fa(&mut self, o: $T) {
                *self = $Tr::$f(&*self, &o);
            }
        }
    };
}
op!(Fq, Add, add, AddAssign, add_assign, |a, b| Fq::mk(a.big() + b.big()));
op!(Fq, Sub, sub, SubAssign, sub_assign, |a, b| Fq::mk(a.big() + modulus() - b.big()));
op!(Fq, Mul, mul, MulAssign, mul_assign, |a, b| Fq::mk(a.big() * b.big()));
op!(Fq2, Add, add, AddAssign, add_assign, |a, b| Fq2::new(&a.c0 + &b.c0, &a.c1 + &b.c1));
op!(Fq2, Sub, sub, SubAssign, sub_assign, |a, b| Fq2::new(&a.c0 - &b.c0, &a.c1 - &b.c1));
op!(Fq2, Mul, mul, MulAssign, mul_assign, |a, b| Fq2::new(
    &a.c0 * &b.c0 - &a.c1 * &b.c1,
    &a.c0 * &b.c1 + &a.c1 * &b.c0
));
op!(Fq6, Add, add, AddAssign, add_assign, |a, b| Fq6::new(&a.c0 + &b.c0, &a.c1 + &b.c1, &a.c2 + &b.c2));
op!(Fq6, Sub, sub, SubAssign, sub_assign, |a, b| Fq6::new(&a.c0 - &b.c0, &a.c1 - &b.c1, &a.c2 - &b.c2));
op!(Fq6, Mul, mul, MulAssign, mul_assign, |a, b| Fq6::new(
    &a.c0 * &b.c0 + (&a.c1 * &b.c2 + &a.c2 * &b.c1).mul_xi(),
    &a.c0 * &b.c1 + &a.c1 * &b.c0 + (&a.c2 * &b.c2).mul_xi(),
    &a.c0 * &b.c2 + &a.c1 * &b.c1 + &a.c2 * &b.c0
));
op!(Fq12, Add, add, AddAssign, add_assign, |a, b| Fq12::new(&a.c0 + &b.c0, &a.c1 + &b.c1));
op!(Fq12, Sub, sub, SubAssign, sub_assign, |a, b| Fq12::new(&a.c0 - &b.c0, &a.c1 - &b.c1));
op!(Fq12, Mul, mul, MulAssign, mul_assign, |a, b| Fq12::new(
    &a.c0 * &b.c0 + (&a.c1 * &b.c1).mul_v(),
    &a.c0 * &b.c1 + &a.c1 * &b.c0
));
macro_rules! rest {
    ($($T:ty: $one:expr;)*) => {$(
        impl Zero for $T {
            fn zero() -> Self { Self::default() }
            fn is_zero(&self) -> bool { *self == Self::default() }
        }
        impl One for $T {
            fn one() -> Self { $one }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T { Self::default() - self }
        }
        impl Div for $T {
            type Output = $T;
            fn div(self, o: $T) -> $T { self * o.inverse().expect("division by zero") }
        }
    )*};
}
rest! {
    Fq: Fq::mk(BigUint::one());
    Fq2: Fq2::new(Fq::one(), Fq::zero());
    Fq6: Fq6::new(Fq2::one(), Fq2::zero(), Fq2::zero());
    Fq12: Fq12::new(Fq6::one(), Fq6::zero());
}
impl Field for Fq {
    fn inverse(&self) -> Option<Self> {
        (!self.is_zero()).then(|| Fq::mk(self.big().modpow(&(modulus() - BigUint::from(2u32)), modulus())))
    }
    fn sqrt(&self) -> Option<Self> {
        let r = Fq::mk(self.big().modpow(&((modulus() + BigUint::one()) / BigUint::from(4u32)), modulus()));
        (&r * &r == *self).then_some(r)
    }
}
impl Field for Fq2 {
    fn inverse(&self) -> Option<Self> {
        let n = (&self.c0 * &self.c0 + &self.c1 * &self.c1).inverse()?;
        Some(Fq2::new(&self.c0 * &n, Fq::zero() - &self.c1 * &n))
    }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            return match self.c0.sqrt() {
                Some(r) => Some(Fq2::new(r, Fq::zero())),
                None => Some(Fq2::new(Fq::zero(), (Fq::zero() - &self.c0).sqrt()?)),
            };
        }
        let alpha = (&self.c0 * &self.c0 + &self.c1 * &self.c1).sqrt()?;
        let half = Fq::from(2u32).inverse().unwrap();
        let c0 = match ((&self.c0 + &alpha) * &half).sqrt() {
            Some(r) => r,
            None => ((&self.c0 - &alpha) * &half).sqrt()?,
        };
        let r = Fq2::new(c0.clone(), &self.c1 * &half * c0.inverse()?);
        (&r * &r == *self).then_some(r)
    }
}
impl Field for Fq6 {
    fn inverse(&self) -> Option<Self> {
        let (a, b, c) = (&self.c0, &self.c1, &self.c2);
        let t0 = a * a - (b * c).mul_xi();
        let t1 = (c * c).mul_xi() - a * b;
        let t2 = b * b - a * c;
        let n = (a * &t0 + (c * &t1 + b * &t2).mul_xi()).inverse()?;
        Some(Fq6::new(&t0 * &n, &t1 * &n, &t2 * &n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("square roots in Fq6 are not modelled")
    }
}
impl Field for Fq12 {
    fn inverse(&self) -> Option<Self> {
        let n = (&self.c0 * &self.c0 - (&self.c1 * &self.c1).mul_v()).inverse()?;
        Some(Fq12::new(&self.c0 * &n, Fq6::zero() - &self.c1 * &n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("square roots in Fq12 are not modelled")
    }
}
