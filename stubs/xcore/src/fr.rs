//! BN254 scalar field, Montgomery form.
use crate::field::{Field, SimdField};
use ethnum::U256;
use rand::RngCore;
use serdes::{ExpSerde, SerdeResult};
use std::cmp::Ordering;
use std::io::{Read, Write};

const P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const INV: u64 = 0xc2e1f593efffffff;
const R2: [u64; 4] = [
    0x1bb8e645ae216da7,
    0x53fe3ab1e35c59e3,
    0x8c49833d53bb8085,
    0x0216d0b17f4e44a5,
];
const R: [u64; 4] = [
    0xac96341c4ffffffb,
    0x36fc76959f60cd29,
    0x666ea36f7879462e,
    0x0e0a77c19a07df2f,
];

#[derive(Copy, Clone, Default, PartialEq, Eq, Hash)]
pub struct Fr([u64; 4]);

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0; 4];
    let mut borrow = false;
    let mut i = 0;
    while i < 4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(borrow as u64);
        r[i] = x;
        borrow = b1 || b2;
        i += 1;
    }
    r
}
const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 {
            let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
            j += 1;
        }
        let s = t[4] as u128 + c;
        t[4] = s as u64;
        t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
        let mut j = 1;
        while j < 4 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
            j += 1;
        }
        let s = t[4] as u128 + c;
        t[3] = s as u64;
        t[4] = t[5] + (s >> 64) as u64;
        t[5] = 0;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &P) {
        sub4(&r, &P)
    } else {
        r
    }
}
impl Fr {
    pub const fn from_raw(v: [u64; 4]) -> Self {
        Fr(mont_mul(&v, &R2))
    }
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(R)
    }
    fn canon(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    fn from_canon(v: [u64; 4]) -> Self {
        Fr(mont_mul(&v, &R2))
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.to_u256().to_le_bytes()
    }
}
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Fr({:#x})", self.to_u256())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = (self.canon(), o.canon());
        a.iter().rev().cmp(b.iter().rev())
    }
}
impl From<u32> for Fr {
    fn from(v: u32) -> Self {
        Fr::from_canon([v as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(v: u64) -> Self {
        Fr::from_canon([v, 0, 0, 0])
    }
}
impl std::ops::Neg for Fr {
    type Output = Fr;
    fn neg(self) -> Fr {
        if self.0 == [0; 4] {
            self
        } else {
            Fr(sub4(&P, &self.0))
        }
    }
}
impl std::ops::Add for Fr {
    type Output = Fr;
    fn add(self, o: Fr) -> Fr {
        let mut r = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        if geq(&r, &P) {
            r = sub4(&r, &P);
        }
        Fr(r)
    }
}
impl std::ops::Sub for Fr {
    type Output = Fr;
    fn sub(self, o: Fr) -> Fr {
        self + (-o)
    }
}
impl std::ops::Mul for Fr {
    type Output = Fr;
    fn mul(self, o: Fr) -> Fr {
        Fr(mont_mul(&self.0, &o.0))
    }
}
crate::field_ops!(Fr);
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_u256().to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<Rd: Read>(mut r: Rd) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let v = U256::from_le_bytes(b);
        if v >= Self::MODULUS {
            return Err(serdes::SerdeError::DeserializeError);
        }
        Ok(Fr::from_u256(v))
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(R);
    const MODULUS: U256 = U256::from_words(
        ((P[3] as u128) << 64) | P[2] as u128,
        ((P[1] as u128) << 64) | P[0] as u128,
    );
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        if let Some(x) = crate::field::hooked_random() {
            return Self::from(x);
        }
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        Self::from_u256(U256::from_le_bytes(b))
    }
    fn random_bool(mut rng: impl RngCore) -> Self {
        Self::from((rng.next_u32() & 1) as u32)
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let mut e = Self::MODULUS - U256::from(2u32);
        let mut r = Self::ONE;
        let mut b = *self;
        while e > 0 {
            if e & U256::ONE == U256::ONE {
                r *= b;
            }
            b = b * b;
            e >>= 1;
        }
        Some(r)
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.canon()[0] as u32
    }
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        let mut r = Self::ZERO;
        let b256 = Self::from(256u32);
        for b in bytes.iter().rev() {
            r = r * b256 + Self::from(*b as u32);
        }
        r
    }
    fn to_u256(&self) -> U256 {
        let c = self.canon();
        U256::from_words(
            ((c[3] as u128) << 64) | c[2] as u128,
            ((c[1] as u128) << 64) | c[0] as u128,
        )
    }
    fn from_u256(v: U256) -> Self {
        let v = v % Self::MODULUS;
        let (hi, lo) = v.into_words();
        Self::from_canon([lo as u64, (lo >> 64) as u64, hi as u64, (hi >> 64) as u64])
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self {
        *self * *c
    }
    fn pack(b: &[Fr]) -> Self {
        assert_eq!(b.len(), 1);
        b[0]
    }
    fn pack_full(b: &Fr) -> Self {
        *b
    }
    fn unpack(&self) -> Vec<Fr> {
        vec![*self]
    }
}
