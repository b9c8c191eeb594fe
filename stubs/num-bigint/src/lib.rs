//! Stand-in for the parts of `num-bigint` the gadget library uses (the real crate is not
//! available offline). Plain schoolbook arithmetic on base-2^32 digits.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

// ---- magnitudes: little-endian, no leading zero digit --------------------------------------
type Mag = Vec<u32>;
fn norm(mut a: Mag) -> Mag {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
fn mcmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len()
        .cmp(&b.len())
        .then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
fn madd(a: &[u32], b: &[u32]) -> Mag {
    let mut r = vec![];
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(c as u32);
        c >>= 32;
    }
    r.push(c as u32);
    norm(r)
}
fn msub(a: &[u32], b: &[u32]) -> Mag {
    let mut r = vec![];
    let mut c = 0i64;
    for i in 0..a.len() {
        c += a[i] as i64 - *b.get(i).unwrap_or(&0) as i64;
        r.push(c as u32);
        c >>= 32;
    }
    assert_eq!(c, 0, "attempt to subtract with overflow");
    norm(r)
}
fn mmul(a: &[u32], b: &[u32]) -> Mag {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            c += a[i] as u64 * b[j] as u64 + r[i + j] as u64;
            r[i + j] = c as u32;
            c >>= 32;
        }
        r[i + b.len()] = c as u32;
    }
    norm(r)
}
fn mshl(a: &[u32], n: usize) -> Mag {
    let mut r = vec![0u32; n / 32];
    let s = n % 32;
    let mut c = 0u64;
    for &d in a {
        c |= (d as u64) << s;
        r.push(c as u32);
        c >>= 32;
    }
    r.push(c as u32);
    norm(r)
}
fn mshr(a: &[u32], n: usize) -> Mag {
    if n / 32 >= a.len() {
        return vec![];
    }
    let a = &a[n / 32..];
    let s = n % 32;
    norm(
        (0..a.len())
            .map(|i| (((a[i] as u64) | (*a.get(i + 1).unwrap_or(&0) as u64) << 32) >> s) as u32)
            .collect(),
    )
}
fn mbits(a: &[u32]) -> u64 {
    match a.last() {
        None => 0,
        Some(t) => a.len() as u64 * 32 - t.leading_zeros() as u64,
    }
}
fn mdivsmall(a: &[u32], b: u32) -> (Mag, u32) {
    let mut q = vec![0; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        r = r << 32 | a[i] as u64;
        q[i] = (r / b as u64) as u32;
        r %= b as u64;
    }
    (norm(q), r as u32)
}
fn mdiv(a: &[u32], b: &[u32]) -> (Mag, Mag) {
    assert!(!b.is_empty(), "attempt to divide by zero");
    if mcmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = mdivsmall(a, b[0]);
        return (q, norm(vec![r]));
    }
    // Knuth's algorithm D
    let s = b.last().unwrap().leading_zeros() as usize;
    let b = mshl(b, s);
    let mut a = mshl(a, s);
    a.push(0);
    while a.len() <= b.len() {
        a.push(0);
    }
    let n = b.len();
    let m = a.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let top = (a[j + n] as u64) << 32 | a[j + n - 1] as u64;
        let mut qh = (top / b[n - 1] as u64).min(u32::MAX as u64);
        loop {
            let rh = top - qh * b[n - 1] as u64;
            if rh >> 32 == 0
                && (qh as u128 * b[n - 2] as u128) > ((rh as u128) << 32 | a[j + n - 2] as u128)
            {
                qh -= 1;
            } else {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            carry += qh * b[i] as u64;
            borrow += a[j + i] as i64 - (carry as u32) as i64;
            a[j + i] = borrow as u32;
            borrow >>= 32;
            carry >>= 32;
        }
        borrow += a[j + n] as i64 - carry as i64;
        a[j + n] = borrow as u32;
        borrow >>= 32;
        if borrow != 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                c += a[j + i] as u64 + b[i] as u64;
                a[j + i] = c as u32;
                c >>= 32;
            }
            a[j + n] = (a[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    a.truncate(n);
    (norm(q), mshr(&norm(a), s))
}
fn mparse(s: &[u8], radix: u32) -> Option<Mag> {
    let mut r: Mag = vec![];
    let mut any = false;
    for &c in s {
        if c == b'_' {
            continue;
        }
        let d = (c as char).to_digit(radix)?;
        any = true;
        r = madd(&mmul(&r, &[radix]), &norm(vec![d]));
    }
    any.then_some(r)
}
fn mshow(a: &[u32]) -> String {
    let mut a = a.to_vec();
    let mut out = vec![];
    while !a.is_empty() {
        let (q, r) = mdivsmall(&a, 1_000_000_000);
        a = q;
        out.push(r);
    }
    match out.pop() {
        None => "0".into(),
        Some(t) => {
            let mut s = t.to_string();
            for d in out.iter().rev() {
                s += &format!("{d:09}");
            }
            s
        }
    }
}
fn mu128(a: &[u32]) -> Option<u128> {
    (a.len() <= 4).then(|| {
        a.iter()
            .rev()
            .fold(0u128, |acc, d| (acc << 32) | *d as u128)
    })
}
fn of_u128(mut v: u128) -> Mag {
    let mut r = vec![];
    while v > 0 {
        r.push(v as u32);
        v >>= 32;
    }
    r
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigUint {
    m: Mag,
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    m: Mag,
}

impl BigUint {
    pub const ZERO: BigUint = BigUint { m: Vec::new() };
    fn mk(m: Mag) -> Self {
        BigUint { m: norm(m) }
    }
    pub fn bits(&self) -> u64 {
        mbits(&self.m)
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.m.clone()
    }
    pub fn from_slice(d: &[u32]) -> Self {
        BigUint::mk(d.to_vec())
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.m
            .chunks(2)
            .map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32)
            .collect()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.m.iter().flat_map(|d| d.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        if v.is_empty() {
            v.push(0);
        }
        v
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        BigUint::mk(
            b.chunks(4)
                .map(|c| c.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32))
                .collect(),
        )
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut b = b.to_vec();
        b.reverse();
        Self::from_bytes_le(&b)
    }
    pub fn parse_bytes(s: &[u8], radix: u32) -> Option<Self> {
        mparse(s, radix).map(BigUint::mk)
    }
    pub fn pow(&self, e: u32) -> Self {
        let mut r = BigUint::one();
        for _ in 0..e {
            r = &r * self;
        }
        r
    }
    pub fn modpow(&self, e: &BigUint, p: &BigUint) -> Self {
        let mut r = BigUint::one() % p;
        let base = self % p;
        for i in (0..e.bits()).rev() {
            r = &(&r * &r) % p;
            if e.m[i as usize / 32] >> (i % 32) & 1 == 1 {
                r = &(&r * &base) % p;
            }
        }
        r
    }
}
impl BigInt {
    pub const ZERO: BigInt = BigInt { neg: false, m: Vec::new() };
    fn mk(neg: bool, m: Mag) -> Self {
        let m = norm(m);
        BigInt { neg: neg && !m.is_empty(), m }
    }
    pub fn from_biguint(s: Sign, d: BigUint) -> Self {
        Self::mk(s == Sign::Minus, d.m)
    }
    pub fn bits(&self) -> u64 {
        mbits(&self.m)
    }
    pub fn sign(&self) -> Sign {
        if self.m.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        (!self.neg).then(|| BigUint { m: self.m.clone() })
    }
    pub fn magnitude(&self) -> BigUint {
        BigUint { m: self.m.clone() }
    }
    pub fn parse_bytes(s: &[u8], radix: u32) -> Option<Self> {
        match s.strip_prefix(b"-") {
            Some(t) => mparse(t, radix).map(|m| Self::mk(true, m)),
            None => mparse(s.strip_prefix(b"+").unwrap_or(s), radix).map(|m| Self::mk(false, m)),
        }
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.magnitude().to_bytes_be())
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.magnitude().to_bytes_le())
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        Self::from_biguint(s, BigUint::from_bytes_be(b))
    }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> Self {
        Self::from_biguint(s, BigUint::from_bytes_le(b))
    }
    pub fn pow(&self, e: u32) -> Self {
        let mut r = BigInt::one();
        for _ in 0..e {
            r = &r * self;
        }
        r
    }
    fn mod_floor(&self, p: &BigInt) -> BigInt {
        let r = self % p;
        if !r.m.is_empty() && r.neg != p.neg {
            r + p
        } else {
            r
        }
    }
    pub fn modinv(&self, p: &BigInt) -> Option<BigInt> {
        assert!(!p.is_zero(), "attempt to calculate with zero modulus!");
        let (mut r0, mut r1) = (p.clone(), self.mod_floor(p));
        let (mut t0, mut t1) = (BigInt::ZERO, BigInt::one());
        while !r1.is_zero() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            let t2 = &t0 - &q * &t1;
            (r0, r1, t0, t1) = (r1, r2, t1, t2);
        }
        r0.is_one().then(|| t0.mod_floor(p))
    }
}
fn iadd(a: &BigInt, bneg: bool, b: &[u32]) -> BigInt {
    if a.neg == bneg {
        BigInt::mk(a.neg, madd(&a.m, b))
    } else {
        match mcmp(&a.m, b) {
            Ordering::Less => BigInt::mk(bneg, msub(b, &a.m)),
            _ => BigInt::mk(a.neg, msub(&a.m, b)),
        }
    }
}

macro_rules! binop {
    ($T:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl $Tr<&$T> for &$T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                let ($a, $b): (&$T, &$T) = (self, o);
                $e
            }
        }
        impl $Tr<$T> for &$T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                $Tr::$f(self, &o)
            }
        }
        impl $Tr<&$T> for $T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                $Tr::$f(&self, o)
            }
        }
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                $Tr::$f(&self, &o)
            }
        }
        impl $TrA<&$T> for $T {
            fn $fa(&mut self, o: &$T) {
                *self = $Tr::$f(&*self, o);
            }
        }
        impl $TrA<$T> for $T {
            fn $fa(&mut self, o: $T) {
                *self = $Tr::$f(&*self, &o);
            }
        }
    };
}
binop!(BigUint, Add, add, AddAssign, add_assign, |a, b| BigUint::mk(madd(&a.m, &b.m)));
binop!(BigUint, Sub, sub, SubAssign, sub_assign, |a, b| BigUint::mk(msub(&a.m, &b.m)));
binop!(BigUint, Mul, mul, MulAssign, mul_assign, |a, b| BigUint::mk(mmul(&a.m, &b.m)));
binop!(BigUint, Div, div, DivAssign, div_assign, |a, b| BigUint::mk(mdiv(&a.m, &b.m).0));
binop!(BigUint, Rem, rem, RemAssign, rem_assign, |a, b| BigUint::mk(mdiv(&a.m, &b.m).1));
binop!(BigInt, Add, add, AddAssign, add_assign, |a, b| iadd(a, b.neg, &b.m));
binop!(BigInt, Sub, sub, SubAssign, sub_assign, |a, b| iadd(a, !b.neg, &b.m));
binop!(BigInt, Mul, mul, MulAssign, mul_assign, |a, b| BigInt::mk(a.neg != b.neg, mmul(&a.m, &b.m)));
binop!(BigInt, Div, div, DivAssign, div_assign, |a, b| BigInt::mk(a.neg != b.neg, mdiv(&a.m, &b.m).0));
binop!(BigInt, Rem, rem, RemAssign, rem_assign, |a, b| BigInt::mk(a.neg, mdiv(&a.m, &b.m).1));
binop!(BigInt, BitAnd, bitand, BitAndAssign, bitand_assign, |a, b| {
    assert!(!a.neg && !b.neg, "bit operations on negative numbers are not modelled");
    BigInt::mk(false, a.m.iter().zip(&b.m).map(|(x, y)| x & y).collect())
});

macro_rules! prim {
    ($T:ident, $($p:ty),*) => {$(
        prim!(@op $T, $p, Add, add, AddAssign, add_assign);
        prim!(@op $T, $p, Sub, sub, SubAssign, sub_assign);
        prim!(@op $T, $p, Mul, mul, MulAssign, mul_assign);
        prim!(@op $T, $p, Div, div, DivAssign, div_assign);
        prim!(@op $T, $p, Rem, rem, RemAssign, rem_assign);
    )*};
    (@op $T:ident, $p:ty, $Tr:ident, $f:ident, $TrA:ident, $fa:ident) => {
        impl $Tr<$p> for $T {
            type Output = $T;
            fn $f(self, o: $p) -> $T {
                $Tr::$f(&self, &$T::from(o))
            }
        }
        impl $Tr<$p> for &$T {
            type Output = $T;
            fn $f(self, o: $p) -> $T {
                $Tr::$f(self, &$T::from(o))
            }
        }
        impl $TrA<$p> for $T {
            fn $fa(&mut self, o: $p) {
                *self = $Tr::$f(&*self, &$T::from(o));
            }
        }
    };
}
prim!(BigInt, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
prim!(BigUint, u8, u16, u32, u64, u128, usize);

macro_rules! from_u {
    ($($p:ty),*) => {$(
        impl From<$p> for BigUint {
            fn from(v: $p) -> Self { BigUint { m: of_u128(v as u128) } }
        }
        impl From<$p> for BigInt {
            fn from(v: $p) -> Self { BigInt::mk(false, of_u128(v as u128)) }
        }
    )*};
}
macro_rules! from_i {
    ($($p:ty),*) => {$(
        impl From<$p> for BigInt {
            fn from(v: $p) -> Self { BigInt::mk(v < 0, of_u128((v as i128).unsigned_abs())) }
        }
    )*};
}
from_u!(u8, u16, u32, u64, u128, usize, bool);
from_i!(i8, i16, i32, i64, i128, isize);
impl From<BigUint> for BigInt {
    fn from(v: BigUint) -> Self {
        BigInt::mk(false, v.m)
    }
}

macro_rules! shifts {
    ($($p:ty),*) => {$(
        impl Shl<$p> for BigInt { type Output = BigInt; fn shl(self, n: $p) -> BigInt { &self << n } }
        impl Shl<$p> for &BigInt { type Output = BigInt; fn shl(self, n: $p) -> BigInt { BigInt::mk(self.neg, mshl(&self.m, n as usize)) } }
        impl ShlAssign<$p> for BigInt { fn shl_assign(&mut self, n: $p) { *self = &*self << n; } }
        impl Shr<$p> for BigInt { type Output = BigInt; fn shr(self, n: $p) -> BigInt { &self >> n } }
        impl Shr<$p> for &BigInt {
            type Output = BigInt;
            // arithmetic shift: rounds towards minus infinity
            fn shr(self, n: $p) -> BigInt {
                let q = mshr(&self.m, n as usize);
                if self.neg && mshl(&q, n as usize) != self.m {
                    BigInt::mk(true, madd(&q, &[1]))
                } else {
                    BigInt::mk(self.neg, q)
                }
            }
        }
        impl ShrAssign<$p> for BigInt { fn shr_assign(&mut self, n: $p) { *self = &*self >> n; } }
        impl Shl<$p> for BigUint { type Output = BigUint; fn shl(self, n: $p) -> BigUint { BigUint::mk(mshl(&self.m, n as usize)) } }
        impl Shr<$p> for BigUint { type Output = BigUint; fn shr(self, n: $p) -> BigUint { BigUint::mk(mshr(&self.m, n as usize)) } }
    )*};
}
shifts!(u8, u32, u64, usize, i32);

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::mk(!self.neg, self.m)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        -self.clone()
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        mcmp(&self.m, &o.m)
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => mcmp(&self.m, &o.m),
            (true, true) => mcmp(&o.m, &self.m),
        }
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        Self::ZERO
    }
    fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
}
impl One for BigUint {
    fn one() -> Self {
        BigUint { m: vec![1] }
    }
}
impl Zero for BigInt {
    fn zero() -> Self {
        Self::ZERO
    }
    fn is_zero(&self) -> bool {
        self.m.is_empty()
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt { neg: false, m: vec![1] }
    }
}
impl Num for BigUint {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ParseBigIntError> {
        BigUint::parse_bytes(s.as_bytes(), r).ok_or(ParseBigIntError)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ParseBigIntError> {
        BigInt::parse_bytes(s.as_bytes(), r).ok_or(ParseBigIntError)
    }
}
impl std::str::FromStr for BigUint {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
        Self::from_str_radix(s, 10)
    }
}
impl std::str::FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
        Self::from_str_radix(s, 10)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::mk(false, self.m.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            Self::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        BigInt::mk(self.neg, if self.m.is_empty() { vec![] } else { vec![1] })
    }
    fn is_positive(&self) -> bool {
        !self.neg && !self.m.is_empty()
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        mu128(&self.m).and_then(|v| i64::try_from(v).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        mu128(&self.m).and_then(|v| u64::try_from(v).ok())
    }
    fn to_u128(&self) -> Option<u128> {
        mu128(&self.m)
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let v = i128::try_from(mu128(&self.m)?).ok()?;
        i64::try_from(if self.neg { -v } else { v }).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg {
            None
        } else {
            mu128(&self.m).and_then(|v| u64::try_from(v).ok())
        }
    }
    fn to_u128(&self) -> Option<u128> {
        if self.neg {
            None
        } else {
            mu128(&self.m)
        }
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(true, "", &mshow(&self.m))
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad_integral(!self.neg, "", &mshow(&self.m))
    }
}
impl fmt::Debug for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}


impl<'a> std::iter::Sum<&'a BigInt> for BigInt {
    fn sum<I: Iterator<Item = &'a BigInt>>(i: I) -> Self {
        i.fold(BigInt::ZERO, |a, b| a + b)
    }
}
impl std::iter::Sum<BigInt> for BigInt {
    fn sum<I: Iterator<Item = BigInt>>(i: I) -> Self {
        i.fold(BigInt::ZERO, |a, b| a + b)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn identities() {
        let mut s = 1u64;
        let mut rnd = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (s >> 32) as u32
        };
        for k in 0..20000 {
            let pat = |x: u32, k: u32| match k % 4 {
                0 => x,
                1 => u32::MAX - (x & 1),
                2 => x & 1,
                _ => x & 0x8000_0001,
            };
            let a = BigUint::mk((0..k % 9).map(|i| pat(rnd(), k / 9 + i)).collect());
            let b = BigUint::mk((0..1 + k % 5).map(|i| pat(rnd(), k / 7 + i * 3)).collect());
            if b.is_zero() {
                continue;
            }
            let (q, r) = (&a / &b, &a % &b);
            assert!(r < b);
            assert_eq!(&q * &b + &r, a);
            assert_eq!(a.to_string().parse::<BigUint>().unwrap(), a);
            assert_eq!((&a + &b) - &b, a);
            if let (Some(x), Some(y)) = (a.to_u128(), b.to_u128()) {
                assert_eq!(q.to_u128(), Some(x / y));
            }
        }
    }
}
