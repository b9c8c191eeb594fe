//! C29 BLS12-381 in the circuit library: the field towers, the two curves, hashing to them and the pairing.
use crate::ef::{generic, hints, of_limbs, to_limbs};
use crate::g::*;
use crate::lk::fe;
use crate::rt::{self, count, distinct, family, par, violation, Level};
use ark_bls12_381::{modulus, Fq, Fq12, Fq2, Fq6};
use ark_ff::{Field as AF, One, Zero};
use circuit_std_rs::gnark::element::Element;
use circuit_std_rs::gnark::emparam::{Bls12381Fp, Bls12381Fr, CurveParams};
use circuit_std_rs::gnark::emulated::field_bls12381::e12::{Ext12, GE12};
use circuit_std_rs::gnark::emulated::field_bls12381::e2::{Ext2, GE2};
use circuit_std_rs::gnark::emulated::field_bls12381::e6::{Ext6, GE6};
use circuit_std_rs::gnark::emulated::sw_bls12381::g1::{G1Affine, G1};
use circuit_std_rs::gnark::emulated::sw_bls12381::g2::{G2AffP, G2Affine, LineEvaluations, G2};
use circuit_std_rs::gnark::emulated::sw_bls12381::pairing::Pairing;
use circuit_std_rs::gnark::emulated::sw_bls12381::point::{AffinePoint, Curve};
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::hint_key_to_id;
use num_bigint::{BigInt, BigUint};
use serde_json::json;
use std::sync::{Arc, Mutex};

type C = M31Config;
type M = F<C>;
type E = Element<Bls12381Fp>;
const SEED: u64 = 0xd201000000010000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    E2Zero,
    E2One,
    E2NonResidue,
    E2IsZero,
    E2Sign,
    E2Add,
    E2Sub,
    E2Double,
    E2Neg,
    E2Mul,
    E2MulElement,
    E2MulConst(i64),
    E2MulXi,
    E2Square,
    E2Div,
    E2InverseDiv,
    E2Inverse,
    E2Select,
    E2Conjugate,
    E2Frob(u8, u8),
    E2Copy,
    E2Eq,
    E6Zero,
    E6One,
    E6IsZero,
    E6Add,
    E6Sub,
    E6Neg,
    E6Double,
    E6Square,
    E6Mul,
    E6Karatsuba,
    E6MulE2,
    E6Mul12,
    E6Mul0,
    E6Mul01,
    E6MulV,
    E6Div,
    E6InverseDiv,
    E6Inverse,
    E6DivBy6,
    E6Select,
    E6Eq,
    E12Zero,
    E12One,
    E12IsZero,
    E12Add,
    E12Sub,
    E12Conjugate,
    E12Mul,
    E12Square,
    E12CycloSquare,
    E12Div,
    E12Inverse,
    E12Copy,
    E12Select,
    E12Mul014,
    E12Mul014By014,
    E12Expt,
    E12NSquare(usize),
    E12NSquareHint(usize),
    E12Frobenius,
    E12FrobeniusSquare,
    E12FinalExp,
    E12Eq,
    G1One,
    G1Add,
    G1Double,
    G1DoubleN(usize),
    G1DoubleAndAdd,
    G1Phi,
    G1SeedSquare,
    G1Copy,
    G1Eq,
    G1Windowed(u64),
    G1ClearCofactor,
    G1Iso,
    G1Map,
    G1MapTo,
    G1Uncompress,
    G2Neg,
    G2Add,
    G2Double,
    G2DoubleN(usize),
    G2Triple,
    G2DoubleAndAdd,
    G2Psi,
    G2Seed,
    G2Copy,
    G2Eq,
    G2Windowed(u64),
    G2ClearCofactor,
    G2Iso,
    G2Map,
    G2MapTo,
    G2Uncompress,
    CurveNeg,
    CurveOn,
    CurveGenerator,
    OnCurve,
    OnTwist,
    OnG1,
    OnG2,
    /// e(P_1,Q_1)···e(P_n,Q_n) = 1
    Pair(usize),
}
use Op::*;

/// Elements taken as inputs, plain variables taken as inputs.
fn arity(o: Op) -> (usize, usize) {
    match o {
        E2Zero | E2One | E2NonResidue | E6Zero | E6One | E12Zero | E12One | G1One | CurveGenerator => (1, 0),
        E2IsZero | E2Sign | E2Double | E2Neg | E2MulConst(_) | E2MulXi | E2Square | E2InverseDiv | E2Inverse | E2Conjugate | E2Frob(..) | E2Copy => (2, 0),
        E2Add | E2Sub | E2Mul | E2Div | E2Eq => (4, 0),
        E2MulElement => (3, 0),
        E2Select => (4, 1),
        E6IsZero | E6Neg | E6Double | E6Square | E6MulV | E6InverseDiv | E6Inverse | E6DivBy6 => (6, 0),
        E6Add | E6Sub | E6Mul | E6Karatsuba | E6Div | E6Eq => (12, 0),
        E6MulE2 | E6Mul0 => (8, 0),
        E6Mul12 | E6Mul01 => (10, 0),
        E6Select => (12, 1),
        E12IsZero | E12Conjugate | E12Square | E12CycloSquare | E12Inverse | E12Copy | E12Expt | E12NSquare(_) | E12NSquareHint(_) | E12Frobenius | E12FrobeniusSquare | E12FinalExp => (12, 0),
        E12Add | E12Sub | E12Mul | E12Div | E12Eq => (24, 0),
        E12Select => (24, 1),
        E12Mul014 => (16, 0),
        E12Mul014By014 => (8, 0),
        G1Double | G1DoubleN(_) | G1Phi | G1SeedSquare | G1Copy | G1Windowed(_) | G1ClearCofactor | G1Iso | CurveNeg | CurveOn | OnCurve | OnG1 => (2, 0),
        G1Add | G1DoubleAndAdd | G1Eq => (4, 0),
        G1Map => (1, 0),
        G1MapTo => (2, 0),
        G1Uncompress => (0, 48),
        G2Neg | G2Double | G2DoubleN(_) | G2Triple | G2Psi | G2Seed | G2Copy | G2Windowed(_) | G2ClearCofactor | G2Iso | OnTwist | OnG2 => (4, 0),
        G2Add | G2DoubleAndAdd | G2Eq => (8, 0),
        G2Map => (2, 0),
        G2MapTo => (4, 0),
        G2Uncompress => (0, 96),
        Pair(n) => (6 * n, 0),
    }
}

#[derive(Clone, Debug)]
struct Bl(Op);

/// Places kept for each element put out.
const W: usize = 64;

struct Out(Vec<Vec<Variable>>);
impl Out {
    fn e(&mut self, x: &E) {
        self.0.push(x.limbs.clone());
    }
    fn v(&mut self, x: Variable) {
        self.0.push(vec![x]);
    }
    fn e2(&mut self, x: &GE2) {
        self.e(&x.a0);
        self.e(&x.a1);
    }
    fn e6(&mut self, x: &GE6) {
        self.e2(&x.b0);
        self.e2(&x.b1);
        self.e2(&x.b2);
    }
    fn e12(&mut self, x: &GE12) {
        self.e6(&x.c0);
        self.e6(&x.c1);
    }
    fn g1(&mut self, p: &G1Affine) {
        self.e(&p.x);
        self.e(&p.y);
    }
    fn g2(&mut self, p: &G2AffP) {
        self.e2(&p.x);
        self.e2(&p.y);
    }
}

impl Gadget<C> for Bl {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let n = arity(self.0).0;
        let el: Vec<E> = (0..n)
            .map(|i| Element::new(x[i * 48..(i + 1) * 48].to_vec(), 0, false, false, false, Variable::default()))
            .collect();
        let v = &x[n * 48..];
        let e2 = |i: usize| GE2 { a0: el[i].clone(), a1: el[i + 1].clone() };
        let e6 = |i: usize| GE6 { b0: e2(i), b1: e2(i + 2), b2: e2(i + 4) };
        let e12 = |i: usize| GE12 { c0: e6(i), c1: e6(i + 6) };
        let g1 = |i: usize| G1Affine { x: el[i].clone(), y: el[i + 1].clone() };
        let g2 = |i: usize| G2AffP { x: e2(i), y: e2(i + 2) };
        let mut o = Out(vec![]);
        match self.0 {
            E2Zero | E2One | E2NonResidue | E2IsZero | E2Sign | E2Add | E2Sub | E2Double | E2Neg | E2Mul | E2MulElement | E2MulConst(_) | E2MulXi | E2Square | E2Div
            | E2InverseDiv | E2Inverse | E2Select | E2Conjugate | E2Frob(..) | E2Copy | E2Eq => {
                let mut f = Ext2::new(api);
                let r = match self.0 {
                    E2Zero => f.zero(),
                    E2One => f.one(),
                    E2NonResidue => f.non_residue(api),
                    E2Add => f.add(api, &e2(0), &e2(2)),
                    E2Sub => f.sub(api, &e2(0), &e2(2)),
                    E2Double => f.double(api, &e2(0)),
                    E2Neg => f.neg(api, &e2(0)),
                    E2Mul => f.mul(api, &e2(0), &e2(2)),
                    E2MulElement => f.mul_by_element(api, &e2(0), &el[2]),
                    E2MulConst(c) => f.mul_by_const_element(api, &e2(0), &BigInt::from(c)),
                    E2MulXi => f.mul_by_non_residue(api, &e2(0)),
                    E2Square => f.square(api, &e2(0)),
                    E2Div => f.div(api, &e2(0), &e2(2)),
                    E2InverseDiv => f.inverse_div(api, &e2(0)),
                    E2Inverse => f.inverse(api, &e2(0)),
                    E2Select => f.select(api, v[0], &e2(0), &e2(2)),
                    E2Conjugate => f.conjugate(api, &e2(0)),
                    E2Copy => f.copy(api, &e2(0)),
                    E2Frob(1, 1) => f.mul_by_non_residue1_power1(api, &e2(0)),
                    E2Frob(1, 2) => f.mul_by_non_residue1_power2(api, &e2(0)),
                    E2Frob(1, 3) => f.mul_by_non_residue1_power3(api, &e2(0)),
                    E2Frob(1, 4) => f.mul_by_non_residue1_power4(api, &e2(0)),
                    E2Frob(1, 5) => f.mul_by_non_residue1_power5(api, &e2(0)),
                    E2Frob(2, 1) => f.mul_by_non_residue2_power1(api, &e2(0)),
                    E2Frob(2, 2) => f.mul_by_non_residue2_power2(api, &e2(0)),
                    E2Frob(2, 3) => f.mul_by_non_residue2_power3(api, &e2(0)),
                    E2Frob(2, 4) => f.mul_by_non_residue2_power4(api, &e2(0)),
                    E2Frob(..) => f.mul_by_non_residue2_power5(api, &e2(0)),
                    E2IsZero => {
                        let z = f.is_zero(api, &e2(0));
                        o.v(z);
                        f.zero()
                    }
                    E2Sign => {
                        let z = f.curve_f.is_zero(api, &el[0]);
                        let s = f.get_e2_sign(api, &e2(0), z);
                        o.v(s);
                        f.zero()
                    }
                    _ => {
                        f.assert_isequal(api, &e2(0), &e2(2));
                        f.zero()
                    }
                };
                o.e2(&r);
                f.curve_f.check_mul(api);
                f.curve_f.table.final_check(api);
            }
            E6Zero | E6One | E6IsZero | E6Add | E6Sub | E6Neg | E6Double | E6Square | E6Mul | E6Karatsuba | E6MulE2 | E6Mul12 | E6Mul0 | E6Mul01 | E6MulV | E6Div
            | E6InverseDiv | E6Inverse | E6DivBy6 | E6Select | E6Eq => {
                let mut f = Ext6::new(api);
                let r = match self.0 {
                    E6Zero => f.zero::<C, B>(),
                    E6One => f.one(),
                    E6Add => f.add(api, &e6(0), &e6(6)),
                    E6Sub => f.sub(api, &e6(0), &e6(6)),
                    E6Neg => f.neg(api, &e6(0)),
                    E6Double => f.double(api, &e6(0)),
                    E6Square => f.square(api, &e6(0)),
                    E6Mul => f.mul(api, &e6(0), &e6(6)),
                    E6Karatsuba => f.mul_karatsuba_over_karatsuba(api, &e6(0), &e6(6)),
                    E6MulE2 => f.mul_by_e2(api, &e6(0), &e2(6)),
                    E6Mul12 => f.mul_by_12(api, &e6(0), &e2(6), &e2(8)),
                    E6Mul0 => f.mul_by_0(api, &e6(0), &e2(6)),
                    E6Mul01 => f.mul_by_01(api, &e6(0), &e2(6), &e2(8)),
                    E6MulV => f.mul_by_non_residue(api, &e6(0)),
                    E6Div => f.div(api, &e6(0), &e6(6)),
                    E6InverseDiv => f.inverse_div(api, &e6(0)),
                    E6Inverse => f.inverse(api, &e6(0)),
                    E6DivBy6 => {
                        let a: [E; 6] = std::array::from_fn(|i| el[i].clone());
                        let [a, b, c, d, e, g] = f.div_e6_by_6(api, &a);
                        GE6 { b0: GE2 { a0: a, a1: b }, b1: GE2 { a0: c, a1: d }, b2: GE2 { a0: e, a1: g } }
                    }
                    E6Select => f.select(api, v[0], &e6(0), &e6(6)),
                    E6IsZero => {
                        let z = f.is_zero(api, &e6(0));
                        o.v(z);
                        f.zero::<C, B>()
                    }
                    _ => {
                        f.assert_isequal(api, &e6(0), &e6(6));
                        f.zero::<C, B>()
                    }
                };
                o.e6(&r);
                f.ext2.curve_f.check_mul(api);
                f.ext2.curve_f.table.final_check(api);
            }
            E12Zero | E12One | E12IsZero | E12Add | E12Sub | E12Conjugate | E12Mul | E12Square | E12CycloSquare | E12Div | E12Inverse | E12Copy | E12Select | E12Mul014
            | E12Mul014By014 | E12Expt | E12NSquare(_) | E12NSquareHint(_) | E12Frobenius | E12FrobeniusSquare | E12FinalExp | E12Eq => {
                let mut f = Ext12::new(api);
                let r = match self.0 {
                    E12Zero => f.zero(),
                    E12One => f.one(),
                    E12Add => f.add(api, &e12(0), &e12(12)),
                    E12Sub => f.sub(api, &e12(0), &e12(12)),
                    E12Conjugate => f.conjugate(api, &e12(0)),
                    E12Mul => f.mul(api, &e12(0), &e12(12)),
                    E12Square => f.square(api, &e12(0)),
                    E12CycloSquare => f.cyclotomic_square(api, &e12(0)),
                    E12Div => f.div(api, &e12(0), &e12(12)),
                    E12Inverse => f.inverse(api, &e12(0)),
                    E12Copy => f.copy(api, &e12(0)),
                    E12Select => f.select(api, v[0], &e12(0), &e12(12)),
                    E12Mul014 => f.mul_by_014(api, &e12(0), &e2(12), &e2(14)),
                    E12Mul014By014 => {
                        for a in f.mul_014_by_014(api, &e2(0), &e2(2), &e2(4), &e2(6)) {
                            o.e2(&a);
                        }
                        f.zero()
                    }
                    E12Expt => f.expt(api, &e12(0)),
                    E12NSquare(n) => f.n_square_gs(api, &e12(0), n),
                    E12NSquareHint(n) => f.n_square_gs_with_hint(api, &e12(0), n),
                    E12Frobenius => f.frobenius(api, &e12(0)),
                    E12FrobeniusSquare => f.frobenius_square(api, &e12(0)),
                    E12IsZero => {
                        let z = f.is_zero(api, &e12(0));
                        o.v(z);
                        f.zero()
                    }
                    E12FinalExp => {
                        f.assert_final_exponentiation_is_one(api, &e12(0));
                        f.zero()
                    }
                    _ => {
                        f.assert_isequal(api, &e12(0), &e12(12));
                        f.zero()
                    }
                };
                o.e12(&r);
                f.ext6.ext2.curve_f.check_mul(api);
                f.ext6.ext2.curve_f.table.final_check(api);
            }
            G1One | G1Add | G1Double | G1DoubleN(_) | G1DoubleAndAdd | G1Phi | G1SeedSquare | G1Copy | G1Eq | G1Windowed(_) | G1ClearCofactor | G1Iso | G1Map | G1MapTo | G1Uncompress => {
                let mut f = G1::new(api);
                let r = match self.0 {
                    G1One => G1Affine::one(api),
                    G1Add => f.add(api, &g1(0), &g1(2)),
                    G1Double => f.double(api, &g1(0)),
                    G1DoubleN(n) => f.double_n(api, &g1(0), n),
                    G1DoubleAndAdd => f.double_and_add(api, &g1(0), &g1(2)),
                    G1Phi => f.phi(api, &g1(0)),
                    G1SeedSquare => f.scalar_mul_by_seed_square(api, &g1(0)),
                    G1Copy => f.copy_g1(api, &g1(0)),
                    G1Windowed(s) => f.mul_windowed(api, &g1(0), BigInt::from(s)),
                    G1ClearCofactor => f.clear_cofactor(api, &g1(0)),
                    G1Iso => f.g1_isogeny(api, &g1(0)),
                    G1Map => f.map_to_curve1(api, &el[0]),
                    G1MapTo => f.map_to_g1(api, &el[0], &el[1]),
                    G1Uncompress => f.uncompressed(api, v),
                    _ => {
                        f.assert_is_equal(api, &g1(0), &g1(2));
                        g1(0)
                    }
                };
                o.g1(&r);
                f.curve_f.check_mul(api);
                f.curve_f.table.final_check(api);
            }
            G2Neg | G2Add | G2Double | G2DoubleN(_) | G2Triple | G2DoubleAndAdd | G2Psi | G2Seed | G2Copy | G2Eq | G2Windowed(_) | G2ClearCofactor | G2Iso | G2Map | G2MapTo | G2Uncompress => {
                let mut f = G2::new(api);
                let r = match self.0 {
                    G2Neg => f.neg(api, &g2(0)),
                    G2Add => f.add(api, &g2(0), &g2(4)),
                    G2Double => f.double(api, &g2(0)),
                    G2DoubleN(n) => f.double_n(api, &g2(0), n),
                    G2Triple => f.triple(api, &g2(0)),
                    G2DoubleAndAdd => f.double_and_add(api, &g2(0), &g2(4)),
                    G2Psi => f.psi(api, &g2(0)),
                    G2Seed => f.scalar_mul_by_seed(api, &g2(0)),
                    G2Copy => f.copy_g2_aff_p(api, &g2(0)),
                    G2Windowed(s) => f.mul_windowed(api, &g2(0), BigInt::from(s)),
                    G2ClearCofactor => f.clear_cofactor(api, &g2(0)),
                    G2Iso => f.isogeny(api, &g2(0)),
                    G2Map => f.map_to_curve2(api, &e2(0)),
                    G2MapTo => f.map_to_g2(api, &e2(0), &e2(2)),
                    G2Uncompress => f.uncompressed(api, v),
                    _ => {
                        f.assert_is_equal(api, &g2(0), &g2(4));
                        g2(0)
                    }
                };
                o.g2(&r);
                f.ext2.curve_f.check_mul(api);
                f.ext2.curve_f.table.final_check(api);
            }
            CurveNeg | CurveOn | CurveGenerator => {
                let mut f = Curve::<Bls12381Fp, Bls12381Fr>::new(api, &CurveParams::get_bls12381_params(), Bls12381Fp {});
                let p = match self.0 {
                    CurveNeg => f.neg(api, &AffinePoint { x: el[0].clone(), y: el[1].clone() }),
                    CurveGenerator => f.generator().clone(),
                    _ => {
                        f.assert_is_on_curve(api, &g1(0));
                        g1(0)
                    }
                };
                o.g1(&p);
                f.base_api.check_mul(api);
                f.base_api.table.final_check(api);
            }
            OnCurve | OnTwist | OnG1 | OnG2 | Pair(_) => {
                let mut f = Pairing::new(api);
                match self.0 {
                    OnCurve => f.assert_is_on_curve(api, g1(0)),
                    OnTwist => f.assert_is_on_twist(api, g2(0)),
                    OnG1 => f.assert_is_on_g1(api, &g1(0)),
                    OnG2 => f.assert_is_on_g2(api, &g2(0)),
                    Pair(n) => {
                        let p: Vec<_> = (0..n).map(|i| g1(i * 6)).collect();
                        let mut q: Vec<_> = (0..n).map(|i| G2Affine { p: g2(i * 6 + 2), lines: LineEvaluations::default() }).collect();
                        f.pairing_check(api, &p, &mut q).unwrap();
                    }
                    _ => unreachable!(),
                }
                for g in [&mut f.curve_f, &mut f.ext12.ext6.ext2.curve_f, &mut f.curve.base_api, &mut f.g1.curve_f, &mut f.g2.ext2.curve_f] {
                    g.check_mul(api);
                    g.table.final_check(api);
                }
            }
        }
        let zero = api.constant(0);
        o.0.iter()
            .flat_map(|l| {
                assert!(l.len() <= W);
                (0..W).map(|i| *l.get(i).unwrap_or(&zero)).collect::<Vec<_>>()
            })
            .collect()
    }
}

// ---- the model ----

fn big(s: &str) -> BigUint {
    match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16).unwrap(),
        None => BigUint::parse_bytes(s.as_bytes(), 10).unwrap(),
    }
}
fn fq(s: &str) -> Fq {
    Fq::from(big(s))
}
fn fi(v: i64) -> Fq {
    let a = Fq::from(v.unsigned_abs());
    if v < 0 {
        -a
    } else {
        a
    }
}
fn val(x: &Fq) -> BigUint {
    big(&x.to_string())
}
fn f2(a: i64, b: i64) -> Fq2 {
    Fq2::new(fi(a), fi(b))
}
fn xi() -> Fq2 {
    f2(1, 1)
}
fn pw<T: AF>(x: &T, e: &BigUint) -> T {
    x.pow(e.to_u64_digits())
}
fn p() -> BigUint {
    modulus().clone()
}
fn order() -> BigUint {
    big("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
}
fn odd(x: &Fq) -> bool {
    (val(x) % 2u32) == BigUint::from(1u32)
}
fn sgn2(x: &Fq2) -> bool {
    odd(&x.c0) || (x.c0.is_zero() && odd(&x.c1))
}
type Pt<T> = Option<(T, T)>;
trait Cv: AF + Copy + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::Neg<Output = Self> {}
impl Cv for Fq {}
impl Cv for Fq2 {}
fn padd<T: Cv>(a: T, x: Pt<T>, y: Pt<T>) -> Pt<T> {
    let (Some((x1, y1)), Some((x2, y2))) = (x, y) else {
        return x.or(y);
    };
    let l = if x1 == x2 {
        if y1 != y2 || y1.is_zero() {
            return None;
        }
        ((x1 * x1) + (x1 * x1) + (x1 * x1) + a) * (y1 + y1).inverse().unwrap()
    } else {
        (y2 - y1) * (x2 - x1).inverse().unwrap()
    };
    let x3 = l * l - x1 - x2;
    Some((x3, l * (x1 - x3) - y1))
}
fn pneg<T: Cv>(x: Pt<T>) -> Pt<T> {
    x.map(|(x, y)| (x, -y))
}
fn pmul<T: Cv>(k: &BigUint, x: Pt<T>) -> Pt<T> {
    let mut r = None;
    let d = k.to_u32_digits();
    for i in (0..k.bits()).rev() {
        r = padd(T::zero(), r, r);
        if d.get(i as usize / 32).map_or(0, |w| w >> (i % 32) & 1) == 1 {
            r = padd(T::zero(), r, x);
        }
    }
    r
}
fn gen1() -> (Fq, Fq) {
    (
        fq("0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
        fq("0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"),
    )
}
fn gen2() -> (Fq2, Fq2) {
    (
        Fq2::new(
            fq("0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
            fq("0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"),
        ),
        Fq2::new(
            fq("0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
            fq("0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be"),
        ),
    )
}
fn psi(q: (Fq2, Fq2)) -> (Fq2, Fq2) {
    let e = (p() - 1u32) / 6u32;
    let c = pw(&xi(), &e).inverse().unwrap();
    let cj = |x: Fq2| Fq2::new(x.c0, -x.c1);
    (cj(q.0) * c * c, cj(q.1) * c * c * c)
}
/// The simplified SWU map of RFC 9380 onto y² = x³ + ax + b.
fn sswu<T: Cv>(u: T, a: T, b: T, z: T, sgn: impl Fn(&T) -> bool) -> (T, T) {
    let g = |x: T| x * x * x + a * x + b;
    let t = z * u * u;
    let d = t * t + t;
    let x1 = match d.inverse() {
        Some(i) => -b * a.inverse().unwrap() * (T::one() + i),
        None => b * (z * a).inverse().unwrap(),
    };
    let (x, y) = match g(x1).sqrt() {
        Some(y) => (x1, y),
        None => {
            let x2 = t * x1;
            (x2, g(x2).sqrt().expect("neither value is a square"))
        }
    };
    (x, if sgn(&y) == sgn(&u) { y } else { -y })
}
fn iso1() -> (Fq, Fq, Fq) {
    (
        fq("0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d"),
        fq("0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0"),
        fi(11),
    )
}
fn iso2() -> (Fq2, Fq2, Fq2) {
    (f2(0, 240), f2(1012, 1012), f2(-2, -1))
}

enum Want {
    /// The values put out, modulo p.
    Is(Vec<Fq>),
    /// The statement is false, or there is no result.
    No,
    /// Nothing is promised.
    Open,
}
fn model(o: Op, x: &[Fq], v: &[u64]) -> Want {
    use Want::*;
    let e2 = |i: usize| Fq2::new(x[i], x[i + 1]);
    let e6 = |i: usize| Fq6::new(e2(i), e2(i + 2), e2(i + 4));
    let e12 = |i: usize| Fq12::new(e6(i), e6(i + 6));
    let g1 = |i: usize| Some((x[i], x[i + 1]));
    let g2 = |i: usize| Some((e2(i), e2(i + 2)));
    let r2 = |a: Fq2| Is(vec![a.c0, a.c1]);
    let l6 = |a: Fq6| vec![a.c0.c0, a.c0.c1, a.c1.c0, a.c1.c1, a.c2.c0, a.c2.c1];
    let r6 = |a: Fq6| Is(l6(a));
    let r12 = |a: Fq12| Is([l6(a.c0), l6(a.c1)].concat());
    let rg1 = |a: Pt<Fq>| a.map_or(No, |(x, y)| Is(vec![x, y]));
    let rg2 = |a: Pt<Fq2>| a.map_or(No, |(x, y)| Is(vec![x.c0, x.c1, y.c0, y.c1]));
    let z2 = Fq2::zero();
    let flag = |b: bool, k: usize| Is([vec![fi(b as i64)], vec![Fq::zero(); k]].concat());
    let cond = |b: bool, w: Want| if b { w } else { No };
    let cyclo = |a: Fq12| {
        let f = |a: &Fq12| pw(a, &(p() * p()));
        !a.is_zero() && f(&f(&a)) * a == f(&a)
    };
    match o {
        E2Zero => r2(z2),
        E2One => r2(f2(1, 0)),
        E2NonResidue => r2(xi()),
        E2IsZero => flag(e2(0).is_zero(), 2),
        E2Sign => flag(sgn2(&e2(0)), 2),
        E2Add => r2(e2(0) + e2(2)),
        E2Sub => r2(e2(0) - e2(2)),
        E2Double => r2(e2(0) + e2(0)),
        E2Neg => r2(-e2(0)),
        E2Mul => r2(e2(0) * e2(2)),
        E2MulElement => r2(Fq2::new(x[0] * x[2], x[1] * x[2])),
        E2MulConst(c) => r2(Fq2::new(x[0] * fi(c), x[1] * fi(c))),
        E2MulXi => r2(e2(0) * xi()),
        E2Square => r2(e2(0) * e2(0)),
        E2Div => match e2(2).inverse() {
            Some(i) => r2(e2(0) * i),
            None if e2(0).is_zero() => Open,
            None => No,
        },
        E2InverseDiv | E2Inverse => e2(0).inverse().map_or(No, r2),
        E2Select => r2(if v[0] == 1 { e2(0) } else { e2(2) }),
        E2Conjugate => r2(Fq2::new(x[0], -x[1])),
        E2Frob(k, n) => {
            let e = (if k == 1 { p() - 1u32 } else { p() * p() - 1u32 }) / 6u32 * n as u32;
            r2(e2(0) * pw(&xi(), &e))
        }
        E2Copy => r2(e2(0)),
        E2Eq => cond(e2(0) == e2(2), r2(z2)),
        E6Zero => r6(Fq6::zero()),
        E6One => r6(Fq6::one()),
        E6IsZero => flag(e6(0).is_zero(), 6),
        E6Add => r6(e6(0) + e6(6)),
        E6Sub => r6(e6(0) - e6(6)),
        E6Neg => r6(-e6(0)),
        E6Double => r6(e6(0) + e6(0)),
        E6Square => r6(e6(0) * e6(0)),
        E6Mul | E6Karatsuba => r6(e6(0) * e6(6)),
        E6MulE2 | E6Mul0 => r6(e6(0) * Fq6::new(e2(6), z2, z2)),
        E6Mul12 => r6(e6(0) * Fq6::new(z2, e2(6), e2(8))),
        E6Mul01 => r6(e6(0) * Fq6::new(e2(6), e2(8), z2)),
        E6MulV => r6(e6(0) * Fq6::new(z2, f2(1, 0), z2)),
        E6Div => match e6(6).inverse() {
            Some(i) => r6(e6(0) * i),
            None if e6(0).is_zero() => Open,
            None => No,
        },
        E6InverseDiv | E6Inverse => e6(0).inverse().map_or(No, r6),
        E6DivBy6 => {
            let i = fi(6).inverse().unwrap();
            Is(x.iter().map(|a| *a * i).collect())
        }
        E6Select => r6(if v[0] == 1 { e6(0) } else { e6(6) }),
        E6Eq => cond(e6(0) == e6(6), r6(Fq6::zero())),
        E12Zero => r12(Fq12::zero()),
        E12One => r12(Fq12::one()),
        E12IsZero => flag(e12(0).is_zero(), 12),
        E12Add => r12(e12(0) + e12(12)),
        E12Sub => r12(e12(0) - e12(12)),
        E12Conjugate => r12(Fq12::new(e6(0), -e6(6))),
        E12Mul => r12(e12(0) * e12(12)),
        E12Square => r12(e12(0) * e12(0)),
        E12CycloSquare | E12NSquare(_) | E12NSquareHint(_) | E12Expt if !cyclo(e12(0)) => Open,
        E12CycloSquare => r12(e12(0) * e12(0)),
        E12NSquare(n) | E12NSquareHint(n) => r12(pw(&e12(0), &(BigUint::from(1u32) << n))),
        E12Expt => r12(pw(&e12(0), &BigUint::from(SEED))),
        E12Div => match e12(12).inverse() {
            Some(i) => r12(e12(0) * i),
            None if e12(0).is_zero() => Open,
            None => No,
        },
        E12Inverse => e12(0).inverse().map_or(No, r12),
        E12Copy => r12(e12(0)),
        E12Select => r12(if v[0] == 1 { e12(0) } else { e12(12) }),
        E12Mul014 => r12(e12(0) * line(e2(12), e2(14))),
        E12Mul014By014 => {
            let r = line(e2(0), e2(2)) * line(e2(4), e2(6));
            assert!(r.c1.c0.is_zero());
            let mut l = l6(r.c0);
            l.extend([r.c1.c1.c0, r.c1.c1.c1, r.c1.c2.c0, r.c1.c2.c1]);
            l.extend(vec![Fq::zero(); 12]);
            Is(l)
        }
        E12Frobenius => r12(pw(&e12(0), &p())),
        E12FrobeniusSquare => r12(pw(&e12(0), &(p() * p()))),
        E12FinalExp => {
            if !e12(0).is_zero() && !cyclo(e12(0)) {
                return Open;
            }
            let p2 = p() * p();
            cond(pw(&e12(0), &((&p2 * &p2 - &p2 + 1u32) / order())).is_one(), r12(Fq12::zero()))
        }
        E12Eq => cond(e12(0) == e12(12), r12(Fq12::zero())),
        G1One | CurveGenerator => rg1(Some(gen1())),
        G1Add => match (g1(0), g1(2)) {
            (a, b) if a == b => Open,
            (a, b) => rg1(padd(Fq::zero(), a, b)),
        },
        G1Double => rg1(padd(Fq::zero(), g1(0), g1(0))),
        G1DoubleN(n) => rg1(pmul(&(BigUint::from(1u32) << n), g1(0))),
        G1DoubleAndAdd => dbladd(g1(0), g1(2)).map_or(Open, rg1),
        G1Phi => Is(vec![x[0] * omega(), x[1]]),
        G1SeedSquare => small(g1(0)).unwrap_or_else(|| rg1(pmul(&(BigUint::from(SEED) * BigUint::from(SEED)), g1(0)))),
        G1Copy => rg1(g1(0)),
        G1Eq => cond(g1(0) == g1(2), rg1(g1(0))),
        G1Windowed(s) => small(g1(0)).unwrap_or_else(|| rg1(pmul(&BigUint::from(s), g1(0)))),
        G1ClearCofactor => small(g1(0)).unwrap_or_else(|| rg1(pmul(&(BigUint::from(SEED) + 1u32), g1(0)))),
        G1Iso | G2Iso | G1MapTo | G2MapTo => Open,
        G1Map => {
            let (a, b, z) = iso1();
            rg1(Some(sswu(x[0], a, b, z, odd)))
        }
        G1Uncompress => {
            let mut c = v.to_vec();
            let flag = c[0] & 0xe0;
            c[0] &= 0x1f;
            let xv = bytes(&c);
            if xv >= p() || (flag != 0x80 && flag != 0xa0) {
                return Open;
            }
            let x = Fq::from(xv);
            match (x * x * x + fi(4)).sqrt() {
                None => No,
                Some(y) => {
                    let large = val(&y) > p() / 2u32;
                    rg1(Some((x, if large == (flag == 0xa0) { y } else { -y })))
                }
            }
        }
        G2Neg => rg2(pneg(g2(0))),
        G2Add => match (g2(0), g2(4)) {
            (a, b) if a == b => Open,
            (a, b) => rg2(padd(z2, a, b)),
        },
        G2Double => rg2(padd(z2, g2(0), g2(0))),
        G2DoubleN(n) => rg2(pmul(&(BigUint::from(1u32) << n), g2(0))),
        G2Triple => small(g2(0)).unwrap_or_else(|| rg2(pmul(&BigUint::from(3u32), g2(0)))),
        G2DoubleAndAdd => dbladd(g2(0), g2(4)).map_or(Open, rg2),
        G2Psi => rg2(Some(psi((e2(0), e2(2))))),
        G2Seed => small(g2(0)).unwrap_or_else(|| rg2(pneg(pmul(&BigUint::from(SEED), g2(0))))),
        G2Copy => rg2(g2(0)),
        G2Eq => cond(g2(0) == g2(4), rg2(g2(0))),
        G2Windowed(s) => small(g2(0)).unwrap_or_else(|| rg2(pmul(&BigUint::from(s), g2(0)))),
        G2ClearCofactor => small(g2(0)).unwrap_or_else(|| rg2(clear2(g2(0)))),
        G2Map => {
            let (a, b, z) = iso2();
            rg2(Some(sswu(e2(0), a, b, z, sgn2)))
        }
        G2Uncompress => {
            let mut c = v.to_vec();
            let flag = c[0] & 0xe0;
            c[0] &= 0x1f;
            let (hi, lo) = (bytes(&c[..48]), bytes(&c[48..]));
            if hi >= p() || lo >= p() || (flag != 0x80 && flag != 0xa0) {
                return Open;
            }
            let x = Fq2::new(Fq::from(lo), Fq::from(hi));
            match (x * x * x + f2(4, 4)).sqrt() {
                None => No,
                Some(y) => {
                    let h = p() / 2u32;
                    let large = if y.c1.is_zero() { val(&y.c0) > h } else { val(&y.c1) > h };
                    rg2(Some((x, if large == (flag == 0xa0) { y } else { -y })))
                }
            }
        }
        CurveNeg => rg1(pneg(g1(0))),
        CurveOn => cond(on1(g1(0)) || x.iter().all(|a| a.is_zero()), rg1(g1(0))),
        OnCurve => cond(on1(g1(0)) || x.iter().all(|a| a.is_zero()), Is(vec![])),
        OnTwist => cond(on2(g2(0)) || x.iter().all(|a| a.is_zero()), Is(vec![])),
        OnG1 => {
            if small(g1(0)).is_some() {
                return Open;
            }
            cond(on1(g1(0)) && pmul(&order(), g1(0)).is_none(), Is(vec![]))
        }
        OnG2 => {
            if small(g2(0)).is_some() {
                return Open;
            }
            cond(on2(g2(0)) && pmul(&order(), g2(0)).is_none(), Is(vec![]))
        }
        Pair(_) => Open,
    }
}
fn line(c0: Fq2, c1: Fq2) -> Fq12 {
    let z = Fq2::zero();
    Fq12::new(Fq6::new(c0, c1, z), Fq6::new(z, f2(1, 0), z))
}
fn omega() -> Fq {
    // the cube root of unity through which phi acts on the subgroup as -x²
    let w = fq("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436");
    assert!(w * w + w + fi(1) == Fq::zero());
    w
}
fn on1(a: Pt<Fq>) -> bool {
    let (x, y) = a.unwrap();
    y * y == x * x * x + fi(4)
}
fn on2(a: Pt<Fq2>) -> bool {
    let (x, y) = a.unwrap();
    y * y == x * x * x + f2(4, 4)
}
/// Incomplete addition promises nothing about points of tiny order.
fn small<T: Cv>(a: Pt<T>) -> Option<Want> {
    (1..=9u32).any(|k| pmul(&BigUint::from(k), a).is_none()).then_some(Want::Open)
}
fn dbladd<T: Cv>(a: Pt<T>, b: Pt<T>) -> Option<Pt<T>> {
    let s = padd(T::zero(), a, b);
    (a != b && s.is_some() && s != a && s != pneg(a) && s.unwrap().0 != a.unwrap().0).then(|| padd(T::zero(), s, a))
}
fn clear2(a: Pt<Fq2>) -> Pt<Fq2> {
    let s = BigUint::from(SEED);
    let z = Fq2::zero();
    let add = |a, b| padd(z, a, b);
    let ps = |a: Pt<Fq2>| a.map(psi);
    // x = -seed: [x² - x - 1]P + [x - 1]psi(P) + psi²(2P)
    let r = pmul(&(&s * &s + &s - 1u32), a);
    let r = add(r, pneg(pmul(&(&s + 1u32), ps(a))));
    add(r, ps(ps(add(a, a))))
}
fn bytes(b: &[u64]) -> BigUint {
    b.iter().fold(BigUint::from(0u32), |a, x| (a << 8usize) + *x)
}

// ---- checking ----

fn feed(x: &[Fq], v: &[u64]) -> Vec<M> {
    let mut r: Vec<M> = x.iter().flat_map(|a| to_limbs(&BigInt::from(val(a)), 48)).collect();
    r.extend(v.iter().map(|s| fe::<C>(*s as u128)));
    r
}
fn values(o: &[M]) -> Vec<Fq> {
    o.chunks(W).map(|c| Fq::from(of_limbs(c).to_biguint().unwrap())).collect()
}
fn show(x: &[Fq]) -> Vec<String> {
    x.iter().map(|a| val(a).to_string()).collect()
}
fn judge(how: &str, o: Op, x: &[Fq], v: &[u64], w: &Want, got: &Res<C>) -> bool {
    let why = match (w, got) {
        (Want::Open, _) => {
            count("nothing promised", 1);
            return true;
        }
        (Want::No, Ok(_)) => "is accepted though it does not hold",
        (Want::Is(_), Err(_)) => "is turned down though it holds",
        (Want::Is(r), Ok(g)) if values(g) != *r => "gives another value than the curve's arithmetic",
        (Want::No, _) => {
            count("turned down", 1);
            return true;
        }
        _ => {
            count("holds", 1);
            return true;
        }
    };
    violation(
        &format!("{how} {o:?}"),
        &format!("BLS12-381 {o:?} ({how}) {why}"),
        json!({"operation": format!("{o:?}"), "inputs": show(x), "variables": v, "got": got.as_ref().map(|g| show(&values(g))),
            "expected": match w { Want::Is(r) => json!(show(r)), _ => json!("turned down") }}),
    );
    false
}
fn direct(o: Op, x: &[Fq], v: &[u64]) -> Res<C> {
    rt::states(1);
    distinct(&(o, x, v));
    generic();
    debug::<C, _, _>(&Bl(o), &feed(x, v), hints())
}
fn run(o: Op, x: &[Fq], v: &[u64]) {
    let got = direct(o, x, v);
    judge("direct", o, x, v, &model(o, x, v), &got);
}
/// A fixed, irregular element.
fn dense(seed: u64) -> Fq {
    let mut x = fi(seed as i64 + 3);
    for i in 0..9 {
        x = x * x + fi(i * 7 + seed as i64 + 1);
    }
    x
}
fn dense2(s: u64) -> Fq2 {
    Fq2::new(dense(2 * s), dense(2 * s + 1))
}
fn dense6(s: u64) -> Vec<Fq> {
    (0..6).map(|i| dense(s * 31 + i)).collect()
}
fn dense12(s: u64) -> Vec<Fq> {
    (0..12).map(|i| dense(s * 57 + i)).collect()
}
fn half() -> Fq {
    Fq::from((p() - 1u32) / 2u32)
}
fn e2_corners() -> Vec<Fq2> {
    let m = -fi(1);
    vec![
        f2(0, 0),
        f2(1, 0),
        f2(0, 1),
        f2(-1, 0),
        f2(0, -1),
        f2(1, 1),
        Fq2::new(m, m),
        f2(1, -1),
        f2(2, 255),
        Fq2::new(half(), half() + fi(1)),
        Fq2::new(Fq::from(BigUint::from(1u32) << 380usize), fi(256)),
        dense2(1),
        dense2(2),
    ]
}
fn flat2(a: &Fq2) -> [Fq; 2] {
    [a.c0, a.c1]
}
fn tower2() {
    let c = e2_corners();
    let n = c.len();
    let un: Vec<Op> = [E2Zero, E2One, E2NonResidue, E2IsZero, E2Sign, E2Double, E2Neg, E2MulXi, E2Square, E2InverseDiv, E2Inverse, E2Conjugate, E2Copy]
        .into_iter()
        .chain([0i64, 1, 2, 3, 12, -1, -5, 255].map(E2MulConst))
        .chain((1..=2).flat_map(|k| (1..=5).map(move |n| E2Frob(k, n))))
        .collect();
    par(n * un.len(), |i| {
        let x = flat2(&c[i % n]);
        let o = un[i / n];
        run(o, &x[..arity(o).0], &[]);
    });
    par(n * n, |i| {
        let x = [flat2(&c[i % n]), flat2(&c[i / n])].concat();
        for o in [E2Add, E2Sub, E2Mul, E2Div, E2Eq] {
            run(o, &x, &[]);
        }
        run(E2MulElement, &x[..3], &[]);
        run(E2Select, &x, &[0]);
        run(E2Select, &x, &[1]);
    });
}
/// Unit vectors (a bilinear map is known from them) and dense elements.
fn vectors(n: usize, k: u64) -> Vec<Vec<Fq>> {
    let mut v: Vec<Vec<Fq>> = (0..n).map(|i| (0..n).map(|j| fi((i == j) as i64)).collect()).collect();
    for s in 0..k {
        v.push((0..n).map(|i| dense(s * 41 + i as u64)).collect());
    }
    v.push((0..n).map(|_| -fi(1)).collect());
    v
}
/// All sums of two unit vectors: with the units, what a quadratic map is known from.
fn pairs_of_units(n: usize) -> Vec<Vec<Fq>> {
    let mut v = vec![];
    for i in 0..n {
        for j in i..n {
            v.push((0..n).map(|k| fi((k == i) as i64 + (k == j) as i64)).collect());
        }
    }
    v
}
fn bilinear(ops: &[Op], na: usize, nb: usize, k: u64) {
    let (a, b) = (vectors(na, k), vectors(nb, k));
    par(a.len() * b.len(), |i| {
        let x = [a[i % a.len()].clone(), b[i / a.len()].clone()].concat();
        for o in ops {
            run(*o, &x, &[]);
        }
    });
}
fn unary(ops: &[Op], xs: &[Vec<Fq>]) {
    par(ops.len() * xs.len(), |i| {
        let o = ops[i % ops.len()];
        run(o, &xs[i / ops.len()][..arity(o).0], &[]);
    });
}
fn zeros(n: usize) -> Vec<Fq> {
    vec![Fq::zero(); n]
}
/// Equality is told apart in every coordinate, selection and tests for zero likewise.
fn coordinates(n: usize, eq: Op, sel: Op, zero: Op, div: Op) {
    let a = if n == 6 { dense6(3) } else { dense12(3) };
    let b = if n == 6 { dense6(4) } else { dense12(4) };
    par(n + 1, |i| {
        let mut c = a.clone();
        let mut u = zeros(n);
        if i < n {
            c[i] = c[i] + fi(1);
            u[i] = -fi(1);
        }
        run(eq, &[a.clone(), c.clone()].concat(), &[]);
        run(eq, &[u.clone(), zeros(n)].concat(), &[]);
        run(sel, &[c.clone(), b.clone()].concat(), &[i as u64 % 2]);
        run(sel, &[c.clone(), b.clone()].concat(), &[(i as u64 + 1) % 2]);
        run(zero, &u, &[]);
        run(div, &[u.clone(), zeros(n)].concat(), &[]);
        run(div, &[zeros(n), c].concat(), &[]);
    });
}
fn cyclotomic(s: u64) -> Vec<Fq> {
    let d = dense12(s);
    let e = |i: usize| Fq2::new(d[i], d[i + 1]);
    let f = Fq12::new(Fq6::new(e(0), e(2), e(4)), Fq6::new(e(6), e(8), e(10)));
    easy(f)
}
fn easy(f: Fq12) -> Vec<Fq> {
    let g = Fq12::new(f.c0, -f.c1) * f.inverse().unwrap();
    let h = pw(&g, &(p() * p())) * g;
    flat12(&h)
}
fn flat6(a: &Fq6) -> Vec<Fq> {
    vec![a.c0.c0, a.c0.c1, a.c1.c0, a.c1.c1, a.c2.c0, a.c2.c1]
}
fn flat12(a: &Fq12) -> Vec<Fq> {
    [flat6(&a.c0), flat6(&a.c1)].concat()
}
fn of12(x: &[Fq]) -> Fq12 {
    let e = |i: usize| Fq2::new(x[i], x[i + 1]);
    Fq12::new(Fq6::new(e(0), e(2), e(4)), Fq6::new(e(6), e(8), e(10)))
}

// ---- points ----

type P1 = (Fq, Fq);
type P2 = (Fq2, Fq2);
fn f1(a: &P1) -> Vec<Fq> {
    vec![a.0, a.1]
}
fn fl2(a: &P2) -> Vec<Fq> {
    vec![a.0.c0, a.0.c1, a.1.c0, a.1.c1]
}
fn k1(k: u64) -> P1 {
    pmul(&BigUint::from(k), Some(gen1())).unwrap()
}
fn k2(k: u64) -> P2 {
    pmul(&BigUint::from(k), Some(gen2())).unwrap()
}
fn neg1(a: P1) -> P1 {
    (a.0, -a.1)
}
fn neg2(a: P2) -> P2 {
    (a.0, -a.1)
}
/// Points of the whole curve, as the x coordinate counts up.
fn curve1(n: usize) -> Vec<P1> {
    (1..).filter_map(|x| { let x = fi(x); (x * x * x + fi(4)).sqrt().map(|y| (x, y)) }).take(n).collect()
}
fn curve2(n: usize) -> Vec<P2> {
    (1..).filter_map(|x| { let x = f2(x, x % 3); (x * x * x + f2(4, 4)).sqrt().map(|y| (x, y)) }).take(n).collect()
}
fn g1_points() -> Vec<P1> {
    let mut v = vec![k1(1), k1(2), k1(3), neg1(k1(1)), neg1(k1(3)), k1(0xdead_beef_1234_5677)];
    v.extend(curve1(2));
    // of order three
    v.push((fi(0), fi(2)));
    v
}
fn g2_points() -> Vec<P2> {
    let mut v = vec![k2(1), k2(2), k2(3), neg2(k2(1)), neg2(k2(3)), k2(0xdead_beef_1234_5677)];
    v.extend(curve2(2));
    v
}
fn off1() -> Vec<P1> {
    let g = gen1();
    vec![(fi(1), fi(1)), (g.0, g.1 + fi(1)), (g.0 + fi(1), g.1), (fi(0), fi(0)), (fi(0), fi(-3)), (fi(3), fi(0))]
}
fn off2() -> Vec<P2> {
    let g = gen2();
    let o = f2(0, 1);
    vec![(f2(1, 0), f2(1, 0)), (g.0, g.1 + o), (g.0 + o, g.1), (g.0, g.1 + f2(1, 0)), (f2(0, 0), f2(0, 0)), (f2(0, 0), f2(0, 3)), (f2(0, 1), f2(0, 0))]
}
fn group1() {
    let c = g1_points();
    let all: Vec<Vec<Fq>> = c.iter().chain(off1().iter()).map(f1).collect();
    unary(&[G1One, CurveGenerator, G1Phi, G1Copy, CurveNeg, CurveOn, OnCurve], &all);
    unary(&[G1Double, G1DoubleN(0), G1DoubleN(1), G1DoubleN(2), G1DoubleN(5)], &c.iter().map(f1).collect::<Vec<_>>());
    par(c.len() * c.len(), |i| {
        let x = [f1(&c[i % c.len()]), f1(&c[i / c.len()])].concat();
        for o in [G1Add, G1DoubleAndAdd, G1Eq] {
            run(o, &x, &[]);
        }
    });
}
fn group2() {
    let c = g2_points();
    let all: Vec<Vec<Fq>> = c.iter().chain(off2().iter()).map(fl2).collect();
    unary(&[G2Neg, G2Copy, OnTwist, G2Psi], &all);
    unary(&[G2Double, G2DoubleN(0), G2DoubleN(1), G2DoubleN(2), G2DoubleN(5), G2Triple], &c.iter().map(fl2).collect::<Vec<_>>());
    par(c.len() * c.len(), |i| {
        let x = [fl2(&c[i % c.len()]), fl2(&c[i / c.len()])].concat();
        for o in [G2Add, G2DoubleAndAdd, G2Eq] {
            run(o, &x, &[]);
        }
    });
}
fn scalars1(th: bool) {
    let c: Vec<Vec<Fq>> = g1_points().iter().skip(if th { 0 } else { 5 }).map(f1).collect();
    unary(&[G1SeedSquare, G1ClearCofactor, G1Windowed(SEED), G1Windowed(0xd2), G1Windowed(0xd2e4), G1Windowed(0xd21b_ffff), G1Windowed(0xd2ff_0180_4020_1008)], &c);
}
fn scalars2(th: bool) {
    let c: Vec<Vec<Fq>> = g2_points().iter().skip(if th { 0 } else { 5 }).map(fl2).collect();
    unary(&[G2Seed, G2ClearCofactor, G2Windowed(SEED), G2Windowed(0xd2), G2Windowed(0xd2e4), G2Windowed(0xd21b_ffff), G2Windowed(0xd2ff_0180_4020_1008)], &c);
}
fn subgroups(th: bool) {
    let mut a: Vec<Vec<Fq>> = [k1(1), k1(0xdead_beef)].iter().map(f1).collect();
    a.extend(curve1(if th { 5 } else { 2 }).iter().map(f1));
    a.extend(off1().iter().take(if th { 9 } else { 2 }).map(f1));
    let mut b: Vec<Vec<Fq>> = [k2(1), k2(0xdead_beef)].iter().map(fl2).collect();
    b.extend(curve2(if th { 5 } else { 2 }).iter().map(fl2));
    b.extend(off2().iter().take(if th { 9 } else { 2 }).map(fl2));
    unary(&[OnG1], &a);
    unary(&[OnG2], &b);
}

// ---- hashing to the curves ----

fn u1() -> Vec<Fq> {
    let (_, _, z) = iso1();
    let mut v = vec![fi(0), fi(1), fi(-1), fi(2), half(), half() + fi(1), dense(5), dense(6), dense(7), dense(8)];
    if let Some(e) = (-z.inverse().unwrap()).sqrt() {
        v.extend([e, -e]);
    }
    v
}
fn u2() -> Vec<Fq2> {
    let (_, _, z) = iso2();
    let mut v = vec![f2(0, 0), f2(1, 0), f2(0, 1), f2(0, -1), f2(-1, 0), f2(0, 2), Fq2::new(half(), fi(0)), Fq2::new(fi(0), half()), dense2(5), dense2(6), dense2(7), dense2(8)];
    if let Some(e) = (-z.inverse().unwrap()).sqrt() {
        v.extend([e, -e]);
    }
    v
}
/// The isogeny leads to the curve, respects addition and negation, and takes one point of the
/// other curve to where the standard says.
fn iso<T: Cv + std::fmt::Debug + Send + Sync>(o: Op, pts: &[(T, T)], a: T, b: T, flat: fn(&(T, T)) -> Vec<Fq>, back: fn(&[Fq]) -> (T, T)) {
    let img = |x: &(T, T)| -> Option<(T, T)> {
        match direct(o, &flat(x), &[]) {
            Ok(r) => Some(back(&values(&r))),
            Err(e) => {
                violation(&format!("{o:?} refused"), &format!("{o:?} turns down a point of the curve"), json!({"point": show(&flat(x)), "error": e}));
                None
            }
        }
    };
    par(pts.len() * pts.len(), |i| {
        let (x, y) = (pts[i % pts.len()], pts[i / pts.len()]);
        if i % pts.len() > i / pts.len() {
            return;
        }
        let Some(s) = padd(a, Some(x), Some(y)) else { return };
        let (Some(ix), Some(iy), Some(is)) = (img(&x), img(&y), img(&s)) else { return };
        let on = |q: &(T, T)| q.1 * q.1 == q.0 * q.0 * q.0 + b;
        count("isogeny triples", 1);
        if ![ix, iy, is].iter().all(on) || padd(T::zero(), Some(ix), Some(iy)) != Some(is) {
            violation(
                &format!("{o:?} homomorphism"),
                &format!("{o:?} is no homomorphism onto the curve"),
                json!({"p": show(&flat(&x)), "q": show(&flat(&y)), "images": [show(&flat(&ix)), show(&flat(&iy)), show(&flat(&is))]}),
            );
        }
    });
}
fn back1(x: &[Fq]) -> P1 {
    (x[0], x[1])
}
fn back2(x: &[Fq]) -> P2 {
    (Fq2::new(x[0], x[1]), Fq2::new(x[2], x[3]))
}
fn mapped1(x: &[Fq]) -> Option<Vec<Fq>> {
    let (a, b, z) = iso1();
    let s = padd(a, Some(sswu(x[0], a, b, z, odd)), Some(sswu(x[1], a, b, z, odd)))?;
    let i = values(&direct(G1Iso, &f1(&s), &[]).ok()?);
    pmul(&(BigUint::from(SEED) + 1u32), Some(back1(&i))).map(|p| f1(&p))
}
fn mapped2(x: &[Fq]) -> Option<Vec<Fq>> {
    let (a, b, z) = iso2();
    let e = |i: usize| Fq2::new(x[i], x[i + 1]);
    let s = padd(a, Some(sswu(e(0), a, b, z, sgn2)), Some(sswu(e(2), a, b, z, sgn2)))?;
    let i = values(&direct(G2Iso, &fl2(&s), &[]).ok()?);
    clear2(Some(back2(&i))).map(|p| fl2(&p))
}
fn mapping(th: bool) {
    let (a, b) = (u1(), u2());
    par(a.len() + b.len(), |i| match a.get(i) {
        Some(u) => run(G1Map, &[*u], &[]),
        None => run(G2Map, &flat2(&b[i - a.len()]), &[]),
    });
    let (i1, i2) = (iso1(), iso2());
    let n = if th { 6 } else { 3 };
    let pts: Vec<P1> = a.iter().skip(4).take(n).map(|u| sswu(*u, i1.0, i1.1, i1.2, odd)).collect();
    iso(G1Iso, &pts, i1.0, fi(4), f1, back1);
    let pts: Vec<P2> = b.iter().skip(6).take(n).map(|u| sswu(*u, i2.0, i2.1, i2.2, sgn2)).collect();
    iso(G2Iso, &pts, i2.0, f2(4, 4), fl2, back2);
    let m = if th { 6 } else { 1 };
    par(2 * m, |i| {
        let k = i / 2;
        let (o, x) = if i % 2 == 0 {
            (G1MapTo, vec![a[(k + 6) % a.len()], a[(k * 3 + 7) % a.len()]])
        } else {
            (G2MapTo, [flat2(&b[(k + 8) % b.len()]), flat2(&b[(k * 3 + 9) % b.len()])].concat())
        };
        let w = if i % 2 == 0 { mapped1(&x) } else { mapped2(&x) };
        let got = direct(o, &x, &[]);
        judge("direct", o, &x, &[], &w.map_or(Want::No, Want::Is), &got);
    });
}
fn published() {
    let h = fq;
    // RFC 9380, J.9.1 and J.10.1, empty message
    let v: Vec<(Op, Vec<Fq>, Vec<Fq>)> = vec![
        (
            G1MapTo,
            vec![
                h("0x0ba14bd907ad64a016293ee7c2d276b8eae71f25a4b941eece7b0d89f17f75cb3ae5438a614fb61d6835ad59f29c564f"),
                h("0x019b9bd7979f12657976de2884c7cce192b82c177c80e0ec604436a7f538d231552f0d96d9f7babe5fa3b19b3ff25ac9"),
            ],
            vec![
                h("0x052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1"),
                h("0x08ba738453bfed09cb546dbb0783dbb3a5f1f566ed67bb6be0e8c67e2e81a4cc68ee29813bb7994998f3eae0c9c6a265"),
            ],
        ),
        (
            G2MapTo,
            vec![
                h("0x03dbc2cce174e91ba93cbb08f26b917f98194a2ea08d1cce75b2b9cc9f21689d80bd79b594a613d0a68eb807dfdc1cf8"),
                h("0x05a2acec64114845711a54199ea339abd125ba38253b70a92c876df10598bd1986b739cad67961eb94f7076511b3b39a"),
                h("0x02f99798e8a5acdeed60d7e18e9120521ba1f47ec090984662846bc825de191b5b7641148c0dbc237726a334473eee94"),
                h("0x145a81e418d4010cc027a68f14391b30074e89e60ee7a22f87217b2f6eb0c4b94c9115b436e6fa4607e95a98de30a435"),
            ],
            vec![
                h("0x0141ebfbdca40eb85b87142e130ab689c673cf60f1a3e98d69335266f30d9b8d4ac44c1038e9dcdd5393faf5c41fb78a"),
                h("0x05cb8437535e20ecffaef7752baddf98034139c38452458baeefab379ba13dff5bf5dd71b72418717047f5b0f37da03d"),
                h("0x0503921d7f6a12805e72940b963c0cf3471c7b2a524950ca195d11062ee75ec076daf2d4bc358c4b190c0c98064fdd92"),
                h("0x12424ac32561493f3fe3c260708a12b7c620e7be00099a974e259ddc7d1f6395c3c811cdd19f1e8dbf3e9ecfdcbab8d6"),
            ],
        ),
    ];
    par(v.len(), |i| {
        let (o, x, w) = &v[i];
        let got = direct(*o, x, &[]);
        judge("published vector", *o, x, &[], &Want::Is(w.clone()), &got);
    });
}
fn be(x: &Fq) -> Vec<u64> {
    let b = val(x).to_bytes_be();
    let mut r = vec![0; 48 - b.len()];
    r.extend(b.iter().map(|v| *v as u64));
    r
}
fn uncompress() {
    let mut xs: Vec<Fq> = (0..9).map(fi).collect();
    xs.extend([k1(1).0, k1(2).0, fi(-1), fi(-2), fi(-3), half(), dense(1)]);
    let ys: Vec<Fq2> = vec![k2(1).0, k2(2).0, f2(0, 0), f2(1, 0), f2(0, 1), f2(2, 0), f2(-1, 0), f2(2, 1), f2(-1, -1), f2(3, 1), f2(1, 2), dense2(1), dense2(3), real_root()];
    par(xs.len() + ys.len(), |i| {
        for flag in [0x80, 0xa0] {
            if let Some(x) = xs.get(i) {
                let mut b = be(x);
                b[0] |= flag;
                run(G1Uncompress, &[], &b);
            } else {
                let x = &ys[i - xs.len()];
                let mut b = [be(&x.c1), be(&x.c0)].concat();
                b[0] |= flag;
                run(G2Uncompress, &[], &b);
            }
        }
    });
}
/// A point of the twist whose y has no imaginary part: x³ = y² - 4 - 4u.
fn real_root() -> Fq2 {
    for y in 1.. {
        let c = f2(y * y - 4, -4);
        // cube roots in a field with p² = 1 mod 3: try c^((2k+1)/3)-like exponents through the order without threes
        let mut m = p() * p() - 1u32;
        let mut threes = 0;
        while (&m % 3u32) == BigUint::from(0u32) {
            m /= 3u32;
            threes += 1;
        }
        // d = 1/3 mod m
        let d = if (&m % 3u32) == BigUint::from(1u32) { (&m * 2u32 + 1u32) / 3u32 } else { (&m + 1u32) / 3u32 };
        let mut r = pw(&c, &d);
        // r³ = c up to a root of unity of order 3^threes
        let g = pw(&dense2(9), &m);
        for _ in 0..3u32.pow(threes) {
            if r * r * r == c {
                return r;
            }
            r = r * g;
        }
    }
    unreachable!()
}

// ---- pairing ----

fn pair(ks: &[(u64, bool, u64)], tweak: Option<Fq>) -> Vec<Fq> {
    ks.iter()
        .flat_map(|(a, neg, b)| {
            let p = if *neg { neg1(k1(*a)) } else { k1(*a) };
            [f1(&p), fl2(&k2(*b))].concat()
        })
        .enumerate()
        .map(|(i, x)| if i == 0 { tweak.map_or(x, |t| x + t) } else { x })
        .collect()
}
/// Products of pairings of multiples of the generators: one exactly when the multiples say so.
fn pairings(cases: &[Vec<(u64, bool, u64)>]) {
    par(cases.len(), |i| {
        let c = &cases[i];
        let sum: i128 = c.iter().map(|(a, n, b)| (*a as i128) * (*b as i128) * if *n { -1 } else { 1 }).sum();
        let x = pair(c, None);
        let o = Pair(c.len());
        let got = direct(o, &x, &[]);
        judge("direct", o, &x, &[], &if sum == 0 { Want::Is(vec![]) } else { Want::No }, &got);
    });
}

// ---- dishonest provers ----

type Alter = Arc<dyn Fn(&[BigUint]) -> Vec<BigUint> + Send + Sync>;
/// Answers like the library's own hints, except for one call of the named one.
struct Swap {
    inner: HintRegistry<M>,
    id: usize,
    at: usize,
    f: Alter,
    n: Mutex<usize>,
}
impl HintCaller<M> for Swap {
    fn call(&self, id: usize, args: &[M], n: usize) -> Result<Vec<M>, Error> {
        let r = self.inner.call(id, args, n)?;
        if id != self.id {
            return Ok(r);
        }
        let mut k = self.n.lock().unwrap();
        *k += 1;
        if *k - 1 != self.at {
            return Ok(r);
        }
        let v: Vec<BigUint> = r.chunks(48).map(|c| of_limbs(c).to_biguint().unwrap()).collect();
        Ok((self.f)(&v).iter().flat_map(|x| to_limbs(&BigInt::from(x.clone()), 48)).collect())
    }
}
fn forge(o: Op, x: &[Fq], v: &[u64], hint: &str, what: &str, w: &Want, f: Alter) {
    rt::states(1);
    generic();
    distinct(&(o, x, v, what));
    let h = Swap { inner: hints(), id: hint_key_to_id(hint), at: 0, f, n: Mutex::new(0) };
    let got = debug::<C, _, _>(&Bl(o), &feed(x, v), h);
    match (w, got) {
        (_, Err(_)) => count("forgery turned down", 1),
        (Want::Is(r), Ok(g)) if values(&g) == *r => count("other hint, same result", 1),
        (_, Ok(g)) => {
            let text = format!("BLS12-381 {o:?}: a prover who answers {hint} with {what} has {} accepted", if matches!(w, Want::Is(_)) { "another result" } else { "a false statement" });
            violation(
                &format!("forged {o:?} {what}"),
                &text,
                json!({"operation": format!("{o:?}"), "inputs": show(x), "variables": v, "hint": hint, "answer": what, "got": show(&values(&g))}),
            );
        }
    }
}
fn big_of(x: &Fq) -> BigUint {
    val(x)
}
fn fixed(v: Vec<BigUint>) -> Alter {
    Arc::new(move |_| v.clone())
}
fn room(v: &BigUint) -> bool {
    v.bits() <= 381
}
/// Every root, every false root, in every representation that fits.
fn roots() {
    let lim = (BigUint::from(1u32) << 381usize) - p();
    let mut us: Vec<Fq> = u1();
    us.extend((3..11).map(fi));
    par(us.len(), |i| {
        let u = us[i];
        let w = model(G1Map, &[u], &[]);
        let Want::Is(r) = &w else { unreachable!() };
        let y = r[1];
        for (yn, yv) in [("the root", big_of(&y)), ("its opposite", big_of(&-y)), ("zero", BigUint::from(0u32)), ("the root and two", big_of(&(y + fi(2)))), ("one", BigUint::from(1u32)), ("two", BigUint::from(2u32))] {
            for wide in [false, true] {
                if wide && (yv >= lim || !room(&(&yv + p()))) {
                    continue;
                }
                for flag in [0u32, 1] {
                    let val = if wide { &yv + p() } else { yv.clone() };
                    let what = format!("flag {flag} and {yn}{}", if wide { " plus the modulus" } else { "" });
                    forge(G1Map, &[u], &[], "myhint.getsqrtx0x1fqnewhint", &what, &w, fixed(vec![BigUint::from(flag), val]));
                }
            }
        }
    });
    let mut us: Vec<Fq2> = u2();
    us.extend((3..9).map(|i| f2(i, 1)));
    par(us.len(), |i| {
        let u = us[i];
        let x = flat2(&u);
        let w = model(G2Map, &x, &[]);
        let Want::Is(r) = &w else { unreachable!() };
        let y = Fq2::new(r[2], r[3]);
        for (yn, yv) in [("the root", y), ("its opposite", -y), ("its conjugate", Fq2::new(y.c0, -y.c1)), ("zero", f2(0, 0)), ("the root and two", y + f2(2, 0)), ("the root and 2u", y + f2(0, 2))] {
            let (a, b) = (big_of(&yv.c0), big_of(&yv.c1));
            for wide in 0..4 {
                if wide & 1 == 1 && a >= lim || wide & 2 == 2 && b >= lim {
                    continue;
                }
                let a = if wide & 1 == 1 { &a + p() } else { a.clone() };
                let b = if wide & 2 == 2 { &b + p() } else { b.clone() };
                for flag in [0u32, 1] {
                    let what = format!("flag {flag} and {yn}{}", ["", " plus the modulus in the first place", " plus the modulus in the second place", " plus the modulus in both places"][wide]);
                    forge(G2Map, &x, &[], "myhint.getsqrtx0x1fq2newhint", &what, &w, fixed(vec![BigUint::from(flag), a.clone(), b.clone()]));
                }
            }
        }
    });
    let xs: Vec<Fq> = (0..12).map(fi).chain([k1(1).0, k1(2).0]).collect();
    par(xs.len() * 2, |i| {
        let x = xs[i / 2];
        let mut b = be(&x);
        b[0] |= [0x80, 0xa0][i % 2];
        let w = model(G1Uncompress, &[], &b);
        let y = match &w {
            Want::Is(r) => r[1],
            _ => fi(1),
        };
        for (yn, yv) in [("the root", y), ("its opposite", -y), ("zero", fi(0)), ("one more", y + fi(1))] {
            for wide in [false, true] {
                let mut v = big_of(&yv);
                if wide && v >= lim {
                    continue;
                }
                if wide {
                    v += p();
                }
                for flag in [0u32, 1] {
                    let what = format!("flag {flag} and {yn}{}", if wide { " plus the modulus" } else { "" });
                    forge(G1Uncompress, &[], &b, "myhint.getelementsqrthint", &what, &w, fixed(vec![BigUint::from(flag), v.clone()]));
                }
            }
        }
    });
    let xs: Vec<Fq2> = (1..7).map(|i| f2(i, 1)).chain([k2(1).0, k2(2).0, f2(0, 0), real_root()]).collect();
    par(xs.len() * 2, |i| {
        let x = xs[i / 2];
        let mut c = [be(&x.c1), be(&x.c0)].concat();
        c[0] |= [0x80, 0xa0][i % 2];
        let w = model(G2Uncompress, &[], &c);
        let y = match &w {
            Want::Is(r) => Fq2::new(r[2], r[3]),
            _ => f2(1, 1),
        };
        for (yn, yv) in [("the root", y), ("its opposite", -y), ("its conjugate", Fq2::new(y.c0, -y.c1)), ("zero", f2(0, 0)), ("one more", y + f2(1, 0))] {
            let (a, b) = (big_of(&yv.c0), big_of(&yv.c1));
            for wide in 0..4 {
                if wide & 1 == 1 && a >= lim || wide & 2 == 2 && b >= lim {
                    continue;
                }
                let a = if wide & 1 == 1 { &a + p() } else { a.clone() };
                let b = if wide & 2 == 2 { &b + p() } else { b.clone() };
                let what = format!("a square and {yn}{}", ["", " plus the modulus in the first place", " plus the modulus in the second place", " plus the modulus in both places"][wide]);
                forge(G2Uncompress, &[], &c, "myhint.gete2sqrthint", &what, &w, fixed(vec![BigUint::from(1u32), a, b]));
            }
        }
    });
}
/// Answers to the hint of the final exponentiation.
fn witnesses() {
    let zero = BigUint::from(0u32);
    let one = || {
        let mut v = vec![BigUint::from(0u32); 18];
        v[0] = BigUint::from(1u32);
        v[12] = BigUint::from(1u32);
        v
    };
    let bad = cyclotomic(1);
    let wrong = pw(&of12(&bad), &order());
    let mut xs: Vec<Vec<Fq>> = vec![bad, flat12(&wrong)];
    unary(&[E12FinalExp], &[xs.clone(), vec![flat12(&Fq12::one()), zeros(12)]].concat());
    if rt::thorough() {
        xs.extend((2..5).flat_map(|i| {
            let x = cyclotomic(i);
            let y = flat12(&pw(&of12(&x), &order()));
            [x, y]
        }));
        unary(&[E12FinalExp], &xs);
    }
    xs.push(zeros(12));
    let answers: Vec<(&str, Alter)> = vec![
        ("zeros", fixed(vec![zero.clone(); 18])),
        ("the modulus in place of zeros", fixed(vec![p(); 18])),
        ("ones", fixed(one())),
        ("a zero residue", Arc::new(|v| [vec![BigUint::from(0u32); 12], v[12..].to_vec()].concat())),
        ("a zero scale", Arc::new(|v| [v[..12].to_vec(), vec![BigUint::from(0u32); 6]].concat())),
        ("a zero residue and the modulus for scale", Arc::new(|_| [vec![BigUint::from(0u32); 12], vec![p(); 6]].concat())),
    ];
    par(xs.len() * answers.len(), |i| {
        let x = &xs[i % xs.len()];
        let (what, f) = &answers[i / xs.len()];
        forge(E12FinalExp, x, &[], "myhint.finalexphint", what, &model(E12FinalExp, x, &[]), f.clone());
    });
}
/// No single lie, by one, in any output of any hint call, proves anything false.
fn lies(ops: &[(Op, Vec<Fq>, Vec<u64>)], most: usize) {
    for (o, x, v) in ops {
        let w = model(*o, x, v);
        generic();
        let probe = Lie::new(hints(), usize::MAX, 0, M::from(0u32));
        let seen = probe.seen.clone();
        let ok = debug::<C, _, _>(&Bl(*o), &feed(x, v), probe);
        if !judge("direct", *o, x, v, &w, &ok) {
            continue;
        }
        let outs: Vec<(usize, usize)> = seen.lock().unwrap().iter().enumerate().flat_map(|(c, n)| (0..*n).map(move |k| (c, k))).collect();
        let stride = outs.len().div_ceil(most) | 1;
        let n = outs.len().div_ceil(stride);
        par(n, |i| {
            let (c, k) = outs[i * stride];
            rt::states(1);
            generic();
            let d = if i % 2 == 0 { M::from(1u32) } else { -M::from(1u32) };
            let got = debug::<C, _, _>(&Bl(*o), &feed(x, v), Lie::new(hints(), c, k, d));
            match (&w, got) {
                (_, Err(_)) => count("lie turned down", 1),
                (Want::Is(r), Ok(g)) if values(&g) == *r => count("harmless lie", 1),
                (Want::Open, _) => {}
                (_, Ok(g)) => violation(
                    &format!("lie {o:?}"),
                    &format!("BLS12-381 {o:?}: a prover who alters output {k} of hint call {c} has another result accepted"),
                    json!({"operation": format!("{o:?}"), "inputs": show(x), "call": c, "output": k, "got": show(&values(&g))}),
                ),
            }
        });
    }
}
/// The compiled circuit says what the direct run says.
fn built(ops: &[(Op, Vec<Fq>, Vec<u64>)]) {
    par(ops.len(), |i| {
        let (o, x, v) = &ops[i];
        generic();
        let c = match compiled::<C, _>(&Bl(*o), x.len() * 48 + v.len()) {
            Ok(c) => c,
            Err(e) => {
                violation(&format!("compile {o:?}"), &format!("BLS12-381 {o:?} is not compiled"), json!({"error": e}));
                return;
            }
        };
        rt::states(1);
        free_challenges();
        let got = c.eval(&feed(x, v), &hints());
        judge("compiled", *o, x, v, &model(*o, x, v), &got);
        // the result belongs to these inputs
        let mut y = x.clone();
        if let Some(l) = y.last_mut() {
            *l = *l + fi(1);
            let got = c.eval(&feed(&y, v), &hints());
            judge("compiled", *o, &y, v, &model(*o, &y, v), &got);
        }
    });
}

pub fn c29() {
    let th = rt::thorough();
    family("fq2", tower2);
    family("fq6", || {
        let k = if th { 3 } else { 1 };
        bilinear(&[E6Mul, E6Karatsuba, E6Div], 6, 6, k);
        bilinear(&[E6MulE2, E6Mul0], 6, 2, k);
        bilinear(&[E6Mul12, E6Mul01], 6, 4, k);
        let mut v = vectors(6, 3);
        v.push(zeros(6));
        unary(&[E6Zero, E6One, E6IsZero, E6Neg, E6Double, E6MulV, E6InverseDiv, E6Inverse, E6DivBy6, E6Square], &v);
        unary(&[E6Square], &pairs_of_units(6));
        bilinear(&[E6Add, E6Sub], 6, 6, 1);
        coordinates(6, E6Eq, E6Select, E6IsZero, E6Div);
    });
    family("fq12", || {
        let k = if th { 2 } else { 1 };
        bilinear(&[E12Mul], 12, 12, k);
        bilinear(&[E12Mul014], 12, 4, k);
        bilinear(&[E12Mul014By014], 4, 4, k);
        let mut v = vectors(12, if th { 3 } else { 1 });
        v.push(zeros(12));
        unary(&[E12Zero, E12One, E12IsZero, E12Conjugate, E12Inverse, E12Copy, E12Frobenius, E12FrobeniusSquare, E12Square], &v);
        unary(&[E12Square], &pairs_of_units(12));
        let d = [dense12(1), dense12(2), vec![-fi(1); 12]];
        par(9, |i| {
            for o in [E12Add, E12Sub, E12Div] {
                run(o, &[d[i % 3].clone(), d[i / 3].clone()].concat(), &[]);
            }
        });
        coordinates(12, E12Eq, E12Select, E12IsZero, E12Div);
        let cy: Vec<Vec<Fq>> = (1..if th { 6 } else { 3 }).map(cyclotomic).chain([flat12(&Fq12::one())]).collect();
        unary(&[E12CycloSquare, E12NSquare(1), E12NSquare(3), E12NSquareHint(1), E12NSquareHint(4), E12Expt], &cy);
    });
    family("g1", group1);
    family("g2", group2);
    family("multiples-g1", || scalars1(th));
    family("multiples-g2", || scalars2(th));
    family("subgroups", || subgroups(th));
    family("mapping", || mapping(th));
    family("published", published);
    family("uncompress", uncompress);
    family("roots", roots);
    family("final-exponentiation", witnesses);
    family("pairing", || {
        let mut c = vec![vec![(1, false, 1), (1, true, 1)], vec![(2, false, 3), (5, true, 1)]];
        if th {
            c.extend([
                vec![(6, false, 1), (2, true, 3)],
                vec![(1, false, 7), (7, true, 1)],
                vec![(1, false, 1), (1, false, 1)],
                vec![(1, false, 1), (2, false, 1), (3, true, 1)],
                vec![(1, false, 1), (2, false, 1), (3, false, 1)],
                vec![(5, false, 3), (4, true, 4), (1, false, 1)],
                vec![(1, false, 1)],
                vec![(3, true, 2)],
            ]);
        }
        pairings(&c);
    });
    family("lies", || {
        let e2 = |a: u64, b: u64| [flat2(&dense2(a)), flat2(&dense2(b))].concat();
        let g = f1(&k1(5));
        let h = fl2(&k2(5));
        let l: Vec<(Op, Vec<Fq>, Vec<u64>)> = vec![
            (E2Div, e2(1, 2), vec![]),
            (E2Inverse, e2(1, 2)[..2].to_vec(), vec![]),
            (E2Copy, e2(1, 2)[..2].to_vec(), vec![]),
            (E2Eq, e2(1, 2), vec![]),
            (E6Div, [dense6(1), dense6(2)].concat(), vec![]),
            (E6Inverse, dense6(1), vec![]),
            (E6DivBy6, dense6(1), vec![]),
            (E6Mul, [dense6(1), dense6(2)].concat(), vec![]),
            (E12Div, [dense12(1), dense12(2)].concat(), vec![]),
            (E12Inverse, dense12(1), vec![]),
            (E12Copy, dense12(1), vec![]),
            (G1Double, g.clone(), vec![]),
            (G1Copy, g.clone(), vec![]),
            (G1Add, [f1(&k1(2)), g.clone()].concat(), vec![]),
            (G2Copy, h.clone(), vec![]),
            (G2Double, h.clone(), vec![]),
            (OnTwist, fl2(&off2()[1]), vec![]),
            (OnCurve, f1(&off1()[1]), vec![]),
            (G1Map, vec![dense(5)], vec![]),
            (G2Map, flat2(&dense2(5)).to_vec(), vec![]),
        ];
        lies(&l, if th { 4000 } else { 60 });
    });
    family("compiled", || {
        let l: Vec<(Op, Vec<Fq>, Vec<u64>)> = vec![
            (E2Mul, [flat2(&dense2(1)), flat2(&dense2(2))].concat(), vec![]),
            (E2Div, [flat2(&dense2(1)), flat2(&dense2(2))].concat(), vec![]),
            (E6Mul, [dense6(1), dense6(2)].concat(), vec![]),
            (E12Mul, [dense12(1), dense12(2)].concat(), vec![]),
            (G1Add, [f1(&k1(1)), f1(&k1(5))].concat(), vec![]),
            (G1Double, f1(&k1(5)), vec![]),
            (G2Double, fl2(&k2(5)), vec![]),
            (OnTwist, fl2(&k2(5)), vec![]),
            (G1Map, vec![dense(5)], vec![]),
        ];
        built(if th { &l } else { &l[..5] });
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "one state = one operation on one tuple of field elements, points or bytes, with honest hints or one dishonest one; compared with textbook tower and curve arithmetic; a bilinear circuit is run on every pair of unit vectors, a quadratic one on every sum of two",
        &[
            "incomplete addition: equal points (and points of order at most nine in the long multiplications) are promised nothing",
            "inputs are given reduced; 0/0 is promised nothing; cyclotomic operations are run on cyclotomic elements only",
            "the hints' field tower is a stand-in for ark-bls12-381 that the check shares with its model; the published vectors and the curve equations bind it",
            "challenges of the deferred products are fixed irregular constants",
        ],
    );
}
