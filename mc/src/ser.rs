//! C07 and C08: writing artefacts, reading them back, and reading damaged or foreign bytes.
use crate::cfgs::*;
use crate::opts::{Opt, DEF};
use crate::prog::{fe, Ins, Prog};
use crate::rt::{self, violation, Level};
use crate::sem;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::input_mapping::InputMapping;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::hint_normalized::{self as hn, witness_solver::WitnessSolver};
use expander_compiler::circuit::ir::{common, source};
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{
    Allocation, Circuit, Coef, CrossLayerInputType, GateAdd, GateConst, GateCustom, GateMul, Input, InputType, InputUsize, NormalInputType, Segment,
};
use expander_compiler::compile::compile_with_options;
use expander_compiler::field::FieldArith;
use expander_compiler::hints::registry::HintCaller;
use expander_compiler::utils::error::Error;
use serde_json::json;
use serdes::ExpSerde;
use std::io::{Error as IoError, Read, Write};

// -------------------------------------------------------------------------------------- streams

/// Takes one byte per call.
#[derive(Default)]
struct DripW(Vec<u8>);
impl Write for DripW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend(b.iter().take(1));
        Ok(b.len().min(1))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Takes `left` bytes, then fails.
struct FullW(usize);
impl Write for FullW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(IoError::other("full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Gives one byte per call.
struct DripR<'a>(&'a [u8]);
impl Read for DripR<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Gives the bytes, then fails with something else than the end of the data.
struct BrokenR<'a>(&'a [u8]);
impl Read for BrokenR<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() && !b.is_empty() {
            return Err(IoError::other("broken"));
        }
        self.0.read(b)
    }
}

type Res<T> = Result<Result<T, String>, String>;
pub fn write<T: ExpSerde>(x: &T) -> Res<Vec<u8>> {
    rt::guard(|| {
        let mut v = vec![];
        x.serialize_into(&mut v).map(|_| v).map_err(|e| format!("{e:?}"))
    })
}
fn write_drip<T: ExpSerde>(x: &T) -> Res<Vec<u8>> {
    rt::guard(|| {
        let mut v = DripW::default();
        x.serialize_into(&mut v).map(|_| v.0).map_err(|e| format!("{e:?}"))
    })
}
/// The value and the number of bytes read.
fn read<T: ExpSerde>(b: &[u8]) -> Res<(T, usize)> {
    rt::guard(|| {
        let mut r = b;
        T::deserialize_from(&mut r).map(|x| (x, b.len() - r.len())).map_err(|e| format!("{e:?}"))
    })
}
fn read_drip<T: ExpSerde>(b: &[u8]) -> Res<(T, usize)> {
    rt::guard(|| {
        let mut r = DripR(b);
        T::deserialize_from(&mut r).map(|x| (x, b.len() - r.0.len())).map_err(|e| format!("{e:?}"))
    })
}
fn bad(what: &str, case: &str, more: String) {
    let m: String = more.chars().take(600).collect();
    violation(&format!("{what}:{case}"), &format!("{what}: {case}: {m}"), json!({"what": what, "case": case, "more": more}));
}
fn dbg<T>(r: Res<T>) -> String {
    match r {
        Ok(Ok(_)) => "a value".into(),
        Ok(Err(e)) => format!("error {e}"),
        Err(e) => format!("panic {e}"),
    }
}

// ------------------------------------------------------------------------------------ round trip

/// Writes, reads, compares, writes again. The value read back.
pub fn round<T: ExpSerde>(case: &dyn Fn() -> String, x: &T, same: impl Fn(&T, &T) -> bool) -> Option<T> {
    rt::evals(1);
    let b = match write(x) {
        Ok(Ok(b)) => b,
        e => {
            bad("writing fails", &case(), dbg(e));
            return None;
        }
    };
    rt::distinct(&b);
    if write_drip(x).ok().and_then(|r| r.ok()).as_ref() != Some(&b) {
        bad("writing to a slow stream", &case(), "other bytes".into());
    }
    let mut long = b.clone();
    long.extend([0xa5; 40]);
    let mut back = None;
    for (how, f) in [("whole", read::<T> as fn(&[u8]) -> Res<(T, usize)>), ("followed by other data", read::<T>), ("byte by byte", read_drip::<T>)] {
        rt::transitions(1);
        let src = if how == "followed by other data" { &long } else { &b };
        match f(src) {
            Ok(Ok((y, n))) => {
                if n != b.len() {
                    bad("reading takes another number of bytes", &case(), format!("{n} instead of {}, {how}", b.len()));
                }
                if !same(x, &y) {
                    bad("another value read back", &case(), how.into());
                }
                match write(&y) {
                    Ok(Ok(b2)) if b2 == b => {}
                    e => bad("written again differently", &case(), format!("{how}: {}", dbg(e))),
                }
                back = Some(y);
            }
            e => bad("reading back fails", &case(), format!("{how}: {}", dbg(e))),
        }
    }
    rt::traces(1);
    back
}

// ----------------------------------------------------------------------------------------- damage

/// Every way of cutting, failing and changing the written form.
fn damage<T: ExpSerde>(case: &str, x: &T, full: bool) {
    damage_but(case, x, full, |_| true)
}
fn damage_but<T: ExpSerde>(case: &str, x: &T, full: bool, again: impl Fn(&T) -> bool) {
    let Ok(Ok(b)) = write(x) else { return bad("writing fails", case, String::new()) };
    rt::evals(1);
    rt::distinct(&b);
    let n = b.len();
    for k in 0..n {
        rt::transitions(3);
        match read::<T>(&b[..k]) {
            Ok(Err(_)) => {}
            e => bad("data cut short is accepted", case, format!("{k} of {n} bytes: {}", dbg(e))),
        }
        match rt::guard(|| T::deserialize_from(BrokenR(&b[..k])).map_err(|e| format!("{e:?}"))) {
            Ok(Err(_)) => {}
            e => bad("a failing stream is read", case, format!("{k} of {n} bytes: {}", dbg(e))),
        }
        match rt::guard(|| x.serialize_into(FullW(k)).map_err(|e| format!("{e:?}"))) {
            Ok(Err(_)) => {}
            e => bad("a failed write is not reported", case, format!("{k} of {n} bytes: {}", dbg(e))),
        }
    }
    let mut c = b.clone();
    c.extend([0u8; 8]);
    let change = |c: &[u8], at: usize, what: &str| {
        rt::transitions(1);
        match read::<T>(c) {
            Ok(Err(_)) => {}
            Ok(Ok((y, _))) if !again(&y) => {}
            Ok(Ok((y, m))) => {
                // whatever is read is what the bytes say
                match rt::watch(format!("{case}: byte {at}"), || write(&y)) {
                    Ok(Ok(d)) if d == c[..m] => rt::count("changed data that is other valid data", 1),
                    e => bad("changed data is taken for something else", case, format!("byte {at} {what} is read as {}", dbg(e))),
                }
            }
            Err(e) => bad("changed data panics", case, format!("byte {at} {what}: {e}")),
        }
    };
    for i in 0..n {
        let o = c[i];
        for v in 0..=255u8 {
            if v == o || !(full || v <= 18 || [o.wrapping_add(1), o.wrapping_sub(1), o ^ 0x80, 0x7f, 0x80, 0xff, 101].contains(&v)) {
                continue;
            }
            c[i] = v;
            change(&c, i, &format!("= {v}"));
        }
        c[i] = o;
    }
    // whole words, wherever one may be
    for i in 0..n.saturating_sub(7) {
        for w in [u64::MAX, 1 << 63, i64::MAX as u64, 1 << 62, 1 << 32, 1 << 40, 1 << 56, 1 << 61] {
            let old: [u8; 8] = c[i..i + 8].try_into().unwrap();
            c[i..i + 8].copy_from_slice(&w.to_le_bytes());
            change(&c, i, &format!(".. = word {w:#x}"));
            c[i..i + 8].copy_from_slice(&old);
        }
    }
    rt::states(n as u64);
    rt::traces(1);
}
/// The bytes of x, read as something of another field.
fn foreign<T: ExpSerde, U: ExpSerde>(case: &dyn Fn() -> String, x: &T) {
    let Ok(Ok(b)) = write(x) else { return };
    rt::transitions(1);
    match read::<U>(&b) {
        Ok(Err(_)) => {}
        e => bad("data of another field is accepted", &case(), dbg(e)),
    }
}

// ---------------------------------------------------------------------------------------- values

const SIZES: [usize; 8] = [0, 1, 2, 255, 256, 1 << 31, 1 << 32, usize::MAX];
fn lists() -> Vec<Vec<usize>> {
    vec![vec![], vec![0], vec![1, 2], vec![3, 3, 3], vec![usize::MAX, 0, 1 << 40, 7]]
}
fn fields<C: Config>() -> Vec<CircuitField<C>> {
    vec![CircuitField::<C>::zero(), CircuitField::<C>::one(), -CircuitField::<C>::one(), fe::<C>(2), fe::<C>(0x1234567), fe::<C>(256)]
}
fn coefs<C: Config>() -> Vec<Coef<C>> {
    let mut r: Vec<Coef<C>> = fields::<C>().into_iter().map(Coef::Constant).collect();
    r.push(Coef::Random);
    r.extend(SIZES.map(Coef::PublicInput));
    r
}
fn lincombs<C: Config>() -> Vec<LinComb<C>> {
    let mut r = vec![];
    let f = fields::<C>();
    for c in &f {
        r.push(LinComb { terms: vec![], constant: *c });
        for (i, v) in SIZES.iter().enumerate() {
            let t = |k: usize| LinCombTerm { var: v.wrapping_add(k), coef: f[(i + k) % f.len()] };
            r.push(LinComb { terms: vec![t(0)], constant: *c });
            r.push(LinComb { terms: vec![t(2), t(1), t(2)], constant: *c });
        }
    }
    r
}
fn source_instructions<C: Config>() -> Vec<source::Instruction<C>> {
    use source::{BoolBinOpType as B, Instruction as I, UnconstrainedBinOpType as U};
    let mut r: Vec<I<C>> = lincombs().into_iter().map(I::LinComb).collect();
    r.extend(coefs().into_iter().map(I::ConstantLike));
    for l in lists() {
        r.push(I::Mul(l.clone()));
        r.push(I::Commit(l.clone()));
        for n in SIZES {
            r.push(I::Hint { hint_id: n.wrapping_mul(3), inputs: l.clone(), num_outputs: n });
            r.push(I::SubCircuitCall { sub_circuit_id: n.wrapping_mul(5), inputs: l.clone(), num_outputs: n });
            r.push(I::CustomGate { gate_type: n, inputs: l.clone() });
        }
    }
    for (i, x) in SIZES.iter().enumerate() {
        let x = *x;
        let y = SIZES[(i + 3) % SIZES.len()];
        let z = SIZES[(i + 5) % SIZES.len()];
        r.push(I::IsZero(x));
        r.push(I::ToBinary { x, num_bits: y });
        r.push(I::UnconstrainedSelect { cond: x, if_true: y, if_false: z });
        for checked in [false, true] {
            r.push(I::Div { x, y, checked });
        }
        for op in [B::Xor, B::Or, B::And] {
            r.push(I::BoolBinOp { x, y, op });
        }
        for op in [U::Div, U::Pow, U::IntDiv, U::Mod, U::ShiftL, U::ShiftR, U::LesserEq, U::GreaterEq, U::Lesser, U::Greater, U::Eq, U::NotEq, U::BoolOr, U::BoolAnd, U::BitOr, U::BitAnd, U::BitXor] {
            r.push(I::UnconstrainedBinOp { x, y, op });
        }
    }
    r
}
fn constraints() -> Vec<source::Constraint> {
    use source::ConstraintType as T;
    [T::Zero, T::NonZero, T::Bool].iter().flat_map(|t| SIZES.map(|var| source::Constraint { typ: *t, var })).collect()
}
fn hn_instructions<C: Config>() -> Vec<hn::Instruction<C>> {
    use hn::Instruction as I;
    let mut r: Vec<I<C>> = lincombs().into_iter().map(I::LinComb).collect();
    r.extend(coefs().into_iter().map(I::ConstantLike));
    for l in lists() {
        r.push(I::Mul(l.clone()));
        for n in SIZES {
            r.push(I::Hint { hint_id: n.wrapping_mul(3), inputs: l.clone(), num_outputs: n });
            r.push(I::SubCircuitCall { sub_circuit_id: n.wrapping_mul(5), inputs: l.clone(), num_outputs: n });
            r.push(I::CustomGate { gate_type: n, inputs: l.clone() });
        }
    }
    r
}
fn segments<C: Config, I: InputType>() -> Vec<Segment<C, I>> {
    let inp = |l: usize, o: usize| I::Input::new(if I::CROSS_LAYER_RELAY { l } else { 0 }, o);
    let us = |v: &[usize]| I::InputUsize::from_vec(if I::CROSS_LAYER_RELAY { v.to_vec() } else { vec![*v.last().unwrap_or(&0)] });
    let mut r = vec![];
    for (i, n) in SIZES.iter().enumerate() {
        let n = *n;
        let m = SIZES[(i + 3) % SIZES.len()];
        r.push(Segment { num_inputs: us(&[n, m]), num_outputs: m, ..Default::default() });
        r.push(Segment { num_inputs: us(&[]), num_outputs: n, ..Default::default() });
        for l in lists() {
            let al = |o: usize| Allocation::<I> { input_offset: us(&l), output_offset: o };
            r.push(Segment { child_segs: vec![(n, vec![al(m), al(n)]), (m, vec![]), (7, vec![al(1)])], ..Default::default() });
            for k in [0usize, 1] {
                r.push(Segment {
                    gate_customs: vec![
                        GateCustom { gate_type: n, inputs: l.iter().map(|o| inp(k, *o)).collect(), output: m, coef: Coef::Random },
                        GateCustom { gate_type: m, inputs: vec![inp(n, m)], output: n, coef: Coef::PublicInput(m) },
                    ],
                    ..Default::default()
                });
            }
        }
        for coef in coefs::<C>() {
            r.push(Segment { gate_muls: vec![GateMul { inputs: [inp(n, m), inp(m, n)], output: n, coef: coef.clone() }, GateMul { inputs: [inp(1, 2), inp(3, 4)], output: m, coef: coef.clone() }], ..Default::default() });
            r.push(Segment { gate_adds: vec![GateAdd { inputs: [inp(n, m)], output: n, coef: coef.clone() }, GateAdd { inputs: [inp(m, 1)], output: m, coef: coef.clone() }], ..Default::default() });
            r.push(Segment { gate_consts: vec![GateConst { inputs: [], output: n, coef: coef.clone() }, GateConst { inputs: [], output: m, coef: coef.clone() }], ..Default::default() });
            r.push(Segment { gate_customs: vec![GateCustom { gate_type: n, inputs: vec![inp(n, m), inp(m, n)], output: n, coef: coef.clone() }], ..Default::default() });
            r.push(Segment {
                gate_consts: vec![GateConst { inputs: [], output: n, coef: coef.clone() }],
                gate_adds: vec![GateAdd { inputs: [inp(0, 1)], output: 2, coef: coef.clone() }],
                gate_muls: vec![GateMul { inputs: [inp(0, 3), inp(1, 4)], output: 5, coef }],
                ..Default::default()
            });
        }
    }
    r
}
fn root<Irc: common::IrConfig>(a: usize, b: usize, cs: Vec<(usize, common::Circuit<Irc>)>) -> common::RootCircuit<Irc> {
    let mut r = common::RootCircuit::<Irc> { num_public_inputs: a, expected_num_output_zeroes: b, ..Default::default() };
    r.circuits.extend(cs);
    r
}
fn sources<C: Config>() -> Vec<source::RootCircuit<C>> {
    let mut r = vec![root(0, 0, vec![]), root(3, usize::MAX, vec![(0, common::Circuit { num_inputs: 0, instructions: vec![], constraints: vec![], outputs: vec![] })])];
    let ins = source_instructions::<C>();
    for (i, x) in ins.iter().enumerate() {
        let n = SIZES[i % SIZES.len()];
        r.push(root(n, SIZES[(i + 1) % 8], vec![(n, common::Circuit { num_inputs: n, instructions: vec![x.clone()], constraints: vec![], outputs: lists()[i % 5].clone() })]));
        let y = ins[(i * 7 + 11) % ins.len()].clone();
        r.push(root(1, 2, vec![(0, common::Circuit { num_inputs: 1, instructions: vec![x.clone(), y.clone()], constraints: vec![], outputs: vec![] }), (n.wrapping_add(1).max(1), common::Circuit { num_inputs: 2, instructions: vec![y], constraints: vec![], outputs: vec![1] })]));
    }
    for (i, c) in constraints().iter().enumerate() {
        for d in constraints() {
            r.push(root(i, 0, vec![(1, common::Circuit { num_inputs: 1, instructions: vec![], constraints: vec![c.clone(), d], outputs: vec![2] })]));
        }
    }
    r
}
fn normalized<C: Config>() -> Vec<hn::RootCircuit<C>> {
    let mut r = vec![root(0, 0, vec![]), root(3, usize::MAX, vec![(0, common::Circuit { num_inputs: 0, instructions: vec![], constraints: vec![], outputs: vec![] })])];
    let ins = hn_instructions::<C>();
    for (i, x) in ins.iter().enumerate() {
        let n = SIZES[i % SIZES.len()];
        let y = ins[(i * 7 + 11) % ins.len()].clone();
        // its assertions are of one kind only, which carries no data of its own
        r.push(root(n, SIZES[(i + 1) % 8], vec![(n, common::Circuit { num_inputs: n, instructions: vec![x.clone()], constraints: lists()[(i + 1) % 5].clone(), outputs: lists()[i % 5].clone() })]));
        r.push(root(1, 2, vec![(0, common::Circuit { num_inputs: 1, instructions: vec![x.clone(), y.clone()], constraints: vec![n], outputs: vec![] }), (n.wrapping_add(1).max(1), common::Circuit { num_inputs: 2, instructions: vec![y], constraints: vec![], outputs: vec![1] })]));
    }
    r
}
fn layered<C: Config, I: InputType>() -> Vec<Circuit<C, I>> {
    let s = segments::<C, I>();
    let mut r = vec![];
    for (i, x) in s.iter().enumerate() {
        let n = SIZES[i % SIZES.len()];
        r.push(Circuit { num_public_inputs: n, num_actual_outputs: SIZES[(i + 1) % 8], expected_num_output_zeroes: SIZES[(i + 2) % 8], segments: vec![x.clone()], layer_ids: lists()[i % 5].clone() });
        r.push(Circuit { num_public_inputs: 0, num_actual_outputs: 0, expected_num_output_zeroes: 0, segments: vec![x.clone(), s[(i * 13 + 5) % s.len()].clone()], layer_ids: vec![] });
    }
    r.push(Circuit { num_public_inputs: 0, num_actual_outputs: 0, expected_num_output_zeroes: 0, segments: vec![], layer_ids: vec![] });
    r
}
fn witnesses<C: Config>(max: usize) -> Vec<Witness<C>> {
    let mut r = vec![];
    let f = fields::<C>();
    for n in 0..=max {
        for a in 0..4 {
            for b in 0..3 {
                let v = (0..n * (a + b)).map(|i| f[(i * i + i / 2 + n) % f.len()] + fe::<C>(i as u32)).collect();
                r.push(Witness { num_witnesses: n, num_inputs_per_witness: a, num_public_inputs_per_witness: b, values: WitnessValues::Scalar(v) });
            }
        }
    }
    r
}
fn same_witness<C: Config>(x: &Witness<C>, y: &Witness<C>) -> bool {
    x.num_witnesses == y.num_witnesses
        && x.num_inputs_per_witness == y.num_inputs_per_witness
        && x.num_public_inputs_per_witness == y.num_public_inputs_per_witness
        && x.iter_scalar().collect::<Vec<_>>() == y.iter_scalar().collect::<Vec<_>>()
        && x.iter_simd().collect::<Vec<_>>() == y.iter_simd().collect::<Vec<_>>()
}
fn show_w<C: Config>(w: &Witness<C>) -> String {
    format!("witness of {} with {} inputs and {} public inputs ({} at a time)", w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness, simd::<C>())
}
fn simd<C: Config>() -> usize {
    <SIMDField<C> as arith::SimdField>::PACK_SIZE
}
fn cn<C>() -> &'static str {
    std::any::type_name::<C>().split("::").last().unwrap()
}
fn cut(s: String) -> String {
    s.chars().take(300).collect()
}

pub struct Hints;
impl<F: expander_compiler::field::Field + 'static> HintCaller<F> for Hints {
    fn call(&self, id: usize, args: &[F], n: usize) -> Result<Vec<F>, Error> {
        Ok((0..n).map(|i| args.iter().fold(F::from((id % 1000 + i) as u32), |a, x| a * F::from(3u32) + *x)).collect())
    }
}

// ------------------------------------------------------------------------------------------- C07

fn c07_values<C: Config>() {
    let s = sources::<C>();
    rt::par(s.len(), |i| {
        round(&|| cut(format!("source program over {}: {:?}", cn::<C>(), s[i])), &s[i], |x, y| x == y);
    });
    let s = normalized::<C>();
    rt::par(s.len(), |i| {
        round(&|| cut(format!("normalized program over {}: {:?}", cn::<C>(), s[i])), &s[i], |x, y| x == y);
        let w = WitnessSolver { circuit: s[i].clone() };
        round(&|| cut(format!("witness solver over {}: {:?}", cn::<C>(), s[i])), &w, |x, y| x.circuit == y.circuit);
    });
    let s = layered::<C, NormalInputType>();
    rt::par(s.len(), |i| {
        round(&|| cut(format!("layered circuit over {}: {:?}", cn::<C>(), s[i])), &s[i], |x, y| x == y);
    });
    let s = layered::<C, CrossLayerInputType>();
    rt::par(s.len(), |i| {
        round(&|| cut(format!("cross-layer circuit over {}: {:?}", cn::<C>(), s[i])), &s[i], |x, y| x == y);
    });
    let s = witnesses::<C>(2 * simd::<C>() + 1);
    rt::par(s.len(), |i| {
        let Some(w) = round(&|| cut(format!("{} over {}", show_w(&s[i]), cn::<C>())), &s[i], same_witness) else { return };
        // it may be held in blocks now
        round(&|| cut(format!("{} over {}, read back", show_w(&s[i]), cn::<C>())), &w, same_witness);
        if !same_witness(&s[i], &w) {
            bad("another value read back", &show_w(&s[i]), "after two round trips".into());
        }
    });
}
fn c07_program<C: Config, I: InputType>(pr: &Prog, o: Opt) {
    let ir = pr.ir::<C>();
    let case = |w: &str| cut(format!("{w} of {pr} over {}, {}, {o}", cn::<C>(), sem::iname::<I>()));
    round(&|| case("program"), &ir, |x, y| x == y);
    // gates of the tiny fields only
    if pr.uses(|i| matches!(i, Ins::Gate(..))) {
        return;
    }
    let Ok(Ok((h, lc))) = rt::guard(|| compile_with_options::<C, I>(&ir, o.real())) else {
        rt::count("not compiled", 1);
        return;
    };
    let h = WitnessSolver { circuit: h };
    let Some(h2) = round(&|| case("witness solver"), &h, |x, y| x.circuit == y.circuit) else { return };
    let Some(lc2) = round(&|| case("layered circuit"), &lc, |x, y| x == y) else { return };
    // the pairs behave alike
    let n = pr.root().n_in;
    for k in 0..3u32 {
        let x: Vec<_> = (0..n as u32).map(|i| fe::<C>(k * (i + 1) + k / 2)).collect();
        let p: Vec<_> = (0..pr.n_pub as u32).map(|i| fe::<C>(k + 2 * i)).collect();
        let solve = |s: &WitnessSolver<C>| rt::guard(|| s.solve_witness_from_raw_inputs(x.clone(), p.clone(), &Hints).map_err(|e| format!("{e:?}")));
        match (solve(&h), solve(&h2)) {
            (Ok(Ok(a)), Ok(Ok(b))) => {
                if !same_witness(&a, &b) {
                    bad("the solver read back gives another witness", &case("solver"), format!("input {k}"));
                }
                let run = |c: &Circuit<C, I>| {
                    ctlrand::control(&[], 7);
                    rt::guard(|| c.run_with_output(&a))
                };
                if run(&lc) != run(&lc2) {
                    bad("the circuit read back evaluates differently", &case("circuit"), format!("input {k}"));
                }
                round(&|| case("witness"), &a, same_witness);
                rt::transitions(4);
            }
            (a, b) => {
                let t = |x: &Res<Witness<C>>| x.as_ref().map(|r| r.as_ref().map(|_| ()).map_err(|e| e.clone())).map_err(|e| e.clone());
                if t(&a) != t(&b) {
                    bad("the solver read back behaves differently", &case("solver"), format!("input {k}: {}, {}", dbg(a), dbg(b)));
                }
            }
        }
    }
}
fn c07_rot(pr: &Prog, k: usize, o: Opt) {
    type N = NormalInputType;
    type X = CrossLayerInputType;
    match k % 12 {
        0 => c07_program::<C3, N>(pr, o),
        1 => c07_program::<C3n, X>(pr, o),
        2 => c07_program::<C5w, N>(pr, o),
        3 => c07_program::<C5n, X>(pr, o),
        4 => c07_program::<M31Config, N>(pr, o),
        5 => c07_program::<M31Config, X>(pr, o),
        6 => c07_program::<BN254Config, N>(pr, o),
        7 => c07_program::<GoldilocksConfig, X>(pr, o),
        8 => c07_program::<BabyBearConfig, N>(pr, o),
        9 => c07_program::<C7w, N>(pr, o),
        10 => c07_program::<C7, X>(pr, o),
        _ => c07_program::<GF2Config, N>(pr, o),
    }
}
fn mappings() {
    // its fields are private: what it maps tells two apart
    for n in 0..4usize {
        for l in lists() {
            let m = InputMapping::new(n, l);
            round(&|| format!("{m:?}"), &m, |x, y| x == y);
        }
    }
}
pub fn c07() {
    let th = rt::thorough();
    rt::family("values", || {
        c07_values::<C3>();
        c07_values::<C5n>();
        c07_values::<C7w>();
        c07_values::<C16n>();
        c07_values::<M31Config>();
        c07_values::<M31OrionConfig>();
        c07_values::<BN254Config>();
        c07_values::<GF2Config>();
        c07_values::<GoldilocksConfig>();
        c07_values::<BabyBearConfig>();
        mappings();
    });
    for (name, ps) in sem::families(3, th) {
        rt::family(name, || {
            rt::par(ps.len(), |i| {
                c07_rot(&ps[i], i, DEF);
                for (j, o) in sem::opts_quick(i).into_iter().enumerate() {
                    for k in 0..if th { 4 } else { 1 } {
                        c07_rot(&ps[i], i + 5 * j + 3 * k + 1, o);
                    }
                }
            })
        });
    }
    rt::family("kernels", || crate::zkc::each_compiled(th, |what, g, prims, proof, lens| {
        round(&|| cut(format!("graph of {what}")), g, |x, y| x.kernels == y.kernels && x.proof_templates == y.proof_templates && x.commitments_lens == y.commitments_lens);
        for k in &g.kernels {
            round(&|| cut(format!("kernel of {what}")), k, |x, y| x == y);
        }
        for p in prims {
            round(&|| cut(format!("kernel primitive of {what}")), &**p, |x, y| x == y);
        }
        for t in &g.proof_templates {
            round(&|| cut(format!("proof template of {what}")), t, |x, y| x == y);
        }
        if let Some(p) = proof {
            if let Some(q) = round(&|| cut(format!("proof of {what}")), p, |_, _| true) {
                if crate::zk::verify(g, &q) != Ok(true) {
                    bad("the proof read back does not verify", &cut(what.into()), format!("{lens:?}"));
                }
            }
        }
    }));
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per artefact and round trip; distinct by written bytes",
        &["primitive encodings (integers, lists, maps, field elements) are those of the stand-in serialization crate; everything built on them is the repository's"],
    );
}

// ------------------------------------------------------------------------------------------- C08

macro_rules! each_other {
    ($me:ident, $f:ident, $($c:ident)*) => {$(
        if <CircuitField<$c> as arith::Field>::MODULUS != <CircuitField<$me> as arith::Field>::MODULUS {
            $f::<$me, $c>();
        }
    )*};
}
fn foreign_one<A: Config, B: Config>() {
    let case = |w: &str| format!("{w} of {} read over {}", cn::<A>(), cn::<B>());
    rt::evals(1);
    for s in sources::<A>().into_iter().step_by(5) {
        foreign::<_, source::RootCircuit<B>>(&|| case("source program"), &s);
    }
    for s in normalized::<A>().into_iter().step_by(5) {
        foreign::<_, hn::RootCircuit<B>>(&|| case("normalized program"), &s);
        foreign::<_, WitnessSolver<B>>(&|| case("witness solver"), &WitnessSolver { circuit: s });
    }
    for s in layered::<A, NormalInputType>().into_iter().step_by(5) {
        foreign::<_, Circuit<B, NormalInputType>>(&|| case("layered circuit"), &s);
    }
    for s in layered::<A, CrossLayerInputType>().into_iter().step_by(5) {
        foreign::<_, Circuit<B, CrossLayerInputType>>(&|| case("cross-layer circuit"), &s);
    }
    for w in witnesses::<A>(3) {
        foreign::<_, Witness<B>>(&|| case(&show_w(&w)), &w);
    }
}
fn foreign_all() {
    macro_rules! all {
        ($($c:ident)*) => {
            let l: Vec<fn()> = vec![$(|| { each_other!($c, foreign_one, C3 C5n C7w C16n M31Config M31OrionConfig BN254Config GF2Config GoldilocksConfig BabyBearConfig); }),*];
            rt::par(l.len(), |i| l[i]());
        };
    }
    all!(C3 C5n C7w C16n M31Config M31OrionConfig BN254Config GF2Config GoldilocksConfig BabyBearConfig);
}
fn damage_values<C: Config>(step: usize) {
    let full = |i: usize| i % 4 == 0;
    let s = sources::<C>();
    let n = s.len() / step;
    rt::par(n, |j| {
        let i = j * step;
        damage(&cut(format!("source program over {}: {:?}", cn::<C>(), s[i])), &s[i], full(i));
    });
    let s = normalized::<C>();
    rt::par(s.len() / step, |j| {
        let i = j * step;
        let case = cut(format!("witness solver over {}: {:?}", cn::<C>(), s[i]));
        damage(&case, &WitnessSolver { circuit: s[i].clone() }, full(i));
    });
    let s = layered::<C, NormalInputType>();
    rt::par(s.len() / step, |j| {
        let i = j * step;
        damage(&cut(format!("layered circuit over {}: {:?}", cn::<C>(), s[i])), &s[i], full(i));
    });
    let s = layered::<C, CrossLayerInputType>();
    rt::par(s.len() / step, |j| {
        let i = j * step;
        damage(&cut(format!("cross-layer circuit over {}: {:?}", cn::<C>(), s[i])), &s[i], full(i));
    });
    let s = witnesses::<C>(3);
    rt::par(s.len(), |i| {
        // sizes without values: any number of them is what the data says
        if s[i].num_inputs_per_witness + s[i].num_public_inputs_per_witness > 0 && s[i].num_witnesses > 0 {
            damage_but(&format!("{} over {}", show_w(&s[i]), cn::<C>()), &s[i], true, |w| w.num_inputs_per_witness + w.num_public_inputs_per_witness > 0);
        }
    });
}
pub fn c08() {
    let th = rt::thorough();
    rt::family("foreign", foreign_all);
    let st = |n: usize| if th { n.div_ceil(6) } else { n };
    rt::family("damage", || {
        damage_values::<C3>(st(2));
        damage_values::<C5n>(st(9));
        damage_values::<M31Config>(st(7));
        damage_values::<BN254Config>(st(11));
        damage_values::<GF2Config>(st(13));
        damage_values::<GoldilocksConfig>(st(13));
        damage_values::<BabyBearConfig>(st(13));
    });
    for (name, ps) in sem::families(3, false) {
        rt::family(name, || {
            let max = if th { 400 } else { 16 };
            let step = ps.len().div_ceil(max);
            rt::par(ps.len() / step, |j| {
                let pr = &ps[j * step];
                damage(&cut(format!("program {pr}")), &pr.ir::<C5n>(), false);
                if pr.uses(|i| matches!(i, Ins::Gate(..))) {
                    return;
                }
                let Ok(Ok((h, lc))) = rt::guard(|| compile_with_options::<C5n, NormalInputType>(&pr.ir::<C5n>(), DEF.real())) else { return };
                damage(&cut(format!("witness solver of {pr}")), &WitnessSolver { circuit: h }, false);
                damage(&cut(format!("layered circuit of {pr}")), &lc, false);
            })
        });
    }
    rt::family("graphs", || {
        let done = std::sync::atomic::AtomicUsize::new(0);
        let skip = if th { 40 } else { 700 };
        crate::zkc::each_compiled(false, |what, g, _, _, _| {
            if done.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % skip == 0 && write(g).is_ok_and(|b| b.is_ok_and(|b| b.len() < 6000)) {
                damage(&cut(format!("graph of {what}")), g, false);
                foreign::<_, expander_compiler::zkcuda::context::ComputationGraph<C5n>>(&|| cut(format!("graph of {what}")), g);
            }
        })
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per artefact; a transition per cut, failing stream or changed byte or word; distinct by written bytes",
        &["changed bytes may make other valid data: then the value read must write out to exactly those bytes", "primitive encodings are those of the stand-in serialization crate, made strict"],
    );
}
