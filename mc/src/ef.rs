//! C24 emulated prime fields over M31 (gnark::field) and what hashing to them is made of.
use crate::g::*;
use crate::lk::fe;
use crate::rt::{self, count, distinct, family, par, violation, Level};
use circuit_std_rs::gnark::element::{value_of, Element};
use circuit_std_rs::gnark::emparam::{Bls12381Fp, Bls12381Fr, FieldParams};
use circuit_std_rs::gnark::field::GField;
use circuit_std_rs::gnark::utils::{expand_msg_xmd_variable, hash_to_fp_variable, sub_padding, xor_variable};
use circuit_std_rs::utils::{register_hint, simple_lookup2, simple_select};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::*;
use num_bigint::BigInt;
use num_traits::{One, ToPrimitive, Zero};
use serde_json::json;
use sha2::{Digest, Sha256};
use std::marker::PhantomData;

type C = M31Config;
type M = F<C>;

pub fn hints() -> HintRegistry<M> {
    let mut h = HintRegistry::new();
    register_hint(&mut h);
    h
}
/// Challenges that hit no table entry and no small root.
pub fn generic() {
    challenges(&(0..64).map(|i| 1_234_567_891 - i * 7_654_321).collect::<Vec<u64>>());
}

macro_rules! moduli {
    ($($t:ident $v:expr, $n:expr;)*) => {$(
        #[derive(Default, Clone, Copy, Debug)]
        struct $t;
        impl FieldParams for $t {
            fn nb_limbs() -> u32 { $n }
            fn bits_per_limb() -> u32 { 8 }
            fn is_prime() -> bool { true }
            fn modulus() -> BigInt { BigInt::from($v as u64) }
        }
    )*};
}
moduli! {
    P3 3, 1;
    P13 13, 1;
    P251 251, 1;
    P257 257, 2;
    P65521 65521, 2;
    P65537 65537, 3;
    P31 2147483647, 4;
    P61 2305843009213693951u64, 8;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Step {
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Div(usize, usize),
    Neg(usize),
    Inv(usize),
    MulC(usize, i64),
    Reduce(usize, bool),
    Copy(usize),
    /// the first selector picks
    Sel(usize, usize),
    Const(i64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    Value,
    Zero,
    Sign,
    Eq(usize, usize),
}
#[derive(Clone, Debug)]
struct Ef<T> {
    n: usize,
    internal: bool,
    sel: usize,
    steps: Vec<Step>,
    end: End,
    t: PhantomData<T>,
}
impl<T: FieldParams + Default + Clone + 'static> Gadget<C> for Ef<T> {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut f = GField::new(api, T::default());
        let l = T::nb_limbs() as usize;
        let mut r: Vec<Element<T>> = (0..self.n)
            .map(|i| Element::new(x[i * l..(i + 1) * l].to_vec(), 0, self.internal, false, false, Variable::default()))
            .collect();
        let sel = &x[self.n * l..];
        for s in &self.steps {
            let e = match *s {
                Step::Add(i, j) => f.add(api, &r[i].clone(), &r[j].clone()),
                Step::Sub(i, j) => f.sub(api, &r[i].clone(), &r[j].clone()),
                Step::Mul(i, j) => f.mul(api, &r[i].clone(), &r[j].clone()),
                Step::Div(i, j) => f.div(api, &r[i].clone(), &r[j].clone()),
                Step::Neg(i) => f.neg(api, &r[i].clone()),
                Step::Inv(i) => f.inverse(api, &r[i].clone()),
                Step::MulC(i, c) => f.mul_const(api, &r[i].clone(), BigInt::from(c)),
                Step::Reduce(i, s) => f.reduce(api, &r[i].clone(), s),
                Step::Copy(i) => f.copy(api, &r[i].clone()),
                Step::Sel(i, j) => f.select(api, sel[0], &r[i].clone(), &r[j].clone()),
                Step::Const(v) => value_of(api, Box::new(v)),
            };
            r.push(e);
        }
        let o = match self.end {
            End::Value => r.last().unwrap().limbs.clone(),
            End::Zero => vec![f.is_zero(api, r.last().unwrap())],
            End::Sign => vec![f.get_element_sign(api, r.last().unwrap())],
            End::Eq(i, j) => {
                f.assert_is_equal(api, &r[i].clone(), &r[j].clone());
                vec![]
            }
        };
        f.check_mul(api);
        f.table.final_check(api);
        o
    }
}

fn md(x: &BigInt, p: &BigInt) -> BigInt {
    let r = x % p;
    if r < BigInt::zero() {
        r + p
    } else {
        r
    }
}
/// All registers, or None when a division by zero makes it unsatisfiable.
fn model<T: FieldParams>(g: &Ef<T>, x: &[BigInt], sel: &[u64]) -> Option<Vec<BigInt>> {
    let p = T::modulus();
    let mut r: Vec<BigInt> = x.iter().map(|v| md(v, &p)).collect();
    for s in &g.steps {
        let inv = |v: &BigInt| if v.is_zero() { None } else { Some(modpow(v, &(&p - BigInt::from(2)), &p)) };
        let e = match *s {
            Step::Add(i, j) => &r[i] + &r[j],
            Step::Sub(i, j) => &r[i] - &r[j],
            Step::Mul(i, j) => &r[i] * &r[j],
            Step::Div(i, j) => &r[i] * inv(&r[j])?,
            Step::Neg(i) => -&r[i],
            Step::Inv(i) => inv(&r[i])?,
            Step::MulC(i, c) => &r[i] * BigInt::from(c),
            Step::Reduce(i, _) | Step::Copy(i) => r[i].clone(),
            Step::Sel(i, j) => r[if sel[0] == 1 { i } else { j }].clone(),
            Step::Const(v) => BigInt::from(v),
        };
        r.push(md(&e, &p));
    }
    if let End::Eq(i, j) = g.end {
        if r[i] != r[j] {
            return None;
        }
    }
    Some(r)
}
fn modpow(b: &BigInt, e: &BigInt, p: &BigInt) -> BigInt {
    let (mut r, mut b) = (BigInt::one(), b.clone());
    for i in 0..e.bits() as usize {
        if ((e.clone() >> i) % BigInt::from(2)).is_one() {
            r = &r * &b % p;
        }
        b = &b * &b % p;
    }
    md(&r, p)
}
pub fn to_limbs(v: &BigInt, n: usize) -> Vec<M> {
    let b = v.to_bytes_le().1;
    (0..n).map(|i| fe::<C>(*b.get(i).unwrap_or(&0) as u128)).collect()
}
pub fn of_limbs(l: &[M]) -> BigInt {
    let mut r = BigInt::zero();
    for v in l.iter().rev() {
        r = (r << 8usize) + BigInt::from(v.to_u256().as_u64());
    }
    r
}
fn verdict<T: FieldParams>(g: &Ef<T>, x: &[BigInt], sel: &[u64], got: &Res<C>) -> Option<&'static str> {
    let p = T::modulus();
    let want = model(g, x, sel);
    count(&format!("{} limbs {}", T::nb_limbs(), if want.is_some() { "holds" } else { "must be turned down" }), 1);
    match (&want, got) {
        (None, Ok(_)) => Some("is accepted though it does not hold"),
        (Some(_), Err(_)) => Some("is turned down though it holds"),
        (None, Err(_)) => None,
        (Some(r), Ok(o)) => {
            let l = r.last().unwrap();
            let ok = match g.end {
                End::Value => {
                    let v = of_limbs(o);
                    md(&v, &p) == *l && (!matches!(g.steps.last(), Some(Step::Reduce(_, true))) || v == *l)
                }
                End::Zero => o[0].to_u256().as_u64() == l.is_zero() as u64,
                End::Sign => BigInt::from(o[0].to_u256().as_u64()) == l % BigInt::from(2),
                End::Eq(..) => true,
            };
            (!ok).then_some("gives another value than the field")
        }
    }
}
fn inputs<T: FieldParams>(x: &[BigInt], sel: &[u64]) -> Vec<M> {
    let mut v: Vec<M> = x.iter().flat_map(|v| to_limbs(v, T::nb_limbs() as usize)).collect();
    v.extend(sel.iter().map(|s| fe::<C>(*s as u128)));
    v
}
fn report<T: FieldParams>(how: &str, g: &Ef<T>, x: &[BigInt], sel: &[u64], got: Res<C>, why: &str) {
    violation(
        &format!("{how} {} {:?} {:?}", T::modulus(), g.steps, g.end),
        &format!("emulated field modulo {} ({how}): {:?} ending in {:?} {why}", T::modulus(), g.steps, g.end),
        json!({"modulus": T::modulus().to_string(), "inputs": x.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "selectors": sel,
            "range_checked_inputs": !g.internal, "got": got.map(|o| of_limbs(&o).to_string())}),
    );
}
fn run<T: FieldParams + Default + Clone + 'static>(g: &Ef<T>, x: &[BigInt], sel: &[u64]) {
    rt::states(1);
    generic();
    let got = debug::<C, _, _>(g, &inputs::<T>(x, sel), hints());
    if let Some(w) = verdict(g, x, sel, &got) {
        report("direct", g, x, sel, got, w);
    }
    distinct(&(T::modulus().to_string(), &g.steps, g.end, g.internal, x.iter().map(|v| v.to_string()).collect::<Vec<_>>(), sel));
}
fn ef<T>(n: usize, steps: &[Step], end: End) -> Ef<T> {
    let sel = steps.iter().any(|s| matches!(s, Step::Sel(..))) as usize;
    Ef { n, internal: true, sel, steps: steps.to_vec(), end, t: PhantomData }
}
fn ints(v: &[u64]) -> Vec<BigInt> {
    v.iter().map(|x| BigInt::from(*x)).collect()
}
/// Values at the edges of the modulus and of the limbs.
fn corners<T: FieldParams>() -> Vec<BigInt> {
    let p = T::modulus();
    let one = BigInt::one();
    let mut v = vec![BigInt::zero(), one.clone(), BigInt::from(2), &p - &one, &p - BigInt::from(2), (&p - &one) / BigInt::from(2), BigInt::from(255), BigInt::from(256)];
    let bits = p.bits() as usize;
    v.push(one.clone() << (bits - 1));
    v.push((one.clone() << (bits - 1)) - &one);
    v.push(&p / BigInt::from(3) * BigInt::from(2));
    let mut r: Vec<BigInt> = vec![];
    for x in v {
        let x = md(&x, &p);
        if !r.contains(&x) {
            r.push(x);
        }
    }
    r
}
fn single_ops() -> Vec<Vec<Step>> {
    use Step::*;
    let mut v = vec![
        vec![Add(0, 1)],
        vec![Sub(0, 1)],
        vec![Mul(0, 1)],
        vec![Div(0, 1)],
        vec![Neg(0)],
        vec![Inv(1)],
        vec![Reduce(0, true)],
        vec![Reduce(0, false)],
        vec![Copy(0)],
        vec![Add(0, 1), Reduce(2, true)],
        vec![Sub(0, 1), Copy(2)],
        vec![Sub(0, 0)],
        vec![Mul(0, 0)],
    ];
    for c in [0i64, 1, -1, 2, 3, -5, 255, 256, (1 << 20) - 1, 1 << 19, -(1 << 19)] {
        v.push(vec![MulC(0, c)]);
    }
    for c in [0i64, 1, -1, 7, -3] {
        v.push(vec![Const(c), Add(0, 2)]);
    }
    v
}
fn pairs<T: FieldParams + Default + Clone + Sync + 'static>(all: bool, part: usize) {
    let v = if all { (0..T::modulus().to_u64().unwrap()).map(BigInt::from).collect() } else { corners::<T>() };
    let n = v.len();
    let ops = single_ops();
    par(n * n, |i| {
        let x = [v[i % n].clone(), v[i / n].clone()];
        for (k, o) in ops.iter().enumerate() {
            // with a large modulus unary operations and the like meet every value once
            let binary = matches!(o[0], Step::Add(0, 1) | Step::Sub(0, 1) | Step::Mul(0, 1) | Step::Div(0, 1));
            if !binary && i / n != i % n {
                continue;
            }
            if (i + k) % part != 0 {
                continue;
            }
            run(&ef::<T>(2, o, End::Value), &x, &[]);
            if n <= 20 {
                run(&Ef { internal: false, ..ef::<T>(2, o, End::Value) }, &x, &[]);
                run(&ef::<T>(2, o, End::Zero), &x, &[]);
            }
        }
        if (i + 1) % part == 0 || n <= 20 {
            run(&ef::<T>(2, &[Step::Sub(0, 1)], End::Zero), &x, &[]);
            run(&ef::<T>(2, &[], End::Eq(0, 1)), &x, &[]);
            run(&ef::<T>(2, &[Step::Mul(0, 1), Step::Mul(1, 0)], End::Eq(2, 3)), &x, &[]);
            run(&ef::<T>(2, &[Step::Mul(0, 1), Step::Add(0, 1)], End::Eq(2, 3)), &x, &[]);
            for s in [0, 1] {
                run(&ef::<T>(2, &[Step::Sel(0, 1)], End::Value), &x, &[s]);
                run(&ef::<T>(2, &[Step::Add(0, 0), Step::Sel(2, 1)], End::Value), &x, &[s]);
            }
        }
        if i % n == i / n {
            run(&ef::<T>(1, &[], End::Sign), &x[..1], &[]);
            run(&ef::<T>(1, &[], End::Zero), &x[..1], &[]);
            // the same value in another representation
            run(&ef::<T>(1, &[Step::Sub(0, 0), Step::Add(0, 1)], End::Eq(0, 2)), &x[..1], &[]);
            run(&ef::<T>(1, &[Step::Const(1), Step::Add(0, 1)], End::Eq(0, 2)), &x[..1], &[]);
        }
    });
}
/// Inputs within the width of an element but not below the modulus.
fn unreduced<T: FieldParams + Default + Clone + Sync + 'static>(v: &[u64]) {
    let ops = single_ops();
    par(v.len() * v.len(), |i| {
        let x = ints(&[v[i % v.len()], v[i / v.len()]]);
        for o in &ops {
            for internal in [true, false] {
                run(&Ef { internal, ..ef::<T>(2, o, End::Value) }, &x, &[]);
            }
        }
        run(&ef::<T>(2, &[], End::Eq(0, 1)), &x, &[]);
        run(&ef::<T>(2, &[Step::Reduce(0, true)], End::Sign), &x, &[]);
        run(&ef::<T>(2, &[Step::Reduce(0, true)], End::Zero), &x, &[]);
        run(&ef::<T>(2, &[Step::Sub(0, 1)], End::Zero), &x, &[]);
        for s in [0, 1] {
            run(&ef::<T>(2, &[Step::Sel(0, 1)], End::Value), &x, &[s]);
        }
    });
}
/// All programs of the given length over two inputs.
fn programs(len: usize, sel: bool) -> Vec<Vec<Step>> {
    let mut v: Vec<Vec<Step>> = vec![vec![]];
    for k in 0..len {
        let regs = k + 2;
        let mut out = vec![];
        for p in &v {
            let mut push = |s: Step| {
                let mut q = p.clone();
                q.push(s);
                out.push(q);
            };
            for i in 0..regs {
                for j in 0..regs {
                    // the last step uses the step before
                    if k > 0 && k + 1 == len && i != regs - 1 && j != regs - 1 {
                        continue;
                    }
                    if i <= j {
                        push(Step::Add(i, j));
                        push(Step::Mul(i, j));
                    }
                    push(Step::Sub(i, j));
                    push(Step::Div(i, j));
                    if sel && i != j {
                        push(Step::Sel(i, j));
                    }
                }
                if k > 0 && k + 1 == len && i != regs - 1 {
                    continue;
                }
                push(Step::Neg(i));
                push(Step::Inv(i));
                push(Step::MulC(i, 1023));
                push(Step::MulC(i, -3));
                push(Step::Reduce(i, false));
            }
        }
        v = out;
    }
    v
}
fn sequences<T: FieldParams + Default + Clone + Sync + 'static>(len: usize, xs: &[[u64; 2]]) {
    let p = programs(len, len < 3);
    par(p.len(), |i| {
        for x in xs {
            for s in [0, 1] {
                let g = ef::<T>(2, &p[i], End::Value);
                if s == 1 && g.sel == 0 {
                    continue;
                }
                run(&g, &ints(x), &[s]);
                if len < 3 {
                    run(&Ef { end: End::Zero, ..g.clone() }, &ints(x), &[s]);
                    run(&Ef { end: End::Eq(len + 1, 0), ..g.clone() }, &ints(x), &[s]);
                    run(&Ef { internal: false, ..g.clone() }, &ints(x), &[s]);
                }
            }
        }
    });
}
/// Chains that push the limbs to their limits.
fn chains<T: FieldParams + Default + Clone + Sync + 'static>(max: usize) {
    use Step::*;
    let c = corners::<T>();
    let tails: Vec<(Vec<Step>, End)> = vec![
        (vec![], End::Value),
        (vec![], End::Zero),
        (vec![Mul(1000, 1000)], End::Value),
        (vec![Mul(1000, 0)], End::Value),
        (vec![Mul(1, 1000)], End::Value),
        (vec![Div(0, 1000)], End::Value),
        (vec![Div(1000, 1)], End::Value),
        (vec![Inv(1000)], End::Value),
        (vec![Sub(0, 1000)], End::Value),
        (vec![Sub(1000, 1000)], End::Zero),
        (vec![Reduce(1000, true)], End::Value),
        (vec![Copy(1000)], End::Value),
        (vec![Copy(1000)], End::Eq(1000, 1001)),
        (vec![], End::Eq(1000, 0)),
        (vec![Sel(1000, 1)], End::Value),
        (vec![Sel(1, 1000)], End::Value),
        (vec![MulC(1000, 1000)], End::Value),
        (vec![MulC(1000, -1000)], End::Value),
    ];
    par(max * 6, |i| {
        let (k, kind) = (i / 6 + 1, i % 6);
        for (a, x) in c.iter().enumerate() {
            let y = &c[(a * 5 + 1) % c.len()];
            let mut steps = vec![];
            let mut top = 0;
            for n in 0..k {
                let l = if n == 0 { 0 } else { n + 1 };
                steps.push(match kind {
                    0 => Add(l, l),
                    1 => Sub(l, 1),
                    2 => Sub(1, l),
                    3 => Add(l, 1),
                    4 => Neg(l),
                    _ => MulC(l, [3, -7, 255][n % 3]),
                });
                top = n + 2;
            }
            for (t, e) in &tails {
                let at = |r: usize| if r >= 1000 { top + r - 1000 } else { r };
                let mut s = steps.clone();
                s.extend(t.iter().map(|s| match *s {
                    Mul(i, j) => Mul(at(i), at(j)),
                    Div(i, j) => Div(at(i), at(j)),
                    Sub(i, j) => Sub(at(i), at(j)),
                    Sel(i, j) => Sel(at(i), at(j)),
                    Inv(i) => Inv(at(i)),
                    Copy(i) => Copy(at(i)),
                    Reduce(i, b) => Reduce(at(i), b),
                    MulC(i, c) => MulC(at(i), c),
                    s => s,
                }));
                let end = if let End::Eq(i, j) = e { End::Eq(at(*i), at(*j)) } else { *e };
                run(&ef::<T>(2, &s, end), &[x.clone(), y.clone()], &[1]);
            }
        }
    });
}
/// Limbs too wide for their place are turned down where inputs are range checked.
fn widths<T: FieldParams + Default + Clone + Sync + 'static>() {
    let l = T::nb_limbs() as usize;
    let top = ((T::modulus().bits() - 1) % 8) as u32 + 1;
    let vals: Vec<u64> = vec![0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 65535, 65536, (1 << 31) - 2, 1 << 30, 1 << (top - 1), (1 << top) - 1, 1 << top];
    let g = Ef { internal: false, ..ef::<T>(1, &[Step::Copy(0)], End::Value) };
    let g2 = Ef { internal: false, ..ef::<T>(1, &[Step::Add(0, 0)], End::Value) };
    par(l * vals.len(), |i| {
        let (at, v) = (i % l, vals[i / l]);
        let mut x = vec![M::from(0u32); l];
        x[at] = fe::<C>(v as u128);
        let wide = v >= 1 << (if at == l - 1 { top } else { 8 });
        for g in [&g, &g2] {
            rt::states(1);
            generic();
            let got = debug::<C, _, _>(g, &x, hints());
            count(if wide { "limb too wide" } else { "limb in range" }, 1);
            if got.is_ok() == wide {
                violation(
                    &format!("width {}", T::modulus()),
                    &format!("a limb of value {v} at place {at} of a range-checked element modulo {} is {}", T::modulus(), if wide { "accepted" } else { "turned down" }),
                    json!({"modulus": T::modulus().to_string(), "limb": at, "value": v, "error": got.err()}),
                );
            }
        }
    });
}
/// No single lie, by one, in any output of any hint call, proves anything false.
fn lies<T: FieldParams + Default + Clone + Sync + 'static>(xs: &[[u64; 2]], stride: usize) {
    use Step::*;
    let gs: Vec<Ef<T>> = [
        (vec![Mul(0, 1)], End::Value),
        (vec![Div(0, 1)], End::Value),
        (vec![Inv(1)], End::Value),
        (vec![Copy(0)], End::Value),
        (vec![Add(0, 1), Reduce(2, true)], End::Value),
        (vec![Sub(0, 1)], End::Zero),
        (vec![Mul(0, 1), Mul(1, 0)], End::Eq(2, 3)),
        (vec![MulC(0, 99), Add(2, 1), Mul(3, 3)], End::Value),
        // false statements
        (vec![], End::Eq(0, 1)),
        (vec![Mul(0, 1), Add(0, 1)], End::Eq(2, 3)),
    ]
    .iter()
    .map(|(s, e)| ef::<T>(2, s, *e))
    .collect();
    for g in &gs {
        for x in xs {
            let x = ints(x);
            generic();
            let probe = Lie::new(hints(), usize::MAX, 0, M::from(0u32));
            let seen = probe.seen.clone();
            let ok = debug::<C, _, _>(g, &inputs::<T>(&x, &[]), probe);
            if let Some(w) = verdict(g, &x, &[], &ok) {
                report("direct", g, &x, &[], ok, w);
                continue;
            }
            let outs: Vec<(usize, usize)> =
                seen.lock().unwrap().iter().enumerate().flat_map(|(c, n)| (0..*n).map(move |o| (c, o))).collect();
            par(outs.len() * 2, |i| {
                let (c, o) = outs[i / 2];
                // the counts of the last call are as many as the table has entries
                if (i / 2) % stride != 0 {
                    return;
                }
                rt::states(1);
                distinct(&("lie", T::modulus().to_string(), &g.steps, g.end, i, x[0].to_string()));
                count("lies", 1);
                generic();
                let d = if i % 2 == 0 { M::from(1u32) } else { -M::from(1u32) };
                let got = debug::<C, _, _>(g, &inputs::<T>(&x, &[]), Lie::new(hints(), c, o, d));
                // an output nothing depends on may be anything
                if got.is_ok() && verdict(g, &x, &[], &got).is_some() {
                    violation(
                        &format!("lie {} {:?} {:?}", T::modulus(), g.steps, g.end),
                        &format!("modulo {}: {:?} ending in {:?} accepts output {o} of hint call {c} off by one", T::modulus(), g.steps, g.end),
                        json!({"inputs": x.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "call": c, "output": o, "plus": i % 2 == 0}),
                    );
                }
            });
        }
    }
}
fn compiled_runs<T: FieldParams + Default + Clone + Sync + 'static>(all: bool) {
    use Step::*;
    let gs: Vec<Ef<T>> = vec![
        ef(2, &[Mul(0, 1), Sub(2, 0), Div(3, 1)], End::Value),
        Ef { internal: false, ..ef(2, &[Add(0, 1), Inv(2), Reduce(3, true)], End::Value) },
        ef(2, &[Sub(0, 1)], End::Zero),
        ef(2, &[Mul(0, 1), Add(0, 1)], End::Eq(2, 3)),
        ef(2, &[Neg(0), Sel(2, 1), Copy(3)], End::Value),
    ];
    let c = corners::<T>();
    par(gs.len(), |k| {
        let g = &gs[k];
        let n = 2 * T::nb_limbs() as usize + g.sel;
        let com = match compiled::<C, _>(g, n) {
            Ok(c) => c,
            Err(e) => return violation(&format!("compile {:?}", g.steps), &format!("{:?} does not compile: {e}", g.steps), json!({})),
        };
        for (i, x) in c.iter().enumerate() {
            for (j, y) in c.iter().enumerate() {
                if !all && (i + j) % 3 != 0 {
                    continue;
                }
                for s in 0..=g.sel as u64 {
                    let x = [x.clone(), y.clone()];
                    let sel: Vec<u64> = if g.sel > 0 { vec![s] } else { vec![] };
                    generic();
                    rt::states(1);
                    let got = com.eval(&inputs::<T>(&x, &sel), &hints());
                    if let Some(w) = verdict(g, &x, &sel, &got) {
                        report("compiled", g, &x, &sel, got, w);
                    }
                }
            }
        }
    });
}

// ---- helpers -------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
enum Help {
    Xor(usize),
    Select,
    Lookup2,
    Expand(usize, usize, usize),
    HashFp(usize, usize),
    HashField(usize, usize),
}
impl Gadget<C> for Help {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        match *self {
            Help::Xor(n) => vec![xor_variable(api, n, x[0], x[1])],
            Help::Select => vec![simple_select(api, x[0], x[1], x[2])],
            Help::Lookup2 => vec![simple_lookup2(api, x[0], x[1], x[2], x[3], x[4], x[5])],
            Help::Expand(m, _, len) => expand_msg_xmd_variable(api, &x[..m], &x[m..], len),
            Help::HashFp(m, n) => hash_to_fp_variable(api, &x[..m], &x[m..], n).concat(),
            Help::HashField(m, n) => {
                let mut f = GField::new(api, Bls12381Fp {});
                let r = f.hash_to_fp(api, &x[..m], n);
                f.check_mul(api);
                f.table.final_check(api);
                r.iter().flat_map(|e| e.limbs.clone()).collect()
            }
        }
    }
}
/// RFC 9380, 5.3.1.
fn expand(msg: &[u8], dst: &[u8], len: usize) -> Vec<u8> {
    let ell = len.div_ceil(32);
    let mut dst = dst.to_vec();
    dst.push(dst.len() as u8);
    let h = |parts: &[&[u8]]| -> Vec<u8> {
        let mut s = Sha256::new();
        for p in parts {
            s.update(p);
        }
        s.finalize().to_vec()
    };
    let b0 = h(&[&[0; 64], msg, &[(len >> 8) as u8, len as u8, 0], &dst]);
    let mut b = h(&[&b0, &[1], &dst]);
    let mut r = b.clone();
    for i in 2..=ell {
        let x: Vec<u8> = b0.iter().zip(&b).map(|(a, b)| a ^ b).collect();
        b = h(&[&x, &[i as u8], &dst]);
        r.extend(&b);
    }
    r.truncate(len);
    r
}
fn helpers(th: bool) {
    let go = |g: Help, x: &[u64], want: Vec<u64>, cut: usize| {
        rt::states(1);
        distinct(&(format!("{g:?}"), x));
        generic();
        let xs: Vec<M> = x.iter().map(|v| fe::<C>(*v as u128)).collect();
        let got = debug::<C, _, _>(&g, &xs, hints()).map(|o| o.iter().take(cut).map(|v| v.to_u256().as_u64()).collect::<Vec<_>>());
        count(&format!("{g:?}").split('(').next().unwrap().to_string(), 1);
        if got.as_ref() != Ok(&want) {
            violation(&format!("{g:?}"), &format!("{g:?} is wrong"), json!({"input": x, "want": want, "got": got}));
        }
    };
    for n in [1usize, 2, 4, 8] {
        par(1 << (2 * n), |i| {
            let (a, b) = ((i & ((1 << n) - 1)) as u64, (i >> n) as u64);
            if n == 8 && !th && (a * 7 + b) % 5 != 0 {
                return;
            }
            go(Help::Xor(n), &[a, b], vec![a ^ b], 1);
        });
    }
    for s in 0..4u64 {
        for k in 0..4 {
            let v = [5 + k, 70 + k, 900 + k, (1 << 31) - 2 - k];
            go(Help::Lookup2, &[s & 1, s >> 1, v[0], v[1], v[2], v[3]], vec![v[s as usize]], 1);
            go(Help::Select, &[s & 1, v[0], v[3]], vec![v[if s & 1 == 1 { 0 } else { 3 }]], 1);
        }
    }
    // hashing to the field
    let msgs: Vec<usize> = if th { (0..70).collect() } else { vec![0, 1, 31, 32, 33, 55, 64] };
    let lens: Vec<usize> = vec![1, 32, 64, 96, 128, 192, 256, 300];
    par(msgs.len() * lens.len(), |i| {
        let (m, len) = (msgs[i % msgs.len()], lens[i / msgs.len()]);
        let d = [1, 43, 10, 0][i % 4];
        let x: Vec<u8> = (0..m + d).map(|k| (k * 37 + 250 + i) as u8).collect();
        let want = expand(&x[..m], &x[m..], len);
        let x: Vec<u64> = x.iter().map(|v| *v as u64).collect();
        go(Help::Expand(m, d, len), &x, want.iter().map(|v| *v as u64).collect(), len);
        if len % 64 == 0 {
            go(Help::HashFp(m, len / 64), &x, want.iter().map(|v| *v as u64).collect(), usize::MAX);
        }
    });
    let dst = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
    par(if th { 24 } else { 8 }, |i| {
        let n = 1 + i % 4;
        let m: Vec<u8> = (0..(i * 5) % 40 + 1).map(|k| (k * 91 + i) as u8).collect();
        let u = expand(&m, dst, 64 * n);
        let p = Bls12381Fp::modulus();
        let want: Vec<u64> = u
            .chunks(64)
            .flat_map(|c| {
                let v = BigInt::from_bytes_be(num_bigint::Sign::Plus, c) % &p;
                to_limbs(&v, 48)
            })
            .map(|v| v.to_u256().as_u64())
            .collect();
        go(Help::HashField(m.len(), n), &m.iter().map(|v| *v as u64).collect::<Vec<_>>(), want, usize::MAX);
    });
}
fn padding() {
    // a multiple of the modulus with every limb as large as the limb taken away can be
    let ms: Vec<BigInt> =
        vec![P3::modulus(), P13::modulus(), P251::modulus(), P257::modulus(), P65521::modulus(), P65537::modulus(), P31::modulus(), P61::modulus(), <Bls12381Fp as FieldParams>::modulus(), <Bls12381Fr as FieldParams>::modulus()];
    for p in ms {
        let n0 = p.bits().div_ceil(8) as u32;
        for n in n0..n0 + 3 {
            for of in 0..=20u32 {
                rt::states(1);
                distinct(&("pad", p.to_string(), n, of));
                let bad = match rt::guard(|| sub_padding(&p, 8, of, n)) {
                    Err(e) => Some(e),
                    Ok(l) => {
                        let v = l.iter().rev().fold(BigInt::zero(), |a, b| (a << 8usize) + b);
                        let low = l.iter().any(|x| *x < BigInt::one() << (8 + of as usize));
                        (!(v % &p).is_zero() || low || l.len() != n as usize).then(|| "not a multiple, or too small a limb".to_string())
                    }
                };
                if let Some(e) = bad {
                    violation(&format!("padding {p} {n} {of}"), &format!("subtraction padding modulo {p} with {n} limbs and overflow {of}: {e}"), json!({}));
                }
            }
        }
    }
}

pub fn c24() -> ! {
    let th = rt::thorough();
    family("pairs", || {
        pairs::<P3>(true, 1);
        pairs::<P13>(true, 1);
        pairs::<P251>(true, if th { 1 } else { 23 });
        pairs::<P257>(th, if th { 3 } else { 1 });
        pairs::<P65521>(false, 1);
        pairs::<P65537>(false, 1);
        pairs::<P31>(false, 1);
        pairs::<P61>(false, 1);
        pairs::<Bls12381Fp>(false, 1);
        pairs::<Bls12381Fr>(false, 1);
    });
    family("unreduced", || {
        unreduced::<P13>(&(0..16).collect::<Vec<_>>());
        unreduced::<P251>(&[0, 1, 5, 250, 251, 252, 255]);
        unreduced::<P257>(&[0, 1, 256, 257, 258, 300, 510, 511]);
        unreduced::<P65537>(&[0, 65536, 65537, 65538, 70000, 131071]);
    });
    family("sequences", || {
        for len in [1, 2] {
            sequences::<P13>(len, &[[5, 9], [0, 12], [1, 1]]);
            sequences::<P257>(len, &[[255, 256], [200, 3], [0, 1]]);
            sequences::<P65537>(len, &[[65535, 65536], [256, 257]]);
        }
        sequences::<P13>(3, &[[5, 12]]);
        if th {
            sequences::<P13>(3, &[[0, 7], [11, 11]]);
            sequences::<P257>(3, &[[255, 256], [17, 0]]);
            sequences::<P65537>(3, &[[65535, 65536]]);
        }
    });
    family("chains", || {
        let n = if th { 45 } else { 24 };
        chains::<P13>(n);
        chains::<P65521>(n);
        chains::<P65537>(n);
        if th {
            chains::<P251>(n);
            chains::<P31>(n);
            chains::<Bls12381Fp>(24);
        }
    });
    family("widths", || {
        widths::<P13>();
        widths::<P251>();
        widths::<P257>();
        widths::<P65537>();
        widths::<Bls12381Fp>();
        widths::<Bls12381Fr>();
    });
    family("lies", || {
        lies::<P13>(&[[5, 9]], 1);
        lies::<P257>(&[[255, 256]], if th { 1 } else { 3 });
        lies::<P65537>(&[[65530, 300]], if th { 1 } else { 5 });
        if th {
            lies::<P251>(&[[250, 249], [1, 3]], 1);
            lies::<Bls12381Fp>(&[[u64::MAX, 12345678912345]], 7);
        }
    });
    family("padding", padding);
    family("helpers", || helpers(th));
    family("compiled", || {
        compiled_runs::<P13>(true);
        compiled_runs::<P65521>(th);
        compiled_runs::<P65537>(th);
        if th {
            compiled_runs::<P61>(false);
        }
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "every pair of values of tiny moduli and of corner values of large ones for every operation, every program of up to three operations, every chain up to the limb limits, every single wrong hint output",
        &["hints are answered by the library's own functions, or with one wrong output; the library leaves carries unconstrained modulo M31, so a prover who forges several outputs together is out of scope"],
    )
}
