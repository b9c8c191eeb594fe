//! C23 multi-limb integers: 18 limbs of 120 bits over BN254.
use crate::g::*;
use crate::rt::{self, count, distinct, family, par, violation, Level};
use circuit_std_rs::non_native::*;
use ethnum::U256;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::json;

type C = BN254Config;
type Fb = F<C>;
const N: usize = N_LIMBS;
const TOP: u128 = (1 << 120) - 1;
type L = [u128; N];

fn f(v: u128) -> Fb {
    Fb::from_u256(U256::new(v))
}
fn big(l: &[u128]) -> BigUint {
    let mut r = BigUint::zero();
    for x in l.iter().rev() {
        r = (r << 120usize) + BigUint::from(*x);
    }
    r
}
/// Low limbs; None when it does not fit.
fn limbs(x: &BigUint, n: usize) -> Option<Vec<u128>> {
    if x.bits() as usize > 120 * n {
        return None;
    }
    let b = x.to_bytes_le();
    Some(
        (0..n)
            .map(|i| (0..15).map(|k| (*b.get(15 * i + k).unwrap_or(&0) as u128) << (8 * k)).sum())
            .collect(),
    )
}
fn to_l(v: Vec<u128>) -> L {
    v.try_into().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Product,
    Mul,
    Add,
    Less,
    Geq,
    Eq,
    UGeq,
    Acc(usize),
    Bytes,
}
impl Op {
    fn n_in(self) -> usize {
        match self {
            Op::Product | Op::Less | Op::Geq | Op::Eq | Op::UGeq => 2 * N,
            Op::Mul => 5 * N,
            Op::Add => 4 * N + 1,
            Op::Acc(n) => n,
            Op::Bytes => 1,
        }
    }
}
fn take(x: &[Variable], i: usize) -> U2048Variable {
    U2048Variable::from_raw(x[i * N..(i + 1) * N].try_into().unwrap())
}
impl Gadget<C> for Op {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let t = api.constant(f(1 << 120));
        match self {
            Op::Product => U2048Variable::mul_without_mod_reduction(&take(x, 0), &take(x, 1), &t, api),
            Op::Mul => {
                U2048Variable::assert_mul(&take(x, 0), &take(x, 1), &take(x, 2), &take(x, 3), &take(x, 4), &t, api);
                vec![]
            }
            Op::Add => {
                U2048Variable::assert_add(&take(x, 0), &take(x, 1), &take(x, 2), &x[4 * N], &take(x, 3), &t, api);
                vec![]
            }
            Op::Less => vec![take(x, 0).assert_is_less_than(&take(x, 1), api)],
            Op::Geq => vec![take(x, 0).assert_is_greater_eq(&take(x, 1), api)],
            Op::Eq => vec![take(x, 0).assert_is_equal(&take(x, 1), api)],
            Op::UGeq => vec![take(x, 0).unconstrained_greater_eq(&take(x, 1), api)],
            Op::Acc(_) => {
                let (r, c) = accumulate_u120(x, &t, api);
                vec![r, c]
            }
            Op::Bytes => {
                let s: Vec<Variable> = (0..32).map(|i| api.constant(Fb::from_u256(U256::new(1) << (8 * i)))).collect();
                byte_decomposition(&x[0], &s, api)
            }
        }
    }
}

/// What the gadget must do: Some(outputs) or None (turned down).
fn oracle(op: Op, x: &[u128]) -> Option<Vec<u128>> {
    let n = |i: usize| big(&x[i * N..(i + 1) * N]);
    match op {
        Op::Product => Some(limbs(&(n(0) * n(1)), 2 * N).unwrap()),
        Op::Mul => (n(0) * n(1) == n(2) + n(3) * n(4)).then(Vec::new),
        Op::Add => {
            let c = x[4 * N];
            let s = n(0) + n(1);
            let fits = s.bits() as usize <= 120 * N;
            (c <= 1 && fits && n(2) < n(3) && s == n(2) + n(3) * BigUint::from(c)).then(Vec::new)
        }
        Op::Less => Some(vec![(n(0) < n(1)) as u128]),
        Op::Geq | Op::UGeq => Some(vec![(n(0) >= n(1)) as u128]),
        Op::Eq => Some(vec![(n(0) == n(1)) as u128]),
        Op::Acc(_) => {
            let s: u128 = x.iter().sum();
            Some(vec![s & TOP, s >> 120])
        }
        Op::Bytes => unreachable!(),
    }
}
fn show(x: &[u128]) -> Vec<String> {
    x.iter().map(|v| format!("{v:#x}")).collect()
}
fn judge(tag: &str, op: Op, x: &[u128], got: Res<C>) {
    rt::states(1);
    let want = oracle(op, x).map(|v| v.into_iter().map(f).collect::<Vec<_>>());
    count(&format!("{op:?} {}", if want.is_some() { "holds" } else { "must be turned down" }), 1);
    let ok = match (&got, &want) {
        (Ok(a), Some(b)) => a == b,
        (Err(_), None) => true,
        _ => false,
    };
    if !ok {
        let what = match (&got, &want) {
            (Ok(_), None) => "a false statement is accepted".to_string(),
            (Err(e), Some(_)) => format!("a true statement is turned down ({e})"),
            _ => "the result is not that of integer arithmetic".to_string(),
        };
        violation(
            &format!("{op:?} {tag}"),
            &format!("{op:?}, {tag}: {what}"),
            json!({"op": format!("{op:?}"), "inputs": show(x), "outputs": got.ok().map(|v| v.iter().map(|y| format!("{:#x}", y.to_u256())).collect::<Vec<_>>())}),
        );
    }
}
fn run(tag: &str, op: Op, x: &[u128]) {
    distinct(&(format!("{op:?}"), x));
    let xs: Vec<Fb> = x.iter().map(|v| f(*v)).collect();
    judge(tag, op, x, debug::<C, _, _>(&op, &xs, EmptyHintCaller));
}
fn cat(p: &[&[u128]]) -> Vec<u128> {
    p.concat()
}

/// Numbers with something at every limb boundary.
fn patterns(th: bool) -> Vec<L> {
    let mut v = vec![[0; N], [TOP; N]];
    let one = |i: usize, x: u128| {
        let mut l = [0; N];
        l[i] = x;
        l
    };
    v.push(one(0, 1));
    v.push(one(0, TOP));
    v.push(one(N - 1, TOP));
    v.push(one(N - 1, 1));
    v.push(std::array::from_fn(|i| if i % 2 == 0 { TOP } else { 0 }));
    v.push(std::array::from_fn(|i| if i % 2 == 1 { TOP } else { 1 }));
    v.push(std::array::from_fn(|i| (i as u128 + 1) << 60));
    // 2^2048 - 1, the largest the gadget is named after
    v.push(std::array::from_fn(|i| if i < 17 { TOP } else { 0xff }));
    v.push(std::array::from_fn(|i| if i < N / 2 { TOP } else { 0 }));
    v.push(std::array::from_fn(|i| if i == 3 { 1 << 119 } else { TOP - i as u128 }));
    if th {
        for i in 0..N {
            v.push(one(i, TOP));
            v.push(one(i, 1));
            v.push(std::array::from_fn(|k| if k == i { TOP - 1 } else { TOP }));
            v.push(std::array::from_fn(|k| if k < i { TOP } else { (k == i) as u128 }));
        }
    }
    v
}
/// Every way to change one limb by one (or to the other end).
fn nudges(x: &[u128], at: std::ops::Range<usize>, far: bool) -> Vec<Vec<u128>> {
    let mut r = vec![];
    for i in at {
        let mut set = |v: u128| {
            let mut y = x.to_vec();
            y[i] = v;
            r.push(y);
        };
        if x[i] < TOP {
            set(x[i] + 1);
        }
        if x[i] > 0 {
            set(x[i] - 1);
        }
        if far {
            set(TOP - x[i]);
            set(x[i] ^ (1 << 119));
        }
    }
    r
}

fn products(th: bool) {
    let vals: &[u128] = if th { &[1, 2, 1 << 60, TOP - 1, TOP] } else { &[1, 1 << 60, TOP] };
    let k = vals.len();
    // one limb against one limb, in every pair of positions
    par(N * N * k * k, |i| {
        let d = (i % N, i / N % N, i / N / N % k, i / N / N / k);
        let mut x = [0u128; 2 * N];
        x[d.0] = vals[d.2];
        x[N + d.1] = vals[d.3];
        run("limb by limb", Op::Product, &x);
    });
    let p = patterns(th);
    par(p.len() * p.len(), |i| {
        run("pattern", Op::Product, &cat(&[&p[i % p.len()], &p[i / p.len()]]));
    });
    // the largest numbers with one limb changed: carries that run through every limb
    par(N * k, |i| {
        let mut a = [TOP; N];
        a[i % N] = vals[i / N] - 1;
        run("carry run", Op::Product, &cat(&[&a, &[TOP; N]]));
        run("carry run", Op::Product, &cat(&[&[TOP; N], &a]));
    });
}

fn modmul(th: bool) {
    let p = patterns(th);
    let n = p.len();
    let m: Vec<L> = p.iter().copied().take(12).filter(|m| m.iter().any(|x| *x != 0)).collect();
    let mut jobs: Vec<Vec<u128>> = vec![];
    for a in 0..n {
        for b in 0..n {
            for mm in &m {
                let (x, y, md) = (big(&p[a]), big(&p[b]), big(mm));
                let pr = &x * &y;
                let (q, r) = (&pr / &md, &pr % &md);
                let (Some(q), Some(r)) = (limbs(&q, N), limbs(&r, N)) else {
                    continue;
                };
                jobs.push(cat(&[&p[a], &p[b], &r, &q, mm]));
            }
        }
    }
    count("modular products", jobs.len() as u64);
    par(jobs.len(), |i| run("true product", Op::Mul, &jobs[i]));
    // every limb of result, quotient and factors wrong, on one job in a few
    let step = if th { 97 } else { 7 };
    let picked: Vec<&Vec<u128>> = jobs.iter().step_by(step).collect();
    let mut bad = vec![];
    for j in &picked {
        bad.extend(nudges(j, 2 * N..4 * N, true));
        bad.extend(nudges(j, 0..2 * N, false));
        bad.extend(nudges(j, 4 * N..5 * N, false));
    }
    par(bad.len(), |i| run("one limb changed", Op::Mul, &bad[i]));
    // results that agree in the lowest limbs only, and results not reduced
    let mut other = vec![];
    for j in &jobs {
        let (r, q, md) = (big(&j[2 * N..3 * N]), big(&j[3 * N..4 * N]), big(&j[4 * N..]));
        if !q.is_zero() {
            if let (Some(r2), Some(q2)) = (limbs(&(&r + &md), N), limbs(&(&q - BigUint::one()), N)) {
                other.push(cat(&[&j[..2 * N], &r2, &q2, &j[4 * N..]]));
            }
        }
        if let Some(r2) = limbs(&(&r + &md), N) {
            other.push(cat(&[&j[..2 * N], &r2, &j[3 * N..]]));
        }
    }
    let other: Vec<_> = other.into_iter().step_by(if th { 1 } else { 9 }).collect();
    par(other.len(), |i| run("other quotient", Op::Mul, &other[i]));
    // a change of result and quotient that cancels in the lowest limbs
    let mut cancel = vec![];
    for k in 0..N {
        let mut m = [0u128; N];
        m[k] = 1;
        let (mut x, mut y) = ([0u128; N], [0u128; N]);
        x[0] = 5;
        y[k] = 3;
        // 15 * 2^(120 k) = (15 + d) * m - d * 2^(120 k)
        for d in 0..3u128 {
            let (mut r, mut q) = ([0u128; N], [0u128; N]);
            q[0] = 15 - d;
            r[k] = d;
            cancel.push(cat(&[&x, &y, &r, &q, &m]));
            for e in 0..N {
                let mut r2 = r;
                r2[e] += 1;
                cancel.push(cat(&[&x, &y, &r2, &q, &m]));
            }
        }
    }
    par(cancel.len(), |i| run("small numbers at every limb", Op::Mul, &cancel[i]));
}

fn modadd(th: bool) {
    let p = patterns(th);
    let m: Vec<L> = patterns(false);
    let n = p.len();
    par(n * n, |i| {
        let (x, y) = (&p[i % n], &p[i / n]);
        for md in &m {
            let s = big(x) + big(y);
            let b = big(md);
            let modulus = BigUint::one() << (120 * N);
            for c in 0..=2u128 {
                // the result that makes the sum come out, over the integers or wrapped around
                let want = BigUint::from(c) * &b;
                let r = (&s + BigUint::from(4u32) * &modulus - want) % &modulus;
                let r = limbs(&r, N).unwrap();
                let base = cat(&[x, y, &r, md, &[c]]);
                run("sum", Op::Add, &base);
                if (i + c as usize) % (if th { 31 } else { 23 }) == 0 {
                    for z in nudges(&base, 2 * N..3 * N, th) {
                        run("one limb of the result changed", Op::Add, &z);
                    }
                    if th {
                        for z in nudges(&base, 0..2 * N, false) {
                            run("one limb of a term changed", Op::Add, &z);
                        }
                    }
                }
            }
        }
    });
    // the carry that no bit can hold
    for c in [2, TOP, 1 << 60] {
        let z = [0u128; N];
        run("carry not a bit", Op::Add, &cat(&[&z, &z, &z, &[TOP; N], &[c]]));
        run("carry not a bit", Op::Add, &cat(&[&z, &z, &z, &z, &[c]]));
    }
}

fn compare(th: bool) {
    let p = patterns(th);
    let n = p.len();
    const OPS: [Op; 4] = [Op::Less, Op::Geq, Op::Eq, Op::UGeq];
    par(n * n, |i| {
        for op in OPS {
            run("patterns", op, &cat(&[&p[i % n], &p[i / n]]));
        }
    });
    // equal but for two limbs, every pair of positions and directions
    par(N * N * 9, |i| {
        let (a, b, k) = (i % N, i / N % N, i / N / N);
        for base in [0u128, 1, 1 << 60, TOP - 1] {
            let x = [base + 1 - (base > TOP - 2) as u128; N];
            let (mut y, mut z) = (x, x);
            let d = |v: &mut u128, k: usize| match k {
                0 => {}
                1 => *v = TOP,
                _ => *v = 0,
            };
            d(&mut y[a], k % 3);
            d(&mut z[b], k / 3);
            for op in OPS {
                run("two limbs", op, &cat(&[&y, &z]));
            }
        }
    });
}

fn small(th: bool) {
    let v = [0u128, 1, 2, 1 << 60, 1 << 119, TOP - 1, TOP];
    for n in 2..=if th { 5usize } else { 4 } {
        par(v.len().pow(n as u32), |i| {
            let x: Vec<u128> = crate::lk::digits(i, v.len(), n).iter().map(|d| v[*d]).collect();
            run("sums", Op::Acc(n), &x);
        });
    }
    for n in [16, 127] {
        run("long sums", Op::Acc(n), &vec![TOP; n]);
    }
    // byte strings: every byte value in every place, and the ends of the field
    let p_minus_1 = -Fb::from(1u32);
    let mut xs: Vec<U256> = vec![U256::new(0), p_minus_1.to_u256(), p_minus_1.to_u256() - U256::new(1)];
    for i in 0..32usize {
        for b in 0..256u128 {
            xs.push(U256::new(b) << (8 * i as u32));
            if i > 0 {
                xs.push((U256::new(b) << (8 * i as u32)) | U256::new(0xa5) << (8 * (i as u32 - 1)));
            }
        }
    }
    let p = p_minus_1.to_u256();
    xs.retain(|x| *x <= p);
    let com = compiled::<C, _>(&Op::Bytes, 1);
    par(xs.len(), |i| {
        distinct(&("bytes", xs[i].to_le_bytes()));
        let x = Fb::from_u256(xs[i]);
        let want: Vec<Fb> = xs[i].to_le_bytes().iter().map(|b| f(*b as u128)).collect();
        let mut got = vec![("direct", debug::<C, _, _>(&Op::Bytes, &[x], EmptyHintCaller))];
        if i % 16 == 0 {
            got.push(("compiled", com.as_ref().map_err(|e| e.clone()).and_then(|c| c.eval(&[x], &EmptyHintCaller))));
        }
        for (how, got) in got {
            rt::states(1);
            if got.as_ref() != Ok(&want) {
                violation(
                    &format!("bytes {how}"),
                    &format!("byte decomposition ({how}) of {:#x} is wrong", xs[i]),
                    json!({"x": format!("{:#x}", xs[i]), "error": got.err()}),
                );
            }
        }
    });
}

fn compiled_runs(th: bool) {
    let p = patterns(false);
    let n = p.len();
    let mut ops = vec![Op::Less, Op::Geq, Op::Eq, Op::UGeq, Op::Add, Op::Product, Op::Acc(3)];
    if th {
        ops.push(Op::Mul);
    }
    par(ops.len(), |k| {
        let op = ops[k];
        let c = match compiled::<C, _>(&op, op.n_in()) {
            Ok(c) => c,
            Err(e) => {
                violation(&format!("{op:?} compile"), &format!("{op:?} does not compile: {e}"), json!({}));
                return;
            }
        };
        let mut cases: Vec<Vec<u128>> = vec![];
        match op {
            Op::Acc(_) => cases.extend([vec![TOP, TOP, TOP], vec![1, TOP, 0], vec![0, 0, 0]]),
            Op::Add | Op::Mul => {
                for i in 0..n * n {
                    if i % (if th { 5 } else { 19 }) != 0 {
                        continue;
                    }
                    let (x, y, md) = (big(&p[i % n]), big(&p[i / n]), big(&p[(i * 5 + 1) % n]));
                    if md.is_zero() {
                        continue;
                    }
                    let t = if op == Op::Mul { &x * &y } else { &x + &y };
                    let (q, r) = (&t / &md, &t % &md);
                    let (Some(q), Some(r)) = (limbs(&q, N), limbs(&r, N)) else {
                        continue;
                    };
                    let z = if op == Op::Mul {
                        cat(&[&p[i % n], &p[i / n], &r, &q, &p[(i * 5 + 1) % n]])
                    } else {
                        cat(&[&p[i % n], &p[i / n], &r, &p[(i * 5 + 1) % n], &q[..1]])
                    };
                    let some: Vec<_> = nudges(&z, 2 * N..3 * N, false).into_iter().step_by(if th { 3 } else { 11 }).collect();
                    cases.push(z);
                    cases.extend(some);
                }
            }
            _ => {
                for i in 0..n * n {
                    if op != Op::Product || i % 7 == 0 || th {
                        cases.push(cat(&[&p[i % n], &p[i / n]]));
                    }
                }
            }
        }
        for x in &cases {
            let xs: Vec<Fb> = x.iter().map(|v| f(*v)).collect();
            judge("compiled", op, x, c.eval(&xs, &EmptyHintCaller));
        }
    });
}

pub fn c23() -> ! {
    let th = rt::thorough();
    // the oracle's own arithmetic
    let a = limbs(&(big(&[TOP; N]) + BigUint::one()), N + 1).unwrap();
    assert_eq!((a[0], a[N]), (0, 1));
    assert_eq!(to_l(limbs(&big(&[TOP - 3; N]), N).unwrap()), [TOP - 3; N]);
    family("products", || products(true));
    family("modular-products", || modmul(th));
    family("modular-sums", || modadd(th));
    family("comparisons", || compare(th));
    family("sums-and-bytes", || small(true));
    family("compiled", || compiled_runs(true));
    rt::finish_and_exit(
        Level::ModelChecking,
        "every pair of boundary limbs in every pair of positions, every pair of multi-limb patterns, every one-limb change of results and quotients; run by the debug builder and compiled",
        &["limbs are below 2^120 (the library's range proof of limbs is documented as missing) and hints are answered honestly"],
    )
}
