//! C21 lookup tables and range proofs; C27 matrix products.
use crate::cfgs::*;
use crate::g::*;
use crate::rt::{self, count, distinct, family, par, violation, Level};
use circuit_std_rs::logup::*;
use circuit_std_rs::matmul::{MatMulCircuit, MatMulParams};
use circuit_std_rs::StdCircuit;
use ethnum::U256;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use serde_json::json;
use std::collections::HashMap;

pub fn fe<C: Config>(v: u128) -> F<C> {
    F::<C>::from_u256(U256::new(v))
}
/// The field element -v.
pub fn neg<C: Config>(v: u128) -> F<C> {
    -fe::<C>(v)
}
pub fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = i % base;
            i /= base;
            d
        })
        .collect()
}

/// All hints of the lookup module, honest.
pub fn lookup_hints<T: Field + 'static>() -> HintRegistry<T> {
    let mut h = HintRegistry::<T>::new();
    h.register("myhint.querycounthint", query_count_hint::<T>);
    h.register("myhint.querycountbykeyhint", query_count_by_key_hint::<T>);
    h.register("myhint.rangeproofhint", rangeproof_hint::<T>);
    h
}

/// `f` runs the circuit under the given challenges. True iff it accepts on the whole grid S^m:
/// for an identity between polynomials of total degree < |S| that means the identity holds.
pub fn always(m: usize, s: usize, mut f: impl FnMut(&[u64]) -> bool) -> bool {
    let n = s.pow(m as u32);
    for i in 0..n {
        // spread the first points out, so that most failures show at once
        let i = (i * 7919 + n / 3) % n;
        let ch: Vec<u64> = digits(i, s, m).iter().map(|d| 11 + 3 * *d as u64).collect();
        if !f(&ch) {
            return false;
        }
    }
    true
}
/// Number of challenge tuples of the grid on which it accepts.
fn accepting(m: usize, s: usize, mut f: impl FnMut(&[u64]) -> bool) -> usize {
    (0..s.pow(m as u32)).filter(|i| f(&digits(*i, s, m).iter().map(|d| 11 + 3 * *d as u64).collect::<Vec<_>>())).count()
}

#[derive(Clone, Debug)]
enum Form {
    Circuit,
    Counts,
    Final,
}
#[derive(Clone, Debug)]
struct Look {
    form: Form,
    k: usize,
    v: usize,
    r: usize,
    q: usize,
    batch: bool,
}
impl Look {
    fn n_in(&self) -> usize {
        self.r * (self.k + self.v) + self.q * (self.k + self.v) + if matches!(self.form, Form::Final) { 0 } else { self.r }
    }
}
impl<C: Config> Gadget<C> for Look {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut it = x.iter().copied();
        let mut take = |n: usize, w: usize| -> Vec<Vec<Variable>> { (0..n).map(|_| (0..w).map(|_| it.next().unwrap()).collect()).collect() };
        let tk = take(self.r, self.k);
        let tv = take(self.r, self.v);
        let qk = take(self.q, self.k);
        let qv = take(self.q, self.v);
        match self.form {
            Form::Circuit => {
                let p = LogUpParams { key_len: self.k, value_len: self.v, n_table_rows: self.r, n_queries: self.q };
                let mut c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
                let (mut v, mut none) = (x, &[][..]);
                c.load_from(&mut v, &mut none);
                assert!(v.is_empty());
                c.define(api);
            }
            _ => {
                let mut t = LogUpSingleKeyTable::new(8);
                let key = |k: &Vec<Vec<Variable>>| k.iter().map(|x| x[0]).collect::<Vec<_>>();
                if self.batch {
                    t.new_table(key(&tk), tv);
                    t.batch_query(key(&qk), qv);
                } else {
                    for (k, v) in key(&tk).into_iter().zip(tv) {
                        t.add_table_row(k, v);
                    }
                    for (k, v) in key(&qk).into_iter().zip(qv) {
                        t.query(k, v);
                    }
                }
                if matches!(self.form, Form::Final) {
                    t.final_check(api);
                } else {
                    let c = take(1, self.r).pop().unwrap();
                    t.final_check_with_query_count(api, &c);
                }
            }
        }
        vec![]
    }
}

/// Every row of a tiny table, every query and every claimed count.
fn look_valid(s: &Look, cells: &[usize], counts: &[usize]) -> bool {
    let row = |a: usize, n: usize, i: usize| -> Vec<usize> {
        let k = &cells[a + i * s.k..a + (i + 1) * s.k];
        let vb = a + n * s.k;
        k.iter().chain(&cells[vb + i * s.v..vb + (i + 1) * s.v]).copied().collect()
    };
    let mut m: HashMap<Vec<usize>, i64> = HashMap::new();
    for i in 0..s.r {
        *m.entry(row(0, s.r, i)).or_default() += counts[i] as i64;
    }
    for i in 0..s.q {
        *m.entry(row(s.r * (s.k + s.v), s.q, i)).or_default() -= 1;
    }
    m.values().all(|v| *v == 0)
}

fn look_all<C: Config>(name: &str, s: Look, vals: usize, full: bool) {
    let cells = (s.r + s.q) * (s.k + s.v);
    let nc = if matches!(s.form, Form::Final) { 0 } else { s.r };
    let (n_cell, n_cnt) = (vals.pow(cells as u32), (s.q + 2).pow(nc as u32));
    let m = s.k + s.v;
    let d = s.r + s.q;
    let sz = d + 2;
    let comp = compiled::<C, _>(&s, s.n_in());
    let comp = match comp {
        Ok(c) => c,
        Err(e) => {
            violation(&format!("{name}: {s:?} compile"), &format!("lookup circuit {s:?} does not compile: {e}"), json!({"shape": format!("{s:?}")}));
            return;
        }
    };
    par(n_cell * n_cnt, |i| {
        let cs = digits(i / n_cnt, vals, cells);
        let cnt = digits(i % n_cnt, s.q + 2, nc);
        let keys_distinct = {
            let mut k: Vec<&[usize]> = (0..s.r).map(|i| &cs[i * s.k..(i + 1) * s.k]).collect();
            k.sort();
            k.windows(2).all(|w| w[0] != w[1])
        };
        let honest: Vec<usize> = if matches!(s.form, Form::Final) {
            // the count the honest party would use: queries per key
            (0..s.r).map(|r| (0..s.q).filter(|q| cs[s.r * (s.k + s.v) + q * s.k] == cs[r * s.k]).count()).collect()
        } else {
            cnt.clone()
        };
        let want = look_valid(&s, &cs, &honest);
        if matches!(s.form, Form::Final) && !keys_distinct && want {
            return;
        }
        let x: Vec<F<C>> = cs.iter().chain(&cnt).map(|v| fe::<C>(*v as u128)).collect();
        distinct(&(name, i));
        let dbg = |ch: &[u64]| {
            challenges(ch);
            let r = debug::<C, _, _>(&s, &x, lookup_hints::<F<C>>());
            free_challenges();
            r.is_ok()
        };
        let com = |ch: &[u64]| {
            challenges(ch);
            let r = comp.eval(&x, &lookup_hints::<F<C>>());
            free_challenges();
            r.is_ok()
        };
        for (how, got) in [
            ("directly", if full && !want { accepting(m, sz, dbg) > d * sz.pow(m as u32 - 1) } else { always(m, sz, dbg) }),
            ("compiled", if full && !want { accepting(m, sz, com) > d * sz.pow(m as u32 - 1) } else { always(m, sz, com) }),
        ] {
            rt::states(1);
            if got != want {
                violation(
                    &format!("{name}: {s:?} {cs:?} {cnt:?}"),
                    &format!(
                        "{name}: table and queries {cs:?} with counts {cnt:?} ({} keys, {} values, {} rows, {} queries), run {how}: {} although the queries are {} the table",
                        s.k, s.v, s.r, s.q,
                        if got { "accepted too often" } else { "rejected" },
                        if want { "in" } else { "not in" }
                    ),
                    json!({"shape": format!("{s:?}"), "cells": cs, "counts": cnt, "run": how}),
                );
            }
        }
    });
}

/// Keys that only differ far up, and large values.
fn look_wide<C: Config>(name: &str) {
    let p = F::<C>::MODULUS;
    let mut vals: Vec<U256> = vec![U256::ZERO, U256::ONE];
    for b in [8u32, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 252] {
        vals.push(U256::ONE << b);
        vals.push((U256::ONE << b) + 1);
    }
    vals.push(p - U256::ONE);
    vals.push(p - U256::new(2));
    vals.retain(|v| *v < p);
    vals.sort();
    vals.dedup();
    let n = vals.len();
    let s = Look { form: Form::Final, k: 1, v: 1, r: 2, q: 1, batch: false };
    // table rows (a,1), (b,2); one query (key, value)
    par(n * n * 2, |i| {
        let (a, b, w) = (vals[i % n], vals[i / n % n], i / n / n);
        if a == b {
            return;
        }
        for (qi, val) in [(0usize, 1u32), (0, 2), (1, 1), (1, 2)] {
            let key = [a, b][qi];
            let want = val as usize == qi + 1;
            let f = |u: U256| F::<C>::from_u256(u);
            let one = |u: u32| f(U256::from(u));
            // cells are keys of the table, values of the table, query key, query value
            let (t0, t1) = if w == 0 { ((a, 1), (b, 2)) } else { ((b, 2), (a, 1)) };
            let x = vec![f(t0.0), f(t1.0), one(t0.1), one(t1.1), f(key), one(val)];
            distinct(&(name, i, qi, val));
            let got = always(2, 5, |ch| {
                challenges(ch);
                let r = debug::<C, _, _>(&s, &x, lookup_hints::<F<C>>());
                free_challenges();
                r.is_ok()
            });
            rt::states(1);
            if got != want {
                violation(
                    &format!("{name}: wide {a} {b} {qi} {val}"),
                    &format!("{name}: table {{{a}: 1, {b}: 2}}, query {key} -> {val}: {}", if got { "accepted" } else { "rejected" }),
                    json!({"table": [a.to_string(), b.to_string()], "query": key.to_string(), "result": val}),
                );
            }
        }
    });
}

#[derive(Clone, Debug)]
struct Range {
    bits: usize,
    ns: Vec<usize>,
    /// chunks handed out by the adversary are appended to the inputs
    counts: bool,
}
impl<C: Config> Gadget<C> for Range {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut t = LogUpRangeProofTable::new(self.bits);
        t.initial(api);
        for (a, n) in x.iter().zip(&self.ns) {
            t.rangeproof(api, *a, *n);
        }
        if self.counts {
            t.final_check_with_query_count(api, &x[self.ns.len()..]);
        } else {
            t.final_check(api);
        }
        vec![]
    }
}

fn range_values<C: Config>(n: usize, bits: usize) -> Vec<U256> {
    let p = F::<C>::MODULUS;
    let mut v = vec![];
    let mut edge = |u: U256| {
        for d in 0..3u32 {
            v.push(u.wrapping_add(U256::from(d)) % p);
            v.push(u.wrapping_add(p).wrapping_sub(U256::from(d)) % p);
        }
    };
    edge(U256::ZERO);
    for e in [n.saturating_sub(1), n, n + 1, n / bits * bits, (n / bits + 1) * bits, n + bits, 31, 32, 64] {
        if e < 254 {
            edge((U256::ONE << e) % p);
            edge(p.wrapping_sub((U256::ONE << e) % p));
        }
    }
    let sh = (bits - n % bits) % bits;
    if n + sh < 250 {
        // what the shift of the top chunk would bring back into range
        let s = ((U256::ONE << sh) - 1) << n;
        edge(p.wrapping_sub(s % p));
        edge(s % p);
        edge(p.wrapping_sub(s % p).wrapping_add(U256::ONE << n) % p);
    }
    edge(p >> 1);
    v.sort();
    v.dedup();
    v
}

fn range_all<C: Config>(name: &str, max_bits: usize, max_n: usize, every: bool) {
    let mut cases = vec![];
    for bits in 1..=max_bits {
        for n in 1..=max_n {
            cases.push((bits, n));
        }
    }
    let p = F::<C>::MODULUS;
    par(cases.len(), |ci| {
        let (bits, n) = cases[cases.len() - 1 - ci];
        let s = Range { bits, ns: vec![n], counts: false };
        let vals: Vec<U256> = if every {
            (0..p.as_u64()).map(U256::from).collect()
        } else {
            range_values::<C>(n, bits)
        };
        let lim = if n >= 255 { U256::MAX } else { U256::ONE << n };
        // the degree in the challenge: rows and queries
        let deg = (1 << bits) + n + 2;
        for a in vals {
            if rt::stopped() {
                return;
            }
            let want = a < lim;
            let x = [F::<C>::from_u256(a)];
            distinct(&(name, bits, n, a.to_string()));
            let run = |ch: &[u64]| {
                challenges(ch);
                let r = debug::<C, _, _>(&s, &x, lookup_hints::<F<C>>());
                free_challenges();
                r
            };
            // an accepted value is tried with one challenge only, a rejected one is rejected by
            // the first challenge that exposes it
            let got = if want { run(&[977]).is_ok() && run(&[5]).is_ok() } else { always(1, deg, |ch| run(ch).is_ok()) };
            rt::states(1);
            if got != want {
                let why = if got { String::new() } else { format!(" ({})", run(&[977]).err().unwrap_or_default()) };
                violation(
                    &format!("{name}: range bits={bits} n={n} a={a}"),
                    &format!("{name}: range proof for {n} bits over a {bits}-bit table {} the value {a}{why}", if got { "accepts" } else { "rejects" }),
                    json!({"table_bits": bits, "n": n, "a": a.to_string()}),
                );
            }
        }
    });
}

/// Hints under the control of a cheating prover: chunks as given, counts honest for the chunks.
struct Cheat<T> {
    chunks: Vec<T>,
}
impl<T: Field + 'static> HintCaller<T> for Cheat<T> {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, Error> {
        if n == self.chunks.len() && args.len() == 3 {
            return Ok(self.chunks.clone());
        }
        // anything outside the table is simply not counted
        let _ = id;
        let mut o = vec![T::ZERO; n];
        for a in args {
            let v = a.to_u256();
            if v < U256::new(n as u128) {
                o[v.as_usize()] += T::ONE;
            }
        }
        Ok(o)
    }
}
/// No choice of chunks gets an out-of-range value through.
fn range_cheat<C: Config>(name: &str, max_bits: usize, max_n: usize, budget: usize) {
    let p = F::<C>::MODULUS;
    let mut cases = vec![];
    for bits in 1..=max_bits {
        for n in bits + 1..=max_n {
            let k = n.div_ceil(bits);
            // chunk values: the table, its successor and -1
            if ((1usize << bits) + 2).pow(k as u32) <= budget && (1usize << bits) > 1 {
                cases.push((bits, n, k));
            }
        }
    }
    par(cases.len(), |ci| {
        let (bits, n, k) = cases[cases.len() - 1 - ci];
        let s = Range { bits, ns: vec![n], counts: false };
        let top = 1u128 << bits;
        let cv: Vec<F<C>> = (0..=top).map(|v| fe::<C>(v)).chain([neg::<C>(1)]).collect();
        let lim = U256::ONE << n;
        let deg = (1 << bits) + k + 3;
        for t in 0..cv.len().pow(k as u32) {
            if rt::stopped() {
                return;
            }
            let ch: Vec<F<C>> = digits(t, cv.len(), k).iter().map(|d| cv[*d]).collect();
            // the values these chunks could stand for: their sum, and the sum less every shift
            let sum = ch.iter().enumerate().fold(F::<C>::ZERO, |a, (i, c)| a + *c * F::<C>::from_u256((U256::ONE << (bits * i)) % p));
            let sh = (bits - n % bits) % bits;
            let mut cand = vec![sum];
            if sh > 0 {
                cand.push(sum - F::<C>::from_u256((((U256::ONE << sh) - 1) << n) % p));
            }
            for a in cand {
                let honest = a.to_u256() < lim;
                if honest {
                    continue;
                }
                distinct(&(name, bits, n, t, a.to_u256().to_string()));
                let got = always(1, deg, |c| {
                    challenges(c);
                    let r = debug::<C, _, _>(&s, &[a], Cheat { chunks: ch.clone() });
                    free_challenges();
                    r.is_ok()
                });
                rt::states(1);
                if got {
                    violation(
                        &format!("{name}: cheat bits={bits} n={n} a={} chunks={ch:?}", a.to_u256()),
                        &format!("{name}: range proof for {n} bits over a {bits}-bit table accepts {} with chunks {ch:?}", a.to_u256()),
                        json!({"table_bits": bits, "n": n, "a": a.to_u256().to_string()}),
                    );
                }
            }
        }
    });
}

/// Several range proofs through one table, compiled and direct, and with counts as inputs.
fn range_multi<C: Config>(name: &str, bits: usize, ns: &[usize], vals: &[i64]) {
    let s = Range { bits, ns: ns.to_vec(), counts: false };
    let k = ns.len();
    let comp = match compiled::<C, _>(&s, k) {
        Ok(c) => c,
        Err(e) => {
            violation(&format!("{name}: {s:?}"), &format!("range proof {s:?} does not compile: {e}"), json!({}));
            return;
        }
    };
    let deg = (1 << bits) + 3 * k + ns.iter().sum::<usize>();
    par(vals.len().pow(k as u32), |i| {
        let a: Vec<i64> = digits(i, vals.len(), k).iter().map(|d| vals[*d]).collect();
        let x: Vec<F<C>> = a.iter().map(|v| if *v < 0 { neg::<C>(-*v as u128) } else { fe::<C>(*v as u128) }).collect();
        let want = a.iter().zip(ns).all(|(v, n)| *v >= 0 && *v < 1 << n);
        distinct(&(name, bits, ns, &a));
        if let Err(e) = comp.eval(&x, &lookup_hints::<F<C>>()) {
            if e.contains("panic") {
                violation(&format!("{name}: multi {ns:?} {a:?} crash"), &format!("{name}: solving range proofs {ns:?} of {a:?} crashes: {e}"), json!({"values": a}));
            }
        }
        for (how, got) in [
            ("directly", always(1, deg, |c| {
                challenges(c);
                let r = debug::<C, _, _>(&s, &x, lookup_hints::<F<C>>()).is_ok();
                free_challenges();
                r
            })),
            ("compiled", always(1, deg, |c| {
                challenges(c);
                let r = comp.eval(&x, &lookup_hints::<F<C>>()).is_ok();
                free_challenges();
                r
            })),
        ] {
            rt::states(1);
            if got != want {
                violation(
                    &format!("{name}: multi {ns:?} {a:?}"),
                    &format!("{name}: range proofs {ns:?} over a {bits}-bit table, run {how}, {} the values {a:?}", if got { "accept" } else { "reject" }),
                    json!({"table_bits": bits, "ns": ns, "values": a}),
                );
            }
        }
    });
}

/// The counts of a range table as inputs: only the true ones are accepted.
fn range_counts<C: Config>(name: &str) {
    for bits in 1..=2usize {
        let rows = 1usize << bits;
        for q in 1..=2usize {
            let s = Range { bits, ns: vec![bits; q], counts: true };
            let vals: Vec<u128> = (0..=rows as u128).collect();
            let (nv, nc) = (vals.len().pow(q as u32), (q + 2).pow(rows as u32));
            par(nv * nc, |i| {
                let a: Vec<u128> = digits(i / nc, vals.len(), q).iter().map(|d| vals[*d]).collect();
                let c = digits(i % nc, q + 2, rows);
                let want = (0..rows).all(|r| a.iter().filter(|v| **v == r as u128).count() == c[r]) && a.iter().all(|v| *v < rows as u128);
                let x: Vec<F<C>> = a.iter().copied().chain(c.iter().map(|v| *v as u128)).map(|v| fe::<C>(v)).collect();
                distinct(&(name, bits, &a, &c));
                let got = always(1, rows + q + 2, |ch| {
                    challenges(ch);
                    let r = debug::<C, _, _>(&s, &x, lookup_hints::<F<C>>()).is_ok();
                    free_challenges();
                    r
                });
                rt::states(1);
                if got != want {
                    violation(
                        &format!("{name}: counts {bits} {a:?} {c:?}"),
                        &format!("{name}: {bits}-bit range table, queries {a:?} with counts {c:?}: {}", if got { "accepted" } else { "rejected" }),
                        json!({"queries": a.iter().map(|x| *x as u64).collect::<Vec<_>>(), "counts": c}),
                    );
                }
            });
        }
    }
}

pub fn c21() -> ! {
    let th = rt::thorough();
    let l = |form: Form, k, v, r, q| Look { form, k, v, r, q, batch: (r + q) % 2 == 0 };
    family("lookup", || {
        for r in 1..=3 {
            for q in 0..=3 {
                if r + q <= if th { 6 } else { 5 } {
                    look_all::<C16n>("lookup", l(Form::Circuit, 1, 1, r, q), 2, r + q <= 3);
                    if q > 0 {
                        look_all::<C16n>("lookup with counts", l(Form::Counts, 1, 1, r, q), 2, false);
                        look_all::<C16n>("lookup", l(Form::Final, 1, 1, r, q), if r + q <= 3 { 3 } else { 2 }, r + q <= 2);
                    }
                }
            }
        }
    });
    family("lookup-columns", || {
        for (k, v, r, q) in [(1, 2, 1, 1), (2, 1, 1, 1), (2, 1, 2, 1), (1, 2, 2, 1), (1, 2, 1, 2), (1, 0, 2, 2), (1, 0, 3, 2), (2, 0, 2, 2), (2, 2, 1, 1)] {
            look_all::<C16n>("lookup", l(Form::Circuit, k, v, r, q), 2, (k + v) * (r + q) <= 6);
            if k == 1 && v > 0 {
                look_all::<C16n>("lookup with counts", l(Form::Counts, k, v, r, q), 2, false);
                look_all::<C16n>("lookup", l(Form::Final, k, v, r, q), 2, false);
            }
        }
        if th {
            for (k, v, r, q) in [(1, 2, 2, 2), (2, 1, 2, 2), (1, 3, 1, 1), (1, 0, 4, 3), (1, 0, 3, 4)] {
                look_all::<C16n>("lookup", l(Form::Circuit, k, v, r, q), 2, false);
            }
        }
    });
    family("wide-keys", || {
        look_wide::<M31Config>("lookup over M31");
        look_wide::<BN254Config>("lookup over BN254");
        look_wide::<GoldilocksConfig>("lookup over Goldilocks");
    });
    family("range-every", || range_all::<C16n>("65537", if th { 6 } else { 4 }, if th { 20 } else { 12 }, true));
    family("range-edges", || {
        range_all::<M31Config>("M31", if th { 12 } else { 9 }, 40, false);
        range_all::<BN254Config>("BN254", if th { 10 } else { 8 }, 128, false);
        range_all::<GoldilocksConfig>("Goldilocks", 8, 80, false);
        if th {
            range_all::<M31Config>("M31", 8, 128, false);
        }
    });
    family("range-cheat", || {
        range_cheat::<C16n>("65537", 4, 12, if th { 2_000_000 } else { 40_000 });
        range_cheat::<M31Config>("M31", 3, 12, if th { 200_000 } else { 20_000 });
    });
    family("range-multi", || {
        let v = [-4, -1, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16];
        range_multi::<C16n>("65537", 2, &[2, 2], &v);
        range_multi::<C16n>("65537", 2, &[1, 3], &v);
        range_multi::<C16n>("65537", 2, &[4], &v);
        range_multi::<C16n>("65537", 3, &[2, 4], &v);
        range_multi::<C16n>("65537", 1, &[2, 3], &v);
        range_multi::<BN254Config>("BN254", 2, &[3, 2], &v);
        if th {
            range_multi::<C16n>("65537", 2, &[2, 3, 1], &v);
        }
    });
    family("range-counts", || range_counts::<C16n>("65537"));
    count("table shapes", 1);
    rt::finish_and_exit(
        Level::ModelChecking,
        "every table, query list and count vector over tiny domains, every value of a 16-bit field and every boundary value of the production fields for range proofs, every choice of chunks by a cheating prover; a verdict is 'accepted on the whole challenge grid', which is exact for polynomials of lower degree than the grid",
        &["challenges are drawn from the whole field by the proof system", "the hints are the library's own except where stated"],
    )
}

// ---------------------------------------------------------------- matrix products

#[derive(Clone, Debug)]
struct Mat {
    a: (usize, usize),
    b: (usize, usize),
    c: (usize, usize),
}
impl<C: Config> Gadget<C> for Mat {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let p = MatMulParams { m1: self.a.0, n1: self.a.1, m2: self.b.0, n2: self.b.1 };
        let mut m = <MatMulCircuit as StdCircuit<C>>::new_circuit(&p);
        let (mut v, mut none) = (x, &[][..]);
        m.load_from(&mut v, &mut none);
        assert!(v.is_empty());
        m.define(api);
        vec![]
    }
}
fn mat_case<C: Config>(name: &str, s: &Mat, comp: Option<&Comp<C>>, x: &[F<C>], m: usize, full: bool) {
    let ((r, n), (_, w)) = (s.a, s.b);
    let (b, c) = (r * n, r * n + n * w);
    let want = (0..r).all(|i| (0..w).all(|j| (0..n).fold(F::<C>::ZERO, |t, k| t + x[i * n + k] * x[b + k * w + j]) == x[c + i * w + j]));
    // the identity is a polynomial of degree <= w in each of the m challenges
    let sz = w + 2;
    let dbg = |ch: &[u64]| {
        challenges(ch);
        let r = debug::<C, _, _>(s, x, EmptyHintCaller).is_ok();
        free_challenges();
        r
    };
    let com = |ch: &[u64]| {
        challenges(ch);
        let r = comp.unwrap().eval(x, &EmptyHintCaller).is_ok();
        free_challenges();
        r
    };
    let judge = |f: &dyn Fn(&[u64]) -> bool| {
        if full && !want {
            // each draw exposes the difference on all but w of the sz points
            accepting(m, sz, f) > w.pow(m as u32)
        } else {
            always(m, sz, f)
        }
    };
    let mut runs = vec![("directly", judge(&dbg))];
    if comp.is_some() {
        runs.push(("compiled", judge(&com)));
    }
    for (how, got) in runs {
        rt::states(1);
        if got != want {
            let v: Vec<String> = x.iter().map(|v| v.to_u256().to_string()).collect();
            violation(
                &format!("{name}: {s:?} {v:?}"),
                &format!("{name}: product of {:?} and {:?} claimed to be {:?} ({:?} x {:?}), run {how}: {}", &v[..b], &v[b..c], &v[c..], s.a, s.b, if got { "accepted although wrong" } else { "rejected although right" }),
                json!({"shape": format!("{s:?}"), "values": v}),
            );
        }
    }
}
fn mat_all<C: Config>(name: &str, r: usize, n: usize, w: usize, vals: usize, m: usize, full: bool) {
    let s = Mat { a: (r, n), b: (n, w), c: (r, w) };
    let cells = r * n + n * w + r * w;
    let comp = match compiled::<C, _>(&s, cells) {
        Ok(c) => c,
        Err(e) => {
            violation(&format!("{name}: {s:?}"), &format!("matrix circuit {s:?} does not compile: {e}"), json!({}));
            return;
        }
    };
    let vs: Vec<F<C>> = [fe::<C>(0), fe::<C>(1), neg::<C>(1), fe::<C>(2)][..vals].to_vec();
    par(vals.pow(cells as u32), |i| {
        let x: Vec<F<C>> = digits(i, vals, cells).iter().map(|d| vs[*d]).collect();
        distinct(&(name, r, n, w, i));
        // (with the random combination of assertions the compiled circuit draws further challenges)
        let c = if C::ENABLE_RANDOM_COMBINATION { None } else { Some(&comp) };
        mat_case::<C>(name, &s, c, &x, m, full);
    });
}
/// A true product with every one- and two-entry error.
fn mat_errors<C: Config>(name: &str, r: usize, n: usize, w: usize, m: usize) {
    let s = Mat { a: (r, n), b: (n, w), c: (r, w) };
    let c = r * n + n * w;
    let mut cases = vec![];
    for fill in 0..4usize {
        let mut x: Vec<F<C>> = (0..c)
            .map(|i| match fill {
                0 => fe::<C>(i as u128 + 2),
                1 => neg::<C>((i * i) as u128 + 1),
                2 => fe::<C>((i % 3 == 1) as u128),
                _ => fe::<C>((i >= r * n) as u128 * (i as u128)),
            })
            .collect();
        for i in 0..r {
            for j in 0..w {
                x.push((0..n).fold(F::<C>::ZERO, |t, k| t + x[i * n + k] * x[r * n + k * w + j]));
            }
        }
        cases.push(x.clone());
        for e in 0..r * w {
            for d in [fe::<C>(1), neg::<C>(1), fe::<C>(1 << 16)] {
                let mut y = x.clone();
                y[c + e] += d;
                cases.push(y.clone());
                for e2 in 0..e {
                    for d2 in [fe::<C>(1), neg::<C>(1)] {
                        let mut z = y.clone();
                        z[c + e2] += d2;
                        cases.push(z);
                    }
                }
            }
        }
    }
    par(cases.len(), |i| {
        distinct(&(name, r, n, w, i));
        mat_case::<C>(name, &s, None, &cases[i], m, false);
    });
}

pub fn c27() -> ! {
    let th = rt::thorough();
    family("tiny", || {
        for (r, n, w) in [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1), (1, 1, 3)] {
            mat_all::<C16n>("65537", r, n, w, if r * n + n * w + r * w <= 7 { 3 } else { 2 }, 1, true);
        }
        mat_all::<C16n>("65537", 2, 2, 2, 2, 1, true);
        mat_all::<BN254Config>("BN254", 1, 2, 2, 2, 1, true);
        // three rounds over M31
        for (r, n, w) in [(1, 1, 1), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2)] {
            mat_all::<M31Config>("M31", r, n, w, if th { 3 } else { 2 }, 3, r * n + n * w + r * w <= 5);
        }
        if th {
            mat_all::<C16n>("65537", 1, 2, 3, 2, 1, true);
            mat_all::<C16n>("65537", 2, 1, 3, 2, 1, true);
            mat_all::<C16n>("65537", 1, 3, 2, 2, 1, true);
            mat_all::<C16n>("65537", 2, 2, 2, 3, 1, false);
            mat_all::<C16n>("65537", 2, 3, 2, 2, 1, false);
        }
    });
    family("errors", || {
        for (r, n, w) in [(2, 2, 2), (3, 2, 3), (2, 3, 4), (3, 4, 5), (1, 5, 6)] {
            mat_errors::<C16n>("65537", r, n, w, 1);
            mat_errors::<BN254Config>("BN254", r, n, w, 1);
            mat_errors::<GoldilocksConfig>("Goldilocks", r, n, w, 1);
            mat_errors::<M31Config>("M31", r, n, w, 3);
        }
    });
    family("shapes", || {
        // matrices that do not fit are refused, matrices that do are not
        for i in 0..256usize {
            let d: Vec<usize> = digits(i, 4, 4).iter().map(|x| x + 1).collect();
            let s = Mat { a: (d[0], d[1]), b: (d[2], d[3]), c: (d[0], d[3]) };
            let fits = d[1] == d[2];
            let n = d[0] * d[1] + d[2] * d[3] + d[0] * d[3];
            distinct(&("shape", i));
            rt::states(1);
            // zero matrices of any shape are equal wherever they can be compared at all
            let got = debug::<C16n, _, _>(&s, &vec![fe::<C16n>(0); n], EmptyHintCaller).is_ok();
            let com = compiled::<C16n, _>(&s, n).is_ok();
            if got != fits || com != fits {
                violation(
                    &format!("shape {d:?}"),
                    &format!("matrices of shapes {:?} and {:?}: {}", s.a, s.b, if fits { "refused" } else { "accepted" }),
                    json!({"shapes": d}),
                );
            }
        }
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "every triple of tiny matrices over {0,1,-1}, true products with every one- and two-entry error for larger ones, every challenge of a grid larger than the degree; every shape up to 3x3",
        &["challenges are drawn from the whole field by the proof system"],
    )
}
