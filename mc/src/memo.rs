//! C12: cached circuit functions against direct calls.
use crate::cfgs::*;
use crate::opts::{all_opts, Opt};
use crate::rt::{self, violation, Level};
use ethnum::U256;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::*;
use serde_json::json;
use std::cell::RefCell;
use std::sync::Arc;

/// A result with its shape.
#[derive(Clone, Debug)]
pub enum T {
    V(Variable),
    L(Vec<T>),
}
impl From<Variable> for T {
    fn from(v: Variable) -> T {
        T::V(v)
    }
}
impl From<()> for T {
    fn from(_: ()) -> T {
        T::L(vec![])
    }
}
impl<X: Into<T>> From<Vec<X>> for T {
    fn from(v: Vec<X>) -> T {
        T::L(v.into_iter().map(|x| x.into()).collect())
    }
}
impl T {
    fn shape(&self, s: &mut String, vars: &mut Vec<Variable>) {
        match self {
            T::V(v) => {
                s.push('.');
                vars.push(*v)
            }
            T::L(l) => {
                s.push('[');
                for t in l {
                    t.shape(s, vars);
                }
                s.push(']');
            }
        }
    }
}

type Fun<B> = fn(&mut B, &Vec<Variable>) -> Vec<Variable>;
#[allow(clippy::all)]
mod memo {
    use super::*;
    fn simple<C: Config, B: RootAPI<C>, F: Fn(&mut B, &Vec<Variable>) -> Vec<Variable> + 'static>(api: &mut B, f: F, x: &[Variable]) -> Vec<Variable> {
        api.memorized_simple_call(f, x)
    }
    fn ptr<C: Config, B: RootAPI<C>>(api: &mut B, f: Fun<B>, x: &[Variable]) -> Vec<Variable> {
        api.memorized_simple_call(f, x)
    }
    include!("memo_fns.rs");
}
#[allow(clippy::all)]
mod direct {
    use super::*;
    fn simple<C: Config, B: RootAPI<C>, F: Fn(&mut B, &Vec<Variable>) -> Vec<Variable> + 'static>(api: &mut B, f: F, x: &[Variable]) -> Vec<Variable> {
        f(api, &x.to_vec())
    }
    fn ptr<C: Config, B: RootAPI<C>>(api: &mut B, f: Fun<B>, x: &[Variable]) -> Vec<Variable> {
        f(api, &x.to_vec())
    }
    include!(concat!(env!("OUT_DIR"), "/direct.rs"));
}

/// calls: (number of the call, how its operands are chosen)
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Hist(pub Arc<Vec<(usize, u8)>>, bool);
declare_circuit!(Cir { x: [Variable], h: Hist });
thread_local! {
    static SHAPES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let (x, y) = (self.x[0], self.x[1]);
        let two = api.constant(2);
        let mut outs = vec![];
        let mut last = api.add(x, 1);
        SHAPES.with(|s| s.borrow_mut().clear());
        for (k, o) in self.h.0.iter() {
            let ops = match o {
                0 => [x, y, two],
                1 => [last, x, y],
                _ => [y, y, last],
            };
            let r = if self.h.1 { memo::call(api, *k, ops) } else { direct::call(api, *k, ops) };
            let mut s = String::new();
            let n = outs.len();
            r.shape(&mut s, &mut outs);
            SHAPES.with(|c| c.borrow_mut().push(s));
            if outs.len() > n {
                last = outs[outs.len() - 1];
            }
        }
        outs.push(x);
        outs.push(last);
        api.set_outputs(outs);
    }
}

type Res = Result<Vec<U256>, String>;
fn nums<F: FieldArith>(v: &[F]) -> Vec<U256> {
    v.iter().map(|v| v.to_u256()).collect()
}
fn shapes() -> Vec<String> {
    SHAPES.with(|s| s.borrow().clone())
}

fn check<C: Config>(tag: &str, h: Vec<(usize, u8)>, p: u32, o: Opt, cross: bool) {
    let h = Arc::new(h);
    let cir = |m: bool| Cir::<Variable> { x: vec![Variable::default(); 2], h: Hist(h.clone(), m) };
    let bad = |w: &str, more: String| {
        violation(
            &format!("{w}:{:x}", rt::hash_of(&(tag, &h, o, cross))),
            &format!("{w} [{tag} {o}{}] calls {h:?}: {more}", if cross { " cross-layer" } else { "" }),
            json!({"field": tag, "calls (number in mc/src/memo_fns.rs, operand choice)": *h, "options": o.to_string(), "more": more}),
        )
    };
    rt::distinct(&(tag, &h));
    type Run<C> = Box<dyn Fn(&Cir<CircuitField<C>>) -> Res>;
    fn solve<C: Config>(ws: &WitnessSolver<C>, a: &Cir<CircuitField<C>>, run: impl Fn(&expander_compiler::circuit::layered::witness::Witness<C>) -> (Vec<bool>, Vec<Vec<CircuitField<C>>>)) -> Res {
        let w = ws.solve_witness(a).map_err(|e| format!("{e:?}"))?;
        let (ok, outs) = run(&w);
        if ok == [true] {
            Ok(nums(&outs[0]))
        } else {
            Err("rejected".into())
        }
    }
    let built: Result<Run<C>, String> = rt::guard(|| -> Result<Run<C>, String> {
        if cross {
            let CompileResultCrossLayer { witness_solver, layered_circuit } = compile_cross_layer::<C, _>(&cir(true), o.real()).map_err(|e| format!("{e:?}"))?;
            Ok(Box::new(move |a| solve(&witness_solver, a, |w| layered_circuit.run_with_output(w))))
        } else {
            let CompileResult { witness_solver, layered_circuit } = compile::<C, _>(&cir(true), o.real()).map_err(|e| format!("{e:?}"))?;
            Ok(Box::new(move |a| solve(&witness_solver, a, |w| layered_circuit.run_with_output(w))))
        }
    })
    .and_then(|r| r);
    let compiled_shapes = shapes();
    let run = match built {
        Ok(r) => r,
        // a function whose results do not depend on its arguments may be refused
        Err(e) if e.contains("circuit has no inputs") && h.iter().any(|c| memo::FIXED.contains(&c.0)) => return,
        Err(e) => return bad("compiling with cached calls fails", e),
    };
    for x in 0..p {
        for y in 0..p {
            rt::states(1);
            rt::evals(1);
            let asg = |m: bool| Cir::<CircuitField<C>> { x: vec![CircuitField::<C>::from(x), CircuitField::<C>::from(y)], h: Hist(h.clone(), m) };
            let d = rt::guard(|| nums(&debug_eval::<C, _, _, _>(&cir(false), &asg(false), EmptyHintCaller)));
            let ds = shapes();
            if d.is_ok() && ds != compiled_shapes {
                return bad("result shape", format!("compiled {compiled_shapes:?}, direct {ds:?}"));
            }
            let m = rt::guard(|| nums(&debug_eval::<C, _, _, _>(&cir(true), &asg(true), EmptyHintCaller)));
            if d.is_ok() != m.is_ok() || d.is_ok() && (d != m || ds != shapes()) {
                return bad("cached calls in debug evaluation", format!("x={x} y={y}: {m:?} {:?}, direct calls give {d:?} {ds:?}", shapes()));
            }
            let c = rt::guard(|| run(&asg(true))).and_then(|r| r);
            rt::transitions(3);
            rt::traces(1);
            if d.is_ok() != c.is_ok() || d.is_ok() && d != c {
                return bad("compiled cached calls", format!("x={x} y={y}: {c:?}, direct calls give {d:?}"));
            }
        }
    }
}

// ----------------------------------------------------------------- every argument tuple is its own
mod sigs {
    use super::*;
    type V = Variable;
    fn num<C: Config, B: RootAPI<C>>(api: &mut B, x: V, l: &[i64]) -> Vec<V> {
        l.iter().map(|k| api.add(x, (*k % 2147483647 + 2147483647) as u32 % 2147483647)).collect()
    }
    #[memorized]
    fn u32s<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, a: u32, b: u32) -> Vec<Variable> {
        num(api, x, &[a as i64, b as i64])
    }
    #[memorized]
    fn i64s<C: Config, B: RootAPI<C>>(api: &mut B, a: i64, x: Variable, b: i32, c: isize) -> Vec<Variable> {
        num(api, x, &[a, b as i64, c as i64])
    }
    #[memorized]
    fn u64s<C: Config, B: RootAPI<C>>(api: &mut B, a: &u64, b: usize, x: &Variable) -> Vec<Variable> {
        num(api, *x, &[(a >> 32) as i64, (a & 0xffff_ffff) as i64, (b >> 32) as i64, (b & 0xffff_ffff) as i64])
    }
    #[memorized]
    fn vecs<C: Config, B: RootAPI<C>>(api: &mut B, x: &Variable, a: &Vec<u32>, b: Vec<u32>) -> Vec<Vec<Variable>> {
        let l = |v: &Vec<u32>| v.iter().map(|k| *k as i64).collect::<Vec<_>>();
        vec![num(api, *x, &l(a)), num(api, *x, &l(&b))]
    }
    #[memorized]
    fn nested<C: Config, B: RootAPI<C>>(api: &mut B, x: &Variable, a: &Vec<Vec<i32>>, b: i32) -> Vec<Vec<Variable>> {
        let mut r: Vec<Vec<V>> = a.iter().map(|v| num(api, *x, &v.iter().map(|k| *k as i64).collect::<Vec<_>>())).collect();
        r.push(num(api, *x, &[b as i64]));
        r
    }
    #[memorized]
    fn shapes<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Vec<Variable>>, n: u32, w: &Vec<Variable>) -> Vec<Vec<Variable>> {
        let mut r = vec![];
        for (i, l) in v.iter().chain([w]).enumerate() {
            r.push(l.iter().enumerate().map(|(j, x)| api.add(x, (i * 10 + j) as u32 + n * 100)).collect());
        }
        r
    }
    fn lists<X: Clone>(of: &[X], max: usize) -> Vec<Vec<X>> {
        let mut r = vec![vec![]];
        let mut k = 0;
        while k < r.len() {
            if r[k].len() < max {
                for v in of {
                    let t = [&r[k][..], &[v.clone()]].concat();
                    r.push(t);
                }
            }
            k += 1;
        }
        r
    }
    /// One call per argument tuple; calls and what they return, as offsets to the first input.
    #[allow(clippy::type_complexity)]
    pub fn all<C: Config, B: RootAPI<C>>(which: usize, th: bool) -> Vec<(Vec<Vec<i64>>, Box<dyn Fn(&mut B, V) -> Vec<Vec<V>>>)> {
        let mut r: Vec<(Vec<Vec<i64>>, Box<dyn Fn(&mut B, V) -> Vec<Vec<V>>>)> = vec![];
        let us = [0u32, 1, 2, 9, 10, 11, 12, 21, 100, 110, 111, 112, 1000000007, u32::MAX];
        let is = [0i64, 1, -1, 2, 10, -10, 11, -11, 99, 100, 1 << 33, -(1 << 33)];
        match which {
            0 => {
                for a in us {
                    for b in us {
                        r.push((vec![vec![a as i64, b as i64]], Box::new(move |api, x| vec![memorized_u32s(api, x, a, b)])));
                    }
                }
            }
            1 => {
                for a in is {
                    for b in is {
                        for c in [0, -1, 1, 11] {
                            let b = b as i32;
                            r.push((vec![vec![a, b as i64, c as i64]], Box::new(move |api, x| vec![memorized_i64s(api, a, x, b, c)])));
                        }
                    }
                }
            }
            2 => {
                let l = [0u64, 1, 10, 11, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63];
                for a in l {
                    for b in l {
                        r.push((
                            vec![vec![(a >> 32) as i64, (a & 0xffff_ffff) as i64, (b >> 32) as i64, (b & 0xffff_ffff) as i64]],
                            Box::new(move |api, x| vec![memorized_u64s(api, &a, b as usize, &x)]),
                        ));
                    }
                }
            }
            3 => {
                for a in lists(&[0u32, 1, 2, 11, 12], if th { 3 } else { 2 }) {
                    for b in lists(&[0u32, 1, 2, 11, 12], 2) {
                        let l = |v: &Vec<u32>| v.iter().map(|k| *k as i64).collect::<Vec<_>>();
                        let (a, b) = (a.clone(), b.clone());
                        r.push((vec![l(&a), l(&b)], Box::new(move |api, x| memorized_vecs(api, &x, &a, b.clone()))));
                    }
                }
            }
            4 => {
                let inner = lists(&[0i32, 1, -1, 11], 2);
                for a in lists(&inner, if th { 3 } else { 2 }) {
                    for b in [0, 1, 11] {
                        let mut w: Vec<Vec<i64>> = a.iter().map(|v| v.iter().map(|k| *k as i64).collect()).collect();
                        w.push(vec![b as i64]);
                        let a = a.clone();
                        r.push((w, Box::new(move |api, x| memorized_nested(api, &x, &a, b))));
                    }
                }
            }
            _ => {
                let lens = lists(&[0usize, 1, 2, 3], 3);
                for l in lens {
                    for n in [0u32, 1, 11] {
                        for m in 0..4usize {
                            if l.iter().sum::<usize>() + m == 0 {
                                continue; // no inputs at all
                            }
                            let w = l.iter().chain([&m]).enumerate().map(|(i, k)| (0..*k).map(|j| (i * 10 + j) as i64 + n as i64 * 100).collect()).collect();
                            let l = l.clone();
                            r.push((
                                w,
                                Box::new(move |api, x| {
                                    let v = l.iter().map(|k| vec![x; *k]).collect();
                                    memorized_shapes(api, &v, n, &vec![x; m])
                                }),
                            ));
                        }
                    }
                }
            }
        }
        r
    }
}
#[derive(Clone, Debug, Default)]
pub struct Which(usize, usize, bool);
declare_circuit!(Sig { x: [Variable], w: Which });
impl<C: Config> Define<C> for Sig<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let Which(w, order, th) = self.w;
        let mut l = sigs::all::<C, B>(w, th);
        if order == 1 {
            l.reverse();
        }
        let mut outs = vec![];
        let mut shapes = vec![];
        for (want, f) in &l {
            let r = f(api, self.x[0]);
            shapes.push(format!("{:?}", r.iter().map(|v| v.len()).collect::<Vec<_>>()));
            assert_eq!(r.iter().map(|v| v.len()).collect::<Vec<_>>(), want.iter().map(|v| v.len()).collect::<Vec<_>>(), "shape of the result");
            outs.extend(r.into_iter().flatten());
        }
        outs.push(self.x[0]);
        api.set_outputs(outs);
    }
}
fn signature(w: usize, order: usize) {
    type C = M31Config;
    let th = rt::thorough();
    let cir = Sig::<Variable> { x: vec![Variable::default()], w: Which(w, order, th) };
    let mut want: Vec<(String, Vec<i64>)> = sigs::all::<C, API<C>>(w, th).into_iter().map(|(v, _)| (format!("{v:?}"), v.into_iter().flatten().collect())).collect();
    if order == 1 {
        want.reverse();
    }
    let bad = |what: &str, more: String| violation(&format!("arguments {w} {order}: {what}"), &format!("calls of one cached function with different arguments (signature {w}): {what}: {more}"), json!({"signature": w, "order": order, "more": more}));
    let x = 5u32;
    let asg = Sig::<CircuitField<C>> { x: vec![CircuitField::<C>::from(x)], w: Which(w, order, th) };
    rt::evals(want.len() as u64);
    rt::states((want.len() * want.len()) as u64);
    let got: Vec<(&str, Result<Vec<U256>, String>)> = vec![
        ("debug evaluation", rt::guard(|| nums(&debug_eval::<C, _, _, _>(&cir, &asg, EmptyHintCaller)))),
        (
            "compiled",
            rt::guard(|| {
                let r = compile::<C, _>(&cir, Opt { level: 1, ..all_opts()[0] }.real()).unwrap();
                let wi = r.witness_solver.solve_witness(&asg).unwrap();
                let (ok, o) = r.layered_circuit.run_with_output(&wi);
                assert!(ok[0]);
                nums(&o[0])
            }),
        ),
    ];
    for (m, g) in got {
        match g {
            Err(e) => bad(m, e),
            Ok(v) => {
                let mut i = 0;
                for (name, l) in &want {
                    rt::traces(1);
                    for k in l {
                        let e = (*k + x as i64).rem_euclid(2147483647);
                        if v[i] != U256::new(e as u128) {
                            return bad(m, format!("the call with {name} gives {:?} for {e}", v[i]));
                        }
                        i += 1;
                    }
                }
            }
        }
    }
}

pub fn c12() {
    let th = rt::thorough();
    let opts = all_opts();
    let items: Vec<(usize, u8)> = (0..memo::N).flat_map(|k| (0..3).map(move |o| (k, o))).collect();
    rt::family("one_call", || {
        rt::par(items.len() * opts.len(), |i| {
            let (it, o) = (items[i / opts.len()], opts[i % opts.len()]);
            check::<C3n>("F3", vec![it], 3, o, false);
            check::<C3n>("F3", vec![it, it], 3, o, true);
            check::<C5n>("F5", vec![it], 5, o, true);
        })
    });
    rt::family("two_calls", || {
        rt::par(items.len() * items.len(), |i| {
            let (a, b) = (items[i / items.len()], items[i % items.len()]);
            if !th && i % 3 != 0 && a.0 != b.0 && a.1 != 0 {
                return;
            }
            check::<C3n>("F3", vec![a, b], 3, opts[i % opts.len()], i % 5 == 0);
        })
    });
    rt::family("three_calls", || {
        let n = memo::N;
        let step = if th { 1 } else { 3 };
        rt::par(n * n, |ij| {
            let (a, b) = (ij / n, ij % n);
            for c in 0..n {
                let i = ij * n + c;
                // different calls in between two calls of one function always, others by turns
                if a == c || i % step == 0 {
                    check::<C3n>("F3", vec![(a, (i % 3) as u8), (b, 1), (c, (i / 3 % 3) as u8)], 3, opts[i % opts.len()], i % 4 == 0);
                }
                if rt::stopped() {
                    return;
                }
            }
        })
    });
    rt::family("arguments", || rt::par(12, |i| signature(i / 2, i % 2)));
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per call history and input pair; distinct by history; in the argument families one per argument tuple",
        &["the alphabet of cached functions is the one in mc/src/memo_fns.rs", "histories of up to three calls; in the quick tier a part of the triples"],
    );
}
