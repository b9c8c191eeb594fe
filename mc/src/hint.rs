//! C14: user hints get their arguments and deliver their results verbatim, everywhere.
use crate::cfgs::*;
use crate::opts::*;
use crate::rt::{self, violation, Level};
use ethnum::U256;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::*;
use expander_compiler::hints::registry::hint_key_to_id;
use expander_compiler::hints::BuiltinHintIds;
use expander_compiler::zkcuda::context::Context;
use expander_compiler::zkcuda::kernel::{compile_with_spec_and_shapes, IOVecSpec};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

// ---------------------------------------------------------------------------- the hint functions

type Call = (u8, Vec<u64>, usize);
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
}
static LOGGING: AtomicBool = AtomicBool::new(true);
fn u<F: FieldArith>(x: &F) -> u64 {
    x.to_u256().as_u64()
}
/// What hint number k makes of its arguments; None: it fails.
fn mean(k: u8, a: &[u64], n: usize, p: u64) -> Option<Vec<u64>> {
    let s: u64 = a.iter().enumerate().map(|(i, x)| (i as u64 + 1) * x).sum();
    (0..n as u64)
        .map(|j| match k {
            0 => Some((s + j + 1) % p),
            1 => Some(a[j as usize % a.len()]),
            2 => Some((a.iter().fold(1, |r, x| r * x % p) + 2 * j) % p),
            // fails on some arguments
            3 if a[0] == 2 => None,
            3 => Some((a[0] + j) % p),
            // leaves what it does not set at zero
            4 => Some(if j == 0 { a[a.len() - 1] } else { 0 }),
            // fails late, having set something
            _ if a[a.len() - 1] == 1 => None,
            _ => Some((s * 2 + j) % p),
        })
        .collect()
}
const KEYS: [&str; 6] = ["h", "hh", "", "fails sometimes", "\u{3c0}", "H"];
fn body<F: Field>(k: u8, a: &[F], out: &mut [F]) -> Result<(), Error> {
    let args: Vec<u64> = a.iter().map(u).collect();
    if LOGGING.load(SeqCst) {
        LOG.with(|l| l.borrow_mut().push((k, args.clone(), out.len())));
    }
    let p = F::MODULUS.as_u64();
    match mean(k, &args, out.len(), p) {
        Some(v) => {
            for (i, (o, x)) in out.iter_mut().zip(v).enumerate() {
                if k != 4 || i == 0 {
                    *o = F::from(x as u32);
                }
            }
            Ok(())
        }
        None => {
            if k == 5 {
                out[0] = F::one();
            }
            Err(Error::UserError("this hint fails".into()))
        }
    }
}
fn h0<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(0, a, o)
}
fn h1<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(1, a, o)
}
fn h2<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(2, a, o)
}
fn h3<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(3, a, o)
}
fn h4<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(4, a, o)
}
fn h5<F: Field>(a: &[F], o: &mut [F]) -> Result<(), Error> {
    body(5, a, o)
}
fn fun<F: Field>(k: usize) -> fn(&[F], &mut [F]) -> Result<(), Error> {
    [h0::<F>, h1::<F>, h2::<F>, h3::<F>, h4::<F>, h5::<F>][k]
}
/// Registered in the order that starts at `first`; `skip` is left out.
fn registry<F: Field>(first: usize, skip: Option<usize>) -> HintRegistry<F> {
    let mut r = HintRegistry::new();
    for i in 0..6 {
        let k = (first + i) % 6;
        if Some(k) != skip {
            r.register(KEYS[k], fun::<F>(k));
        }
    }
    r
}

// ---------------------------------------------------------------------------------- the programs

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ins {
    /// hint, arguments, number of results
    Hint(u8, Vec<usize>, usize),
    /// the same in a sub-circuit of its own
    Sub(u8, Vec<usize>, usize),
    Add(usize, usize),
    Mul(usize, usize),
    /// value i equals value j
    Eq(usize, usize),
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Prog(Arc<Vec<Ins>>);
declare_circuit!(Cir { x: [Variable], p: [PublicVariable], g: Prog });
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let mut v: Vec<Variable> = self.x.iter().chain(&self.p).cloned().collect();
        v.push(api.constant(2));
        let first = v.len();
        for i in self.g.0.iter() {
            let get = |l: &Vec<usize>, v: &Vec<Variable>| l.iter().map(|i| v[*i]).collect::<Vec<_>>();
            match i {
                Ins::Hint(k, a, n) => {
                    let r = api.new_hint(KEYS[*k as usize], &get(a, &v), *n);
                    v.extend(r);
                }
                Ins::Sub(k, a, n) => {
                    let (k, n) = (*k as usize, *n);
                    let r = api.memorized_simple_call(
                        move |api: &mut B, x: &Vec<Variable>| {
                            let mut r = api.new_hint(KEYS[k], x, n);
                            let s = api.add(r[0], x[0]);
                            r.push(s);
                            r
                        },
                        &get(a, &v),
                    );
                    v.extend(r);
                }
                Ins::Add(a, b) => {
                    let r = api.add(v[*a], v[*b]);
                    v.push(r)
                }
                Ins::Mul(a, b) => {
                    let r = api.mul(v[*a], v[*b]);
                    v.push(r)
                }
                Ins::Eq(a, b) => api.assert_is_equal(v[*a], v[*b]),
            }
        }
        let mut outs = v[first..].to_vec();
        outs.push(v[0]);
        api.set_outputs(outs);
    }
}
/// Values, None if a hint or an assertion fails; and the calls made.
fn reference(x: &[u64], code: &[Ins], p: u64, log: &mut Vec<Call>) -> Option<Vec<u64>> {
    let mut v = x.to_vec();
    v.push(2);
    let first = v.len();
    for i in code {
        match i {
            Ins::Hint(k, a, n) | Ins::Sub(k, a, n) => {
                let a: Vec<u64> = a.iter().map(|i| v[*i]).collect();
                log.push((*k, a.clone(), *n));
                let r = mean(*k, &a, *n, p)?;
                let s = (r[0] + a[0]) % p;
                v.extend(r);
                if matches!(i, Ins::Sub(..)) {
                    v.push(s);
                }
            }
            Ins::Add(a, b) => v.push((v[*a] + v[*b]) % p),
            Ins::Mul(a, b) => v.push(v[*a] * v[*b] % p),
            Ins::Eq(a, b) if v[*a] != v[*b] => return None,
            Ins::Eq(..) => {}
        }
    }
    let mut r = v[first..].to_vec();
    r.push(v[0]);
    Some(r)
}
fn take_log() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn set(v: &[Call]) -> HashSet<Call> {
    v.iter().cloned().collect()
}

/// inputs: secret then public values of each member.
fn check<C: Config>(tag: &str, code: &[Ins], n_sec: usize, inputs: &[Vec<u64>], o: Opt, reg: usize) {
    type F<C> = CircuitField<C>;
    let p = <F<C> as FieldArith>::MODULUS.as_u64();
    let g = Prog(Arc::new(code.to_vec()));
    let n_pub = inputs[0].len() - n_sec;
    let bad = |what: &str, x: &dyn std::fmt::Debug, more: String| {
        violation(
            &format!("{what}:{:x}", rt::hash_of(&(tag, code, o))),
            &format!("{what} [{tag} {o}] {code:?} on {x:?}: {more}"),
            json!({"field": tag, "program": format!("{code:?}"), "inputs": format!("{x:?}"), "options": o.to_string(), "more": more}),
        )
    };
    let cir = Cir::<Variable> { x: vec![Variable::default(); n_sec], p: vec![Variable::default(); n_pub], g: g.clone() };
    let asg = |x: &Vec<u64>| Cir::<F<C>> {
        x: x[..n_sec].iter().map(|v| F::<C>::from(*v as u32)).collect(),
        p: x[n_sec..].iter().map(|v| F::<C>::from(*v as u32)).collect(),
        g: g.clone(),
    };
    rt::distinct(&(tag, code));
    let r = match rt::guard(|| compile::<C, _>(&cir, o.real())) {
        Ok(Ok(r)) => r,
        e => {
            if inputs.len() < 2 {
                // no claim: the inputs given may not show that the program can be satisfied
                return;
            }
            return bad("compile", &"", format!("{:?}", e.map(|e| e.map(|_| ()))));
        }
    };
    let registry = registry::<F<C>>(reg, None);
    let mut good = vec![];
    let mut wants = vec![];
    for x in inputs {
        rt::evals(1);
        rt::states(1);
        let mut want_log = vec![];
        let want = reference(x, code, p, &mut want_log);
        let a = asg(x);
        take_log();
        let d = rt::guard(|| debug_eval::<C, _, _, _>(&cir, &a, registry.clone()).iter().map(u).collect::<Vec<_>>()).ok();
        let log = take_log();
        if d != want || log != want_log {
            bad("debug evaluation", x, format!("{d:?} calling {log:?}, expected {want:?} calling {want_log:?}"));
        }
        // solved alone
        let w = rt::guard(|| r.witness_solver.solve_witness_with_hints(&a, &registry));
        let log = take_log();
        rt::transitions(2);
        rt::traces(1);
        let got = match w {
            Err(e) => {
                bad("panic", x, e);
                None
            }
            Ok(Err(_)) => None,
            Ok(Ok(w)) => {
                let (ok, outs) = r.layered_circuit.run_with_output(&w);
                (ok == [true]).then(|| outs[0].iter().map(u).collect::<Vec<_>>())
            }
        };
        if got != want {
            bad("compiled", x, format!("{got:?}, expected {want:?}"));
        }
        if want.is_some() && set(&log) != set(&want_log) {
            bad("calls when compiled", x, format!("{log:?}, expected {want_log:?}"));
        }
        // without the functions
        if !want_log.is_empty() {
            let e = rt::guard(|| r.witness_solver.solve_witness(&a));
            if matches!(e, Ok(Ok(_))) {
                bad("hint functions missing", x, "a witness without any hint function".into());
            }
            let k = want_log[0].0 as usize;
            let less = self::registry::<F<C>>(reg, Some(k));
            let e = rt::guard(|| r.witness_solver.solve_witness_with_hints(&a, &less));
            if matches!(e, Ok(Ok(_))) {
                bad("hint function missing", x, format!("a witness without {:?}", KEYS[k]));
            }
            let e = rt::guard(|| debug_eval::<C, _, _, _>(&cir, &a, less));
            if e.is_ok() {
                bad("hint function missing in debug evaluation", x, KEYS[k].into());
            }
            take_log();
        }
        if want.is_some() {
            good.push(x.clone());
            wants.push((want.unwrap(), want_log));
        } else if !good.is_empty() && code.iter().all(|i| !matches!(i, Ins::Eq(..))) {
            // a failing hint at every position of a batch
            let pack = <SIMDField<C> as arith::SimdField>::PACK_SIZE;
            for n in 1..=2 * pack + 1 {
                for pos in 0..n {
                    let l: Vec<_> = (0..n).map(|i| asg(if i == pos { x } else { &good[i % good.len()] })).collect();
                    let e = rt::guard(|| r.witness_solver.solve_witnesses_with_hints(&l, &registry));
                    rt::transitions(1);
                    match e {
                        Ok(Err(_)) => {}
                        Ok(Ok(_)) => bad("failing hint in a batch", x, format!("position {pos} of {n}: a witness all the same")),
                        Err(e) => bad("panic in a batch", x, e),
                    }
                }
            }
            take_log();
        }
    }
    // batches of every size up to past two blocks
    let pack = <SIMDField<C> as arith::SimdField>::PACK_SIZE;
    if good.is_empty() {
        return;
    }
    for n in 1..=2 * pack + 1 {
        let off = n * 3;
        let pick = |i: usize| (off + i * 2 + 1) % good.len();
        let l: Vec<_> = (0..n).map(|i| asg(&good[pick(i)])).collect();
        take_log();
        match rt::guard(|| r.witness_solver.solve_witnesses_with_hints(&l, &registry)) {
            Ok(Ok(w)) => {
                let log = take_log();
                let (ok, outs) = r.layered_circuit.run_with_output(&w);
                rt::transitions(n as u64);
                for i in 0..n {
                    let got: Vec<u64> = outs[i].iter().map(u).collect();
                    if !ok[i] || got != wants[pick(i)].0 {
                        bad("batch", &good[pick(i)], format!("position {i} of {n}: {} {got:?}, expected {:?}", ok[i], wants[pick(i)].0));
                    }
                }
                let all: Vec<Call> = (0..n).flat_map(|i| wants[pick(i)].1.clone()).collect();
                if set(&log) != set(&all) {
                    bad("calls in a batch", &n, format!("{log:?}, expected {all:?}"));
                }
            }
            e => bad("batch fails", &n, format!("{:?}", e.map(|e| e.map(|_| ())))),
        }
    }
}

fn tuples(p: u64, n: usize) -> Vec<Vec<u64>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|t: Vec<u64>| (0..p).map(move |v| [&t[..], &[v]].concat())).collect();
    }
    r
}
fn choices(of: usize, n: usize) -> Vec<Vec<usize>> {
    tuples(of as u64, n).into_iter().map(|t| t.into_iter().map(|x| x as usize).collect()).collect()
}

// ------------------------------------------------------------------------------------ names, ids

fn names() {
    // every name of up to three characters over a small alphabet, and some long ones
    let mut l: Vec<String> = vec![String::new()];
    let mut k = 0;
    while k < l.len() {
        if l[k].chars().count() < 3 {
            for c in ["a", "b", "A", "0", "1", ".", " ", "_", "\u{e9}", "e\u{301}", "\0", "hint"] {
                l.push(format!("{}{c}", l[k]));
            }
        }
        k += 1;
    }
    for n in 0..200 {
        l.push(format!("myhint.number{n}"));
        l.push(n.to_string());
        l.push("x".repeat(130 + n));
    }
    l.sort();
    l.dedup();
    let mut ids = std::collections::HashMap::new();
    let mut reg = HintRegistry::<F5>::new();
    for (i, s) in l.iter().enumerate() {
        rt::evals(1);
        let id = match rt::guard(|| hint_key_to_id(s)) {
            Ok(id) => id,
            Err(e) => {
                violation(&format!("name {s:?}"), &format!("hint name {s:?} refused: {e}"), json!(s));
                continue;
            }
        };
        if BuiltinHintIds::from_usize(id).is_some() {
            violation(&format!("name {s:?}"), &format!("hint name {s:?} stands for a built-in hint"), json!(s));
        }
        if let Some(j) = ids.insert(id, i) {
            let j: usize = j;
            violation(&format!("name {s:?}"), &format!("hint names {s:?} and {:?} are one", l[j]), json!([s, l[j]]));
        }
        if let Err(e) = rt::guard(|| reg.register(s, fun::<F5>(i % 6))) {
            violation(&format!("register {s:?}"), &format!("hint name {s:?} cannot be registered: {e}"), json!(s));
        }
    }
    for (i, s) in l.iter().enumerate() {
        rt::states(1);
        let a = [F5::from(3u32), F5::from(4u32)];
        let got = HintCaller::<F5>::call(&reg, hint_key_to_id(s), &a, 3).map(|v| v.iter().map(u).collect::<Vec<_>>()).ok();
        if got != mean((i % 6) as u8, &[3, 4], 3, 5) {
            violation(&format!("call {s:?}"), &format!("hint {s:?} gives {got:?}, its function {:?}", mean((i % 6) as u8, &[3, 4], 3, 5)), json!(s));
        }
        // a second function under the same name must not quietly take over
        let mut r2 = reg.clone();
        if i % 100 == 0 && rt::guard(|| r2.register(s, fun::<F5>((i + 1) % 6))).is_ok() {
            let again = HintCaller::<F5>::call(&r2, hint_key_to_id(s), &a, 3).map(|v| v.iter().map(u).collect::<Vec<_>>()).ok();
            if again != got {
                violation(&format!("again {s:?}"), &format!("registering {s:?} twice replaces its function"), json!(s));
            }
        }
    }
    for id in [hint_key_to_id("not registered"), 12345] {
        let mut r = rt::guard(|| HintCaller::<F5>::call(&reg, id, &[F5::one()], 1));
        if matches!(r, Ok(Ok(_))) {
            violation("unknown", "an id that was never registered gives values", json!(id));
        }
        r = rt::guard(|| HintCaller::<F5>::call(&EmptyHintCaller, id, &[F5::one()], 1));
        if matches!(r, Ok(Ok(_))) {
            violation("unknown empty", "a hint without functions gives values", json!(id));
        }
    }
    take_log();
}

// ---------------------------------------------------------------------------------------- kernels

/// A kernel whose outputs are hint results (or checked against them), for every parallel count.
fn kernel(k: u8, n_in: usize, n_out: usize, par: usize, broadcast: bool) {
    type C = C5n;
    let p = 5u64;
    let what = format!("kernel hint {k}, {n_in} inputs, {n_out} results, parallel {par}{}", if broadcast { ", broadcast" } else { "" });
    let bad = |w: &str, more: String| violation(&format!("{w}:{what}"), &format!("{what}: {w}: {more}"), json!({"case": what, "more": more}));
    let specs = [
        IOVecSpec { len: n_in, is_input: true, is_output: false },
        IOVecSpec { len: 1, is_input: true, is_output: false },
        IOVecSpec { len: n_out, is_input: false, is_output: true },
    ];
    let prim = compile_with_spec_and_shapes::<C, _>(
        |api, io| {
            let r = api.new_hint(KEYS[k as usize], &io[0].clone(), n_out);
            io[2] = r.iter().map(|x| api.add(x, io[1][0])).collect();
        },
        &specs,
        &[vec![n_in], vec![1], vec![n_out]],
    );
    let prim = match prim {
        Ok(p) => p,
        Err(e) => return bad("compile", format!("{e:?}")),
    };
    rt::distinct(&what);
    let vals = tuples(p, if broadcast { 1 } else { par * n_in }.min(3));
    for v in vals {
        rt::evals(1);
        rt::states(1);
        let at = |i: usize, j: usize| (v[if broadcast { j } else { i * n_in + j } % v.len()] + (i * n_in + j) as u64 / 3 * if broadcast { 0 } else { 1 }) % p;
        let rows: Vec<Vec<F5>> = (0..par).map(|i| (0..n_in).map(|j| F5::from(at(i, j) as u32)).collect()).collect();
        let add: Vec<Vec<F5>> = (0..par).map(|i| vec![F5::from((i % 5) as u32)]).collect();
        let want: Option<Vec<Vec<u64>>> = (0..par)
            .map(|i| mean(k, &(0..n_in).map(|j| at(i, j)).collect::<Vec<_>>(), n_out, p).map(|r| r.iter().map(|x| (x + i as u64) % p).collect()))
            .collect();
        let r = rt::guard(|| {
            let mut ctx: Context<C, _> = Context::new(registry::<F5>(k as usize, None));
            let a = if broadcast { ctx.copy_to_device(&rows[0]) } else { ctx.copy_to_device(&rows) };
            let b = ctx.copy_to_device(&add);
            let mut io = [a, b, None];
            if ctx.call_kernel(&prim, par, &mut io).is_err() {
                return None;
            }
            let out: Vec<Vec<F5>> = ctx.copy_to_host(io[2].clone());
            Some((ctx, out))
        });
        rt::transitions(par as u64);
        match (r, &want) {
            (Err(e), _) => bad("panic", e),
            (Ok(None), None) => {}
            (Ok(Some((mut ctx, out))), Some(w)) => {
                let out: Vec<Vec<u64>> = out.iter().map(|r| r.iter().map(u).collect()).collect();
                if out != *w {
                    bad("results", format!("{out:?}, expected {w:?} on {rows:?}"));
                }
                rt::traces(1);
                // and once more when the graph's witness is solved
                match rt::guard(|| {
                    ctx.compile_computation_graph()?;
                    ctx.solve_witness()
                }) {
                    Ok(Ok(())) => {}
                    e => bad("graph", format!("{e:?}")),
                }
            }
            (Ok(r), w) => bad("verdict", format!("{:?}, expected {w:?} on {rows:?}", r.map(|r| r.1))),
        }
    }
}

pub fn c14() {
    let th = rt::thorough();
    let opts = all_opts();
    rt::family("names", names);
    // values: 0 1 secret, 2 public, 3 the constant 2
    let ins: Vec<Vec<u64>> = tuples(3, 3);
    let ins5: Vec<Vec<u64>> = tuples(5, 3);
    rt::family("one_hint", || {
        let mut l = vec![];
        for n in 1..=3 {
            for a in choices(4, n) {
                for m in 1..=3 {
                    for k in 0..6u8 {
                        l.push((k, a.clone(), m));
                    }
                }
            }
        }
        rt::par(l.len(), |i| {
            let (k, a, m) = l[i].clone();
            if a.len() == 3 && !th && i % 2 == 1 {
                return;
            }
            let code = [if i % 3 == 2 { Ins::Sub(k, a, m) } else { Ins::Hint(k, a, m) }];
            let o = opts[i % 18];
            match i % 4 {
                0 => check::<C3n>("F3", &code, 2, &ins, o, i % 6),
                1 => check::<C5n>("F5", &code, 2, &ins5, o, i % 6),
                _ => check::<C5n>("F5", &code, 2, &ins5, o, i % 6),
            }
        })
    });
    rt::family("two_hints", || {
        let mut l = vec![];
        for (k, m) in [(0u8, 1usize), (1, 2), (3, 2), (4, 3)] {
            for a in choices(4, 2) {
                for k2 in 0..6u8 {
                    for a2 in choices(4 + m, 2) {
                        l.push((k, a.clone(), m, k2, a2));
                    }
                }
            }
        }
        rt::par(l.len(), |i| {
            let (k, a, m, k2, a2) = l[i].clone();
            if !th && i % 2 == 1 {
                return;
            }
            let h = |sub: bool, k, a, m| if sub { Ins::Sub(k, a, m) } else { Ins::Hint(k, a, m) };
            let code = [h(i % 3 == 1, k, a, m), h(i / 3 % 3 == 1, k2, a2, 1 + i / 9 % 2)];
            check::<C3n>("F3", &code, 2, &ins, opts[i / 2 % 18], i % 6);
        })
    });
    rt::family("used_values", || {
        let mut l = vec![];
        for k in 0..6u8 {
            for k2 in 0..6u8 {
                for use_ in 0..5 {
                    for a in choices(4, 2) {
                        l.push((k, k2, use_, a));
                    }
                }
            }
        }
        rt::par(l.len(), |i| {
            let (k, k2, use_, a) = l[i].clone();
            let mut code = vec![Ins::Hint(k, a.clone(), 2)];
            match use_ {
                0 => code.extend([Ins::Eq(4, 5)]),
                1 => code.extend([Ins::Mul(4, 5), Ins::Hint(k2, vec![6, 4], 1), Ins::Eq(7, 0)]),
                2 => code.extend([Ins::Add(4, 0), Ins::Sub(k2, vec![6, 5], 2), Ins::Sub(k2, vec![5, 6], 2)]),
                // the same call twice
                3 => code.extend([Ins::Hint(k, a.clone(), 2), Ins::Eq(4, 6), Ins::Eq(5, 7)]),
                _ => code.extend([Ins::Sub(k, a.clone(), 2), Ins::Sub(k2, vec![1, 0], 1), Ins::Sub(k, vec![a[1], a[0]], 2), Ins::Eq(4, 6)]),
            }
            check::<C3n>("F3", &code, 2, &ins, opts[i % 18], i % 6);
        })
    });
    LOGGING.store(false, SeqCst);
    rt::family("kernels", || {
        let mut l = vec![];
        for k in 0..6u8 {
            for n in 1..=3 {
                for m in 1..=3 {
                    for par in 1..=if th { 5 } else { 4 } {
                        for b in [false, true] {
                            l.push((k, n, m, par, b));
                        }
                    }
                }
            }
        }
        rt::par(l.len(), |i| {
            let (k, n, m, par, b) = l[i];
            kernel(k, n, m, par, b)
        })
    });
    let _ = U256::ZERO;
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per program and input, hint name, or kernel call; distinct by program",
        &["six hint functions, arities up to 3 to 3, two to four hints per program", "all inputs over F3 (F5 for single hints)", "a hint without arguments or results is refused by the compiler"],
    );
}
