//! C09: batches of witnesses against their members one by one.
use crate::cfgs::*;
use crate::eng::{self, Comp};
use crate::opts::{all_opts, Opt, DEF};
use crate::prog::{Prog, Small};
use crate::rt::{self, violation, Level};
use crate::sem;
use crate::ser::Hints;
use arith::SimdField as _;
use expander_compiler::circuit::config::*;
use expander_compiler::circuit::layered::witness::{Witness, WitnessValues};
use expander_compiler::circuit::layered::{CrossLayerInputType, InputType, NormalInputType};
use expander_compiler::frontend::*;
use serde_json::json;

type Fc<C> = CircuitField<C>;

fn bad(what: &str, case: &str, more: String) {
    violation(&format!("{what}:{case}"), &format!("{what}: {case}: {more}"), json!({"what": what, "case": case, "more": more}));
}

/// One assignment, alone.
struct Member<C: Small> {
    x: Vec<Fc<C>>,
    p: Vec<Fc<C>>,
    /// witness values, verdict, outputs; None: the solver refuses it
    alone: Option<(Vec<Fc<C>>, bool, Vec<Fc<C>>)>,
}

fn alone<C: Small, I: InputType>(c: &Comp<C, I>, case: &str, x: Vec<Fc<C>>, p: Vec<Fc<C>>) -> Option<Member<C>> {
    let r = rt::guard(|| c.solver.solve_witness_from_raw_inputs(x.clone(), p.clone(), &Hints).map_err(|e| format!("{e:?}")));
    let alone = match r {
        Err(e) => {
            bad("solving one assignment panics", case, format!("{x:?}: {e}"));
            return None;
        }
        Ok(Err(_)) => None,
        Ok(Ok(w)) => {
            let l: Vec<_> = w.iter_scalar().collect();
            if l.len() != 1 || l[0].1 != p || w.num_witnesses != 1 {
                bad("witness of one assignment", case, format!("{l:?}, public inputs {p:?}"));
                return None;
            }
            let (ok, out) = match rt::guard(|| w.run_on(c)) {
                Ok(x) => x,
                Err(e) => {
                    bad("running one witness panics", case, e);
                    return None;
                }
            };
            let direct = c.lc.eval_with_public_inputs(l[0].0.clone(), &p);
            if ok.len() != 1 || out.len() != 1 || (out[0].clone(), ok[0]) != direct || c.lc.run(&w) != ok {
                bad("running one witness", case, format!("{ok:?} {out:?}, directly {direct:?}"));
            }
            Some((l[0].0.clone(), ok[0], out[0].clone()))
        }
    };
    Some(Member { x, p, alone })
}
trait RunOn<C: Small> {
    fn run_on<I: InputType>(&self, c: &Comp<C, I>) -> (Vec<bool>, Vec<Vec<Fc<C>>>);
}
impl<C: Small> RunOn<C> for Witness<C> {
    fn run_on<I: InputType>(&self, c: &Comp<C, I>) -> (Vec<bool>, Vec<Vec<Fc<C>>>) {
        c.lc.run_with_output(self)
    }
}

/// The blocks a batch takes at `w` lanes, the last one filled up with its last member.
fn blocks<F: Clone>(l: &[(Vec<F>, Vec<F>)], w: usize) -> Vec<(Vec<Vec<F>>, Vec<Vec<F>>)> {
    l.chunks(w)
        .map(|b| {
            let lane = |j: usize| &b[j.min(b.len() - 1)];
            let col = |n: usize, f: &dyn Fn(usize, usize) -> F| (0..n).map(|k| (0..w).map(|j| f(j, k)).collect()).collect();
            (col(b[0].0.len(), &|j, k| lane(j).0[k].clone()), col(b[0].1.len(), &|j, k| lane(j).1[k].clone()))
        })
        .collect()
}
fn lanes<T: arith::SimdField>(v: &[T]) -> Vec<Vec<T::Scalar>> {
    v.iter().map(|x| x.unpack()).collect()
}
fn to_simd<C: Small, T: arith::SimdField<Scalar = Fc<C>> + 'static>(w: &Witness<C>, all: &[(Vec<Fc<C>>, Vec<Fc<C>>)], case: &str) {
    let want = blocks(&all[..all.len().min(T::PACK_SIZE)], T::PACK_SIZE);
    match rt::guard(|| w.to_simd::<T>()) {
        Ok((a, b)) if (lanes(&a), lanes(&b)) == want[0] => {}
        e => bad("to_simd", case, format!("{} lanes: {:?}, expected {:?}", T::PACK_SIZE, e.map(|(a, b)| (lanes(&a), lanes(&b))), want[0])),
    }
}
trait Lanes: Small {
    fn every(w: &Witness<Self>, all: &[(Vec<Fc<Self>>, Vec<Fc<Self>>)], case: &str);
}
macro_rules! every {
    ($($c:ident [$($t:ty),*];)*) => {$(impl Lanes for $c {
        fn every(w: &Witness<Self>, all: &[(Vec<Fc<Self>>, Vec<Fc<Self>>)], case: &str) {
            $(to_simd::<$c, $t>(w, all, case);)*
        }
    })*};
}
every! {
    C3 [F3x1, F3x2, F3x4]; C3n [F3x1, F3x2, F3x4]; C3q [F3x1, F3x2, F3x4]; C5n [F5x1, F5x2, F5x4]; C5 [F5x1, F5x2, F5x4]; C7q [F7x2, F7x8];
}

/// Values of a witness, whatever form it is in.
fn contents<C: Lanes>(w: &Witness<C>, all: &[(Vec<Fc<C>>, Vec<Fc<C>>)], case: &str, form: &str) -> bool {
    let width = <SIMDField<C> as arith::SimdField>::PACK_SIZE;
    let (a, b) = (all[0].0.len(), all[0].1.len());
    if (w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness) != (all.len(), a, b) {
        bad("sizes of a batch", case, format!("{} x ({}+{}), expected {} x ({a}+{b}), {form}", w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness, all.len()));
        return false;
    }
    match rt::guard(|| w.iter_scalar().collect::<Vec<_>>()) {
        Ok(l) if l == all => {}
        e => {
            bad("members of a batch", case, format!("{e:?}, alone {all:?}, {form}"));
            return false;
        }
    }
    let want = blocks(all, width);
    match rt::guard(|| w.iter_simd().map(|(x, y)| (lanes(&x), lanes(&y))).collect::<Vec<_>>()) {
        Ok(l) if l == want => {}
        e => {
            bad("blocks of a batch", case, format!("{e:?}, expected {want:?}, {form}"));
            return false;
        }
    }
    C::every(w, all, case);
    true
}
fn verdicts<C: Lanes, I: InputType>(c: &Comp<C, I>, w: &Witness<C>, m: &[&Member<C>], case: &str, form: &str) {
    let ok: Vec<bool> = m.iter().map(|m| m.alone.as_ref().unwrap().1).collect();
    let out: Vec<Vec<Fc<C>>> = m.iter().map(|m| m.alone.as_ref().unwrap().2.clone()).collect();
    match rt::guard(|| c.lc.run(w)) {
        Ok(r) if r == ok => {}
        e => bad("verdicts of a batch", case, format!("{e:?}, alone {ok:?}, {form}")),
    }
    match rt::guard(|| c.lc.run_with_output(w)) {
        Ok(r) if r == (ok.clone(), out.clone()) => {}
        e => bad("outputs of a batch", case, format!("{e:?}, alone {:?}, {form}", (ok, out))),
    }
}

fn batch<C: Lanes, I: InputType>(c: &Comp<C, I>, case: &dyn Fn() -> String, m: &[&Member<C>], views: bool) {
    rt::evals(1);
    rt::transitions(m.len() as u64);
    let case = &format!("{} on {:?}", case(), m.iter().map(|m| (m.x.iter().map(C::un).collect::<Vec<_>>(), m.p.iter().map(C::un).collect::<Vec<_>>())).collect::<Vec<_>>());
    let w = rt::guard(|| c.solver.solve_witnesses_from_raw_inputs(m.len(), |i| (m[i].x.clone(), m[i].p.clone()), &Hints).map_err(|e| format!("{e:?}")));
    let w = match w {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => {
            if m.iter().all(|m| m.alone.is_some()) {
                bad("batch refused", case, e);
            }
            rt::count("batches with a member the solver refuses", 1);
            return;
        }
        Err(e) => return bad("solving a batch panics", case, e),
    };
    if m.iter().any(|m| m.alone.is_none()) {
        return bad("batch solved though a member alone is refused", case, String::new());
    }
    let all: Vec<(Vec<Fc<C>>, Vec<Fc<C>>)> = m.iter().map(|m| (m.alone.as_ref().unwrap().0.clone(), m.p.clone())).collect();
    rt::traces(1);
    if !contents(&w, &all, case, "as solved") {
        return;
    }
    verdicts(c, &w, m, case, "as solved");
    if views {
        let s = Witness::<C> {
            num_witnesses: w.num_witnesses,
            num_inputs_per_witness: w.num_inputs_per_witness,
            num_public_inputs_per_witness: w.num_public_inputs_per_witness,
            values: WitnessValues::Scalar(all.iter().flat_map(|(a, b)| a.iter().chain(b).copied()).collect()),
        };
        if contents(&s, &all, case, "as scalars") {
            verdicts(c, &s, m, case, "as scalars");
        }
    }
}

fn program<C: Lanes, I: InputType>(pr: &Prog, o: Opt, deep: bool) {
    let Ok(c) = eng::compile::<C, I>(pr, o) else { return };
    let name = || sem::cfgname::<C, I>(o) + ": " + &pr.to_string();
    let width = <SIMDField<C> as arith::SimdField>::PACK_SIZE;
    // who can be in a batch
    let (nx, np) = (pr.root().n_in, pr.n_pub);
    let n = (C::P as usize).pow(((nx + np) as u32).min(12));
    let want = if deep { 27 } else { 9 };
    let step = n.div_ceil(want) | 1;
    let mut pool = vec![];
    let mut k = 0;
    while k < n {
        // the digits of k; beyond the 12th, of a mixture
        let mut rest = k as u64;
        let mut v = vec![];
        for i in 0..nx + np {
            if i == 12 {
                rest = (k as u64).wrapping_mul(0x9e37_79b9) >> 7;
            }
            v.push(C::fe((rest % C::P as u64) as u32));
            rest /= C::P as u64;
        }
        let p = v.split_off(nx);
        match alone(&c, &name(), v, p) {
            Some(m) => pool.push(m),
            None => return,
        }
        k += step;
    }
    rt::distinct(&(pr, o, width));
    rt::states(pool.len() as u64);
    // every size, at several rotations
    for n in 1..=2 * width + 1 {
        for r in 0..if deep { pool.len() } else { pool.len().min(2) } {
            let m: Vec<&Member<C>> = (0..n).map(|i| &pool[(i * (1 + r) + r) % pool.len()]).collect();
            batch(&c, &name, &m, true);
        }
    }
    // every placement of members that do not satisfy the assertions, of every kind of members
    let class = |m: &Member<C>| m.alone.as_ref().map(|a| a.1);
    let mut kinds: Vec<(Option<bool>, &Member<C>)> = vec![];
    for m in &pool {
        if !kinds.iter().any(|k| k.0 == class(m)) {
            kinds.push((class(m), m));
        }
    }
    if kinds.len() > 1 {
        for a in &kinds {
            for b in &kinds {
                if a.0 == b.0 {
                    continue;
                }
                let max = if deep { 2 * width + 1 } else { width + 1 };
                for n in 1..=max {
                    if n <= 5 || (deep && n <= 9) {
                        for mask in 0..1usize << n {
                            let m: Vec<&Member<C>> = (0..n).map(|i| if mask >> i & 1 == 1 { a.1 } else { b.1 }).collect();
                            batch(&c, &name, &m, false);
                        }
                    } else {
                        for i in 0..n {
                            for j in 0..=i {
                                let m: Vec<&Member<C>> = (0..n).map(|k| if k == i || k == j { a.1 } else { b.1 }).collect();
                                batch(&c, &name, &m, false);
                            }
                        }
                    }
                }
            }
        }
    }
    // every short sequence of members
    if deep {
        let take: Vec<&Member<C>> = pool.iter().step_by(pool.len().div_ceil(6)).collect();
        for n in 1..=4usize {
            for mut s in 0..take.len().pow(n as u32) {
                let mut m = vec![];
                for _ in 0..n {
                    m.push(take[s % take.len()]);
                    s /= take.len();
                }
                batch(&c, &name, &m, false);
            }
        }
    }
}
fn rot(pr: &Prog, k: usize, o: Opt, deep: bool) {
    type N = NormalInputType;
    type X = CrossLayerInputType;
    match k % 6 {
        0 => program::<C3n, N>(pr, o, deep),
        1 => program::<C3q, X>(pr, o, deep),
        2 => program::<C3q, N>(pr, o, deep),
        3 => program::<C5n, X>(pr, o, deep),
        4 => program::<C5n, N>(pr, o, deep),
        _ => program::<C3n, X>(pr, o, deep),
    }
}

// ------------------------------------------------------------------------- typed assignments

declare_circuit!(Typed {
    p: PublicVariable,
    a: Variable,
    q: [[PublicVariable; 2]; 2],
    b: [[Variable; 3]; 2],
    c: [Variable; 0],
    d: Variable,
});
impl<C: Config> Define<C> for Typed<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        // every field weighs differently
        let mut s = api.mul(self.a, 2);
        let mut k = 3u32;
        let mut all = vec![];
        all.extend(self.b.iter().flatten());
        all.push(&self.d);
        all.push(&self.p);
        all.extend(self.q.iter().flatten());
        for v in all {
            let t = api.mul(*v, k);
            s = api.add(s, t);
            k += 2;
        }
        let h = api.new_hint("C09", &[s, self.d], 1)[0];
        let t = api.mul(h, self.a);
        let t = api.sub(t, self.b[0][0]);
        api.assert_is_zero(t);
        let e = api.mul(s, s);
        let e = api.sub(e, s);
        api.assert_is_zero(e);
    }
}
fn typed<C: Lanes>() {
    let width = <SIMDField<C> as arith::SimdField>::PACK_SIZE;
    let r = match rt::guard(|| compile(&Typed::default(), CompileOptions::default())) {
        Ok(Ok(r)) => r as CompileResult<C>,
        e => return bad("compiling", "typed circuit", format!("{:?}", e.map(|e| e.map(|_| ())))),
    };
    let (solver, lc) = (r.witness_solver, r.layered_circuit);
    let mk = |i: usize| {
        let mut x = i as u32;
        let mut f = || {
            x = x.wrapping_mul(7).wrapping_add(3) % 1009;
            C::fe(x)
        };
        Typed::<Fc<C>> { p: f(), a: f(), q: [[f(), f()], [f(), f()]], b: [[f(), f(), f()], [f(), f(), f()]], c: [], d: f() }
    };
    let flat = |t: &Typed<Fc<C>>| {
        let mut x = vec![t.a];
        x.extend(t.b.iter().flatten());
        x.push(t.d);
        let mut p = vec![t.p];
        p.extend(t.q.iter().flatten());
        (x, p)
    };
    let mut reg = HintRegistry::<Fc<C>>::new();
    reg.register("C09", |x, o| {
        o[0] = x[0] * x[0] + x[1];
        Ok(())
    });
    for n in 0..=3 * width + 1 {
        for k in 0..40 {
            let list: Vec<_> = (0..n).map(|i| mk(i * 13 + k * 7 + i * i)).collect();
            let case = format!("typed circuit, {} lanes, {n} assignments from {k}", width);
            rt::evals(1);
            let w = match rt::guard(|| solver.solve_witnesses_with_hints(&list, &reg)) {
                Ok(Ok(w)) => w,
                e => {
                    bad("solving typed assignments", &case, format!("{:?}", e.map(|e| e.map(|_| ()))));
                    continue;
                }
            };
            let mut all = vec![];
            let mut ok = vec![];
            for t in &list {
                let (x, p) = flat(t);
                let one = solver.solve_witness_with_hints(t, &reg).unwrap();
                let (a, b) = one.iter_scalar().next().unwrap();
                let raw = solver.solve_witness_from_raw_inputs(x, p.clone(), &reg).unwrap();
                if raw.iter_scalar().next().unwrap() != (a.clone(), b.clone()) || b != p {
                    bad("typed and raw assignments differ", &case, String::new());
                }
                ok.push(lc.run(&one)[0]);
                all.push((a, b));
                rt::transitions(1);
            }
            if n == 0 {
                if w.num_witnesses != 0 || w.iter_scalar().count() != 0 || w.iter_simd().count() != 0 {
                    bad("no assignments", &case, String::new());
                }
                continue;
            }
            rt::distinct(&(width, n, k));
            rt::traces(1);
            if contents(&w, &all, &case, "typed") && lc.run(&w) != ok {
                bad("verdicts of a batch", &case, format!("alone {ok:?}"));
            }
            rt::count("typed members accepted", ok.iter().filter(|x| **x).count() as u64);
        }
    }
}

pub fn c09() {
    let th = rt::thorough();
    rt::family("typed", || {
        typed::<C3n>();
        typed::<C3q>();
        typed::<C5n>();
        typed::<C7q>();
    });
    for (name, ps) in sem::families(3, false) {
        rt::family(name, || {
            let max = if th { 40000 } else { 2000 };
            let step = ps.len().div_ceil(max);
            rt::par(ps.len().div_ceil(step), |j| {
                let pr = &ps[j * step];
                rot(pr, j, DEF, th || j % 16 == 0);
                let all = all_opts();
                rot(pr, j / 6 + 1, all[j % all.len()], false);
            })
        });
    }
    for (name, ps) in sem::families(7, false) {
        if !["one1", "pubs", "asserts", "chains", "common", "call1"].contains(&name) {
            continue;
        }
        rt::family(&format!("{name}_wide"), || {
            let step = ps.len().div_ceil(if th { 4000 } else { 300 });
            rt::par(ps.len().div_ceil(step), |j| {
                let pr = &ps[j * step];
                if j % 2 == 0 {
                    program::<C7q, NormalInputType>(pr, DEF, false)
                } else {
                    program::<C7q, CrossLayerInputType>(pr, DEF, false)
                }
            })
        });
    }
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per batch; a transition per member; distinct by program, options and lanes",
        &["a member whose witness cannot be solved (division by zero in the solver) fails the whole batch, as documented in DESIGN.md", "configurations without random combination, so that verdicts are deterministic"],
    );
}
