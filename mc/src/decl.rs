//! C13: order and count of declared circuit inputs.
use crate::opts::all_opts;
use crate::rt::{self, violation, Level};
use expander_compiler::frontend::extra::*;
use decls::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use serde_json::json;

type C31 = M31Config;
type M = M31;

fn ids<T: Elem>(v: &[T]) -> Vec<usize> {
    v.iter().map(|x| x.id()).collect()
}
fn lists<T: Elem>(x: &dyn Obj<T>) -> (Vec<usize>, Vec<usize>) {
    let (mut s, mut p) = (vec![], vec![]);
    x.split(&mut s, &mut p);
    (ids(&s), ids(&p))
}
/// num_vars, dump_into and load_from against the declaration.
fn plain<T: Elem>(name: &str, c: Dyn<T>, e: Dyn<T>, ch: &Choice) {
    let bad = |what: &str, more: String| violation(&format!("{what}:{name}"), &format!("circuit {{ {name} }}: {what}: {more}"), json!({"circuit": name, "vector lengths": ch.picks, "more": more}));
    let (s, p) = lists(&*c.0);
    rt::transitions(4);
    let r = rt::guard(|| {
        if c.num_vars() != (s.len(), p.len()) {
            bad("number of variables", format!("{:?} for {:?}", c.num_vars(), (s.len(), p.len())));
        }
        let (mut ds, mut dp) = (vec![T::num(77)], vec![T::num(78)]);
        c.dump_into(&mut ds, &mut dp);
        if ids(&ds[1..]) != s || ids(&dp[1..]) != p || ds[0].id() != 77 || dp[0].id() != 78 {
            bad("values written", format!("{:?} {:?} for {s:?} {p:?}", ids(&ds), ids(&dp)));
        }
        // other values read back
        let ns: Vec<T> = (0..s.len() + 1).map(|i| T::num(1000 + i)).collect();
        let np: Vec<T> = (0..p.len() + 1).map(|i| T::num(2000 + i)).collect();
        let mut d = c.clone();
        if lists(&*d.0) != (s.clone(), p.clone()) {
            bad("clone", format!("{:?}", lists(&*d.0)));
        }
        let (mut rs, mut rp) = (&ns[..], &np[..]);
        d.load_from(&mut rs, &mut rp);
        if ids(rs) != ids(&ns[s.len()..]) || ids(rp) != ids(&np[p.len()..]) {
            bad("values read", format!("left {:?} {:?}", ids(rs), ids(rp)));
        }
        if lists(&*d.0) != (ids(&ns[..s.len()]), ids(&np[..p.len()])) {
            bad("values read", format!("{:?}", lists(&*d.0)));
        }
        let (es, ep) = lists(&*e.0);
        if e.num_vars() != (es.len(), ep.len()) {
            bad("default", format!("{:?} for {es:?} {ep:?}", e.num_vars()));
        }
    });
    if let Err(e) = r {
        bad("panic", e);
    }
}
fn check(i: usize) {
    let (name, make_v, make_m) = gen::get(i);
    let opts = all_opts();
    let mut ch = Choice { next: 1, from: 1, picks: vec![], at: 0, max: if rt::thorough() { 3 } else { 2 } };
    let mut n = 0;
    rt::distinct(&name);
    loop {
        rt::evals(1);
        rt::states(1);
        ch.restart(1);
        let (v, vd) = make_v(&mut ch);
        plain(name, v, vd, &ch);
        ch.restart(1);
        let (f, fd) = make_m(&mut ch);
        plain(name, f, fd, &ch);
        ch.restart(900);
        let c = make_v(&mut ch).0;
        ch.restart(5);
        let a = make_m(&mut ch).0;
        let bad = |what: &str, more: String| violation(&format!("{what}:{name}"), &format!("circuit {{ {name} }}: {what}: {more}"), json!({"circuit": name, "vector lengths": ch.picks, "more": more}));
        let (s, _) = lists(&*c.0);
        let mut all = vec![];
        c.0.all(&mut all);
        if !s.is_empty() && n < 40 {
            // compiled, and evaluated directly: every declared input arrives where it was declared
            let want: Vec<usize> = (0..all.len()).map(|i| i + 6).collect();
            let r = rt::guard(|| {
                let d: Vec<M> = debug_eval::<C31, _, _, _>(&c, &a, EmptyHintCaller);
                if ids(&d) != want {
                    bad("debug evaluation", format!("{:?} for {want:?}", ids(&d)));
                }
                let r = compile::<C31, _>(&c, opts[n % opts.len()].real()).unwrap();
                let w = r.witness_solver.solve_witness(&a).unwrap();
                let (ok, o) = r.layered_circuit.run_with_output(&w);
                if ok != [true] || ids(&o[0]) != want {
                    bad("compiled", format!("{ok:?} {:?} for {want:?}", ids(&o[0])));
                }
                let w = r.witness_solver.solve_witnesses(&[a.clone(), a.clone()]).unwrap();
                let (ok, o) = r.layered_circuit.run_with_output(&w);
                if ok.len() < 2 || !ok[0] || !ok[1] || ids(&o[1]) != want {
                    bad("compiled, two witnesses", format!("{ok:?} {:?} for {want:?}", ids(&o[1])));
                }
                rt::traces(3);
            });
            if let Err(e) = r {
                bad("panic in use", e);
            }
        }
        n += 1;
        if !ch.advance() {
            break;
        }
    }
}

pub fn c13() {
    rt::family("declared", || rt::par(gen::N, |i| check(i)));
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per circuit declaration and choice of vector lengths; distinct by declaration",
        &["every nesting of fixed arrays (0 to 3) and vectors (0 to 2, thorough 3) up to depth 3 that the macro accepts, alone and among other fields"],
    );
}
