//! C05: byte-identical results whatever the hash keys, the random draws and the compilations before.
use crate::cfgs::*;
use crate::eng::*;
use crate::fam;
use crate::prog::*;
use crate::rt::{self, Level};
use crate::{seed, sem};
use expander_compiler::circuit::layered::{CrossLayerInputType as X, InputType, NormalInputType as N};
use expander_compiler::compile::compile_with_options;
use serde_json::json;
use serdes::ExpSerde;

/// Everything the compiler hands out for a program, or what it did instead.
fn bytes<C: Small, I: InputType>(pr: &Prog, o: Opt) -> (Vec<u8>, Vec<u8>, u8) {
    let ir = pr.ir::<C>();
    match rt::guard(|| {
        compile_with_options::<C, I>(&ir, o.real()).ok().map(|(hn, lc)| {
            let (mut a, mut b) = (vec![], vec![]);
            hn.serialize_into(&mut a).unwrap();
            lc.serialize_into(&mut b).unwrap();
            (a, b)
        })
    }) {
        Ok(Some((a, b))) => (a, b, 0),
        Ok(None) => (vec![], vec![], 1),
        Err(_) => (vec![], vec![], 2),
    }
}
type Sig = (u64, u64, u8);
fn sig<C: Small, I: InputType>(pr: &Prog, o: Opt) -> Sig {
    let (a, b, k) = bytes::<C, I>(pr, o);
    (rt::hash_of(&a), rt::hash_of(&b), k)
}
fn which(a: &Sig, b: &Sig) -> &'static str {
    if a.2 != b.2 {
        "verdict (circuit, refusal or panic)"
    } else if a.0 != b.0 {
        "serialized witness solver"
    } else {
        "serialized layered circuit"
    }
}

/// Compiles `ps` in one thread after another; thread s has its own hash keys and random draws and
/// its own order of the programs.
fn chunk<C: Small, I: InputType>(ps: &[&Prog], os: &dyn Fn(usize) -> Vec<Opt>, seeds: u64) {
    let cases: Vec<(usize, Opt)> = ps.iter().enumerate().flat_map(|(i, _)| os(i).into_iter().map(move |o| (i, o))).collect();
    let n = cases.len();
    let mut first: Vec<Option<Sig>> = vec![None; n];
    for s in 0..seeds {
        let r = seed::with(s, || {
            let mut r = vec![(0, 0, 0); n];
            for k in 0..n {
                let k = match s % 3 {
                    0 => k,
                    1 => n - 1 - k,
                    _ => (k + n * s as usize / seeds as usize) % n,
                };
                r[k] = sig::<C, I>(ps[cases[k].0], cases[k].1);
            }
            r
        });
        rt::transitions(n as u64);
        for k in 0..n {
            let f = *first[k].get_or_insert(r[k]);
            if s == 0 {
                rt::states(1);
                rt::evals(1);
                if r[k].2 == 0 {
                    rt::distinct(&r[k]);
                } else {
                    rt::count(if r[k].2 == 1 { "refused" } else { "panicked" }, 1);
                }
            }
            if f != r[k] {
                let (pr, o) = (ps[cases[k].0], cases[k].1);
                // is it the keys, or what was compiled before?
                let alone: Vec<Sig> = (0..seeds).map(|s| seed::with(s, || sig::<C, I>(pr, o))).collect();
                let why = if alone.iter().any(|a| *a != alone[0]) { "hash container keys or random draws" } else { "what was compiled before" };
                sem::report::<C, I>(pr, o, &format!("compilation differs: {} depends on {why}", which(&f, &r[k])), json!({"seed": s}));
                return;
            }
            rt::traces(1);
        }
    }
}

pub fn run() {
    let th = rt::thorough();
    let seeds = if th { 48 } else { 10 };
    for (name, ps) in sem::families(3, th) {
        // everything from the families about structure, a stride of those about single instructions
        let structural = matches!(name, "common" | "grid" | "nested" | "nested_ids" | "twobodies" | "asserts" | "chains" | "deepcalls" | "repeats" | "shapes" | "fanout" | "wide");
        let keep = if th { 4000 } else if structural { 700 } else { 150 };
        let step = ps.len().div_ceil(keep);
        let ps: Vec<&Prog> = ps.iter().step_by(step).collect();
        rt::count(&format!("programs_{name}"), ps.len() as u64);
        rt::family(name, || {
            let cs: Vec<&[&Prog]> = ps.chunks(12).collect();
            rt::par(cs.len() * 2, |i| {
                let c = cs[i / 2];
                let os = |j: usize| if th { all_opts().into_iter().step_by(2 + j % 3).collect() } else { sem::opts_quick(j) };
                rt::watch(format!("{name}: chunk {i}"), || match i % 4 {
                    0 => chunk::<C3, N>(c, &os, seeds),
                    1 => chunk::<C3, X>(c, &os, seeds),
                    2 => chunk::<C3w, N>(c, &os, seeds),
                    _ => chunk::<C3n, X>(c, &os, seeds),
                })
            });
        });
    }
    let ps = fam::wide(5, th);
    rt::family("wide_f5", || {
        let cs: Vec<Vec<&Prog>> = ps.chunks(12).map(|c| c.iter().collect()).collect();
        rt::par(cs.len(), |i| {
            let os = |j: usize| sem::opts_quick(j + 3);
            if i % 2 == 0 {
                chunk::<C5, N>(&cs[i], &os, seeds)
            } else {
                chunk::<C5w, X>(&cs[i], &os, seeds)
            }
        })
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per program and option combination, distinct by serialized bytes; each is compiled once per key schedule and position in the compilation history",
        &[
            "hash keys come from a controlled getrandom: two-element containers take both orders within the seeds used, larger ones a bounded number of their orders",
            "the serialization of hash maps is the stand-in serdes crate's (sorted by key)",
        ],
    );
}
