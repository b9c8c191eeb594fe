//! C01, C02, C03: meaning of compiled circuits.
use crate::cfgs::*;
use crate::eng::*;
use crate::fam::{self, Sz};
use crate::lay;
use crate::prog::*;
use crate::rt::{self, violation, Level};
use expander_compiler::circuit::layered::{CrossLayerInputType as X, InputType, NormalInputType as N};
use serde_json::json;
use std::collections::{BTreeSet, HashSet};

pub fn iname<I: InputType>() -> &'static str {
    if I::CROSS_LAYER_RELAY {
        "cross-layer"
    } else {
        "layered"
    }
}
fn cname<C: Small>() -> String {
    let s = std::any::type_name::<C>();
    s.rsplit("::").next().unwrap().to_string()
}
pub fn cfgname<C: Small, I: InputType>(o: Opt) -> String {
    format!("F{} {} {} {o}", C::P, cname::<C>(), iname::<I>())
}
pub fn report<C: Small, I: InputType>(pr: &Prog, o: Opt, what: &str, more: serde_json::Value) {
    let d = format!("{pr}");
    violation(
        &format!("{}:{:x}", what.split(':').next().unwrap_or(""), rt::hash_of(&(&d, cfgname::<C, I>(o)))),
        &format!("{what} [{}] program {d}", cfgname::<C, I>(o)),
        json!({"program": d, "config": cfgname::<C, I>(o), "what": what, "detail": more}),
    );
}
fn vs(x: &[u32]) -> String {
    format!("{x:?}")
}

/// When may the compiler refuse a well-formed program: no input satisfies it, or (its compiled form
/// reads no witness) neither verdict nor outputs depend on inputs or unconstrained values, for the
/// program or for what one of its sub-circuits delivers.
pub fn refusal_ok(pr: &Prog, p: u32) -> bool {
    let mut any_ok = false;
    let mut honest_err_all = true;
    let mut dep = false;
    // an unconstrained operation on constants may be computed by the compiler
    let mut hdep = false;
    for pubs in tuples(p, pr.n_pub) {
        let mut seen: Option<Result<Vec<u32>, ()>> = None;
        let mut hseen: Option<Result<Vec<u32>, ()>> = None;
        for x in tuples(p, pr.root().n_in) {
            let h = hint_fn(p, p);
            let r = honest(pr, &x, &pubs, p, &h).map_err(|_| ());
            honest_err_all &= r.is_err();
            hdep |= hseen.get_or_insert_with(|| r.clone()) != &r;
            let mut f = Free::new(p);
            let mut n = 0;
            loop {
                let r = run(pr, &x, &pubs, p, 0, &mut f);
                if r.is_ok() {
                    any_ok = true;
                }
                let r = r.map_err(|_| ());
                if let Some(s) = &seen {
                    if *s != r {
                        dep = true;
                    }
                } else {
                    seen = Some(r);
                }
                n += 1;
                if n > 4000 || !f.advance() {
                    break;
                }
            }
        }
    }
    !any_ok || honest_err_all || !dep || !hdep || pr.circs.iter().any(|(id, _)| *id != 0 && has_constant_part(pr, *id, p))
        || divides_by_constant_zero(pr, p)
}

/// Can the result of a custom gate flow into a prover-computed value? (documented as unsupported)
fn gate_feeds_hint(pr: &Prog) -> bool {
    let n = pr.circs.len();
    let idx = |id: usize| pr.circs.iter().position(|(i, _)| *i == id).unwrap();
    let mut tin: Vec<Vec<bool>> = pr.circs.iter().map(|(_, c)| vec![false; c.n_in]).collect();
    let mut tout: Vec<Vec<bool>> = pr.circs.iter().map(|(_, c)| vec![false; c.outs.len()]).collect();
    let mut hit = false;
    for _ in 0..4 * n + 4 {
        for (k, (_, c)) in pr.circs.iter().enumerate() {
            let mut t = vec![false];
            t.extend(&tin[k]);
            for i in &c.ins {
                match i {
                    Ins::Lin(ts, _) => {
                        let v = ts.iter().any(|(_, v)| t[*v]);
                        t.push(v)
                    }
                    Ins::Mul(vs) => {
                        let v = vs.iter().any(|v| t[*v]);
                        t.push(v)
                    }
                    Ins::Bool(_, a, b) => {
                        let v = t[*a] | t[*b];
                        t.push(v)
                    }
                    Ins::Div(a, b, _) | Ins::UBin(_, a, b) => {
                        hit |= t[*a] | t[*b];
                        t.push(false)
                    }
                    Ins::Sel(a, b, d) => {
                        hit |= t[*a] | t[*b] | t[*d];
                        t.push(false)
                    }
                    Ins::IsZero(a) => {
                        hit |= t[*a];
                        t.push(false)
                    }
                    Ins::Bin(a, n) => {
                        hit |= t[*a];
                        t.extend(vec![false; *n])
                    }
                    Ins::Hint(_, vs, n) => {
                        hit |= vs.iter().any(|v| t[*v]);
                        t.extend(vec![false; *n])
                    }
                    Ins::Const(_) | Ins::Pub(_) | Ins::Rand => t.push(false),
                    Ins::Gate(..) => t.push(true),
                    Ins::Call(id, vs, n) => {
                        let j = idx(*id);
                        for (q, v) in vs.iter().enumerate() {
                            tin[j][q] |= t[*v];
                        }
                        t.extend(tout[j].iter().take(*n));
                    }
                }
            }
            hit |= c.cons.iter().any(|(ty, v)| *ty == NONZERO && t[*v]);
            for (q, v) in c.outs.iter().enumerate() {
                tout[k][q] |= t[*v];
            }
        }
    }
    hit
}

/// The values the `outs` of a circuit take on its own, over everything it may be given.
fn part_values(pr: &Prog, id: usize, c: Circ, p: u32, mut f: impl FnMut(&[u32], usize)) {
    let mut sub = pr.clone();
    sub.zeroes = 0;
    sub.circs.retain(|(i, _)| *i != 0 && *i != id);
    if id != 0 {
        sub.circs.push((id, pr.get(id).clone()));
    }
    let n_in = c.n_in;
    sub.circs.push((0, c));
    for (round, pubs) in tuples(p, pr.n_pub).into_iter().enumerate() {
        for x in tuples(p, n_in) {
            let mut o = Free::new(p);
            let mut n = 0;
            loop {
                if let Ok(v) = run(&sub, &x, &pubs, p, 0, &mut o) {
                    f(&v, round);
                }
                n += 1;
                if n > 4000 || !o.advance() {
                    break;
                }
            }
        }
    }
}

/// Does sub-circuit `id` deliver or constrain a value that depends on nothing it is given?
fn has_constant_part(pr: &Prog, id: usize, p: u32) -> bool {
    let mut c = pr.get(id).clone();
    c.outs.extend(std::mem::take(&mut c.cons).iter().map(|(_, v)| *v));
    let k = c.outs.len();
    let mut seen: std::collections::HashMap<(usize, usize), HashSet<u32>> = Default::default();
    part_values(pr, id, c, p, |v, round| {
        for i in 0..k {
            seen.entry((round, i)).or_default().insert(v[i]);
        }
    });
    seen.values().any(|s| s.len() < 2)
}

/// A division whose divisor is zero whatever the circuit is given is refused as an error of the program.
fn divides_by_constant_zero(pr: &Prog, p: u32) -> bool {
    pr.circs.iter().any(|(id, c)| {
        (0..c.ins.len()).any(|k| {
            let Ins::Div(_, y, _) = &c.ins[k] else { return false };
            let probe = Circ { n_in: c.n_in, ins: c.ins[..k].to_vec(), cons: vec![], outs: vec![*y] };
            let mut zero = true;
            part_values(pr, *id, probe, p, |v, _| zero &= v[0] == 0);
            zero
        })
    })
}

// ------------------------------------------------------------------------------------- C01

fn c01_case<C: Small, I: InputType>(pr: &Prog, o: Opt) {
    rt::evals(1);
    let p = C::P;
    let c = match compile::<C, I>(pr, o) {
        Ok(c) => c,
        Err(Fail::Refused(e)) => {
            rt::count("refused", 1);
            if !refusal_ok(pr, p) {
                report::<C, I>(pr, o, &format!("satisfiable program refused: {e}"), json!(e));
            }
            return;
        }
        Err(f) => {
            report::<C, I>(pr, o, &format!("compiler failed on a valid program: {f:?}"), json!(null));
            return;
        }
    };
    rt::states(c.lay.layers.iter().map(|l| l.0 as u64).sum());
    let fns = if pr.has_user_hint() { num_hint_fns(p) } else { 1 };
    let n = pr.root().n_in;
    let xs = small_tuples(p, n);
    let mut any = false;
    for pubs in tuples(p, pr.n_pub) {
        for x in &xs {
            for k in 0..fns {
                let h = hint_fn(if fns == 1 { p } else { k }, p);
                let want = honest(pr, x, &pubs, p, &h);
                let got = match c.solve(x, &pubs, h.clone()) {
                    Ok(g) => g,
                    Err(e) => {
                        report::<C, I>(pr, o, &format!("witness solver panics: {e}"), json!({"input": x, "public": pubs}));
                        return;
                    }
                };
                rt::transitions(1);
                match (want, got) {
                    (Ok(_), Err(e)) if e.contains("CustomGate currently unsupported") && gate_feeds_hint(pr) => {
                        rt::count("gate_feeding_hint_unsupported", 1);
                        return;
                    }
                    (Ok(_), Err(e)) => {
                        report::<C, I>(pr, o, &format!("witness solver refuses input {} the program accepts: {e}", vs(x)), json!({"input": x, "public": pubs}));
                        return;
                    }
                    (Ok(w), Ok(v)) => {
                        any = true;
                        rt::traces(1);
                        let e = c.lay.eval(&v, &pubs);
                        if !e.accept {
                            report::<C, I>(pr, o, &format!("compiled circuit rejects the witness for input {} the program accepts", vs(x)), json!({"input": x, "public": pubs, "witness": v}));
                            return;
                        }
                        if e.outs != w || e.random_outs {
                            report::<C, I>(pr, o, &format!("outputs {:?} instead of {w:?} for input {}", e.outs, vs(x)), json!({"input": x, "public": pubs, "witness": v}));
                            return;
                        }
                        if let Err(e) = lay::conform(&c.lc, &c.lay, &v, &pubs, 3) {
                            report::<C, I>(pr, o, &format!("evaluator and gates disagree: {e}"), json!({"witness": v}));
                            return;
                        }
                    }
                    (Err(Stop::Broken), Ok(v)) => {
                        rt::traces(1);
                        let e = c.lay.eval(&v, &pubs);
                        if e.accept {
                            report::<C, I>(pr, o, &format!("honest run on {} breaks an assertion but the compiled circuit accepts the solver's witness", vs(x)), json!({"input": x, "public": pubs, "witness": v}));
                            return;
                        }
                        if let Err(e) = lay::conform(&c.lc, &c.lay, &v, &pubs, 2) {
                            report::<C, I>(pr, o, &format!("evaluator and gates disagree: {e}"), json!({"witness": v}));
                            return;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    if any {
        rt::distinct(&(pr, o, C::CONFIG_ID, I::CROSS_LAYER_RELAY));
    }
}

/// All inputs when few, otherwise every input with at most two non-base coordinates.
pub fn small_tuples(p: u32, n: usize) -> Vec<Vec<u32>> {
    if (p as u64).pow(n as u32) <= 250 {
        return tuples(p, n);
    }
    let mut r = BTreeSet::new();
    for base in [vec![0; n], vec![1; n], (0..n as u32).map(|i| (i + 1) % p).collect::<Vec<_>>()] {
        for i in 0..n {
            for d in 0..p {
                let mut v = base.clone();
                v[i] = d;
                r.insert(v.clone());
                if i + 1 < n {
                    v[i + 1] = (d + 1) % p;
                    r.insert(v);
                }
            }
        }
    }
    r.into_iter().collect()
}

// ------------------------------------------------------------------------------------- C02

fn c02_case<C: Small, I: InputType>(pr: &Prog, o: Opt, cap: u64) {
    rt::evals(1);
    let p = C::P;
    let c = match compile::<C, I>(pr, o) {
        Ok(c) => c,
        Err(Fail::Bad(e)) => {
            report::<C, I>(pr, o, &format!("malformed circuit: {e}"), json!(null));
            return;
        }
        _ => {
            rt::count("not_compiled", 1);
            return;
        }
    };
    if c.lay.n_rand > 128 {
        rt::count("skipped_many_draws", 1);
        return;
    }
    let n = pr.root().n_in;
    let known = c.known_inputs(n);
    let mut nontrivial = false;
    for pubs in tuples(p, pr.n_pub) {
        // R projected on the inputs the circuit reads
        let Some(rel) = crate::prog::relation(pr, &pubs, p, 60_000) else {
            rt::count("relation_too_large", 1);
            return;
        };
        let proj: HashSet<u128> = rel.iter().map(|(x, out)| enc(&mask(x, &known), out)).collect();
        let bases: Vec<Vec<u32>> = rel
            .iter()
            .take(6)
            .filter_map(|(x, _)| c.solve(x, &pubs, hint_fn(p, p)).ok().and_then(|r| r.ok()))
            .chain([vec![0; c.lay.n_in], vec![1; c.lay.n_in]])
            .collect();
        let mut bad: Option<(String, Vec<u32>)> = None;
        let (mut n_acc, mut n_all, mut k) = (0u64, 0u64, 0u64);
        let full = c.witnesses(cap, &bases, |v| {
            if bad.is_some() {
                return;
            }
            n_all += 1;
            let e = c.lay.eval(v, &pubs);
            if k % 7 == 0 && k < 120 {
                if let Err(e) = lay::conform(&c.lc, &c.lay, v, &pubs, 2) {
                    bad = Some((format!("evaluator and gates disagree: {e}"), v.to_vec()));
                }
                rt::traces(1);
            }
            k += 1;
            if !e.accept {
                return;
            }
            n_acc += 1;
            match c.carried(v, n) {
                Err(()) => bad = Some(("two slots carry the same input with different values".into(), v.to_vec())),
                Ok(x) => {
                    if !proj.contains(&enc(&x, &e.outs)) {
                        bad = Some((format!("accepted witness {v:?} (inputs {x:?}, 7 = not carried) with outputs {:?} although no run of the program gives that", e.outs), v.to_vec()));
                    }
                }
            }
        });
        rt::states(n_all);
        rt::transitions(n_acc);
        rt::count(if full { "witness_spaces_enumerated_fully" } else { "witness_spaces_two_slot_deviations" }, 1);
        if n_acc < n_all {
            nontrivial = true;
        }
        if let Some((w, v)) = bad {
            report::<C, I>(pr, o, &w, json!({"witness": v, "public": pubs}));
            return;
        }
    }
    if nontrivial {
        rt::distinct(&(pr, o, C::CONFIG_ID, I::CROSS_LAYER_RELAY));
    }
}

// ------------------------------------------------------------------------------------- C03

/// Accepted (full input, outputs) pairs, for comparing compilations of one program.
fn accepted<C: Small, I: InputType>(pr: &Prog, c: &Comp<C, I>, pubs: &[u32], cap: u64) -> Option<BTreeSet<u128>> {
    let p = C::P;
    let n = pr.root().n_in;
    let mut r: HashSet<(Vec<u32>, Vec<u32>)> = HashSet::new();
    let full = c.witnesses(cap, &[], |v| {
        let e = c.lay.eval(v, pubs);
        if e.accept {
            if let Ok(x) = c.carried(v, n) {
                r.insert((x, e.outs));
            }
        }
    });
    if !full {
        return None;
    }
    let mut out = BTreeSet::new();
    for (x, o) in r {
        let mut xs = vec![vec![]];
        for d in &x {
            xs = xs
                .into_iter()
                .flat_map(|v: Vec<u32>| {
                    let ds: Vec<u32> = if *d == 7 { (0..p).collect() } else { vec![*d] };
                    ds.into_iter().map(move |d| {
                        let mut v = v.clone();
                        v.push(d);
                        v
                    })
                })
                .collect();
        }
        for v in xs {
            out.insert(enc(&v, &o));
        }
    }
    Some(out)
}

type Acc = Result<Option<Vec<BTreeSet<u128>>>, ()>;

fn c03_one<C: Small, I: InputType>(pr: &Prog, o: Opt, cap: u64) -> Acc {
    let p = C::P;
    let c = match compile::<C, I>(pr, o) {
        Ok(c) => c,
        Err(Fail::Refused(_)) => return Err(()),
        Err(f) => {
            report::<C, I>(pr, o, &format!("compiler failed: {f:?}"), json!(null));
            return Ok(None);
        }
    };
    rt::evals(1);
    rt::states(c.lay.layers.len() as u64);
    // declared order without reordering: inputs in order, then hint values
    if !o.reorder {
        let pos: Vec<usize> = c
            .slot
            .iter()
            .zip(&c.read)
            .filter(|(_, r)| **r)
            .map(|(s, _)| s.unwrap_or(usize::MAX))
            .collect();
        if pos.windows(2).any(|w| w[0] > w[1]) {
            report::<C, I>(pr, o, &format!("inputs out of declared order: slots carry {:?}", c.slot), json!(null));
        }
    }
    if let (Some(l), 1) = (o.fanout, pr.circs.len()) {
        let mut cnt = std::collections::HashMap::new();
        for (_, gs) in &c.lay.layers {
            for g in gs {
                if let lay::Kind::Mul(a, b) = &g.kind {
                    *cnt.entry(*a).or_insert(0usize) += 1;
                    if a != b {
                        *cnt.entry(*b).or_insert(0) += 1;
                    }
                }
            }
        }
        if let Some((w, k)) = cnt.iter().find(|(_, k)| **k > l) {
            report::<C, I>(pr, o, &format!("fan-out limit exceeded: a value (layer {}, position {}) feeds {k} multiplications, limit {l}", w.0, w.1), json!(null));
        }
    }
    let mut r = vec![];
    for pubs in tuples(p, pr.n_pub) {
        match accepted(pr, &c, &pubs, cap) {
            Some(a) => {
                rt::transitions(a.len() as u64);
                r.push(a)
            }
            None => return Ok(None),
        }
    }
    Ok(Some(r))
}

fn c03_case<C: Small>(pr: &Prog, opts: &[Opt], cap: u64) {
    let mut base: Option<(String, Vec<BTreeSet<u128>>)> = None;
    let mut refused: Vec<String> = vec![];
    let mut ok: Vec<String> = vec![];
    for o in opts {
        for cross in [false, true] {
            let (name, r) = if cross {
                (cfgname::<C, X>(*o), c03_one::<C, X>(pr, *o, cap))
            } else {
                (cfgname::<C, N>(*o), c03_one::<C, N>(pr, *o, cap))
            };
            match r {
                Err(()) => refused.push(name),
                Ok(None) => {
                    ok.push(name);
                    rt::count("witness_space_too_large", 1)
                }
                Ok(Some(a)) => {
                    ok.push(name.clone());
                    rt::traces(1);
                    match &base {
                        None => base = Some((name, a)),
                        Some((n0, b)) => {
                            if *b != a {
                                let d = b.iter().zip(&a).map(|(x, y)| x.symmetric_difference(y).count()).sum::<usize>();
                                report::<C, N>(pr, *o, &format!("options change the meaning: [{n0}] and [{name}] differ on {d} (input, output) pairs"), json!({"a": n0, "b": name}));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    if !refused.is_empty() && !ok.is_empty() && !refusal_ok(pr, C::P) {
        report::<C, N>(pr, opts[0], &format!("refused with [{}] but compiled with [{}]", refused[0], ok[0]), json!({"refused": refused, "ok": ok}));
    }
    if let Some((_, b)) = base {
        if b.iter().any(|s| !s.is_empty()) {
            rt::distinct(&(pr, C::CONFIG_ID));
        }
    }
}

// ------------------------------------------------------------------------------------- driver

/// The program families: (name, programs over fields of size p).
pub fn families(p: u32, th: bool) -> Vec<(&'static str, Vec<Prog>)> {
    use Sz::*;
    let mut r = vec![];
    r.push(("one1", fam::straight(1, &[Full], p, true)));
    r.push(("one2", fam::straight(2, &[Full], p, true)));
    r.push(("asserts", fam::asserts(p)));
    r.push(("chains", fam::chains(p, if th { 6 } else { 4 })));
    r.push(("shapes", fam::shapes(p, th)));
    r.push(("fanout", fam::fanout(p, if th { 10 } else { 6 })));
    r.push(("repeats", fam::repeats(p, th)));
    r.push(("common", fam::common(p, th)));
    r.push(("grid", fam::grid(p, th)));
    r.push(("wide", fam::wide(p, th)));
    r.push(("gates", fam::gates(p)));
    r.push(("pubs", fam::pubs(p)));
    r.push(("deepcalls", fam::deepcalls(p, if th { 4 } else { 3 })));
    r.push(("call1", fam::calls(1, 1, Mid, p, 1, false)));
    r.push(("call2", fam::calls(2, 2, Small, p, 7, false)));
    r.push(("call3", fam::calls(2, 1, Small, p, 3, false)));
    r.push(("calltwice", fam::calls(2, 1, if th { Mid } else { Small }, p, 5, true)));
    r.push(("calltwice2", fam::calls(1, 2, if th { Small } else { Tiny }, p, 5, true)));
    r.push(("nested", fam::nested(Mid, p, (1, 2))));
    r.push(("nested_ids", fam::nested(if th { Mid } else { Small }, p, (1 << 40, 3))));
    r.push(("twobodies", fam::two_bodies(if th { Small } else { Tiny }, p)));
    r.push(("two1", fam::straight(1, &[Mid, Mid], p, false)));
    r.push(("two2", fam::straight(2, &[Small, Small], p, true)));
    r.push(("three1", fam::straight(1, &[Tiny, Small, Small], p, false)));
    if th {
        r.push(("two2m", fam::straight(2, &[Mid, Mid], p, false)));
        r.push(("two1f", fam::straight(1, &[Full, Full], p, true)));
        r.push(("calltwice22", fam::calls(2, 2, Tiny, p, 5, true)));
        r.push(("three2", fam::straight(2, &[Small, Small, Tiny], p, false)));
        r.push(("four1", fam::straight(1, &[Tiny, Tiny, Tiny, Tiny], p, false)));
    }
    r
}

macro_rules! rot {
    ($k:expr, $f:ident, $o:expr, [$(($c:ident, $i:ident)),*], $a:tt) => {{
        let mut n = 0usize;
        let k = $k;
        $( if k == n { rot!(@call $f, $c, $i, $a); } n += 1; )*
        let _ = n;
    }};
    (@call $f:ident, $c:ident, $i:ident, ($($a:expr),*)) => { $f::<$c, $i>($($a),*) };
}

pub fn opts_quick(i: usize) -> Vec<Opt> {
    // default always; one of the other corners in rotation
    let o = |level, reorder, fanout| Opt { level, reorder, fanout };
    let corners = [o(1, true, None), o(2, true, None), o(3, false, None), o(1, false, Some(2)), o(2, false, Some(3)), o(3, true, Some(2))];
    vec![DEF, corners[i % corners.len()]]
}

pub fn drive2(f3: &(dyn Fn(&Prog, usize) + Sync), f5: &(dyn Fn(&Prog, usize) + Sync)) {
    drive(f3, f5)
}
fn drive(f3: impl Fn(&Prog, usize) + Sync, f5: impl Fn(&Prog, usize) + Sync) {
    let th = rt::thorough();
    for (name, ps) in families(3, th) {
        rt::count(&format!("programs_{name}"), ps.len() as u64);
        rt::family(name, || {
            if let Some(p) = ps.get(ps.len() / 2) {
                rt::sample(json!({"family": name, "program": p.to_string()}));
            }
            rt::par(ps.len(), |i| {
                rt::watch(format!("{name}: {}", ps[i]), || f3(&ps[i], i))
            })
        });
    }
    use Sz::*;
    let mut f5s = vec![
        ("one1_f5", fam::straight(1, &[Full], 5, true)),
        ("one2_f5", fam::straight(2, &[if th { Full } else { Mid }], 5, true)),
        ("asserts_f5", fam::asserts(5)),
        ("chains_f5", fam::chains(5, if th { 5 } else { 3 })),
        ("repeats_f5", fam::repeats(5, false)),
        ("call1_f5", fam::calls(1, 1, if th { Mid } else { Small }, 5, 2, false)),
        ("fanout_f5", fam::fanout(5, 5)),
    ];
    if th {
        f5s.push(("two1_f5", fam::straight(1, &[Mid, Mid], 5, false)));
        f5s.push(("shapes_f5", fam::shapes(5, false)));
        f5s.push(("nested_f5", fam::nested(Mid, 5, (2, 1))));
        f5s.push(("calltwice_f5", fam::calls(2, 1, Small, 5, 5, true)));
    }
    for (name, ps) in f5s {
        rt::count(&format!("programs_{name}"), ps.len() as u64);
        rt::family(name, || {
            rt::par(ps.len(), |i| rt::watch(format!("{name}: {}", ps[i]), || f5(&ps[i], i)))
        });
    }
}

pub const BOUNDS: &[&str] = &[
    "the compiler sources are the repository's, built against stand-in field, SIMD and prover crates; fields are F3 and F5 with the compiler's own trait interface",
    "random coefficients are treated as formal variables, so acceptance means acceptance for every drawing",
];

pub fn c01() {
    drive(
        |pr, i| {
            let os = if rt::thorough() { all_opts() } else { opts_quick(i) };
            for (j, o) in os.into_iter().enumerate() {
                match (i + j) % 2 {
                    0 => rot!((i / 2 + j) % 3, c01_case, o, [(C3, N), (C3n, N), (C3w, N)], (pr, o)),
                    _ => rot!((i / 2 + j) % 3, c01_case, o, [(C3n, X), (C3, X), (C3w, X)], (pr, o)),
                }
            }
        },
        |pr, i| {
            for (j, o) in opts_quick(i).into_iter().enumerate() {
                rot!((i + j) % 4, c01_case, o, [(C5, N), (C5n, X), (C5w, X), (C5n, N)], (pr, o))
            }
        },
    );
    rt::finish_and_exit(
        Level::ModelChecking,
        "a compilation counts when some input is accepted by the program's own run and the solver's witness was judged on it; every input of the small field, every hint function of the menu, every public input",
        BOUNDS,
    );
}

pub fn c02() {
    let cap = if rt::thorough() { 60_000 } else { 2_200 };
    drive(
        |pr, i| {
            let os = if rt::thorough() { all_opts() } else { opts_quick(i) };
            for (j, o) in os.into_iter().enumerate() {
                match (i + j) % 2 {
                    0 => rot!((i / 2 + j) % 3, c02_case, o, [(C3, N), (C3n, N), (C3w, N)], (pr, o, cap)),
                    _ => rot!((i / 2 + j) % 3, c02_case, o, [(C3n, X), (C3, X), (C3w, X)], (pr, o, cap)),
                }
            }
        },
        |pr, i| {
            for (j, o) in opts_quick(i).into_iter().enumerate() {
                rot!((i + j) % 4, c02_case, o, [(C5, N), (C5n, X), (C5w, X), (C5n, N)], (pr, o, cap))
            }
        },
    );
    rt::finish_and_exit(
        Level::ModelChecking,
        "a compilation counts when its circuit rejects some witness; every assignment of the witness slots the circuit reads is tried (two-slot deviations from solved witnesses when there are too many), with acceptance decided for every drawing of the random coefficients",
        BOUNDS,
    );
}

pub fn c03() {
    let cap = if rt::thorough() { 20_000 } else { 800 };
    rt::family("option_values", || option_values());
    drive(
        |pr, i| {
            let os = if rt::thorough() || i % 9 == 0 { all_opts() } else { opts_quick(i) };
            match i % 3 {
                0 => c03_case::<C3>(pr, &os, cap),
                1 => c03_case::<C3n>(pr, &os, cap),
                _ => c03_case::<C3w>(pr, &os, cap),
            }
        },
        |pr, i| {
            let os = if i % 9 == 0 { all_opts() } else { opts_quick(i) };
            match i % 2 {
                0 => c03_case::<C5>(pr, &os, cap),
                _ => c03_case::<C5n>(pr, &os, cap),
            }
        },
    );
    rt::finish_and_exit(
        Level::ModelChecking,
        "a program counts when some input is accepted; the complete accepted (input, output) relations of all its compilations are compared",
        BOUNDS,
    );
}

fn option_values() {
    let pr = Prog::single(2, vec![Ins::Mul(vec![1, 2])], vec![(ZERO, 3)], vec![1]);
    for level in 0..6usize {
        for fanout in [None, Some(0), Some(1), Some(2), Some(3), Some(usize::MAX)] {
            for reorder in [false, true] {
                let o = Opt { level, reorder, fanout };
                let valid = (1..=3).contains(&level) && fanout.map_or(true, |l| l > 1);
                rt::evals(1);
                match compile::<C3, N>(&pr, o) {
                    Ok(_) if valid => {}
                    Err(Fail::Refused(_)) if !valid => {}
                    r => report::<C3, N>(&pr, o, &format!("option values {} but the compiler answers {:?}", if valid { "in range" } else { "out of range" }, r.map(|_| "a circuit")), json!(null)),
                }
            }
        }
    }
}
