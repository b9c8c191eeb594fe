//! C15, C16, C18, C19 over the pipelines of zk.rs.
use crate::c17::{factorizations, permutations};
use crate::rt::{self, violation, Level};
use crate::zk::*;
use expander_compiler::circuit::layered::{Allocation, Circuit, GateAdd, GateConst, GateMul, NormalInput, NormalInputType, NormalInputUsize, Segment};
use expander_compiler::circuit::layered::Coef;
use expander_compiler::zkcuda::context::{ComputationGraph, Context, ProofTemplate};
use expander_compiler::zkcuda::proving_system::{prepare_inputs, DummyProvingSystem, KernelWiseProvingSystem};
use expander_compiler::zkcuda::shape::{multi_dimension_data_padding, shape_padded_mapping};
use gkr_engine::MPISharedMemory;
use serde_json::json;
use serdes::ExpSerde;

// ---------------------------------------------------------------------------------- enumeration

fn shapes_of(n: usize, maxdim: usize) -> Vec<Vec<usize>> {
    let mut l = factorizations(n, maxdim, 0);
    if n == 1 {
        l = vec![vec![], vec![1]];
    }
    l
}
fn views_of(shape: &[usize], maxdim: usize) -> Vec<View> {
    let mut v: Vec<View> = shapes_of(size(shape), maxdim).into_iter().filter(|s| s != shape && !s.is_empty()).map(View::Reshape).collect();
    if !shape.is_empty() {
        v.extend(permutations(shape.len()).into_iter().filter(|p| p.iter().enumerate().any(|(i, x)| i != *x)).map(View::Transpose));
    }
    v
}
fn after(shape: &[usize], v: &View) -> Vec<usize> {
    match v {
        View::Reshape(s) => s.clone(),
        View::Transpose(a) => a.iter().map(|i| shape[*i]).collect(),
    }
}
/// All chains of up to `depth` views.
fn chains(shape: &[usize], depth: usize, maxdim: usize) -> Vec<(Vec<View>, Vec<usize>)> {
    let mut all = vec![(vec![], shape.to_vec())];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for i in from..to {
            let (c, s) = all[i].clone();
            for v in views_of(&s, maxdim) {
                let t = after(&s, &v);
                let mut c = c.clone();
                c.push(v);
                all.push((c, t));
            }
        }
        from = to;
    }
    all
}
fn arg(k: Kind, s: &[usize]) -> (Kind, Vec<usize>) {
    (k, s.to_vec())
}
fn kern(args: &[(Kind, Vec<usize>)], body: Body) -> Kern {
    Kern { args: args.to_vec(), body }
}

fn gen_views(ns: &[usize], depth: usize) -> Vec<Pipe> {
    let mut out = vec![];
    for &n in ns {
        for s in shapes_of(n, 3) {
            for (c, w) in chains(&s, depth, 3) {
                for variant in 0..4u64 {
                    if s.is_empty() && variant % 2 == 1 {
                        continue;
                    }
                    let mut p = Pipe::default();
                    p.steps.push(Step::Up(s.clone(), variant * 2 + n as u64));
                    for (i, v) in c.iter().enumerate() {
                        p.steps.push(Step::View(i, v.clone()));
                    }
                    let h = c.len();
                    if variant < 2 || w.is_empty() {
                        if w.is_empty() {
                            continue;
                        }
                        let (par, k) = (w[0], &w[1..]);
                        if variant == 0 {
                            // in, out; the output through a view into a second kernel
                            p.kerns.push(kern(&[arg(In, k), arg(Out, &[2])], Body::Poly(0)));
                            p.steps.push(Step::Call(0, par, vec![h]));
                            p.steps.push(Step::View(h + 1, if par % 2 == 0 { View::Transpose(vec![1, 0]) } else { View::Reshape(vec![par * 2]) }));
                            if par % 2 == 0 {
                                p.kerns.push(kern(&[arg(Io, &[par])], Body::Poly(3)));
                                p.steps.push(Step::Call(1, 2, vec![h + 2]));
                            } else {
                                p.kerns.push(kern(&[arg(Io, &[])], Body::Poly(3)));
                                p.steps.push(Step::Call(1, par * 2, vec![h + 2]));
                            }
                        } else {
                            // changed in place, and used again in its original form
                            p.kerns.push(kern(&[arg(Io, k)], Body::Poly(1)));
                            p.steps.push(Step::Call(0, par, vec![h]));
                            p.kerns.push(kern(&[arg(In, &s[1..]), arg(Out, &[])], Body::Poly(2)));
                            p.steps.push(Step::Call(1, s[0], vec![0]));
                        }
                    } else if variant == 2 {
                        // the whole view broadcast
                        p.kerns.push(kern(&[arg(In, &w), arg(In, &[]), arg(Out, &[])], Body::Poly(0)));
                        p.steps.push(Step::Up(vec![3], 3));
                        p.steps.push(Step::Call(0, 3, vec![h, h + 1]));
                    } else {
                        // the view against the original: equal only if nothing moved
                        if w[..] != s[..] {
                            p.steps.push(Step::View(h, View::Reshape(s.clone())));
                        } else {
                            p.steps.push(Step::View(h, View::Reshape(s.clone())));
                        }
                        p.kerns.push(kern(&[arg(In, &s[1..]), arg(In, &s[1..])], Body::Equal));
                        p.steps.push(Step::Call(0, s[0], vec![h + 1, 0]));
                    }
                    out.push(p);
                }
            }
        }
    }
    out
}
/// Every kernel signature, parallel count and broadcast choice; then the outputs go through it again where they fit.
fn gen_kinds(th: bool) -> Vec<Pipe> {
    let shapes: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![3], vec![2, 2], vec![3, 2], vec![1, 2]];
    let mut sigs: Vec<Vec<(Kind, Vec<usize>)>> = vec![];
    for k in [In, Out, Io] {
        for s in &shapes {
            sigs.push(vec![(k, s.clone())]);
            for k2 in [In, Out, Io] {
                for s2 in &shapes {
                    sigs.push(vec![(k, s.clone()), (k2, s2.clone())]);
                    for k3 in [In, Out, Io] {
                        for s3 in &shapes[..if th { 5 } else { 3 }] {
                            if th || (s.len() < 2 && s2.len() < 2) {
                                sigs.push(vec![(k, s.clone()), (k2, s2.clone()), (k3, s3.clone())]);
                            }
                        }
                    }
                }
            }
        }
    }
    let mut out = vec![];
    for (si, sig) in sigs.into_iter().enumerate() {
        let ins: Vec<usize> = (0..sig.len()).filter(|i| sig[*i].0.is_in()).collect();
        let b_ok: Vec<usize> = (0..ins.len()).filter(|j| sig[ins[*j]].0 == In).collect();
        for par in 1..=4 {
            if sig.len() == 3 && !th && par != 1 + si % 4 && par != 3 {
                continue;
            }
            for mask in 0..1 << b_ok.len() {
                let body = if si % 5 == 0 && !ins.is_empty() { Body::Copy } else { Body::Poly(si as u64 % 4) };
                let k = Kern { args: sig.clone(), body };
                let mut p = Pipe { kerns: vec![k], steps: vec![] };
                let mut hs = vec![];
                for (j, i) in ins.iter().enumerate() {
                    let br = b_ok.iter().position(|x| x == &j).is_some_and(|q| mask >> q & 1 == 1);
                    let mut s = sig[*i].1.clone();
                    if !br {
                        s.insert(0, par);
                    }
                    hs.push(j);
                    p.steps.push(Step::Up(s, (j * 3 + si + mask) as u64 % 16));
                }
                p.steps.push(Step::Call(0, par, hs.clone()));
                // feed the outputs back
                let outs: Vec<usize> = (0..sig.len()).filter(|i| sig[*i].0.is_out()).collect();
                let mut again = hs.clone();
                let mut fed = false;
                for (j, i) in ins.iter().enumerate() {
                    for (o, oi) in outs.iter().enumerate() {
                        if sig[*oi].1 == sig[*i].1 && (o + j) % 2 == 0 {
                            again[j] = hs.len() + o;
                            fed = true;
                        }
                    }
                }
                if fed {
                    p.steps.push(Step::Call(0, par, again));
                }
                out.push(p);
            }
        }
    }
    out
}
/// Every sequence of calls of a few small kernels over every choice of handles that fits.
fn gen_seq(depth: usize) -> Vec<Pipe> {
    let kerns = vec![
        kern(&[arg(In, &[]), arg(Out, &[])], Body::Poly(0)),
        kern(&[arg(In, &[2]), arg(Out, &[])], Body::Poly(1)),
        kern(&[arg(Io, &[]), arg(In, &[])], Body::Poly(2)),
        kern(&[arg(In, &[]), arg(In, &[])], Body::Equal),
        kern(&[arg(In, &[2]), arg(Out, &[2])], Body::Copy),
    ];
    let start = Pipe { kerns: kerns.clone(), steps: vec![Step::Up(vec![2, 2], 3), Step::View(0, View::Reshape(vec![4])), Step::Up(vec![], 4)] };
    let shapes0 = vec![vec![2, 2], vec![4], vec![]];
    let mut out = vec![];
    let mut front = vec![(start, shapes0)];
    for d in 0..depth {
        let mut next = vec![];
        for (p, shapes) in &front {
            for (ki, k) in kerns.iter().enumerate() {
                for par in [1, 2, 4] {
                    let fits = |s: &Vec<usize>, ks: &Vec<usize>, io: bool| (!io && s == ks) || (s.len() == ks.len() + 1 && s[0] == par && s[1..] == ks[..]);
                    let mut choices: Vec<Vec<usize>> = vec![vec![]];
                    for a in k.args.iter().filter(|a| a.0.is_in()) {
                        let ok: Vec<usize> = (0..shapes.len()).filter(|i| fits(&shapes[*i], &a.1, a.0 == Io)).collect();
                        choices = choices.into_iter().flat_map(|c| ok.iter().map(move |o| [&c[..], &[*o]].concat())).collect();
                    }
                    for c in choices {
                        let mut p = p.clone();
                        let mut sh = shapes.clone();
                        p.steps.push(Step::Call(ki, par, c));
                        for a in k.args.iter().filter(|a| a.0.is_out()) {
                            let mut s = vec![par];
                            s.extend(&a.1);
                            sh.push(s);
                        }
                        out.push(p.clone());
                        if d + 1 < depth {
                            next.push((p, sh));
                        }
                    }
                }
            }
        }
        front = next;
    }
    out
}
/// One memory under several shapes at once.
fn gen_layouts(ns: &[usize], calls: usize) -> Vec<Pipe> {
    let mut out = vec![];
    for &n in ns {
        // each use: a view, then cut after its first dimension
        let mut uses: Vec<Vec<View>> = vec![];
        for s in shapes_of(n, 3) {
            uses.push(vec![View::Reshape(s.clone())]);
            for p in permutations(s.len()).into_iter().skip(1) {
                uses.push(vec![View::Reshape(s.clone()), View::Transpose(p)]);
            }
        }
        let mut sel: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..calls {
            sel = sel.into_iter().flat_map(|c| (c.last().copied().unwrap_or(0)..uses.len()).map(move |o| [&c[..], &[o]].concat())).collect();
        }
        for c in sel {
            let mut p = Pipe::default();
            p.steps.push(Step::Up(vec![n], 1 + 2 * (n as u64 % 4)));
            let mut h = 1;
            for (j, u) in c.iter().enumerate() {
                let mut cur = 0;
                let mut s = vec![n];
                for v in &uses[*u] {
                    p.steps.push(Step::View(cur, v.clone()));
                    s = after(&s, v);
                    cur = h;
                    h += 1;
                }
                let last = j + 1 == c.len();
                // hinted kernels also lay out their hint values
                let body = if last && n % 2 == 1 { Body::Half } else { Body::Poly(j as u64) };
                p.kerns.push(kern(&[arg(In, &s[1..]), arg(Out, &[])], body));
                p.steps.push(Step::Call(j, s[0], vec![cur]));
                h += 1;
            }
            out.push(p);
        }
    }
    out
}
/// One kernel on memories laid out differently.
fn gen_relayout(ns: &[usize]) -> Vec<Pipe> {
    let mut out = vec![];
    for &n in ns {
        let shapes = shapes_of(n, 3);
        for s in &shapes {
            for t in &shapes {
                for par in [1, n] {
                    for (body, kinds) in [(Body::Poly(0), [In, Out]), (Body::Half, [In, Out]), (Body::Poly(1), [Io, In])] {
                        let mut p = Pipe::default();
                        let k: &[usize] = if par == 1 { &[n] } else { &[] };
                        p.kerns.push(kern(&[arg(kinds[0], k), arg(kinds[1], k)], body));
                        for (j, x) in [s, t, s].iter().enumerate() {
                            let b = p.steps.iter().map(|s| !matches!(s, Step::Call(..)) || kinds[0] == Io || kinds[1] == Out).count();
                            let full: Vec<usize> = if par == 1 { vec![1, n] } else { vec![n] };
                            p.steps.push(Step::Up(x.to_vec(), 1 + 2 * j as u64));
                            p.steps.push(Step::View(b, View::Reshape(full)));
                            p.steps.push(Step::Call(0, par, if kinds[1] == In { vec![b + 1, b + 1] } else { vec![b + 1] }));
                            // the other use of the memory
                            p.kerns.push(kern(&[arg(In, &x[1..]), arg(Out, &[])], Body::Poly(j as u64 + 3)));
                            p.steps.push(Step::Call(j + 1, x[0], vec![b]));
                        }
                        out.push(p);
                    }
                }
            }
        }
    }
    out
}
fn gen_hints(th: bool) -> Vec<Pipe> {
    let mut out = vec![];
    for body in [Body::Bits, Body::Half] {
        for ks in [vec![], vec![1], vec![2], vec![3], vec![2, 2]] {
            for os in [vec![], vec![1], vec![3], vec![4], vec![5], vec![2, 2]] {
                for par in 1..=if th { 9 } else { 6 } {
                    for b in 0..4 {
                        if body == Body::Bits && size(&os) < 3 {
                            continue;
                        }
                        let args = match b {
                            0 => vec![arg(In, &ks), arg(Out, &os)],
                            1 => vec![arg(In, &ks), arg(In, &[]), arg(Out, &os)],
                            2 => vec![arg(In, &[]), arg(Io, &os), arg(In, &ks)],
                            _ => vec![arg(Out, &os), arg(In, &ks)],
                        };
                        let mut p = Pipe::default();
                        let small = if body == Body::Bits { 100 } else { 0 };
                        let split = |s: &[usize]| [&[par], s].concat();
                        let mut t = 1;
                        let mut hs = vec![];
                        for (k, s) in &args {
                            if k.is_in() {
                                let br = b > 0 && *k == In && (s.is_empty() != (par % 2 == 0));
                                p.steps.push(Step::Up(if br { s.clone() } else { split(s) }, small + t));
                                hs.push(hs.len());
                                t += 1;
                            }
                        }
                        p.kerns.push(kern(&args, body));
                        p.steps.push(Step::Call(0, par, hs.clone()));
                        // used again, under another shape
                        p.kerns.push(kern(&[arg(Io, &[])], Body::Poly(0)));
                        let n = par * size(&os);
                        let o = hs.len();
                        p.steps.push(Step::View(o, View::Reshape(vec![n])));
                        p.steps.push(Step::Call(1, n, vec![o + 1]));
                        out.push(p);
                    }
                }
            }
        }
    }
    // the same hinted kernel behind a cut of its parallel dimension
    for (n, a) in [(4, 2), (6, 2), (6, 3), (12, 3), (12, 4), (15, 3), (15, 5)] {
        for body in [Body::Bits, Body::Half] {
            for order in [0, 1] {
                for out_first in [0, 1] {
                    let mut p = Pipe::default();
                    p.steps.push(Step::Up(vec![n], 101));
                    p.steps.push(Step::View(0, View::Reshape(vec![a, n / a])));
                    let args = if out_first == 1 { vec![arg(Out, &[2]), arg(In, &[])] } else { vec![arg(In, &[]), arg(Out, &[2])] };
                    p.kerns.push(kern(&args, body));
                    p.kerns.push(kern(&[arg(In, &[n / a]), arg(Out, &[])], Body::Poly(0)));
                    if order == 0 {
                        p.steps.push(Step::Call(0, n, vec![0]));
                        p.steps.push(Step::Call(1, a, vec![1]));
                    } else {
                        p.steps.push(Step::Call(1, a, vec![1]));
                        p.steps.push(Step::Call(0, n, vec![0]));
                    }
                    out.push(p);
                }
            }
        }
    }
    out
}
/// Assertions without outputs, on equal and unequal data, split and broadcast.
fn gen_checks() -> Vec<Pipe> {
    let mut out = vec![];
    for s in [vec![], vec![1], vec![2], vec![3], vec![2, 2], vec![5]] {
        for par in 1..=5usize {
            for how in 0..6 {
                let mut p = Pipe::default();
                let sp: Vec<usize> = [&[par], &s[..]].concat();
                let (a, b) = match how {
                    0 => (sp.clone(), sp.clone()),
                    1 => (s.clone(), sp.clone()),
                    2 => (s.clone(), s.clone()),
                    3 => (sp.clone(), sp.clone()),
                    4 => (sp.clone(), s.clone()),
                    _ => (s.clone(), s.clone()),
                };
                p.kerns.push(kern(&[arg(In, &s), arg(In, &s)], Body::Equal));
                p.steps.push(Step::Up(a.clone(), 1));
                // the same values or others
                p.steps.push(Step::Up(b, if how < 3 { 1 } else { 3 }));
                p.steps.push(Step::Call(0, par, vec![0, 1]));
                if how == 5 {
                    p.steps.push(Step::Call(0, par, vec![0, 0]));
                }
                out.push(p.clone());
                // followed by a call with results
                p.kerns.push(kern(&[arg(In, &s), arg(Out, &s)], Body::Poly(1)));
                if a.len() > s.len() {
                    p.steps.push(Step::Call(1, par, vec![0]));
                    out.push(p);
                }
            }
        }
    }
    out
}
fn families(th: bool) -> Vec<(&'static str, Vec<Pipe>)> {
    vec![
        ("views", gen_views(if th { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 24, 30] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] }, 2)),
        ("views_deep", gen_views(if th { &[4, 6, 8, 9, 12] } else { &[4, 6, 8] }, 3)),
        ("kinds", gen_kinds(th)),
        ("sequences", gen_seq(if th { 4 } else { 3 })),
        ("layouts_2", gen_layouts(if th { &[4, 6, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 30, 36, 42] } else { &[4, 6, 8, 9, 12, 15, 18, 30] }, 2)),
        ("layouts_3", gen_layouts(if th { &[4, 6, 8, 9, 10, 12, 15, 18] } else { &[4, 6, 8, 9, 12, 15] }, 3)),
        ("relayout", gen_relayout(if th { &[4, 6, 8, 9, 12, 15, 18, 24, 30] } else { &[4, 6, 9, 12, 15] })),
        ("hints", gen_hints(th)),
        ("checks", gen_checks()),
    ]
}

// ------------------------------------------------------------------------------------- the checks

fn bad(what: &str, p: &Pipe, more: String) {
    violation(
        &format!("{what}:{:x}", rt::hash_of(p)),
        &format!("{what}: {more} in {:?} with kernels {:?}", p.steps, p.kerns),
        json!({"what": what, "steps": format!("{:?}", p.steps), "kernels": format!("{:?}", p.kerns), "more": more}),
    )
}
/// Runs a pipeline on both sides. None: refused, or something is wrong (reported).
fn run(p: &Pipe, report: bool) -> Option<(Model, Real)> {
    rt::evals(1);
    let bad = |w: &str, m: String| {
        if report {
            bad(w, p, m)
        }
    };
    let mut m = Model::default();
    let mut r = match Real::new(p) {
        Ok(r) => r,
        Err(e) => {
            bad("kernel refused", e);
            return None;
        }
    };
    for s in &p.steps {
        rt::transitions(1);
        m.step(p, s);
        match rt::guard(|| r.step(p, s, &m)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                // refusing data on which the kernel has no result is right
                if m.calls.last().is_some_and(|c| m.works(p, c, &m.mems)) {
                    bad("step fails", format!("{e} at {s:?}"));
                } else {
                    rt::count("refused: the kernel's assertion does not hold", 1);
                }
                return None;
            }
            Err(e) => {
                if matches!(s, Step::Call(..)) && !m.layable() {
                    rt::count("refused: no layout serves all uses", 1);
                } else {
                    bad("step panics", format!("{e} at {s:?}"));
                }
                return None;
            }
        }
    }
    rt::states(m.mems.len() as u64);
    Some((m, r))
}
/// Run and compile.
fn compiled(p: &Pipe, report: bool) -> Option<Done> {
    let (model, mut real) = run(p, report)?;
    if model.calls.is_empty() {
        return None;
    }
    match rt::guard(|| real.ctx.compile_computation_graph()) {
        Ok(Ok(graph)) => Some(Done { model, real, graph }),
        Ok(Err(e)) => {
            if report {
                bad("graph refused", p, format!("{e:?}"));
            }
            None
        }
        Err(e) => {
            if model.layable() {
                if report {
                    bad("graph panics", p, e);
                }
            } else {
                rt::count("refused: no layout serves all uses", 1);
            }
            None
        }
    }
}

pub fn c15() {
    let th = rt::thorough();
    for (name, l) in families(th) {
        rt::family(name, || {
            rt::par(l.len(), |i| {
                let p = &l[i];
                let Some((m, r)) = run(p, true) else { return };
                rt::distinct(p);
                rt::traces(1);
                for (j, h) in m.hs.iter().enumerate() {
                    let want = m.read(h);
                    match rt::guard(|| download(&r.ctx, &r.hs[j], h.shape.len())) {
                        Ok(Ok(got)) if got == want => {}
                        e => bad("data", p, format!("handle {j} of shape {:?} holds {e:?}, expected {want:?}", h.shape)),
                    }
                }
            })
        });
    }
    rt::family("macro", || crate::zkm::macros(false));
    rt::family("history", || crate::zkm::history(false));
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per pipeline; distinct by pipeline",
        &["values are fixed and distinct per position and lane", "shapes up to 12 elements (30 for layouts) and 3 dimensions, up to 4 parallel instances (6 with hints)", "pipelines no single layout can serve are refused, and may be"],
    );
}

fn bytes<T: ExpSerde>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_into(&mut v).unwrap();
    v
}
/// A proof saying of every check what it really gives on these values.
fn forged(g: &ComputationGraph<C>, mems: &[Vec<S>]) -> Option<Vec<Vec<Vec<bool>>>> {
    let mut all = vec![];
    for t in g.proof_templates() {
        let k = &g.kernels()[t.kernel_id()];
        let vals: Vec<Vec<S>> = t
            .commitment_indices()
            .iter()
            .zip(t.commitment_bit_orders())
            .map(|(i, o)| {
                let v = &mems[*i];
                (0..v.len()).map(|x| v[o.iter().enumerate().map(|(b, to)| (x >> b & 1) << to).sum::<usize>()]).collect()
            })
            .collect();
        let refs: Vec<&[S]> = vals.iter().map(|v| &v[..]).collect();
        let mut conds = vec![];
        for i in 0..t.parallel_count() {
            let input = prepare_inputs(k.layered_circuit(), k.layered_circuit_input(), &refs, t.is_broadcast(), i);
            conds.push(k.layered_circuit().eval_with_public_inputs_simd(input, &[]).1);
        }
        all.push(conds);
    }
    Some(all)
}
type Proof = <DummyProvingSystem<C> as KernelWiseProvingSystem<C>>::Proof;
fn as_proof(c: &Vec<Vec<bool>>) -> Proof {
    Proof::deserialize_from(&bytes(c)[..]).unwrap()
}

fn one16(p: &Pipe) {
    let Some(Done { model, mut real, graph }) = compiled(p, true) else { return };
    rt::distinct(p);
    rt::traces(1);
    match rt::guard(|| real.ctx.solve_witness()) {
        Ok(Ok(())) => {}
        e => {
            let ok = model.satisfied(p, &model.mems);
            if ok || e.is_err() {
                bad("solving fails", p, format!("{e:?}"));
            }
            return;
        }
    }
    let mems = match rt::guard(|| real.ctx.export_device_memories()) {
        Ok(m) => m,
        Err(e) => return bad("export panics", p, e),
    };
    let lens: Vec<usize> = mems.iter().map(|m| m.len()).collect();
    if lens != graph.commitments_lens() {
        return bad("lengths", p, format!("exported {lens:?}, declared {:?}", graph.commitments_lens()));
    }
    if let Some(n) = lens.iter().find(|n| !n.is_power_of_two()) {
        bad("lengths", p, format!("{n} is not a power of two"));
    }
    // the proof
    let honest = model.satisfied(p, &model.mems);
    let proof = match (prove(&graph, &mems), honest) {
        (Ok(pr), true) => pr,
        (Err(e), true) => return bad("honest run refused by the prover", p, e),
        (Err(_), false) => return,
        (Ok(pr), false) => {
            if verify(&graph, &pr) == Ok(true) {
                bad("violated assertion proven", p, String::new());
            }
            return;
        }
    };
    rt::transitions(2);
    if verify(&graph, &proof) != Ok(true) {
        return bad("honest proof refused", p, format!("{:?}", verify(&graph, &proof)));
    }
    let refused = |mems: &[Vec<S>]| -> Result<(), &'static str> {
        if let Ok(pr) = prove(&graph, mems) {
            if verify(&graph, &pr) == Ok(true) {
                return Err("proven");
            }
        }
        let mut pr = proof.clone();
        pr.commitments = mems.iter().map(|m| commit(m)).collect();
        if verify(&graph, &pr) == Ok(true) {
            return Err("accepted with the honest proof");
        }
        Ok(())
    };
    // a part of the proof missing
    for n in 0..proof.proofs.len() {
        let mut pr = proof.clone();
        pr.proofs.truncate(n);
        if verify(&graph, &pr) == Ok(true) {
            bad("incomplete proof accepted", p, format!("{n} of {} kernel proofs", proof.proofs.len()));
        }
    }
    // every value altered in turn
    for (mi, vals) in model.mems.iter().enumerate() {
        // where the values lie in the committed vector
        let Some(map) = layout(&model, mi, &mems[mi]) else {
            rt::count("layout not recovered", 1);
            continue;
        };
        for j in 0..vals.len() {
            let delta: [u64; LANES] = [[1, 0], [0, 3], [65536, 65535]][(j + mi) % 3];
            let mut altered = model.mems.clone();
            for l in 0..LANES {
                altered[mi][j][l] = (altered[mi][j][l] + delta[l]) % P;
            }
            let mut m1 = mems.clone();
            m1[mi][map.0[j]] = pack(&altered[mi][j]);
            if model.satisfied(p, &altered) {
                // just as good
                rt::count("alterations no kernel notices", 1);
                match prove(&graph, &m1).map(|pr| verify(&graph, &pr)) {
                    Ok(Ok(true)) => {}
                    e => bad("unimportant value matters", p, format!("memory {mi} position {j}: {e:?}")),
                }
                continue;
            }
            rt::transitions(3);
            rt::states(1);
            if let Err(e) = refused(&m1) {
                bad("tampered data", p, format!("memory {mi} position {j} changed by {delta:?} is {e}"));
            }
            // and padded as if it were so
            let m2v: Vec<S> = altered[mi].iter().map(pack).collect();
            m1[mi] = multi_dimension_data_padding(&map.1, &m2v);
            if let Err(e) = refused(&m1) {
                bad("tampered data", p, format!("memory {mi} position {j} changed by {delta:?} with its padding is {e}"));
            }
            // with a proof that admits it
            let mut pr = proof.clone();
            pr.commitments = m1.iter().map(|m| commit(m)).collect();
            if let Some(f) = forged(&graph, &m1) {
                pr.proofs = f.iter().map(as_proof).collect();
                if verify(&graph, &pr) == Ok(true) {
                    bad("unsatisfied proof accepted", p, format!("memory {mi} position {j} changed by {delta:?}"));
                }
            }
        }
    }
    // hint values: every bit and every half is pinned down
    for mi in model.mems.len()..mems.len() {
        for j in 0..mems[mi].len() {
            let t = graph.proof_templates().iter().position(|t| t.commitment_indices().last() == Some(&mi)).unwrap();
            let c = &model.calls[t];
            let n_hints: usize = p.kerns[c.kern].args.iter().filter(|a| a.0.is_out()).map(|a| size(&a.1)).sum();
            let len = mems[mi].len() / graph.proof_templates()[t].parallel_count();
            if j % len >= n_hints {
                continue;
            }
            let mut m1 = mems.clone();
            let v = unpack(&m1[mi][j]);
            m1[mi][j] = pack(&[(v[0] + 1) % P, v[1]]);
            rt::transitions(1);
            if let Err(e) = refused(&m1) {
                bad("tampered hint", p, format!("hint value {j} of call {t} changed is {e}"));
            }
        }
    }
}
/// Positions of the values in the committed vector, and the shape by which it is padded.
fn layout(model: &Model, mi: usize, committed: &[S]) -> Option<(Vec<usize>, Vec<usize>)> {
    let vals: Vec<S> = model.mems[mi].iter().map(pack).collect();
    let n = vals.len();
    let mut shapes = factorizations(n, 6, 0);
    if n == 1 {
        shapes = vec![vec![1]];
    }
    // prefer what is uniquely determined by the data
    let mut found: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for s in shapes {
        let im = shape_padded_mapping(&s);
        if im.next_size() == committed.len() && multi_dimension_data_padding(&s, &vals) == committed {
            let pos = im.mapping().to_vec();
            if !found.iter().any(|f| f.0 == pos) {
                found.push((pos, s));
            }
        }
    }
    if found.len() == 1 {
        found.pop()
    } else {
        None
    }
}

pub fn c16() {
    let th = rt::thorough();
    for (name, l) in families(th) {
        rt::family(name, || {
            rt::par(l.len(), |i| one16(&l[i]))
        });
    }
    rt::family("macro", || crate::zkm::macros(true));
    rt::family("history", || crate::zkm::history(true));
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per pipeline, compiled, solved, proven, verified and tampered with at every position; distinct by pipeline",
        &["the prover is the repository's DummyProvingSystem; the Expander provers need crates that are not here", "one alteration per position (three kinds in turn)", "assertions are not combined at random in the configuration used"],
    );
}

// ------------------------------------------------------------------------------------------ C18

/// The graph without what depends on the kernels' bodies.
fn form(d: &Done) -> (Vec<usize>, Vec<ProofTemplate>) {
    let n = d.model.mems.len();
    let mut t = d.graph.proof_templates.clone();
    for t in t.iter_mut() {
        if t.commitment_indices.last().is_some_and(|i| *i >= n) {
            t.commitment_indices.pop();
            t.commitment_bit_orders.pop();
            t.is_broadcast.pop();
        }
    }
    (d.graph.commitments_lens[..n].to_vec(), t)
}
fn one18(p: &Pipe, others: &[&Pipe]) {
    let Some(mut a) = compiled(p, true) else { return };
    rt::distinct(p);
    if !matches!(rt::guard(|| a.real.ctx.solve_witness()), Ok(Ok(()))) {
        return;
    }
    let mems = a.real.ctx.export_device_memories();
    let honest = a.model.satisfied(p, &a.model.mems);
    let saved = bytes(&a.graph);
    let load = || ComputationGraph::<C>::deserialize_from(&saved[..]);
    let g2 = match rt::guard(load) {
        Ok(Ok(g)) => g,
        e => return bad("saved graph unreadable", p, format!("{:?}", e.map(|e| e.map(|_| ())))),
    };
    if bytes(&g2) != saved || g2.kernels != a.graph.kernels || g2.proof_templates != a.graph.proof_templates || g2.commitments_lens != a.graph.commitments_lens {
        bad("saved graph differs", p, String::new());
    }
    // the same pipeline again
    let Some((_, mut r)) = run(p, true) else { return };
    rt::transitions(2);
    rt::traces(1);
    match rt::guard(|| {
        r.ctx.load_computation_graph(load().unwrap())?;
        r.ctx.solve_witness()?;
        Ok::<_, expander_compiler::frontend::Error>(r.ctx.export_device_memories())
    }) {
        Ok(Ok(m)) => {
            if m != mems {
                bad("resumed data differs", p, String::new());
            }
            if honest {
                match prove(&g2, &m) {
                    Ok(pr) if verify(&a.graph, &pr) == Ok(true) => {}
                    e => bad("resumed proof", p, format!("{:?}", e.map(|_| "does not verify"))),
                }
            }
        }
        e => bad("resuming fails", p, format!("{:?}", e.map(|e| e.map(|_| ())))),
    }
    // another pipeline
    for q in others {
        let Some(b) = compiled(q, false) else { continue };
        let same = form(&b) == form(&a);
        let Some((_, mut r)) = run(q, false) else { continue };
        let e = rt::guard(|| r.ctx.load_computation_graph(load().unwrap()));
        rt::transitions(1);
        rt::states(1);
        match (same, matches!(e, Ok(Ok(())))) {
            (false, true) => bad("graph of another pipeline accepted", p, format!("for {:?} with {:?}", q.steps, q.kerns)),
            (true, false) if b.graph.kernels == a.graph.kernels => bad("equal graph refused", p, format!("{e:?} for {:?} with {:?}", q.steps, q.kerns)),
            _ => {}
        }
    }
}
pub fn c18() {
    let th = rt::thorough();
    for (name, l) in families(th) {
        rt::family(name, || {
            rt::par(l.len(), |i| {
                let n = if th { 8 } else { 3 };
                let others: Vec<&Pipe> = (0..n).map(|k| &l[(i + [1, 2, 5, 13, 3, 4, 7, 29][k]) % l.len()]).collect();
                // and its own prefixes
                let p = &l[i];
                let mut cut = p.clone();
                let mut more = vec![];
                while cut.steps.pop().is_some() {
                    if matches!(cut.steps.last(), Some(Step::Call(..))) {
                        more.push(cut.clone());
                    }
                }
                one18(p, &others.into_iter().chain(more.iter()).collect::<Vec<_>>())
            })
        });
    }
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per pipeline run or resumed; distinct by pipeline",
        &["a different structure is one with different proof templates or commitment lengths; kernels of the same form but another body are not told apart on loading"],
    );
}

// ------------------------------------------------------------------------------------------ C19

fn share<T: MPISharedMemory>(x: &T, what: &dyn std::fmt::Debug, again: impl Fn(T) -> Vec<u8>, want: Vec<u8>) {
    let n = x.bytes_size();
    for fill in [0u8, 0xff] {
        let mut buf = vec![fill; n + 64];
        let start = buf.as_mut_ptr();
        let mut ptr = start;
        x.to_memory(&mut ptr);
        let used = ptr as usize - start as usize;
        let key = format!("{what:?}");
        if used != n || buf[n..].iter().any(|b| *b != fill) {
            violation(&format!("size:{key}"), &format!("{used} bytes written, {n} announced: {key}"), json!(key));
            return;
        }
        for round in 0..2 {
            let mut ptr = start;
            let y = T::new_from_memory(&mut ptr);
            rt::transitions(1);
            if ptr as usize - start as usize != n {
                violation(&format!("read:{key}"), &format!("{} bytes read, {n} written: {key}", ptr as usize - start as usize), json!(key));
            }
            if again(y) != want {
                violation(&format!("content:{key}"), &format!("not the same back (reading number {round}): {key}"), json!(key));
            }
        }
        // the reader can give its part up
        let mut ptr = start;
        T::new_from_memory(&mut ptr).discard_control_of_shared_mem();
    }
}
fn one19(p: &Pipe) {
    let Some(a) = compiled(p, true) else { return };
    rt::distinct(p);
    rt::traces(1);
    let mut g = a.graph.clone();
    let want = bytes(&g);
    if g.kernels.iter().any(|k| k.hint_solver.is_some()) {
        // without its hints it comes back as well
        for k in g.kernels.iter_mut() {
            k.hint_solver = None;
        }
        let want = bytes(&g);
        share(&a.graph, &p, |y| bytes(&y), want);
    } else {
        share(&g, &p, |y| bytes(&y), want);
    }
}
fn ni(offset: usize) -> NormalInput {
    NormalInput { offset }
}
fn circuits() -> Vec<Circuit<C, NormalInputType>> {
    use expander_compiler::field::FieldArith;
    let coefs: Vec<Coef<C>> = vec![Coef::Constant(F::one()), Coef::Constant(F::from(40000u32)), Coef::Random, Coef::PublicInput(0), Coef::PublicInput(1)];
    let mut segs: Vec<Segment<C, NormalInputType>> = vec![];
    for n in 0..3usize {
        for m in 0..3usize {
            for k in 0..3usize {
                for cf in 0..coefs.len() {
                    let c = |i: usize| coefs[(cf + i) % coefs.len()].clone();
                    segs.push(Segment {
                        num_inputs: NormalInputUsize { v: 4 },
                        num_outputs: 4,
                        child_segs: vec![],
                        gate_muls: (0..n).map(|i| GateMul { inputs: [ni(i), ni(i + 1)], output: i, coef: c(i) }).collect(),
                        gate_adds: (0..m).map(|i| GateAdd { inputs: [ni(i + 1)], output: i + 1, coef: c(i + 1) }).collect(),
                        gate_consts: (0..k).map(|i| GateConst { inputs: [], output: i + 2, coef: c(i + 2) }).collect(),
                        gate_customs: vec![],
                    });
                }
            }
        }
    }
    let mut out = vec![];
    for (i, s) in segs.iter().enumerate() {
        // alone, and under a parent that uses it in up to three places
        for uses in 0..4usize {
            let allocs: Vec<Allocation<NormalInputType>> = (0..uses).map(|u| Allocation { input_offset: NormalInputUsize { v: u * 4 }, output_offset: (uses - 1 - u) * 4 }).collect();
            let parent = Segment {
                num_inputs: NormalInputUsize { v: 4 * uses.max(1) },
                num_outputs: 4 * uses.max(1),
                child_segs: if uses == 0 { vec![] } else if i % 2 == 0 || uses == 1 { vec![(0, allocs)] } else { vec![(0, allocs[..1].to_vec()), (0, allocs[1..].to_vec())] },
                gate_muls: segs[(i * 7 + 3) % segs.len()].gate_muls.clone(),
                gate_adds: vec![],
                gate_consts: segs[(i * 5 + 1) % segs.len()].gate_consts.clone(),
                gate_customs: vec![],
            };
            out.push(Circuit { num_public_inputs: i % 3, num_actual_outputs: uses, expected_num_output_zeroes: i % 5, segments: vec![s.clone(), parent], layer_ids: [vec![1], vec![1, 0], vec![0, 1, 1]][i % 3].clone() });
        }
    }
    out
}
pub fn c19() {
    let th = rt::thorough();
    rt::family("circuits", || {
        let l = circuits();
        rt::par(l.len(), |i| {
            rt::evals(1);
            rt::states(1);
            rt::distinct(&i);
            rt::traces(1);
            share(&l[i], &format!("circuit {i}: {:?}", l[i]), |y| bytes(&y), bytes(&l[i]));
            for s in &l[i].segments {
                share(s, &format!("segment of circuit {i}: {s:?}"), |y| bytes(&y), bytes(s));
            }
        })
    });
    for (name, l) in families(th) {
        rt::family(name, || rt::par(l.len(), |i| one19(&l[i])));
    }
    let _ = Context::<C>::default;
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per pipeline or circuit; distinct by pipeline or circuit",
        &["plain vectors and numbers are stored by a stand-in for Expander's implementations", "hint solvers are left out, as documented"],
    );
}
/// Every pipeline that compiles: its graph, kernel primitives and a proof of it.
#[allow(clippy::type_complexity)]
pub fn each_compiled(
    th: bool,
    f: impl Fn(&str, &ComputationGraph<C>, &[std::sync::Arc<expander_compiler::zkcuda::kernel::KernelPrimitive<C>>], Option<&expander_compiler::zkcuda::proving_system::CombinedProof<C, DummyProvingSystem<C>>>, &[usize]) + Sync,
) {
    for (_, l) in families(th) {
        rt::par(l.len(), |i| {
            let p = &l[i];
            let Some(mut d) = compiled(p, false) else { return };
            let what = format!("{:?} with kernels {:?}", p.steps, p.kerns);
            let proof = match rt::guard(|| d.real.ctx.solve_witness()) {
                Ok(Ok(())) => prove(&d.graph, &d.real.ctx.export_device_memories()).ok(),
                _ => None,
            };
            let proof = proof.filter(|pr| verify(&d.graph, pr) == Ok(true));
            f(&what, &d.graph, &d.real.prims, proof.as_ref(), &d.graph.commitments_lens);
        })
    }
}
