//! C06: malformed programs and layered circuits are refused; nothing panics.
use crate::cfgs::*;
use crate::fam::{self, Sz};
use crate::opts::*;
use crate::prog::*;
use crate::rt::{self, Level};
use crate::sem;
use expander_compiler::circuit::layered::{self, *};
use expander_compiler::compile::compile_with_options;
use serde_json::json;
use std::collections::HashSet;

/// What the program must not be, by an independent reading of the documentation. None: well-formed.
pub fn malformed(p: &Prog) -> Option<&'static str> {
    let has = |id: usize| p.circs.iter().find(|c| c.0 == id).map(|c| &c.1);
    let Some(root) = has(0) else { return Some("no root circuit") };
    for (_, c) in &p.circs {
        let mut have = c.n_in as u128;
        let bad = |v: usize, have: u128| v == 0 || v as u128 > have;
        for i in &c.ins {
            let ops: Vec<usize> = match i {
                Ins::Lin(t, _) => t.iter().map(|t| t.1).collect(),
                Ins::Mul(v) | Ins::Hint(_, v, _) | Ins::Call(_, v, _) | Ins::Gate(_, v) => v.clone(),
                Ins::Div(a, b, _) | Ins::Bool(_, a, b) | Ins::UBin(_, a, b) => vec![*a, *b],
                Ins::IsZero(a) | Ins::Bin(a, _) => vec![*a],
                Ins::Sel(a, b, c) => vec![*a, *b, *c],
                Ins::Const(_) | Ins::Pub(_) | Ins::Rand => vec![],
            };
            if ops.iter().any(|v| bad(*v, have)) {
                return Some("variable that does not exist");
            }
            match i {
                Ins::Mul(v) if v.len() < 2 => return Some("product of fewer than two"),
                Ins::Gate(_, v) if v.is_empty() => return Some("gate without operands"),
                Ins::Bin(_, 0) => return Some("decomposition into no bits"),
                Ins::Pub(i) if *i >= p.n_pub => return Some("public input that does not exist"),
                Ins::Hint(id, v, n) => {
                    let ok = match id.wrapping_sub(GATE_BASE) {
                        0 => v.len() == *n && !v.is_empty(),
                        1..=8 | 10..=18 => v.len() == 2 && *n == 1,
                        9 => v.len() == 3 && *n == 1,
                        19 => v.len() == 1 && *n > 0,
                        _ => !v.is_empty() && *n > 0,
                    };
                    if !ok {
                        return Some("hint of wrong arity");
                    }
                }
                Ins::Call(id, v, n) => match has(*id) {
                    None => return Some("circuit that does not exist"),
                    Some(s) if s.n_in != v.len() => return Some("call with the wrong number of inputs"),
                    Some(s) if s.outs.len() != *n => return Some("call with the wrong number of outputs"),
                    _ => {}
                },
                _ => {}
            }
            have += i.n_out() as u128;
        }
        if c.cons.iter().any(|(_, v)| bad(*v, have)) {
            return Some("assertion on a variable that does not exist");
        }
        if c.outs.iter().any(|v| bad(*v, have)) {
            return Some("output that does not exist");
        }
    }
    // recursion: repeatedly take out circuits that call only what is taken out
    let mut done: HashSet<usize> = HashSet::new();
    loop {
        let more: Vec<usize> = p
            .circs
            .iter()
            .filter(|(id, c)| !done.contains(id) && c.ins.iter().all(|i| !matches!(i, Ins::Call(s, ..) if !done.contains(s))))
            .map(|c| c.0)
            .collect();
        if more.is_empty() {
            break;
        }
        done.extend(more);
    }
    if done.len() < p.circs.len() {
        return Some("recursion");
    }
    if root.outs.is_empty() {
        let mut seen = vec![0];
        let mut at = 0;
        while at < seen.len() {
            for i in &has(seen[at]).unwrap().ins {
                if let Ins::Call(s, ..) = i {
                    if !seen.contains(s) {
                        seen.push(*s);
                    }
                }
            }
            at += 1;
        }
        if seen.iter().all(|s| has(*s).unwrap().cons.is_empty()) {
            return Some("no assertion and no output");
        }
    }
    if p.zeroes > root.outs.len() {
        return Some("fewer outputs than required zeroes");
    }
    None
}

/// Every variable reference of an instruction.
fn refs(i: &mut Ins) -> Vec<&mut usize> {
    match i {
        Ins::Lin(t, _) => t.iter_mut().map(|t| &mut t.1).collect(),
        Ins::Mul(v) | Ins::Hint(_, v, _) | Ins::Call(_, v, _) | Ins::Gate(_, v) => v.iter_mut().collect(),
        Ins::Div(a, b, _) | Ins::Bool(_, a, b) | Ins::UBin(_, a, b) => vec![a, b],
        Ins::IsZero(a) | Ins::Bin(a, _) => vec![a],
        Ins::Sel(a, b, c) => vec![a, b, c],
        Ins::Const(_) | Ins::Pub(_) | Ins::Rand => vec![],
    }
}
fn list(i: &mut Ins) -> Option<&mut Vec<usize>> {
    match i {
        Ins::Mul(v) | Ins::Hint(_, v, _) | Ins::Call(_, v, _) | Ins::Gate(_, v) => Some(v),
        _ => None,
    }
}
/// Every program one edit away.
pub fn edits(p: &Prog) -> Vec<Prog> {
    let mut out: Vec<Prog> = vec![];
    let ids: Vec<usize> = p.circs.iter().map(|c| c.0).collect();
    for ci in 0..p.circs.len() {
        let c = &p.circs[ci].1;
        let total = c.n_vars();
        let mut edit = |f: &dyn Fn(&mut Circ)| {
            let mut q = p.clone();
            f(&mut q.circs[ci].1);
            if q != *p {
                out.push(q);
            }
        };
        edit(&|c| c.n_in += 1);
        edit(&|c| c.n_in = c.n_in.saturating_sub(1));
        let mut have = c.n_in;
        for k in 0..c.ins.len() {
            let n = refs(&mut c.ins[k].clone()).len();
            for r in 0..n {
                for v in [0, 1, have, have + 1, total, total + 1, usize::MAX] {
                    edit(&|c| *refs(&mut c.ins[k])[r] = v);
                }
            }
            for (id, set) in [(0, 0usize), (1, 1), (2, 2)] {
                edit(&|c| {
                    if let Some(l) = list(&mut c.ins[k]) {
                        match id {
                            0 => {
                                l.pop();
                            }
                            1 => l.push(set),
                            _ => l.clear(),
                        }
                    }
                });
            }
            match &c.ins[k] {
                Ins::Call(_, _, n) => {
                    for id in ids.iter().copied().chain([99, usize::MAX]) {
                        edit(&|c| {
                            if let Ins::Call(i, ..) = &mut c.ins[k] {
                                *i = id
                            }
                        });
                    }
                    for m in [0, n + 1, n.wrapping_sub(1), usize::MAX] {
                        edit(&|c| {
                            if let Ins::Call(_, _, n) = &mut c.ins[k] {
                                *n = m
                            }
                        });
                    }
                }
                Ins::Hint(_, _, n) => {
                    for m in [0, n + 1] {
                        edit(&|c| {
                            if let Ins::Hint(_, _, n) = &mut c.ins[k] {
                                *n = m
                            }
                        });
                    }
                    for b in 0..21 {
                        edit(&|c| {
                            if let Ins::Hint(i, ..) = &mut c.ins[k] {
                                *i = GATE_BASE + b
                            }
                        });
                    }
                }
                Ins::Bin(..) => {
                    for m in [0, 1] {
                        edit(&|c| {
                            if let Ins::Bin(_, n) = &mut c.ins[k] {
                                *n = m
                            }
                        });
                    }
                }
                Ins::Pub(_) => {
                    for m in [p.n_pub, p.n_pub + 1, usize::MAX] {
                        edit(&|c| c.ins[k] = Ins::Pub(m));
                    }
                }
                _ => {}
            }
            edit(&|c| {
                c.ins.remove(k);
            });
            have += c.ins[k].n_out();
        }
        // another call, first or last: also of itself and of its callers
        for (id, s) in &p.circs {
            for at in [0, c.ins.len()] {
                edit(&|c| c.ins.insert(at, Ins::Call(*id, vec![1; s.n_in], s.outs.len())));
            }
        }
        for k in 0..c.cons.len() {
            for v in [0, total, total + 1, usize::MAX] {
                edit(&|c| c.cons[k].1 = v);
            }
        }
        edit(&|c| c.cons.clear());
        for k in 0..c.outs.len() {
            for v in [0, total, total + 1, usize::MAX] {
                edit(&|c| c.outs[k] = v);
            }
        }
        edit(&|c| {
            c.outs.pop();
        });
        edit(&|c| c.outs.push(1));
        edit(&|c| c.outs.clear());
        let mut q = p.clone();
        q.circs.remove(ci);
        out.push(q);
        let mut q = p.clone();
        q.circs[ci].0 = 98;
        out.push(q);
    }
    for z in [0, p.zeroes + 1, p.root().outs.len(), p.root().outs.len() + 1, usize::MAX] {
        out.push(Prog { zeroes: z, ..p.clone() });
    }
    for n in [0, p.n_pub + 1] {
        out.push(Prog { n_pub: n, ..p.clone() });
    }
    let mut q = p.clone();
    for c in &mut q.circs {
        c.1.cons.clear();
        c.1.outs.clear();
    }
    out.push(q.clone());
    // the same with the calls in step
    for c in &mut q.circs {
        c.1.ins.retain(|i| !matches!(i, Ins::Call(..)));
    }
    out.push(q.clone());
    let mut q = p.clone();
    q.circs.retain(|c| c.0 == 0);
    q.circs.iter_mut().for_each(|c| c.1.outs.clear());
    out.push(q);
    out
}

fn report(p: &Prog, what: &str, more: String) {
    rt::violation(&format!("{what}:{:x}", rt::hash_of(p)), &format!("{what}: {more}: {p}"), json!({"what": what, "program": p.to_string(), "more": more}));
}
fn one<C: Small, I: InputType>(p: &Prog, o: Opt) {
    rt::evals(1);
    rt::transitions(1);
    let why = malformed(p);
    let ir = p.ir::<C>();
    match (rt::guard(|| ir.validate()), why) {
        (Ok(Ok(())), None) | (Ok(Err(_)), Some(_)) => {}
        (Ok(Err(e)), None) => return report(p, "well-formed program refused by validate", format!("{e:?}")),
        (Ok(Ok(())), Some(w)) => return report(p, "malformed program passes validate", w.into()),
        (Err(e), _) => return report(p, "validate panics", e),
    }
    match (rt::guard(|| compile_with_options::<C, I>(&ir, o.real())), why) {
        (Ok(Err(_)), Some(_)) => {
            rt::count(&format!("refused: {}", why.unwrap()), 1);
            rt::distinct(p);
            rt::states(1);
        }
        (Ok(Ok(_)), None) => {
            rt::count("well-formed", 1);
            rt::states(1);
        }
        (Ok(Err(e)), None) => {
            rt::states(1);
            // whether it may: C01
            if std::env::var("MC_SHOW").is_ok_and(|x| format!("{e:?}").contains(&x)) {
                eprintln!("{e:?} {o} {p}");
            }
            rt::count(&format!("well-formed, refused: {}", format!("{e:?}").chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>()), 1);
        }
        (Ok(Ok(_)), Some(w)) => report(p, "malformed program compiles", format!("{w}, {o}")),
        (Err(e), w) => report(p, "compiling panics", format!("{e}, {w:?}, {o}")),
    }
}
fn drive(p: &Prog, i: usize) {
    let os = all_opts();
    let o = os[i % os.len()];
    match i / os.len() % 4 {
        0 => one::<C3, NormalInputType>(p, o),
        1 => one::<C3n, CrossLayerInputType>(p, o),
        2 => one::<C5n, NormalInputType>(p, o),
        _ => one::<C5, CrossLayerInputType>(p, o),
    }
}

/// Programs with everything in them.
pub fn rich() -> Vec<Prog> {
    let leaf = Circ { n_in: 2, ins: vec![Ins::Mul(vec![1, 2]), Ins::Lin(vec![(1, 3), (2, 1)], 1)], cons: vec![(BOOL, 1)], outs: vec![3, 4] };
    let quiet = Circ { n_in: 1, ins: vec![Ins::Hint(77, vec![1], 2)], cons: vec![], outs: vec![2] };
    let mid = Circ { n_in: 2, ins: vec![Ins::Call(1, vec![1, 2], 2), Ins::Call(2, vec![3], 1), Ins::Div(1, 4, false)], cons: vec![], outs: vec![6, 3] };
    let root = Circ {
        n_in: 3,
        ins: vec![
            Ins::Lin(vec![(1, 1), (2, 2)], 1),
            Ins::Mul(vec![1, 2, 3]),
            Ins::Div(1, 2, true),
            Ins::Bool(1, 1, 2),
            Ins::IsZero(2),
            Ins::Hint(78, vec![1, 2], 2),
            Ins::Const(2),
            Ins::Pub(1),
            Ins::Rand,
            Ins::Call(3, vec![1, 8], 2),
            Ins::UBin(6, 1, 2),
            Ins::Sel(1, 2, 3),
            Ins::Gate(G_EQ, vec![1, 2]),
            Ins::Bin(1, 3),
        ],
        cons: vec![(ZERO, 4), (NONZERO, 5), (BOOL, 6)],
        outs: vec![7, 20, 8],
    };
    let mut v = vec![];
    v.push(Prog { n_pub: 2, zeroes: 1, circs: vec![(0, root), (1, leaf.clone()), (2, quiet.clone()), (3, mid.clone())] });
    v.push(Prog {
        n_pub: 0,
        zeroes: 0,
        circs: vec![
            (0, Circ { n_in: 1, ins: vec![Ins::Call(3, vec![1, 1], 2)], cons: vec![], outs: vec![] }),
            (1, leaf.clone()),
            (2, quiet.clone()),
            (3, mid),
        ],
    });
    v.push(Prog {
        n_pub: 0,
        zeroes: 0,
        circs: vec![(0, Circ { n_in: 1, ins: vec![Ins::Call(2, vec![1], 1)], cons: vec![(ZERO, 2)], outs: vec![] }), (2, quiet), (1, leaf)],
    });
    v
}

// ------------------------------------------------------------------------------ layered circuits

/// The layered-circuit contract, by an independent reading.
fn broken<C: Small, I: InputType>(c: &layered::Circuit<C, I>) -> Option<&'static str> {
    let pow2 = |x: usize| x.is_power_of_two();
    for (i, s) in c.segments.iter().enumerate() {
        let ins = s.num_inputs.to_vec();
        if ins.is_empty() || ins.iter().any(|x| !pow2(*x)) || !pow2(s.num_outputs) {
            return Some("segment size");
        }
        let inp = |x: &I::Input| x.layer() < ins.len() && x.offset() < ins[x.layer()];
        let g = s.gate_muls.iter().all(|g| g.inputs.iter().all(inp) && g.output < s.num_outputs)
            && s.gate_adds.iter().all(|g| g.inputs.iter().all(inp) && g.output < s.num_outputs)
            && s.gate_consts.iter().all(|g| g.output < s.num_outputs)
            && s.gate_customs.iter().all(|g| g.inputs.iter().all(inp) && g.output < s.num_outputs);
        if !g {
            return Some("gate outside its segment");
        }
        for (id, al) in &s.child_segs {
            if *id >= i {
                return Some("sub-circuit that does not come before");
            }
            let t = &c.segments[*id];
            let tin = t.num_inputs.to_vec();
            if tin.len() > ins.len() {
                return Some("sub-circuit reads further back");
            }
            for a in al {
                let off = a.input_offset.to_vec();
                if off.len() != tin.len() {
                    return Some("placement of the wrong depth");
                }
                let fits = |o: usize, n: usize, of: usize| o % n == 0 && o as u128 + n as u128 <= of as u128;
                if !(0..off.len()).all(|j| fits(off[j], tin[j], ins[j])) || !fits(a.output_offset, t.num_outputs, s.num_outputs) {
                    return Some("placement");
                }
            }
        }
    }
    if c.layer_ids.is_empty() || c.layer_ids.iter().any(|l| *l >= c.segments.len()) {
        return Some("layers");
    }
    let mut sizes = vec![c.segments[c.layer_ids[0]].num_inputs.get(0)];
    for l in &c.layer_ids {
        sizes.push(c.segments[*l].num_outputs);
    }
    for (i, l) in c.layer_ids.iter().enumerate() {
        for (j, x) in c.segments[*l].num_inputs.iter().enumerate() {
            if j > i || sizes[i - j] != x {
                return Some("layers do not chain");
            }
        }
    }
    // what every layer reads from one that is not the input has to be written there
    fn marks<C: Small, I: InputType>(c: &layered::Circuit<C, I>, s: usize, at: &[usize], out: usize, r: &mut HashSet<(usize, usize)>, w: &mut HashSet<usize>) {
        let g = &c.segments[s];
        let mut read = |x: &I::Input| {
            r.insert((x.layer(), at[x.layer()] + x.offset()));
        };
        g.gate_muls.iter().for_each(|g| g.inputs.iter().for_each(&mut read));
        g.gate_adds.iter().for_each(|g| g.inputs.iter().for_each(&mut read));
        g.gate_customs.iter().for_each(|g| g.inputs.iter().for_each(&mut read));
        w.extend(g.gate_muls.iter().map(|g| g.output + out));
        w.extend(g.gate_adds.iter().map(|g| g.output + out));
        w.extend(g.gate_consts.iter().map(|g| g.output + out));
        w.extend(g.gate_customs.iter().map(|g| g.output + out));
        for (id, al) in &g.child_segs {
            for a in al {
                let at: Vec<usize> = a.input_offset.iter().zip(at).map(|(x, y)| x + y).collect();
                marks(c, *id, &at, out + a.output_offset, r, w);
            }
        }
    }
    let mut written: Vec<HashSet<usize>> = vec![];
    for (i, l) in c.layer_ids.iter().enumerate() {
        let (mut r, mut w) = (HashSet::new(), HashSet::new());
        marks(c, *l, &vec![0; c.segments[*l].num_inputs.len()], 0, &mut r, &mut w);
        for (j, o) in r {
            if j < i && !written[i - 1 - j].contains(&o) {
                return Some("reads what nothing writes");
            }
        }
        written.push(w);
    }
    None
}
/// Every circuit one number away.
fn tweaks<C: Small, I: InputType>(c: &layered::Circuit<C, I>) -> Vec<layered::Circuit<C, I>> {
    let mut out = vec![];
    let mut edit = |f: &dyn Fn(&mut layered::Circuit<C, I>)| {
        let mut q = c.clone();
        f(&mut q);
        if q != *c {
            out.push(q);
        }
    };
    let vals = |x: usize| [0, 1, x.wrapping_sub(1), x + 1, x * 2, usize::MAX, 1 << 63, usize::MAX - 1, usize::MAX - 3];
    for l in 0..c.layer_ids.len() {
        for v in (0..c.segments.len()).chain([c.segments.len(), usize::MAX]) {
            edit(&|c| c.layer_ids[l] = v);
        }
        edit(&|c| {
            c.layer_ids.remove(l);
        });
        edit(&|c| c.layer_ids.insert(l, c.layer_ids[l]));
    }
    edit(&|c| c.layer_ids.clear());
    edit(&|c| c.segments.clear());
    let inputs = |x: &I::Input| {
        let mut v: Vec<I::Input> = vals(x.offset()).iter().map(|o| { let mut y = *x; y.set_offset(*o); y }).collect();
        if I::CROSS_LAYER_RELAY {
            v.extend([0, 1, 2, x.layer() + 1, usize::MAX].iter().map(|l| I::Input::new(*l, x.offset())));
        }
        v
    };
    for s in 0..c.segments.len() {
        let g = &c.segments[s];
        for v in vals(g.num_outputs) {
            if v <= 64 || !v.is_power_of_two() {
                edit(&|c| c.segments[s].num_outputs = v);
            }
        }
        let ins = g.num_inputs.to_vec();
        for j in 0..ins.len() {
            for v in vals(ins[j]) {
                if v <= 64 || !v.is_power_of_two() {
                    edit(&|c| {
                        let mut i = ins.clone();
                        i[j] = v;
                        c.segments[s].num_inputs = I::InputUsize::from_vec(i);
                    });
                }
            }
        }
        if I::CROSS_LAYER_RELAY {
            edit(&|c| c.segments[s].num_inputs = I::InputUsize::from_vec(vec![]));
            edit(&|c| c.segments[s].num_inputs = I::InputUsize::from_vec([&ins[..], &[1]].concat()));
            edit(&|c| c.segments[s].num_inputs = I::InputUsize::from_vec(ins[..ins.len() - 1].to_vec()));
        }
        macro_rules! gates {
            ($f:ident) => {
                for k in 0..g.$f.len() {
                    for v in vals(g.$f[k].output) {
                        edit(&|c| c.segments[s].$f[k].output = v);
                    }
                    for j in 0..g.$f[k].inputs.len() {
                        for v in inputs(&g.$f[k].inputs[j]) {
                            edit(&|c| c.segments[s].$f[k].inputs[j] = v);
                        }
                    }
                    edit(&|c| {
                        c.segments[s].$f.remove(k);
                    });
                }
            };
        }
        gates!(gate_muls);
        gates!(gate_adds);
        gates!(gate_consts);
        gates!(gate_customs);
        for k in 0..g.child_segs.len() {
            for v in (0..c.segments.len()).chain([c.segments.len(), usize::MAX]) {
                edit(&|c| c.segments[s].child_segs[k].0 = v);
            }
            edit(&|c| {
                c.segments[s].child_segs.remove(k);
            });
            for a in 0..g.child_segs[k].1.len() {
                let al = &g.child_segs[k].1[a];
                for v in vals(al.output_offset) {
                    edit(&|c| c.segments[s].child_segs[k].1[a].output_offset = v);
                }
                let off = al.input_offset.to_vec();
                for j in 0..off.len() {
                    for v in vals(off[j]) {
                        edit(&|c| {
                            let mut o = off.clone();
                            o[j] = v;
                            c.segments[s].child_segs[k].1[a].input_offset = I::InputUsize::from_vec(o);
                        });
                    }
                }
                if I::CROSS_LAYER_RELAY {
                    edit(&|c| c.segments[s].child_segs[k].1[a].input_offset = I::InputUsize::from_vec(vec![]));
                    edit(&|c| c.segments[s].child_segs[k].1[a].input_offset = I::InputUsize::from_vec([&off[..], &[0]].concat()));
                }
            }
        }
    }
    out
}
fn layered_of<C: Small, I: InputType>(p: &Prog, o: Opt) {
    let Ok(Ok((_, lc))) = rt::guard(|| compile_with_options::<C, I>(&p.ir::<C>(), o.real())) else { return };
    for q in tweaks(&lc) {
        rt::evals(1);
        rt::transitions(1);
        let why = broken(&q);
        let key = |w: &str| format!("{w}:{:x}", rt::hash_of(&format!("{q:?}")));
        match (rt::guard(|| q.validate()), why) {
            (Ok(Ok(())), None) => rt::count("layered circuits accepted", 1),
            (Ok(Err(_)), Some(w)) => {
                rt::distinct(&format!("{q:?}"));
                rt::count(&format!("layered refused: {w}"), 1)
            }
            (Ok(r), w) => rt::violation(&key("layered verdict"), &format!("validate says {r:?}, contract says {w:?}: {q:?}"), json!({"circuit": format!("{q:?}"), "contract": w})),
            (Err(e), w) => rt::violation(&key("layered panic"), &format!("validate panics with {e}, contract says {w:?}: {q:?}"), json!({"circuit": format!("{q:?}"), "contract": w})),
        }
    }
}

pub fn c06() {
    let th = rt::thorough();
    let f = |name: &str, ps: Vec<Prog>| {
        rt::family(name, || {
            rt::par(ps.len(), |i| {
                rt::watch(format!("{name}: {}", ps[i]), || {
                    if let Some(w) = malformed(&ps[i]) {
                        rt::count(&format!("base program {w}"), 1);
                    }
                    for (k, q) in edits(&ps[i]).iter().enumerate() {
                        rt::watch(format!("{name}: {q}"), || drive(q, i + k * 7))
                    }
                })
            })
        })
    };
    f("rich", rich());
    rt::family("rich2", || {
        // every pair of edits
        let once: Vec<Prog> = rich().iter().flat_map(edits).collect();
        let once: Vec<&Prog> = once.iter().filter(|p| th || malformed(p).is_none()).filter(|p| p.circs.iter().any(|c| c.0 == 0)).collect();
        rt::par(once.len(), |i| {
            for (k, q) in edits(once[i]).iter().enumerate() {
                if k % 6 == 0 || th {
                    rt::watch(format!("rich2: {q}"), || drive(q, i + k * 7))
                }
            }
        })
    });
    for (name, ps) in sem::families(3, false) {
        if ["two2", "three1", "two1"].contains(&name) && !th {
            continue;
        }
        let step = (ps.len() / if th { 100_000 } else { 1500 }).max(1);
        f(name, ps.into_iter().step_by(step).collect());
    }
    rt::family("layered", || {
        let ps: Vec<Prog> = [fam::deepcalls(3, 2), fam::shapes(3, false), fam::calls(2, 1, Sz::Tiny, 3, 5, true), fam::gates(3), fam::grid(3, false)]
            .into_iter()
            .flat_map(|v| {
                let s = (v.len() / if th { 2000 } else { 150 }).max(1);
                v.into_iter().step_by(s)
            })
            .chain(rich())
            .collect();
        rt::par(ps.len(), |i| {
            let os = all_opts();
            let o = os[i % os.len()];
            rt::watch(format!("layered {}", ps[i]), || {
                layered_of::<C3, NormalInputType>(&ps[i], o);
                layered_of::<C3n, CrossLayerInputType>(&ps[i], o);
            })
        })
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per edited program or layered circuit; distinct by content",
        &[
            "programs one edit (rich programs: two edits) away from the enumerated valid ones",
            "sizes that only exhaust memory (a hint with 2^60 results) are left out",
        ],
    );
}
