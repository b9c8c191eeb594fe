//! C04: the layered-circuit contract, and the forms exported for the prover.
use crate::eng::*;
use crate::lay::{Co, Kind, Lay, G};
use crate::prog::*;
use crate::rt::{self, Level};
use crate::sem::{self, report};
use expander_compiler::circuit::config::Config;
use expander_compiler::circuit::layered::{self, Coef, CrossLayerInputType as X, Input, InputType, InputUsize, NormalInputType as N};
use expander_circuit as ec;
use crosslayer_prototype as cl;
use serde_json::json;

fn pow2(n: usize) -> bool {
    n > 0 && n & (n - 1) == 0
}

/// The layered-circuit contract, on every segment (used or not) and on the layers.
pub fn contract<C: Small, I: InputType>(c: &layered::Circuit<C, I>, l: &Lay) -> Result<(), String> {
    if c.layer_ids.is_empty() {
        return Err("no layers".into());
    }
    for (k, s) in c.segments.iter().enumerate() {
        let ni = s.num_inputs.to_vec();
        if ni.is_empty() || ni.iter().any(|n| !pow2(*n)) || !pow2(s.num_outputs) {
            return Err(format!("segment {k}: sizes {ni:?} -> {} are not powers of two", s.num_outputs));
        }
        let mut reads: Vec<(usize, usize)> = vec![];
        let mut writes = vec![];
        let mut pubs = vec![];
        let mut co = |x: &Coef<C>| {
            if let Coef::PublicInput(i) = x {
                pubs.push(*i)
            }
        };
        for g in &s.gate_muls {
            reads.extend(g.inputs.iter().map(|i| (i.layer(), i.offset())));
            writes.push(g.output);
            co(&g.coef);
        }
        for g in &s.gate_adds {
            reads.extend(g.inputs.iter().map(|i| (i.layer(), i.offset())));
            writes.push(g.output);
            co(&g.coef);
        }
        for g in &s.gate_consts {
            writes.push(g.output);
            co(&g.coef);
        }
        for g in &s.gate_customs {
            reads.extend(g.inputs.iter().map(|i| (i.layer(), i.offset())));
            writes.push(g.output);
            co(&g.coef);
        }
        if let Some(r) = reads.iter().find(|(a, b)| *a >= ni.len() || *b >= ni[*a]) {
            return Err(format!("segment {k}: a gate reads {r:?} outside {ni:?}"));
        }
        if let Some(w) = writes.iter().find(|w| **w >= s.num_outputs) {
            return Err(format!("segment {k}: a gate writes {w} of {}", s.num_outputs));
        }
        if let Some(p) = pubs.iter().find(|p| **p >= c.num_public_inputs) {
            return Err(format!("segment {k}: public input {p} of {}", c.num_public_inputs));
        }
        for (t, al) in &s.child_segs {
            if *t >= k {
                return Err(format!("segment {k} places segment {t}"));
            }
            let ti = c.segments[*t].num_inputs.to_vec();
            let to = c.segments[*t].num_outputs;
            for a in al {
                let ao = a.input_offset.to_vec();
                let bad = ao.len() != ti.len()
                    || ti.len() > ni.len()
                    || ao.iter().zip(&ti).zip(&ni).any(|((o, n), m)| o % n != 0 || o + n > *m)
                    || a.output_offset % to != 0
                    || a.output_offset + to > s.num_outputs;
                if bad {
                    return Err(format!("segment {k}: placement of {t} (sizes {ti:?} -> {to}) at {ao:?} -> {} in {ni:?} -> {}", a.output_offset, s.num_outputs));
                }
            }
        }
    }
    let last = l.layers.last().unwrap().0;
    if c.expected_num_output_zeroes > c.num_actual_outputs || c.num_actual_outputs > last {
        return Err(format!("{} zeroes, {} outputs, last layer {last}", c.expected_num_output_zeroes, c.num_actual_outputs));
    }
    // every value read was written by some gate
    let mut written: Vec<Vec<bool>> = vec![vec![true; l.n_in]];
    for (n, gs) in &l.layers {
        let mut w = vec![false; *n];
        for g in gs {
            w[g.out] = true;
        }
        written.push(w);
    }
    for (k, (_, gs)) in l.layers.iter().enumerate() {
        for g in gs {
            for (a, b) in g.reads() {
                if !written[a][b] {
                    return Err(format!("layer {k}: {g:?} reads value {b} of layer {a}, which nothing wrote"));
                }
            }
        }
    }
    Ok(())
}

struct Ctr(u32);
impl Ctr {
    fn co<C: Small>(&mut self, t: &ec::CoefType, k: expander_compiler::circuit::config::CircuitField<C>) -> Co {
        match t {
            ec::CoefType::Constant => Co::K(C::un(&k)),
            ec::CoefType::PublicInput(i) => Co::P(*i),
            ec::CoefType::Random => {
                self.0 += 1;
                Co::R(self.0 - 1)
            }
        }
    }
    fn cx<C: Small>(&mut self, t: &cl::CoefType, k: expander_compiler::circuit::config::CircuitField<C>) -> Co {
        match t {
            cl::CoefType::Constant => Co::K(C::un(&k)),
            cl::CoefType::PublicInput(i) => Co::P(*i),
            cl::CoefType::Random => {
                self.0 += 1;
                Co::R(self.0 - 1)
            }
        }
    }
}

/// Gates of the nested exported form.
fn lay_recursive<C: Small>(r: &ec::RecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>) -> Result<Lay, String> {
    let mut l = Lay { p: C::P, n_in: 1 << r.segments[r.layers[0]].i_var_num, layers: vec![], zeroes: r.expected_num_output_zeros, n_out: r.num_outputs, n_rand: 0 };
    let mut size = l.n_in;
    let mut ctr = Ctr(0);
    fn emit<C: Small>(
        r: &ec::RecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>,
        id: usize,
        lay: usize,
        io: usize,
        oo: usize,
        g: &mut Vec<G>,
        ctr: &mut Ctr,
    ) -> Result<(), String> {
        let s = r.segments.get(id).ok_or("segment id")?;
        let (ni, no) = (1usize << s.i_var_num, 1usize << s.o_var_num);
        let at = |i: usize| if i < ni { Ok((lay, io + i)) } else { Err(format!("exported gate reads {i} of {ni}")) };
        let o = |i: usize| if i < no { Ok(oo + i) } else { Err(format!("exported gate writes {i} of {no}")) };
        for x in &s.gate_muls {
            g.push(G { kind: Kind::Mul(at(x.i_ids[0])?, at(x.i_ids[1])?), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_adds {
            g.push(G { kind: Kind::Add(at(x.i_ids[0])?), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_consts {
            g.push(G { kind: Kind::Const, out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_uni {
            g.push(G { kind: Kind::Custom(x.gate_type, vec![at(x.i_ids[0])?]), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for (t, al) in &s.child_segs {
            if *t >= id {
                return Err(format!("exported segment {id} places {t}"));
            }
            let (ti, to) = (1usize << r.segments[*t].i_var_num, 1usize << r.segments[*t].o_var_num);
            for a in al {
                if a.i_offset % ti != 0 || a.i_offset + ti > ni || a.o_offset % to != 0 || a.o_offset + to > no {
                    return Err(format!("exported placement of {t} at {} -> {}", a.i_offset, a.o_offset));
                }
                emit::<C>(r, *t, lay, io + a.i_offset, oo + a.o_offset, g, ctr)?;
            }
        }
        Ok(())
    }
    for (k, id) in r.layers.iter().enumerate() {
        let s = &r.segments[*id];
        if 1 << s.i_var_num != size {
            return Err(format!("exported layer {k} takes {} values, previous layer has {size}", 1 << s.i_var_num));
        }
        let mut g = vec![];
        emit::<C>(r, *id, k, 0, 0, &mut g, &mut ctr)?;
        size = 1 << s.o_var_num;
        l.layers.push((size, g));
    }
    l.n_rand = ctr.0;
    Ok(l)
}

fn lay_flat<C: Small>(f: &ec::Circuit<<C as gkr_engine::GKREngine>::FieldConfig>, n_out: usize) -> Result<Lay, String> {
    let mut l = Lay { p: C::P, n_in: 1 << f.layers[0].input_var_num, layers: vec![], zeroes: f.expected_num_output_zeros, n_out, n_rand: 0 };
    let mut size = l.n_in;
    let mut ctr = Ctr(0);
    for (k, y) in f.layers.iter().enumerate() {
        if 1 << y.input_var_num != size {
            return Err(format!("flattened layer {k} takes {} values, previous layer has {size}", 1 << y.input_var_num));
        }
        let no = 1usize << y.output_var_num;
        let at = |i: usize| if i < size { Ok((k, i)) } else { Err(format!("flattened gate reads {i} of {size}")) };
        let o = |i: usize| if i < no { Ok(i) } else { Err(format!("flattened gate writes {i} of {no}")) };
        let mut g = vec![];
        for x in &y.mul {
            g.push(G { kind: Kind::Mul(at(x.i_ids[0])?, at(x.i_ids[1])?), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &y.add {
            g.push(G { kind: Kind::Add(at(x.i_ids[0])?), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &y.const_ {
            g.push(G { kind: Kind::Const, out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        for x in &y.uni {
            g.push(G { kind: Kind::Custom(x.gate_type, vec![at(x.i_ids[0])?]), out: o(x.o_id)?, co: ctr.co::<C>(&x.coef_type, x.coef) });
        }
        size = no;
        l.layers.push((no, g));
    }
    l.n_rand = ctr.0;
    Ok(l)
}

fn lay_cross<C: Small>(r: &cl::CrossLayerRecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>) -> Result<Lay, String> {
    let mut l = Lay { p: C::P, n_in: r.segments[r.layers[0]].input_size[0], layers: vec![], zeroes: r.expected_num_output_zeros, n_out: r.num_outputs, n_rand: 0 };
    let mut sizes = vec![l.n_in];
    let mut ctr = Ctr(0);
    fn emit<C: Small>(
        r: &cl::CrossLayerRecursiveCircuit<<C as gkr_engine::GKREngine>::FieldConfig>,
        id: usize,
        k: usize,
        io: &[usize],
        oo: usize,
        g: &mut Vec<G>,
        ctr: &mut Ctr,
    ) -> Result<(), String> {
        let s = r.segments.get(id).ok_or("segment id")?;
        let at = |lay: usize, i: usize| match (s.input_size.get(lay), io.get(lay)) {
            (Some(n), Some(o)) if i < *n => Ok((k - lay, o + i)),
            _ => Err(format!("exported gate reads layer {lay} offset {i} of {:?}", s.input_size)),
        };
        let o = |i: usize| if i < s.output_size { Ok(oo + i) } else { Err(format!("exported gate writes {i} of {}", s.output_size)) };
        for x in &s.gate_muls {
            g.push(G { kind: Kind::Mul(at(0, x.i_ids[0])?, at(0, x.i_ids[1])?), out: o(x.o_id)?, co: ctr.cx::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_adds {
            g.push(G { kind: Kind::Add(at(0, x.i_ids[0])?), out: o(x.o_id)?, co: ctr.cx::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_csts {
            g.push(G { kind: Kind::Const, out: o(x.o_id)?, co: ctr.cx::<C>(&x.coef_type, x.coef) });
        }
        for x in &s.gate_relay {
            g.push(G { kind: Kind::Add(at(x.i_layer, x.i_id)?), out: o(x.o_id)?, co: Co::K(C::un(&x.coef)) });
        }
        for (t, al) in &s.child_segs {
            if *t >= id {
                return Err(format!("exported segment {id} places {t}"));
            }
            let c = &r.segments[*t];
            for a in al {
                if a.i_offset.len() != c.input_size.len()
                    || c.input_size.len() > s.input_size.len()
                    || a.i_offset.iter().zip(&c.input_size).zip(&s.input_size).any(|((o, n), m)| o % n != 0 || o + n > *m)
                    || a.o_offset % c.output_size != 0
                    || a.o_offset + c.output_size > s.output_size
                {
                    return Err(format!("exported placement of {t} at {:?} -> {}", a.i_offset, a.o_offset));
                }
                let ni: Vec<usize> = a.i_offset.iter().zip(io).map(|(x, y)| x + y).collect();
                emit::<C>(r, *t, k, &ni, oo + a.o_offset, g, ctr)?;
            }
        }
        Ok(())
    }
    for (k, id) in r.layers.iter().enumerate() {
        let s = &r.segments[*id];
        if s.input_size.len() > k + 1 || s.input_size.iter().enumerate().any(|(j, n)| sizes[k - j] != *n) {
            return Err(format!("exported layer {k} takes {:?}, layers so far have {sizes:?}", s.input_size));
        }
        let mut g = vec![];
        emit::<C>(r, *id, k, &vec![0; s.input_size.len()], 0, &mut g, &mut ctr)?;
        sizes.push(s.output_size);
        l.layers.push((s.output_size, g));
    }
    l.n_rand = ctr.0;
    Ok(l)
}

/// Exports of the two targets as gate lists.
pub trait Export: InputType {
    fn exports<C: Small>(c: &layered::Circuit<C, Self>) -> Result<Vec<(&'static str, Lay)>, String>
    where
        Self: Sized;
}
impl Export for N {
    fn exports<C: Small>(c: &layered::Circuit<C, N>) -> Result<Vec<(&'static str, Lay)>, String> {
        let r = c.export_to_expander::<<C as gkr_engine::GKREngine>::FieldConfig>();
        if r.num_public_inputs != c.num_public_inputs || r.num_outputs != c.num_actual_outputs || r.layers.len() != c.layer_ids.len() {
            return Err(format!("exported header: {} public inputs, {} outputs, {} layers", r.num_public_inputs, r.num_outputs, r.layers.len()));
        }
        let f = c.export_to_expander_flatten();
        Ok(vec![("exported", lay_recursive::<C>(&r)?), ("flattened", lay_flat::<C>(&f, c.num_actual_outputs)?)])
    }
}
impl Export for X {
    fn exports<C: Small>(c: &layered::Circuit<C, X>) -> Result<Vec<(&'static str, Lay)>, String> {
        if c.segments.iter().any(|s| !s.gate_customs.is_empty()) {
            return Ok(vec![]);
        }
        let r = c.export_to_expander::<<C as gkr_engine::GKREngine>::FieldConfig>();
        if r.num_public_inputs != c.num_public_inputs || r.num_outputs != c.num_actual_outputs || r.layers.len() != c.layer_ids.len() {
            return Err(format!("exported header: {} public inputs, {} outputs, {} layers", r.num_public_inputs, r.num_outputs, r.layers.len()));
        }
        Ok(vec![("cross-layer export", lay_cross::<C>(&r)?)])
    }
}

fn c04_case<C: Small + Config, I: Export>(pr: &Prog, o: Opt, cap: u64) {
    rt::evals(1);
    let c = match compile::<C, I>(pr, o) {
        Ok(c) => c,
        Err(Fail::Bad(e)) => {
            report::<C, I>(pr, o, &format!("malformed circuit: {e}"), json!(null));
            return;
        }
        _ => {
            rt::count("not_compiled", 1);
            return;
        }
    };
    if let Err(e) = contract(&c.lc, &c.lay) {
        report::<C, I>(pr, o, &format!("contract broken: {e}"), json!(null));
        return;
    }
    rt::distinct(&(pr, o, C::CONFIG_ID, I::CROSS_LAYER_RELAY));
    let ex = match rt::guard(|| I::exports::<C>(&c.lc)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            report::<C, I>(pr, o, &format!("export malformed: {e}"), json!(null));
            return;
        }
        Err(e) => {
            report::<C, I>(pr, o, &format!("export panics: {e}"), json!(null));
            return;
        }
    };
    // the prover's form knows custom gates of one operand only
    if pr.uses(|i| matches!(i, Ins::Gate(_, a) if a.len() != 1)) {
        rt::count("export_skipped_wide_custom_gate", 1);
        return;
    }
    for (_, l) in &ex {
        if l.n_in != c.lay.n_in || l.layers.len() != c.lay.layers.len() || l.zeroes != c.lay.zeroes {
            report::<C, I>(pr, o, &format!("export has {} inputs, {} layers, {} zeroes", l.n_in, l.layers.len(), l.zeroes), json!(null));
            return;
        }
    }
    let bases = [vec![0; c.lay.n_in], vec![1; c.lay.n_in], (0..c.lay.n_in as u32).map(|i| (i + 1) % C::P).collect()];
    for pubs in tuples(C::P, pr.n_pub) {
        let mut bad = None;
        let mut n = 0;
        c.witnesses(cap, &bases, |v| {
            if bad.is_some() {
                return;
            }
            n += 1;
            let e = c.lay.eval(v, &pubs);
            if n < 12 {
                rt::traces(1);
                if let Err(e) = crate::lay::conform(&c.lc, &c.lay, v, &pubs, 1) {
                    bad = Some(format!("evaluator and gates disagree: {e}"));
                }
            }
            for (name, l) in &ex {
                let f = l.eval(v, &pubs);
                if (f.accept, &f.outs) != (e.accept, &e.outs) {
                    bad = Some(format!("{name} form gives {:?} accept={} for witness {v:?}, the compiled circuit {:?} accept={}", f.outs, f.accept, e.outs, e.accept));
                }
            }
        });
        rt::states(n);
        rt::transitions(n * ex.len() as u64);
        if let Some(b) = bad {
            report::<C, I>(pr, o, &b, json!({"public": pubs}));
            return;
        }
    }
}

pub fn c04() {
    let cap = if rt::thorough() { 20_000 } else { 300 };
    sem::drive2(&|pr, i| {
        let os = if rt::thorough() { all_opts() } else { sem::opts_quick(i) };
        for (j, o) in os.into_iter().enumerate() {
            use crate::cfgs::*;
            match (i + j) % 3 {
                0 => {
                    c04_case::<C3, N>(pr, o, cap);
                    c04_case::<C3, X>(pr, o, cap)
                }
                1 => {
                    c04_case::<C3n, N>(pr, o, cap);
                    c04_case::<C3n, X>(pr, o, cap)
                }
                _ => {
                    c04_case::<C3w, N>(pr, o, cap);
                    c04_case::<C3w, X>(pr, o, cap)
                }
            }
        }
    }, &|pr, i| {
        use crate::cfgs::*;
        for (j, o) in sem::opts_quick(i).into_iter().enumerate() {
            if (i + j) % 2 == 0 {
                c04_case::<C5, N>(pr, o, cap);
                c04_case::<C5w, X>(pr, o, cap)
            } else {
                c04_case::<C5w, N>(pr, o, cap);
                c04_case::<C5n, X>(pr, o, cap)
            }
        }
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "a compilation counts when it yields a circuit; its contract is checked on every segment and its exported forms on every witness vector within the cap",
        sem::BOUNDS,
    );
}
