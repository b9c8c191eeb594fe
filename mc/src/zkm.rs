//! C15, C16: kernels from the #[kernel] macro, calls by call_kernel!, and histories of one context.
use crate::rt::{self, violation};
use crate::zk::*;
use expander_compiler::zkcuda::context::{Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::KernelPrimitive;
use expander_compiler::zkcuda::shape::Reshape;
use serde_json::json;

fn bad(what: &str, case: String, more: String) {
    violation(&format!("{what}:{case}"), &format!("{what}: {more} in {case}"), json!({"what": what, "case": case, "more": more}))
}
fn put(ctx: &mut Ctx, shape: &[usize], v: &[V], tag: u64) -> DeviceMemoryHandle {
    if shape.len() <= 4 {
        upload(ctx, shape, v, tag)
    } else {
        upload(ctx, &[size(shape)], v, tag).reshape(shape)
    }
}
fn get(ctx: &Ctx, h: &DeviceMemoryHandle, shape: &[usize]) -> Result<Vec<V>, String> {
    if shape.len() <= 4 {
        download(ctx, h, shape.len())
    } else {
        download(ctx, &h.reshape(&[size(shape)]), 1)
    }
}
/// Compile, prove and verify what has been called.
fn finish(ctx: &mut Ctx) -> Result<(), String> {
    let g = ctx.compile_computation_graph().map_err(|e| format!("{e:?}"))?;
    ctx.solve_witness().map_err(|e| format!("{e:?}"))?;
    let mems = ctx.export_device_memories();
    let p = prove(&g, &mems)?;
    match verify(&g, &p) {
        Ok(true) => Ok(()),
        e => Err(format!("{e:?}")),
    }
}

fn one_macro(entry: &kdecls::Entry, k: &KernelPrimitive<C>, par: usize, bro: usize, mask: usize, proof: bool) -> Result<(), String> {
    let args = &entry.0;
    let mut ctx: Ctx = Context::new(hints());
    let mut io: Vec<DeviceMemoryHandle> = vec![];
    let mut vals: Vec<Option<(Vec<V>, bool)>> = vec![];
    for (j, (kind, s)) in args.iter().enumerate() {
        if *kind == "Out" {
            io.push(None);
            vals.push(None);
            continue;
        }
        let br = *kind == "In" && bro >> j & 1 == 1;
        let shape: Vec<usize> = if br { s.clone() } else { [&[par], &s[..]].concat() };
        let tag = (j as u64 * 5 + par as u64) % 8;
        let v: Vec<V> = (0..size(&shape)).map(|i| std::array::from_fn(|l| value(tag, i, if tag % 2 == 0 { 0 } else { l }))).collect();
        io.push(put(&mut ctx, &shape, &v, tag));
        vals.push(Some((v, br)));
    }
    let before = io.clone();
    if args.len() <= 4 {
        kdecls::call(&mut ctx, k.clone(), par, &mut io, mask).map_err(|e| format!("{e:?}"))?;
    } else {
        ctx.call_kernel(k, par, &mut io).map_err(|e| format!("{e:?}"))?;
    }
    rt::transitions(1);
    // what it should give
    let m: usize = args.iter().filter(|a| a.0 == "Out" || a.0 == "Io").map(|a| size(&a.1)).sum();
    let mut want: Vec<Vec<V>> = args.iter().map(|a| vec![[0; LANES]; par * size(&a.1)]).collect();
    for i in 0..par {
        for l in 0..LANES {
            let mut x = vec![];
            for (a, v) in args.iter().zip(&vals) {
                if let Some((v, br)) = v {
                    let n = size(&a.1);
                    let from = if *br { 0 } else { i * n };
                    x.extend(v[from..from + n].iter().map(|v| v[l]));
                }
            }
            let mut y = poly(&x, m, 0).into_iter();
            for (j, a) in args.iter().enumerate() {
                for e in 0..size(&a.1) {
                    match a.0 {
                        "Out" | "Io" => want[j][i * size(&a.1) + e][l] = y.next().unwrap(),
                        "Kept" => want[j][i * size(&a.1) + e][l] = vals[j].as_ref().unwrap().0[i * size(&a.1) + e][l],
                        _ => {}
                    }
                }
            }
        }
    }
    for (j, a) in args.iter().enumerate() {
        let set = args.len() > 4 || mask >> j & 1 == 1;
        if !set {
            // an argument that is not `mut` stays what it was
            if format!("{:?}", io[j]) != format!("{:?}", before[j]) {
                return Err(format!("argument {j} was changed without mut"));
            }
            continue;
        }
        if a.0 == "In" {
            if io[j].is_some() {
                return Err(format!("input {j} became an output"));
            }
            continue;
        }
        if io[j].is_none() {
            return Err(format!("no handle for output {j}"));
        }
        let shape = [&[par], &a.1[..]].concat();
        let got = get(&ctx, &io[j], &shape)?;
        rt::states(1);
        if got != want[j] {
            return Err(format!("output {j} is {got:?}, expected {:?}", want[j]));
        }
    }
    if proof {
        finish(&mut ctx)?;
    }
    Ok(())
}
pub fn macros(proof: bool) {
    let table = kdecls::table();
    rt::par(table.len(), |i| {
        let e = &table[i];
        let case = format!("kernel {i} with arguments {:?}", e.0);
        let k = match rt::guard(e.1) {
            Ok(Ok(k)) => k,
            x => return bad("macro kernel refused", case, format!("{:?}", x.map(|x| x.map(|_| ())))),
        };
        let n = e.0.len();
        let outs: usize = (0..n).filter(|j| e.0[*j].0 != "In").map(|j| 1 << j).sum();
        for par in 1..=3 {
            for bro in 0..1usize << n {
                if (0..n).any(|j| bro >> j & 1 == 1 && e.0[j].0 != "In") {
                    continue;
                }
                for mask in 0..1usize << n {
                    if mask != outs && (par != 2 || bro != 0 || n > 4) {
                        continue;
                    }
                    rt::evals(1);
                    rt::distinct(&(i, par, bro, mask));
                    rt::traces(1);
                    match rt::guard(|| one_macro(e, &k, par, bro, mask, proof)) {
                        Ok(Ok(())) => {}
                        Ok(Err(x)) | Err(x) => bad("macro kernel", format!("{case}, {par} parallel, broadcast {bro:b}, mut {mask:b}"), x),
                    }
                }
            }
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// another kernel into the slot
    Put(usize),
    /// call what is in the slot, giving it the input (0, 1: uploaded, 2: the result so far) and the variable for the output as it is
    Call(usize),
    /// the same with a fresh variable
    Fresh(usize),
}
fn all_ops() -> Vec<Op> {
    let mut v: Vec<Op> = (0..3).map(Op::Put).collect();
    v.extend((0..3).map(Op::Call));
    v.extend((0..2).map(Op::Fresh));
    v
}
/// None where the sequence makes no sense.
fn one_history(ops: &[Op], proof: bool) -> Option<Result<(), String>> {
    let kerns = [
        Kern { args: vec![(In, vec![]), (Out, vec![])], body: Body::Poly(0) },
        Kern { args: vec![(In, vec![]), (Out, vec![])], body: Body::Poly(5) },
        Kern { args: vec![(In, vec![]), (In, vec![]), (Io, vec![]), (Out, vec![])], body: Body::Poly(2) },
    ];
    let prims: Vec<_> = kerns.iter().map(|k| k.get().unwrap()).collect();
    let mut ctx: Ctx = Context::new(hints());
    let par = 3;
    let vals: Vec<Vec<V>> = (0..2).map(|t| (0..par).map(|i| std::array::from_fn(|l| value(t * 2 + 1, i, l))).collect()).collect();
    let ups: Vec<_> = (0..2).map(|t| upload(&mut ctx, &[par], &vals[t], t as u64 * 2 + 1)).collect();
    let mut slot: Box<KernelPrimitive<C>> = Box::new((*prims[0]).clone());
    let mut cur = 0;
    let mut out: DeviceMemoryHandle = None;
    let mut have: Option<Vec<V>> = None;
    let mut all: Vec<(DeviceMemoryHandle, Vec<V>)> = vec![];
    for op in ops {
        let (x, fresh) = match op {
            Op::Put(i) => {
                if *i == cur {
                    return None;
                }
                *slot = (*prims[*i]).clone();
                cur = *i;
                continue;
            }
            Op::Call(x) => (*x, false),
            Op::Fresh(x) => (*x, true),
        };
        let (h, v) = if x < 2 { (ups[x].clone(), vals[x].clone()) } else { (out.clone(), have.clone()?) };
        let o = if fresh { None } else { out.clone() };
        let k = &kerns[cur];
        let (mut io, ins): (Vec<DeviceMemoryHandle>, Vec<Vec<V>>) = if cur < 2 {
            (vec![h, o], vec![v])
        } else {
            // the same memory for two arguments, and an in-place change of another
            (vec![h.clone(), h, ups[1].clone(), o], vec![v.clone(), v, vals[1].clone()])
        };
        if let Err(e) = ctx.call_kernel(&slot, par, &mut io) {
            return Some(Err(format!("{e:?}")));
        }
        let n_out = if cur < 2 { 1 } else { 2 };
        let mut want = vec![vec![[0; LANES]; par]; n_out];
        for i in 0..par {
            for l in 0..LANES {
                let x: Vec<u64> = ins.iter().map(|v| v[i][l]).collect();
                for (j, y) in k.model(&x).0.into_iter().enumerate() {
                    want[j][i][l] = y;
                }
            }
        }
        rt::transitions(1);
        let hs: Vec<DeviceMemoryHandle> = io.split_off(io.len() - n_out);
        if io.iter().any(|h| h.is_some()) || hs.iter().any(|h| h.is_none()) {
            return Some(Err("handles after the call".into()));
        }
        all.extend(hs.iter().cloned().zip(want.iter().cloned()));
        out = hs.last().unwrap().clone();
        have = Some(want.pop().unwrap());
    }
    if !matches!(ops.last(), Some(Op::Call(_) | Op::Fresh(_))) {
        return None;
    }
    for (i, (h, want)) in ups.into_iter().zip(vals).chain(all).enumerate() {
        match download(&ctx, &h, 1) {
            Ok(got) if got == want => {}
            e => return Some(Err(format!("data {i} is {e:?}, expected {want:?}"))),
        }
        rt::states(1);
    }
    if proof {
        if let Err(e) = finish(&mut ctx) {
            return Some(Err(e));
        }
    }
    Some(Ok(()))
}
pub fn history(proof: bool) {
    let depth = if rt::thorough() { 6 + usize::from(!proof) } else { 5 };
    let ops = all_ops();
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for o in &ops {
                let mut s = seqs[i].clone();
                s.push(*o);
                seqs.push(s);
            }
        }
        from = to;
    }
    rt::par(seqs.len(), |i| match rt::guard(|| one_history(&seqs[i], proof)) {
        Ok(None) => {}
        Ok(Some(Ok(()))) => {
            rt::evals(1);
            rt::distinct(&seqs[i]);
            rt::traces(1);
        }
        Ok(Some(Err(e))) | Err(e) => bad("history", format!("{:?}", seqs[i]), e),
    });
}
