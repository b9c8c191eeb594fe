//! C25 the C interface of ec_go_lib.
use crate::bad::{edits, malformed, rich};
use crate::prog::Prog;
use crate::rt::{self, count, distinct, family, par, violation, Level};
use crate::sem;
use ec_go_lib::{compile::CompileResult, ByteArray};
use expander_compiler::circuit::config::{CircuitField, Config};
use expander_compiler::circuit::layered::{witness::Witness, NormalInputType};
use expander_compiler::compile::compile;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::{BN254Config, EmptyHintCaller, GF2Config, GoldilocksConfig, M31Config, WitnessSolver};
use gkr_engine::GKREngine;
use serde_json::json;
use serdes::ExpSerde;
use std::fmt::Debug;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct Raw {
    data: *mut u8,
    length: u64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct RawResult {
    wg: Raw,
    layered: Raw,
    error: Raw,
}
/// The documented ids of the fields.
const IDS: [u64; 4] = [1, 2, 3, 4];
type Ans = Result<(Vec<u8>, Vec<u8>), String>;

fn give(b: &[u8]) -> ByteArray {
    // the caller's own copy, as the other side of the interface would have it
    unsafe {
        let p = libc::malloc(b.len().max(1)) as *mut u8;
        p.copy_from(b.as_ptr(), b.len());
        std::mem::transmute(Raw { data: p, length: b.len() as u64 })
    }
}
fn done(b: ByteArray) {
    unsafe {
        let r: Raw = std::mem::transmute(b);
        libc::free(r.data as *mut libc::c_void)
    }
}
fn twin(b: &ByteArray) -> ByteArray {
    unsafe { std::mem::transmute_copy(b) }
}
fn raw(data: &[u8], id: u64) -> RawResult {
    unsafe {
        let a = give(data);
        let r: CompileResult = ec_go_lib::compile::compile(twin(&a), id);
        // what was lent is given back before the answer is read
        let p: Raw = std::mem::transmute_copy(&a);
        std::slice::from_raw_parts_mut(p.data, data.len()).fill(0xa5);
        done(a);
        std::mem::transmute(r)
    }
}
fn bytes(r: &Raw) -> Result<Vec<u8>, String> {
    if r.length == 0 {
        return if r.data.is_null() { Ok(vec![]) } else { Err("a pointer to nothing".into()) };
    }
    if r.data.is_null() {
        return Err(format!("{} bytes at the null pointer", r.length));
    }
    unsafe {
        let room = libc::malloc_usable_size(r.data as *mut libc::c_void);
        if (room as u64) < r.length {
            return Err(format!("{} bytes said to be in a block of {room}", r.length));
        }
        Ok(std::slice::from_raw_parts(r.data, r.length as usize).to_vec())
    }
}
fn free(r: &Raw) {
    unsafe { libc::free(r.data as *mut libc::c_void) }
}
/// The answer, or Err if it makes no sense.
fn read(r: &RawResult) -> Result<Ans, String> {
    let (w, l, e) = (bytes(&r.wg)?, bytes(&r.layered)?, bytes(&r.error)?);
    match (w.is_empty() && l.is_empty(), e.is_empty()) {
        (true, false) => String::from_utf8(e).map(Err).map_err(|_| "the error is no text".into()),
        (false, true) => Ok(Ok((w, l))),
        _ => Err(format!("witness solver of {} bytes, circuit of {}, error of {}", w.len(), l.len(), e.len())),
    }
}
fn ask(data: &[u8], id: u64) -> Result<Ans, String> {
    let r = raw(data, id);
    let a = read(&r);
    for x in [&r.wg, &r.layered, &r.error] {
        free(x)
    }
    rt::transitions(1);
    a
}
fn native<C: Config>(data: &[u8]) -> Ans {
    let pr = expander_compiler::circuit::ir::source::RootCircuit::<C>::deserialize_from(data).map_err(|e| e.to_string())?;
    let (h, l) = compile::<C, NormalInputType>(&pr).map_err(|e| e.to_string())?;
    let (mut a, mut b) = (vec![], vec![]);
    h.serialize_into(&mut a).map_err(|e| e.to_string())?;
    l.serialize_into(&mut b).map_err(|e| e.to_string())?;
    Ok((a, b))
}
fn written<C: Config>(p: &Prog) -> Vec<u8> {
    let mut b = vec![];
    p.ir::<C>().serialize_into(&mut b).unwrap();
    b
}
fn bad(key: &str, what: String, data: &[u8], id: u64) {
    violation(&format!("{key} {id}"), &what, json!({"config_id": id, "data": data}));
}
fn show(a: &Result<Ans, String>) -> String {
    match a {
        Ok(Ok((w, l))) => format!("a witness solver of {} bytes and a circuit of {}", w.len(), l.len()),
        Ok(Err(e)) => format!("the error {:?}", e.chars().take(120).collect::<String>()),
        Err(e) => e.clone(),
    }
}
/// The interface answers as the library does.
fn same<C: Config>(what: &dyn Fn() -> String, data: &[u8]) {
    let id = C::CONFIG_ID as u64;
    let want = match rt::guard(|| native::<C>(data)) {
        Ok(w) => w,
        // would end the process; the library's own checks report it
        Err(_) => return count("library panics", 1),
    };
    rt::evals(1);
    rt::states(1);
    let got = ask(data, id);
    let ok = match (&got, &want) {
        (Ok(Ok(g)), Ok(w)) => g == w,
        (Ok(Err(_)), Err(_)) => true,
        _ => false,
    };
    count(if want.is_ok() { "compiled" } else { "refused" }, 1);
    if !ok {
        bad("differs", format!("{}: the interface answers with {}, the library with {}", what(), show(&got), show(&Ok(want))), data, id);
    }
}
fn refused(what: &dyn Fn() -> String, data: &[u8], id: u64) {
    rt::evals(1);
    rt::states(1);
    let got = ask(data, id);
    if !matches!(got, Ok(Err(_))) {
        bad("not refused", format!("{}, field id {id}: the interface answers with {}", what(), show(&got)), data, id);
    }
}
macro_rules! fields {
    ($f:ident ( $($a:expr),* )) => {{
        $f::<M31Config>($($a),*);
        $f::<BN254Config>($($a),*);
        $f::<GF2Config>($($a),*);
        $f::<GoldilocksConfig>($($a),*);
    }};
}

fn program<C: Config>(pr: &Prog) {
    let b = written::<C>(pr);
    distinct(&b);
    same::<C>(&|| format!("{pr} over field {}", C::CONFIG_ID), &b);
}
fn edited<C: Config>(pr: &Prog) {
    let b = written::<C>(pr);
    distinct(&b);
    if let Some(w) = malformed(pr) {
        count(w, 1);
        refused(&|| format!("{pr} ({w})"), &b, C::CONFIG_ID as u64);
    } else {
        same::<C>(&|| format!("{pr} over field {}", C::CONFIG_ID), &b);
    }
}
/// Every wrong id, every cut, every change to the marker and the field's id.
fn damaged<C: Config>(pr: &Prog) {
    let b = written::<C>(pr);
    let own = C::CONFIG_ID as u64;
    let mut ids: Vec<u64> = (0..=9).collect();
    ids.extend([255, 256, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX]);
    for k in IDS {
        ids.extend([256 + k, 65536 + k, (1 << 32) + k, (1 << 63) + k, k.wrapping_neg(), k << 8]);
    }
    ids.retain(|x| *x != own);
    for id in ids {
        refused(&|| format!("{pr} written for field {own}"), &b, id);
    }
    for n in 0..b.len() {
        refused(&|| format!("{pr} cut to {n} bytes of {}", b.len()), &b[..n], own);
    }
    for i in 0..8 {
        for v in 0..=255 {
            if v != b[i] {
                let mut c = b.clone();
                c[i] = v;
                refused(&|| format!("{pr} with byte {i} changed to {v}"), &c, own);
                let id = u64::from_le_bytes(c[..8].try_into().unwrap());
                if !IDS.contains(&id) {
                    refused(&|| format!("{pr} with field id {id}"), &c, id);
                }
            }
        }
    }
}
/// Answers stay good while others are asked for, and go away one by one.
fn histories(pool: &[(Vec<u8>, u64)], len: usize) {
    let alone: Vec<_> = pool.iter().map(|(d, id)| ask(d, *id)).collect();
    let n = pool.len();
    par(n.pow(len as u32), |mut k| {
        let mut seq = vec![];
        for _ in 0..len {
            seq.push(k % n);
            k /= n;
        }
        distinct(&seq);
        rt::evals(1);
        rt::states(1);
        let rs: Vec<RawResult> = seq.iter().map(|i| raw(&pool[*i].0, pool[*i].1)).collect();
        rt::transitions(len as u64);
        let mut left: Vec<usize> = (0..len).collect();
        for turn in 0..len {
            for j in &left {
                let got = read(&rs[*j]);
                if got != alone[seq[*j]] {
                    bad("history", format!("calls {seq:?}: call {j} now answers with {} and alone with {}", show(&got), show(&alone[seq[*j]])), &pool[seq[*j]].0, pool[seq[*j]].1);
                }
            }
            let j = left.remove((turn * 7 + seq[0]) % left.len());
            for x in [&rs[j].wg, &rs[j].layered, &rs[j].error] {
                free(x)
            }
        }
    });
}

// ---- proving and verifying -----------------------------------------------------------------
fn wbytes<C: Config>(w: &Witness<C>) -> Vec<u8> {
    let mut b = vec![];
    w.serialize_into(&mut b).unwrap();
    b
}
fn prove(name: &str, w: &[u8], id: u64) -> Vec<u8> {
    let (f, w) = (give(name.as_bytes()), give(w));
    let r: Raw = unsafe { std::mem::transmute(ec_go_lib::proving::prove_circuit_file(twin(&f), twin(&w), id)) };
    done(f);
    done(w);
    let b = bytes(&r).unwrap_or_default();
    free(&r);
    b
}
fn verify(name: &str, w: &[u8], p: &[u8], id: u64) -> u8 {
    let (f, w, p) = (give(name.as_bytes()), give(w), give(p));
    let r = ec_go_lib::proving::verify_circuit_file(twin(&f), twin(&w), twin(&p), id);
    done(f);
    done(w);
    done(p);
    r
}
fn proofs<C: Config>(pr: &Prog)
where
    <C as GKREngine>::FieldConfig: 'static,
{
    let Ok(Ok((h, lc))) = rt::guard(|| compile::<C, NormalInputType>(&pr.ir::<C>())) else { return };
    if pr.uses(|i| matches!(i, crate::prog::Ins::Gate(..) | crate::prog::Ins::Rand)) || pr.has_user_hint() {
        return;
    }
    let id = C::CONFIG_ID as u64;
    let name = format!("/{id}/{:x}", rt::hash_of(&pr.to_string()));
    expander_circuit::store(&name, lc.export_to_expander::<<C as GKREngine>::FieldConfig>().flatten());
    let s = WitnessSolver { circuit: h };
    let (n, m) = (pr.root().n_in, pr.n_pub);
    let q = if C::CONFIG_ID == 3 { 2 } else { 3 };
    let fe = |k: usize, i: usize| CircuitField::<C>::from((k / q.min(3usize).pow(i as u32) % q) as u32);
    let mut ws = vec![];
    for k in 0..q.pow((n + m).min(4) as u32) {
        let x: Vec<_> = (0..n + m).map(|i| fe(k, i)).collect();
        if let Ok(Ok(w)) = rt::guard(|| s.solve_witness_from_raw_inputs(x[..n].to_vec(), x[n..].to_vec(), &EmptyHintCaller)) {
            ws.push(w);
        }
    }
    let held: Vec<bool> = ws.iter().map(|w| lc.run(w)[0]).collect();
    let proofs: Vec<Vec<u8>> = ws.iter().map(|w| prove(&name, &wbytes(w), id)).collect();
    let size = proofs.first().map_or(0, |p| p.len());
    for (i, w) in ws.iter().enumerate() {
        let b = wbytes(w);
        distinct(&(id, &b));
        rt::evals(1);
        rt::states(1);
        for (j, v) in ws.iter().enumerate() {
            // that proof with these public inputs
            let mix = v.iter_scalar().next().unwrap().0;
            let pubs = w.iter_scalar().next().unwrap().1;
            let want = held[j] && lc.eval_with_public_inputs(mix, &pubs).1;
            rt::transitions(1);
            let got = verify(&name, &b, &proofs[j], id);
            count(if want { "proofs accepted" } else { "proofs refused" }, 1);
            if got != want as u8 {
                violation(&format!("proof {id}"), &format!("{pr} over field {id}: the proof of witness {j} against the public inputs of witness {i} verifies as {got}, should be {want}"), json!({"program": pr.to_string()}));
            }
        }
        for n in 0..size {
            let (got, _) = (verify(&name, &b, &proofs[i][..n], id), rt::transitions(1));
            if got != 0 {
                violation(&format!("cut proof {id}"), &format!("{pr} over field {id}: {n} of {size} bytes of a proof verify"), json!({"program": pr.to_string()}));
            }
        }
    }
}

pub fn c25() {
    let th = rt::thorough();
    let pick = |ps: Vec<Prog>, max: usize| -> Vec<Prog> {
        let step = ps.len().div_ceil(max).max(1);
        ps.into_iter().step_by(step).collect()
    };
    for (name, ps) in sem::families(3, false) {
        family(name, || {
            let ps = pick(ps, if th { 20_000 } else { 600 });
            par(ps.len(), |i| fields!(program(&ps[i])));
        });
    }
    family("malformed", || {
        for p in rich() {
            let e = edits(&p);
            par(e.len(), |i| fields!(edited(&e[i])));
        }
    });
    family("damaged", || {
        let mut ps = rich();
        for (_, f) in sem::families(3, false) {
            ps.extend(pick(f, if th { 12 } else { 1 }));
        }
        par(ps.len(), |i| fields!(damaged(&ps[i])));
    });
    family("histories", || {
        let r = rich();
        let one = &r[0];
        let (a, b) = (written::<M31Config>(one), written::<BN254Config>(r.last().unwrap()));
        let mut pool = vec![(a.clone(), 1), (b.clone(), 2), (written::<GF2Config>(one), 3), (written::<GoldilocksConfig>(one), 4), (a.clone(), 9), (b[..b.len() / 2].to_vec(), 2)];
        if th {
            pool.extend([(b, 1), (vec![], 1), (a[..20].to_vec(), 1)]);
        }
        histories(&pool, 3);
        histories(&pool, if th { 5 } else { 4 });
    });
    family("proofs", || {
        for (_, f) in sem::families(3, false) {
            let ps = pick(f, if th { 300 } else { 12 });
            par(ps.len(), |i| fields!(proofs(&ps[i])));
        }
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per program and field, malformed datum, call history or witness; a transition per call through the interface; distinct by bytes",
        &["the prover behind prove_circuit_file is a stand-in whose proof is the whole input", "data that makes the library itself panic is left to C06 and C08"],
    );
}
