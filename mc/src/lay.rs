//! Model of a compiled layered circuit: flattened gates, evaluated exactly over all drawings of the
//! random coefficients (values are polynomials in the draws). Bound to the implementation by
//! `conform`, which replays inputs through the real evaluator with the same draws.
use crate::prog::Small;
use arith::RANDOM_HOOK;
use expander_compiler::circuit::layered::{self, Coef, Input, InputType, InputUsize};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Co {
    K(u32),
    R(u32),
    P(usize),
}
#[derive(Clone, Debug)]
pub enum Kind {
    Mul((usize, usize), (usize, usize)),
    Add((usize, usize)),
    Const,
    Custom(usize, Vec<(usize, usize)>),
}
#[derive(Clone, Debug)]
pub struct G {
    pub kind: Kind,
    pub out: usize,
    pub co: Co,
}
#[derive(Clone, Debug)]
pub struct Lay {
    pub p: u32,
    pub n_in: usize,
    pub layers: Vec<(usize, Vec<G>)>,
    pub zeroes: usize,
    pub n_out: usize,
    pub n_rand: u32,
}

pub fn flatten<C: Small, I: InputType>(c: &layered::Circuit<C, I>) -> Result<Lay, String> {
    let mut l = Lay {
        p: C::P,
        n_in: c.input_size(),
        layers: vec![],
        zeroes: c.expected_num_output_zeroes,
        n_out: c.num_actual_outputs,
        n_rand: 0,
    };
    let mut sizes = vec![l.n_in];
    for (k, &id) in c.layer_ids.iter().enumerate() {
        let s = &c.segments[id];
        let mut g = vec![];
        let n = s.num_inputs.len();
        if n > k + 1 {
            return Err(format!("layer {k} reads {n} layers back"));
        }
        // (absolute layer, offset, length) of each relative input
        let ins: Vec<(usize, usize, usize)> =
            s.num_inputs.iter().enumerate().map(|(r, len)| (k - r, 0, len)).collect();
        for (a, _, len) in &ins {
            if sizes[*a] != *len {
                return Err(format!("layer {k} expects {len} values from layer {a} of size {}", sizes[*a]));
            }
        }
        emit(c, id, &ins, 0, &mut g, &mut l.n_rand, s.num_outputs)?;
        l.layers.push((s.num_outputs, g));
        sizes.push(s.num_outputs);
    }
    Ok(l)
}

fn emit<C: Small, I: InputType>(
    c: &layered::Circuit<C, I>,
    id: usize,
    ins: &[(usize, usize, usize)],
    oo: usize,
    g: &mut Vec<G>,
    nr: &mut u32,
    osize: usize,
) -> Result<(), String> {
    let s = &c.segments[id];
    let at = |i: &I::Input| -> Result<(usize, usize), String> {
        let (a, off, len) = *ins.get(i.layer()).ok_or("gate input layer out of range")?;
        if i.offset() >= len {
            return Err(format!("gate reads offset {} of {len}", i.offset()));
        }
        Ok((a, off + i.offset()))
    };
    let outp = |o: usize| -> Result<usize, String> {
        if o >= s.num_outputs || oo + o >= osize {
            return Err(format!("gate writes {o} of {}", s.num_outputs));
        }
        Ok(oo + o)
    };
    let mut co = |x: &Coef<C>| match x {
        Coef::Constant(k) => Co::K(C::un(k)),
        Coef::Random => {
            *nr += 1;
            Co::R(*nr - 1)
        }
        Coef::PublicInput(i) => Co::P(*i),
    };
    for m in &s.gate_muls {
        g.push(G { kind: Kind::Mul(at(&m.inputs[0])?, at(&m.inputs[1])?), out: outp(m.output)?, co: co(&m.coef) });
    }
    for m in &s.gate_adds {
        g.push(G { kind: Kind::Add(at(&m.inputs[0])?), out: outp(m.output)?, co: co(&m.coef) });
    }
    for m in &s.gate_consts {
        g.push(G { kind: Kind::Const, out: outp(m.output)?, co: co(&m.coef) });
    }
    for m in &s.gate_customs {
        let a = m.inputs.iter().map(&at).collect::<Result<Vec<_>, _>>()?;
        g.push(G { kind: Kind::Custom(m.gate_type, a), out: outp(m.output)?, co: co(&m.coef) });
    }
    for (sub, allocs) in &s.child_segs {
        if *sub >= id {
            return Err(format!("segment {id} uses segment {sub}"));
        }
        let t = &c.segments[*sub];
        for a in allocs {
            if a.input_offset.len() != t.num_inputs.len() || t.num_inputs.len() > ins.len() {
                return Err("placement input layers".into());
            }
            let mut ni = vec![];
            for (r, (off, len)) in a.input_offset.iter().zip(t.num_inputs.iter()).enumerate() {
                let (al, o0, l0) = ins[r];
                if off + len > l0 || off % len != 0 {
                    return Err(format!("placement of segment {sub} at input {off}+{len} of {l0}"));
                }
                ni.push((al, o0 + off, len));
            }
            if a.output_offset + t.num_outputs > s.num_outputs || a.output_offset % t.num_outputs != 0 {
                return Err(format!("placement of segment {sub} at output {}", a.output_offset));
            }
            emit(c, *sub, &ni, oo + a.output_offset, g, nr, osize)?;
        }
    }
    Ok(())
}

/// Polynomial in the draws: constant part, and (set of draws, coefficient) terms.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Poly {
    k: u32,
    t: Vec<(u128, u32)>,
}
impl Poly {
    fn add(&mut self, m: u128, c: u32, p: u32) {
        if c % p == 0 {
            return;
        }
        if m == 0 {
            self.k = (self.k + c) % p;
        } else if let Some(e) = self.t.iter_mut().find(|e| e.0 == m) {
            e.1 = (e.1 + c) % p;
        } else {
            self.t.push((m, c % p));
        }
    }
    fn zero(&self) -> bool {
        self.k == 0 && self.t.iter().all(|e| e.1 == 0)
    }
    fn is_const(&self) -> bool {
        self.t.iter().all(|e| e.1 == 0)
    }
}

pub struct Eval {
    pub outs: Vec<u32>,
    /// every required-zero output is zero for every drawing
    pub accept: bool,
    /// some output depends on the draws
    pub random_outs: bool,
}

impl Lay {
    /// Slots of the witness some gate reads.
    pub fn read_slots(&self) -> Vec<bool> {
        let mut r = vec![false; self.n_in];
        for (_, gs) in &self.layers {
            for g in gs {
                for (l, i) in g.reads() {
                    if l == 0 {
                        r[i] = true;
                    }
                }
            }
        }
        r
    }

    pub fn eval(&self, v: &[u32], pubs: &[u32]) -> Eval {
        let p = self.p;
        let mut cur: Vec<Vec<Poly>> = vec![v.iter().map(|x| Poly { k: *x, t: vec![] }).collect()];
        for (n, gs) in &self.layers {
            let mut o = vec![Poly::default(); *n];
            for g in gs {
                let (cm, ck) = match g.co {
                    Co::K(k) => (0u128, k),
                    Co::R(i) => (1u128 << (i % 128), 1),
                    Co::P(i) => (0, pubs[i]),
                };
                match &g.kind {
                    Kind::Const => o[g.out].add(cm, ck, p),
                    Kind::Add(a) => {
                        let a = &cur[a.0][a.1];
                        o[g.out].add(cm, ck * a.k, p);
                        for (m, c) in &a.t {
                            o[g.out].add(cm | m, ck * c, p);
                        }
                    }
                    Kind::Mul(a, b) => {
                        let (a, b) = (&cur[a.0][a.1], &cur[b.0][b.1]);
                        o[g.out].add(cm, ck * a.k % p * b.k, p);
                        if !a.t.is_empty() || !b.t.is_empty() {
                            for (m, c) in &a.t {
                                o[g.out].add(cm | m, ck * c % p * b.k, p);
                            }
                            for (m, c) in &b.t {
                                o[g.out].add(cm | m, ck * c % p * a.k, p);
                            }
                            for (m, c) in &a.t {
                                for (n, d) in &b.t {
                                    o[g.out].add(cm | m | n, ck * c % p * d, p);
                                }
                            }
                        }
                    }
                    Kind::Custom(t, a) => {
                        let x: Vec<u32> = a.iter().map(|a| cur[a.0][a.1].k).collect();
                        o[g.out].add(cm, ck * crate::prog::gate(*t, &x, p), p);
                    }
                }
            }
            cur.push(o);
        }
        let last = cur.last().unwrap();
        Eval {
            outs: last[self.zeroes..self.n_out].iter().map(|x| x.k).collect(),
            accept: last[..self.zeroes].iter().all(|x| x.zero()),
            random_outs: last[self.zeroes..self.n_out].iter().any(|x| !x.is_const()),
        }
    }

    /// Plain evaluation with given draws: (outputs, accepted).
    pub fn eval_draws(&self, v: &[u32], pubs: &[u32], d: &dyn Fn(u32) -> u32) -> (Vec<u32>, bool) {
        let p = self.p;
        let mut cur: Vec<Vec<u32>> = vec![v.to_vec()];
        for (n, gs) in &self.layers {
            let mut o = vec![0u32; *n];
            for g in gs {
                let c = match g.co {
                    Co::K(k) => k,
                    Co::R(i) => d(i) % p,
                    Co::P(i) => pubs[i],
                };
                let x = match &g.kind {
                    Kind::Const => 1,
                    Kind::Add(a) => cur[a.0][a.1],
                    Kind::Mul(a, b) => cur[a.0][a.1] * cur[b.0][b.1] % p,
                    Kind::Custom(t, a) => {
                        let x: Vec<u32> = a.iter().map(|a| cur[a.0][a.1]).collect();
                        crate::prog::gate(*t, &x, p)
                    }
                };
                o[g.out] = (o[g.out] + c * x) % p;
            }
            cur.push(o);
        }
        let last = cur.last().unwrap();
        (last[self.zeroes..self.n_out].to_vec(), last[..self.zeroes].iter().all(|x| *x == 0))
    }
}

impl G {
    pub fn reads(&self) -> Vec<(usize, usize)> {
        match &self.kind {
            Kind::Const => vec![],
            Kind::Add(a) => vec![*a],
            Kind::Mul(a, b) => vec![*a, *b],
            Kind::Custom(_, a) => a.clone(),
        }
    }
}

/// Runs `f` with every random draw answered by `d(k)` for the k-th draw.
pub fn with_draws<T>(d: impl Fn(u32) -> u32 + 'static, f: impl FnOnce() -> T) -> T {
    let mut k = 0u32;
    RANDOM_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move || {
            k += 1;
            d(k - 1) as u64
        }))
    });
    let r = f();
    RANDOM_HOOK.with(|h| *h.borrow_mut() = None);
    r
}

/// Draw patterns used to bind the model to the implementation.
pub fn draw(mode: u32, i: u32) -> u32 {
    match mode {
        0 => 1,
        1 => i + 1,
        m => (i.wrapping_mul(2654435761).wrapping_add(m * 40503) >> 7) % 64,
    }
}

/// The real evaluator and the model agree on this witness for several drawings.
pub fn conform<C: Small, I: InputType>(
    c: &layered::Circuit<C, I>,
    l: &Lay,
    v: &[u32],
    pubs: &[u32],
    modes: u32,
) -> Result<(), String> {
    for m in 0..modes {
        let want = l.eval_draws(v, pubs, &|i| draw(m, i));
        let vin: Vec<_> = v.iter().map(|x| C::fe(*x)).collect();
        let pin: Vec<_> = pubs.iter().map(|x| C::fe(*x)).collect();
        let (o, ok) = with_draws(move |i| draw(m, i), || c.eval_with_public_inputs(vin, &pin));
        let got = (o.iter().map(|x| C::un(x)).collect::<Vec<_>>(), ok);
        if got != want {
            return Err(format!("witness {v:?} pubs {pubs:?} drawing {m}: circuit evaluates to {got:?}, its gates to {want:?}"));
        }
    }
    Ok(())
}
