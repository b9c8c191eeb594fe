//! Source programs over tiny fields: an independent syntax, reference semantics (honest and
//! relational) and translation to the compiler's source IR.
use crate::cfgs::*;
use expander_compiler::circuit::config::{CircuitField, Config};
use expander_compiler::circuit::ir::common;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source;
use expander_compiler::circuit::layered::Coef;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ins {
    Lin(Vec<(u32, usize)>, u32),
    Mul(Vec<usize>),
    Div(usize, usize, bool),
    /// 1 xor, 2 or, 3 and
    Bool(u8, usize, usize),
    IsZero(usize),
    Hint(usize, Vec<usize>, usize),
    Const(u32),
    Pub(usize),
    Rand,
    Call(usize, Vec<usize>, usize),
    /// numbered as in UNAMES
    UBin(u8, usize, usize),
    Sel(usize, usize, usize),
    Gate(usize, Vec<usize>),
    Bin(usize, usize),
}
pub use crate::opts::UNAMES;
pub const ZERO: u8 = 0;
pub const NONZERO: u8 = 1;
pub const BOOL: u8 = 2;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Circ {
    pub n_in: usize,
    pub ins: Vec<Ins>,
    pub cons: Vec<(u8, usize)>,
    pub outs: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Prog {
    pub n_pub: usize,
    pub zeroes: usize,
    pub circs: Vec<(usize, Circ)>,
}

impl Ins {
    pub fn n_out(&self) -> usize {
        match self {
            Ins::Hint(_, _, n) | Ins::Call(_, _, n) | Ins::Bin(_, n) => *n,
            _ => 1,
        }
    }
}
impl Circ {
    pub fn n_vars(&self) -> usize {
        self.n_in + self.ins.iter().map(|i| i.n_out()).sum::<usize>()
    }
}

impl std::fmt::Display for Prog {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "pub={} zeroes={}", self.n_pub, self.zeroes)?;
        for (id, c) in &self.circs {
            write!(f, " | circuit {id}({} in):", c.n_in)?;
            let mut v = c.n_in;
            for i in &c.ins {
                let n = i.n_out();
                if n == 1 {
                    write!(f, " v{}={i:?};", v.wrapping_add(1))?;
                } else {
                    write!(f, " v{}..{}={i:?};", v.wrapping_add(1), v.wrapping_add(n))?;
                }
                v = v.wrapping_add(n);
            }
            for (t, v) in &c.cons {
                write!(f, " assert {} v{v};", ["zero", "nonzero", "bool"][*t as usize])?;
            }
            write!(f, " out {:?}", c.outs)?;
        }
        Ok(())
    }
}

/// Small-field access for the configurations used here.
pub trait Small: Config {
    const P: u32;
    fn fe(x: u32) -> CircuitField<Self>;
    fn un(x: &CircuitField<Self>) -> u32;
}
macro_rules! small {
    ($($c:ident $f:ident $p:expr;)*) => {$(impl Small for $c {
        const P: u32 = $p;
        fn fe(x: u32) -> $f { arith::Field::from_u256(ethnum::U256::from(x % $p)) }
        fn un(x: &$f) -> u32 { arith::Field::to_u256(x).as_u32() }
    })*};
}
small! {C3 F3 3; C3n F3 3; C3w F3 3; C5 F5 5; C5n F5 5; C5w F5 5; C7 F7 7; C7w F7 7; C3q F3 3; C7q F7 7;}

impl Prog {
    pub fn single(n_in: usize, ins: Vec<Ins>, cons: Vec<(u8, usize)>, outs: Vec<usize>) -> Prog {
        Prog { n_pub: 0, zeroes: 0, circs: vec![(0, Circ { n_in, ins, cons, outs })] }
    }
    pub fn root(&self) -> &Circ {
        self.get(0)
    }
    pub fn get(&self, id: usize) -> &Circ {
        &self.circs.iter().find(|(i, _)| *i == id).unwrap().1
    }
    pub fn ir<C: Config>(&self) -> source::RootCircuit<C> {
        let mut r = source::RootCircuit::<C> {
            num_public_inputs: self.n_pub,
            expected_num_output_zeroes: self.zeroes,
            ..Default::default()
        };
        for (id, c) in &self.circs {
            r.circuits.insert(
                *id,
                common::Circuit {
                    instructions: c.ins.iter().map(ins_ir::<C>).collect(),
                    constraints: c
                        .cons
                        .iter()
                        .map(|(t, v)| source::Constraint {
                            typ: match *t {
                                ZERO => source::ConstraintType::Zero,
                                NONZERO => source::ConstraintType::NonZero,
                                _ => source::ConstraintType::Bool,
                            },
                            var: *v,
                        })
                        .collect(),
                    outputs: c.outs.clone(),
                    num_inputs: c.n_in,
                },
            );
        }
        r
    }
    pub fn uses(&self, f: impl Fn(&Ins) -> bool) -> bool {
        self.circs.iter().any(|(_, c)| c.ins.iter().any(&f))
    }
    pub fn has_user_hint(&self) -> bool {
        self.uses(|i| matches!(i, Ins::Hint(..)))
    }
}

pub fn fe<C: Config>(x: u32) -> CircuitField<C> {
    arith::Field::from_u256(ethnum::U256::from(x))
}
pub fn ins_ir<C: Config>(i: &Ins) -> source::Instruction<C> {
    use source::Instruction as S;
    use source::UnconstrainedBinOpType as U;
    match i {
        Ins::Lin(t, c) => S::LinComb(LinComb {
            terms: t.iter().map(|(k, v)| LinCombTerm { coef: fe::<C>(*k), var: *v }).collect(),
            constant: fe::<C>(*c),
        }),
        Ins::Mul(v) => S::Mul(v.clone()),
        Ins::Div(x, y, c) => S::Div { x: *x, y: *y, checked: *c },
        Ins::Bool(o, x, y) => S::BoolBinOp {
            x: *x,
            y: *y,
            op: match o {
                1 => source::BoolBinOpType::Xor,
                2 => source::BoolBinOpType::Or,
                _ => source::BoolBinOpType::And,
            },
        },
        Ins::IsZero(x) => S::IsZero(*x),
        Ins::Hint(id, a, n) => S::Hint { hint_id: *id, inputs: a.clone(), num_outputs: *n },
        Ins::Const(c) => S::ConstantLike(Coef::Constant(fe::<C>(*c))),
        Ins::Pub(i) => S::ConstantLike(Coef::PublicInput(*i)),
        Ins::Rand => S::ConstantLike(Coef::Random),
        Ins::Call(id, a, n) => {
            S::SubCircuitCall { sub_circuit_id: *id, inputs: a.clone(), num_outputs: *n }
        }
        Ins::UBin(o, x, y) => S::UnconstrainedBinOp {
            x: *x,
            y: *y,
            op: [
                U::Div, U::Pow, U::IntDiv, U::Mod, U::ShiftL, U::ShiftR, U::LesserEq,
                U::GreaterEq, U::Lesser, U::Greater, U::Eq, U::NotEq, U::BoolOr, U::BoolAnd,
                U::BitOr, U::BitAnd, U::BitXor,
            ][*o as usize]
                .clone(),
        },
        Ins::Sel(c, t, e) => S::UnconstrainedSelect { cond: *c, if_true: *t, if_false: *e },
        Ins::Gate(g, a) => S::CustomGate { gate_type: *g, inputs: a.clone() },
        Ins::Bin(x, n) => S::ToBinary { x: *x, num_bits: *n },
    }
}

// ---------------------------------------------------------------- reference arithmetic

pub fn inv(x: u32, p: u32) -> u32 {
    (1..p).find(|y| x * y % p == 1).unwrap_or(0)
}
fn shift(x: u32, k: u32, p: u32, left: bool) -> u32 {
    let bits = 32 - p.leading_zeros();
    let (k, left) = if k <= p / 2 { (k, left) } else { (p - k, !left) };
    if left {
        (x << k) & ((1 << bits) - 1)
    } else {
        x >> k
    }
}
/// Documented meaning of the unconstrained operations; None = no value (division by zero).
pub fn ubin(o: u8, x: u32, y: u32, p: u32) -> Option<u32> {
    Some(
        match UNAMES[o as usize] {
            "div" => {
                if y == 0 {
                    return None;
                }
                x * inv(y, p)
            }
            "pow" => (0..y).fold(1, |a, _| a * x % p),
            "intdiv" => {
                if y == 0 {
                    return None;
                }
                x / y
            }
            "mod" => {
                if y == 0 {
                    return None;
                }
                x % y
            }
            "shl" => shift(x, y, p, true),
            "shr" => shift(x, y, p, false),
            "le" => (x <= y) as u32,
            "ge" => (x >= y) as u32,
            "lt" => (x < y) as u32,
            "gt" => (x > y) as u32,
            "eq" => (x == y) as u32,
            "ne" => (x != y) as u32,
            "or" => (x != 0 || y != 0) as u32,
            "and" => (x != 0 && y != 0) as u32,
            "bitor" => x | y,
            "bitand" => x & y,
            "bitxor" => x ^ y,
            _ => unreachable!(),
        } % p,
    )
}
/// Custom gates used by the families are built-in functions with a known meaning.
pub const GATE_BASE: usize = 0xccc000000000;
pub const G_IDENT: usize = GATE_BASE;
pub const G_DIV: usize = GATE_BASE + 1;
pub const G_EQ: usize = GATE_BASE + 2;
pub const G_BITXOR: usize = GATE_BASE + 8;
pub const G_SELECT: usize = GATE_BASE + 9;
pub fn gate(g: usize, a: &[u32], p: u32) -> u32 {
    match g {
        G_IDENT => a[0],
        G_DIV => ubin(0, a[0], a[1], p).unwrap_or(0),
        G_EQ => (a[0] == a[1]) as u32,
        G_BITXOR => (a[0] ^ a[1]) % p,
        G_SELECT => {
            if a[0] != 0 {
                a[1]
            } else {
                a[2]
            }
        }
        _ => panic!("gate {g}"),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// an assertion or implicit check fails
    Broken,
    /// an unconstrained operation has no value (division by zero)
    NoValue,
}

/// Where the values of unconstrained operations come from.
pub trait Oracle {
    fn hint(&mut self, id: usize, args: &[u32], n: usize) -> Vec<u32>;
    fn ubin(&mut self, o: u8, x: u32, y: u32) -> Result<u32, Stop>;
    fn sel(&mut self, c: u32, t: u32, e: u32) -> u32;
    fn div00(&mut self) -> u32;
    fn bits(&mut self, x: u32, n: usize) -> Result<Vec<u32>, Stop>;
}

/// The program's own run: hints answered by `h`, canonical bits.
pub struct Honest<'a> {
    pub p: u32,
    pub h: &'a dyn Fn(usize, &[u32], usize) -> Vec<u32>,
}
impl Oracle for Honest<'_> {
    fn hint(&mut self, id: usize, a: &[u32], n: usize) -> Vec<u32> {
        (self.h)(id, a, n)
    }
    fn ubin(&mut self, o: u8, x: u32, y: u32) -> Result<u32, Stop> {
        ubin(o, x, y, self.p).ok_or(Stop::NoValue)
    }
    fn sel(&mut self, c: u32, t: u32, e: u32) -> u32 {
        if c != 0 {
            t
        } else {
            e
        }
    }
    fn div00(&mut self) -> u32 {
        0
    }
    fn bits(&mut self, x: u32, n: usize) -> Result<Vec<u32>, Stop> {
        if n < 32 && x >> n != 0 {
            return Err(Stop::Broken);
        }
        Ok((0..n).map(|i| if i < 32 { x >> i & 1 } else { 0 }).collect())
    }
}

/// Depth-first enumeration of every combination of free values.
pub struct Free {
    pub p: u32,
    stack: Vec<(u32, u32)>,
    pos: usize,
}
impl Free {
    pub fn new(p: u32) -> Self {
        Free { p, stack: vec![], pos: 0 }
    }
    fn choose(&mut self, n: u32) -> u32 {
        if self.pos == self.stack.len() {
            self.stack.push((0, n));
        }
        let r = self.stack[self.pos].0;
        self.pos += 1;
        r
    }
    /// Moves to the next combination; false when all have been seen.
    pub fn advance(&mut self) -> bool {
        self.pos = 0;
        while let Some((v, n)) = self.stack.pop() {
            if v + 1 < n {
                self.stack.push((v + 1, n));
                return true;
            }
        }
        false
    }
}
impl Oracle for Free {
    fn hint(&mut self, _: usize, _: &[u32], n: usize) -> Vec<u32> {
        (0..n).map(|_| self.choose(self.p)).collect()
    }
    fn ubin(&mut self, _: u8, _: u32, _: u32) -> Result<u32, Stop> {
        Ok(self.choose(self.p))
    }
    fn sel(&mut self, _: u32, _: u32, _: u32) -> u32 {
        self.choose(self.p)
    }
    fn div00(&mut self) -> u32 {
        self.choose(self.p)
    }
    fn bits(&mut self, x: u32, n: usize) -> Result<Vec<u32>, Stop> {
        let p = self.p;
        let b: Vec<u32> = (0..n).map(|_| self.choose(2)).collect();
        let (mut s, mut w) = (0, 1);
        for v in &b {
            s = (s + v * w) % p;
            w = w * 2 % p;
        }
        if s == x {
            Ok(b)
        } else {
            Err(Stop::Broken)
        }
    }
}

fn run_circ(pr: &Prog, c: &Circ, x: &[u32], pubs: &[u32], p: u32, rnd: u32, o: &mut dyn Oracle) -> Result<Vec<u32>, Stop> {
    let mut v = vec![0u32];
    v.extend_from_slice(x);
    for i in &c.ins {
        match i {
            Ins::Lin(t, k) => {
                let s = t.iter().fold(k % p, |a, (k, y)| (a + k % p * v[*y]) % p);
                v.push(s)
            }
            Ins::Mul(a) => {
                let m = a.iter().fold(1, |m, y| m * v[*y] % p);
                v.push(m)
            }
            Ins::Div(a, b, ch) => {
                let (a, b) = (v[*a], v[*b]);
                if b == 0 {
                    if *ch || a != 0 {
                        return Err(Stop::Broken);
                    }
                    v.push(o.div00());
                } else {
                    v.push(a * inv(b, p) % p);
                }
            }
            Ins::Bool(op, a, b) => {
                let (a, b) = (v[*a], v[*b]);
                if a > 1 || b > 1 {
                    return Err(Stop::Broken);
                }
                v.push(match op {
                    1 => a ^ b,
                    2 => a | b,
                    _ => a & b,
                });
            }
            Ins::IsZero(a) => v.push((v[*a] == 0) as u32),
            Ins::Hint(id, a, n) => {
                let a: Vec<u32> = a.iter().map(|y| v[*y]).collect();
                v.extend(o.hint(*id, &a, *n));
            }
            Ins::Const(k) => v.push(k % p),
            Ins::Pub(i) => v.push(pubs[*i]),
            Ins::Rand => v.push(rnd),
            Ins::Call(id, a, _) => {
                let a: Vec<u32> = a.iter().map(|y| v[*y]).collect();
                let r = run_circ(pr, pr.get(*id), &a, pubs, p, rnd, o)?;
                v.extend(r);
            }
            Ins::UBin(op, a, b) => {
                let r = o.ubin(*op, v[*a], v[*b])?;
                v.push(r)
            }
            Ins::Sel(a, b, d) => {
                let r = o.sel(v[*a], v[*b], v[*d]);
                v.push(r)
            }
            Ins::Gate(g, a) => {
                let a: Vec<u32> = a.iter().map(|y| v[*y]).collect();
                v.push(gate(*g, &a, p))
            }
            Ins::Bin(a, n) => {
                let r = o.bits(v[*a], *n)?;
                v.extend(r)
            }
        }
    }
    for (t, y) in &c.cons {
        let ok = match *t {
            ZERO => v[*y] == 0,
            NONZERO => v[*y] != 0,
            _ => v[*y] < 2,
        };
        if !ok {
            return Err(Stop::Broken);
        }
    }
    Ok(c.outs.iter().map(|y| v[*y]).collect())
}

/// Runs the program; Ok(outputs without the required zeroes).
pub fn run(pr: &Prog, x: &[u32], pubs: &[u32], p: u32, rnd: u32, o: &mut dyn Oracle) -> Result<Vec<u32>, Stop> {
    let r = run_circ(pr, pr.root(), x, pubs, p, rnd, o)?;
    if r[..pr.zeroes].iter().any(|v| *v != 0) {
        return Err(Stop::Broken);
    }
    Ok(r[pr.zeroes..].to_vec())
}

/// All vectors of length n over 0..p.
pub fn tuples(p: u32, n: usize) -> Vec<Vec<u32>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r
            .into_iter()
            .flat_map(|v: Vec<u32>| {
                (0..p).map(move |d| {
                    let mut v = v.clone();
                    v.push(d);
                    v
                })
            })
            .collect();
    }
    r
}

/// R: every (input, outputs) pair some choice of free values allows. None if more than `cap` runs.
pub fn relation(pr: &Prog, pubs: &[u32], p: u32, cap: u64) -> Option<HashSet<(Vec<u32>, Vec<u32>)>> {
    let mut r = HashSet::new();
    let mut n = 0;
    for x in tuples(p, pr.root().n_in) {
        let mut f = Free::new(p);
        loop {
            n += 1;
            if n > cap {
                return None;
            }
            if let Ok(o) = run(pr, &x, pubs, p, 0, &mut f) {
                r.insert((x.clone(), o));
            }
            if !f.advance() {
                break;
            }
        }
    }
    Some(r)
}

/// Deterministic user hint functions used for honest runs: 0..p constant-based, then others.
pub fn hint_fn(k: u32, p: u32) -> impl Fn(usize, &[u32], usize) -> Vec<u32> + Clone {
    move |id: usize, a: &[u32], n: usize| {
        (0..n as u32)
            .map(|j| match k {
                k if k < p => (k + j) % p,
                k if k == p => (a.iter().sum::<u32>() + j) % p,
                k if k == p + 1 => (a[0] * a[a.len() - 1] + j + id as u32 % 7) % p,
                _ => a.iter().enumerate().map(|(i, x)| (i as u32 + 1 + j) * x).sum::<u32>() % p,
            })
            .collect()
    }
}
pub fn num_hint_fns(p: u32) -> u32 {
    p + 3
}

pub type Sub = HashMap<usize, Circ>;
