//! C10: the circuit-building API against its mathematical meaning, in debug evaluation and compiled.
use crate::cfgs::*;
use crate::opts::{all_opts, Opt};
use crate::rt::{self, violation, Level};
use ethnum::U256;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::*;
use serde_json::json;
use std::cell::RefCell;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Src {
    /// literal field value
    L(U256),
    /// literal of type u32
    L32(u32),
    /// earlier value
    V(usize),
}
use Src::*;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Add, Sub, Mul, Div(bool), Xor, Or, And, Gt, Geq, AssertEq, AssertNe,
    /// numbered as in prog::UNAMES
    U(u8),
    UAdd, UMul,
    Neg, IsZero, Inverse, ToBin(usize), AssertZero, AssertNonZero, AssertBool, UIdent, Const,
    FromBin(Vec<usize>),
    Peek,
    Display,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Step(pub Op, pub Src, pub Src);
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Code(pub Arc<Vec<Step>>);

declare_circuit!(Cir { x: [Variable], p: [PublicVariable], code: Code });

thread_local! {
    /// what constant_value answered, per Peek
    static PEEK: RefCell<Vec<Option<U256>>> = const { RefCell::new(vec![]) };
}

enum Arg<F> {
    V(Variable),
    F(F),
    N(u32),
}
macro_rules! one {
    ($a:expr, $x:ident => $e:expr) => {
        match $a {
            Arg::V($x) => $e,
            Arg::F($x) => $e,
            Arg::N($x) => $e,
        }
    };
}
macro_rules! two {
    ($api:ident.$m:ident($a:expr, $b:expr $(, $c:expr)?)) => {
        one!($a, x => one!($b, y => $api.$m(x, y $(, $c)?)))
    };
}

pub fn exec<C: Config, B: RootAPI<C>>(api: &mut B, vals: &mut Vec<Variable>, code: &[Step]) {
    for Step(op, a, b) in code {
        let arg = |s: &Src, vals: &Vec<Variable>| match s {
            L(v) => Arg::F(CircuitField::<C>::from_u256(*v)),
            L32(v) => Arg::N(*v),
            V(i) => Arg::V(vals[*i]),
        };
        let (x, y) = (arg(a, vals), arg(b, vals));
        let r: Vec<Variable> = match op {
            Op::Add => vec![two!(api.add(x, y))],
            Op::Sub => vec![two!(api.sub(x, y))],
            Op::Mul => vec![two!(api.mul(x, y))],
            Op::Div(c) => vec![two!(api.div(x, y, *c))],
            Op::Xor => vec![two!(api.xor(x, y))],
            Op::Or => vec![two!(api.or(x, y))],
            Op::And => vec![two!(api.and(x, y))],
            Op::Gt => vec![two!(api.gt(x, y))],
            Op::Geq => vec![two!(api.geq(x, y))],
            Op::AssertEq => {
                two!(api.assert_is_equal(x, y));
                vec![]
            }
            Op::AssertNe => {
                two!(api.assert_is_different(x, y));
                vec![]
            }
            Op::U(k) => vec![match k {
                0 => two!(api.unconstrained_div(x, y)),
                1 => two!(api.unconstrained_pow(x, y)),
                2 => two!(api.unconstrained_int_div(x, y)),
                3 => two!(api.unconstrained_mod(x, y)),
                4 => two!(api.unconstrained_shift_l(x, y)),
                5 => two!(api.unconstrained_shift_r(x, y)),
                6 => two!(api.unconstrained_lesser_eq(x, y)),
                7 => two!(api.unconstrained_greater_eq(x, y)),
                8 => two!(api.unconstrained_lesser(x, y)),
                9 => two!(api.unconstrained_greater(x, y)),
                10 => two!(api.unconstrained_eq(x, y)),
                11 => two!(api.unconstrained_not_eq(x, y)),
                12 => two!(api.unconstrained_bool_or(x, y)),
                13 => two!(api.unconstrained_bool_and(x, y)),
                14 => two!(api.unconstrained_bit_or(x, y)),
                15 => two!(api.unconstrained_bit_and(x, y)),
                _ => two!(api.unconstrained_bit_xor(x, y)),
            }],
            Op::UAdd => vec![two!(api.unconstrained_add(x, y))],
            Op::UMul => vec![two!(api.unconstrained_mul(x, y))],
            Op::Neg => vec![one!(x, x => api.neg(x))],
            Op::IsZero => vec![one!(x, x => api.is_zero(x))],
            Op::Inverse => vec![one!(x, x => api.inverse(x))],
            Op::ToBin(n) => one!(x, x => api.to_binary(x, *n)),
            Op::AssertZero => {
                one!(x, x => api.assert_is_zero(x));
                vec![]
            }
            Op::AssertNonZero => {
                one!(x, x => api.assert_is_non_zero(x));
                vec![]
            }
            Op::AssertBool => {
                one!(x, x => api.assert_is_bool(x));
                vec![]
            }
            Op::UIdent => vec![one!(x, x => api.unconstrained_identity(x))],
            Op::Const => vec![one!(x, x => api.constant(x))],
            Op::FromBin(l) => {
                let l: Vec<Variable> = l.iter().map(|i| vals[*i]).collect();
                vec![api.from_binary(&l)]
            }
            Op::Peek => {
                let v = one!(x, x => api.constant_value(x)).map(|v| v.to_u256());
                PEEK.with(|p| p.borrow_mut().push(v));
                vec![]
            }
            Op::Display => {
                one!(x, x => api.display("", x));
                vec![]
            }
        };
        vals.extend(r);
    }
}
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let mut vals: Vec<Variable> = self.x.iter().chain(&self.p).cloned().collect();
        exec(api, &mut vals, &self.code.0);
        // everything computed, and one input so that the circuit depends on something
        let mut outs = vals[self.x.len() + self.p.len()..].to_vec();
        outs.push(self.x[0]);
        api.set_outputs(outs);
    }
}

// ---------------------------------------------------------------------------------- reference

pub struct Z {
    pub p: U256,
    /// what the division-like unconstrained operations give for a zero divisor
    pub zero_div: bool,
}
impl Z {
    fn add(&self, a: U256, b: U256) -> U256 {
        let s = a + b;
        if s >= self.p {
            s - self.p
        } else {
            s
        }
    }
    fn neg(&self, a: U256) -> U256 {
        if a == U256::ZERO {
            a
        } else {
            self.p - a
        }
    }
    pub fn mul(&self, a: U256, b: U256) -> U256 {
        if self.p < U256::ONE << 64u32 {
            return U256::new(a.as_u128() * b.as_u128() % self.p.as_u128());
        }
        let (mut r, mut t, mut b) = (U256::ZERO, a, b);
        while b != U256::ZERO {
            if b & 1 == 1 {
                r = self.add(r, t);
            }
            t = self.add(t, t);
            b >>= 1;
        }
        r
    }
    fn pow(&self, a: U256, e: U256) -> U256 {
        let mut r = U256::ONE % self.p;
        for i in (0..256u32).rev() {
            r = self.mul(r, r);
            if e >> i & 1 == 1 {
                r = self.mul(r, a);
            }
        }
        r
    }
    fn inv(&self, a: U256) -> U256 {
        self.pow(a, self.p - 2)
    }
    fn bits(&self) -> u32 {
        256 - self.p.leading_zeros()
    }
    fn shift(&self, x: U256, k: U256, left: bool) -> U256 {
        // circom's shifts: amounts above half the modulus shift the other way
        let (k, left) = if k > self.p / 2 { (self.p - k, !left) } else { (k, left) };
        if k >= U256::new(256) {
            return U256::ZERO;
        }
        let k = k.as_u32();
        let r = if left {
            let m = if self.bits() == 256 { U256::MAX } else { (U256::ONE << self.bits()) - 1 };
            (x << k) & m
        } else {
            x >> k
        };
        r % self.p
    }
    fn bin(&self, op: &Op, x: U256, y: U256) -> Option<U256> {
        let b = |c: bool| U256::from(c as u32);
        let boolean = |v: U256| v <= 1;
        Some(match op {
            Op::Add | Op::UAdd => self.add(x, y),
            Op::Sub => self.add(x, self.neg(y)),
            Op::Mul | Op::UMul => self.mul(x, y),
            Op::Div(c) => {
                if y == U256::ZERO {
                    if *c || x != U256::ZERO {
                        return None;
                    }
                    U256::ZERO
                } else {
                    self.mul(x, self.inv(y))
                }
            }
            Op::Xor | Op::Or | Op::And => {
                if !boolean(x) || !boolean(y) {
                    return None;
                }
                b(match op {
                    Op::Xor => x != y,
                    Op::Or => x == 1 || y == 1,
                    _ => x == 1 && y == 1,
                })
            }
            Op::Gt => b(x > y),
            Op::Geq => b(x >= y),
            Op::U(k) => match crate::opts::UNAMES[*k as usize] {
                "div" | "intdiv" | "mod" if y == U256::ZERO => {
                    if self.zero_div {
                        return Some(U256::ZERO);
                    }
                    return None;
                }
                "div" => self.mul(x, self.inv(y)),
                "pow" => self.pow(x, y),
                "intdiv" => x / y,
                "mod" => x % y,
                "shl" => self.shift(x, y, true),
                "shr" => self.shift(x, y, false),
                "le" => b(x <= y),
                "ge" => b(x >= y),
                "lt" => b(x < y),
                "gt" => b(x > y),
                "eq" => b(x == y),
                "ne" => b(x != y),
                "or" => b(x != 0 || y != 0),
                "and" => b(x != 0 && y != 0),
                "bitor" => (x | y) % self.p,
                "bitand" => (x & y) % self.p,
                _ => (x ^ y) % self.p,
            },
            _ => unreachable!(),
        })
    }
    /// Values computed by the steps; Err(step) if a step fails. Also what Peek may say.
    pub fn run(&self, x: &[U256], code: &[Step], seen: &mut Vec<U256>) -> Result<Vec<U256>, usize> {
        let mut vals = x.to_vec();
        for (i, Step(op, a, b)) in code.iter().enumerate() {
            let get = |s: &Src| match s {
                L(v) => *v,
                L32(v) => U256::from(*v) % self.p,
                V(i) => vals[*i],
            };
            let (x, y) = (get(a), get(b));
            let fail = Err(i);
            match op {
                Op::AssertEq if x != y => return fail,
                Op::AssertNe if x == y => return fail,
                Op::AssertZero if x != 0 => return fail,
                Op::AssertNonZero if x == 0 => return fail,
                Op::AssertBool if x > 1 => return fail,
                Op::AssertEq | Op::AssertNe | Op::AssertZero | Op::AssertNonZero | Op::AssertBool | Op::Display => {}
                Op::Peek => seen.push(x),
                Op::Neg => vals.push(self.neg(x)),
                Op::IsZero => vals.push(U256::from((x == 0) as u32)),
                Op::Inverse => {
                    if x == 0 {
                        return fail;
                    }
                    vals.push(self.inv(x))
                }
                Op::ToBin(n) => {
                    if *n < 256 && x >> *n != 0 {
                        return fail;
                    }
                    for i in 0..*n {
                        vals.push(if i < 256 { x >> i & 1 } else { U256::ZERO });
                    }
                }
                Op::UIdent | Op::Const => vals.push(x),
                Op::FromBin(l) => {
                    let mut r = U256::ZERO;
                    for i in l.iter().rev() {
                        r = self.add(self.add(r, r), vals[*i]);
                    }
                    vals.push(r)
                }
                _ => match self.bin(op, x, y) {
                    Some(v) => vals.push(v),
                    None => return fail,
                },
            }
        }
        Ok(vals[x.len()..].to_vec())
    }
}

// ------------------------------------------------------------------------------------- checking

fn show(code: &[Step]) -> String {
    code.iter().map(|s| format!("{:?}({:?}, {:?})", s.0, s.1, s.2)).collect::<Vec<_>>().join("; ")
}
/// Does a zero divisor of an unconstrained division-like operation occur first?
fn zero_div(step: Option<usize>, code: &[Step]) -> Option<&'static str> {
    match step.map(|i| &code[i].0) {
        Some(Op::U(k)) if [0, 2, 3].contains(k) => Some(crate::opts::UNAMES[*k as usize]),
        _ => None,
    }
}

/// Runs one program on all given inputs: (secret, public) values.
pub fn check<C: Config, const X: bool>(tag: &str, code: Vec<Step>, inputs: &[(Vec<U256>, Vec<U256>)], o: Opt, cross: bool) {
    let z = Z { p: <CircuitField<C> as FieldArith>::MODULUS, zero_div: false };
    let zz = Z { p: z.p, zero_div: true };
    let f = |v: &U256| CircuitField::<C>::from_u256(*v);
    let what = |w: &str, x: &(Vec<U256>, Vec<U256>), more: String| {
        violation(
            &format!("{w}:{:x}", rt::hash_of(&(tag, &code, x, o))),
            &format!("{w} [{tag} {o}{}] {} on inputs {:?} public {:?}: {more}", if cross { " cross-layer" } else { "" }, show(&code), x.0, x.1),
            json!({"field": tag, "program": show(&code), "secret": x.0.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "public": x.1.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "options": o.to_string(), "more": more}),
        )
    };
    let c = Code(Arc::new(code.clone()));
    let (n, m) = (inputs[0].0.len(), inputs[0].1.len());
    let cir = Cir::<Variable> { x: vec![Variable::default(); n], p: vec![Variable::default(); m], code: c.clone() };
    PEEK.with(|p| p.borrow_mut().clear());
    enum Built<C: Config> {
        N(CompileResult<C>),
        X(CompileResultCrossLayer<C>),
        No(String),
    }
    let built = match rt::guard(|| {
        if X && cross {
            compile_cross_layer::<C, _>(&cir, o.real()).map(Built::X)
        } else {
            compile::<C, _>(&cir, o.real()).map(Built::N)
        }
    }) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => Built::No(format!("{e:?}")),
        Err(e) => Built::No(e),
    };
    let peek = PEEK.with(|p| p.borrow().clone());
    let refs: Vec<Result<Vec<U256>, usize>> = inputs
        .iter()
        .map(|x| {
            let all: Vec<U256> = x.0.iter().chain(&x.1).cloned().collect();
            let mut seen = vec![];
            let r = z.run(&all, &code, &mut seen).map(|mut v| {
                v.push(x.0[0]);
                v
            });
            for (i, (s, k)) in seen.iter().zip(&peek).enumerate() {
                if let Some(k) = k {
                    if k != s {
                        what("constant_value", x, format!("call {i} says {k}, the value is {s}"));
                    }
                }
            }
            r
        })
        .collect();
    rt::states(inputs.len() as u64);
    rt::distinct(&(tag, &code));
    // a circuit that divides by a constant zero may be refused as a whole
    let refusable = matches!(built, Built::No(_))
        && code.iter().enumerate().any(|(i, Step(op, _, b))| {
            *op == Op::Div(false)
                && inputs.iter().all(|x| {
                    let all: Vec<U256> = x.0.iter().chain(&x.1).cloned().collect();
                    let off = all.len();
                    match (z.run(&all, &code[..i], &mut vec![]), b) {
                        (Ok(v), V(j)) => U256::ZERO == if *j < off { all[*j] } else { v[*j - off] },
                        (Ok(_), L(v)) => *v == 0,
                        (Ok(_), L32(v)) => U256::from(*v) % z.p == 0,
                        (Err(_), _) => true,
                    }
                })
        });
    for (x, r) in inputs.iter().zip(&refs) {
        rt::evals(1);
        // debug evaluation
        let asg = Cir::<CircuitField<C>> { x: x.0.iter().map(f).collect(), p: x.1.iter().map(f).collect(), code: c.clone() };
        let d = rt::guard(|| debug_eval::<C, _, _, _>(&cir, &asg, EmptyHintCaller)).map(|v| v.iter().map(|v| v.to_u256()).collect::<Vec<_>>());
        match (&d, r) {
            (Ok(d), Ok(r)) if d == r => {}
            (Err(_), Err(_)) => {}
            _ => what("debug evaluation", x, format!("gives {d:?}, expected {r:?}")),
        }
        rt::transitions(1);
        // compiled
        let got: Result<Vec<U256>, String> = match &built {
            Built::No(e) => Err(e.clone()),
            Built::N(b) => run1(&asg, &b.witness_solver, |w| b.layered_circuit.run_with_output(w)),
            Built::X(_) if !X => unreachable!(),
            Built::X(b) => run1(&asg, &b.witness_solver, |w| b.layered_circuit.run_with_output(w)),
        };
        rt::transitions(1);
        rt::traces(1);
        match (&got, r) {
            (Ok(g), Ok(r)) if g == r => {}
            (Err(_), Err(_)) => {}
            (Err(_), Ok(_)) if refusable => {}
            _ => {
                if let (Some(name), Ok(g)) = (zero_div(r.as_ref().err().cloned(), &code), &got) {
                    let all: Vec<U256> = x.0.iter().chain(&x.1).cloned().collect();
                    let mut w = zz.run(&all, &code, &mut vec![]);
                    if let Ok(w) = &mut w {
                        w.push(x.0[0]);
                    }
                    if w.as_ref() == Ok(g) {
                        violation(
                            &format!("unconstrained {name} by zero"),
                            &format!("unconstrained {name} by zero gives 0 when compiled, debug evaluation refuses it"),
                            json!({"program": show(&code)}),
                        );
                        continue;
                    }
                }
                what("compiled circuit", x, format!("gives {got:?}, expected {r:?}"))
            }
        }
    }
}
fn run1<C: Config>(
    asg: &Cir<CircuitField<C>>,
    ws: &WitnessSolver<C>,
    run: impl Fn(&expander_compiler::circuit::layered::witness::Witness<C>) -> (Vec<bool>, Vec<Vec<CircuitField<C>>>),
) -> Result<Vec<U256>, String> {
    let w = match rt::guard(|| ws.solve_witness(asg)) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => return Err(format!("{e:?}")),
        Err(e) => {
            violation(&format!("solver panic {e}"), &format!("witness solver panics: {e}"), json!(null));
            return Err(e);
        }
    };
    let (ok, outs) = run(&w);
    if ok != [true] {
        return Err("rejected".into());
    }
    Ok(outs[0].iter().map(|v| v.to_u256()).collect())
}

fn bins() -> Vec<Op> {
    let mut r = vec![Op::Add, Op::Sub, Op::Mul, Op::Div(true), Op::Div(false), Op::Xor, Op::Or, Op::And, Op::AssertEq, Op::AssertNe, Op::UAdd, Op::UMul];
    r.extend((0..17).map(Op::U));
    r
}
fn uns(bits: &[usize]) -> Vec<Op> {
    let mut r = vec![Op::Neg, Op::IsZero, Op::Inverse, Op::AssertZero, Op::AssertNonZero, Op::AssertBool, Op::UIdent, Op::Const, Op::Peek, Op::Display];
    r.extend(bits.iter().map(|n| Op::ToBin(*n)));
    r
}
fn n_out(o: &Op) -> usize {
    match o {
        Op::AssertEq | Op::AssertNe | Op::AssertZero | Op::AssertNonZero | Op::AssertBool | Op::Peek | Op::Display => 0,
        Op::ToBin(n) => *n,
        _ => 1,
    }
}
fn tuples(vs: &[U256], n: usize) -> Vec<Vec<U256>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r.into_iter().flat_map(|t: Vec<U256>| vs.iter().map(move |v| [&t[..], &[*v]].concat())).collect();
    }
    r
}

/// Ways to hand over an operand; the prelude builds what is not literal.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Lit,
    Lit32,
    Const,
    Folded,
    Secret,
    Public,
    Derived,
}
const KINDS: [Kind; 7] = [Kind::Lit, Kind::Lit32, Kind::Const, Kind::Folded, Kind::Secret, Kind::Public, Kind::Derived];
impl Kind {
    fn constant(&self) -> bool {
        matches!(self, Kind::Lit | Kind::Lit32 | Kind::Const | Kind::Folded)
    }
    /// which: 0 for the left operand, 1 for the right one; v: value if constant; l: values so far
    fn build(&self, which: usize, v: U256, p: U256, code: &mut Vec<Step>, l: &mut usize) -> Src {
        let mut push = |s: Step| {
            code.push(s);
            *l += 1;
            V(*l - 1)
        };
        match self {
            Kind::Lit => L(v),
            Kind::Lit32 => {
                // also a representative above the modulus
                if p < U256::new(1 << 31) {
                    L32(v.as_u32() + if which == 1 { p.as_u32() } else { 0 })
                } else if v <= U256::new(u32::MAX as u128) {
                    L32(v.as_u32())
                } else {
                    L(v)
                }
            }
            Kind::Const => push(Step(Op::Const, L(v), L32(0))),
            Kind::Folded => {
                let h = push(Step(Op::Const, L((v + U256::ONE) % p), L32(0)));
                push(Step(Op::Sub, h, L32(1)))
            }
            Kind::Secret => V(which),
            Kind::Public => V(2 + which),
            Kind::Derived => {
                let a = push(Step(Op::Add, V(which), V(2)));
                push(Step(Op::Sub, a, V(2)))
            }
        }
    }
}

/// Two secret and two public inputs; the operands named by the kinds take all values of `vs`.
fn kinds_case<C: Config, const X: bool>(tag: &str, op: &Op, ka: Kind, kb: Kind, vs: &[U256], pub_vs: &[U256], i: usize) {
    let p = <CircuitField<C> as FieldArith>::MODULUS;
    let zero = [U256::ZERO];
    let ca: &[U256] = if ka.constant() { vs } else { &zero };
    let cb: &[U256] = if kb.constant() { vs } else { &zero };
    let opts = all_opts();
    for (ia, va) in ca.iter().enumerate() {
        for (ib, vb) in cb.iter().enumerate() {
            let mut code = vec![];
            let mut l = 4;
            let a = ka.build(0, *va, p, &mut code, &mut l);
            let b = kb.build(1, *vb, p, &mut code, &mut l);
            code.push(Step(op.clone(), a, b));
            let k = n_out(op);
            if k > 0 {
                // what constant_value says about the result
                code.push(Step(Op::Peek, V(l), L32(0)));
            }
            let axis = |k: Kind, w: Kind| if k == w { vs } else { &zero[..] };
            let xs = |k: Kind| if k == Kind::Derived { vs } else { axis(k, Kind::Secret) };
            let mut inputs = vec![];
            for x0 in xs(ka) {
                for x1 in xs(kb) {
                    for p0 in if ka == Kind::Derived || kb == Kind::Derived { pub_vs } else { axis(ka, Kind::Public) } {
                        for p1 in axis(kb, Kind::Public) {
                            let q0 = if ka == Kind::Public { vs.iter().cloned().collect() } else { vec![*p0] };
                            for q0 in q0 {
                                inputs.push((vec![*x0, *x1], vec![q0, *p1]));
                            }
                        }
                    }
                }
            }
            inputs.sort();
            inputs.dedup();
            let o = opts[(i + ia + 5 * ib) % opts.len()];
            check::<C, X>(tag, code, &inputs, o, (i + ia + ib) % 4 == 3);
            if rt::stopped() {
                return;
            }
        }
    }
}

fn corner<C: Config>() -> Vec<U256> {
    let p = <CircuitField<C> as FieldArith>::MODULUS;
    let mut v = vec![];
    let mut add = |x: U256| {
        if x < p && !v.contains(&x) {
            v.push(x)
        }
    };
    for i in 0..4u32 {
        add(U256::from(i));
    }
    for i in 1..4u32 {
        add(p.wrapping_sub(U256::from(i)));
    }
    add(p / 2);
    add(p / 2 + 1);
    for k in [8u32, 31, 32, 63, 64, 128, 253] {
        add((U256::ONE << k) - 1);
        add(U256::ONE << k);
    }
    add(U256::new(0x1234_5678_9abc_def1_1357_9bdf_0246_8ace) % p);
    v
}

fn production<C: Config>(tag: &'static str, bits: &[usize], cmp: bool) {
    let vs = corner::<C>();
    let mut ops = bins();
    if cmp {
        ops.push(Op::Gt);
        ops.push(Op::Geq);
    }
    let combos = [(Kind::Secret, Kind::Secret), (Kind::Lit, Kind::Secret), (Kind::Secret, Kind::Lit), (Kind::Const, Kind::Const), (Kind::Public, Kind::Secret), (Kind::Secret, Kind::Public)];
    rt::family(&format!("{tag}_binary"), || {
        rt::par(ops.len() * combos.len(), |i| {
            let (op, (a, b)) = (&ops[i / combos.len()], combos[i % combos.len()]);
            let heavy = matches!(op, Op::Gt | Op::Geq);
            let vs: &[U256] = if heavy && (a.constant() || b.constant()) && !rt::thorough() { &vs[..vs.len().min(5)] } else { &vs };
            rt::watch(format!("{tag} {op:?} {a:?} {b:?}"), || kinds_case::<C, false>(tag, op, a, b, vs, &vs[..1], i))
        })
    });
    let uns = uns(bits);
    rt::family(&format!("{tag}_unary"), || {
        rt::par(uns.len() * KINDS.len(), |i| {
            let (op, a) = (&uns[i / KINDS.len()], KINDS[i % KINDS.len()]);
            rt::watch(format!("{tag} {op:?} {a:?}"), || kinds_case::<C, false>(tag, op, a, Kind::Lit, &vs, &vs[..2], i))
        })
    });
}

pub fn c10() {
    let th = rt::thorough();
    let f3: Vec<U256> = (0..3u32).map(U256::from).collect();
    let f5: Vec<U256> = (0..5u32).map(U256::from).collect();
    let (bs, us) = (bins(), uns(&[1, 2, 3, 4]));
    for f in 0..2 {
        let (tag, vs) = if f == 0 { ("F3", &f3) } else { ("F5", &f5) };
        let nk = KINDS.len();
        rt::family(&format!("binary_{tag}"), || {
            rt::par(bs.len() * nk * nk, |i| {
                let (op, a, b) = (&bs[i / nk / nk], KINDS[i / nk % nk], KINDS[i % nk]);
                rt::watch(format!("{tag} {op:?} {a:?} {b:?}"), || {
                    if f == 0 {
                        kinds_case::<C3n, true>(tag, op, a, b, vs, vs, i)
                    } else {
                        kinds_case::<C5n, true>(tag, op, a, b, vs, &vs[..2], i)
                    }
                })
            })
        });
        rt::family(&format!("unary_{tag}"), || {
            rt::par(us.len() * nk, |i| {
                let (op, a) = (&us[i / nk], KINDS[i % nk]);
                if f == 0 {
                    kinds_case::<C3n, true>(tag, op, a, Kind::Lit, vs, vs, i)
                } else {
                    kinds_case::<C5n, true>(tag, op, a, Kind::Lit, vs, vs, i)
                }
            })
        });
        // both operands the same value
        rt::family(&format!("same_{tag}"), || {
            rt::par(bs.len() * 4, |i| {
                let op = &bs[i / 4];
                let mut code = vec![Step(Op::Const, L(vs[2]), L32(0)), Step(Op::Mul, V(0), V(0))];
                let v = [0usize, 1, 2, 3][i % 4];
                code.push(Step(op.clone(), V(v), V(v)));
                let inputs: Vec<_> = tuples(vs, 2).into_iter().map(|t| (vec![t[0]], vec![t[1]])).collect();
                if f == 0 {
                    check::<C3n, true>(tag, code, &inputs, all_opts()[i % 18], i % 3 == 0)
                } else {
                    check::<C5n, true>(tag, code, &inputs, all_opts()[i % 18], i % 3 == 0)
                }
            })
        });
    }
    // results feeding operations, on constants and on values
    rt::family("pairs_F3", || {
        let mut first: Vec<(Op, Src, Src)> = vec![];
        for op in &bs {
            if n_out(op) > 0 {
                for (a, b) in [(V(0), V(1)), (V(0), L(f3[2])), (L(f3[1]), V(1)), (L(f3[2]), L(f3[1])), (L(f3[0]), L(f3[1]))] {
                    first.push((op.clone(), a, b));
                }
            }
        }
        for op in &us {
            if n_out(op) > 0 {
                for a in [V(0), L(f3[1]), L(f3[2])] {
                    first.push((op.clone(), a, L32(0)));
                }
            }
        }
        let second: Vec<Op> = bs.iter().chain(&us).cloned().collect();
        let n2 = second.len();
        let ins: Vec<_> = tuples(&f3, 2).into_iter().map(|t| (vec![t[0]], vec![t[1]])).collect();
        rt::par(first.len() * n2, |i| {
            let (op, a, b) = first[i / n2].clone();
            let o2 = second[i % n2].clone();
            let k = n_out(&op);
            let code0 = vec![Step(op, a, b)];
            let last = 2 + k - 1;
            let code1 = code0.clone();
            let c1 = [code0.clone(), vec![Step(o2.clone(), V(last), V(0)), Step(Op::Peek, V(last), L32(0))]].concat();
            let c2 = [code0.clone(), vec![Step(o2.clone(), L(f3[1]), V(last))]].concat();
            let c3 = [code0, vec![Step(o2, V(2), V(last))]].concat();
            let mut all = vec![c1, c2, c3];
            let (o2, k2) = (&second[i % n2], n_out(&second[i % n2]));
            if k2 > 0 && (th || i % 16 == 0) {
                // and one more operation on top
                for o3 in &second {
                    let mut c = [code1.clone(), vec![Step(o2.clone(), V(last), V(1))]].concat();
                    let l = last + k2;
                    c.push(Step(o3.clone(), V(l), V(last)));
                    all.push(c);
                }
            }
            for (j, c) in all.into_iter().enumerate() {
                check::<C3n, true>("F3", c, &ins, all_opts()[(i + j * 7) % 18], (i + j) % 3 == 0);
            }
        })
    });
    // recomposition of every list of up to four values, constants among them
    rt::family("from_binary_F3", || {
        let ins: Vec<_> = tuples(&f3, 3).into_iter().map(|t| (vec![t[0], t[1]], vec![t[2]])).collect();
        let mut ls: Vec<Vec<usize>> = vec![vec![]];
        let mut k = 0;
        while k < ls.len() {
            if ls[k].len() < if th { 5 } else { 4 } {
                for v in 0..5 {
                    ls.push([&ls[k][..], &[v]].concat());
                }
            }
            k += 1;
        }
        rt::par(ls.len(), |i| {
            let code = vec![Step(Op::Const, L(f3[1]), L32(0)), Step(Op::Const, L(f3[2]), L32(0)), Step(Op::FromBin(ls[i].clone()), L32(0), L32(0)), Step(Op::Peek, V(5), L32(0))];
            check::<C3n, true>("F3", code, &ins, all_opts()[i % 18], i % 2 == 0)
        })
    });
    // comparisons, every pair of values, every operand kind
    rt::family("compare_F5", || {
        let nk = KINDS.len();
        rt::par(2 * nk * nk, |i| {
            let op = if i % 2 == 0 { Op::Gt } else { Op::Geq };
            let (a, b) = (KINDS[i / 2 / nk], KINDS[i / 2 % nk]);
            rt::watch(format!("F5 {op:?} {a:?} {b:?}"), || kinds_case::<C5g, true>("F5g", &op, a, b, &f5, &f5[..1], i))
        })
    });
    production::<M31Config>("M31", &[1, 8, 30, 31, 32], true);
    production::<BabyBearConfig>("BabyBear", &[1, 31, 33], true);
    production::<GoldilocksConfig>("Goldilocks", &[1, 63, 64, 65], false);
    production::<GF2Config>("GF2", &[1, 2, 5], false);
    production::<BN254Config>("BN254", &[1, 128, 253, 254, 256], true);
    rt::finish_and_exit(
        Level::ModelChecking,
        "one evaluation per program and input; distinct by field and program; each is run through the reference, the debug builder and the compiled circuit",
        &[
            "tiny fields take all values; production fields the corner values listed in front.rs, over the stand-in field arithmetic",
            "comparisons only on fields whose size the builder supports",
        ],
    );
}
