//! The kernel pipelines (C15, C16, C18, C19): real contexts beside a plain model of them.
use crate::cfgs::*;
use crate::rt;
use arith::SimdField;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::context::{ComputationGraph, Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::{compile_with_spec_and_shapes, IOVecSpec, KernelPrimitive};
use expander_compiler::zkcuda::proving_system::{CombinedProof, DummyProvingSystem, KernelWiseProvingSystem, ProvingSystem};
use expander_compiler::zkcuda::shape::{Reshape, ShapeHistory, Transpose};
use expander_compiler::zkcuda::vec_shaped::VecShaped;
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

pub type C = C16n;
pub type F = F16;
pub type S = F16x2;
pub const P: u64 = 65537;
pub const LANES: usize = 2;
pub type V = [u64; LANES];
pub type Dummy = DummyProvingSystem<C>;

pub fn fu(x: &F) -> u64 {
    x.to_u256().as_u64()
}
pub fn pack(v: &V) -> S {
    S::pack(&v.iter().map(|x| F::from(*x as u32)).collect::<Vec<_>>())
}
pub fn unpack(s: &S) -> V {
    let v = s.unpack();
    std::array::from_fn(|i| fu(&v[i]))
}

// --------------------------------------------------------------------------------------- kernels

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    In,
    Out,
    Io,
}
pub use Kind::*;
impl Kind {
    pub fn is_in(self) -> bool {
        self != Out
    }
    pub fn is_out(self) -> bool {
        self != In
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Body {
    /// every output a different quadratic polynomial in all inputs
    Poly(u64),
    /// outputs copy the inputs in order
    Copy,
    /// all inputs pairwise equal: asserts x[i] = x[i + half]
    Equal,
    /// outputs are bits of the sum of the inputs
    Bits,
    /// outputs come from a user hint, checked to be half of the inputs' sum
    Half,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Kern {
    pub args: Vec<(Kind, Vec<usize>)>,
    pub body: Body,
}
pub fn size(s: &[usize]) -> usize {
    s.iter().product()
}
fn coef(i: usize, j: usize, salt: u64) -> u64 {
    1 + ((i as u64 + 2) * (j as u64 + 3) + salt) % 7
}
pub fn poly(x: &[u64], m: usize, salt: u64) -> Vec<u64> {
    (0..m)
        .map(|j| {
            let mut r = j as u64 + 1 + salt;
            for (i, v) in x.iter().enumerate() {
                r += coef(i, j, salt) * v;
            }
            if !x.is_empty() {
                r += x[j % x.len()] * x[(j + 1) % x.len()];
            }
            r % P
        })
        .collect()
}
pub fn poly_api<B: BasicAPI<C>>(api: &mut B, x: &[Variable], m: usize, salt: u64) -> Vec<Variable> {
    (0..m)
        .map(|j| {
            let mut r = api.constant(j as u32 + 1 + salt as u32);
            for (i, v) in x.iter().enumerate() {
                let t = api.mul(*v, coef(i, j, salt) as u32);
                r = api.add(r, t);
            }
            if !x.is_empty() {
                let t = api.mul(x[j % x.len()], x[(j + 1) % x.len()]);
                r = api.add(r, t);
            }
            r
        })
        .collect()
}
pub fn half_hint(a: &[F], o: &mut [F]) -> Result<(), Error> {
    let s: u64 = a.iter().map(fu).sum::<u64>() % P;
    for (j, o) in o.iter_mut().enumerate() {
        let t = (s + j as u64) % P;
        *o = F::from((t * 32769 % P) as u32);
    }
    Ok(())
}
pub fn hints() -> HintRegistry<F> {
    let mut r = HintRegistry::new();
    r.register("half", half_hint);
    r
}
impl Kern {
    pub fn compile(&self) -> Result<KernelPrimitive<C>, String> {
        let specs: Vec<IOVecSpec> = self.args.iter().map(|(k, s)| IOVecSpec { len: size(s), is_input: k.is_in(), is_output: k.is_out() }).collect();
        let shapes: Vec<Vec<usize>> = self.args.iter().map(|a| a.1.clone()).collect();
        match rt::guard(|| {
            compile_with_spec_and_shapes::<C, _>(
                |api, io| {
                    let x: Vec<Variable> = self.args.iter().zip(io.iter()).filter(|a| a.0 .0.is_in()).flat_map(|a| a.1.clone()).collect();
                    let m: usize = self.args.iter().filter(|a| a.0.is_out()).map(|a| size(&a.1)).sum();
                    let y = match self.body {
                        Body::Poly(salt) => poly_api(api, &x, m, salt),
                        Body::Copy => (0..m).map(|j| x[j % x.len()]).collect(),
                        Body::Equal => {
                            let h = x.len() / 2;
                            for i in 0..h {
                                api.assert_is_equal(x[i], x[i + h]);
                            }
                            (0..m).map(|j| x[j % x.len()]).collect()
                        }
                        Body::Bits => {
                            let mut s = api.constant(0);
                            for v in &x {
                                s = api.add(s, *v);
                            }
                            api.to_binary(s, m)
                        }
                        Body::Half => {
                            let r = api.new_hint("half", &x, m);
                            let mut s = api.constant(0);
                            for v in &x {
                                s = api.add(s, *v);
                            }
                            for (j, v) in r.iter().enumerate() {
                                let t = api.add(*v, *v);
                                let w = api.sub(t, j as u32);
                                api.assert_is_equal(w, s);
                            }
                            r
                        }
                    };
                    let mut y = y.into_iter();
                    for (a, v) in self.args.iter().zip(io.iter_mut()) {
                        if a.0.is_out() {
                            *v = (0..size(&a.1)).map(|_| y.next().unwrap()).collect();
                        }
                    }
                },
                &specs,
                &shapes,
            )
        }) {
            Ok(Ok(k)) => Ok(k),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(e) => Err(e),
        }
    }
    pub fn get(&self) -> Result<Arc<KernelPrimitive<C>>, String> {
        static CACHE: OnceLock<Mutex<HashMap<Kern, Arc<KernelPrimitive<C>>>>> = OnceLock::new();
        let c = CACHE.get_or_init(Default::default);
        if let Some(k) = c.lock().unwrap().get(self) {
            return Ok(k.clone());
        }
        let k = Arc::new(self.compile()?);
        Ok(c.lock().unwrap().entry(self.clone()).or_insert(k).clone())
    }
    /// The outputs and whether the kernel's assertions hold.
    pub fn model(&self, x: &[u64]) -> (Vec<u64>, bool) {
        let m: usize = self.args.iter().filter(|a| a.0.is_out()).map(|a| size(&a.1)).sum();
        let s = x.iter().sum::<u64>() % P;
        match self.body {
            Body::Poly(salt) => (poly(x, m, salt), true),
            Body::Copy => ((0..m).map(|j| x[j % x.len()]).collect(), true),
            Body::Equal => {
                let h = x.len() / 2;
                ((0..m).map(|j| x[j % x.len()]).collect(), (0..h).all(|i| x[i] == x[i + h]))
            }
            Body::Bits => ((0..m).map(|j| s >> j & 1).collect(), s >> m == 0),
            Body::Half => ((0..m as u64).map(|j| (s + j) % P * 32769 % P).collect(), true),
        }
    }
    pub fn hinted(&self) -> bool {
        matches!(self.body, Body::Bits | Body::Half)
    }
}

// -------------------------------------------------------------------------------------- pipelines

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum View {
    Reshape(Vec<usize>),
    Transpose(Vec<usize>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    /// new memory; the number picks its values, the kind of copy goes by it too
    Up(Vec<usize>, u64),
    View(usize, View),
    /// kernel, parallel count, handle for every input (in order of the input arguments)
    Call(usize, usize, Vec<usize>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Pipe {
    pub kerns: Vec<Kern>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug)]
pub struct Handle {
    pub mem: usize,
    /// position in the view -> position in the memory
    pub pos: Vec<usize>,
    pub shape: Vec<usize>,
    pub hist: ShapeHistory,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub kern: usize,
    pub par: usize,
    /// per argument
    pub ins: Vec<Option<(Handle, bool)>>,
    pub outs: Vec<Option<Handle>>,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub mems: Vec<Vec<V>>,
    pub hs: Vec<Handle>,
    pub calls: Vec<Call>,
}
pub fn value(tag: u64, i: usize, lane: usize) -> u64 {
    if tag >= 100 {
        // small values
        return (i as u64 * 2 + lane as u64 + tag) % 4;
    }
    rt::hash_of(&(tag, i, lane)) % P
}
impl Handle {
    fn new(mem: usize, shape: Vec<usize>) -> Self {
        Handle { mem, pos: (0..size(&shape)).collect(), hist: ShapeHistory::new(shape.clone()), shape }
    }
    pub fn view(&self, v: &View) -> Handle {
        match v {
            View::Reshape(s) => Handle { shape: s.clone(), hist: self.hist.reshape(s), ..self.clone() },
            View::Transpose(ax) => {
                let ns: Vec<usize> = ax.iter().map(|a| self.shape[*a]).collect();
                let mut pos = vec![];
                for i in 0..self.pos.len() {
                    let (mut c, mut r) = (vec![0; ns.len()], i);
                    for d in (0..ns.len()).rev() {
                        c[ax[d]] = r % ns[d];
                        r /= ns[d];
                    }
                    pos.push(self.pos[c.iter().zip(&self.shape).fold(0, |a, (x, s)| a * s + x)]);
                }
                Handle { mem: self.mem, pos, hist: self.hist.transpose(ax), shape: ns }
            }
        }
    }
}
impl Model {
    pub fn read(&self, h: &Handle) -> Vec<V> {
        h.pos.iter().map(|p| self.mems[h.mem][*p]).collect()
    }
    /// Runs the kernel's function on one instance and lane of a call, on given memories.
    pub fn instance(k: &Kern, c: &Call, mems: &[Vec<V>], i: usize, lane: usize) -> (Vec<u64>, bool) {
        let mut x = vec![];
        for (a, h) in k.args.iter().zip(&c.ins) {
            if let Some((h, ib)) = h {
                let n = size(&a.1);
                let from = if *ib { 0 } else { i * n };
                x.extend(h.pos[from..from + n].iter().map(|p| mems[h.mem][*p][lane]));
            }
        }
        k.model(&x)
    }
    pub fn call(&mut self, pipe: &Pipe, kern: usize, par: usize, hs: &[usize]) {
        let k = &pipe.kerns[kern];
        let mut it = hs.iter();
        let mut ins = vec![];
        for (kind, s) in &k.args {
            ins.push(kind.is_in().then(|| {
                let h = self.hs[*it.next().unwrap()].clone();
                let ib = h.shape == *s;
                (h, ib)
            }));
        }
        let mut c = Call { kern, par, ins, outs: vec![None; k.args.len()] };
        let base = self.mems.len();
        let mut new: Vec<Vec<V>> = k.args.iter().filter(|a| a.0.is_out()).map(|a| vec![[0; LANES]; par * size(&a.1)]).collect();
        for i in 0..par {
            for lane in 0..LANES {
                let y = Self::instance(k, &c, &self.mems, i, lane).0;
                let mut y = y.into_iter();
                for (m, a) in new.iter_mut().zip(k.args.iter().filter(|a| a.0.is_out())) {
                    for j in 0..size(&a.1) {
                        m[i * size(&a.1) + j][lane] = y.next().unwrap();
                    }
                }
            }
        }
        self.mems.append(&mut new);
        let mut n = base;
        for (j, (kind, s)) in k.args.iter().enumerate() {
            if kind.is_out() {
                let mut sh = vec![par];
                sh.extend(s);
                let h = Handle::new(n, sh);
                n += 1;
                self.hs.push(h.clone());
                c.outs[j] = Some(h);
            }
        }
        self.calls.push(c);
    }
    pub fn step(&mut self, pipe: &Pipe, s: &Step) {
        match s {
            Step::Up(sh, tag) => {
                let n = size(sh);
                // the plain copies put one value into all lanes
                let same = tag % 2 == 0;
                self.mems.push((0..n).map(|i| std::array::from_fn(|l| value(*tag, i, if same { 0 } else { l }))).collect());
                let h = Handle::new(self.mems.len() - 1, sh.clone());
                self.hs.push(h);
            }
            Step::View(h, v) => {
                let h = self.hs[*h].view(v);
                self.hs.push(h)
            }
            Step::Call(k, par, hs) => self.call(pipe, *k, *par, hs),
        }
    }
    /// Whether one layout of every memory serves all its uses (dimensions padded separately).
    pub fn layable(&self) -> bool {
        let mut need: Vec<BTreeSet<usize>> = self.mems.iter().map(|m| BTreeSet::from([1, m.len()])).collect();
        let chain = |s: &BTreeSet<usize>| s.iter().zip(s.iter().skip(1)).all(|(a, b)| b % a == 0);
        let uses: Vec<Vec<(&Handle, bool)>> = self
            .calls
            .iter()
            .map(|c| c.ins.iter().flatten().map(|(h, b)| (h, *b)).chain(c.outs.iter().flatten().map(|h| (h, false))).collect())
            .collect();
        for u in &uses {
            for (h, b) in u {
                match rt::guard(|| h.hist.get_initial_split_list(!b)) {
                    Ok(l) => need[h.mem].extend(l),
                    Err(_) => return false,
                }
                if !chain(&need[h.mem]) {
                    return false;
                }
            }
        }
        loop {
            let before: usize = need.iter().map(|s| s.len()).sum();
            for (c, u) in self.calls.iter().zip(&uses) {
                // the parallel dimension of all arguments must be cut the same way
                let mut cuts = BTreeSet::new();
                for (h, b) in u {
                    if !b {
                        let l: Vec<usize> = need[h.mem].iter().cloned().collect();
                        let shape: Vec<usize> = l.iter().zip(l.iter().skip(1)).map(|(a, b)| b / a).collect();
                        let (ts, _) = h.hist.get_transposed_shape_and_bit_order(&shape);
                        let mut p = 1;
                        for d in ts {
                            p *= d;
                            if p < c.par {
                                cuts.insert(p);
                            }
                        }
                    }
                }
                for (h, b) in u {
                    for x in &cuts {
                        if !b {
                            let n = h.pos.len();
                            match rt::guard(|| h.hist.reshape(&[*x, n / x]).get_initial_split_list(true)) {
                                Ok(l) if c.par % x == 0 => need[h.mem].extend(l),
                                _ => return false,
                            }
                            if !chain(&need[h.mem]) {
                                return false;
                            }
                        }
                    }
                }
            }
            if need.iter().map(|s| s.len()).sum::<usize>() == before {
                return true;
            }
        }
    }
    /// Do the assertions of this call hold?
    pub fn works(&self, pipe: &Pipe, c: &Call, mems: &[Vec<V>]) -> bool {
        (0..c.par).all(|i| (0..LANES).all(|l| Self::instance(&pipe.kerns[c.kern], c, mems, i, l).1))
    }
    /// Does every call's relation hold on these memories?
    pub fn satisfied(&self, pipe: &Pipe, mems: &[Vec<V>]) -> bool {
        self.calls.iter().all(|c| {
            let k = &pipe.kerns[c.kern];
            (0..c.par).all(|i| {
                (0..LANES).all(|l| {
                    let (y, ok) = Self::instance(k, c, mems, i, l);
                    let mut y = y.into_iter();
                    ok && c.outs.iter().zip(&k.args).all(|(h, a)| match h {
                        None => true,
                        Some(h) => (0..size(&a.1)).all(|j| mems[h.mem][h.pos[i * size(&a.1) + j]][l] == y.next().unwrap()),
                    })
                })
            })
        })
    }
}

// ---------------------------------------------------------------------------------- the real side

type V1<T> = Vec<T>;
type V2<T> = Vec<Vec<T>>;
type V3<T> = Vec<Vec<Vec<T>>>;
type V4<T> = Vec<Vec<Vec<Vec<T>>>>;
fn n1<T: Clone>(v: &[T], s: &[usize]) -> V1<T> {
    assert_eq!(v.len(), s[0]);
    v.to_vec()
}
macro_rules! nest {
    ($f:ident, $g:ident, $t:ident) => {
        fn $f<T: Clone>(v: &[T], s: &[usize]) -> $t<T> {
            v.chunks(v.len() / s[0]).map(|c| $g(c, &s[1..])).collect()
        }
    };
}
nest!(n2, n1, V2);
nest!(n3, n2, V3);
nest!(n4, n3, V4);
macro_rules! flat {
    ($v:expr, 1) => {
        $v
    };
    ($v:expr, 2) => {
        $v.into_iter().flatten().collect()
    };
    ($v:expr, 3) => {
        $v.into_iter().flatten().flatten().collect()
    };
    ($v:expr, 4) => {
        $v.into_iter().flatten().flatten().flatten().collect()
    };
}
pub type Ctx = Context<C, HintRegistry<F>>;
pub fn upload(ctx: &mut Ctx, shape: &[usize], v: &[V], tag: u64) -> DeviceMemoryHandle {
    if tag % 2 == 0 {
        let v: Vec<F> = v.iter().map(|x| F::from(x[0] as u32)).collect();
        return match shape.len() {
            0 => ctx.copy_to_device(&v[0]),
            1 => ctx.copy_to_device(&n1(&v, shape)),
            2 => ctx.copy_to_device(&n2(&v, shape)),
            3 => ctx.copy_to_device(&n3(&v, shape)),
            _ => ctx.copy_to_device(&n4(&v, shape)),
        };
    }
    if tag % 4 == 1 && shape.len() < 4 {
        let w: Vec<F> = (0..LANES).flat_map(|l| v.iter().map(move |x| F::from(x[l] as u32))).collect();
        let mut s = vec![LANES];
        s.extend(shape);
        return match shape.len() {
            0 => ctx.copy_to_device_and_pack_simd(&n1(&w, &s)),
            1 => ctx.copy_to_device_and_pack_simd(&n2(&w, &s)),
            2 => ctx.copy_to_device_and_pack_simd(&n3(&w, &s)),
            _ => ctx.copy_to_device_and_pack_simd(&n4(&w, &s)),
        };
    }
    let v: Vec<S> = v.iter().map(pack).collect();
    match shape.len() {
        0 => ctx.copy_simd_to_device(&v[0]),
        1 => ctx.copy_simd_to_device(&n1(&v, shape)),
        2 if tag % 8 == 3 => ctx.copy_flat_simd_to_device(v, shape[1]),
        2 => ctx.copy_simd_to_device(&n2(&v, shape)),
        3 => ctx.copy_simd_to_device(&n3(&v, shape)),
        _ => ctx.copy_simd_to_device(&n4(&v, shape)),
    }
}
fn down1<X: VecShaped<S> + Default>(ctx: &Ctx, h: &DeviceMemoryHandle) -> X {
    ctx.copy_simd_to_host(h.clone())
}
/// All lanes, by each of the ways of copying back.
pub fn download(ctx: &Ctx, h: &DeviceMemoryHandle, dims: usize) -> Result<Vec<V>, String> {
    let all: Vec<S> = match dims {
        0 => vec![down1::<S>(ctx, h)],
        1 => flat!(down1::<V1<S>>(ctx, h), 1),
        2 => flat!(down1::<V2<S>>(ctx, h), 2),
        3 => flat!(down1::<V3<S>>(ctx, h), 3),
        _ => flat!(down1::<V4<S>>(ctx, h), 4),
    };
    let all: Vec<V> = all.iter().map(unpack).collect();
    let one: Vec<F> = match dims {
        0 => vec![ctx.copy_to_host::<F>(h.clone())],
        1 => flat!(ctx.copy_to_host::<V1<F>>(h.clone()), 1),
        2 => flat!(ctx.copy_to_host::<V2<F>>(h.clone()), 2),
        3 => flat!(ctx.copy_to_host::<V3<F>>(h.clone()), 3),
        _ => flat!(ctx.copy_to_host::<V4<F>>(h.clone()), 4),
    };
    let one: Vec<u64> = one.iter().map(fu).collect();
    if one != all.iter().map(|v| v[0]).collect::<Vec<_>>() {
        return Err(format!("copy_to_host gives {one:?}, copy_simd_to_host {all:?}"));
    }
    if dims < 4 {
        let un: Vec<F> = match dims {
            0 => flat!(ctx.copy_to_host_and_unpack_simd::<V1<F>>(h.clone()), 1),
            1 => flat!(ctx.copy_to_host_and_unpack_simd::<V2<F>>(h.clone()), 2),
            2 => flat!(ctx.copy_to_host_and_unpack_simd::<V3<F>>(h.clone()), 3),
            _ => flat!(ctx.copy_to_host_and_unpack_simd::<V4<F>>(h.clone()), 4),
        };
        let un: Vec<u64> = un.iter().map(fu).collect();
        let want: Vec<u64> = (0..LANES).flat_map(|l| all.iter().map(move |v| v[l])).collect();
        if un != want {
            return Err(format!("copy_to_host_and_unpack_simd gives {un:?}, copy_simd_to_host {all:?}"));
        }
    }
    Ok(all)
}
/// The shape of data copied back without knowing it: its nesting.
pub struct Real {
    pub ctx: Ctx,
    pub hs: Vec<DeviceMemoryHandle>,
    pub prims: Vec<Arc<KernelPrimitive<C>>>,
}
impl Real {
    pub fn new(pipe: &Pipe) -> Result<Self, String> {
        let prims = pipe.kerns.iter().map(|k| k.get()).collect::<Result<_, _>>()?;
        Ok(Real { ctx: Context::new(hints()), hs: vec![], prims })
    }
    /// Err: refused by panic or error, or what is wrong ("!...").
    pub fn step(&mut self, pipe: &Pipe, s: &Step, m: &Model) -> Result<(), String> {
        match s {
            Step::Up(sh, tag) => {
                let h = upload(&mut self.ctx, sh, m.mems.last().unwrap(), *tag);
                self.hs.push(h);
            }
            Step::View(h, View::Reshape(s)) => self.hs.push(self.hs[*h].reshape(s)),
            Step::View(h, View::Transpose(a)) => self.hs.push(self.hs[*h].transpose(a)),
            Step::Call(k, par, hs) => {
                let kern = &pipe.kerns[*k];
                let mut it = hs.iter();
                let mut ios: Vec<DeviceMemoryHandle> = kern.args.iter().map(|a| if a.0.is_in() { self.hs[*it.next().unwrap()].clone() } else { None }).collect();
                match self.ctx.call_kernel(&self.prims[*k], *par, &mut ios) {
                    Ok(()) => {}
                    Err(e) => return Err(format!("{e:?}")),
                }
                for (a, h) in kern.args.iter().zip(ios) {
                    if a.0.is_out() != h.is_some() {
                        return Err(format!("!handles after the call of {kern:?}"));
                    }
                    if h.is_some() {
                        self.hs.push(h);
                    }
                }
            }
        }
        Ok(())
    }
}

pub struct Done {
    pub model: Model,
    pub real: Real,
    pub graph: ComputationGraph<C>,
}
pub fn prove(g: &ComputationGraph<C>, mems: &[Vec<S>]) -> Result<CombinedProof<C, Dummy>, String> {
    rt::guard(|| <Dummy as ProvingSystem<C>>::prove(&(), g, mems.to_vec()))
}
pub fn verify(g: &ComputationGraph<C>, p: &CombinedProof<C, Dummy>) -> Result<bool, String> {
    rt::guard(|| <Dummy as ProvingSystem<C>>::verify(&(), g, p))
}
pub fn commit(v: &[S]) -> <Dummy as KernelWiseProvingSystem<C>>::Commitment {
    <Dummy as KernelWiseProvingSystem<C>>::commit(&(), v).0
}
