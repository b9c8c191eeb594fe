//! Runs a gadget of the circuit library: directly (debug builder) and compiled.
use crate::rt;
use expander_compiler::circuit::layered::NormalInputType;
use expander_compiler::frontend::extra::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;

pub type F<C> = CircuitField<C>;

/// A piece of circuit: private inputs in, outputs out; asserts whatever it asserts.
pub trait Gadget<C: Config>: Clone + 'static {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable>;
}

#[derive(Clone)]
struct Cir<G> {
    g: G,
    x: Vec<Variable>,
}
impl<G> DumpLoadTwoVariables<Variable> for Cir<G> {
    fn dump_into(&self, vars: &mut Vec<Variable>, _p: &mut Vec<Variable>) {
        vars.extend(&self.x);
    }
    fn load_from(&mut self, vars: &mut &[Variable], _p: &mut &[Variable]) {
        let n = self.x.len();
        self.x = vars[..n].to_vec();
        *vars = &vars[n..];
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.x.len(), 0)
    }
}
impl<C: Config, G: Gadget<C>> Define<C> for Cir<G> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let o = self.g.run(api, &self.x);
        api.set_outputs(o);
    }
}

/// What a run came to: its outputs, or why it was turned down.
pub type Res<C> = Result<Vec<F<C>>, String>;

pub fn debug<C: Config, G: Gadget<C>, H: HintCaller<F<C>> + 'static>(g: &G, x: &[F<C>], h: H) -> Res<C> {
    rt::evals(1);
    rt::guard(|| {
        let (mut b, xs, _) = DebugBuilder::<C, H>::new(x.to_vec(), vec![], h);
        let o = g.run(&mut b, &xs);
        o.iter().map(|v| b.constant_value(*v).unwrap()).collect()
    })
}

pub struct Comp<C: Config> {
    pub solver: WitnessSolver<C>,
    pub lc: expander_compiler::circuit::layered::Circuit<C, NormalInputType>,
}
pub fn compiled<C: Config, G: Gadget<C>>(g: &G, n_in: usize) -> Result<Comp<C>, String> {
    let cir = Cir { g: g.clone(), x: vec![Variable::default(); n_in] };
    match rt::guard(|| compile::<C, _>(&cir, CompileOptions::default())) {
        Ok(Ok(r)) => Ok(Comp { solver: r.witness_solver, lc: r.layered_circuit }),
        Ok(Err(e)) => Err(format!("refused: {e:?}")),
        Err(e) => Err(format!("panic: {e}")),
    }
}
impl<C: Config> Comp<C> {
    /// Outputs of the satisfied circuit, or why it is not satisfied.
    pub fn eval<H: HintCaller<F<C>>>(&self, x: &[F<C>], h: &H) -> Res<C> {
        rt::evals(1);
        rt::traces(1);
        let w = match rt::guard(|| self.solver.solve_witness_from_raw_inputs(x.to_vec(), vec![], h)) {
            Ok(Ok(w)) => w,
            Ok(Err(e)) => return Err(format!("no witness: {e:?}")),
            Err(e) => return Err(format!("no witness (panic): {e}")),
        };
        let (ok, out) = rt::guard(|| self.lc.run_with_output(&w))?;
        if ok != [true] {
            return Err("assertion failed".into());
        }
        Ok(out.into_iter().next().unwrap_or_default())
    }
}

/// Owns the challenges drawn on this thread.
pub fn challenges(v: &[u64]) {
    let mut q: std::collections::VecDeque<u64> = v.iter().copied().collect();
    xcore::field::RANDOM_HOOK.with(|h| *h.borrow_mut() = Some(Box::new(move || q.pop_front().unwrap_or(7))));
}
pub fn free_challenges() {
    xcore::field::RANDOM_HOOK.with(|h| *h.borrow_mut() = None);
}

/// Answers like `inner`, except for one output of one call, which is off by `delta`.
pub struct Lie<T: Field, H> {
    pub inner: H,
    pub at: usize,
    pub out: usize,
    pub delta: T,
    pub n: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    /// (number of calls, outputs of each)
    pub seen: std::sync::Arc<std::sync::Mutex<Vec<usize>>>,
}
impl<T: Field, H> Lie<T, H> {
    pub fn new(inner: H, at: usize, out: usize, delta: T) -> Self {
        Lie { inner, at, out, delta, n: Default::default(), seen: Default::default() }
    }
}
impl<T: Field + 'static, H: HintCaller<T>> HintCaller<T> for Lie<T, H> {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, Error> {
        let mut r = self.inner.call(id, args, n)?;
        self.seen.lock().unwrap().push(r.len());
        if self.n.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == self.at {
            r[self.out] += self.delta;
        }
        Ok(r)
    }
}
