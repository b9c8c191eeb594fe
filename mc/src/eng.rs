//! Compiles programs with the real compiler and enumerates the behaviour of the result.
use crate::lay::{self, Lay};
use crate::prog::{self, Honest, Prog, Small, Stop};
use crate::rt;
use expander_compiler::circuit::ir::hint_normalized::witness_solver::WitnessSolver;
use expander_compiler::circuit::layered::{self, InputType};
use expander_compiler::compile::compile_with_options;
use expander_compiler::field::FieldArith;
use expander_compiler::hints::registry::HintCaller;
use expander_compiler::utils::error::Error;
use expander_compiler::circuit::config::CircuitField;
use std::collections::HashSet;

pub use crate::opts::*;

pub struct Comp<C: Small, I: InputType> {
    pub solver: WitnessSolver<C>,
    pub lc: layered::Circuit<C, I>,
    pub lay: Lay,
    /// per witness slot: the source input it carries, None if it is a free value
    pub slot: Vec<Option<usize>>,
    pub read: Vec<bool>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    Refused(String),
    Panic(String),
    Bad(String),
}

pub fn compile<C: Small, I: InputType>(pr: &Prog, o: Opt) -> Result<Comp<C, I>, Fail> {
    let ir = pr.ir::<C>();
    let r = rt::guard(|| compile_with_options::<C, I>(&ir, o.real())).map_err(Fail::Panic)?;
    let (hn, lc) = r.map_err(|e| Fail::Refused(format!("{e:?}")))?;
    let lay = lay::flatten(&lc).map_err(Fail::Bad)?;
    let root = &hn.circuits[&0];
    let slot: Vec<Option<usize>> =
        root.outputs.iter().map(|v| if *v <= root.num_inputs { Some(v - 1) } else { None }).collect();
    if slot.len() != lay.n_in {
        return Err(Fail::Bad(format!("witness solver yields {} values, circuit takes {}", slot.len(), lay.n_in)));
    }
    if root.num_inputs != pr.root().n_in {
        return Err(Fail::Bad(format!("witness solver takes {} inputs, program has {}", root.num_inputs, pr.root().n_in)));
    }
    let read = lay.read_slots();
    Ok(Comp { solver: WitnessSolver { circuit: hn }, lc, lay, slot, read })
}

/// Three bits per digit; 7 marks "any".
pub fn enc(x: &[u32], outs: &[u32]) -> u128 {
    let mut r = 1u128;
    for v in x.iter().chain(outs) {
        r = r << 3 | *v as u128;
    }
    r
}
pub fn mask(x: &[u32], known: &[bool]) -> Vec<u32> {
    x.iter().zip(known).map(|(v, k)| if *k { *v } else { 7 }).collect()
}

impl<C: Small, I: InputType> Comp<C, I> {
    /// Source inputs some gate reads through some slot.
    pub fn known_inputs(&self, n_in: usize) -> Vec<bool> {
        let mut k = vec![false; n_in];
        for (s, r) in self.slot.iter().zip(&self.read) {
            if let (Some(i), true) = (s, r) {
                k[*i] = true;
            }
        }
        k
    }

    /// Enumerates witnesses (all assignments of the slots that are read when there are at most
    /// `cap`, otherwise assignments differing from base witnesses in at most two slots) and calls
    /// f(witness, evaluation).
    pub fn witnesses(&self, cap: u64, bases: &[Vec<u32>], mut f: impl FnMut(&[u32])) -> bool {
        let p = C::P;
        let rd: Vec<usize> = (0..self.lay.n_in).filter(|i| self.read[*i]).collect();
        let mut v = vec![0u32; self.lay.n_in];
        let total = (p as u64).checked_pow(rd.len() as u32).unwrap_or(u64::MAX);
        if total <= cap {
            for mut k in 0..total {
                for i in &rd {
                    v[*i] = (k % p as u64) as u32;
                    k /= p as u64;
                }
                f(&v);
            }
            return true;
        }
        for b in bases {
            v.copy_from_slice(b);
            f(&v);
            for (a, i) in rd.iter().enumerate() {
                for d in 1..p {
                    v[*i] = (b[*i] + d) % p;
                    f(&v);
                    for j in &rd[a + 1..] {
                        for e in 1..p {
                            v[*j] = (b[*j] + e) % p;
                            f(&v);
                        }
                        v[*j] = b[*j];
                    }
                }
                v[*i] = b[*i];
            }
        }
        false
    }

    /// Source inputs carried by a witness (7 = not carried); Err if two slots disagree.
    pub fn carried(&self, v: &[u32], n_in: usize) -> Result<Vec<u32>, ()> {
        let mut x = vec![7; n_in];
        for (k, s) in self.slot.iter().enumerate() {
            if !self.read[k] {
                continue;
            }
            if let Some(i) = s {
                if x[*i] != 7 && x[*i] != v[k] {
                    return Err(());
                }
                x[*i] = v[k];
            }
        }
        Ok(x)
    }

    pub fn solve(&self, x: &[u32], pubs: &[u32], h: impl Fn(usize, &[u32], usize) -> Vec<u32> + Sync + 'static) -> Result<Result<Vec<u32>, String>, String> {
        let hc = Hc::<C, _>(h, Default::default());
        rt::guard(|| {
            self.solver.solve_witness_from_raw_inputs(
                x.iter().map(|v| C::fe(*v)).collect(),
                pubs.iter().map(|v| C::fe(*v)).collect(),
                &hc,
            )
        })
        .map(|r| match r {
            Ok(w) => {
                let (a, b) = w.iter_scalar().next().unwrap();
                debug_assert_eq!(b.len(), pubs.len());
                Ok(a.iter().map(|v| C::un(v)).collect())
            }
            Err(e) => Err(format!("{e:?}")),
        })
    }
}

/// Adapts a plain function to the compiler's hint interface.
pub struct Hc<C, F>(pub F, pub std::marker::PhantomData<fn() -> C>);
impl<C: Small, F: Fn(usize, &[u32], usize) -> Vec<u32> + Sync + 'static> HintCaller<CircuitField<C>> for Hc<C, F> {
    fn call(&self, id: usize, args: &[CircuitField<C>], n: usize) -> Result<Vec<CircuitField<C>>, Error> {
        let a: Vec<u32> = args.iter().map(|x| C::un(x)).collect();
        Ok((self.0)(id, &a, n).into_iter().map(|v| C::fe(v)).collect())
    }
}

/// R as a set of encoded (inputs, outputs).
pub fn relation(pr: &Prog, pubs: &[u32], p: u32, cap: u64) -> Option<HashSet<u128>> {
    prog::relation(pr, pubs, p, cap).map(|r| r.iter().map(|(x, o)| enc(x, o)).collect())
}

pub fn honest(pr: &Prog, x: &[u32], pubs: &[u32], p: u32, h: &dyn Fn(usize, &[u32], usize) -> Vec<u32>) -> Result<Vec<u32>, Stop> {
    prog::run(pr, x, pubs, p, 0, &mut Honest { p, h })
}

pub fn zero_is<C: Small>() -> bool {
    CircuitField::<C>::zero() == C::fe(0)
}
