//! Circuits with every small nesting of fields (C13), behind one type.
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::internal::*;
use expander_compiler::frontend::*;

type M = M31;

/// Numbers the leaves and chooses the lengths of vectors, one choice after another.
pub struct Choice {
    pub next: usize,
    pub from: usize,
    pub picks: Vec<usize>,
    pub at: usize,
    pub max: usize,
}
impl Choice {
    fn len(&mut self) -> usize {
        if self.at == self.picks.len() {
            self.picks.push(0);
        }
        self.at += 1;
        self.picks[self.at - 1]
    }
    pub fn restart(&mut self, from: usize) {
        self.at = 0;
        self.next = from;
        self.from = from;
    }
    /// the next combination of lengths
    pub fn advance(&mut self) -> bool {
        while let Some(l) = self.picks.pop() {
            if l < self.max {
                self.picks.push(l + 1);
                return true;
            }
        }
        false
    }
}
pub trait Elem: Copy {
    fn num(n: usize) -> Self;
    fn id(&self) -> usize;
}
impl Elem for Variable {
    fn num(n: usize) -> Self {
        Variable::from(n)
    }
    fn id(&self) -> usize {
        Variable::id(self)
    }
}
impl Elem for M {
    fn num(n: usize) -> Self {
        M::from(n as u32)
    }
    fn id(&self) -> usize {
        self.to_u256().as_usize()
    }
}
pub trait Leaf<T> {
    fn fill(n: &mut Choice) -> Self;
    fn flat(&self, v: &mut Vec<T>);
}
macro_rules! leaf {
    ($t:ty) => {
        impl Leaf<$t> for $t {
            fn fill(n: &mut Choice) -> Self {
                n.next += 1;
                <$t>::num(n.next - 1)
            }
            fn flat(&self, v: &mut Vec<$t>) {
                v.push(*self)
            }
        }
        impl Leaf<$t> for usize {
            fn fill(n: &mut Choice) -> Self {
                n.from
            }
            fn flat(&self, _: &mut Vec<$t>) {}
        }
    };
}
leaf!(Variable);
leaf!(M);
impl<T, X: Leaf<T>, const N: usize> Leaf<T> for [X; N] {
    fn fill(n: &mut Choice) -> Self {
        std::array::from_fn(|_| X::fill(n))
    }
    fn flat(&self, v: &mut Vec<T>) {
        for x in self {
            x.flat(v);
        }
    }
}
impl<T, X: Leaf<T>> Leaf<T> for Vec<X> {
    fn fill(n: &mut Choice) -> Self {
        let l = n.len();
        (0..l).map(|_| X::fill(n)).collect()
    }
    fn flat(&self, v: &mut Vec<T>) {
        for x in self {
            x.flat(v);
        }
    }
}
pub trait Cir<T>: Sized {
    fn make(n: &mut Choice) -> Self;
    fn split(&self, s: &mut Vec<T>, p: &mut Vec<T>);
    fn all(&self, v: &mut Vec<T>);
}
/// A declared circuit behind a pointer, so that everything else is compiled once.
pub trait Obj<T>: Send + Sync {
    fn split(&self, s: &mut Vec<T>, p: &mut Vec<T>);
    fn all(&self, v: &mut Vec<T>);
    fn dump(&self, vars: &mut Vec<T>, public_vars: &mut Vec<T>);
    fn load(&mut self, vars: &mut &[T], public_vars: &mut &[T]);
    fn count(&self) -> (usize, usize);
    fn copy(&self) -> Box<dyn Obj<T>>;
}
impl<T: Elem, X: Cir<T> + DumpLoadTwoVariables<T> + Clone + Send + Sync + 'static> Obj<T> for X {
    fn split(&self, s: &mut Vec<T>, p: &mut Vec<T>) {
        Cir::split(self, s, p)
    }
    fn all(&self, v: &mut Vec<T>) {
        Cir::all(self, v)
    }
    fn dump(&self, vars: &mut Vec<T>, public_vars: &mut Vec<T>) {
        self.dump_into(vars, public_vars)
    }
    fn load(&mut self, vars: &mut &[T], public_vars: &mut &[T]) {
        self.load_from(vars, public_vars)
    }
    fn count(&self) -> (usize, usize) {
        self.num_vars()
    }
    fn copy(&self) -> Box<dyn Obj<T>> {
        Box::new(self.clone())
    }
}
pub struct Dyn<T>(pub Box<dyn Obj<T>>);
impl<T> Clone for Dyn<T> {
    fn clone(&self) -> Self {
        Dyn(self.0.copy())
    }
}
impl<T: Clone> DumpLoadTwoVariables<T> for Dyn<T> {
    fn dump_into(&self, vars: &mut Vec<T>, public_vars: &mut Vec<T>) {
        self.0.dump(vars, public_vars)
    }
    fn load_from(&mut self, vars: &mut &[T], public_vars: &mut &[T]) {
        self.0.load(vars, public_vars)
    }
    fn num_vars(&self) -> (usize, usize) {
        self.0.count()
    }
}
impl<C: Config> Define<C> for Dyn<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let mut v = vec![];
        self.0.all(&mut v);
        let outs = v.iter().map(|x| api.add(x, 1)).collect();
        api.set_outputs(outs);
    }
}

#[allow(clippy::all)]
#[allow(unused_variables)]
pub mod gen {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/decl.rs"));
}

