//! Kernels declared with #[kernel], with every small argument type, and calls of them (C15).
#![allow(unused_mut, unused_variables)]
#[path = "../../mc/src/cfgs.rs"]
pub mod cfgs;
pub use cfgs::*;
use expander_compiler::frontend::*;
use expander_compiler::zkcuda::context::{call_kernel, Context, DeviceMemoryHandle};
use expander_compiler::zkcuda::kernel::*;

pub const N: usize = 2;
pub type Entry = (Vec<(&'static str, Vec<usize>)>, fn() -> Result<KernelPrimitive<C16n>, Error>);

fn size(s: &[usize]) -> usize {
    s.iter().product()
}
fn coef(i: usize, j: usize) -> u64 {
    1 + ((i as u64 + 2) * (j as u64 + 3)) % 7
}
/// as in mc/src/zk.rs
fn poly<C: Config>(api: &mut API<C>, x: &[Variable], m: usize) -> Vec<Variable> {
    (0..m)
        .map(|j| {
            let mut r = api.constant(j as u32 + 1);
            for (i, v) in x.iter().enumerate() {
                let t = api.mul(*v, coef(i, j) as u32);
                r = api.add(r, t);
            }
            if !x.is_empty() {
                let t = api.mul(x[j % x.len()], x[(j + 1) % x.len()]);
                r = api.add(r, t);
            }
            r
        })
        .collect()
}
trait Nest {
    fn flat(&self, x: &mut Vec<Variable>);
    fn fill<I: Iterator<Item = Variable>>(&mut self, y: &mut I);
}
impl Nest for Variable {
    fn flat(&self, x: &mut Vec<Variable>) {
        x.push(*self)
    }
    fn fill<I: Iterator<Item = Variable>>(&mut self, y: &mut I) {
        *self = y.next().unwrap()
    }
}
impl<T: Nest> Nest for Vec<T> {
    fn flat(&self, x: &mut Vec<Variable>) {
        self.iter().for_each(|t| t.flat(x))
    }
    fn fill<I: Iterator<Item = Variable>>(&mut self, y: &mut I) {
        self.iter_mut().for_each(|t| t.fill(y))
    }
}
include!(concat!(env!("OUT_DIR"), "/kernels.rs"));
