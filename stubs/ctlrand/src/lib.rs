//! The real `rand`, except that `thread_rng()` is a generator the explorer controls:
//! it answers from a queue set by the harness and continues with a fixed deterministic stream.
pub use real::*;
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static Q: RefCell<(VecDeque<u64>, u64, u64)> = const { RefCell::new((VecDeque::new(), 0x1234_5678_9abc_def1, 0)) };
}

/// Sets the next draws of this thread's generator and the seed of the stream that follows them.
pub fn control(draws: &[u64], seed: u64) {
    Q.with(|q| {
        let mut q = q.borrow_mut();
        q.0 = draws.iter().copied().collect();
        q.1 = seed;
        q.2 = 0;
    })
}

/// Number of 64-bit draws taken since `control`.
pub fn draws_taken() -> u64 {
    Q.with(|q| q.borrow().2)
}

fn next() -> u64 {
    Q.with(|q| {
        let mut q = q.borrow_mut();
        q.2 += 1;
        if let Some(x) = q.0.pop_front() {
            return x;
        }
        q.1 = q.1.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = q.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    })
}

#[derive(Clone, Debug, Default)]
pub struct ControlledRng;
impl RngCore for ControlledRng {
    fn next_u32(&mut self) -> u32 {
        next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for ControlledRng {}

pub fn thread_rng() -> ControlledRng {
    ControlledRng
}
