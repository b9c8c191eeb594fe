use crate::field::*;
use crate::fr::Fr;
use serdes::ExpSerde;
use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;

pub trait FieldEngine:
    Default + Debug + Clone + Copy + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static
{
    type CircuitField: Field + Send;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField> + Send;
    type ChallengeField: Field + Send;
}
pub trait GKREngine: Send + Sync {
    type FieldConfig: FieldEngine;
}

macro_rules! engines {
    ($($fe:ident, $c:ty, $s:ty, [$($g:ident),*];)*) => {$(
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $fe;
        impl FieldEngine for $fe {
            type CircuitField = $c;
            type SimdCircuitField = $s;
            type ChallengeField = $c;
        }
        $(
            #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
            pub struct $g<'a>(PhantomData<&'a ()>);
            impl GKREngine for $g<'_> {
                type FieldConfig = $fe;
            }
        )*
    )*};
}
engines! {
    M31x16Config, M31, M31x16, [M31x16ConfigSha2OrionVanilla, M31x16ConfigSha2RawVanilla];
    BN254FieldConfig, Fr, Fr, [BN254ConfigMIMC5Raw];
    GF2ExtConfig, GF2, GF2x8, [GF2ExtConfigSha2Raw];
    Goldilocksx8Config, Goldilocks, Goldilocksx8, [Goldilocksx8ConfigSha2Raw];
    BabyBearx16Config, BabyBear, BabyBearx16, [BabyBearx16ConfigSha2Raw];
}

pub trait MPISharedMemory {
    fn bytes_size(&self) -> usize;
    fn to_memory(&self, ptr: &mut *mut u8);
    fn new_from_memory(ptr: &mut *mut u8) -> Self;
    fn discard_control_of_shared_mem(self);
}
impl MPISharedMemory for usize {
    fn bytes_size(&self) -> usize {
        std::mem::size_of::<usize>()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        unsafe {
            (*ptr as *mut usize).write_unaligned(*self);
            *ptr = ptr.add(std::mem::size_of::<usize>());
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        unsafe {
            let v = (*ptr as *mut usize).read_unaligned();
            *ptr = ptr.add(std::mem::size_of::<usize>());
            v
        }
    }
    fn discard_control_of_shared_mem(self) {}
}
/// Byte copy of the elements behind a length prefix.
impl<T: Clone> MPISharedMemory for Vec<T> {
    fn bytes_size(&self) -> usize {
        std::mem::size_of::<usize>() + std::mem::size_of_val(self.as_slice())
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.len().to_memory(ptr);
        let n = std::mem::size_of_val(self.as_slice());
        unsafe {
            std::ptr::copy_nonoverlapping(self.as_ptr() as *const u8, *ptr, n);
            *ptr = ptr.add(n);
        }
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let len = usize::new_from_memory(ptr);
        let mut v = Vec::<T>::with_capacity(len);
        let n = len * std::mem::size_of::<T>();
        unsafe {
            std::ptr::copy_nonoverlapping(*ptr as *const u8, v.as_mut_ptr() as *mut u8, n);
            v.set_len(len);
            *ptr = ptr.add(n);
        }
        v
    }
    fn discard_control_of_shared_mem(self) {
        std::mem::forget(self)
    }
}
impl<A: MPISharedMemory, B: MPISharedMemory> MPISharedMemory for (A, B) {
    fn bytes_size(&self) -> usize {
        self.0.bytes_size() + self.1.bytes_size()
    }
    fn to_memory(&self, ptr: &mut *mut u8) {
        self.0.to_memory(ptr);
        self.1.to_memory(ptr);
    }
    fn new_from_memory(ptr: &mut *mut u8) -> Self {
        let a = A::new_from_memory(ptr);
        let b = B::new_from_memory(ptr);
        (a, b)
    }
    fn discard_control_of_shared_mem(self) {
        self.0.discard_control_of_shared_mem();
        self.1.discard_control_of_shared_mem();
    }
}
#[allow(dead_code)]
fn _assert_serde<T: ExpSerde>() {}

#[derive(Debug, Clone)]
pub struct MPIConfig {
    pub prover: bool,
    pub size: i32,
}
impl MPIConfig {
    pub fn prover_new(_: Option<()>, _: Option<()>) -> Self {
        MPIConfig { prover: true, size: 1 }
    }
    pub fn verifier_new(n: i32) -> Self {
        MPIConfig { prover: false, size: n }
    }
}
