use crate::engine::FieldEngine;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Gate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<usize>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CircuitLayer<C: FieldEngine> {
    pub input_var_num: usize,
    pub output_var_num: usize,
    pub mul: Vec<GateMul<C>>,
    pub add: Vec<GateAdd<C>>,
    pub const_: Vec<GateConst<C>>,
    pub uni: Vec<GateUni<C>>,
    pub input_vals: Vec<C::SimdCircuitField>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Circuit<C: FieldEngine> {
    pub layers: Vec<CircuitLayer<C>>,
    pub expected_num_output_zeros: usize,
    pub public_input: Vec<C::SimdCircuitField>,
}
impl<C: FieldEngine> RecursiveCircuit<C> {
    fn emit(&self, id: usize, io: usize, oo: usize, l: &mut CircuitLayer<C>) {
        let s = &self.segments[id];
        fn mv<C: FieldEngine, const N: usize>(
            g: &Gate<C, N>,
            io: usize,
            oo: usize,
        ) -> Gate<C, N> {
            let mut g = g.clone();
            for x in g.i_ids.iter_mut() {
                *x += io;
            }
            g.o_id += oo;
            g
        }
        l.mul.extend(s.gate_muls.iter().map(|g| mv(g, io, oo)));
        l.add.extend(s.gate_adds.iter().map(|g| mv(g, io, oo)));
        l.const_.extend(s.gate_consts.iter().map(|g| mv(g, io, oo)));
        l.uni.extend(s.gate_uni.iter().map(|g| mv(g, io, oo)));
        for (c, allocs) in s.child_segs.iter() {
            for a in allocs {
                self.emit(*c, io + a.i_offset, oo + a.o_offset, l);
            }
        }
    }
    pub fn flatten(&self) -> Circuit<C> {
        let layers = self
            .layers
            .iter()
            .map(|&id| {
                let mut l = CircuitLayer {
                    input_var_num: self.segments[id].i_var_num,
                    output_var_num: self.segments[id].o_var_num,
                    mul: vec![],
                    add: vec![],
                    const_: vec![],
                    uni: vec![],
                    input_vals: vec![],
                };
                self.emit(id, 0, 0, &mut l);
                l
            })
            .collect();
        Circuit {
            layers,
            expected_num_output_zeros: self.expected_num_output_zeros,
            public_input: vec![],
        }
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn pre_process_gkr(&mut self) {}
    /// The values of every layer, from the first layer's inputs, and the outputs last.
    pub fn values(&self, challenge: u32) -> Vec<Vec<C::SimdCircuitField>> {
        let mut all = vec![self.layers[0].input_vals.clone()];
        let mut seed = challenge;
        for l in &self.layers {
            let x = all.last().unwrap();
            assert_eq!(x.len(), 1 << l.input_var_num);
            let mut y = vec![C::SimdCircuitField::default(); 1 << l.output_var_num];
            let mut coef = |t: &CoefType, c: &C::CircuitField| match t {
                CoefType::Constant => C::SimdCircuitField::from(*c),
                CoefType::Random => {
                    seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
                    C::SimdCircuitField::from(seed >> 8)
                }
                CoefType::PublicInput(i) => self.public_input[*i],
            };
            for g in &l.const_ {
                y[g.o_id] += coef(&g.coef_type, &g.coef);
            }
            for g in &l.add {
                y[g.o_id] += coef(&g.coef_type, &g.coef) * x[g.i_ids[0]];
            }
            for g in &l.mul {
                y[g.o_id] += coef(&g.coef_type, &g.coef) * x[g.i_ids[0]] * x[g.i_ids[1]];
            }
            assert!(l.uni.is_empty(), "stand-in: no custom gates here");
            all.push(y);
        }
        all
    }
    pub fn evaluate(&mut self) {
        let v = self.values(7);
        for (l, v) in self.layers.iter_mut().zip(v) {
            l.input_vals = v;
        }
    }
    pub fn single_thread_prover_load_circuit<Cfg>(name: &str) -> Self {
        load(name)
    }
    pub fn verifier_load_circuit<Cfg>(name: &str) -> Self {
        load(name)
    }
}

/// The circuit files there are, by name.
pub static FILES: std::sync::Mutex<std::collections::BTreeMap<String, Box<dyn std::any::Any + Send>>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());
pub fn store<C: FieldEngine>(name: &str, c: Circuit<C>) {
    FILES.lock().unwrap().insert(name.to_string(), Box::new(c));
}
fn load<C: FieldEngine>(name: &str) -> Circuit<C> {
    FILES.lock().unwrap()[name].downcast_ref::<Circuit<C>>().expect("a circuit over another field").clone()
}
