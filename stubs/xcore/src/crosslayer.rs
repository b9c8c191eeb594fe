use crate::engine::FieldEngine;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimpleGate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CrossLayerRelay<C: FieldEngine> {
    pub i_layer: usize,
    pub i_id: usize,
    pub o_id: usize,
    pub coef: C::CircuitField,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Allocation {
    pub i_offset: Vec<usize>,
    pub o_offset: usize,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CrossLayerSegment<C: FieldEngine> {
    pub input_size: Vec<usize>,
    pub output_size: usize,
    pub child_segs: Vec<(usize, Vec<Allocation>)>,
    pub gate_muls: Vec<SimpleGate<C, 2>>,
    pub gate_adds: Vec<SimpleGate<C, 1>>,
    pub gate_csts: Vec<SimpleGate<C, 0>>,
    pub gate_relay: Vec<CrossLayerRelay<C>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct CrossLayerRecursiveCircuit<C: FieldEngine> {
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
    pub layers: Vec<usize>,
    pub segments: Vec<CrossLayerSegment<C>>,
}
