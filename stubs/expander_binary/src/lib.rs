//! Stand-in prover: the proof is the whole input, the claim whether some output fails to be zero.
pub mod executor {
    use serdes::ExpSerde;
    use xcore::circuit::Circuit;
    use xcore::engine::{FieldEngine, GKREngine, MPIConfig};
    use xcore::field::SimdField;
    type Chal<C> = <<C as GKREngine>::FieldConfig as FieldEngine>::ChallengeField;
    #[derive(Clone, Debug, PartialEq)]
    pub struct Proof(pub Vec<u8>);
    fn claim<E: FieldEngine>(c: &Circuit<E>) -> Vec<E::CircuitField> {
        let out = c.values(7).pop().unwrap();
        out[..c.expected_num_output_zeros].iter().flat_map(|x| x.unpack()).collect()
    }
    pub fn prove<C: GKREngine>(c: &mut Circuit<C::FieldConfig>, m: MPIConfig) -> (Chal<C>, Proof) {
        assert!(m.prover);
        for (l, v) in c.layers.iter().zip(c.values(7)) {
            assert!(l.input_vals == v, "the circuit was not evaluated");
        }
        let mut b = vec![];
        for x in &c.layers[0].input_vals {
            x.serialize_into(&mut b).unwrap();
        }
        let bad = claim(c).iter().filter(|x| **x != Default::default()).count();
        (Chal::<C>::from((bad > 0) as u32), Proof(b))
    }
    pub fn verify<C: GKREngine>(c: &mut Circuit<C::FieldConfig>, m: MPIConfig, p: &Proof, v: &Chal<C>) -> bool {
        assert!(!m.prover && m.size == 1);
        let mut r = &p.0[..];
        let mut c = c.clone();
        for x in c.layers[0].input_vals.iter_mut() {
            match ExpSerde::deserialize_from(&mut r) {
                Ok(y) => *x = y,
                Err(_) => return false,
            }
        }
        let z = claim(&c);
        r.is_empty() && z.iter().all(|x| *x == Default::default()) && *v == Default::default()
    }
    pub fn dump_proof_and_claimed_v<F: ExpSerde>(p: &Proof, v: &F) -> Result<Vec<u8>, String> {
        let mut b = vec![];
        v.serialize_into(&mut b).map_err(|_| "claim".to_string())?;
        b.extend_from_slice(&p.0);
        Ok(b)
    }
    pub fn load_proof_and_claimed_v<F: ExpSerde>(mut b: &[u8]) -> Result<(Proof, F), String> {
        let v = F::deserialize_from(&mut b).map_err(|_| "claim".to_string())?;
        Ok((Proof(b.to_vec()), v))
    }
}
