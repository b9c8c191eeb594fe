//! C28 the Poseidon gadget and its native counterpart.
use crate::g::*;
use crate::lk::{digits, fe};
use crate::rt::{self, count, distinct, family, par, violation, Level};
use circuit_std_rs::poseidon::{poseidon_m31::PoseidonM31Params, poseidon_u32::PoseidonParams};
use circuit_std_rs::utils::register_hint;
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::*;
use serde_json::json;
use tiny_keccak::{Hasher, Keccak};

type C = M31Config;
type M = F<C>;
const P: u64 = (1 << 31) - 1;

// ---- the reference -------------------------------------------------------------------------
fn keccak(x: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut r = [0; 32];
    k.update(x);
    k.finalize(&mut r);
    r
}
fn first_row(width: usize) -> Vec<u64> {
    use gkr_hashers::poseidon::r#impls::*;
    match width {
        8 => MATRIX_CIRC_MDS_8_SML_ROW.iter().map(|x| *x as u64).collect(),
        12 => MATRIX_CIRC_MDS_12_SML_ROW.iter().map(|x| *x as u64).collect(),
        _ => MATRIX_CIRC_MDS_16_SML_ROW.iter().map(|x| *x as u64).collect(),
    }
}
fn permute(s: &mut [u64], full: usize, partial: usize) {
    let w = s.len();
    let row = first_row(w);
    let mut seed = keccak(format!("poseidon_seed_Mersenne 31_{w}").as_bytes());
    for r in 0..full / 2 * 2 + partial {
        for x in s.iter_mut() {
            seed = keccak(&seed);
            let c = u32::from_le_bytes(seed[..4].try_into().unwrap()) as u64;
            *x = (*x + c) % P;
        }
        let old = s.to_vec();
        for i in 0..w {
            s[i] = (0..w).map(|j| old[j] * row[(i + j) % w] % P).sum::<u64>() % P;
        }
        let all = r < full / 2 || r >= full / 2 + partial;
        for x in s.iter_mut().take(if all { w } else { 1 }) {
            let x2 = *x * *x % P;
            *x = x2 * x2 % P * *x % P;
        }
    }
}
fn sponge(x: &[u64], rate: usize, w: usize, full: usize, partial: usize) -> Vec<u64> {
    let mut s = vec![0u64; w];
    for c in x.chunks(rate) {
        for (i, v) in c.iter().enumerate() {
            let k = w - rate + i;
            s[k] = (s[k] + v) % P;
        }
        permute(&mut s, full, partial);
    }
    s
}

#[derive(Clone, Copy, Debug)]
struct Pos {
    rate: usize,
    width: usize,
    full: usize,
    partial: usize,
    /// 0 one permutation, 1 the sponge, 2 the sponge with copied states
    mode: usize,
}
impl Gadget<C> for Pos {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let p = PoseidonM31Params::new::<C, B>(api, self.rate, self.width, self.full, self.partial);
        match self.mode {
            0 => {
                let mut s = x.to_vec();
                p.permute::<C, B>(api, &mut s);
                s
            }
            1 => p.hash_to_state::<C, B>(api, x),
            _ => p.hash_to_state_flatten::<C, B>(api, x),
        }
    }
}
impl Pos {
    fn want(&self, x: &[u64]) -> Vec<u64> {
        if self.mode == 0 {
            let mut s = x.to_vec();
            permute(&mut s, self.full, self.partial);
            return s;
        }
        sponge(x, self.rate, self.width, self.full, self.partial)
    }
    fn check(&self, x: &[u64], how: &str, got: Res<C>) {
        rt::states(1);
        count(&format!("{} width {}", ["permutation", "sponge", "copying sponge"][self.mode], self.width), 1);
        let want: Vec<M> = self.want(x).iter().map(|v| fe::<C>(*v as u128)).collect();
        if got.as_ref() != Ok(&want) {
            violation(
                &format!("{self:?} {how}"),
                &format!("Poseidon gadget ({how}, {self:?}) differs from the reference"),
                json!({"input": x, "expected": self.want(x), "got": got.map(|v| v.iter().map(|y| y.to_u256().as_u64()).collect::<Vec<_>>())}),
            );
        }
    }
    fn native(&self, x: &[u64]) {
        rt::evals(1);
        let xs: Vec<u32> = x.iter().map(|v| *v as u32).collect();
        let p = *self;
        let want: Vec<u32> = self.want(x).iter().map(|v| *v as u32).collect();
        let got = rt::guard(|| {
            let n = PoseidonParams::new(p.rate, p.width, p.full, p.partial);
            match p.mode {
                0 => {
                    let mut s = xs.clone();
                    n.permute(&mut s);
                    (s, None)
                }
                _ => (n.hash_to_state(&xs), Some(n.hash(&xs))),
            }
        });
        let ok = match &got {
            Ok((s, h)) => *s == want && h.as_ref().map_or(true, |h| h[..] == want[..p.rate]),
            Err(_) => false,
        };
        if !ok {
            violation(
                &format!("{self:?} native"),
                &format!("the native Poseidon ({self:?}) differs from the reference"),
                json!({"input": x, "expected": want, "got": got}),
            );
        }
    }
    fn run_all(&self, x: &[u64]) {
        distinct(&(format!("{self:?}"), x));
        let xs: Vec<M> = x.iter().map(|v| fe::<C>(*v as u128)).collect();
        self.check(x, "direct", debug::<C, _, _>(self, &xs, hints()));
        self.native(x);
    }
}
fn hints() -> HintRegistry<M> {
    let mut h = HintRegistry::new();
    register_hint(&mut h);
    h
}
fn corner(i: usize) -> u64 {
    [0, 1, P - 1, 114514, 1 << 30, 2][i]
}

pub fn c28() -> ! {
    let th = rt::thorough();
    // published vector: eight times 114514, width 16, rate 8, 8 full and 14 partial rounds
    let v = sponge(&[114514; 8], 8, 16, 8, 14);
    assert_eq!(v[..4], [1021105124, 1342990709, 1593716396, 2100280498]);

    family("permutation", || {
        for width in [8, 12, 16] {
            for (full, partial) in [(2, 0), (2, 1), (4, 3), (8, 14), (0, 2), (8, 0)] {
                let p = Pos { rate: width / 2, width, full, partial, mode: 0 };
                let mut cases: Vec<Vec<u64>> = vec![];
                for c in 0..6 {
                    cases.push(vec![corner(c); width]);
                    for at in 0..width {
                        let mut x = vec![0; width];
                        x[at] = corner(c);
                        cases.push(x);
                        let mut x: Vec<u64> = (0..width as u64).map(|i| P - 1 - i * 1000003).collect();
                        x[at] = corner(c);
                        cases.push(x);
                        if th {
                            for b in 0..width {
                                for d in 0..6 {
                                    let mut x = vec![7; width];
                                    x[at] = corner(c);
                                    x[b] = corner(d);
                                    cases.push(x);
                                }
                            }
                        }
                    }
                }
                par(cases.len(), |i| p.run_all(&cases[i]));
            }
        }
    });
    family("sponge", || {
        for width in [8usize, 12, 16] {
            for rate in 1..=width {
                for mode in [1, 2] {
                    let p = Pos { rate, width, full: 4, partial: 2, mode };
                    let top = if th { 3 * rate + 2 } else { (2 * rate + 2).min(20) };
                    par(top + 1, |len| {
                        for c in 0..3 {
                            let x: Vec<u64> = (0..len as u64).map(|i| [i + 1, P - 1 - i, (i * i * 7919 + 13) % P][c]).collect();
                            p.run_all(&x);
                        }
                    });
                }
            }
        }
        // the parameters in use
        for mode in [1, 2] {
            let p = Pos { rate: 8, width: 16, full: 8, partial: 14, mode };
            par(if th { 70 } else { 27 }, |len| {
                let x: Vec<u64> = (0..len as u64).map(|i| P - 1 - i * 65537).collect();
                p.run_all(&x);
            });
            // every short message over three values, one short block and one full one
            let p = Pos { rate: 2, width: 8, full: 2, partial: 1, mode };
            for n in 1..=if th { 6 } else { 4 } {
                par(3usize.pow(n as u32), |i| {
                    let x: Vec<u64> = digits(i, 3, n).iter().map(|d| corner(*d)).collect();
                    p.run_all(&x);
                });
            }
        }
    });
    family("lies", || {
        // a copied state that differs from the state, in any word of any block
        let p = Pos { rate: 2, width: 8, full: 2, partial: 1, mode: 2 };
        for blocks in 1..=3usize {
            let x: Vec<M> = (0..2 * blocks).map(|i| fe::<C>(i as u128 + 3)).collect();
            let com = compiled::<C, _>(&p, x.len());
            par(blocks * p.width * 2, |i| {
                let (at, word, up) = (i / 2 / p.width, i / 2 % p.width, i % 2 == 0);
                let lie = || Lie::new(hints(), at, word, if up { M::from(1u32) } else { -M::from(1u32) });
                distinct(&("lie", blocks, i));
                for (how, got) in [
                    ("direct", debug::<C, _, _>(&p, &x, lie())),
                    ("compiled", com.as_ref().map_err(|e| e.clone()).and_then(|c| c.eval(&x, &lie()))),
                ] {
                    rt::states(1);
                    count("lies", 1);
                    if got.is_ok() {
                        violation(
                            &format!("lie {how}"),
                            &format!("copying sponge ({how}) accepts a copied state with word {word} of block {at} changed"),
                            json!({"blocks": blocks, "block": at, "word": word}),
                        );
                    }
                }
            });
        }
    });
    family("compiled", || {
        let mut ps = vec![];
        for mode in [0, 1, 2] {
            ps.push((Pos { rate: 4, width: 8, full: 4, partial: 3, mode }, if mode == 0 { 8 } else { 9 }));
            ps.push((Pos { rate: 8, width: 16, full: 8, partial: 14, mode }, if mode == 0 { 16 } else { 8 }));
            ps.push((Pos { rate: 5, width: 12, full: 2, partial: 1, mode }, if mode == 0 { 12 } else { 11 }));
        }
        par(ps.len(), |i| {
            let (p, n) = ps[i];
            let com = match compiled::<C, _>(&p, n) {
                Ok(c) => c,
                Err(e) => return violation(&format!("{p:?} compile"), &format!("{p:?} does not compile: {e}"), json!({})),
            };
            for c in 0..6 {
                for at in 0..n {
                    let mut x: Vec<u64> = (0..n as u64).map(|i| i * 12345 + 1).collect();
                    x[at] = corner(c);
                    let xs: Vec<M> = x.iter().map(|v| fe::<C>(*v as u128)).collect();
                    p.check(&x, "compiled", com.eval(&xs, &hints()));
                }
            }
        });
    });
    rt::finish_and_exit(
        Level::ModelChecking,
        "every width, rate, padding length and corner value in every word; every one-word lie in the copied state",
        &["the constants of the stand-in gkr_hashers crate, confirmed by a published vector, are Expander's"],
    )
}
