//! Nested host data: flatten / restore / SIMD packing, over every nesting up to a size.
use crate::cfgs::*;
use crate::rt::*;
use arith::{Field as _, Fr, SimdField};
use expander_compiler::field::{FieldRaw, GF2x8, M31x16, M31};
use expander_compiler::zkcuda::vec_shaped::*;
use serde_json::json;

/// Every vector over `items` with at most `max` entries.
fn lists<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut nx = vec![];
        for l in &last {
            for i in items {
                let mut v = l.clone();
                v.push(i.clone());
                nx.push(v);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

/// Reference model of a nesting: a tree.
#[derive(Clone, Debug, PartialEq, Hash)]
enum Tree {
    Leaf,
    Node(Vec<Tree>),
}
impl Tree {
    /// Some(shape) iff rectangular and nowhere empty (outermost dimension first).
    fn shape(&self) -> Option<Vec<usize>> {
        match self {
            Tree::Leaf => Some(vec![]),
            Tree::Node(c) => {
                if c.is_empty() {
                    return None;
                }
                let s = c[0].shape()?;
                for x in c {
                    if x.shape()? != s {
                        return None;
                    }
                }
                let mut r = vec![c.len()];
                r.extend(s);
                Some(r)
            }
        }
    }
    fn leaves(&self) -> usize {
        match self {
            Tree::Leaf => 1,
            Tree::Node(c) => c.iter().map(|x| x.leaves()).sum(),
        }
    }
}
trait FromTree: Sized + Clone + Default + PartialEq + std::fmt::Debug {
    fn from_tree(t: &Tree, next: &mut u32) -> Self;
}
macro_rules! leaf {
    ($($t:ty),*) => {$(impl FromTree for $t {
        fn from_tree(t: &Tree, next: &mut u32) -> Self {
            assert_eq!(*t, Tree::Leaf);
            *next += 1;
            <$t>::from(*next)
        }
    })*};
}
leaf!(M31, F7, Fr, M31x16);
impl<T: FromTree> FromTree for Vec<T> {
    fn from_tree(t: &Tree, next: &mut u32) -> Self {
        match t {
            Tree::Leaf => panic!("depth"),
            Tree::Node(c) => c.iter().map(|x| T::from_tree(x, next)).collect(),
        }
    }
}

fn flat<F: FieldRaw, V: VecShaped<F> + FromTree>(name: &str, t: &Tree) {
    evals(1);
    traces(1);
    let mut n = 0;
    let v = V::from_tree(t, &mut n);
    let want: Vec<F> = (1..=n).map(F::from).collect();
    let got = guard(|| flatten_shaped::<F, V>(&v));
    let shape = t.shape();
    let bad = |what: &str| violation(&format!("flatten:{name}:{what}"), &format!("flatten_shaped over {name}: {what}; data {v:?}"), json!({"type": name, "data": format!("{v:?}")}));
    transitions(1);
    match (got, shape) {
        (Err(_), None) => {}
        (Err(e), Some(_)) => bad(&format!("well-formed data refused ({e})")),
        (Ok(_), None) => bad("ragged or empty data accepted"),
        (Ok((data, sh)), Some(s)) => {
            states(1);
            distinct(&(name, format!("{v:?}")));
            if sh != s {
                bad(&format!("shape {sh:?}, expected {s:?}"));
            }
            if data != want {
                bad(&format!("order {data:?}, expected row-major"));
            }
            match guard(|| unflatten_shaped::<F, V>(&want, &s)) {
                Ok(r) if r == v => {}
                Ok(r) => bad(&format!("restored as {r:?}")),
                Err(e) => bad(&format!("restoring panicked: {e}")),
            }
            // wrong number of dimensions
            let mut longer = s.clone();
            longer.push(1);
            let mut longer2 = vec![1];
            longer2.extend(&s);
            let mut wrongs = vec![longer, longer2];
            if !s.is_empty() {
                wrongs.push(s[1..].to_vec());
                wrongs.push(s[..s.len() - 1].to_vec());
            }
            for w in wrongs {
                transitions(1);
                if let Ok(r) = guard(|| unflatten_shaped::<F, V>(&want, &w)) {
                    bad(&format!("accepted shape {w:?} of another depth, giving {r:?}"));
                }
            }
            // wrong data length
            for l in 0..want.len() + 3 {
                if l == want.len() {
                    continue;
                }
                transitions(1);
                let d: Vec<F> = (1..=l as u32).map(F::from).collect();
                if let Ok(r) = guard(|| unflatten_shaped::<F, V>(&d, &s)) {
                    bad(&format!("accepted {l} elements for shape {s:?}, giving {r:?}"));
                }
            }
        }
    }
}

fn pack<S: SimdField, V>(name: &str, t: &Tree)
where
    S::Scalar: FieldRaw + FromTree,
    V: VecShaped<S::Scalar> + FromTree,
{
    let p = S::PACK_SIZE;
    let mut n = 0;
    let v = V::from_tree(t, &mut n);
    evals(1);
    traces(1);
    transitions(1);
    let shape = t.shape();
    let ok = matches!(&shape, Some(s) if s.first() == Some(&p));
    let bad = |what: &str| violation(&format!("pack:{name}:{what}"), &format!("flatten_shaped_pack_simd over {name} with {p} lanes: {what}; data {v:?}"), json!({"type": name, "lanes": p, "data": format!("{v:?}")}));
    match guard(|| flatten_shaped_pack_simd::<S::Scalar, V, S>(&v)) {
        Err(e) => {
            if ok {
                bad(&format!("well-formed data refused ({e})"));
            }
        }
        Ok((data, sh)) => {
            if !ok {
                bad("ragged, empty or wrongly sized data accepted");
                return;
            }
            states(1);
            distinct(&(name, p, format!("{v:?}")));
            let s = shape.unwrap();
            let len: usize = s[1..].iter().product();
            if sh != s[1..] {
                bad(&format!("shape {sh:?}, expected {:?}", &s[1..]));
            }
            if data.len() != len {
                bad(&format!("{} packed elements, expected {len}", data.len()));
                return;
            }
            for (i, x) in data.iter().enumerate() {
                let u = x.unpack();
                for (j, y) in u.iter().enumerate() {
                    if *y != S::Scalar::from((j * len + i) as u32 + 1) {
                        bad(&format!("lane {j} of element {i} holds {y:?}"));
                        return;
                    }
                }
            }
            match guard(|| unflatten_shaped_unpack_simd::<S::Scalar, V, S>(&data, &sh)) {
                Ok(r) if r == v => {}
                Ok(r) => bad(&format!("comes back as {r:?}")),
                Err(e) => bad(&format!("coming back panicked: {e}")),
            }
            for l in 0..data.len() + 2 {
                if l != data.len() {
                    transitions(1);
                    let d: Vec<S> = (0..l).map(|_| S::ONE).collect();
                    if let Ok(r) = guard(|| unflatten_shaped_unpack_simd::<S::Scalar, V, S>(&d, &sh)) {
                        bad(&format!("accepted {l} packed elements for shape {sh:?}, giving {r:?}"));
                    }
                }
            }
        }
    }
}

fn rect(shape: &[usize]) -> Tree {
    match shape.split_first() {
        None => Tree::Leaf,
        Some((n, r)) => Tree::Node(vec![rect(r); *n]),
    }
}

pub fn run() -> ! {
    let t = thorough();
    type V1<T> = Vec<T>;
    type V2<T> = Vec<Vec<T>>;
    type V3<T> = Vec<Vec<Vec<T>>>;
    type V4<T> = Vec<Vec<Vec<Vec<T>>>>;
    let node = |v: Vec<Vec<Tree>>| v.into_iter().map(Tree::Node).collect::<Vec<_>>();
    let d1 = node(lists(&[Tree::Leaf], 6));
    let d2 = node(lists(&d1, if t { 5 } else { 4 }));
    let d1s = node(lists(&[Tree::Leaf], 3));
    let d2s = node(lists(&d1s, 3));
    let d1x = node(lists(&[Tree::Leaf], 2));
    let d2x = node(lists(&d1x, 2));
    let d3x = node(lists(&d2x, 2));
    family("flatten", || {
        flat::<M31, M31>("scalar", &Tree::Leaf);
        par(d1.len(), |i| {
            flat::<M31, V1<M31>>("Vec", &d1[i]);
            flat::<Fr, V1<Fr>>("Vec of 256-bit", &d1[i]);
            flat::<M31x16, V1<M31x16>>("Vec of SIMD", &d1[i]);
        });
        par(d2.len(), |i| flat::<M31, V2<M31>>("Vec<Vec>", &d2[i]));
        // depth 3, every nesting with at most 3 entries on each level
        let n = d2s.len();
        par((n + 1).pow(3), |mut i| {
            let mut v = vec![];
            let mut gap = false;
            for _ in 0..3 {
                let c = i % (n + 1);
                i /= n + 1;
                if c == n {
                    gap = true;
                } else if gap {
                    return;
                } else {
                    v.push(d2s[c].clone());
                }
            }
            flat::<M31, V3<M31>>("Vec<Vec<Vec>>", &Tree::Node(v));
        });
        // depth 4, at most 2 entries on each level
        let n = d3x.len();
        par(n * n + n + 1, |i| {
            let v = if i < n * n {
                vec![d3x[i / n].clone(), d3x[i % n].clone()]
            } else if i < n * n + n {
                vec![d3x[i - n * n].clone()]
            } else {
                vec![]
            };
            flat::<F7, V4<F7>>("depth 4 over a field of 7", &Tree::Node(v));
        });
    });
    family("rectangles", || {
        // every rectangular shape with dimensions 1..=5 (and larger ones in 1 and 2 dimensions)
        for a in 1..=40 {
            flat::<M31, V1<M31>>("Vec", &rect(&[a]));
            for b in 1..=if a < 18 { 18 } else { 3 } {
                flat::<M31, V2<M31>>("Vec<Vec>", &rect(&[a, b]));
            }
        }
        par(6 * 6 * 6, |i| {
            let s = [i % 6 + 1, i / 6 % 6 + 1, i / 36 + 1];
            flat::<M31, V3<M31>>("Vec<Vec<Vec>>", &rect(&s));
            flat::<Fr, V3<Fr>>("Vec<Vec<Vec>> of 256-bit", &rect(&s));
        });
        par(4 * 4 * 4 * 4, |i| {
            let s = [i % 4 + 1, i / 4 % 4 + 1, i / 16 % 4 + 1, i / 64 + 1];
            flat::<M31, V4<M31>>("depth 4", &rect(&s));
        });
    });
    family("pack", || {
        par(d2.len(), |i| {
            pack::<F7x2, V2<F7>>("Vec<Vec> x2", &d2[i]);
            if t || i % 2 == 0 {
                pack::<F5x4Wrap, V2<M31>>("Vec<Vec> x4", &d2[i]);
            }
        });
        par(d1.len(), |i| {
            pack::<F7x2, V1<F7>>("Vec x2", &d1[i]);
            pack::<F5x4Wrap, V1<M31>>("Vec x4", &d1[i]);
            pack::<Fr, V1<Fr>>("Vec x1", &d1[i]);
        });
        let n = d2s.len();
        par(n * n, |i| {
            pack::<M31x2, V3<M31>>("Vec<Vec<Vec>> x2", &Tree::Node(vec![d2s[i / n].clone(), d2s[i % n].clone()]));
        });
        for lanes in [1usize, 2, 3, 4, 8, 15, 16, 17, 32] {
            for b in 1..=6 {
                pack::<M31x16, V2<M31>>("Vec<Vec> x16", &rect(&[lanes, b]));
                pack::<M31x8, V2<M31>>("Vec<Vec> x8", &rect(&[lanes, b]));
                for c in 1..=6 {
                    pack::<M31x16, V3<M31>>("Vec<Vec<Vec>> x16", &rect(&[lanes, b, c]));
                    pack::<F5x4Wrap, V3<M31>>("Vec<Vec<Vec>> x4", &rect(&[lanes, b, c]));
                    pack::<M31x8, V3<M31>>("Vec<Vec<Vec>> x8", &rect(&[lanes, b, c]));
                    pack::<Fr, V3<Fr>>("Vec<Vec<Vec>> x1", &rect(&[lanes, b, c]));
                    if b <= 3 && c <= 3 {
                        for d in 1..=3 {
                            pack::<M31x8, V4<M31>>("depth 4 x8", &rect(&[lanes, b, c, d]));
                            pack::<M31x2, V4<M31>>("depth 4 x2", &rect(&[lanes, b, c, d]));
                        }
                    }
                }
            }
            pack::<M31x16, V1<M31>>("Vec x16", &rect(&[lanes]));
        }
        let _ = GF2x8::PACK_SIZE;
    });
    sample(json!({"data": "[[1,2],[3,4,5]]", "expected": "refused"}));
    sample(json!({"data": "[[[1,2]],[[3,4]]]", "shape": [2, 1, 2]}));
    finish_and_exit(
        Level::ModelChecking,
        "states: well-formed nestings; every nested list up to the length bound per level (rectangular, ragged and empty) is one case; distinct element values make each position visible; non-trivial = well-formed and distinct",
        &["leaf values are distinct small integers; element types are M31, a 7-element field, BN254 Fr and SIMD types"],
    )
}
xcore::simd_field!(F5x4Wrap, M31, 4);
xcore::simd_field!(M31x2, M31, 2);
xcore::simd_field!(M31x8, M31, 8);
