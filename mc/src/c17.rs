//! Array views against plain row-major arrays.
use crate::rt::*;
use expander_compiler::circuit::input_mapping::{InputMapping, EMPTY};
use expander_compiler::zkcuda::shape::*;
use serde_json::json;
use std::collections::{BTreeSet, HashMap, HashSet};

/// All lists of integers >= 2 with product n (in order); `ones` also inserts up to that many 1s.
pub fn factorizations(n: usize, maxdim: usize, ones: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 1 {
            out.push(cur.clone());
        }
        for d in 2..=n {
            if n % d == 0 {
                cur.push(d);
                rec(n / d, cur, out);
                cur.pop();
            }
        }
    }
    let mut base = vec![];
    rec(n, &mut vec![], &mut base);
    let mut all: BTreeSet<Vec<usize>> = base.into_iter().collect();
    for _ in 0..ones {
        let mut more = vec![];
        for s in &all {
            for p in 0..=s.len() {
                let mut x = s.clone();
                x.insert(p, 1);
                more.push(x);
            }
        }
        all.extend(more);
    }
    all.into_iter().filter(|s| !s.is_empty() && s.len() <= maxdim).collect()
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for k in 0..n {
        let mut nx = vec![];
        for p in out {
            for pos in 0..=k {
                let mut q: Vec<usize> = p.clone();
                q.insert(pos, k);
                nx.push(q);
            }
        }
        out = nx;
    }
    out.sort();
    out
}

/// Row-major coordinates of i.
fn coords(mut i: usize, shape: &[usize]) -> Vec<usize> {
    let mut c = vec![0; shape.len()];
    for d in (0..shape.len()).rev() {
        c[d] = i % shape[d];
        i /= shape[d];
    }
    c
}
fn index(c: &[usize], shape: &[usize]) -> usize {
    c.iter().zip(shape).fold(0, |a, (x, s)| a * s + x)
}

/// The model of a view: current shape, and for each flat view position the original position.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub shape: Vec<usize>,
    pub perm: Vec<usize>,
    /// every permutation the history went through (each must be expressible by a split)
    pub views: Vec<Vec<usize>>,
}
impl Model {
    pub fn new(shape: &[usize]) -> Self {
        let n: usize = shape.iter().product();
        Model { shape: shape.to_vec(), perm: (0..n).collect(), views: vec![] }
    }
    pub fn reshape(&self, s: &[usize]) -> Self {
        let mut r = self.clone();
        r.shape = s.to_vec();
        r
    }
    pub fn transpose(&self, axes: &[usize]) -> Self {
        let ns: Vec<usize> = axes.iter().map(|&a| self.shape[a]).collect();
        let mut perm = vec![];
        for i in 0..self.perm.len() {
            let c = coords(i, &ns);
            let mut o = vec![0; c.len()];
            for (k, &a) in axes.iter().enumerate() {
                o[a] = c[k];
            }
            perm.push(self.perm[index(&o, &self.shape)]);
        }
        Model { shape: ns, perm, views: self.views.clone() }
    }
    /// Called before a reshape and at the end: the view in force.
    pub fn settle(&self) -> Self {
        let mut r = self.clone();
        if r.views.last() != Some(&r.perm) && !(r.views.is_empty() && r.perm.iter().enumerate().all(|(i, &x)| i == x)) {
            r.views.push(r.perm.clone());
        }
        r
    }
}

/// If `perm` (view position -> original position) is an axis permutation of the radix digits `s`,
/// the order of the digits in the view.
fn digit_order(perm: &[usize], s: &[usize]) -> Option<Vec<usize>> {
    let n = perm.len();
    let k = s.len();
    // stride of digit d in the original
    let mut stride = vec![1; k];
    for d in (0..k.saturating_sub(1)).rev() {
        stride[d] = stride[d + 1] * s[d + 1];
    }
    // read off the digits from the least significant view position
    let mut order = vec![];
    let mut used = vec![false; k];
    let mut step = 1;
    while step < n {
        let delta = perm[step].checked_sub(perm[0])?;
        let d = (0..k).find(|&d| !used[d] && stride[d] == delta && s[d] > 1)?;
        used[d] = true;
        order.push(d);
        step *= s[d];
    }
    order.reverse();
    if step != n {
        return None;
    }
    // verify completely
    let vs: Vec<usize> = order.iter().map(|&d| s[d]).collect();
    for i in 0..n {
        let c = coords(i, &vs);
        let o: usize = order.iter().zip(&c).map(|(&d, &x)| stride[d] * x).sum();
        if perm[i] != o {
            return None;
        }
    }
    Some(order)
}

type Memo = HashMap<(Vec<usize>, Vec<usize>), Option<Vec<usize>>>;

fn order_memo(memo: &mut Memo, perm: &[usize], s: &[usize]) -> Option<Vec<usize>> {
    if perm.iter().enumerate().all(|(i, &x)| i == x) {
        return Some((0..s.len()).collect());
    }
    let k = (perm.to_vec(), s.to_vec());
    if let Some(r) = memo.get(&k) {
        return r.clone();
    }
    let r = digit_order(perm, s);
    memo.insert(k, r.clone());
    r
}

/// Do the splits `s` express all views of the model, with the first dimension a boundary if asked?
fn expressible(memo: &mut Memo, m: &Model, s: &[usize], first: bool) -> bool {
    for v in &m.views {
        if order_memo(memo, v, s).is_none() {
            return false;
        }
    }
    let Some(o) = order_memo(memo, &m.perm, s) else { return false };
    if first {
        let want = m.shape.first().copied().unwrap_or(1);
        let mut p = 1;
        if p != want && !o.iter().any(|&d| {
            p *= s[d];
            p == want
        }) {
            return false;
        }
    }
    true
}

fn next_pow2(x: usize) -> usize {
    let mut p = 1;
    while p < x {
        p *= 2;
    }
    p
}

struct Walk<'a> {
    splits: &'a [Vec<usize>], // all splits of n (ordered factorizations without 1s)
    memo: Memo,
    seen: HashSet<(Vec<usize>, Vec<Vec<usize>>, Vec<usize>)>,
}

fn check_node(w: &mut Walk, h: &ShapeHistory, m0: &Model, desc: &str) {
    let m = m0.settle();
    let n = m.perm.len();
    evals(1);
    traces(1);
    let bad = |k: &str, what: String| violation(&format!("view:{k}:{desc}"), &format!("{desc}: {what}"), json!({"history": desc, "what": what}));
    match guard(|| h.shape()) {
        Ok(s) if s == m.shape => {}
        o => bad("shape", format!("shape() = {o:?}, a row-major array has {:?}", m.shape)),
    }
    let data: Vec<usize> = (0..n).map(|x| x * 3 + 1).collect();
    let want: Vec<usize> = m.perm.iter().map(|&i| data[i]).collect();
    match guard(|| h.permute_vec(&data)) {
        Ok(v) if v == want => {}
        o => bad("permute", format!("permute_vec = {o:?}, expected {want:?}")),
    }
    if h.is_identity_permutation() && want != data {
        bad("identity", "is_identity_permutation() on a view that moves data".into());
    }
    if !w.seen.insert((m.perm.clone(), m.views.clone(), m.shape.clone())) && !desc.ends_with('!') {
        // the split obligations depend on (views, shape) and on how the history was recorded; histories
        // that end in a merged transpose are re-checked, others are not repeated beyond this point
    }
    states(1);
    for first in [false, true] {
        transitions(1);
        let got = guard(|| h.get_initial_split_list(first));
        let possible: Vec<&Vec<usize>> = w.splits.iter().filter(|s| expressible(&mut w.memo, &m, s, first)).collect();
        match got {
            Err(e) => {
                if !possible.is_empty() {
                    bad("refused", format!("get_initial_split_list({first}) panicked ({e}) although splitting as {:?} expresses every view", possible[0]));
                }
            }
            Ok(list) => {
                let mut l = list.clone();
                l.dedup();
                let okform = l.first() == Some(&1) && l.last() == Some(&n) && l.windows(2).all(|x| x[1] > x[0] && x[1] % x[0] == 0);
                if !okform {
                    bad("split", format!("get_initial_split_list({first}) = {list:?} is not a divisor chain from 1 to {n}"));
                    continue;
                }
                let s: Vec<usize> = l.windows(2).map(|x| x[1] / x[0]).collect();
                if !expressible(&mut w.memo, &m, &s, first) {
                    bad("split", format!("get_initial_split_list({first}) = {list:?} does not make the view expressible (possible: {possible:?})"));
                    continue;
                }
                // not more than needed: dropping any interior split point must break it
                for k in 1..l.len().saturating_sub(1) {
                    let mut c = l.clone();
                    c.remove(k);
                    let cs: Vec<usize> = c.windows(2).map(|x| x[1] / x[0]).collect();
                    if expressible(&mut w.memo, &m, &cs, first) {
                        bad("split", format!("get_initial_split_list({first}) = {list:?} splits more than needed: {c:?} is enough"));
                    }
                }
            }
        }
    }
    // bit orders, for every split of the original
    for s in w.splits {
        transitions(1);
        let ok = expressible(&mut w.memo, &m, s, false);
        let got = guard(|| h.get_transposed_shape_and_bit_order(s));
        match (got, ok) {
            (Err(e), true) => bad("bits", format!("get_transposed_shape_and_bit_order({s:?}) panicked: {e}")),
            (Err(_), false) => {}
            (Ok(r), false) => bad("bits", format!("get_transposed_shape_and_bit_order({s:?}) = {r:?} although the split does not express the view")),
            (Ok((ts, bits)), true) => {
                let o = order_memo(&mut w.memo, &m.perm, s).unwrap();
                let vs: Vec<usize> = o.iter().map(|&d| s[d]).collect();
                if ts != vs {
                    bad("bits", format!("get_transposed_shape_and_bit_order({s:?}) shape {ts:?}, expected {vs:?}"));
                    continue;
                }
                let ps: Vec<usize> = s.iter().map(|&x| next_pow2(x)).collect();
                let pvs: Vec<usize> = vs.iter().map(|&x| next_pow2(x)).collect();
                let total: usize = ps.iter().product();
                if bits.len() != total.trailing_zeros() as usize {
                    bad("bits", format!("{} bits for a padded length of {total}", bits.len()));
                    continue;
                }
                for i in 0..total {
                    let c = coords(i, &pvs);
                    let mut oc = vec![0; s.len()];
                    for (k, &d) in o.iter().enumerate() {
                        oc[d] = c[k];
                    }
                    let want = index(&oc, &ps);
                    let got: usize = bits.iter().enumerate().map(|(j, &a)| (i >> j & 1) << a).sum();
                    if got != want {
                        bad("bits", format!("bit order {bits:?} for split {s:?} reads padded position {got} at {i}, expected {want}"));
                        break;
                    }
                }
            }
        }
    }
}

/// Every history: start shape, then alternating transposes and reshapes up to `depth` operations.
fn walk(w: &mut Walk, h: &ShapeHistory, m: &Model, shapes: &[Vec<usize>], depth: usize, last: u8, desc: &str) {
    if stopped() {
        return;
    }
    check_node(w, h, m, desc);
    if depth == 0 {
        return;
    }
    for axes in permutations(m.shape.len()) {
        if last == 1 && depth > 1 && axes.len() > 2 {
            break; // consecutive transposes: only as the last step for many dimensions
        }
        let d = format!("{desc} T{axes:?}");
        match guard(|| h.transpose(&axes)) {
            Ok(h2) => walk(w, &h2, &m.transpose(&axes), shapes, depth - 1, 1, &d),
            Err(e) => violation(&format!("transpose:{d}"), &format!("{d}: transpose panicked: {e}"), json!({"history": d})),
        }
    }
    if last != 2 {
        for s in shapes {
            let d = format!("{desc} R{s:?}");
            match guard(|| h.reshape(s)) {
                Ok(h2) => walk(w, &h2, &m.settle().reshape(s), shapes, depth - 1, 2, &d),
                Err(e) => violation(&format!("reshape:{d}"), &format!("{d}: reshape panicked: {e}"), json!({"history": d})),
            }
        }
    }
    // wrong sizes are refused
    let n = m.perm.len();
    for s in [vec![n + 1], vec![n, 2], vec![]] {
        if s.iter().product::<usize>() != n && guard(|| h.reshape(&s)).is_ok() {
            violation(&format!("reshape-size:{desc}"), &format!("{desc}: reshape to {s:?} accepted"), json!({"history": desc}));
        }
    }
    for k in [m.shape.len() + 1, m.shape.len() - 1] {
        let axes: Vec<usize> = (0..k).collect();
        if guard(|| h.transpose(&axes)).is_ok() {
            violation(&format!("transpose-axes:{desc}"), &format!("{desc}: transpose with {k} axes accepted"), json!({"history": desc}));
        }
    }
}

fn views(n: usize, maxdim: usize, ones: usize, depth: usize) {
    let shapes = factorizations(n, maxdim, ones);
    let splits = if n == 1 { vec![vec![]] } else { factorizations(n, 20, 0) };
    // parallel over (start shape, first operation)
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, s) in shapes.iter().enumerate() {
        for j in 0..=permutations(s.len()).len() {
            jobs.push((i, j));
        }
    }
    par(jobs.len(), |x| {
        let (i, j) = jobs[x];
        let s = &shapes[i];
        let h = ShapeHistory::new(s.clone());
        let m = Model::new(s);
        let mut w = Walk { splits: &splits, memo: HashMap::new(), seen: HashSet::new() };
        let desc = format!("{s:?}");
        distinct(&("views", s, j));
        if j == 0 {
            check_node(&mut w, &h, &m, &desc);
            for s2 in &shapes {
                let d = format!("{desc} R{s2:?}");
                match guard(|| h.reshape(s2)) {
                    Ok(h2) => walk(&mut w, &h2, &m.reshape(s2), &shapes, if depth > 3 { 1 } else { depth - 1 }, 2, &d),
                    Err(e) => violation(&format!("reshape:{d}"), &format!("{d}: reshape panicked: {e}"), json!({"history": d})),
                }
            }
        } else {
            let axes = permutations(s.len())[j - 1].clone();
            let d = format!("{desc} T{axes:?}");
            match guard(|| h.transpose(&axes)) {
                Ok(h2) => walk(&mut w, &h2, &m.transpose(&axes), &shapes, depth - 1, 1, &d),
                Err(e) => violation(&format!("transpose:{d}"), &format!("{d}: transpose panicked: {e}"), json!({"history": d})),
            }
        }
    });
}

fn all_shapes(maxdim: usize, maxlen: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..maxdim {
        let mut nx = vec![];
        for s in &last {
            for d in 1..=maxlen {
                let mut t: Vec<usize> = s.clone();
                t.push(d);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

fn padding(maxdim: usize, maxlen: usize) {
    let shapes = all_shapes(maxdim, maxlen);
    par(shapes.len(), |i| {
        let s = &shapes[i];
        let n: usize = s.iter().product();
        let ps: Vec<usize> = s.iter().map(|&x| next_pow2(x)).collect();
        let pn: usize = ps.iter().product();
        let data: Vec<usize> = (0..n).map(|x| x + 100).collect();
        evals(1);
        traces(1);
        states(1);
        transitions(pn as u64);
        distinct(&("pad", s));
        let bad = |k: &str, what: String| violation(&format!("pad:{k}"), &format!("shape {s:?}: {what}"), json!({"shape": s, "what": what}));
        if shape_vec_len(s) != n {
            bad("len", format!("shape_vec_len = {}", shape_vec_len(s)));
        }
        if shape_vec_padded_len(s) != pn {
            bad("padded_len", format!("shape_vec_padded_len = {}, expected {pn}", shape_vec_padded_len(s)));
        }
        let want: Vec<usize> = (0..pn)
            .map(|i| {
                let c: Vec<usize> = coords(i, &ps).iter().zip(s).map(|(&x, &d)| x.min(d - 1)).collect();
                data[index(&c, s)]
            })
            .collect();
        match guard(|| multi_dimension_data_padding(s, &data)) {
            Ok(v) if v == want => {}
            o => bad("data", format!("multi_dimension_data_padding = {o:?}, expected {want:?}")),
        }
        let wm: Vec<usize> = (0..n).map(|i| index(&coords(i, s), &ps)).collect();
        match guard(|| shape_padded_mapping(s)) {
            Ok(m) if m.next_size() == pn && *m.mapping() == wm => {}
            o => bad("mapping", format!("shape_padded_mapping = {o:?}, expected {wm:?} into {pn}")),
        }
        // wrong amounts of data are refused
        if s.len() <= 3 && n <= 40 {
            for l in 0..n + 3 {
                if l != n {
                    let d: Vec<usize> = (0..l).collect();
                    if let Ok(v) = guard(|| multi_dimension_data_padding(s, &d)) {
                        if s.len() <= 2 || v.len() != pn {
                            bad("wrong-size", format!("{l} elements accepted"));
                        }
                    }
                }
            }
        }
        // prefix products and their inverse
        let pp = prefix_products(s);
        let mut wp = vec![1];
        for &d in s {
            wp.push(wp.last().unwrap() * d);
        }
        if pp != wp || prefix_products_to_shape(&wp) != *s {
            bad("products", format!("prefix_products = {pp:?}"));
        }
        for x in [1usize, 2, 7] {
            let mut w = vec![x];
            w.extend(s);
            if shape_prepend(s, x) != w {
                bad("prepend", format!("shape_prepend({x}) = {:?}", shape_prepend(s, x)));
            }
        }
        // keep_*: dimensions up to / after the point where the product reaches x
        for x in 1..=n {
            let cut = if x == 1 { Some(0) } else { (1..=s.len()).find(|&k| s[..k].iter().product::<usize>() == x) };
            match (guard(|| keep_shape_until(s, x)), cut) {
                (Ok(v), Some(k)) if v == s[..k] => {}
                (Err(_), None) => {}
                (o, _) => bad("keep_until", format!("keep_shape_until({x}) = {o:?}")),
            }
            match (guard(|| keep_shape_since(s, x)), cut) {
                (Ok(v), Some(k)) if v == s[k..] => {}
                (Err(_), None) => {}
                (o, _) => bad("keep_since", format!("keep_shape_since({x}) = {o:?}")),
            }
            let pcut = wp.iter().position(|&y| y == x);
            match (guard(|| keep_shape_products_until(&wp, x)), pcut) {
                (Ok(v), Some(k)) if v == wp[..=k] => {}
                (Err(_), None) => {}
                (o, _) => bad("keep_products", format!("keep_shape_products_until({x}) = {o:?}")),
            }
        }
    });
}

fn merging(n: usize) {
    let mut chains: Vec<Vec<usize>> = vec![];
    for f in factorizations(n, 20, 1) {
        let mut p = vec![1];
        for d in f {
            p.push(p.last().unwrap() * d);
        }
        chains.push(p);
    }
    let k = chains.len();
    par(k * k, |i| {
        let (a, b) = (&chains[i / k], &chains[i % k]);
        let u: BTreeSet<usize> = a.iter().chain(b).copied().collect();
        let want: Vec<usize> = u.into_iter().collect();
        let legal = want.windows(2).all(|w| w[1] % w[0] == 0);
        evals(1);
        states(1);
        transitions(1);
        distinct(&("merge", a, b));
        match (guard(|| merge_shape_products(a, b)), legal) {
            (Ok(v), true) if v == want => {}
            (Err(_), false) => {}
            (o, _) => violation(&format!("merge:{n}"), &format!("merge_shape_products({a:?}, {b:?}) = {o:?}, expected {}", if legal { format!("{want:?}") } else { "refusal".into() }), json!({"a": a, "b": b})),
        }
        for bad in [vec![1, n + 1], vec![2, n]] {
            if n > 2 && guard(|| merge_shape_products(a, &bad)).is_ok() {
                violation("merge:ends", &format!("merge_shape_products({a:?}, {bad:?}) accepted"), json!({}));
            }
        }
    });
}

/// Input mappings: all functions {0..k} -> {0..m} + EMPTY, and all their compositions.
fn mappings(k: usize, m: usize, p: usize) {
    let dec = |mut i: usize, k: usize, m: usize| -> Vec<usize> {
        (0..k)
            .map(|_| {
                let v = i % (m + 1);
                i /= m + 1;
                if v == m { EMPTY } else { v }
            })
            .collect()
    };
    let na = (m + 1usize).pow(k as u32);
    let nb = (p + 1usize).pow(m as u32);
    par(na, |i| {
        let a = dec(i, k, m);
        let ma = InputMapping::new(m, a.clone());
        let bad = |what: String| violation("mapping", &format!("InputMapping {a:?} into {m}: {what}"), json!({"map": a, "next": m, "what": what}));
        let mut cnt = vec![0; m];
        for &x in &a {
            if x != EMPTY {
                cnt[x] += 1;
            }
        }
        distinct(&("map", &a, m));
        states(1);
        if ma.cur_size() != k || ma.next_size() != m || ma.mapping() != &a || (0..k).any(|j| ma.map(j) != a[j]) {
            bad("accessors".into());
        }
        if ma.validate() != cnt.iter().all(|&c| c == 1) {
            bad(format!("validate() = {}", ma.validate()));
        }
        let inp: Vec<u32> = (1..=k as u32).collect();
        let got = ma.map_inputs(&inp);
        let mut want = vec![0; m];
        for (j, &x) in a.iter().enumerate() {
            if x != EMPTY {
                want[x] = inp[j];
            }
        }
        if got != want {
            bad(format!("map_inputs({inp:?}) = {got:?}, expected {want:?}"));
        }
        if guard(|| ma.map_inputs(&vec![1u32; k + 1])).is_ok() {
            bad("map_inputs accepts a wrong number of inputs".into());
        }
        for j in 0..nb {
            let b = dec(j, m, p);
            let mb = InputMapping::new(p, b.clone());
            evals(1);
            transitions(1);
            let c = ma.compose(&mb);
            let mut c2 = ma.clone();
            c2.compose_in_place(&mb);
            let w: Vec<usize> = a.iter().map(|&x| if x == EMPTY { EMPTY } else { b[x] }).collect();
            if c.mapping() != &w || c.next_size() != p || c != c2 {
                bad(format!("compose with {b:?} = {c:?} / {c2:?}, expected {w:?}"));
            }
            // composing is the same as mapping twice, where nothing collides
            if ma.validate() {
                let t = mb.map_inputs(&got);
                let d = c.map_inputs(&inp);
                if mb.validate() && t != d {
                    bad(format!("mapping through {b:?} twice gives {t:?}, composed {d:?}"));
                }
            }
        }
    });
    let id = InputMapping::new_identity(m);
    if id.mapping() != &(0..m).collect::<Vec<_>>() || id.next_size() != m || !id.validate() {
        violation("mapping:id", "new_identity is not the identity", json!({"n": m}));
    }
}

pub fn run() -> ! {
    let t = thorough();
    family("padding", || {
        padding(4, if t { 7 } else { 5 });
        padding(3, 9);
        padding(2, 33);
        padding(1, 300);
        padding(5, 3);
        if t {
            padding(6, 3);
        }
    });
    family("merge", || {
        for n in [2, 4, 6, 8, 12, 16, 24, 30, 36, 48] {
            merging(n);
        }
    });
    family("mappings", || {
        for k in 0..=3 {
            for m in 0..=3 {
                for p in 0..=3 {
                    mappings(k, m, p);
                }
            }
        }
        mappings(4, 3, 3);
        mappings(3, 4, 3);
    });
    family("views_ones", || {
        for n in [1, 2, 3, 4, 6] {
            views(n, 4, if n < 4 || t { 2 } else { 1 }, if t { 5 } else if n == 6 { 3 } else { 4 });
        }
        views(8, 4, 1, 3);
        views(12, 4, 1, 3);
    });
    family("views_deep", || {
        for n in [4, 6, 8, 9, 10, 12] {
            views(n, 4, 0, if t && n != 12 { 6 } else { 5 });
        }
        for n in [16, 18, 20, 30] {
            views(n, 4, 0, if t { 5 } else { 4 });
        }
    });
    family("views_wide", || {
        views(24, 4, 0, if t { 4 } else { 3 });
        for n in [16, 27, 32, 36, 60] {
            views(n, if t { 5 } else { 4 }, 0, if t || n < 32 { 3 } else { 2 });
        }
        if t {
            views(36, 4, 0, 4);
            views(64, 6, 0, 3);
        }
    });
    sample(json!({"history": "[4, 1] T[1, 0] R[2, 2]", "checked": "shape, permuted data, required splits (minimal, sufficient), bit order for every split"}));
    sample(json!({"shape": [3, 2, 5], "checked": "padded layout and mapping"}));
    finish_and_exit(
        Level::ModelChecking,
        "states: view histories reached (start shape, then every reshape/transpose up to the depth bound) and shapes padded; transitions: queries compared with the row-major model; non-trivial = distinct start shape and first operation, shape, chain pair or mapping",
        &["dimensions are at least 1", "expressibility oracle: brute force over all divisor chains of the vector length"],
    )
}
