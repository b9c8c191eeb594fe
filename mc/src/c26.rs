//! Containers against textbook models.
use crate::rt::*;
use expander_compiler::utils::{
    bucket_sort::bucket_sort, error::Error, function_id::get_function_id, heap, misc::*,
    pool::Pool, static_hash_map::StaticHashMap, union_find::UnionFind,
};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};

type Cmp = fn(usize, usize) -> Ordering;
const CMPS: [(&str, Cmp); 4] = [
    ("natural", |a, b| a.cmp(&b)),
    ("reversed", |a, b| b.cmp(&a)),
    ("by half, ties among distinct values", |a, b| (a / 2).cmp(&(b / 2))),
    ("by scrambled key", |a, b| ((a * 7 + 3) % 11, a).cmp(&((b * 7 + 3) % 11, b))),
];

fn heap_step(name: &str, cmp: Cmp, s: &[usize], op: Option<usize>) -> Vec<usize> {
    let mut v = s.to_vec();
    transitions(1);
    let mut want: Vec<usize> = s.to_vec();
    let case = json!({"cmp": name, "heap": s, "op": op});
    let bad = |what: String| violation(&format!("heap:{name}:{what}"), &format!("heap ({name}) {what}: state {s:?} op {op:?}"), case.clone());
    match op {
        Some(x) => {
            heap::push(&mut v, x, cmp);
            want.push(x);
        }
        None => {
            let r = heap::pop(&mut v, cmp);
            match r {
                None => {
                    if !s.is_empty() {
                        bad("pop on a non-empty heap gave None".into());
                    }
                }
                Some(m) => {
                    if s.is_empty() {
                        bad("pop on an empty heap gave Some".into());
                        return v;
                    }
                    if s.iter().any(|&y| cmp(y, m) == Ordering::Less) {
                        bad(format!("pop returned {m}, not a minimum"));
                    }
                    match want.iter().position(|&y| y == m) {
                        Some(p) => {
                            want.swap_remove(p);
                        }
                        None => bad(format!("pop returned {m}, never pushed")),
                    }
                }
            }
        }
    }
    let (mut a, mut b) = (v.clone(), want);
    a.sort();
    b.sort();
    if a != b {
        bad(format!("contents {a:?} differ from {b:?}"));
    }
    v
}

/// All reachable heap states (explicit-state search over the real push/pop).
fn heap_bfs(name: &str, cmp: Cmp, values: &[usize], max: usize) {
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(vec![]);
    q.push_back(vec![]);
    while let Some(s) = q.pop_front() {
        if stopped() {
            return;
        }
        states(1);
        traces(1);
        distinct(&("heap", name, &s));
        let mut ops: Vec<Option<usize>> = vec![None];
        if s.len() < max {
            ops.extend(values.iter().map(|&v| Some(v)));
        }
        for op in ops {
            evals(1);
            let n = heap_step(name, cmp, &s, op);
            if seen.insert(n.clone()) {
                q.push_back(n);
            }
        }
    }
}

fn heap_perm(n: usize) {
    // every insertion order of n distinct values (and their drain), for each comparator
    let total: usize = (1..=n).product();
    par(total, |mut i| {
        let mut pool: Vec<usize> = (0..n).collect();
        let mut perm = vec![];
        for k in (1..=n).rev() {
            perm.push(pool.remove(i % k));
            i /= k;
        }
        for (name, cmp) in CMPS {
            let mut s = vec![];
            for &x in &perm {
                heap::push(&mut s, x, cmp);
            }
            let mut out = vec![];
            while let Some(x) = heap::pop(&mut s, cmp) {
                out.push(x);
                if out.len() > n {
                    break;
                }
            }
            evals(1);
            traces(1);
            let sorted = out.windows(2).all(|w| cmp(w[0], w[1]) != Ordering::Greater);
            let mut o = out.clone();
            o.sort();
            if !sorted || o != (0..n).collect::<Vec<_>>() {
                violation(&format!("heap:drain:{name}"), &format!("heap ({name}) drained {out:?} after pushing {perm:?}"), json!({"push": perm, "out": out}));
            }
        }
    });
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Clash(u8); // every value hashes alike
impl Hash for Clash {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}

fn pool_model<V: Hash + Eq + Clone + std::fmt::Debug + Sync>(name: &str, vals: &[V], depth: usize) {
    let k = vals.len();
    let total = k.pow(depth as u32);
    par(total, |mut i| {
        let mut p: Pool<V> = Pool::new();
        let mut m: Vec<V> = vec![];
        let mut hist = vec![];
        for _ in 0..depth {
            let v = &vals[i % k];
            i /= k;
            hist.push(v.clone());
            transitions(1);
            let got = p.add(v);
            let want = match m.iter().position(|x| x == v) {
                Some(j) => j,
                None => {
                    m.push(v.clone());
                    m.len() - 1
                }
            };
            let mut ok = got == want && p.len() == m.len() && *p.vec() == m && p.is_empty() == m.is_empty() && p.map().len() == m.len();
            for v in vals {
                let w = m.iter().position(|x| x == v);
                ok &= p.try_get_idx(v) == w;
                ok &= p.map().get(v).copied() == w;
                match (guard(|| p.get_idx(v)), w) {
                    (Ok(a), Some(b)) => ok &= a == b,
                    (Err(_), None) => {}
                    _ => ok = false,
                }
            }
            for j in 0..=m.len() {
                match (guard(|| p.get(j).clone()), m.get(j)) {
                    (Ok(a), Some(b)) => ok &= a == *b,
                    (Err(_), None) => {}
                    _ => ok = false,
                }
            }
            let c = p.clone();
            ok &= c.vec() == p.vec() && c.map() == p.map();
            if !ok {
                violation(&format!("pool:{name}"), &format!("pool over {name} differs from its model after adding {hist:?}"), json!({"adds": format!("{hist:?}")}));
                return;
            }
        }
        evals(1);
        states(1);
        traces(1);
        distinct(&(name, format!("{hist:?}")));
    });
}

fn uf_run(n: usize, ops: &[(usize, usize)]) {
    let mut u = UnionFind::new(n);
    let mut class: Vec<usize> = (0..n).collect();
    evals(1);
    traces(1);
    for (step, &(x, y)) in ops.iter().enumerate() {
        transitions(1);
        u.union(x, y);
        let (cx, cy) = (class[x], class[y]);
        for c in class.iter_mut() {
            if *c == cx {
                *c = cy;
            }
        }
        // only probe everything at the end, so that path compression by the probes does not mask anything
        if step + 1 == ops.len() {
            let order: Vec<usize> = if step % 2 == 0 { (0..n).collect() } else { (0..n).rev().collect() };
            let mut rep = vec![0; n];
            for &i in &order {
                rep[i] = u.find(i);
            }
            let again: Vec<usize> = (0..n).map(|i| u.find(i)).collect();
            let mut ok = again == rep;
            for i in 0..n {
                ok &= rep[i] < n && class[rep[i]] == class[i];
                for j in 0..n {
                    ok &= (rep[i] == rep[j]) == (class[i] == class[j]);
                }
            }
            if !ok {
                violation(&format!("uf:{n}"), &format!("union-find over {n} elements wrong after unions {ops:?}: representatives {rep:?}, classes {class:?}"), json!({"n": n, "unions": ops}));
            }
        }
    }
    states(1);
}

fn uf_all(n: usize, depth: usize) {
    let k = n * n;
    for d in 1..=depth {
        let total = k.pow(d as u32);
        par(total, |mut i| {
            let mut ops = vec![];
            for _ in 0..d {
                let o = i % k;
                i /= k;
                ops.push((o / n, o % n));
            }
            uf_run(n, &ops);
        });
    }
}

fn shm_check(keys: &[usize], what: &str) {
    let s = watch(format!("StaticHashMap::new({keys:?}) {what}"), || StaticHashMap::new(keys));
    evals(1);
    traces(1);
    states(1);
    transitions(keys.len() as u64);
    for (i, &x) in keys.iter().enumerate() {
        let g = s.get(x);
        if g != i {
            violation(&format!("shm:{}", keys.len()), &format!("StaticHashMap over {keys:?} ({what}) finds {g} for key {x}, expected {i}"), json!({"keys": keys, "key": x, "got": g, "draws": what}));
            return;
        }
    }
}

fn shm() {
    const M: usize = 1_000_000_007;
    let alpha: Vec<usize> = vec![
        0, 1, 2, 3, 7, 8, 1023, 1024, M - 1, M, M + 1, 2 * M, 2 * M + 1, 1 << 32, (1 << 32) + 1, 1 << 62, usize::MAX - 1, usize::MAX,
    ];
    let n = alpha.len();
    // ordered tuples of distinct keys, length <= 3; subsets in both orders for 4 (thorough: 5)
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..n {
        sets.push(vec![alpha[a]]);
        for b in 0..n {
            if b == a {
                continue;
            }
            sets.push(vec![alpha[a], alpha[b]]);
            for c in 0..n {
                if c != a && c != b {
                    sets.push(vec![alpha[a], alpha[b], alpha[c]]);
                }
            }
        }
    }
    let maxbits = if thorough() { 8 } else { 5 };
    for mask in 0u32..(1 << n) {
        let c = mask.count_ones();
        if c >= 4 && c <= maxbits {
            let mut v: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| alpha[i]).collect();
            sets.push(v.clone());
            v.reverse();
            sets.push(v);
        }
    }
    let edge = [0u64, 1, 2, M as u64 - 2, M as u64 - 1, M as u64, u64::MAX, 1 << 63, 12345678901234567];
    par(sets.len(), |i| {
        let k = &sets[i];
        distinct(&("shm", k));
        if k.len() <= 2 {
            // every pair of edge draws for (a, b), then the following attempt
            for &a in &edge {
                for &b in &edge {
                    ctlrand::control(&[a, b], i as u64);
                    shm_check(k, &format!("first draws {a},{b}"));
                }
            }
        } else {
            ctlrand::control(&[], i as u64);
            shm_check(k, "stream");
        }
    });
    // small tables: all key sets over 0..12, with a sweep of small (a, b) draws
    let k = 12u32;
    par(1 << k, |mask| {
        let v: Vec<usize> = (0..k as usize).filter(|i| mask >> i & 1 == 1).collect();
        for a in 0..if thorough() { 40 } else { 8 } {
            for b in [0u64, 1, 5, 1 << 40] {
                ctlrand::control(&[a, b], a + b);
                shm_check(&v, &format!("first draws {a},{b}"));
            }
        }
    });
    // dense and strided ranges of growing size
    let sizes = [16usize, 31, 32, 33, 64, 100, 127, 128, 200, 255, 256, 257, 400, 600];
    par(sizes.len() * 5, |i| {
        let n = sizes[i / 5];
        let v: Vec<usize> = match i % 5 {
            0 => (0..n).collect(),
            1 => (0..n).rev().map(|x| x * 2 + 1).collect(),
            2 => (0..n).map(|x| x << 20).collect(),
            3 => (0..n).map(|x| usize::MAX - x * 12345).collect(),
            _ => (0..n).map(|x| x.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect(),
        };
        ctlrand::control(&[], ctx().seed);
        shm_check(&v, "stream");
    });
}

fn bucket(maxlen: usize, kb: usize) {
    // all key sequences; the payload is the original position, so stability is visible
    for n in 0..=maxlen {
        par(kb.pow(n as u32), |mut i| {
            let mut arr: Vec<(usize, usize)> = vec![];
            for j in 0..n {
                arr.push((i % kb, n - j));
                i /= kb;
            }
            for extra in 0..3 {
                let nb = arr.iter().map(|x| x.0 + 1).max().unwrap_or(0) + extra;
                let (got, start) = bucket_sort(arr.clone(), |x| x.0, nb);
                let mut want = arr.clone();
                want.sort_by_key(|x| x.0);
                let ws: Vec<usize> = (0..nb).map(|b| arr.iter().filter(|x| x.0 < b).count()).collect();
                evals(1);
                traces(1);
                states(1);
                transitions(n as u64);
                if got != want || start != ws {
                    violation("bucket_sort", &format!("bucket_sort({arr:?}, {nb}) = {got:?}, {start:?}; expected {want:?}, {ws:?}"), json!({"arr": arr, "buckets": nb}));
                }
            }
            distinct(&("bucket", &arr));
        });
    }
}

fn pow2() {
    let chk = |x: usize| {
        evals(1);
        let n = next_power_of_two(x);
        if x <= 1 << 62 {
            let want = std::cmp::max(1, x).next_power_of_two();
            if n != want {
                violation("next_power_of_two", &format!("next_power_of_two({x}) = {n}, expected {want}"), json!({"x": x}));
            }
        }
        if x < 1 << 62 {
            let p = prev_power_of_two(x);
            let want = if x == 0 { 0 } else { 1usize << (63 - x.leading_zeros()) };
            if p != want {
                violation("prev_power_of_two", &format!("prev_power_of_two({x}) = {p}, expected {want}"), json!({"x": x}));
            }
        }
    };
    for x in 0..1 << 17 {
        chk(x);
    }
    for k in 17..62 {
        for d in [-3i64, -2, -1, 0, 1, 2, 3] {
            chk(((1i64 << k) + d) as usize);
        }
        chk((1usize << k) + (1 << (k - 1)));
    }
}

fn topo(n: usize, loops: bool, labels: &[usize]) {
    let mut pairs = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != j || loops {
                pairs.push((i, j));
            }
        }
    }
    par(1 << pairs.len(), |mask| {
        let verts: HashSet<usize> = labels[..n].iter().copied().collect();
        let mut edges: HashMap<usize, HashSet<usize>> = HashMap::new();
        let mut es = vec![];
        for (k, &(i, j)) in pairs.iter().enumerate() {
            if mask >> k & 1 == 1 {
                edges.entry(labels[i]).or_default().insert(labels[j]);
                es.push((i, j));
            }
        }
        if mask % 2 == 1 {
            for &l in &labels[..n] {
                edges.entry(l).or_default(); // explicit empty successor sets
            }
        }
        let (order, dag) = topo_order_and_is_dag(&verts, &edges);
        let order2 = topo_order(&verts, &edges);
        // reference: vertices that become removable
        let mut removed: BTreeSet<usize> = BTreeSet::new();
        loop {
            let nx: Vec<usize> = (0..n).filter(|v| !removed.contains(v) && es.iter().all(|&(a, b)| b != *v || removed.contains(&a))).collect();
            if nx.is_empty() {
                break;
            }
            removed.extend(nx);
        }
        evals(1);
        traces(1);
        states(1);
        transitions(es.len() as u64);
        let want_dag = removed.len() == n;
        let mut ok = dag == want_dag;
        for o in [&order, &order2] {
            let pos: HashMap<usize, usize> = o.iter().enumerate().map(|(i, &v)| (v, i)).collect();
            ok &= pos.len() == o.len();
            ok &= o.iter().all(|v| verts.contains(v));
            if want_dag {
                ok &= o.len() == n;
            } else {
                // only the vertices outside and not behind cycles can be ordered
                ok &= o.len() == removed.len() && removed.iter().all(|&v| pos.contains_key(&labels[v]));
            }
            for &(a, b) in &es {
                if let (Some(x), Some(y)) = (pos.get(&labels[a]), pos.get(&labels[b])) {
                    ok &= x < y;
                }
            }
        }
        distinct(&("topo", n, mask));
        if !ok {
            violation("topo", &format!("topo order of {n} vertices {:?} edges {es:?}: order {order:?}/{order2:?}, is_dag {dag}, expected dag {want_dag}", &labels[..n]), json!({"n": n, "edges": es}));
        }
    });
}

fn ids() {
    struct A;
    struct B;
    fn f1() -> u64 {
        get_function_id::<A>()
    }
    fn idf<F: 'static>(_: &F) -> u64 {
        get_function_id::<F>()
    }
    let c1 = |x: usize| x + 1;
    let c2 = |x: usize| x + 1;
    let v = [f1(), get_function_id::<B>(), idf(&c1), idf(&c2), get_function_id::<Vec<A>>(), get_function_id::<Vec<B>>(), get_function_id::<u32>(), get_function_id::<u64>(), get_function_id::<(u32, u64)>()];
    let s: BTreeSet<u64> = v.iter().copied().collect();
    evals(v.len() as u64);
    if s.len() != v.len() || f1() != get_function_id::<A>() || idf(&c1) != idf(&c1) {
        violation("function_id", &format!("function ids are not one per type: {v:?}"), json!({"ids": v}));
    }
    for (e, user) in [(Error::UserError("m: é".into()), true), (Error::InternalError("m: é".into()), false)] {
        let p = e.prepend("pre").prepend("");
        if p.is_user() != user || p.is_internal() == user || p.to_string() != ": pre: m: é" || e.is_user() != user {
            violation("error", &format!("Error::prepend changed the error: {p:?}"), json!({}));
        }
    }
}

pub fn run() -> ! {
    let t = thorough();
    family("heap_states", || {
        for (name, cmp) in CMPS {
            heap_bfs(name, cmp, &[0, 1, 2, 3], if t { 11 } else { 9 });
            heap_bfs(name, cmp, &[0, 2], if t { 22 } else { 18 });
        }
        heap_bfs("natural", CMPS[0].1, &[0, 1, 2], if t { 14 } else { 11 });
    });
    family("heap_perm", || {
        for n in 1..=if t { 11 } else { 10 } {
            heap_perm(n)
        }
    });
    family("pool", || {
        for d in 1..=if t { 9 } else { 7 } {
            pool_model("u8", &[0u8, 1, 2, 255], d);
            pool_model("clashing hashes", &[Clash(0), Clash(1), Clash(2), Clash(3)], d);
            pool_model("vectors", &[vec![], vec![0], vec![0, 0], vec![1]], d);
        }
    });
    family("union_find", || {
        uf_all(2, 6);
        uf_all(3, if t { 7 } else { 6 });
        uf_all(4, if t { 6 } else { 5 });
        uf_all(5, if t { 5 } else { 4 });
        uf_all(7, if t { 4 } else { 3 });
    });
    family("static_hash_map", shm);
    family("bucket_sort", || bucket(if t { 11 } else { 9 }, 4));
    family("pow2", pow2);
    family("topo", || {
        for labels in [[0usize, 1, 2, 3, 4], [1 << 40, 3, usize::MAX, 0, 17]] {
            for n in 0..=3 {
                topo(n, true, &labels);
            }
            topo(4, t, &labels);
        }
        if t {
            topo(5, false, &[4, 1, 9, 0, 7]);
        }
    });
    family("ids", ids);
    sample(json!({"heap push orders": "all permutations of 0..n drained under four comparators"}));
    sample(json!({"StaticHashMap keys": [0, 1, 1_000_000_007usize], "draws": "first draws 0,0"}));
    sample(json!({"topo": "4 vertices, every edge set"}));
    finish_and_exit(
        Level::ModelChecking,
        "states: heap vectors reached / operation histories; a case is non-trivial when it is a distinct heap state, history, key set, array or graph",
        &["thread_rng is replaced by an enumerated stream", "key sets up to 600 keys; graphs up to 4 (thorough 5) vertices"],
    )
}
