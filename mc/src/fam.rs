//! Families of source programs.
use crate::prog::*;
use Ins::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd)]
pub enum Sz {
    Tiny,
    Small,
    Mid,
    Full,
}

/// Instructions over variables 1..=n.
pub fn ops(n: usize, z: Sz, p: u32) -> Vec<Ins> {
    let mut r = vec![];
    let m = p - 1;
    let vs = 1..=n;
    let pairs: Vec<(usize, usize)> = vs.clone().flat_map(|a| (a..=n).map(move |b| (a, b))).collect();
    let ordered: Vec<(usize, usize)> = vs.clone().flat_map(|a| (1..=n).map(move |b| (a, b))).collect();
    // always
    r.push(Const(1));
    for &(a, b) in &pairs {
        r.push(Lin(vec![(1, a), (1, b)], 0));
        r.push(Mul(vec![a, b]));
    }
    for &(a, b) in &ordered {
        if a != b {
            r.push(Lin(vec![(1, a), (m, b)], 0));
        }
    }
    for a in vs.clone() {
        r.push(IsZero(a));
        r.push(Hint(77, vec![a], 1));
    }
    if z >= Sz::Small {
        for a in vs.clone() {
            r.push(Lin(vec![(2, a)], 1));
            r.push(Bin(a, 2));
        }
        for &(a, b) in &ordered {
            r.push(Div(a, b, true));
            r.push(Div(a, b, false));
        }
        for &(a, b) in &pairs {
            r.push(Bool(1, a, b));
        }
    }
    if z >= Sz::Mid {
        r.push(Const(0));
        r.push(Const(2));
        r.push(Pub(0));
        r.push(Lin(vec![], 1));
        for a in vs.clone() {
            r.push(Lin(vec![(1, a)], 0));
            r.push(Lin(vec![(0, a)], 1));
            r.push(Bin(a, 1));
            r.push(Bin(a, 3));
            r.push(Gate(G_IDENT, vec![a]));
        }
        for &(a, b) in &pairs {
            r.push(Bool(2, a, b));
            r.push(Bool(3, a, b));
            r.push(Mul(vec![a, b, b]));
            r.push(Gate(G_EQ, vec![a, b]));
        }
        for &(a, b) in &ordered {
            r.push(Hint(78, vec![a, b], 2));
            r.push(Lin(vec![(2, a), (m, b)], 1));
            for o in [0u8, 1, 2, 8, 16] {
                r.push(UBin(o, a, b));
            }
            r.push(Sel(a, b, 1));
        }
    }
    if z >= Sz::Full {
        for &(a, b) in &ordered {
            for o in 0..17u8 {
                if ![0u8, 1, 2, 8, 16].contains(&o) {
                    r.push(UBin(o, a, b));
                }
            }
            r.push(Gate(G_DIV, vec![a, b]));
            r.push(Gate(G_BITXOR, vec![a, b]));
            r.push(Gate(G_SELECT, vec![a, b, 1]));
            for c in vs.clone() {
                r.push(Sel(a, b, c));
                r.push(Mul(vec![a, b, c]));
                r.push(Lin(vec![(1, a), (1, b), (m, c)], 2));
            }
        }
        for a in vs.clone() {
            r.push(Mul(vec![a; 4]));
            r.push(Bin(a, 4));
            r.push(Hint(77, vec![a], 3));
            r.push(Lin(vec![(1, a), (m, a)], 0));
        }
    }
    r
}

fn npub(ins: &[Ins]) -> usize {
    ins.iter().filter_map(|i| if let Pub(k) = i { Some(k + 1) } else { None }).max().unwrap_or(0)
}

fn wrap(n_in: usize, ins: Vec<Ins>, cons: Vec<(u8, usize)>, outs: Vec<usize>, zeroes: usize) -> Prog {
    Prog { n_pub: npub(&ins), zeroes, circs: vec![(0, Circ { n_in, ins, cons, outs })] }
}

/// Ways of observing the last instruction's results.
fn finish(n_in: usize, ins: &[Ins], out: &mut Vec<Prog>, rich: bool) {
    let c = Circ { n_in, ins: ins.to_vec(), ..Default::default() };
    let l = c.n_vars();
    let k = ins.last().map(|i| i.n_out()).unwrap_or(0);
    let first = l + 1 - k.max(1);
    let w = |cons: Vec<(u8, usize)>, outs: Vec<usize>, z: usize| wrap(n_in, ins.to_vec(), cons, outs, z);
    out.push(w(vec![], (first..=l).collect(), 0));
    out.push(w(vec![(ZERO, l)], vec![1], 0));
    out.push(w(vec![(NONZERO, first)], vec![l], 0));
    if rich {
        out.push(w(vec![(BOOL, l)], vec![], 0));
        out.push(w(vec![(ZERO, l), (BOOL, 1)], vec![first], 0));
        out.push(w(vec![], vec![l, 1], 1));
        out.push(w(vec![(NONZERO, l), (ZERO, l)], vec![1], 0));
        out.push(w(vec![], vec![l, first, n_in, l], 0));
        if l > n_in + 1 {
            out.push(w(vec![(BOOL, n_in + 1)], vec![n_in + 1, l], 0));
        }
    }
}

/// All single-circuit programs of exactly k instructions.
pub fn straight(n_in: usize, sizes: &[Sz], p: u32, rich: bool) -> Vec<Prog> {
    fn rec(n_in: usize, sizes: &[Sz], p: u32, rich: bool, cur: &mut Vec<Ins>, out: &mut Vec<Prog>) {
        if cur.len() == sizes.len() {
            finish(n_in, cur, out, rich);
            return;
        }
        let n = n_in + cur.iter().map(|i| i.n_out()).sum::<usize>();
        for o in ops(n, sizes[cur.len()], p) {
            cur.push(o);
            rec(n_in, sizes, p, rich, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n_in, sizes, p, rich, &mut vec![], &mut out);
    out
}

/// Sub-circuit bodies with n inputs.
pub fn bodies(n: usize, z: Sz, p: u32) -> Vec<Circ> {
    let mut r = vec![];
    for o in ops(n, z, p) {
        let k = o.n_out();
        let l = n + k;
        let mk = |cons: Vec<(u8, usize)>, outs: Vec<usize>| Circ { n_in: n, ins: vec![o.clone()], cons, outs };
        r.push(mk(vec![], (n + 1..=l).collect()));
        r.push(mk(vec![(ZERO, l)], vec![1]));
        if z >= Sz::Small {
            r.push(mk(vec![(BOOL, l)], vec![l, 1]));
            r.push(mk(vec![(NONZERO, l)], vec![l]));
        }
        if z >= Sz::Mid {
            r.push(mk(vec![], vec![l, n + 1, l]));
            r.push(mk(vec![(ZERO, 1)], vec![]));
        }
    }
    // pure wiring
    r.push(Circ { n_in: n, ins: vec![], cons: vec![], outs: (1..=n).rev().collect() });
    r.push(Circ { n_in: n, ins: vec![], cons: vec![], outs: vec![1, 1] });
    r.push(Circ { n_in: n, ins: vec![], cons: vec![(BOOL, n)], outs: vec![1] });
    // two assertions on different layers, dead code, unused output
    r.push(Circ {
        n_in: n,
        ins: vec![Mul(vec![1, n]), Lin(vec![(1, n + 1), (p - 1, 1)], 0), Mul(vec![n + 1, n + 2])],
        cons: vec![(ZERO, n + 2), (ZERO, n + 3)],
        outs: vec![n + 1, n + 3],
    });
    r.push(Circ {
        n_in: n,
        ins: vec![Hint(77, vec![1], 2), Mul(vec![n + 1, n]), Lin(vec![(1, n + 3), (p - 1, 1)], 0)],
        cons: vec![(ZERO, n + 4)],
        outs: vec![n + 1, n + 2, 1],
    });
    r
}

fn npub_all(cs: &[(usize, Circ)]) -> usize {
    cs.iter().map(|(_, c)| npub(&c.ins)).max().unwrap_or(0)
}
pub fn mkprog(circs: Vec<(usize, Circ)>, zeroes: usize) -> Prog {
    Prog { n_pub: npub_all(&circs), zeroes, circs }
}

fn argtuples(vars: usize, n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for _ in 0..n {
        r = r
            .into_iter()
            .flat_map(|v: Vec<usize>| {
                (1..=vars).map(move |a| {
                    let mut v = v.clone();
                    v.push(a);
                    v
                })
            })
            .collect();
    }
    r
}

/// A main circuit calling one body once or twice with every argument choice.
pub fn calls(n_main: usize, n_sub: usize, z: Sz, p: u32, id: usize, twice: bool) -> Vec<Prog> {
    let mut out = vec![];
    for b in bodies(n_sub, z, p) {
        let k = b.outs.len();
        for a1 in argtuples(n_main, n_sub) {
            let c1 = Call(id, a1.clone(), k);
            let l1 = n_main + k;
            if !twice {
                let mut push = |ins: Vec<Ins>, cons: Vec<(u8, usize)>, outs: Vec<usize>, z: usize| {
                    out.push(mkprog(vec![(0, Circ { n_in: n_main, ins, cons, outs }), (id, b.clone())], z));
                };
                push(vec![c1.clone()], vec![], (n_main + 1..=l1).collect(), 0);
                push(vec![c1.clone(), Mul(vec![l1, 1])], vec![(ZERO, l1 + 1)], vec![1], 0);
                push(vec![Lin(vec![(2, 1)], 1), Call(id, a1.iter().map(|a| if *a == 1 { n_main + 1 } else { *a }).collect(), k)], vec![], (n_main + 2..=l1 + 1).rev().collect(), 0);
                push(vec![Const(2), Call(id, a1.iter().map(|a| if *a == 1 { n_main + 1 } else { *a }).collect(), k)], vec![], if k > 0 { vec![n_main + 2, 1] } else { vec![1] }, 0);
                if k > 1 {
                    push(vec![c1.clone()], vec![], vec![l1], 0);
                    push(vec![c1.clone()], vec![(BOOL, n_main + 1)], vec![l1, l1], 0);
                    push(vec![c1.clone()], vec![], vec![n_main + 2, n_main + 1], 1);
                }
            } else {
                for a2 in argtuples(l1.min(n_main + 2), n_sub) {
                    let c2 = Call(id, a2, k);
                    let l2 = l1 + k;
                    let mut push = |ins: Vec<Ins>, cons: Vec<(u8, usize)>, outs: Vec<usize>| {
                        out.push(mkprog(vec![(0, Circ { n_in: n_main, ins, cons, outs }), (id, b.clone())], 0));
                    };
                    if k == 0 {
                        push(vec![c1.clone(), c2], vec![], vec![1]);
                        continue;
                    }
                    push(vec![c1.clone(), c2.clone()], vec![], vec![n_main + 1, l2]);
                    push(vec![c1.clone(), c2.clone(), Lin(vec![(1, n_main + 1), (p - 1, l1 + 1)], 0)], vec![(ZERO, l2 + 1)], vec![l2]);
                }
            }
        }
    }
    out
}

/// Three-level call graphs: main calls outer and inner, outer calls inner (twice).
pub fn nested(z: Sz, p: u32, ids: (usize, usize)) -> Vec<Prog> {
    let (io, ii) = ids;
    let mut out = vec![];
    for b in bodies(1, z, p) {
        let k = b.outs.len();
        if k == 0 {
            continue;
        }
        for shape in 0..8 {
            let c = |v: usize| Call(ii, vec![v], k);
            let outer = match shape % 4 {
                0 => Circ { n_in: 1, ins: vec![c(1), c(2)], cons: vec![], outs: vec![1 + k + 1] },
                1 => Circ { n_in: 2, ins: vec![c(1), c(2), Mul(vec![3, 3 + k])], cons: vec![], outs: vec![3 + 2 * k] },
                2 => Circ { n_in: 2, ins: vec![Lin(vec![(1, 1), (1, 2)], 1), c(3)], cons: vec![(ZERO, 4)], outs: vec![3, 4] },
                _ => Circ { n_in: 1, ins: vec![c(1), Mul(vec![2, 2]), c(2 + k)], cons: vec![], outs: vec![2, 3 + k] },
            };
            let no = outer.outs.len();
            let args: Vec<usize> = if outer.n_in == 1 { vec![1] } else { vec![2, 1] };
            let main = if shape < 4 {
                Circ { n_in: 2, ins: vec![Call(io, args, no), Call(ii, vec![3], k)], cons: vec![], outs: vec![3, 2 + no + k] }
            } else {
                let a2: Vec<usize> = if outer.n_in == 1 { vec![2 + k] } else { vec![3, 3] };
                Circ {
                    n_in: 2,
                    ins: vec![Call(ii, vec![2], k), Call(io, a2, no), Call(io, args.clone(), no)],
                    cons: vec![],
                    outs: vec![2 + k + 1, 2 + k + 2 * no],
                }
            };
            out.push(mkprog(vec![(0, main), (io, outer), (ii, b.clone())], 0));
        }
    }
    out
}

/// Two different bodies in one main circuit, interleaved.
pub fn two_bodies(z: Sz, p: u32) -> Vec<Prog> {
    let mut out = vec![];
    let bs = bodies(1, z, p);
    for b in &bs {
        for d in &bs {
            let (k, m) = (b.outs.len(), d.outs.len());
            if k == 0 || m == 0 {
                continue;
            }
            let main = Circ {
                n_in: 1,
                ins: vec![Call(4, vec![1], k), Call(2, vec![2], m), Call(4, vec![2 + k], k)],
                cons: vec![],
                outs: vec![1 + k + m + k, 2],
            };
            out.push(mkprog(vec![(0, main), (4, b.clone()), (2, d.clone())], 0));
        }
    }
    out
}

fn one(n_in: usize, ins: Vec<Ins>, cons: Vec<(u8, usize)>, outs: Vec<usize>) -> Prog {
    wrap(n_in, ins, cons, outs, 0)
}

/// Layering: depth, width, relays, output orders, padding.
pub fn shapes(p: u32, big: bool) -> Vec<Prog> {
    let mut r = vec![];
    let n = if big { 14 } else { 9 };
    // depth chains with a second consumer of the first input at the end
    for d in 1..=n {
        let mut ins = vec![Mul(vec![1, 1])];
        for i in 1..d {
            ins.push(Mul(vec![2 + i, 1 + (i % 2)]));
        }
        let l = 2 + d;
        r.push(one(2, ins.clone(), vec![], vec![l]));
        r.push(one(2, ins.clone(), vec![], vec![l, 1, 3]));
        let mut j = ins.clone();
        j.push(Mul(vec![l, 2]));
        j.push(Lin(vec![(1, l + 1), (1, 2), (p - 1, 3)], 0));
        r.push(one(2, j.clone(), vec![(ZERO, l + 2)], vec![l]));
        r.push(one(2, j.clone(), (1..=l + 2).step_by(3).map(|v| (ZERO, v)).collect(), vec![2]));
        // every prefix value as output
        r.push(one(2, ins.clone(), vec![], (1..=l).rev().collect()));
        // squarings
        let sq: Vec<Ins> = (0..d).map(|i| Mul(vec![1 + i, 1 + i])).collect();
        r.push(one(1, sq.clone(), vec![(BOOL, 1 + d / 2)], vec![1 + d]));
        // a hint in the middle
        let mut h = sq.clone();
        h.push(Hint(77, vec![1 + d / 2], 1));
        h.push(Mul(vec![2 + d, 1 + d]));
        h.push(Lin(vec![(1, 3 + d), (p - 1, 1)], 0));
        r.push(one(1, h, vec![(ZERO, 4 + d)], vec![2 + d]));
    }
    // wide sums, products and outputs over m inputs
    for m in 1..=n {
        let all: Vec<usize> = (1..=m).collect();
        let sum = Lin(all.iter().map(|v| ((*v as u32) % p, *v)).collect(), 1);
        r.push(one(m, vec![sum.clone()], vec![], vec![m + 1]));
        r.push(one(m, vec![sum.clone(), Mul(vec![m + 1, m + 1])], vec![(ZERO, m + 1)], vec![m + 2]));
        r.push(one(m, vec![], vec![], all.clone()));
        r.push(one(m, vec![], vec![], all.iter().rev().cloned().collect()));
        r.push(one(m, vec![], all.iter().map(|v| (BOOL, *v)).collect(), vec![m]));
        if m >= 2 {
            r.push(one(m, vec![Mul(all.clone())], vec![], vec![m + 1]));
            r.push(one(m, vec![Mul(all.clone())], vec![(NONZERO, m + 1)], vec![1, m]));
            let mut ins = vec![];
            for i in 1..m {
                ins.push(Mul(vec![i, i + 1]));
            }
            let o: Vec<usize> = (m + 1..=2 * m - 1).collect();
            r.push(one(m, ins.clone(), vec![], o.clone()));
            r.push(one(m, ins.clone(), o.iter().map(|v| (ZERO, *v)).collect(), vec![m]));
            let s = Lin(o.iter().map(|v| (1, *v)).collect(), 0);
            let mut j = ins.clone();
            j.push(s);
            j.push(Mul(vec![2 * m, 1]));
            r.push(one(m, j, vec![], vec![2 * m + 1, 1]));
        }
        // subset of inputs used
        for step in 2..=3 {
            let used: Vec<usize> = (1..=m).step_by(step).collect();
            r.push(one(m, vec![], vec![], used.clone()));
            r.push(one(m, vec![Lin(used.iter().map(|v| (1, *v)).collect(), 0)], vec![(BOOL, m + 1)], vec![m + 1]));
        }
    }
    // output permutations and repetitions over three values at different depths
    let base = vec![Mul(vec![1, 2]), Mul(vec![3, 1]), Const(2)];
    for a in 1..=5 {
        for b in 1..=5 {
            r.push(one(2, base.clone(), vec![], vec![a, b]));
            r.push(wrap(2, base.clone(), vec![(ZERO, b)], vec![a, b, a], 1));
            r.push(wrap(2, base.clone(), vec![], vec![a, b, 4], 2));
            for c in 1..=5 {
                r.push(one(2, base.clone(), vec![], vec![a, b, c]));
            }
        }
    }
    // constants and publics as outputs / assertions / operands
    for k in 0..3u32 {
        let ins = vec![Const(k), Pub(1), Mul(vec![1, 3]), Lin(vec![(1, 2), (1, 1)], k), Mul(vec![2, 2])];
        for v in 2..=6 {
            r.push(one(1, ins.clone(), vec![], vec![v, 1]));
            for t in 0..3 {
                r.push(one(1, ins.clone(), vec![(t, v)], vec![1]));
            }
        }
    }
    r
}

/// Fan-out of a value into many multiplications.
pub fn fanout(p: u32, max: usize) -> Vec<Prog> {
    let mut r = vec![];
    for k in 1..=max {
        // x*y_i with distinct partners
        let mut ins = vec![];
        for i in 0..k {
            ins.push(Lin(vec![(1, 2)], i as u32 % p));
            ins.push(Mul(vec![1, 3 + 2 * i]));
        }
        let outs: Vec<usize> = (0..k).map(|i| 4 + 2 * i).collect();
        r.push(one(2, ins.clone(), vec![], outs.clone()));
        r.push(one(2, ins.clone(), outs.iter().map(|v| (ZERO, *v)).collect(), vec![1]));
        // chain: every product also feeds the next
        let mut ins = vec![Mul(vec![1, 1])];
        for i in 0..k {
            ins.push(Mul(vec![1, 3 + i]));
        }
        r.push(one(2, ins.clone(), vec![], vec![3 + k, 2]));
        // quadratic form in one linear combination: x*y + x*x + y*y ... (as sum of products)
        let mut ins = vec![];
        for i in 0..k {
            ins.push(Mul(vec![1, 1 + (i % 2)]));
        }
        let t: Vec<(u32, usize)> = (0..k).map(|i| (1 + i as u32 % (p - 1), 3 + i)).collect();
        ins.push(Lin(t, 0));
        ins.push(Mul(vec![3 + k, 1]));
        r.push(one(2, ins, vec![], vec![4 + k]));
        // through sub-circuits: x passed to k calls, each multiplying it twice
        let body = Circ { n_in: 2, ins: vec![Mul(vec![1, 2]), Mul(vec![1, 3])], cons: vec![], outs: vec![4] };
        let mut ins = vec![];
        for i in 0..k {
            ins.push(Call(1, vec![1, 2 + i], 1));
        }
        let main = Circ { n_in: 2, ins, cons: vec![], outs: vec![2 + k] };
        r.push(mkprog(vec![(0, main), (1, body)], 0));
        // sub-circuit whose own input fans out, returning its input
        let mut ins = vec![];
        for i in 0..k {
            ins.push(Mul(vec![1, 1 + i]));
        }
        let body = Circ { n_in: 1, ins, cons: vec![], outs: vec![1, 1 + k] };
        let main = Circ { n_in: 2, ins: vec![Call(1, vec![1], 2), Mul(vec![3, 2]), Mul(vec![3, 4])], cons: vec![], outs: vec![5, 6] };
        r.push(mkprog(vec![(0, main), (1, body)], 0));
    }
    r
}

/// Programs whose layers contain repeated structure (common parts, small segments, duplicate gates).
pub fn repeats(p: u32, big: bool) -> Vec<Prog> {
    let mut r = vec![];
    let n = if big { 6 } else { 4 };
    for m in 2..=n {
        for k in 1..=4 {
            // a body of k instructions called m times on shifted inputs
            let mut ins = vec![Mul(vec![1, 2])];
            for i in 1..k {
                ins.push(match i % 3 {
                    0 => Mul(vec![2 + i, 2 + i]),
                    1 => Lin(vec![(2, 2 + i), (1, 1)], 1),
                    _ => Mul(vec![2 + i, 1]),
                });
            }
            let body = Circ { n_in: 2, ins: ins.clone(), cons: vec![], outs: vec![2 + k] };
            let main = Circ {
                n_in: m + 1,
                ins: (1..=m).map(|i| Call(3, vec![i, i + 1], 1)).collect(),
                cons: vec![],
                outs: (m + 2..=2 * m + 1).collect(),
            };
            r.push(mkprog(vec![(0, main.clone()), (3, body.clone())], 0));
            let mut c2 = body.clone();
            c2.cons = vec![(ZERO, 2 + k)];
            r.push(mkprog(vec![(0, main.clone()), (3, c2)], 0));
            // the same computation without calls
            let mut flat = vec![];
            let mut outs = vec![];
            let mut v = m + 1;
            for i in 1..=m {
                let b = v;
                for (j, x) in ins.iter().enumerate() {
                    let f = |a: usize| if a <= 2 { i + a - 1 } else { b + a - 2 };
                    flat.push(match x {
                        Mul(a) => Mul(a.iter().map(|a| f(*a)).collect()),
                        Lin(t, c) => Lin(t.iter().map(|(k, a)| (*k, f(*a))).collect(), *c),
                        _ => unreachable!(),
                    });
                    let _ = j;
                    v += 1;
                }
                outs.push(v);
            }
            r.push(one(m + 1, flat.clone(), vec![], outs.clone()));
            r.push(one(m + 1, flat, outs.iter().map(|o| (ZERO, *o)).collect(), vec![1]));
            // chained calls
            let main = Circ {
                n_in: 2,
                ins: (1..=m).map(|i| Call(3, vec![i, i + 1], 1)).collect(),
                cons: vec![],
                outs: vec![m + 2],
            };
            r.push(mkprog(vec![(0, main), (3, body.clone())], 0));
        }
    }
    // terms that cancel or repeat
    for a in 0..p {
        for b in 0..p {
            r.push(one(2, vec![Mul(vec![1, 2]), Mul(vec![2, 1]), Lin(vec![(a, 3), (b, 4), (1, 1)], 0), Mul(vec![5, 5])], vec![], vec![6, 5]));
            r.push(one(2, vec![Lin(vec![(a, 1), (b, 2)], 1), Lin(vec![(1, 1), (b, 2)], a), Mul(vec![3, 4]), Lin(vec![(a, 5), (b, 1)], 0)], vec![(ZERO, 6)], vec![5]));
            r.push(one(2, vec![Lin(vec![(a, 1), (b, 1)], 0), Mul(vec![3, 2]), Lin(vec![(1, 4), (p - 1, 2)], b)], vec![(NONZERO, 5)], vec![5]));
        }
    }
    r
}

/// Assertions repeated, stacked or overlapping on the same value.
pub fn asserts(p: u32) -> Vec<Prog> {
    let mut r = vec![];
    let bases: Vec<(usize, Vec<Ins>)> = vec![
        (1, vec![]),
        (1, vec![Lin(vec![(1, 1)], 0)]),
        (1, vec![Lin(vec![(2, 1)], 1)]),
        (2, vec![Bool(1, 1, 2)]),
        (2, vec![Bool(3, 1, 2), Bool(2, 1, 3)]),
        (1, vec![IsZero(1), IsZero(2)]),
        (2, vec![Bin(1, 2), Bool(1, 3, 2)]),
        (2, vec![Mul(vec![1, 1]), Lin(vec![(1, 3), (p - 1, 1)], 0), Bool(2, 1, 2)]),
        (2, vec![IsZero(1), Bool(1, 3, 2), Lin(vec![(p - 1, 4)], 1)]),
        (2, vec![Div(1, 2, true), Div(1, 2, false)]),
        (1, vec![Const(1), Lin(vec![(1, 1), (p - 1, 2)], 0), Mul(vec![1, 3])]),
    ];
    for (n, ins) in bases {
        let v = Circ { n_in: n, ins: ins.clone(), ..Default::default() }.n_vars();
        let mut cs: Vec<(u8, usize)> = vec![];
        for t in 0..3 {
            for x in 1..=v {
                cs.push((t, x));
            }
        }
        for a in &cs {
            r.push(one(n, ins.clone(), vec![*a], vec![v]));
            for b in &cs {
                r.push(one(n, ins.clone(), vec![*a, *b], vec![1]));
            }
        }
        // the same assertion inside a called circuit
        for a in &cs {
            let body = Circ { n_in: n, ins: ins.clone(), cons: vec![*a, *a], outs: vec![v, 1] };
            let main = Circ {
                n_in: n,
                ins: vec![Call(9, (1..=n).collect(), 2), Call(9, (1..=n).rev().map(|i| if i == 1 { n + 1 } else { i }).collect(), 2)],
                cons: vec![(BOOL, 1)],
                outs: vec![n + 1, n + 4],
            };
            r.push(mkprog(vec![(0, main), (9, body)], 0));
        }
    }
    r
}

/// Left/right-nested sums and products (chains the source optimiser merges), with shared links.
pub fn chains(p: u32, max: usize) -> Vec<Prog> {
    let mut r = vec![];
    for k in 2..=max {
        for share in 0..=k {
            for kind in 0..4 {
                let mut ins = vec![];
                let n = 2;
                for i in 0..k {
                    let prev = if i == 0 { 1 } else { n + i };
                    let other = 1 + (i + 1) % 2;
                    ins.push(match kind {
                        0 => Lin(vec![(1, prev), (1, other)], 0),
                        1 => Mul(vec![prev, other]),
                        2 => Lin(vec![(2, other), (p - 1, prev)], i as u32 % p),
                        _ => {
                            if i % 3 == 2 {
                                Mul(vec![other, prev])
                            } else {
                                Lin(vec![(1, prev), (2, other), (1, 1)], 0)
                            }
                        }
                    });
                }
                let l = n + k;
                let mut outs = vec![l];
                if share < k && share > 0 {
                    outs.push(n + share);
                }
                r.push(one(n, ins.clone(), vec![], outs.clone()));
                if share > 0 && share < k {
                    let mut j = ins.clone();
                    j.push(Mul(vec![n + share, n + share]));
                    j.push(Lin(vec![(1, l), (1, l + 1)], 0));
                    r.push(one(n, j.clone(), vec![(ZERO, l + 2)], vec![1]));
                    r.push(one(n, ins.clone(), vec![(BOOL, n + share)], vec![l]));
                    // the chain inside a called circuit
                    let body = Circ { n_in: n, ins: ins.clone(), cons: vec![], outs };
                    let main = Circ { n_in: 2, ins: vec![Call(1, vec![2, 1], 2), Call(1, vec![3, 4], 2)], cons: vec![], outs: vec![5, 4] };
                    r.push(mkprog(vec![(0, main), (1, body)], 0));
                }
            }
        }
    }
    r
}

/// Chains of calls 2..=depth deep; at every level the callee's results are used, partly used or not at all.
pub fn deepcalls(p: u32, depth: usize) -> Vec<Prog> {
    let leafs: Vec<Circ> = vec![
        Circ { n_in: 1, ins: vec![], cons: vec![(ZERO, 1)], outs: vec![1] },
        Circ { n_in: 1, ins: vec![Bin(1, 1)], cons: vec![], outs: vec![1] },
        Circ { n_in: 1, ins: vec![Lin(vec![(1, 1)], 1), Div(1, 2, true)], cons: vec![], outs: vec![3, 1] },
        Circ { n_in: 1, ins: vec![Bool(1, 1, 1)], cons: vec![], outs: vec![2] },
        Circ { n_in: 1, ins: vec![Hint(77, vec![1], 1), Mul(vec![2, 2]), Lin(vec![(1, 3), (p - 1, 1)], 0)], cons: vec![(ZERO, 4)], outs: vec![2] },
        Circ { n_in: 1, ins: vec![Mul(vec![1, 1]), IsZero(2)], cons: vec![(BOOL, 1)], outs: vec![3, 2] },
        Circ { n_in: 1, ins: vec![Pub(0), Lin(vec![(1, 1), (p - 1, 2)], 0)], cons: vec![(NONZERO, 3)], outs: vec![3] },
        Circ { n_in: 1, ins: vec![Mul(vec![1, 1])], cons: vec![], outs: vec![2, 1] },
    ];
    let mut out = vec![];
    for leaf in &leafs {
        for d in 1..=depth {
            // per level: 0 results ignored, 1 first result returned, 2 last result used in a product
            let mut modes = vec![vec![]];
            for _ in 0..d {
                modes = modes.into_iter().flat_map(|v: Vec<usize>| (0..3).map(move |m| [&v[..], &[m]].concat())).collect();
            }
            for ms in modes {
                for rev in [false, true] {
                    let id = |lvl: usize| if rev { 10 - lvl } else { 1 + lvl };
                    let mut circs = vec![];
                    let mut k = leaf.outs.len();
                    circs.push((id(d), leaf.clone()));
                    for lvl in (0..d).rev() {
                        let root = lvl == 0;
                        let n_in = if root { 2 } else { 1 };
                        let mut ins = vec![Call(id(lvl + 1), vec![n_in], k)];
                        let l = n_in + k;
                        let outs = match ms[lvl] {
                            0 => vec![1],
                            1 => vec![n_in + 1],
                            _ => {
                                ins.push(Mul(vec![l, 1]));
                                vec![l + 1, 1]
                            }
                        };
                        k = outs.len();
                        circs.push((if root { 0 } else { id(lvl) }, Circ { n_in, ins, cons: vec![], outs }));
                    }
                    circs.reverse();
                    out.push(mkprog(circs.clone(), 0));
                    if !rev && d >= 2 {
                        // twice, once with the results used and once without
                        let (_, root) = &mut circs[0];
                        let kk = match &root.ins[0] {
                            Call(_, _, kk) => *kk,
                            _ => unreachable!(),
                        };
                        root.ins = vec![Call(id(1), vec![1], kk), Call(id(1), vec![2], kk), Call(id(1), vec![3], kk)];
                        root.outs = vec![3 + kk];
                        out.push(mkprog(circs, 0));
                    }
                }
            }
        }
    }
    out
}

/// Custom gates added into the same value, with equal and different types, operands and coefficients.
pub fn gates(p: u32) -> Vec<Prog> {
    let mut r = vec![];
    let g1 = [G_IDENT];
    let g2 = [G_EQ, G_DIV, G_BITXOR];
    let mut gs: Vec<Ins> = vec![];
    for a in 1..=2 {
        for t in g1 {
            gs.push(Gate(t, vec![a]));
        }
        for b in 1..=2 {
            for t in g2 {
                gs.push(Gate(t, vec![a, b]));
            }
        }
    }
    gs.push(Gate(G_SELECT, vec![1, 2, 1]));
    gs.push(Gate(G_SELECT, vec![2, 1, 1]));
    for a in &gs {
        for b in &gs {
            for (c1, c2) in [(1, 1), (1, p - 1), (2, 1)] {
                let ins = vec![a.clone(), b.clone(), Lin(vec![(c1, 3), (c2, 4)], 0)];
                r.push(one(2, ins.clone(), vec![], vec![5]));
                if c2 == p - 1 {
                    r.push(one(2, ins.clone(), vec![(ZERO, 5)], vec![1]));
                }
                let mut j = ins.clone();
                j.push(Mul(vec![5, 3]));
                r.push(one(2, j, vec![], vec![6, 4]));
            }
        }
        // through a call, beside a product of the same operands
        let body = Circ { n_in: 2, ins: vec![a.clone(), Mul(vec![1, 2]), Lin(vec![(1, 3), (2, 4), (1, 1)], 1)], cons: vec![], outs: vec![5, 3] };
        let main = Circ { n_in: 2, ins: vec![Call(6, vec![1, 2], 2), Call(6, vec![2, 3], 2), Lin(vec![(1, 3), (1, 5)], 0)], cons: vec![], outs: vec![7, 6] };
        r.push(mkprog(vec![(0, main), (6, body)], 0));
    }
    r
}

/// Public inputs in every role, repeated and out of order.
pub fn pubs(p: u32) -> Vec<Prog> {
    let mut r = vec![];
    for perm in [[0usize, 1, 2], [2, 0, 1], [1, 1, 0], [2, 2, 2]] {
        let base = vec![Pub(perm[0]), Pub(perm[1]), Pub(perm[2])];
        let mut tails: Vec<Vec<Ins>> = vec![vec![]];
        for o in [
            Lin(vec![(1, 1), (2, 2), (p - 1, 3)], 1),
            Lin(vec![(1, 2), (1, 3)], 0),
            Mul(vec![1, 2]),
            Mul(vec![2, 3]),
            Mul(vec![1, 2, 4]),
            Mul(vec![2, 2, 3, 1]),
            Div(1, 2, true),
            Div(2, 1, false),
            Bool(1, 2, 1),
            Bool(3, 2, 3),
            IsZero(2),
            Bin(3, 2),
            Hint(77, vec![2, 1], 1),
            UBin(16, 2, 3),
            Sel(2, 1, 3),
        ] {
            tails.push(vec![o]);
        }
        for t in tails {
            let ins = [&base[..], &t[..]].concat();
            let l = 4 + t.iter().map(|i| i.n_out()).sum::<usize>();
            r.push(one(1, ins.clone(), vec![], vec![l, 1]));
            r.push(one(1, ins.clone(), vec![(ZERO, l)], vec![1]));
            r.push(one(1, ins.clone(), vec![(BOOL, l), (NONZERO, 2)], vec![1, 3]));
            let mut j = ins.clone();
            j.push(Mul(vec![l, l]));
            j.push(Lin(vec![(1, l + 1), (p - 1, 1), (1, 2)], 0));
            r.push(one(1, j, vec![(ZERO, l + 2)], vec![l + 1]));
            let body = Circ { n_in: 1, ins: ins.clone(), cons: vec![(BOOL, 1)], outs: vec![l, 3] };
            let main = Circ { n_in: 2, ins: vec![Pub(0), Call(2, vec![1], 2), Call(2, vec![3], 2)], cons: vec![], outs: vec![4, 6] };
            r.push(mkprog(vec![(0, main), (2, body)], 0));
        }
    }
    r
}

/// Many placements of sub-circuits of different sizes side by side and on different layers.
pub fn grid(p: u32, big: bool) -> Vec<Prog> {
    let mut r = vec![];
    let (kk, mm, nn) = if big { (5, 5, 7) } else { (4, 4, 5) };
    let body = |k: usize, m: usize, deep: usize| -> Circ {
        let mut ins = vec![];
        for j in 0..m {
            ins.push(Mul(vec![1 + j % k, 1 + (j + 1) % k]));
        }
        for d in 0..deep {
            ins.push(Mul(vec![k + 1 + d, 1]));
        }
        let l = k + m + deep;
        let mut outs: Vec<usize> = (k + 1..=k + m).collect();
        outs[m - 1] = l;
        Circ { n_in: k, ins, cons: vec![], outs }
    };
    for k in 1..=kk {
        for m in 1..=mm {
            for n in 1..=nn {
                for deep in 0..2 {
                    let b = body(k, m, deep);
                    let n_in = 3;
                    // parallel calls with rotated arguments
                    let ins: Vec<Ins> = (0..n).map(|c| Call(1, (0..k).map(|j| 1 + (c + j) % n_in).collect(), m)).collect();
                    let outs: Vec<usize> = (0..n * m).map(|j| n_in + 1 + j).collect();
                    r.push(mkprog(vec![(0, Circ { n_in, ins: ins.clone(), cons: vec![], outs: outs.clone() }), (1, b.clone())], 0));
                    let mut c = ins.clone();
                    c.push(Lin(outs.iter().enumerate().map(|(i, v)| (1 + i as u32 % (p - 1), *v)).collect(), 0));
                    c.push(Mul(vec![n_in + n * m + 1, 2]));
                    r.push(mkprog(vec![(0, Circ { n_in, ins: c, cons: outs.iter().step_by(2).map(|v| (BOOL, *v)).collect(), outs: vec![n_in + n * m + 2] }), (1, b.clone())], 0));
                    // mixed with a second body that takes results of the first
                    let b2 = body(m.max(1), 2, 1);
                    let mut c = ins.clone();
                    let mut l = n_in + n * m;
                    let mut o = vec![];
                    for q in 0..n {
                        c.push(Call(2, (0..m).map(|j| n_in + 1 + q * m + (j + q) % m).collect(), 2));
                        o.push(l + 2);
                        l += 2;
                    }
                    o.push(1);
                    r.push(mkprog(vec![(0, Circ { n_in, ins: c.clone(), cons: vec![], outs: o.clone() }), (1, b.clone()), (2, b2.clone())], 0));
                    let mut b3 = b.clone();
                    b3.cons = vec![(ZERO, k + 1), (BOOL, 1)];
                    r.push(mkprog(vec![(0, Circ { n_in, ins: c, cons: vec![], outs: o }), (1, b3), (2, b2)], 0));
                }
            }
        }
    }
    r
}

/// Layers and segments sharing ten or more gates (candidates for common-part extraction).
pub fn common(p: u32, big: bool) -> Vec<Prog> {
    let mut r = vec![];
    let ws: &[usize] = if big { &[9, 10, 11, 12, 13, 16] } else { &[10, 12] };
    for &w in ws {
        for d in 2..=(if big { 5 } else { 3 }) {
            for kind in 0..7 {
                let mut ins = vec![];
                let mut cons = vec![];
                let mut cur: Vec<usize> = (1..=w).collect();
                let mut l = w;
                for j in 0..d {
                    let mut nxt = vec![];
                    if kind == 3 || kind == 4 {
                        ins.push(Pub(0));
                        ins.push(Pub(0));
                        ins.push(Pub(1));
                        l += 3;
                    }
                    let pb = l;
                    for i in 0..w {
                        let (a, b) = (cur[i], cur[(i + (kind == 5 && j % 2 == 1) as usize) % w]);
                        ins.push(Mul(vec![a, b]));
                        l += 1;
                        nxt.push(l);
                        if kind == 1 && i % 2 == 0 {
                            cons.push((ZERO, l));
                        }
                        if kind == 2 {
                            cons.push((BOOL, a));
                        }
                    }
                    if kind == 3 {
                        // public inputs added into values, twice the same one
                        let t = nxt.clone();
                        for (i, v) in t.iter().enumerate() {
                            let mut e = vec![(1, *v)];
                            if i < 3 || i == w - 1 {
                                e.push((1, pb - 2));
                                e.push((1, pb - 1));
                                e.push((1 + (i as u32 + j as u32) % (p - 1), pb));
                            }
                            ins.push(Lin(e, (i as u32) % p));
                            l += 1;
                            nxt[i] = l;
                        }
                    }
                    if kind == 4 {
                        for i in 0..w {
                            ins.push(Mul(vec![nxt[i], pb - 2 + i % 3]));
                            ins.push(Mul(vec![nxt[i], pb - 2 + (i + 1) % 3]));
                            ins.push(Lin(vec![(1, l + 1), (1, l + 2), (1, nxt[i])], 0));
                            l += 3;
                            nxt[i] = l;
                        }
                    }
                    if kind == 6 && j == 1 {
                        ins.push(Lin(nxt.iter().map(|v| (1, *v)).collect(), 2));
                        l += 1;
                        nxt[0] = l;
                    }
                    cur = nxt;
                }
                r.push(one(w, ins.clone(), cons.clone(), cur.clone()));
                r.push(one(w, ins.clone(), cons.clone(), vec![cur[0], cur[w / 2], 1]));
                let body = Circ { n_in: w, ins: ins.clone(), cons, outs: cur.clone() };
                let main = Circ {
                    n_in: 2,
                    ins: vec![
                        Call(1, (0..w).map(|i| 1 + i % 2).collect(), w),
                        Call(1, (0..w).map(|i| if i % 3 == 0 { 3 + i % w } else { 2 }).collect(), w),
                        Lin((0..w).map(|i| (1, 3 + w + i)).collect(), 0),
                    ],
                    cons: vec![],
                    outs: vec![3 + 2 * w, 3],
                };
                r.push(mkprog(vec![(0, main.clone()), (1, body.clone())], 0));
                // two bodies that share most of their gates
                let mut b2 = body.clone();
                let k = b2.ins.iter().rposition(|i| matches!(i, Mul(_))).unwrap();
                if let Mul(a) = &mut b2.ins[k] {
                    a[1] = 1;
                }
                b2.cons.clear();
                let mut m2 = main;
                if let Call(id, _, _) = &mut m2.ins[1] {
                    *id = 2;
                }
                r.push(mkprog(vec![(0, m2), (1, body), (2, b2)], 0));
            }
        }
    }
    r
}

/// Several different sub-circuits of different depths and with constraints and hints, called side by
/// side, chained and nested; values carried over many layers.
pub fn wide(p: u32, big: bool) -> Vec<Prog> {
    let mut r = vec![];
    let body = |depth: usize, flavour: usize| -> Circ {
        let mut ins = vec![];
        let mut cons = vec![];
        let mut l = 2;
        let mut outs = vec![];
        for d in 0..depth {
            ins.push(Mul(vec![l, 1 + d % 2]));
            l += 1;
        }
        outs.push(l);
        match flavour {
            0 => {
                cons.push((ZERO, 1));
                cons.push((BOOL, l));
                outs.push(2);
            }
            1 => {
                ins.push(Hint(70 + depth, vec![1, l], 2));
                ins.push(Mul(vec![l + 1, l + 2]));
                cons.push((ZERO, l + 3));
                cons.push((BOOL, l + 1));
                outs.push(l + 2);
                outs.push(1);
            }
            2 => {
                ins.push(IsZero(l));
                ins.push(Lin(vec![(1, 1), (p - 1, 2), (1, l + 1)], 1));
                outs.push(l + 2);
            }
            _ => {
                ins.push(Pub(0));
                ins.push(Mul(vec![l + 1, 1]));
                ins.push(Lin(vec![(1, l + 2), (2, 2)], 0));
                cons.push((NONZERO, l + 2));
                outs.push(l + 3);
            }
        }
        Circ { n_in: 2, ins, cons, outs }
    };
    let ids = [[1usize, 2, 3, 4], [9, 4, 70, 2], [1 << 33, 5, 1 << 50, 3]];
    let lim = if big { 256 } else { 64 };
    for n in 2..=4usize {
        for k in 0..lim {
            // depths and flavours as digits
            let bs: Vec<Circ> = (0..n).map(|i| body((k >> i) % 3 + i % 2, (k >> (2 * i) ^ i) % 4)).collect();
            let id = &ids[k % 3];
            for arr in 0..4 {
                let n_in = 3;
                let mut ins = vec![];
                let mut l = n_in;
                let mut first = vec![];
                let mut cons = vec![];
                let mut circs = vec![];
                for i in 0..n {
                    let no = bs[i].outs.len();
                    let a = match arr {
                        0 | 3 => vec![1 + i % 3, 1 + (i + 1) % 3],
                        1 if i > 0 => vec![first[i - 1], 1],
                        2 if i > 0 => vec![first[i - 1], first[i / 2]],
                        _ => vec![1, 2],
                    };
                    ins.push(Call(id[i], a, no));
                    first.push(l + 1);
                    if i % 2 == 0 {
                        cons.push((BOOL, l + no));
                    }
                    l += no;
                }
                if arr == 3 {
                    // every result meets every other one
                    for i in 0..n {
                        for j in 0..i {
                            ins.push(Mul(vec![first[i], first[j]]));
                            l += 1;
                        }
                    }
                    cons.push((ZERO, l));
                    ins.push(Call(id[0], vec![l, 3], bs[0].outs.len()));
                    l += bs[0].outs.len();
                }
                let mut outs: Vec<usize> = first.clone();
                outs.push(l);
                outs.push(3);
                circs.push((0, Circ { n_in, ins, cons, outs }));
                for i in 0..n {
                    let mut b = bs[i].clone();
                    if arr == 2 && i + 1 < n {
                        // nested as well: body i calls body i + 1
                        let no = bs[i + 1].outs.len();
                        b.ins.push(Call(id[i + 1], vec![2, 1], no));
                    }
                    circs.push((id[i], b));
                }
                r.push(mkprog(circs, 0));
            }
        }
    }
    r
}
