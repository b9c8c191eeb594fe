// Functions for C12. Included with the cache (as written) and, by build.rs, without it.
// `simple` and `ptr` come from the including module.

#[memorized]
fn add2<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    api.add(a, b)
}
#[memorized]
fn sub2<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    api.sub(a, b)
}
#[memorized]
fn mul2<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, b: &Variable) -> Variable {
    api.mul(*a, *b)
}
#[memorized]
fn first<C: Config, B: RootAPI<C>>(_api: &mut B, a: Variable, _b: &Variable) -> Variable {
    a
}
#[memorized]
fn eq2<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) {
    api.assert_is_equal(a, b)
}
#[memorized]
fn ne2<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) {
    api.assert_is_different(a, b)
}
#[memorized]
fn div_checked<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    api.div(a, b, true)
}
#[memorized]
fn both<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Vec<Variable> {
    vec![api.add(a, b), api.mul(a, b), a, a]
}
#[memorized]
fn sum<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) -> Variable {
    let mut r = api.constant(1);
    for x in v {
        r = api.add(r, x);
    }
    r
}
#[memorized]
fn rev<C: Config, B: RootAPI<C>>(_api: &mut B, v: Vec<Variable>) -> Vec<Variable> {
    v.into_iter().rev().collect()
}
#[memorized]
fn same<C: Config, B: RootAPI<C>>(_api: &mut B, v: Vec<Variable>) -> Vec<Variable> {
    v
}
#[memorized]
fn bools<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) {
    for x in v {
        api.assert_is_bool(x);
    }
}
#[memorized]
fn horner<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>, k: u32) -> Variable {
    let mut r = api.constant(0);
    for x in v {
        r = api.mul(r, k);
        r = api.add(r, x);
    }
    r
}
#[memorized]
fn two_lists<C: Config, B: RootAPI<C>>(api: &mut B, v: Vec<Variable>, w: &Vec<Variable>) -> Vec<Variable> {
    let mut r = vec![api.constant(v.len() as u32), api.constant(w.len() as u32)];
    for x in w.iter().chain(&v) {
        r.push(api.add(x, 1));
    }
    r
}
#[memorized]
fn grid<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Vec<Variable>>) -> Vec<Variable> {
    let mut r = vec![];
    for (i, row) in v.iter().enumerate() {
        let mut s = api.constant(i as u32);
        for (j, x) in row.iter().enumerate() {
            let t = api.mul(x, (j + 1) as u32);
            s = api.add(s, t);
        }
        r.push(s);
    }
    r
}
#[memorized]
fn flip<C: Config, B: RootAPI<C>>(api: &mut B, v: Vec<Vec<Variable>>) -> Vec<Vec<Variable>> {
    v.into_iter().rev().map(|r| r.into_iter().map(|x| api.sub(x, 1)).collect()).collect()
}
#[memorized]
fn deep<C: Config, B: RootAPI<C>>(_api: &mut B, v: Vec<Vec<Vec<Variable>>>) -> Vec<Vec<Vec<Variable>>> {
    v.into_iter().map(|r| r.into_iter().rev().collect()).collect()
}
#[memorized]
fn rows<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, n: usize) -> Vec<Vec<Variable>> {
    (0..n).map(|i| (0..i).map(|j| api.add(a, (i + j) as u32)).collect()).collect()
}
#[memorized]
fn scaled<C: Config, B: RootAPI<C>>(api: &mut B, k: u32, a: Variable) -> Variable {
    api.mul(a, k)
}
#[memorized]
fn shifted<C: Config, B: RootAPI<C>>(api: &mut B, k: u32, a: Variable) -> Variable {
    api.add(a, k)
}
#[memorized]
fn signed<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, k: i32) -> Variable {
    let r = api.mul(a, k.unsigned_abs());
    if k < 0 {
        api.neg(r)
    } else {
        r
    }
}
#[memorized]
fn konst<C: Config, B: RootAPI<C>>(api: &mut B, k: u32, a: &Variable) -> Variable {
    let _ = a;
    api.constant(k)
}
#[memorized]
fn weights<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<u32>, w: Vec<i64>, a: Variable) -> Variable {
    let mut r = a;
    for k in v {
        r = api.mul(r, 2);
        r = api.add(r, *k);
    }
    for k in w {
        r = api.mul(r, 2);
        r = api.sub(r, k as u32);
    }
    r
}
#[memorized]
fn power<C: Config, B: RootAPI<C>>(api: &mut B, a: &Variable, n: u32) -> Variable {
    if n == 0 {
        return api.add(a, 1);
    }
    let t = memorized_power(api, a, n - 1);
    memorized_mul2(api, &t, a)
}
#[memorized]
fn outer<C: Config, B: RootAPI<C>>(api: &mut B, v: Vec<Variable>) -> Variable {
    // the same inner function on different shapes, and a checking one
    let s = memorized_sum(api, &v);
    let t = memorized_sum(api, &vec![s, v[0]]);
    memorized_ne2(api, t, v[0]);
    let r = memorized_rev(api, vec![s, t]);
    memorized_sub2(api, r[0], r[1])
}
#[memorized]
fn checked_outer<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    memorized_eq2(api, a, b);
    memorized_bools(api, &vec![a]);
    simple(api, s_add, &[a, b])[0]
}
mod other {
    use super::*;
    #[memorized]
    pub fn add2<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
        let t = api.add(a, b);
        api.add(t, 1)
    }
    pub fn call<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
        memorized_add2(api, a, b)
    }
}
fn local_one<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    #[memorized]
    fn local<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
        let t = api.mul(a, 2);
        api.add(t, b)
    }
    memorized_local(api, a, b)
}
fn local_two<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
    #[memorized]
    fn local<C: Config, B: RootAPI<C>>(api: &mut B, a: Variable, b: Variable) -> Variable {
        let t = api.mul(b, 2);
        api.sub(t, a)
    }
    memorized_local(api, a, b)
}

fn s_add<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) -> Vec<Variable> {
    let mut r = v[0];
    for x in &v[1..] {
        r = api.add(r, x);
    }
    vec![r, v[0]]
}
fn s_mul<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) -> Vec<Variable> {
    let mut r = v[0];
    for x in &v[1..] {
        r = api.mul(r, x);
    }
    vec![r]
}
fn s_check<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) -> Vec<Variable> {
    for x in v {
        api.assert_is_bool(x);
    }
    vec![]
}
fn s_nest<C: Config, B: RootAPI<C>>(api: &mut B, v: &Vec<Variable>) -> Vec<Variable> {
    let a = simple(api, s_add, v);
    let b = simple(api, s_add, &a);
    let c = memorized_sum(api, &b);
    vec![c, b[0]]
}

/// Calls of functions that do not use their arguments.
pub const FIXED: [usize; 2] = [45, 46];
pub const N: usize = 78;
/// Call number `k` of the alphabet on the operands x.
pub fn call<C: Config, B: RootAPI<C>>(api: &mut B, k: usize, x: [Variable; 3]) -> T {
    let [a, b, c] = x;
    match k {
        0 => memorized_add2(api, a, b).into(),
        1 => memorized_sub2(api, a, b).into(),
        2 => memorized_mul2(api, &a, &b).into(),
        3 => memorized_first(api, a, &b).into(),
        4 => memorized_eq2(api, a, b).into(),
        5 => memorized_ne2(api, a, b).into(),
        6 => memorized_div_checked(api, a, b).into(),
        7 => memorized_both(api, a, b).into(),
        8 => memorized_sum(api, &vec![a]).into(),
        9 => memorized_sum(api, &vec![a, b]).into(),
        10 => memorized_sum(api, &vec![a, a]).into(),
        11 => memorized_rev(api, vec![a, b]).into(),
        12 => memorized_rev(api, vec![a, b, c]).into(),
        13 => memorized_same(api, vec![a, b]).into(),
        14 => memorized_bools(api, &vec![a]).into(),
        15 => memorized_bools(api, &vec![a, b]).into(),
        16 => memorized_horner(api, &vec![a, b, c], 2).into(),
        17 => memorized_horner(api, &vec![a, b, c], 0).into(),
        18 => memorized_horner(api, &vec![a, b], 2).into(),
        19 => memorized_two_lists(api, vec![a], &vec![b, c]).into(),
        20 => memorized_two_lists(api, vec![a, b], &vec![c]).into(),
        21 => memorized_two_lists(api, vec![], &vec![a, b, c]).into(),
        22 => memorized_two_lists(api, vec![a, b, c], &vec![]).into(),
        23 => memorized_grid(api, &vec![vec![a], vec![b, c]]).into(),
        24 => memorized_grid(api, &vec![vec![a, b], vec![c]]).into(),
        25 => memorized_grid(api, &vec![vec![a, b, c]]).into(),
        26 => memorized_grid(api, &vec![vec![], vec![a, b, c]]).into(),
        27 => memorized_grid(api, &vec![vec![a, b, c], vec![]]).into(),
        28 => memorized_grid(api, &vec![vec![a], vec![b], vec![c]]).into(),
        29 => memorized_flip(api, vec![vec![a], vec![b, c]]).into(),
        30 => memorized_flip(api, vec![vec![a, b], vec![c]]).into(),
        31 => memorized_flip(api, vec![vec![], vec![a, b]]).into(),
        32 => memorized_deep(api, vec![vec![vec![a], vec![b]], vec![vec![c]]]).into(),
        33 => memorized_deep(api, vec![vec![vec![a]], vec![vec![b], vec![c]]]).into(),
        34 => memorized_deep(api, vec![vec![vec![a, b]], vec![vec![], vec![c]]]).into(),
        35 => memorized_rows(api, &a, 1).into(),
        36 => memorized_rows(api, &a, 3).into(),
        37 => memorized_rows(api, &a, 0).into(),
        38 => memorized_scaled(api, 1, a).into(),
        39 => memorized_scaled(api, 2, a).into(),
        40 => memorized_shifted(api, 1, a).into(),
        41 => memorized_shifted(api, 2, b).into(),
        42 => memorized_signed(api, &a, 1).into(),
        43 => memorized_signed(api, &a, -1).into(),
        44 => memorized_signed(api, &a, 11).into(),
        45 => memorized_konst(api, 1, &a).into(),
        46 => memorized_konst(api, 2, &a).into(),
        47 => memorized_weights(api, &vec![1], vec![1, 1], a).into(),
        48 => memorized_weights(api, &vec![1, 1], vec![1], a).into(),
        49 => memorized_weights(api, &vec![11], vec![], a).into(),
        50 => memorized_weights(api, &vec![], vec![11], a).into(),
        51 => memorized_power(api, &a, 0).into(),
        52 => memorized_power(api, &a, 1).into(),
        53 => memorized_power(api, &a, 2).into(),
        54 => memorized_outer(api, vec![a]).into(),
        55 => memorized_outer(api, vec![a, b]).into(),
        56 => memorized_checked_outer(api, a, b).into(),
        57 => other::call(api, a, b).into(),
        58 => local_one(api, a, b).into(),
        59 => local_two(api, a, b).into(),
        60 => simple(api, s_add, &[a, b]).into(),
        61 => simple(api, s_add, &[a]).into(),
        62 => simple(api, s_mul, &[a, b]).into(),
        63 => simple(api, s_mul, &[a, b, c]).into(),
        64 => simple(api, s_check, &[a]).into(),
        65 => simple(api, s_nest, &[a, b]).into(),
        // closures that capture what they compute with
        66..=68 => {
            let n = (k - 66) as u32;
            simple(api, move |api: &mut B, v: &Vec<Variable>| vec![api.add(v[0], n)], &[a]).into()
        }
        // function pointers
        69 | 70 => ptr(api, if k == 69 { s_add } else { s_mul }, &[a, b]).into(),
        // one closure type, captured twice and nested
        71 | 72 => {
            let n = (k - 71) as u32;
            let f = move |api: &mut B, v: &Vec<Variable>| {
                let r = api.mul(v[0], n + 1);
                simple(api, move |api: &mut B, v: &Vec<Variable>| vec![api.add(v[0], n)], &[r])
            };
            simple(api, f, &[a]).into()
        }
        73 => simple(api, |api: &mut B, v: &Vec<Variable>| vec![api.add(v[0], 1)], &[a]).into(),
        74 => simple(api, |api: &mut B, v: &Vec<Variable>| vec![api.add(v[0], 2)], &[a]).into(),
        // results of one call feeding the same function
        75 => {
            let t = memorized_both(api, a, b);
            memorized_both(api, t[1], t[0]).into()
        }
        76 => {
            let t = memorized_flip(api, vec![vec![a], vec![b, c]]);
            memorized_flip(api, t).into()
        }
        // both ways of calling
        _ => {
            let t = add2(api, a, b);
            let u = memorized_add2(api, b, c);
            api.mul(t, u).into()
        }
    }
}
