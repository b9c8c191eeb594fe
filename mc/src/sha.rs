//! C22 SHA-256 gadgets.
use crate::g::*;
use crate::lk::{digits, fe};
use crate::rt::{self, count, distinct, family, par, violation, Level};
use circuit_std_rs::sha256::gf2::SHA256GF2;
use circuit_std_rs::sha256::gf2_utils as gu;
use circuit_std_rs::sha256::{m31, m31_utils as mu};
use expander_compiler::field::FieldArith;
use expander_compiler::frontend::*;
use num_bigint::BigInt;
use serde_json::json;
use sha2::Digest;

// ---------------------------------------------------------------- oracle, over bit strings

/// First 32 bits of the fractional part of the n-th root of a small prime, by integer search.
fn frac_root(p: u64, cube: bool) -> u32 {
    // largest r with r^k <= p * 2^(32k)
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    let t = |r: u128| -> bool {
        let a = r * r;
        if cube {
            // compare r^3 with p << 96 without overflowing
            let (q, b) = ((p as u128) << 96 >> 32, a);
            // r^3 <= p<<96  <=>  a*r <= (p<<96)
            let hi = (b >> 32) * r;
            let lo = (b & 0xffff_ffff) * r;
            let s = hi + (lo >> 32);
            s < q || (s == q && lo & 0xffff_ffff == 0)
        } else {
            a <= (p as u128) << 64
        }
    };
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if t(m) {
            lo = m
        } else {
            hi = m
        }
    }
    lo as u32
}
struct Oracle {
    k: Vec<u32>,
    iv: [u32; 8],
}
impl Oracle {
    fn new() -> Oracle {
        let pr: Vec<u64> = (2..400u64).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
        let k = pr.iter().map(|p| frac_root(*p, true)).collect();
        let mut iv = [0; 8];
        for i in 0..8 {
            iv[i] = frac_root(pr[i], false);
        }
        Oracle { k, iv }
    }
    fn compress(&self, st: &mut [u32; 8], blk: &[bool]) {
        let mut w: Vec<u32> = blk.chunks(32).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u32)).collect();
        for i in 16..64 {
            let s0 = s0(w[i - 15]);
            let s1 = s1(w[i - 2]);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = *st;
        for i in 0..64 {
            let t1 = v[7].wrapping_add(c1(v[4])).wrapping_add(v[4] & v[5] ^ !v[4] & v[6]).wrapping_add(self.k[i]).wrapping_add(w[i]);
            let t2 = c0(v[0]).wrapping_add(v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            st[i] = st[i].wrapping_add(v[i]);
        }
    }
    fn hash(&self, msg: &[bool]) -> Vec<bool> {
        let mut m = msg.to_vec();
        m.push(true);
        while m.len() % 512 != 448 {
            m.push(false);
        }
        m.extend((0..64).map(|i| msg.len() as u64 >> (63 - i) & 1 == 1));
        let mut st = self.iv;
        for b in m.chunks(512) {
            self.compress(&mut st, b);
        }
        st.iter().flat_map(|w| word_be(*w)).collect()
    }
}
fn s0(x: u32) -> u32 {
    x.rotate_right(7) ^ x.rotate_right(18) ^ x >> 3
}
fn s1(x: u32) -> u32 {
    x.rotate_right(17) ^ x.rotate_right(19) ^ x >> 10
}
fn c0(x: u32) -> u32 {
    x.rotate_right(2) ^ x.rotate_right(13) ^ x.rotate_right(22)
}
fn c1(x: u32) -> u32 {
    x.rotate_right(6) ^ x.rotate_right(11) ^ x.rotate_right(25)
}
fn word_be(w: u32) -> Vec<bool> {
    (0..32).map(|i| w >> (31 - i) & 1 == 1).collect()
}
fn word_le(w: u32) -> Vec<bool> {
    (0..32).map(|i| w >> i & 1 == 1).collect()
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect()
}
fn bytes_of(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ b.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 29)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 32)
}

fn vals<C: Config>(b: &[bool]) -> Vec<F<C>> {
    b.iter().map(|b| fe::<C>(*b as u128)).collect()
}
fn show<C: Config>(r: &Res<C>) -> String {
    match r {
        Ok(v) => v.iter().map(|x| x.to_u256().to_string()).collect::<Vec<_>>().join(","),
        Err(e) => format!("<{e}>"),
    }
}
/// Compares a run with what it should come to (None: turned down).
fn judge<C: Config>(what: &str, got: Res<C>, want: Option<Vec<F<C>>>) {
    rt::states(1);
    let ok = match (&got, &want) {
        (Ok(g), Some(w)) => g == w,
        (Err(_), None) => true,
        _ => false,
    };
    if !ok {
        let w = want.map(|v| show::<C>(&Ok(v))).unwrap_or("a rejection".into());
        violation(what, &format!("{what}: got {}, expected {w}", show::<C>(&got)), json!({"case": what}));
    }
}

// ---------------------------------------------------------------- words over GF(2)

#[derive(Clone, Copy, Debug)]
enum W {
    Ch,
    Maj,
    S0,
    S1,
    C0,
    C1,
    AddConst(u32),
    Brent,
    Vanilla,
    Add,
    Sum,
    Xor,
    And,
    Not,
    Rot(usize),
    Shr(usize),
    Lit(u32),
    Lit64(u64),
}
impl W {
    fn want(&self, w: &[u32]) -> Vec<bool> {
        let r = match self {
            W::Ch => w[0] & w[1] | !w[0] & w[2],
            W::Maj => w[0] & w[1] | w[0] & w[2] | w[1] & w[2],
            W::S0 => s0(w[0]),
            W::S1 => s1(w[0]),
            W::C0 => c0(w[0]),
            W::C1 => c1(w[0]),
            W::AddConst(k) => w[0].wrapping_add(*k),
            W::Brent | W::Vanilla | W::Add => w[0].wrapping_add(w[1]),
            W::Sum => w.iter().fold(0u32, |a, b| a.wrapping_add(*b)),
            W::Xor => w[0] ^ w[1],
            W::And => w[0] & w[1],
            W::Not => !w[0],
            W::Rot(k) => w[0].rotate_right(*k as u32),
            W::Shr(k) => ((w[0] as u64) >> k) as u32,
            W::Lit(k) => *k,
            W::Lit64(k) => return (0..64).map(|i| k >> (63 - i) & 1 == 1).collect(),
        };
        word_be(r)
    }
}
impl<C: Config> Gadget<C> for W {
    fn run<B: RootAPI<C>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let w: Vec<[Variable; 32]> = x.chunks(32).map(|c| c.try_into().unwrap()).collect();
        match self {
            W::Ch => gu::ch(api, &w[0], &w[1], &w[2]),
            W::Maj => gu::maj(api, &w[0], &w[1], &w[2]),
            W::S0 => gu::lower_case_sigma0(api, &w[0]),
            W::S1 => gu::lower_case_sigma1(api, &w[0]),
            W::C0 => gu::capital_sigma0(api, &w[0]),
            W::C1 => gu::capital_sigma1(api, &w[0]),
            W::AddConst(k) => gu::add_const(api, &w[0], *k),
            W::Brent => gu::add_brentkung(api, &w[0], &w[1]),
            W::Vanilla => gu::add_vanilla(api, &w[0], &w[1]),
            W::Add => gu::add(api, &w[0], &w[1]),
            W::Sum => gu::sum_all(api, &w),
            W::Xor => gu::xor(api, &w[0], &w[1]),
            W::And => gu::and(api, &w[0], &w[1]),
            W::Not => gu::not(api, &w[0]),
            W::Rot(k) => gu::rotate_right(&w[0], *k),
            W::Shr(k) => gu::shift_right(api, &w[0], *k),
            W::Lit(k) => gu::u32_to_bit(api, *k),
            W::Lit64(k) => return gu::u64_to_bit(api, *k).to_vec(),
        }
        .to_vec()
    }
}
fn word_set() -> Vec<u32> {
    let mut v = vec![0, !0, 0x5555_5555, 0xaaaa_aaaa, 0x3333_3333, 0x0f0f_0f0f, 0x00ff_00ff, 0xdead_beef, 0x0123_4567];
    for i in 0..32 {
        v.push(1 << i);
        v.push((1u64 << (i + 1)) as u32 - (i < 31) as u32);
        v.push(!(1u32 << i));
        v.push((!0u32) << i);
    }
    v.sort();
    v.dedup();
    v
}
fn word_case(w: W, a: &[u32]) {
    let x: Vec<bool> = a.iter().flat_map(|a| word_be(*a)).collect();
    distinct(&(format!("{w:?}"), a));
    judge::<GF2Config>(&format!("GF2 {w:?} of {a:x?}"), debug::<GF2Config, _, _>(&w, &vals::<GF2Config>(&x), EmptyHintCaller), Some(vals::<GF2Config>(&w.want(a))));
}
fn words(th: bool) {
    let ws = word_set();
    let n = ws.len();
    par(n, |i| {
        for w in [W::S0, W::S1, W::C0, W::C1, W::Not] {
            word_case(w, &[ws[i]]);
        }
        for k in 0..=32 {
            if k < 32 {
                word_case(W::Rot(k), &[ws[i]]);
            }
            word_case(W::Shr(k), &[ws[i]]);
        }
        word_case(W::Lit(ws[i]), &[]);
        for b in &ws {
            word_case(W::Lit64((ws[i] as u64) << 32 | *b as u64), &[]);
            for w in [W::AddConst(*b), W::Brent, W::Vanilla, W::Add, W::Xor, W::And] {
                let args: &[u32] = if matches!(w, W::AddConst(_)) { &[ws[i]] } else { &[ws[i], *b] };
                word_case(w, args);
            }
        }
    });
    // choice and majority are bitwise: all eight combinations at every position, and mixed
    let few: Vec<u32> = [0, !0, 0x5555_5555, 0xaaaa_aaaa, 0x3333_3333, 0x0f0f_0f0f, 0xdead_beef, 1, 0x8000_0000, 0x00f0_0000].to_vec();
    par(few.len().pow(3), |i| {
        let d: Vec<u32> = digits(i, few.len(), 3).iter().map(|d| few[*d]).collect();
        word_case(W::Ch, &d);
        word_case(W::Maj, &d);
        word_case(W::Sum, &d);
    });
    // every nibble of both operands at every position with and without an incoming carry,
    // above a generating or propagating tail and below a propagating or killing head
    par(8 * 256, |i| {
        let (pos, a, b) = (i / 256 * 4, (i / 16 % 16) as u32, (i % 16) as u32);
        let low = (1u64 << pos) as u32;
        for (ta, tb) in [(0, 0), (low.wrapping_sub(1), 1.min(low.wrapping_sub(1))), (low.wrapping_sub(1), 0)] {
            for (ha, hb) in [(0u32, 0u32), (!0, 0), (0x5555_5555, 0xaaaa_aaaa)] {
                let hm = if pos + 4 >= 32 { 0 } else { !0u32 << (pos + 4) };
                let (x, y) = (ha & hm | a << pos | ta, hb & hm | b << pos | tb);
                for w in [W::Brent, W::Vanilla] {
                    word_case(w, &[x, y]);
                    word_case(w, &[y, x]);
                }
                word_case(W::AddConst(y), &[x]);
            }
        }
    });
    // sums of one to seven words
    par(200, |i| {
        for k in 1..=7u64 {
            let a: Vec<u32> = (0..k).map(|j| if i % 3 == 0 { !0 - (i as u32 / 3) } else { mix(i as u64, j) as u32 }).collect();
            word_case(W::Sum, &a);
        }
    });
    if th {
        par(n * n, |i| {
            for k in 0..n {
                word_case(W::Ch, &[ws[i / n], ws[i % n], ws[k]]);
                word_case(W::Maj, &[ws[i / n], ws[i % n], ws[k]]);
            }
        });
    }
}

// ---------------------------------------------------------------- hashing over GF(2)

/// Message bits arrive in pieces of the given lengths.
#[derive(Clone, Debug)]
struct Gf2Hash {
    parts: Vec<usize>,
}
impl Gadget<GF2Config> for Gf2Hash {
    fn run<B: RootAPI<GF2Config>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut h = SHA256GF2::new();
        let mut x = x;
        for p in &self.parts {
            h.update(&x[..*p]);
            x = &x[*p..];
        }
        h.finalize(api)
    }
}
#[derive(Clone, Debug)]
struct Gf2Block;
impl Gadget<GF2Config> for Gf2Block {
    fn run<B: RootAPI<GF2Config>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let mut st: [[Variable; 32]; 8] = x[..256].chunks(32).map(|c| c.try_into().unwrap()).collect::<Vec<_>>().try_into().unwrap();
        SHA256GF2::new().sha256_compress(api, &mut st, x[256..].try_into().unwrap());
        st.concat()
    }
}
fn pattern(len: usize, p: u64) -> Vec<bool> {
    (0..len)
        .map(|i| match p {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            _ => mix(i as u64, p) & 1 == 1,
        })
        .collect()
}
fn gf2_hash_case(o: &Oracle, parts: &[usize], msg: &[bool], comp: Option<&Comp<GF2Config>>) {
    let g = Gf2Hash { parts: parts.to_vec() };
    distinct(&(parts, msg));
    let want = o.hash(msg);
    if msg.len() % 8 == 0 {
        // the oracle itself, wherever there is another
        let b = bytes_of(msg);
        assert_eq!(bytes_of(&want), sha2::Sha256::digest(&b).to_vec(), "oracle");
    }
    let x = vals::<GF2Config>(msg);
    let h = hex(&bytes_of(msg));
    let w = Some(vals::<GF2Config>(&want));
    match comp {
        None => judge::<GF2Config>(&format!("GF2 hash of {} bits {h} in pieces {parts:?}", msg.len()), debug::<GF2Config, _, _>(&g, &x, EmptyHintCaller), w),
        Some(c) => judge::<GF2Config>(&format!("GF2 hash of {} bits {h}, compiled", msg.len()), c.eval(&x, &EmptyHintCaller), w),
    }
}
fn gf2_hash(th: bool) {
    let o = Oracle::new();
    // every length, over and beyond two block boundaries
    let max = if th { 2100 } else { 1100 };
    par(max + 1, |i| {
        let len = max - i;
        for p in if th { vec![0, 1, 2, 3, 4] } else { vec![3, 1] } {
            gf2_hash_case(&o, &[len], &pattern(len, p), None);
        }
    });
    // every single-bit message up to a length
    par(if th { 96 } else { 40 }, |len| {
        for i in 0..len {
            let mut m = vec![false; len];
            m[i] = true;
            gf2_hash_case(&o, &[len], &m, None);
        }
    });
    // every message of up to eight bits
    par(511, |i| {
        let len = (i + 1).ilog2() as usize;
        let v = i + 1 - (1 << len);
        gf2_hash_case(&o, &[len], &(0..len).map(|k| v >> k & 1 == 1).collect::<Vec<_>>(), None);
    });
    // the same message in pieces
    par(65, |i| {
        for len in [64, 448, 513] {
            let cut = i * len / 64;
            gf2_hash_case(&o, &[cut, len - cut], &pattern(len, 5), None);
            gf2_hash_case(&o, &[cut / 2, cut - cut / 2, 0, len - cut], &pattern(len, 6), None);
        }
    });
}
fn gf2_block(th: bool) {
    let o = Oracle::new();
    let n = 768;
    let two = if th { 3000 } else { 300 };
    par(2 * n + two, |i| {
        let mut x = vec![i / n % 2 == 1; n];
        if i < 2 * n {
            x[i % n] ^= true;
        } else {
            let r = mix(i as u64, 99);
            x = if i % 2 == 0 { pattern(n, r | 8) } else { vec![false; n] };
            x[(r >> 3) as usize % n] ^= true;
            x[(r >> 33) as usize % n] ^= true;
        }
        let mut st = [0u32; 8];
        for (s, c) in st.iter_mut().zip(x.chunks(32)) {
            *s = c.iter().fold(0, |a, b| a << 1 | *b as u32);
        }
        o.compress(&mut st, &x[256..]);
        let want: Vec<bool> = st.iter().flat_map(|w| word_be(*w)).collect();
        distinct(&("block", &x));
        judge::<GF2Config>(
            &format!("GF2 compression of {}", hex(&bytes_of(&x))),
            debug::<GF2Config, _, _>(&Gf2Block, &vals::<GF2Config>(&x), EmptyHintCaller),
            Some(vals::<GF2Config>(&want)),
        );
    });
}
fn gf2_compiled(th: bool) {
    let o = Oracle::new();
    let lens: Vec<usize> = if th { vec![1, 8, 100, 440, 447, 448, 449, 500, 511, 512, 513, 960] } else { vec![1, 300, 447, 448, 511, 513] };
    par(lens.len(), |i| {
        let len = lens[lens.len() - 1 - i];
        match compiled::<GF2Config, _>(&Gf2Hash { parts: vec![len] }, len) {
            Err(e) => violation(&format!("GF2 hash of {len} bits"), &format!("GF2 hash of {len} bits does not compile: {e}"), json!({"len": len})),
            Ok(c) => {
                for p in 0..if th { 20 } else { 6 } {
                    gf2_hash_case(&o, &[len], &pattern(len, p), Some(&c));
                }
            }
        }
    });
}

// ---------------------------------------------------------------- hashing over M31

#[derive(Clone, Debug)]
enum M {
    Bytes37,
    Compress37,
    Batch(usize),
    Var(usize),
    Check37,
    CheckCompress,
    CheckBatch(usize),
}
impl M {
    fn n_in(&self) -> usize {
        match self {
            M::Bytes37 => 37,
            M::Compress37 => 296,
            M::Batch(n) => 296 * n,
            M::Var(n) => *n,
            M::Check37 => 69,
            M::CheckCompress => 296 + 32,
            M::CheckBatch(n) => 328 * n,
        }
    }
}
impl Gadget<M31Config> for M {
    fn run<B: RootAPI<M31Config>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let chunk = |x: &[Variable], n: usize| -> Vec<Vec<Variable>> { x.chunks(n).map(|c| c.to_vec()).collect() };
        match self {
            M::Bytes37 => m31::sha256_37bytes(api, x),
            M::Compress37 => m31::sha256_37bytes_compress(api, x),
            M::Batch(_) => m31::sha256_37bytes_256batch_compress(api, &chunk(x, 296)).concat(),
            M::Var(_) => m31::sha256_var_bytes(api, x),
            M::Check37 => m31::check_sha256_37bytes(api, x),
            M::CheckCompress => m31::check_sha256_37bytes_compress(api, x),
            M::CheckBatch(n) => m31::check_sha256_37bytes_256batch_compress(api, &chunk(&x[..296 * n], 296), &chunk(&x[296 * n..], 32)).concat(),
        }
    }
}
/// The bit order of the "compress" entry points: nine words least significant bit first, then
/// the last byte most significant bit first.
fn compress_bits(b: &[u8]) -> Vec<bool> {
    let mut r = vec![];
    for w in b[..36].chunks(4) {
        r.extend(word_le(u32::from_be_bytes(w.try_into().unwrap())));
    }
    r.extend((0..8).map(|i| b[36] >> (7 - i) & 1 == 1));
    r
}
fn fb(b: &[u8]) -> Vec<F<M31Config>> {
    b.iter().map(|b| fe::<M31Config>(*b as u128)).collect()
}
fn sha(b: &[u8]) -> Vec<u8> {
    sha2::Sha256::digest(b).to_vec()
}
fn byte_pattern(len: usize, p: u64) -> Vec<u8> {
    (0..len)
        .map(|i| match p {
            0 => 0,
            1 => 255,
            2 => i as u8,
            _ => mix(i as u64, p) as u8,
        })
        .collect()
}
fn m31_case(m: &M, x: &[F<M31Config>], want: Option<&[u8]>, what: &str, comp: Option<&Comp<M31Config>>) {
    distinct(&(format!("{m:?}"), what));
    let w = want.map(fb);
    match comp {
        None => judge::<M31Config>(&format!("M31 {m:?} {what}"), debug::<M31Config, _, _>(m, x, EmptyHintCaller), w),
        Some(c) => judge::<M31Config>(&format!("M31 {m:?} {what}, compiled"), c.eval(x, &EmptyHintCaller), w),
    }
}
fn msgs37(th: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..if th { 60 } else { 8 }).map(|p| byte_pattern(37, p)).collect();
    for i in (0..296).step_by(if th { 1 } else { 3 }) {
        let mut m = vec![0u8; 37];
        m[i / 8] |= 0x80 >> (i % 8);
        v.push(m.clone());
        if th {
            v.push(m.iter().map(|b| !b).collect());
        }
    }
    v
}
fn m31_hash(th: bool) {
    let ms = msgs37(th);
    par(ms.len(), |i| {
        let m = &ms[i];
        m31_case(&M::Bytes37, &fb(m), Some(&sha(m)), &hex(m), None);
        m31_case(&M::Compress37, &vals::<M31Config>(&compress_bits(m)), Some(&sha(m)), &hex(m), None);
        m31_case(&M::Var(37), &fb(m), Some(&sha(m)), &hex(m), None);
    });
    // several messages that share their first 32 bytes
    par(if th { 24 } else { 8 }, |i| {
        let n = i % 4 + 1;
        let common = byte_pattern(32, i as u64 + 1);
        let ms: Vec<Vec<u8>> = (0..n).map(|k| [common.clone(), byte_pattern(5, (i * 7 + k * 3) as u64)].concat()).collect();
        let x: Vec<bool> = ms.iter().flat_map(|m| compress_bits(m)).collect();
        let w: Vec<u8> = ms.iter().flat_map(|m| sha(m)).collect();
        m31_case(&M::Batch(n), &vals::<M31Config>(&x), Some(&w), &ms.iter().map(|m| hex(m)).collect::<Vec<_>>().join(" "), None);
    });
    // every length
    let max = if th { 300 } else { 132 };
    par(max + 1, |i| {
        let len = max - i;
        for p in if th { vec![1, 2, 3] } else { vec![3] } {
            let m = byte_pattern(len, p);
            m31_case(&M::Var(len), &fb(&m), Some(&sha(&m)), &hex(&m), None);
        }
    });
    // lengths whose bit count needs more bytes
    let long: &[usize] = if th { &[8191, 8192, 8200] } else { &[1025] };
    par(long.len(), |i| {
        let m = byte_pattern(long[i], 4);
        m31_case(&M::Var(long[i]), &fb(&m), Some(&sha(&m)), &format!("{} bytes", long[i]), None);
    });
    // values that are no bytes or bits
    let bad = [256u128, 257, 1 << 16, 1 << 30, (1 << 31) - 2];
    par(37 * bad.len(), |i| {
        let mut x = fb(&byte_pattern(37, 3));
        x[i / bad.len()] = fe::<M31Config>(bad[i % bad.len()]);
        m31_case(&M::Bytes37, &x, None, &format!("byte {} = {}", i / bad.len(), bad[i % bad.len()]), None);
    });
}
fn m31_checks(th: bool) {
    let m = byte_pattern(37, 9);
    let d = sha(&m);
    let m2 = [byte_pattern(32, 9), byte_pattern(5, 77)].concat();
    let d2 = sha(&m2);
    par(if th { 32 * 12 + 1 } else { 32 * 3 + 1 }, |i| {
        let per = if th { 12 } else { 3 };
        // a byte off by one bit, or a value that only agrees modulo 256
        let delta = |b: u8, k: usize| -> u128 {
            match k {
                k if k < 8 && th => (b ^ 1 << k) as u128,
                0 => (b ^ 1 << (i % 8)) as u128,
                1 | 9 => b as u128 + 256,
                2 | 10 => (b as u128 + (1 << 31) - 1 - 256) % ((1 << 31) - 1),
                _ => (b as u128 + 1) % 256,
            }
        };
        for which in 0..4 {
            let mut dd: Vec<F<M31Config>> = fb(&d);
            let mut dd2: Vec<F<M31Config>> = fb(&d2);
            let good = i == 32 * per;
            if !good {
                if which == 3 {
                    dd2[i / per] = fe::<M31Config>(delta(d2[i / per], i % per));
                } else {
                    dd[i / per] = fe::<M31Config>(delta(d[i / per], i % per));
                }
            }
            let cb = vals::<M31Config>(&compress_bits(&m));
            let cb2 = vals::<M31Config>(&compress_bits(&m2));
            let (g, x, w) = match which {
                0 => (M::Check37, [fb(&m), dd].concat(), d.clone()),
                1 => (M::CheckCompress, [cb, dd].concat(), d.clone()),
                _ => (M::CheckBatch(2), [cb, cb2, dd, dd2].concat(), [d.clone(), d2.clone()].concat()),
            };
            m31_case(&g, &x, if good { Some(&w) } else { None }, &format!("claim {i} of kind {which}"), None);
        }
    });
}
fn m31_compiled(th: bool) {
    let gs: Vec<M> = if th {
        vec![M::Var(119), M::Batch(3), M::Var(64), M::Check37, M::Bytes37, M::Compress37, M::Var(1), M::Var(55), M::Var(56), M::CheckCompress]
    } else {
        vec![M::Var(56), M::Batch(2), M::Bytes37, M::CheckCompress, M::Var(3)]
    };
    par(gs.len(), |i| {
        let g = &gs[i];
        let c = match compiled::<M31Config, _>(g, g.n_in()) {
            Err(e) => return violation(&format!("M31 {g:?}"), &format!("M31 {g:?} does not compile: {e}"), json!({"gadget": format!("{g:?}")})),
            Ok(c) => c,
        };
        for p in 0..if th { 12 } else { 4 } {
            match g {
                M::Var(n) => {
                    let m = byte_pattern(*n, p);
                    m31_case(g, &fb(&m), Some(&sha(&m)), &hex(&m), Some(&c));
                    let mut x = fb(&m);
                    x[p as usize % n] = fe::<M31Config>(256 + p as u128);
                    m31_case(g, &x, None, &format!("{} with a byte too large", hex(&m)), Some(&c));
                }
                M::Bytes37 => {
                    let m = byte_pattern(37, p);
                    m31_case(g, &fb(&m), Some(&sha(&m)), &hex(&m), Some(&c));
                }
                M::Compress37 => {
                    let m = byte_pattern(37, p);
                    m31_case(g, &vals::<M31Config>(&compress_bits(&m)), Some(&sha(&m)), &hex(&m), Some(&c));
                }
                M::Batch(n) => {
                    let common = byte_pattern(32, p);
                    let ms: Vec<Vec<u8>> = (0..*n).map(|k| [common.clone(), byte_pattern(5, p * 7 + k as u64)].concat()).collect();
                    let x: Vec<bool> = ms.iter().flat_map(|m| compress_bits(m)).collect();
                    let w: Vec<u8> = ms.iter().flat_map(|m| sha(m)).collect();
                    m31_case(g, &vals::<M31Config>(&x), Some(&w), &format!("batch {p}"), Some(&c));
                }
                M::Check37 | M::CheckCompress => {
                    let m = byte_pattern(37, p);
                    let d = sha(&m);
                    let head = if matches!(g, M::Check37) { fb(&m) } else { vals::<M31Config>(&compress_bits(&m)) };
                    m31_case(g, &[head.clone(), fb(&d)].concat(), Some(&d), &format!("true claim {p}"), Some(&c));
                    for k in 0..32 {
                        let mut e = d.clone();
                        e[k] ^= 1 << (p % 8);
                        m31_case(g, &[head.clone(), fb(&e)].concat(), None, &format!("false claim {p} {k}"), Some(&c));
                    }
                }
                _ => {}
            }
        }
    });
}

// ---------------------------------------------------------------- arithmetic helpers over M31

#[derive(Clone, Debug)]
enum U {
    BytesToBits,
    Shr(usize),
    Rot(usize),
    S0,
    S1,
    C0,
    C1,
    Ch,
    Maj,
    AddNoReduce,
    AddReduce(usize),
    AddCarry(usize),
    Add26,
    ToM31,
    ToM3126,
    Put30,
    Put26,
    Put64,
    FromM31,
    Sep(usize),
    Binary,
    IsZero,
    LessBig(usize, usize),
    Less(usize),
    Div(u64),
}
impl Gadget<M31Config> for U {
    fn run<B: RootAPI<M31Config>>(&self, api: &mut B, x: &[Variable]) -> Vec<Variable> {
        let h = x.len() / 2;
        let t = x.len() / 3;
        let mut out = vec![api.constant(0); 8];
        match self {
            U::BytesToBits => mu::bytes_to_bits(api, x),
            U::Shr(k) => mu::right_shift(api, x, *k),
            U::Rot(k) => mu::rotate_right(x, *k),
            U::S0 => mu::sigma0(api, x),
            U::S1 => mu::sigma1(api, x),
            U::C0 => mu::cap_sigma0(api, x),
            U::C1 => mu::cap_sigma1(api, x),
            U::Ch => mu::ch(api, &x[..t], &x[t..2 * t], &x[2 * t..]),
            U::Maj => mu::maj(api, &x[..t], &x[t..2 * t], &x[2 * t..]),
            U::AddNoReduce => mu::big_array_add_no_reduce(api, &x[..h], &x[h..]),
            U::AddReduce(n) => mu::big_array_add_reduce(api, &x[..h], &x[h..], *n),
            U::AddCarry(n) => mu::big_array_add(api, &x[..h], &x[h..], *n),
            U::Add26 => mu::sha_m31_26_add(api, &x[..2], &x[2..], 26).to_vec(),
            U::ToM31 => mu::bit_array_to_m31(api, x).to_vec(),
            U::ToM3126 => mu::bit_array_to_m31_26(api, x).to_vec(),
            U::Put30 => {
                mu::big_endian_m31_array_put_uint32(api, &mut out, [x[0], x[1]]);
                out[..4].to_vec()
            }
            U::Put26 => {
                mu::m31_26_array_put_uint32(api, &mut out, [x[0], x[1]]);
                out[..4].to_vec()
            }
            U::Put64 => {
                mu::big_endian_put_uint64(api, &mut out, x[0]);
                out
            }
            U::FromM31 => mu::m31_to_bit_array(api, x),
            U::Sep(o) => mu::m31_26_to_bit_array_seperate(api, x, *o),
            U::Binary => vec![mu::from_binary(api, x.to_vec())],
            U::IsZero => vec![mu::big_is_zero(api, x.len(), x)],
            U::LessBig(n, k) => vec![mu::big_less_than(api, *n, *k, &x[..*k], &x[*k..])],
            U::Less(n) => vec![mu::my_is_less(api, *n, x[0], x[1])],
            U::Div(b) => {
                let (q, r) = mu::idiv_mod_bit(api, x[0], *b);
                vec![q, r]
            }
        }
    }
}
fn u_case(u: U, x: &[u64], want: Option<Vec<u64>>) {
    distinct(&(format!("{u:?}"), x));
    let f = |v: &[u64]| -> Vec<F<M31Config>> { v.iter().map(|v| fe::<M31Config>(*v as u128)).collect() };
    judge::<M31Config>(&format!("M31 {u:?} of {x:?}"), debug::<M31Config, _, _>(&u, &f(x), EmptyHintCaller), want.map(|w| f(&w)));
}
fn le(w: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| w >> i & 1).collect()
}
fn helpers(th: bool) {
    const P: u64 = (1 << 31) - 1;
    let ws = word_set();
    par(ws.len(), |i| {
        let w = ws[i];
        let b = le(w as u64, 32);
        let lw = |w: u32| Some(le(w as u64, 32));
        u_case(U::S0, &b, lw(s0(w)));
        u_case(U::S1, &b, lw(s1(w)));
        u_case(U::C0, &b, lw(c0(w)));
        u_case(U::C1, &b, lw(c1(w)));
        for k in 0..32 {
            u_case(U::Shr(k), &b, lw(w >> k));
            u_case(U::Rot(k), &b, lw(w.rotate_right(k as u32)));
        }
        u_case(U::BytesToBits, &w.to_be_bytes().map(|b| b as u64), lw(w));
        u_case(U::ToM3126, &b, Some(vec![(w & 0x3ff_ffff) as u64, (w >> 26) as u64]));
        u_case(U::ToM31, &b, Some(vec![(w & 0x3fff_ffff) as u64, (w >> 30) as u64]));
        let by = Some(w.to_be_bytes().map(|b| b as u64).to_vec());
        u_case(U::Put26, &[(w & 0x3ff_ffff) as u64, (w >> 26) as u64], by.clone());
        u_case(U::Put30, &[(w & 0x3fff_ffff) as u64, (w >> 30) as u64], by);
        let low = (w & 0x3fff_ffff) as u64;
        u_case(U::Put64, &[low], Some(low.to_be_bytes().map(|b| b as u64).to_vec()));
        u_case(U::FromM31, &[low, low >> 3], Some([le(low, 30), le(low >> 3, 30)].concat()));
        for k in 1..=30 {
            let v = low & ((1 << k) - 1);
            u_case(U::Binary, &le(v, k), Some(vec![v]));
        }
        for k in 0..=30 {
            u_case(U::Div(k), &[low], Some(vec![low >> k, low & ((1 << k) - 1)]));
        }
        // the lower element of a sum of up to sixteen words, the upper one with its overflow
        for o in 0..=6 {
            let hi = (w >> 26) as u64;
            for (lo, h) in [(low, hi), (low, hi << o), ((1 << 30) - 1, (1 << (6 + o)) - 1)] {
                let s = h + (lo >> 26);
                u_case(U::Sep(o), &[lo, h], (s < 1 << (7 + o)).then(|| [le(lo & 0x3ff_ffff, 26), le(s, 7 + o)].concat()));
            }
        }
        for v in &ws {
            let (a, b) = ((w & 0x3ff_ffff) as u64, (w >> 26) as u64);
            let (c, d) = ((v & 0x3ff_ffff) as u64, (v >> 26) as u64);
            let s = w.wrapping_add(*v);
            u_case(U::Add26, &[a, b, c, d], Some(vec![(s & 0x3ff_ffff) as u64, (s >> 26) as u64]));
            u_case(U::AddNoReduce, &[a, b, c, d], Some(vec![a + c, b + d]));
            let nn = 29;
            let (x, y) = ((w as u64) & ((1 << nn) - 1), (*v as u64) & ((1 << nn) - 1));
            u_case(U::Less(nn), &[x, y], Some(vec![(x < y) as u64]));
        }
    });
    // too large to be divided
    for v in [1 << 30, (1 << 30) + 1, P - 1] {
        u_case(U::Div(8), &[v], None);
        u_case(U::Put64, &[v], None);
        u_case(U::FromM31, &[v], None);
    }
    // choice and majority, all bit combinations
    par(512, |i| {
        let d = [i & 7, i >> 3 & 7, i >> 6 & 7];
        let m = d.map(|d| [0u32, !0, 0x5555_5555, 0x3333_3333, 0x0f0f_0f0f, 0xdead_beef, 0x8000_0001, 0x1234_5678][d]);
        let x: Vec<u64> = m.iter().flat_map(|m| le(*m as u64, 32)).collect();
        u_case(U::Ch, &x, Some(le((m[0] & m[1] | !m[0] & m[2]) as u64, 32)));
        u_case(U::Maj, &x, Some(le((m[0] & m[1] | m[0] & m[2] | m[1] & m[2]) as u64, 32)));
    });
    // comparisons of numbers of one to four limbs, every limb value
    for n in 1..=if th { 3 } else { 2 } {
        for k in 1..=4usize {
            let base = 1usize << n;
            if base.pow(2 * k as u32) > if th { 1 << 18 } else { 1 << 16 } {
                continue;
            }
            par(base.pow(2 * k as u32), |i| {
                let d: Vec<u64> = digits(i, base, 2 * k).iter().map(|d| *d as u64).collect();
                let v = |d: &[u64]| d.iter().rev().fold(0u64, |a, b| a << n | b);
                u_case(U::LessBig(n, k), &d, Some(vec![(v(&d[..k]) < v(&d[k..])) as u64]));
            });
        }
    }
    for n in 1..=if th { 6 } else { 4 } {
        par(1 << (2 * n), |i| {
            let (a, b) = ((i >> n) as u64, (i & ((1 << n) - 1)) as u64);
            u_case(U::Less(n), &[a, b], Some(vec![(a < b) as u64]));
        });
    }
    // sums of arrays with carries, every value of small limbs
    for n in 1..=if th { 3 } else { 2 } {
        for k in 1..=3usize {
            let base = 1usize << n;
            par(base.pow(2 * k as u32), |i| {
                let d: Vec<u64> = digits(i, base, 2 * k).iter().map(|d| *d as u64).collect();
                let v = |d: &[u64]| d.iter().rev().fold(0u64, |a, b| a << n | b);
                let s = v(&d[..k]) + v(&d[k..]);
                let limbs: Vec<u64> = (0..k).map(|i| s >> (n * i) & (base as u64 - 1)).collect();
                u_case(U::AddReduce(n), &d, Some(limbs.clone()));
                let mut top = limbs;
                top[k - 1] = s >> (n * (k - 1));
                u_case(U::AddCarry(n), &d, Some(top));
            });
        }
    }
    for n in [26usize, 29] {
        let v = [0u64, 1, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1)];
        par(v.len().pow(4), |i| {
            let d: Vec<u64> = digits(i, v.len(), 4).iter().map(|d| v[*d]).collect();
            let s = (d[0] + (d[1] << n)) + (d[2] + (d[3] << n));
            let m = (1 << n) - 1;
            u_case(U::AddReduce(n), &d, Some(vec![s & m, s >> n & m]));
            u_case(U::AddCarry(n), &d, Some(vec![s & m, s >> n]));
        });
    }
    // zero tests, every combination
    for k in 1..=5 {
        par(3usize.pow(k as u32), |i| {
            let d: Vec<u64> = digits(i, 3, k).iter().map(|d| [0, 1, P - 1][*d]).collect();
            u_case(U::IsZero, &d, Some(vec![d.iter().all(|d| *d == 0) as u64]));
        });
    }
    // numbers into limbs
    par(300, |i| {
        let nb = i % 30 + 1;
        let limbs = i / 30 + 1;
        let v = mix(i as u64, 3) as u128 | (mix(i as u64, 4) as u128) << 64;
        let v = v >> (i % 100);
        #[derive(Clone)]
        struct L(u128, usize, usize);
        impl Gadget<M31Config> for L {
            fn run<B: RootAPI<M31Config>>(&self, api: &mut B, _: &[Variable]) -> Vec<Variable> {
                mu::bigint_to_m31_array(api, BigInt::parse_bytes(self.0.to_string().as_bytes(), 10).unwrap(), self.1, self.2)
            }
        }
        let want: Vec<F<M31Config>> = (0..limbs).map(|k| fe::<M31Config>(if nb * k < 128 { v >> (nb * k) & ((1 << nb) - 1) } else { 0 })).collect();
        judge::<M31Config>(&format!("bigint_to_m31_array({v}, {nb}, {limbs})"), debug::<M31Config, _, _>(&L(v, nb, limbs), &[], EmptyHintCaller), Some(want));
        let got = rt::guard(|| mu::string_to_m31_array(&v.to_string(), nb as u32)).map(|a| a.to_vec());
        let want: Vec<F<M31Config>> = (0..48).map(|k| fe::<M31Config>(if nb * k < 128 { v >> (nb * k) & ((1 << nb) - 1) } else { 0 })).collect();
        judge::<M31Config>(&format!("string_to_m31_array({v}, {nb})"), got, Some(want));
    });
}

pub fn c22() -> ! {
    let th = rt::thorough();
    let o = Oracle::new();
    // the oracle against published values
    assert_eq!(o.iv[0], 0x6a09e667);
    assert_eq!(o.k[0], 0x428a2f98);
    assert_eq!(o.k[63], 0xc67178f2);
    assert_eq!(bytes_of(&o.hash(&bits_of(b"abc"))), sha(b"abc"));
    family("gf2-words", || words(th));
    family("gf2-block", || gf2_block(th));
    family("gf2-hash", || gf2_hash(th));
    family("gf2-compiled", || gf2_compiled(th));
    family("m31-helpers", || helpers(th));
    family("m31-hash", || m31_hash(th));
    family("m31-checks", || m31_checks(th));
    family("m31-compiled", || m31_compiled(th));
    count("oracle", 1);
    rt::finish_and_exit(
        Level::ModelChecking,
        "every message length across the block boundaries, every single-bit message and block, every nibble pair with carries in the word adders, every wrong digest byte; against an independent bit-level SHA-256 whose constants are recomputed from the primes, itself compared with the sha2 crate",
        &["the batch entry point is used as documented: all its messages share their first 32 bytes"],
    )
}
