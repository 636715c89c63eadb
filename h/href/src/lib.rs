//! Plain descriptions of the hashes, trees and transcripts, written without looking like the code
//! under test: unoptimised Poseidon with constants from the Grain generator, sequential trees.
extern crate ff;
use ff::{Field, PrimeField, PrimeFieldRepr};
use std::sync::OnceLock;
use vh::gl;
use vh::GL_P;

mod glc;

pub mod bn {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
    #[PrimeFieldGenerator = "7"]
    pub struct Fr(pub FrRepr);
}
pub mod bls {
    use ff::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
    #[PrimeFieldGenerator = "7"]
    pub struct Fr(pub FrRepr);
}

// ------------------------------------------------------------------------------- Goldilocks Poseidon

const MDS: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];

pub fn gl_perm(s: &[u64; 12]) -> [u64; 12] {
    let mut s = *s;
    for r in 0..30 {
        s = gl_round(&s, r);
    }
    s
}
pub fn gl_round(s: &[u64; 12], r: usize) -> [u64; 12] {
    let mut s = *s;
    for i in 0..12 {
        s[i] = gl::add(s[i], glc::C[r * 12 + i]);
    }
    let sbox = |x: u64| {
        let x2 = gl::mul(x, x);
        gl::mul(gl::mul(gl::mul(x2, x2), x2), x)
    };
    if !(4..26).contains(&r) {
        for x in s.iter_mut() {
            *x = sbox(*x);
        }
    } else {
        s[0] = sbox(s[0]);
    }
    let mut n = [0u64; 12];
    for i in 0..12 {
        let mut acc = 0u128;
        for j in 0..12 {
            acc += MDS[(j + 12 - i) % 12] as u128 * s[j] as u128;
        }
        if i == 0 {
            acc += 8 * s[0] as u128;
        }
        n[i] = (acc % GL_P as u128) as u64;
    }
    n
}
pub fn gl_hash(inp: &[u64], cap: &[u64]) -> [u64; 12] {
    let mut s = [0u64; 12];
    s[..8].copy_from_slice(inp);
    s[8..].copy_from_slice(cap);
    gl_perm(&s)
}
pub type D4 = [u64; 4];
fn raw4(v: &[u64]) -> D4 {
    let mut d = [0; 4];
    d[..v.len()].copy_from_slice(v);
    d
}
/// Sponge of rate 8 over the values, short inputs kept as they are.
pub fn gl_sponge(v: &[u64]) -> D4 {
    if v.len() <= 4 {
        return raw4(v);
    }
    let mut st = [0u64; 4];
    for c in v.chunks(8) {
        let mut b = [0u64; 8];
        b[..c.len()].copy_from_slice(c);
        let o = gl_hash(&b, &st);
        st.copy_from_slice(&o[..4]);
    }
    st
}
/// Linear hash: sponge per batch, then sponge of the batch digests.
pub fn gl_linear(v: &[u64], batch: usize) -> D4 {
    if v.len() <= 4 {
        return raw4(v);
    }
    let bs = if batch == 0 { (v.len().div_ceil(4)).max(8) } else { batch };
    let digests: Vec<u64> = v.chunks(bs).flat_map(|c| gl_sponge(c)).collect();
    gl_sponge(&digests)
}

// --------------------------------------------------------------------------- 256-bit field Poseidon

pub struct Params<F> {
    pub c: Vec<F>,
    pub m: Vec<Vec<F>>,
    pub partial: usize,
}
/// The Grain LFSR parameter generator of the Poseidon reference implementation.
struct Grain {
    s: [u8; 80],
    pos: usize,
    n: usize,
}
impl Grain {
    fn new(sbox: u32, n: usize, t: usize, rf: usize, rp: usize) -> Self {
        let mut bits = vec![];
        let mut put = |v: u64, w: usize| (0..w).rev().for_each(|i| bits.push((v >> i & 1) as u8));
        put(1, 2);
        put(sbox as u64, 4);
        put(n as u64, 12);
        put(t as u64, 12);
        put(rf as u64, 10);
        put(rp as u64, 10);
        put((1 << 30) - 1, 30);
        let mut g = Grain { s: bits.try_into().unwrap(), pos: 0, n };
        (0..160).for_each(|_| {
            g.step();
        });
        g
    }
    fn step(&mut self) -> u8 {
        let at = |i: usize| self.s[(self.pos + i) % 80];
        let b = at(62) ^ at(51) ^ at(38) ^ at(23) ^ at(13) ^ at(0);
        self.s[self.pos] = b;
        self.pos = (self.pos + 1) % 80;
        b
    }
    fn bit(&mut self) -> u8 {
        while self.step() == 0 {
            self.step();
        }
        self.step()
    }
    fn raw(&mut self) -> [u64; 4] {
        let mut v = [0u64; 4];
        for i in (0..self.n).rev() {
            v[i / 64] |= (self.bit() as u64) << (i % 64);
        }
        v
    }
    fn field<F: PrimeField>(&mut self) -> F {
        loop {
            if let Some(f) = from_limbs::<F>(self.raw()) {
                return f;
            }
        }
    }
    /// without rejection: reduced
    fn field_mod<F: PrimeField>(&mut self) -> F {
        let mut v = self.raw();
        loop {
            match from_limbs::<F>(v) {
                Some(f) => return f,
                None => {
                    let mut r = F::Repr::default();
                    r.as_mut().copy_from_slice(&v);
                    r.sub_noborrow(&F::char());
                    v.copy_from_slice(r.as_ref());
                }
            }
        }
    }
}
/// canonical little-endian limbs
pub fn from_limbs<F: PrimeField>(v: [u64; 4]) -> Option<F> {
    let mut r = F::Repr::default();
    r.as_mut().copy_from_slice(&v);
    F::from_repr(r).ok()
}
pub fn to_limbs<F: PrimeField>(f: &F) -> [u64; 4] {
    f.into_repr().as_ref().try_into().unwrap()
}
pub fn raw_limbs<F: PrimeField>(f: &F) -> [u64; 4] {
    f.into_raw_repr().as_ref().try_into().unwrap()
}
/// Any 256-bit integer, reduced.
pub fn reduce<F: PrimeField>(v: [u64; 4]) -> F {
    let mut base = F::one();
    for _ in 0..64 {
        base.double();
    }
    let mut acc = F::zero();
    for l in v.iter().rev() {
        acc.mul_assign(&base);
        acc.add_assign(&from_limbs::<F>([*l, 0, 0, 0]).unwrap());
    }
    acc
}

pub trait Spec: Send + Sync + 'static {
    type F: PrimeField;
    const NAME: &'static str;
    const PARTIAL: [usize; 16];
    fn params(t: usize) -> &'static Params<Self::F>;
    /// which state element is the digest
    const OUT: usize;
}
fn cauchy<F: PrimeField>(xs: &[F], ys: &[F]) -> Vec<Vec<F>> {
    xs.iter()
        .map(|x| {
            ys.iter()
                .map(|y| {
                    let mut s = *x;
                    s.add_assign(y);
                    s.inverse().unwrap()
                })
                .collect()
        })
        .collect()
}
pub struct Bn;
impl Spec for Bn {
    type F = bn::Fr;
    const NAME: &'static str = "BN128";
    const PARTIAL: [usize; 16] = [56, 57, 56, 60, 60, 63, 64, 63, 60, 66, 60, 65, 70, 60, 64, 68];
    const OUT: usize = 0;
    fn params(t: usize) -> &'static Params<bn::Fr> {
        static P: [OnceLock<Params<bn::Fr>>; 16] = [const { OnceLock::new() }; 16];
        P[t - 2].get_or_init(|| {
            let partial = Self::PARTIAL[t - 2];
            let mut g = Grain::new(0, 254, t, 8, partial);
            let c = (0..(8 + partial) * t).map(|_| g.field()).collect();
            // the first candidate matrix is free of repeated and opposite elements for all 16 widths
            let xy: Vec<bn::Fr> = (0..2 * t).map(|_| g.field_mod()).collect();
            Params { c, m: cauchy(&xy[..t], &xy[t..]), partial }
        })
    }
}
pub struct Bls;
impl Spec for Bls {
    type F = bls::Fr;
    const NAME: &'static str = "BLS12381";
    const PARTIAL: [usize; 16] = [55, 55, 56, 56, 56, 56, 57, 57, 57, 57, 57, 57, 57, 57, 59, 59];
    const OUT: usize = 1;
    fn params(t: usize) -> &'static Params<bls::Fr> {
        static P: [OnceLock<Params<bls::Fr>>; 16] = [const { OnceLock::new() }; 16];
        P[t - 2].get_or_init(|| {
            let partial = Self::PARTIAL[t - 2];
            let mut g = Grain::new(1, 255, t, 8, partial);
            let c = (0..(8 + partial) * t).map(|_| g.field()).collect();
            let n = |i: usize| from_limbs::<bls::Fr>([i as u64, 0, 0, 0]).unwrap();
            let xs: Vec<_> = (0..t).map(n).collect();
            let ys: Vec<_> = (t..2 * t).map(n).collect();
            Params { c, m: cauchy(&xs, &ys), partial }
        })
    }
}
/// Full state after the permutation of (init, inp...).
pub fn perm<S: Spec>(inp: &[S::F], init: &S::F) -> Vec<S::F> {
    let t = inp.len() + 1;
    let p = S::params(t);
    let mut s = vec![*init];
    s.extend_from_slice(inp);
    let pow5 = |x: &mut S::F| {
        let a = *x;
        x.square();
        x.square();
        x.mul_assign(&a);
    };
    for r in 0..8 + p.partial {
        for i in 0..t {
            s[i].add_assign(&p.c[r * t + i]);
        }
        if r < 4 || r >= 4 + p.partial {
            s.iter_mut().for_each(pow5);
        } else {
            pow5(&mut s[0]);
        }
        let mut n = vec![S::F::zero(); t];
        for i in 0..t {
            for j in 0..t {
                let mut a = p.m[i][j];
                a.mul_assign(&s[j]);
                n[i].add_assign(&a);
            }
        }
        s = n;
    }
    s
}
pub fn digest<S: Spec>(inp: &[S::F], init: &S::F) -> S::F {
    perm::<S>(inp, init)[S::OUT]
}
/// Groups of three limbs per scalar; one group is the digest itself; else a sponge of rate 16.
pub fn fr_linear<S: Spec>(v: &[u64]) -> S::F {
    let groups: Vec<S::F> = v
        .chunks(3)
        .map(|c| {
            let mut l = [0u64; 4];
            l[..c.len()].copy_from_slice(c);
            from_limbs(l).unwrap()
        })
        .collect();
    match groups.len() {
        0 => S::F::zero(),
        1 => groups[0],
        _ => {
            let mut st = S::F::zero();
            for c in groups.chunks(16) {
                st = digest::<S>(c, &st);
            }
            st
        }
    }
}

// ------------------------------------------------------------------------------------- Merkle trees

/// All levels of a tree, padded to whole groups of children; the last level is the root alone.
pub fn levels<D: Clone>(leaves: Vec<D>, arity: usize, zero: D, node: impl Fn(&[D]) -> D) -> Vec<Vec<D>> {
    let mut out = vec![leaves];
    while out.last().unwrap().len() > 1 {
        let l = out.last_mut().unwrap();
        while l.len() % arity != 0 {
            l.push(zero.clone());
        }
        let next: Vec<D> = l.chunks(arity).map(&node).collect();
        out.push(next);
    }
    out
}
pub fn gl_levels(rows: &[Vec<u64>]) -> Vec<Vec<D4>> {
    levels(rows.iter().map(|r| gl_linear(r, 0)).collect(), 2, [0; 4], |c| {
        let mut b = [0u64; 8];
        b[..4].copy_from_slice(&c[0]);
        b[4..].copy_from_slice(&c[1]);
        gl_hash(&b, &[0; 4])[..4].try_into().unwrap()
    })
}
pub fn fr_levels<S: Spec>(rows: &[Vec<u64>]) -> Vec<Vec<S::F>> {
    let zero = S::F::zero();
    levels(rows.iter().map(|r| fr_linear::<S>(r)).collect(), 16, zero, |c| digest::<S>(c, &zero))
}

// -------------------------------------------------------------------------------------- transcripts

/// Goldilocks transcript: a list of pending values and unread output.
#[derive(Default)]
pub struct GlTranscript {
    state: D4,
    pending: Vec<u64>,
    out: std::collections::VecDeque<u64>,
}
impl GlTranscript {
    fn update(&mut self) {
        let mut b = [0u64; 8];
        b[..self.pending.len()].copy_from_slice(&self.pending);
        let o = gl_hash(&b, &self.state);
        self.pending.clear();
        self.state.copy_from_slice(&o[..4]);
        self.out = o.into_iter().collect();
    }
    pub fn put(&mut self, v: u64) {
        self.out.clear();
        self.pending.push(v);
        if self.pending.len() == 8 {
            self.update();
        }
    }
    pub fn get1(&mut self) -> u64 {
        if self.out.is_empty() {
            self.update();
        }
        self.out.pop_front().unwrap()
    }
    pub fn permutations(&mut self, n: usize, bits: usize) -> Vec<usize> {
        let words: Vec<u64> = (0..(n * bits).div_ceil(63)).map(|_| self.get1()).collect();
        let mut all = words.iter().flat_map(|w| (0..63).map(move |i| w >> i & 1 == 1));
        (0..n).map(|_| (0..bits).fold(0, |a, j| a | (all.next().unwrap() as usize) << j)).collect()
    }
}
/// 256-bit transcript: rate 16, 17 outputs, each giving three 64-bit limbs.
pub struct FrTranscript<S: Spec> {
    state: S::F,
    pending: Vec<S::F>,
    out: std::collections::VecDeque<S::F>,
    limbs: std::collections::VecDeque<u64>,
}
impl<S: Spec> Default for FrTranscript<S> {
    fn default() -> Self {
        FrTranscript { state: S::F::zero(), pending: vec![], out: Default::default(), limbs: Default::default() }
    }
}
impl<S: Spec> FrTranscript<S> {
    fn update(&mut self) {
        self.pending.resize(16, S::F::zero());
        let o = perm::<S>(&self.pending, &self.state);
        self.pending.clear();
        self.limbs.clear();
        self.state = o[0];
        self.out = o.into_iter().collect();
    }
    pub fn put(&mut self, v: S::F) {
        self.out.clear();
        self.limbs.clear();
        self.pending.push(v);
        if self.pending.len() == 16 {
            self.update();
        }
    }
    fn scalar(&mut self) -> S::F {
        if self.out.is_empty() {
            self.update();
        }
        self.out.pop_front().unwrap()
    }
    pub fn get1(&mut self) -> u64 {
        if self.limbs.is_empty() {
            let s = self.scalar();
            self.limbs.extend(to_limbs(&s)[..3].iter().map(|l| l % GL_P));
        }
        self.limbs.pop_front().unwrap()
    }
    pub fn permutations(&mut self, n: usize, bits: usize) -> Vec<usize> {
        let words: Vec<[u64; 4]> = (0..(n * bits).div_ceil(253)).map(|_| to_limbs(&self.scalar())).collect();
        let mut all = words.iter().flat_map(|w| (0..253).map(move |i| w[i / 64] >> (i % 64) & 1 == 1));
        (0..n).map(|_| (0..bits).fold(0, |a, j| a | (all.next().unwrap() as usize) << j)).collect()
    }
}
