//! The libraries generated circuits include. Those of /repo/stark-circuits are read from there;
//! the others (circomlib, and the Goldilocks library the generator's users install) are stand-ins
//! written from what their templates compute.
use crate::circom::{big, small, Builtin, Er, Fld, Interp, Program, N, V};
use href::{Bls, Bn, Spec};
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::HashMap;
use vh::gl;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    GL,
    BN,
    BLS,
    /// with the circuit's own Poseidon
    BlsFull,
}
impl Kind {
    pub fn of(hash: &str) -> Kind {
        match hash {
            "GL" => Kind::GL,
            "BN128" => Kind::BN,
            _ => Kind::BLS,
        }
    }
    pub fn modulus(self) -> BigUint {
        let s: &[u8] = match self {
            Kind::GL => b"18446744069414584321",
            Kind::BN => b"21888242871839275222246405745257275088548364400416034343698204186575808495617",
            _ => b"52435875175126190479447740508185965837690552500527637822603658699938581184513",
        };
        BigUint::parse_bytes(s, 10).unwrap()
    }
}
const BITIFY: &str = r#"
template Num2Bits(n) {
    signal input in;
    signal output out[n];
    var lc = 0;
    var e = 1;
    for (var i = 0; i < n; i++) {
        out[i] <-- (in >> i) & 1;
        out[i] * (out[i] - 1) === 0;
        lc += out[i] * e;
        e = e + e;
    }
    lc === in;
}
template Num2Bits_strict() {
    signal input in;
    signal output out[SIZE];
    component n2b = Num2Bits(SIZE);
    in ==> n2b.in;
    signal below <== BelowModulus()(n2b.out);
    below === 1;
    for (var i = 0; i < SIZE; i++) {
        n2b.out[i] ==> out[i];
    }
}
template BelowModulus() {
    signal input in[SIZE];
    signal output out;
    out <== __below(in);
}
template Bits2Num(n) {
    signal input in[n];
    signal output out;
    var lc = 0;
    var e = 1;
    for (var i = 0; i < n; i++) {
        lc += in[i] * e;
        e = e + e;
    }
    lc ==> out;
}
"#;
const SHA: &str = r#"
template Sha256(nBits) {
    signal input in[nBits];
    signal output out[256];
    var o[256] = __sha256(in);
    for (var i = 0; i < 256; i++) {
        out[i] <== o[i];
    }
}
"#;
const GL: &str = r#"
template CMul() {
    signal input ina[3];
    signal input inb[3];
    signal output out[3];
    var o[3] = __cmul(ina, inb);
    for (var i = 0; i < 3; i++) { out[i] <== o[i]; }
}
template CMulAdd() {
    signal input ina[3];
    signal input inb[3];
    signal input inc[3];
    signal output out[3];
    var o[3] = __cmul(ina, inb);
    for (var i = 0; i < 3; i++) { out[i] <== o[i] + inc[i]; }
}
template CInv() {
    signal input in[3];
    signal output out[3];
    var o[3] = __cinv(in);
    var t[3] = __cmul(in, o);
    t[0] === 1;
    t[1] === 0;
    t[2] === 0;
    for (var i = 0; i < 3; i++) { out[i] <== o[i]; }
}
template Poseidon(nOuts) {
    signal input in[8];
    signal input capacity[4];
    signal output out[nOuts];
    var o[12] = __poseidon_gl(in, capacity);
    for (var i = 0; i < nOuts; i++) { out[i] <== o[i]; }
}
template MerkleHash(eSize, elementsInLinear, nLinears) {
    var nBits = 0;
    while ((1 << nBits) < nLinears) { nBits++; }
    assert((1 << nBits) == nLinears);
    signal input values[elementsInLinear][eSize];
    signal input siblings[nBits][4];
    signal input key[nBits];
    signal output root[4];
    var h[4] = __linear_gl(values);
    for (var i = 0; i < nBits; i++) {
        key[i] * (key[i] - 1) === 0;
        h = __node_gl(key[i], h, siblings[i]);
    }
    for (var i = 0; i < 4; i++) { root[i] <== h[i]; }
}
template FFT(nBits, eSize, inverse) {
    var N = 1 << nBits;
    signal input in[N][eSize];
    signal output out[N][eSize];
    var w = inverse ? 1 / roots(nBits) : roots(nBits);
    var ws[N];
    ws[0] = inverse ? 1 / N : 1;
    for (var i = 1; i < N; i++) { ws[i] = ws[i - 1] * w; }
    for (var i = 0; i < N; i++) {
        for (var e = 0; e < eSize; e++) {
            var sum = 0;
            for (var j = 0; j < N; j++) { sum += ws[(i * j) % N] * in[j][e]; }
            out[i][e] <== sum;
        }
    }
}
template EvalPol(n) {
    signal input pol[n][3];
    signal input x[3];
    signal output out[3];
    var acc[3] = [0, 0, 0];
    for (var i = 0; i < n; i++) {
        acc = __cmul(acc, x);
        for (var e = 0; e < 3; e++) { acc[e] = acc[e] + pol[n - 1 - i][e]; }
    }
    for (var e = 0; e < 3; e++) { out[e] <== acc[e]; }
}
"#;
const POSEIDON: &str = r#"
template PoseidonEx(nInputs, nOuts) {
    signal input inputs[nInputs];
    signal input initialState;
    signal output out[nOuts];
    var o[nInputs + 1] = __poseidon(initialState, inputs);
    for (var i = 0; i < nOuts; i++) { out[i] <== o[i]; }
}
"#;
const MERKLE_BN: &str = r#"
template MerkleHash(eSize, elementsInLinear, nLinears) {
    var nBits = 0;
    while ((1 << nBits) < nLinears) { nBits++; }
    assert((1 << nBits) == nLinears);
    var nLevels = (nBits - 1) \ 4 + 1;
    signal input values[elementsInLinear][eSize];
    signal input siblings[nLevels][16];
    signal input key[nBits];
    signal output root;
    var h = __linear_bn(values);
    for (var l = 0; l < nLevels; l++) {
        var at = 0;
        for (var i = 0; i < 4; i++) {
            if (4 * l + i < nBits) {
                key[4 * l + i] * (key[4 * l + i] - 1) === 0;
                at += key[4 * l + i] * (1 << i);
            }
        }
        h = __node_bn(at, h, siblings[l]);
    }
    root <== h;
}
"#;
fn fr<S: Spec>(v: &N) -> S::F {
    href::from_limbs::<S::F>(*v).expect("canonical")
}
fn words(v: &V) -> Vec<u64> {
    v.numbers().iter().map(|n| n[0]).collect()
}
fn three(v: &V) -> [u64; 3] {
    let w = words(v);
    [w[0], w[1], w[2]]
}
fn outv(v: &[u64]) -> V {
    V::array(v.iter().map(|x| small(*x)).collect(), 1)
}
fn sponge<S: Spec>(a: &[V]) -> V {
    let init = fr::<S>(a[0].num().unwrap());
    let inp: Vec<S::F> = a[1].numbers().iter().map(fr::<S>).collect();
    V::array(href::perm::<S>(&inp, &init).iter().map(href::to_limbs).collect(), 1)
}
/// Functions the stand-ins call.
pub fn builtins(k: Kind) -> HashMap<String, Builtin> {
    let mut m: HashMap<String, Builtin> = HashMap::new();
    m.insert(
        "__below".into(),
        Box::new(|a, f| {
            let mut n = [0u64; 4];
            for (i, b) in a[0].numbers().iter().enumerate() {
                n[i / 64] |= b[0] << (i % 64);
            }
            V::N(small((big(&n) < f.modulus) as u64), 1)
        }),
    );
    m.insert(
        "__sha256".into(),
        Box::new(|a, _| {
            let bits: Vec<u8> = a[0].numbers().iter().map(|n| n[0] as u8).collect();
            outv(&sha256_bits(&bits).iter().flat_map(|b| (0..8).map(move |i| (b >> (7 - i) & 1) as u64)).collect::<Vec<_>>())
        }),
    );
    if k == Kind::GL {
        m.insert("__cmul".into(), Box::new(|a, _| outv(&crate::prover::mul(three(&a[0]), three(&a[1])))));
        m.insert("__cinv".into(), Box::new(|a, _| outv(&crate::prover::inv(three(&a[0])))));
        m.insert("__poseidon_gl".into(), Box::new(|a, _| outv(&href::gl_hash(&words(&a[0]), &words(&a[1])))));
        m.insert("__linear_gl".into(), Box::new(|a, _| outv(&href::gl_linear(&words(&a[0]), 0))));
        m.insert(
            "__node_gl".into(),
            Box::new(|a, _| {
                let (h, s) = (words(&a[1]), words(&a[2]));
                let mut inp = [0u64; 8];
                let (l, r) = if a[0].num().unwrap()[0] == 0 { (&h, &s) } else { (&s, &h) };
                inp[..4].copy_from_slice(l);
                inp[4..].copy_from_slice(r);
                outv(&href::gl_hash(&inp, &[0; 4])[..4])
            }),
        );
        m.insert("roots".into(), Box::new(|a, _| V::N(small(gl::root(a[0].num().unwrap()[0] as usize)), 0)));
    }
    m.insert(
        "__linear_bn".into(),
        Box::new(|a, _| V::N(href::to_limbs(&href::fr_linear::<Bn>(&words(&a[0]))), 1)),
    );
    m.insert(
        "__node_bn".into(),
        Box::new(|a, _| {
            let mut inp: Vec<_> = a[2].numbers().iter().map(fr::<Bn>).collect();
            inp[a[0].num().unwrap()[0] as usize] = fr::<Bn>(a[1].num().unwrap());
            V::N(href::to_limbs(&href::digest::<Bn>(&inp, &href::reduce([0; 4]))), 1)
        }),
    );
    m.insert("__poseidon".into(), if k == Kind::BN { Box::new(|a, _| sponge::<Bn>(a)) } else { Box::new(|a, _| sponge::<Bls>(a)) });
    m
}
pub fn read(f: &str) -> Result<String, Er> {
    std::fs::read_to_string(format!("/repo/stark-circuits/circuits/{f}.circom")).map_err(|e| Er::Bad(format!("{f}: {e}")))
}
fn build(k: Kind) -> Result<Program, Er> {
    let mut p = Program::new(&k.modulus());
    let size = match k {
        Kind::GL => "64",
        Kind::BN => "254",
        _ => "255",
    };
    p.load(&BITIFY.replace("SIZE", size))?;
    p.load(&read("treeselector")?)?;
    if k == Kind::GL {
        p.load(GL)?;
        return Ok(p);
    }
    p.load(SHA)?;
    for f in ["gl", "utils", "fft", "evalpol", "linearhash", "merkle", "merklehash", "bn1togl3", "compconstant64", "poseidon", "poseidon_constants"] {
        let t = read(f)?;
        if k != Kind::BlsFull && f == "poseidon_constants" {
            continue;
        }
        p.load(&t)?;
    }
    if k != Kind::BlsFull {
        p.remove("PoseidonEx");
        p.load(POSEIDON)?;
    }
    if k == Kind::BN {
        // the library for this curve takes another output of the permutation as the digest
        p.remove("MerkleHash");
        p.load(MERKLE_BN)?;
    }
    Ok(p)
}
thread_local! {
    static CACHE: RefCell<HashMap<Kind, Program>> = RefCell::new(HashMap::new());
}
/// The library, ready for a circuit that includes it.
pub fn library(k: Kind) -> Result<Program, Er> {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if !c.contains_key(&k) {
            c.insert(k, build(k)?);
        }
        Ok(c[&k].clone())
    })
}
pub fn interp(p: &Program, k: Kind) -> Interp<'_> {
    let mut i = Interp::new(p);
    i.builtins = builtins(k);
    i
}
/// Names a generated circuit may include.
pub fn known(k: Kind, inc: &str) -> bool {
    let gl = ["cmuladd", "cinv", "poseidon", "bitify", "fft", "merklehash", "evalpol", "treeselector", "mux1", "iszero"];
    let chain = ["gl", "poseidon", "bitify", "sha256/sha256", "fft", "merklehash", "evalpol", "treeselector", "bn1togl3", "compconstant64"];
    let n = inc.strip_suffix(".circom").unwrap_or("");
    if k == Kind::GL {
        gl.contains(&n)
    } else {
        chain.contains(&n)
    }
}

/// SHA-256 of a bit string, most significant bit first.
pub fn sha256_bits(bits: &[u8]) -> [u8; 32] {
    let mut v: Vec<u8> = bits.to_vec();
    let n = v.len() as u64;
    v.push(1);
    while v.len() % 512 != 448 {
        v.push(0);
    }
    v.extend((0..64).rev().map(|i| (n >> i & 1) as u8));
    let frac = |x: f64| ((x - x.floor()) * 4294967296.0) as u32;
    let primes: Vec<u32> = (2u32..).filter(|p| (2..*p).all(|d| p % d != 0)).take(64).collect();
    // cube roots need more digits than a double gives in some places: integer roots of p * 2^96
    let k: Vec<u32> = primes
        .iter()
        .map(|p| {
            let t = BigUint::from(*p) << 96usize;
            (t.nth_root(3) % (BigUint::from(1u32) << 32usize)).to_u32_digits().first().copied().unwrap_or(0)
        })
        .collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| frac((*p as f64).sqrt())).collect();
    for block in v.chunks(512) {
        let mut w: Vec<u32> = block.chunks(32).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u32)).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut s = h.clone();
        for i in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(maj);
            s.rotate_right(1);
            s[4] = s[4].wrapping_add(t1);
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let mut o = [0u8; 32];
    for (i, x) in h.iter().enumerate() {
        o[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    o
}
#[allow(dead_code)]
pub fn field(k: Kind) -> Fld {
    Fld::new(&k.modulus())
}
