//! G04: the Groth16 pipeline of /repo/groth16 (the variant over bellperson and blstrs, BLS12-381).
include!("../../../build/groth_mods.rs");
#[path = "../../alg/src/wasm.rs"]
#[allow(dead_code)]
mod wasm;

mod sol;

use bellperson::groth16::{Proof, VerifyingKey};
use blstrs::{Bls12, Fp, Fp2, G1Affine, G1Projective, G2Affine, G2Projective, Scalar};
use ff::{Field, PrimeField};
use group::{prime::PrimeCurveAffine, Curve, Group};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use pairing::Engine;
use serde_json::Value;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::{ensure, ensure_eq, guard, Ctx, Fail, Info, Res, Src};

const R: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
const Q: &str = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787";
const BNQ: &str = "21888242871839275222246405745257275088696311157297823662689037894645226208583";
fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}
fn scalar(v: &BigUint) -> Scalar {
    let mut b = (v % dec(R)).to_bytes_le();
    b.resize(32, 0);
    Option::from(Scalar::from_bytes_le(&b.try_into().unwrap())).unwrap()
}
fn int(v: &Scalar) -> BigUint {
    BigUint::from_bytes_le(&v.to_bytes_le())
}
fn fp_int(v: &Fp) -> BigUint {
    BigUint::from_bytes_be(&v.to_bytes_be())
}
fn value(s: &mut Src) -> BigUint {
    let r = dec(R);
    let v = match s.weighted(&[2, 2, 2, 6]) {
        0 => BigUint::from(s.below(3)),
        1 => BigUint::from(s.below(1000)),
        2 => r.clone() - 1u8 - s.below(3),
        _ => s.many(4, |s| s.u64()).iter().fold(BigUint::zero(), |a, x| (a << 64) + *x),
    };
    v % r
}
struct Dir(PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
fn dir() -> Dir {
    let d = std::env::temp_dir().join(format!("vh-groth-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Dir {
    fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------------------------- the circuits

type Lc = Vec<(usize, BigUint)>;
/// A circuit over the wires of the recording witness generator: 1, then four wires per input value.
#[derive(Clone, Debug)]
struct Circuit {
    vals: Vec<BigUint>,
    n_out: usize,
    n_in: usize,
    cons: Vec<[Lc; 3]>,
    /// the constraint that a changed witness violates
    broken: Option<usize>,
}
fn fnv1a(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn witness(vals: &[BigUint]) -> Vec<BigUint> {
    let h = fnv1a("in");
    let mut w = vec![BigUint::one()];
    for (k, v) in vals.iter().enumerate() {
        w.extend([BigUint::from(h >> 32), BigUint::from(h & 0xffff_ffff), BigUint::from(k), v.clone()]);
    }
    w
}
fn dot(l: &Lc, w: &[BigUint]) -> BigUint {
    l.iter().fold(BigUint::zero(), |a, (i, c)| a + c * &w[*i]) % dec(R)
}
fn inv(v: &BigUint) -> BigUint {
    v.modpow(&(dec(R) - 2u8), &dec(R))
}
fn circuit(s: &mut Src) -> Circuit {
    let r = dec(R);
    let mut c = Circuit { vals: if s.chance(1, 12) { s.vec(20, 90, value) } else { s.vec(1, 5, value) }, n_out: 0, n_in: 0, cons: vec![], broken: None };
    let w = witness(&c.vals);
    let n = w.len();
    let public = s.range(0, n - 1);
    c.n_out = s.range(0, public);
    c.n_in = public - c.n_out;
    let lc = |s: &mut Src| -> Lc {
        let mut idx: Vec<usize> = (0..n).collect();
        s.shuffle(&mut idx);
        let k = s.range(1, 4.min(n));
        idx[..k].iter().map(|i| (*i, value(s))).collect()
    };
    let m = s.range(1, 12);
    for _ in 0..m {
        let (a, b) = (lc(s), lc(s));
        let mut o = if s.chance(1, 4) { vec![] } else { lc(s) };
        // the product, made to hold by the coefficient of a wire that is not zero
        let miss = (dot(&a, &w) * dot(&b, &w) + &r - dot(&o, &w)) % &r;
        let nz: Vec<usize> = (0..n).filter(|i| !w[*i].is_zero() && !o.iter().any(|t| t.0 == *i)).collect();
        match nz.is_empty() {
            false => {
                let i = *s.pick(&nz);
                o.push((i, miss * inv(&w[i]) % &r));
            }
            true if miss.is_zero() => {}
            true => continue,
        }
        c.cons.push([a, b, o]);
    }
    // a wire that occurs nowhere is no circuit's wire
    for i in public + 1..n {
        if !c.cons.iter().flatten().flatten().any(|(j, k)| *j == i && !k.is_zero()) {
            c.cons.push([vec![(i, BigUint::one())], vec![(0, BigUint::one())], vec![(i, BigUint::one())]]);
        }
    }
    c
}
fn r1cs(c: &Circuit) -> Vec<u8> {
    let n_wires = 1 + 4 * c.vals.len();
    let le = |v: &BigUint| {
        let mut b = v.to_bytes_le();
        b.resize(32, 0);
        b
    };
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    h.extend(le(&dec(R)));
    for x in [n_wires, c.n_out, c.n_in, n_wires - 1 - c.n_out - c.n_in] {
        h.extend((x as u32).to_le_bytes());
    }
    h.extend((n_wires as u64).to_le_bytes());
    h.extend((c.cons.len() as u32).to_le_bytes());
    let mut b = vec![];
    for l in c.cons.iter().flatten() {
        b.extend((l.len() as u32).to_le_bytes());
        for (i, k) in l {
            b.extend((*i as u32).to_le_bytes());
            b.extend(le(k));
        }
    }
    let m: Vec<u8> = (0..n_wires as u64).flat_map(|i| i.to_le_bytes()).collect();
    let mut f = b"r1cs".to_vec();
    f.extend(1u32.to_le_bytes());
    f.extend(3u32.to_le_bytes());
    for (t, d) in [(1u32, h), (2, b), (3, m)] {
        f.extend(t.to_le_bytes());
        f.extend((d.len() as u64).to_le_bytes());
        f.extend(d);
    }
    f
}

// ------------------------------------------------------------------------------------- own verifier

#[derive(Clone)]
struct Key {
    alpha: G1Affine,
    beta: G2Affine,
    gamma: G2Affine,
    delta: G2Affine,
    beta1: G1Affine,
    delta1: G1Affine,
    ic: Vec<G1Affine>,
}
#[derive(Clone)]
struct Pi {
    a: G1Affine,
    b: G2Affine,
    c: G1Affine,
}
fn num(v: &Value) -> Result<BigUint, Fail> {
    let s = v.as_str().ok_or("not a string")?;
    let x = match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
        None => BigUint::parse_bytes(s.as_bytes(), 10),
    };
    Ok(x.ok_or(format!("not a number: {s}"))?)
}
fn fp(v: &Value) -> Result<Fp, Fail> {
    let x = num(v)?;
    ensure!(x < dec(Q), "coordinate {x} is not below the modulus");
    let mut b = x.to_bytes_be();
    while b.len() < 48 {
        b.insert(0, 0);
    }
    Ok(Option::from(Fp::from_bytes_be(&b.try_into().unwrap())).unwrap())
}
fn g1(v: &Value) -> Result<G1Affine, Fail> {
    Ok(G1Affine::from_raw_unchecked(fp(&v["x"])?, fp(&v["y"])?, false))
}
fn g2(v: &Value) -> Result<G2Affine, Fail> {
    let f = |v: &Value| -> Result<Fp2, Fail> { Ok(Fp2::new(fp(&v[0])?, fp(&v[1])?)) };
    Ok(G2Affine::from_raw_unchecked(f(&v["x"])?, f(&v["y"])?, false))
}
fn key(text: &str) -> Result<Key, Fail> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    ensure_eq!(v["protocol"].as_str(), Some("groth16"), "protocol of the key");
    ensure_eq!(v["curve"].as_str(), Some("BLS12381"), "curve of the key");
    let ic = v["IC"].as_array().ok_or("IC")?.iter().map(g1).collect::<Result<Vec<_>, _>>()?;
    Ok(Key {
        alpha: g1(&v["vk_alpha_1"])?,
        beta: g2(&v["vk_beta_2"])?,
        gamma: g2(&v["vk_gamma_2"])?,
        delta: g2(&v["vk_delta_2"])?,
        beta1: g1(&v["vk_beta_1"])?,
        delta1: g1(&v["vk_delta_1"])?,
        ic,
    })
}
fn pi(text: &str) -> Result<Pi, Fail> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    ensure_eq!(v["protocol"].as_str(), Some("groth16"), "protocol of the proof");
    Ok(Pi { a: g1(&v["pi_a"])?, b: g2(&v["pi_b"])?, c: g1(&v["pi_c"])? })
}
fn holds(k: &Key, x: &[BigUint], p: &Pi) -> bool {
    if x.len() + 1 != k.ic.len() {
        return false;
    }
    let acc = x.iter().zip(&k.ic[1..]).fold(G1Projective::from(k.ic[0]), |a, (x, p)| a + G1Projective::from(*p) * scalar(x));
    let e = |a: &G1Affine, b: &G2Affine| Bls12::pairing(a, b);
    e(&p.a, &p.b) == e(&k.alpha, &k.beta) + e(&acc.to_affine(), &k.gamma) + e(&p.c, &k.delta)
}

// ------------------------------------------------------------------------------------------- pipeline

#[derive(Clone, Debug)]
struct Plan {
    hex: (bool, bool),
    inplace: bool,
    /// position, difference
    pubs: Vec<(usize, BigUint)>,
    /// which of the alterations of the proof, key and statement to try
    kinds: Vec<usize>,
    k: BigUint,
    seed: u64,
}
fn plan(s: &mut Src) -> Plan {
    Plan {
        hex: (s.bool(), s.bool()),
        inplace: s.chance(1, 3),
        pubs: s.many(3, |s| (s.usize(1024), value(s))),
        kinds: s.vec(2, 5, |s| s.usize(14)),
        k: value(s),
        seed: s.u64(),
    }
}
fn pubs_text(x: &[BigUint], hex: bool) -> String {
    let v: Vec<String> = x.iter().map(|v| if hex { format!("0x{}", v.to_str_radix(16)) } else { v.to_str_radix(10) }).collect();
    serde_json::to_string(&v).unwrap()
}
fn pi_text(p: &Pi, hex: bool) -> String {
    let n = |f: &Fp| {
        let v = fp_int(f);
        if hex {
            format!("0x{}", v.to_str_radix(16))
        } else {
            v.to_str_radix(10)
        }
    };
    serde_json::json!({
        "pi_a": {"x": n(&p.a.x()), "y": n(&p.a.y())},
        "pi_b": {"x": [n(&p.b.x().c0()), n(&p.b.x().c1())], "y": [n(&p.b.y().c0()), n(&p.b.y().c1())]},
        "pi_c": {"x": n(&p.c.x()), "y": n(&p.c.y())},
        "protocol": "groth16",
        "curve": "BLS12381"
    })
    .to_string()
}
fn rng(seed: u64) -> rand_new::rngs::StdRng {
    use rand_new::SeedableRng;
    rand_new::rngs::StdRng::seed_from_u64(seed)
}

fn pipeline(c: &Circuit, pl: &Plan, info: &mut Info) -> Res {
    let d = dir();
    let (circ, pk, vk, wasm, input, public, proof) =
        (d.path("c.r1cs"), d.path("pk"), d.path("vk.json"), d.path("c.wasm"), d.path("in.json"), d.path("pub.json"), d.path("proof.json"));
    let n_pub = c.n_out + c.n_in;
    info.class(match n_pub {
        0 => "no publics",
        1..=3 => "1 to 3 publics",
        _ => "4 or more publics",
    });
    let w = witness(&c.vals);
    for (i, [a, b, o]) in c.cons.iter().enumerate() {
        assert!((dot(a, &w) * dot(b, &w)) % dec(R) == dot(o, &w), "constraint {i}");
    }
    std::fs::write(&circ, r1cs(c)).unwrap();
    std::fs::write(&wasm, wasm::recorder(&dec(R), 8, Some(2))).unwrap();
    let strings = |v: &[BigUint]| serde_json::json!({"in": v.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>()}).to_string();
    std::fs::write(&input, strings(&c.vals)).unwrap();

    let e = |e: anyhow::Error| Fail::from(e.to_string());
    guard(|| api::groth16_setup("BLS12381", &circ, &pk, &vk, pl.hex.0))?.map_err(e)?;
    guard(|| api::groth16_prove("BLS12381", &circ, &wasm, &pk, &input, &public, &proof, pl.hex.1))?.map_err(e)?;
    let verify = |vk: &str, public: &str, proof: &str| matches!(guard(|| api::groth16_verify("BLS12381", vk, public, proof)), Ok(Ok(())));
    ensure!(verify(&vk, &public, &proof), "the exported proof does not verify");

    // what was exported
    let x: Vec<BigUint> = w[1..1 + n_pub].to_vec();
    let pv: Value = serde_json::from_str(&std::fs::read_to_string(&public).unwrap()).map_err(|e| e.to_string())?;
    let got = pv.as_array().ok_or("public inputs")?.iter().map(num).collect::<Result<Vec<_>, _>>()?;
    ensure_eq!(got, x, "exported public inputs");
    let k = key(&std::fs::read_to_string(&vk).unwrap())?;
    ensure_eq!(k.ic.len(), n_pub + 1, "points of the key");
    let p = pi(&std::fs::read_to_string(&proof).unwrap())?;
    ensure!(holds(&k, &x, &p), "the exported proof does not satisfy the pairing equation");
    // the key in the proving key file
    let pkv = bellperson::groth16::Parameters::<Bls12>::read(std::io::BufReader::new(std::fs::File::open(&pk).unwrap()), true)
        .map_err(|e| format!("proving key file: {e}"))?
        .vk;
    ensure!(
        pkv.alpha_g1 == k.alpha && pkv.beta_g1 == k.beta1 && pkv.beta_g2 == k.beta && pkv.gamma_g2 == k.gamma && pkv.delta_g1 == k.delta1 && pkv.delta_g2 == k.delta && pkv.ic == k.ic,
        "the exported key is not the one of the proving key file"
    );
    info.evals(2);

    if pl.inplace {
        let api::SetupResult::BLS12381(c2, pk2, vk2) = guard(|| api::groth16_setup_inplace("BLS12381", &circ))?.map_err(e)?;
        let (pub2, proof2) = (d.path("pub2.json"), d.path("proof2.json"));
        guard(|| api::groth16_prove_inplace("BLS12381", c2, &wasm, pk2, &input, &pub2, &proof2, pl.hex.1))?.map_err(e)?;
        let vkt = json_utils::serialize_vk(&vk2, "BLS12381", pl.hex.0).map_err(e)?;
        let vk2 = d.path("vk2.json");
        std::fs::write(&vk2, vkt).unwrap();
        ensure!(verify(&vk2, &pub2, &proof2), "the proof made in place does not verify");
        ensure_eq!(std::fs::read_to_string(&pub2).unwrap(), std::fs::read_to_string(&public).unwrap(), "public inputs in place");
        ensure!(!verify(&vk, &pub2, &proof2) && !verify(&vk2, &public, &proof), "a proof verifies with the key of another setup");
        info.evals(4);
    }

    // other statements
    let alt = d.path("alt.json");
    for (i, (at, by)) in pl.pubs.iter().enumerate() {
        if n_pub == 0 || by.is_zero() {
            continue;
        }
        let mut y = x.clone();
        y[at % n_pub] = (&y[at % n_pub] + by) % dec(R);
        std::fs::write(&alt, pubs_text(&y, i % 2 == 0)).unwrap();
        ensure!(!verify(&vk, &alt, &proof), "verifies for other public inputs ({} changed)", at % n_pub);
        info.evals(1);
    }
    std::fs::write(&alt, pubs_text(&x, pl.hex.0)).unwrap();
    ensure!(verify(&vk, &alt, &proof), "the same public inputs as {} are refused", if pl.hex.0 { "hexadecimals" } else { "decimals" });
    let mut rg = rng(pl.seed);
    let (r1, r2) = (G1Projective::random(&mut rg).to_affine(), G2Projective::random(&mut rg).to_affine());
    for kind in &pl.kinds {
        let (mut q, mut y) = (p.clone(), x.clone());
        match kind {
            0 => q.a = r1,
            1 => q.b = r2,
            2 => q.c = r1,
            3 => (q.a, q.c) = (p.c, p.a),
            4 => q.a = -p.a,
            5 => q.c = -p.c,
            6 => q.b = -p.b,
            // both negated: the equation still holds
            7 => (q.a, q.b) = (-p.a, -p.b),
            // scaled against each other
            8 => {
                let k = scalar(&pl.k);
                if bool::from(k.is_zero()) {
                    continue;
                }
                q.a = (G1Projective::from(p.a) * k).to_affine();
                q.b = (G2Projective::from(p.b) * k.invert().unwrap()).to_affine();
            }
            // a point that is not on the curve
            9 => q.a = G1Affine::from_raw_unchecked(p.a.x() + Fp::from(1u64), p.a.y(), false),
            10 => q.c = G1Affine::from_raw_unchecked(p.c.x(), p.c.y() + Fp::from(1u64), false),
            11 => y.push(BigUint::zero()),
            12 => {
                if y.pop().is_none() {
                    continue;
                }
            }
            // beside the modulus
            _ => {
                if n_pub == 0 {
                    continue;
                }
                let i = pl.pubs[0].0 % n_pub;
                y[i] = &y[i] + dec(R);
                if y[i].bits() > 256 {
                    continue;
                }
                std::fs::write(&alt, pubs_text(&y, pl.hex.1)).unwrap();
                ensure!(!verify(&vk, &alt, &proof), "a public input above the modulus is accepted");
                continue;
            }
        }
        let (pf, xf) = (d.path("p2.json"), d.path("x2.json"));
        std::fs::write(&pf, pi_text(&q, pl.hex.1)).unwrap();
        std::fs::write(&xf, pubs_text(&y, pl.hex.0)).unwrap();
        let want = match kind {
            9 | 10 => false,
            _ => holds(&k, &y, &q),
        };
        ensure!(want == matches!(kind, 7 | 8), "oracle, kind {kind}");
        ensure_eq!(verify(&vk, &xf, &pf), want, "verdict on an altered statement (kind {kind})");
        info.evals(1);
    }

    // a witness that violates a constraint proves nothing
    if let Some(b) = c.broken {
        let mut c3 = c.clone();
        c3.cons[b][2].push((0, BigUint::one()));
        let bad = d.path("bad.r1cs");
        std::fs::write(&bad, r1cs(&c3)).unwrap();
        let (pk3, vk3, pf3, xf3) = (d.path("pk3"), d.path("vk3.json"), d.path("p3.json"), d.path("x3.json"));
        guard(|| api::groth16_setup("BLS12381", &bad, &pk3, &vk3, false))?.map_err(e)?;
        if let Ok(Ok(())) = guard(|| api::groth16_prove("BLS12381", &bad, &wasm, &pk3, &input, &xf3, &pf3, false)) {
            ensure!(!verify(&vk3, &xf3, &pf3), "a proof of a violated constraint verifies");
        }
        info.class("violated constraint");
        info.evals(1);
    }
    for curve in ["BN254", "", "bls12381"] {
        ensure!(guard(|| api::groth16_verify(curve, &vk, &public, &proof).is_ok()).unwrap_or(false) == false, "curve {curve:?} is accepted");
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- files

fn points(seed: u64, n: usize) -> (Vec<G1Affine>, Vec<G2Affine>) {
    let mut r = rng(seed);
    (
        (0..n).map(|_| G1Projective::random(&mut r).to_affine()).collect(),
        (0..n).map(|_| G2Projective::random(&mut r).to_affine()).collect(),
    )
}
fn files(seed: u64, hex: bool, n: usize) -> Res {
    let (a, b) = points(seed, n + 6);
    let vk = VerifyingKey::<Bls12> {
        alpha_g1: a[0],
        beta_g1: a[1],
        delta_g1: a[2],
        beta_g2: b[0],
        gamma_g2: b[1],
        delta_g2: b[2],
        ic: a[5..].to_vec(),
    };
    let t = json_utils::serialize_vk(&vk, "BLS12381", hex).map_err(|e| e.to_string())?;
    let k = key(&t)?;
    ensure!(
        k.alpha == a[0] && k.beta1 == a[1] && k.delta1 == a[2] && k.beta == b[0] && k.gamma == b[1] && k.delta == b[2] && k.ic == a[5..],
        "serialised key"
    );
    let back: VerifyingKey<Bls12> = guard(|| json_utils::to_verification_key(&t))?;
    ensure!(back == vk, "key read back");
    let p = Proof::<Bls12> { a: a[3], b: b[3], c: a[4] };
    let t = json_utils::serialize_proof(&p, "BLS12381", hex).map_err(|e| e.to_string())?;
    let q = pi(&t)?;
    ensure!(q.a == a[3] && q.b == b[3] && q.c == a[4], "serialised proof");
    let back: Proof<Bls12> = guard(|| json_utils::to_proof(&t))?;
    ensure!(back == p, "proof read back");
    // the digits of numbers: hexadecimal or decimal as asked
    let v: Value = serde_json::from_str(&t).unwrap();
    ensure_eq!(v["pi_a"]["x"].as_str().unwrap().starts_with("0x"), hex, "hexadecimal prefix");
    Ok(())
}

/// A contract for a key of known exponents, and calls of it.
#[derive(Clone, Debug)]
struct Deal {
    seed: u64,
    hex: bool,
    /// alpha, beta, gamma, delta, then the points of the inputs
    key: Vec<BigUint>,
    inputs: Vec<BigUint>,
    a: BigUint,
    b: BigUint,
    /// what is changed: kind, position, amount
    edits: Vec<(usize, usize, BigUint)>,
}
const BNR: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
fn bn_value(s: &mut Src) -> BigUint {
    let r = dec(BNR);
    match s.weighted(&[2, 2, 2, 6]) {
        0 => BigUint::from(s.below(3)),
        1 => BigUint::from(s.below(1000)),
        2 => r - 1u8 - s.below(3),
        _ => s.many(4, |s| s.u64()).iter().fold(BigUint::zero(), |a, x| (a << 64) + *x) % r,
    }
}
/// below `few`, and now and then up to 70 times as many
fn many_or_few(s: &mut Src, few: usize) -> usize {
    match s.weighted(&[24, 2, 1]) {
        0 => s.usize(few),
        1 => s.usize(few * 6),
        _ => s.usize(few * 25),
    }
}
fn deal(s: &mut Src) -> Deal {
    let n = many_or_few(s, 9);
    let mut key = s.many(5 + n, bn_value);
    for k in [2, 3] {
        if key[k].is_zero() {
            key[k] = BigUint::one();
        }
    }
    Deal {
        seed: s.u64(),
        hex: s.bool(),
        key,
        inputs: s.many(n, bn_value),
        a: bn_value(s),
        b: bn_value(s),
        edits: s.many(4, |s| (s.usize(9), s.usize(1024), bn_value(s))),
    }
}
fn contract(d: &Deal) -> Res {
    let (q, r) = (dec(BNQ), dec(BNR));
    let mut g = sol::Group::new(q.clone(), r.clone(), d.seed);
    let f = |v: &BigUint| if d.hex { format!("0x{:0>64}", v.to_str_radix(16)) } else { v.to_str_radix(10) };
    let mut g1 = |e: &BigUint| {
        let (x, y) = g.g1(e);
        serde_json::json!({"x": f(&x), "y": f(&y)})
    };
    let (alpha, beta1, delta1) = (g1(&d.key[0]), g1(&d.key[1]), g1(&d.key[3]));
    let ic: Vec<Value> = d.key[4..].iter().map(&mut g1).collect();
    let mut g2 = |e: &BigUint| {
        let p = g.g2(e);
        serde_json::json!({"x": [f(&p[0]), f(&p[1])], "y": [f(&p[2]), f(&p[3])]})
    };
    let (beta, gamma, delta) = (g2(&d.key[1]), g2(&d.key[2]), g2(&d.key[3]));
    let vk = serde_json::json!({"protocol": "groth16", "curve": "BN128", "vk_alpha_1": alpha, "vk_beta_1": beta1, "vk_beta_2": beta,
        "vk_gamma_2": gamma, "vk_delta_1": delta1, "vk_delta_2": delta, "IC": ic});
    let t = {
        let d = dir();
        let (vf, sf) = (d.path("vk.json"), d.path("v.sol"));
        std::fs::write(&vf, vk.to_string()).unwrap();
        guard(|| api::generate_verifier(&vf, &sf))?.map_err(|e| e.to_string())?;
        std::fs::read_to_string(&sf).unwrap()
    };
    ensure!(!t.contains("<%") && !t.contains("%>"), "a placeholder is left");
    let prog = sol::parse(&t).map_err(|e| format!("the contract does not parse: {}", e.0))?;
    let n = d.inputs.len();
    {
        let mut vm = sol::Vm::new(&prog, &mut g);
        let want = if n > 0 { Some(n) } else { None };
        ensure_eq!(vm.array_param("Verifier", "verifyTx").map_err(|e| format!("{e:?}"))?, want, "inputs that verifyTx takes");
    }
    // c such that a*b = alpha*beta + (ic0 + sum ic*input)*gamma + c*delta
    let solve = |inputs: &[BigUint]| {
        let x = inputs.iter().zip(&d.key[5..]).fold(d.key[4].clone(), |s, (v, p)| s + v * p);
        let rest = (&d.key[0] * &d.key[1] + x * &d.key[2]) % &r;
        (&d.a * &d.b + &r - rest) % &r * d.key[3].modpow(&(&r - 2u8), &r) % &r
    };
    let honest = {
        let (p, o) = (g.g1(&d.a), g.g1(&solve(&d.inputs)));
        let b = g.g2(&d.b);
        (p, b, o, d.inputs.clone())
    };
    let mut calls = vec![honest.clone()];
    for (kind, at, v) in &d.edits {
        let mut c = honest.clone();
        match kind {
            0 if n > 0 => c.3[at % n] = v.clone(),
            1 if n > 0 => c.3[at % n] += &r,
            2 if n > 0 => c.3.swap(0, at % n),
            3 => c.0 = g.g1(v),
            4 => c.1 = g.g2(v),
            5 => c.2 = g.g1(v),
            6 => {
                // a proof of other inputs
                let mut i = d.inputs.clone();
                if n > 0 {
                    i[at % n] = v.clone();
                }
                c.2 = g.g1(&solve(&i));
            }
            7 => {
                let w = match at % 8 {
                    0 => &mut c.0 .0,
                    1 => &mut c.0 .1,
                    2 => &mut c.2 .0,
                    3 => &mut c.2 .1,
                    k => &mut c.1[k - 4],
                };
                *w = (&*w + v) % &q;
            }
            _ => match at % 3 {
                0 => c.0 .1 = (&q - &c.0 .1) % &q,
                1 => c.2 .1 = (&q - &c.2 .1) % &q,
                _ => std::mem::swap(&mut c.0, &mut c.2),
            },
        }
        calls.push(c);
    }
    for (i, (a, b, c, inputs)) in calls.iter().enumerate() {
        let want = match (g.log1(&a.0, &a.1), g.log2(b), g.log1(&c.0, &c.1)) {
            (Some(a), Some(b), Some(c)) if inputs.iter().all(|x| x < &r) => {
                let x = inputs.iter().zip(&d.key[5..]).fold(d.key[4].clone(), |s, (v, p)| s + v * p);
                a * b % &r == (&d.key[0] * &d.key[1] + x * &d.key[2] + c * &d.key[3]) % &r
            }
            _ => false,
        };
        ensure!(i > 0 || want, "the check's honest proof does not hold");
        let num = |v: &BigUint| sol::Val::N(v.clone());
        let p1 = |p: &(BigUint, BigUint)| sol::record(&["X", "Y"], vec![num(&p.0), num(&p.1)]);
        let pair = |a: &BigUint, b: &BigUint| sol::arr(vec![num(a), num(b)]);
        let proof = sol::record(&["a", "b", "c"], vec![p1(a), sol::record(&["X", "Y"], vec![pair(&b[0], &b[1]), pair(&b[2], &b[3])]), p1(c)]);
        let mut args = vec![proof];
        if n > 0 {
            args.push(sol::arr(inputs.iter().map(num).collect()));
        }
        let got = match sol::Vm::new(&prog, &mut g).call("Verifier", "verifyTx", args) {
            Ok(sol::Val::B(b)) => b,
            Ok(v) => return Err(format!("verifyTx returns {v:?}").into()),
            Err(sol::Stop::Revert(_)) => false,
            Err(sol::Stop::Bad(e)) => return Err(format!("the contract is not well formed: {e}").into()),
        };
        ensure_eq!(got, want, "verdict of the contract on call {i} ({})", if i == 0 { "honest proof".into() } else { format!("{:?}", d.edits[i - 1]) });
    }
    // the pairing library on its own
    let run = |g: &mut sol::Group, name: &str, args: Vec<sol::Val>| -> Result<Option<sol::Val>, Fail> {
        let mut vm = sol::Vm::new(&prog, g);
        if !vm.has("Pairing", name) {
            return Ok(None);
        }
        vm.call("Pairing", name, args).map(Some).map_err(|e| format!("Pairing.{name}: {e:?}").into())
    };
    let gv1 = |g: &mut sol::Group, e: &BigUint| {
        let p = g.g1(e);
        sol::record(&["X", "Y"], vec![sol::Val::N(p.0), sol::Val::N(p.1)])
    };
    let gv2 = |g: &mut sol::Group, e: &BigUint| {
        let p: Vec<sol::Val> = g.g2(e).into_iter().map(sol::Val::N).collect();
        sol::record(&["X", "Y"], vec![sol::arr(p[..2].to_vec()), sol::arr(p[2..].to_vec())])
    };
    let log = |g: &sol::Group, v: &sol::Val| -> Result<BigUint, Fail> {
        let w = sol::flat(v);
        ensure_eq!(w.len(), 2, "words of a point");
        g.log1(&w[0], &w[1]).ok_or("not a point of the group".into())
    };
    if let Some(p) = run(&mut g, "P1", vec![])? {
        ensure_eq!(log(&g, &p)?, BigUint::one(), "P1");
    }
    if let Some(p) = run(&mut g, "P2", vec![])? {
        ensure_eq!(g.log2(&sol::flat(&p)), Some(BigUint::one()), "P2");
    }
    let (x, y) = (&d.a, &d.b);
    let (px, py) = (gv1(&mut g, x), gv1(&mut g, y));
    if let Some(p) = run(&mut g, "negate", vec![px.clone()])? {
        ensure_eq!(log(&g, &p)?, (&r - x) % &r, "negate");
    }
    if let Some(p) = run(&mut g, "addition", vec![px.clone(), py])? {
        ensure_eq!(log(&g, &p)?, (x + y) % &r, "addition");
    }
    if let Some(p) = run(&mut g, "scalar_mul", vec![px, sol::Val::N(y.clone())])? {
        ensure_eq!(log(&g, &p)?, (x * y) % &r, "scalar_mul");
    }
    for (k, name) in [(2, "pairingProd2"), (3, "pairingProd3"), (4, "pairingProd4")] {
        for hit in [true, false] {
            let (mut args, mut sum) = (vec![], BigUint::zero());
            for i in 0..k {
                let e2 = d.key[i].clone();
                let mut e1 = d.edits[i].2.clone();
                if hit && i == k - 1 {
                    if e2.is_zero() {
                        continue;
                    }
                    e1 = (&r - &sum) % &r * e2.modpow(&(&r - 2u8), &r) % &r;
                }
                sum = (sum + &e1 * &e2) % &r;
                args.push(gv1(&mut g, &e1));
                args.push(gv2(&mut g, &e2));
            }
            if args.len() == 2 * k {
                match run(&mut g, name, args)? {
                    Some(sol::Val::B(b)) => ensure_eq!(b, sum.is_zero(), "{name}"),
                    Some(v) => return Err(format!("{name} returns {v:?}").into()),
                    None => {}
                }
            }
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    ctx.sub("pipeline", 400, 20_000)
        .shrink(60)
        .rule("circuits of 1 to 12 random constraints over 5 to 21 (sometimes up to 360) wires, publics from none to all of them; setup, proof and verification through files (decimal or hexadecimal), the exported numbers, the pairing equation, changed publics, 2 to 5 altered proofs or statements against the pairing equation, keys of another setup; trivial without publics")
        .run(
            |s| (circuit(s), plan(s)),
            |(c, pl), info| {
                if c.n_out + c.n_in == 0 {
                    info.trivial();
                }
                let mut c = c.clone();
                if pl.seed % 2 == 0 && !c.cons.is_empty() {
                    c.broken = Some(pl.seed as usize / 2 % c.cons.len());
                }
                pipeline(&c, pl, info)
            },
        );
    ctx.sub("files", 5_000, 40_000)
        .rule("keys and proofs of random points written as decimal or hexadecimal JSON, read independently and read back; all cases count")
        .run(|s| (s.u64(), s.bool(), many_or_few(s, 12)), |(seed, hex, n), _| files(*seed, *hex, *n));
    ctx.sub("publics", 30_000, 600_000)
        .rule("0 to 8, sometimes up to 225 public inputs as decimals or hexadecimals of any length; trivial when empty")
        .run(
            |s| ({ let n = many_or_few(s, 9); s.many(n, |s| (value(s), s.bool())) }, s.below(3)),
            |(v, over), info| {
                if v.is_empty() {
                    info.trivial();
                }
                let mut t: Vec<String> =
                    v.iter().map(|(v, h)| if *h { format!("0x{}", v.to_str_radix(16)) } else { v.to_str_radix(10) }).collect();
                let got = guard(|| json_utils::to_public_input(&serde_json::to_string(&t).unwrap()))?;
                ensure_eq!(got.iter().map(int).collect::<Vec<_>>(), v.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "public inputs {t:?}");
                let bad = dec(R) + BigUint::from(*over);
                t.push(if *over == 1 { bad.to_str_radix(10) } else { format!("0x{}", bad.to_str_radix(16)) });
                ensure!(guard(|| json_utils::to_public_input(&serde_json::to_string(&t).unwrap())).is_err(), "{} is taken for a scalar", t.last().unwrap());
                Ok(())
            },
        );
    ctx.sub("contract", 12_000, 60_000)
        .rule("verifier contracts of keys with 0 to 8 (sometimes up to 225) public inputs and known exponents, in decimal or hexadecimal, interpreted with an ideal group behind the precompiles: an honest proof and 4 altered ones (inputs, inputs plus the group order, points, coordinates, signs, proofs of other inputs), verdicts from the exponents; the pairing library alone; trivial without inputs")
        .run(deal, |d, info| {
            if d.inputs.is_empty() {
                info.trivial();
            }
            contract(d)
        });
    let _ = (G1Affine::generator(), G2Affine::generator(), Scalar::NUM_BITS);
    ctx.assume("the sources of /repo/groth16 are compiled with the feature that selects bellperson and blstrs; the variant over bellman_ce needs crates that are not available offline");
}
fn main() {
    vh::main(&[("G04", run)]);
}
