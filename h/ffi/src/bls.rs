//! The curve BLS12-381 by the definition, on big integers, and an independent writer of the JSON forms.
//! Random points come from arkworks; only their coordinates are used.
use ark_bls12_381::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::PrimeField;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use serde_json::{json, Value};
use std::sync::OnceLock;
use vh::Src;

pub fn q() -> &'static BigUint {
    static Q: OnceLock<BigUint> = OnceLock::new();
    Q.get_or_init(|| "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787".parse().unwrap())
}
pub fn r() -> &'static BigUint {
    static R: OnceLock<BigUint> = OnceLock::new();
    R.get_or_init(|| "52435875175126190479447740508185965837690552500527637822603658699938581184513".parse().unwrap())
}
pub fn inv(a: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(&(p - 2u8), p)
}
/// Fq2 = Fq[u]/(u^2+1)
pub type E2 = (BigUint, BigUint);
fn sub(a: &BigUint, b: &BigUint) -> BigUint {
    (a % q() + q() - b % q()) % q()
}
pub fn mul2(a: &E2, b: &E2) -> E2 {
    (sub(&(&a.0 * &b.0), &(&a.1 * &b.1)), (&a.0 * &b.1 + &a.1 * &b.0) % q())
}
pub fn inv2(a: &E2) -> E2 {
    let n = inv(&((&a.0 * &a.0 + &a.1 * &a.1) % q()), q());
    (&a.0 * &n % q(), sub(&BigUint::zero(), &(&a.1 * &n)))
}
/// An affine point, or nothing at infinity.
pub type P1 = Option<(BigUint, BigUint)>;
pub type P2 = Option<(E2, E2)>;

pub fn on_curve1(x: &BigUint, y: &BigUint) -> bool {
    (y * y) % q() == (x * x * x + 4u8) % q()
}
pub fn on_curve2(x: &E2, y: &E2) -> bool {
    let c = mul2(&mul2(x, x), x);
    mul2(y, y) == ((c.0 + 4u8) % q(), (c.1 + 4u8) % q())
}
pub fn fq(v: &BigUint) -> Fq {
    Fq::from_le_bytes_mod_order(&(v % q()).to_bytes_le())
}
pub fn fr(v: &BigUint) -> Fr {
    Fr::from_le_bytes_mod_order(&(v % r()).to_bytes_le())
}
pub fn fq2(v: &E2) -> Fq2 {
    Fq2::new(fq(&v.0), fq(&v.1))
}
pub fn big<F: PrimeField>(v: F) -> BigUint {
    v.into_bigint().into()
}
pub fn big2(v: Fq2) -> E2 {
    (big(v.c0), big(v.c1))
}
pub fn ark1(p: &P1) -> G1Affine {
    match p {
        None => G1Affine::identity(),
        Some((x, y)) => G1Affine::new_unchecked(fq(x), fq(y)),
    }
}
pub fn ark2(p: &P2) -> G2Affine {
    match p {
        None => G2Affine::identity(),
        Some((x, y)) => G2Affine::new_unchecked(fq2(x), fq2(y)),
    }
}
pub fn of1(p: G1Affine) -> P1 {
    p.xy().map(|(x, y)| (big(x), big(y)))
}
pub fn of2(p: G2Affine) -> P2 {
    p.xy().map(|(x, y)| (big2(x), big2(y)))
}

/// Points of a fixed sequence, so that generating one costs little.
fn pool() -> &'static (Vec<P1>, Vec<P2>) {
    static P: OnceLock<(Vec<P1>, Vec<P2>)> = OnceLock::new();
    P.get_or_init(|| {
        let mut s = Src::random(20260101);
        let (g, h) = (G1Projective::generator(), G2Projective::generator());
        let mut ks: Vec<Fr> = vec![Fr::from(1u8), Fr::from(2u8), -Fr::from(1u8)];
        while ks.len() < 200 {
            ks.push(fr(&scalar(&mut s)));
        }
        (
            ks.iter().map(|k| of1((g * k).into_affine())).filter(|p| p.is_some()).collect(),
            ks.iter().map(|k| of2((h * k).into_affine())).filter(|p| p.is_some()).collect(),
        )
    })
}
pub fn below(s: &mut Src, p: &BigUint) -> BigUint {
    match s.weighted(&[2, 2, 2, 8]) {
        0 => BigUint::from(s.below(4)),
        1 => p - 1u8 - s.below(4),
        2 => (BigUint::one() << s.usize(384)) % p,
        _ => {
            let d = (0..6).fold(BigUint::zero(), |a, _| (a << 64) + s.u64());
            d % p
        }
    }
}
pub fn scalar(s: &mut Src) -> BigUint {
    below(s, r())
}
pub fn point1(s: &mut Src) -> P1 {
    if s.chance(1, 8) {
        return None;
    }
    s.pick(&pool().0).clone()
}
pub fn point2(s: &mut Src) -> P2 {
    if s.chance(1, 8) {
        return None;
    }
    s.pick(&pool().1).clone()
}
/// A point on the curve outside the subgroup of prime order (what the cofactor leaves is next to never inside).
pub fn rogue1(s: &mut Src) -> P1 {
    let (x, up) = (fq(&below(s, q())), s.bool());
    (0..1000u64)
        .filter_map(|i| G1Affine::get_point_from_x_unchecked(x + Fq::from(i), up))
        .find(|p| !p.is_in_correct_subgroup_assuming_on_curve())
        .and_then(of1)
}
pub fn rogue2(s: &mut Src) -> P2 {
    let (x, up) = (fq2(&(below(s, q()), below(s, q()))), s.bool());
    (0..1000u64)
        .filter_map(|i| G2Affine::get_point_from_x_unchecked(x + fq2(&(i.into(), BigUint::zero())), up))
        .find(|p| !p.is_in_correct_subgroup_assuming_on_curve())
        .and_then(of2)
}
pub type Gt = [[E2; 3]; 2];
pub fn gt(s: &mut Src) -> Gt {
    std::array::from_fn(|_| std::array::from_fn(|_| (below(s, q()), below(s, q()))))
}
pub fn ark_gt(v: &Gt) -> Fq12 {
    let six = |c: &[E2; 3]| Fq6::new(fq2(&c[0]), fq2(&c[1]), fq2(&c[2]));
    Fq12::new(six(&v[0]), six(&v[1]))
}

// ---- JSON, independently of the code
fn st(v: &BigUint) -> Value {
    json!(v.to_str_radix(10))
}
fn st2(v: &E2) -> Value {
    json!([st(&v.0), st(&v.1)])
}
pub fn json1(p: &P1) -> Value {
    match p {
        None => json!(["0", "1", "0"]),
        Some((x, y)) => json!([st(x), st(y), "1"]),
    }
}
pub fn json2(p: &P2) -> Value {
    match p {
        None => json!([["0", "0"], ["1", "0"], ["0", "0"]]),
        Some((x, y)) => json!([st2(x), st2(y), ["1", "0"]]),
    }
}
/// The same point with the (Jacobian) third coordinate z.
pub fn json1_z(p: &P1, z: &BigUint) -> Value {
    match p {
        None => json!([st(&(z * z % q())), st(&(z * z * z % q())), "0"]),
        Some((x, y)) => json!([st(&(x * z * z % q())), st(&(y * z * z * z % q())), st(z)]),
    }
}
pub fn json2_z(p: &P2, z: &E2) -> Value {
    let z2 = mul2(z, z);
    let z3 = mul2(&z2, z);
    match p {
        None => json!([st2(&z2), st2(&z3), ["0", "0"]]),
        Some((x, y)) => json!([st2(&mul2(x, &z2)), st2(&mul2(y, &z3)), st2(z)]),
    }
}
pub fn json_gt(v: &Gt) -> Value {
    json!(v.iter().map(|h| h.iter().map(st2).collect::<Vec<_>>()).collect::<Vec<_>>())
}
#[derive(Clone, Debug)]
pub struct Vk {
    pub n: usize,
    pub a: P1,
    pub b: P2,
    pub c: P2,
    pub d: P2,
    pub ab: Gt,
    pub ic: Vec<P1>,
}
pub fn vk(s: &mut Src) -> Vk {
    let ic = s.vec(0, 6, point1);
    let n = if s.chance(1, 4) { s.usize(300) } else { ic.len() };
    Vk { n, a: point1(s), b: point2(s), c: point2(s), d: point2(s), ab: gt(s), ic }
}
pub fn json_vk(v: &Vk) -> Value {
    json!({
        "protocol": "groth16", "nPublic": v.n, "vk_alpha_1": json1(&v.a), "vk_beta_2": json2(&v.b),
        "vk_gamma_2": json2(&v.c), "vk_delta_2": json2(&v.d), "vk_alphabeta_12": json_gt(&v.ab),
        "IC": v.ic.iter().map(json1).collect::<Vec<_>>(),
    })
}
#[derive(Clone, Debug)]
pub struct Proof {
    pub a: P1,
    pub b: P2,
    pub c: P1,
}
pub fn proof(s: &mut Src) -> Proof {
    Proof { a: point1(s), b: point2(s), c: point1(s) }
}
pub fn json_proof(v: &Proof) -> Value {
    json!({ "pi_a": json1(&v.a), "pi_b": json2(&v.b), "pi_c": json1(&v.c), "protocol": "groth16", "curve": "bls12381" })
}
// ---- bytes: little-endian Montgomery form
pub fn mont(v: &BigUint) -> BigUint {
    (v << 384) % q()
}
pub fn le(v: &BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    b.resize(n, 0);
    b
}
pub fn bytes1(p: &P1) -> Vec<u8> {
    match p {
        None => vec![0; 96],
        Some((x, y)) => [x, y].into_iter().flat_map(|v| le(&mont(v), 48)).collect(),
    }
}
pub fn bytes2(p: &P2) -> Vec<u8> {
    match p {
        None => vec![0; 192],
        Some((x, y)) => [&x.0, &x.1, &y.0, &y.1].into_iter().flat_map(|v| le(&mont(v), 48)).collect(),
    }
}
