//! G03: reading key, proof and inputs and verifying them accepts exactly the valid proofs.
//! Keys are made from known exponents, so proofs for any inputs can be made, and every verdict be predicted.
use crate::bls::*;
use crate::json_util::*;
use ark_bls12_381::{Bls12_381, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{CurveGroup, PrimeGroup};
use ark_ff::{Field, Zero};
use ark_groth16::{Groth16, Proof, VerifyingKey};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable};
use ark_snark::SNARK;
use ark_std::rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

fn g1(k: Fr) -> G1Affine {
    (G1Projective::generator() * k).into_affine()
}
fn g2(k: Fr) -> G2Affine {
    (G2Projective::generator() * k).into_affine()
}
fn ark_gt_json(v: ark_bls12_381::Fq12) -> Value {
    let six = |c: ark_bls12_381::Fq6| [big2(c.c0), big2(c.c1), big2(c.c2)];
    json_gt(&[six(v.c0), six(v.c1)])
}
fn strings(v: &[Fr]) -> Value {
    json!(v.iter().map(|x| big(*x).to_string()).collect::<Vec<_>>())
}
fn key_doc(vk: &VerifyingKey<Bls12_381>) -> Value {
    use ark_ec::pairing::Pairing;
    json!({
        "protocol": "groth16", "curve": "bls12381", "nPublic": vk.gamma_abc_g1.len() - 1,
        "vk_alpha_1": json1(&of1(vk.alpha_g1)), "vk_beta_2": json2(&of2(vk.beta_g2)),
        "vk_gamma_2": json2(&of2(vk.gamma_g2)), "vk_delta_2": json2(&of2(vk.delta_g2)),
        "vk_alphabeta_12": ark_gt_json(Bls12_381::pairing(vk.alpha_g1, vk.beta_g2).0),
        "IC": vk.gamma_abc_g1.iter().map(|p| json1(&of1(*p))).collect::<Vec<_>>(),
    })
}
fn proof_doc(p: &Proof<Bls12_381>) -> Value {
    json!({"pi_a": json1(&of1(p.a)), "pi_b": json2(&of2(p.b)), "pi_c": json1(&of1(p.c)), "protocol": "groth16", "curve": "bls12381"})
}
/// What a verifier built on the wrapper's types says: true, false, or an error.
fn verdict(key: &Value, proof: &Value, inputs: &Value) -> Result<Result<bool, String>, String> {
    guard(|| {
        let mut k: JsonVerificationKey<Bls12_381> = serde_json::from_value(key.clone()).map_err(|e| format!("key: {e}"))?;
        let mut p: Groth16Proof<Bls12_381> = serde_json::from_value(proof.clone()).map_err(|e| format!("proof: {e}"))?;
        let mut v: JsonPublicInput<Fr> = serde_json::from_value(inputs.clone()).map_err(|e| format!("inputs: {e}"))?;
        // through the code's own writer, too
        k = serde_json::from_str(&serde_json::to_string(&k).unwrap()).map_err(|e| format!("key again: {e}"))?;
        p = serde_json::from_str(&serde_json::to_string(&p).unwrap()).map_err(|e| format!("proof again: {e}"))?;
        v = serde_json::from_str(&serde_json::to_string(&v).unwrap()).map_err(|e| format!("inputs again: {e}"))?;
        if v.values.len() != k.n_public {
            return Err("inputs: another number than the key's".into());
        }
        let vk = VerifyingKey::<Bls12_381> {
            alpha_g1: k.alpha_1,
            beta_g2: k.beta_2,
            gamma_g2: k.gamma_2,
            delta_g2: k.delta_2,
            gamma_abc_g1: k.ic,
        };
        let vk = ark_groth16::prepare_verifying_key(&vk);
        if vk.alpha_g1_beta_g2 != k.alpha_beta_gt {
            return Err("the pairing of the key is another".into());
        }
        Groth16::<Bls12_381>::verify_proof(&vk, &Proof { a: p.pi_a, b: p.pi_b, c: p.pi_c }, &v.values).map_err(|e| e.to_string())
    })
}

#[derive(Clone, Debug)]
struct Trap {
    abcd: [Fr; 4],
    ic: Vec<Fr>,
    x: Vec<Fr>,
    a: Fr,
    b: Fr,
    change: usize,
    at: usize,
    by: Fr,
}
fn trap(s: &mut Src) -> Trap {
    let nz = |s: &mut Src| {
        let v = fr(&scalar(s));
        if v.is_zero() {
            Fr::from(3u8)
        } else {
            v
        }
    };
    let n = s.range(0, 6);
    Trap {
        abcd: std::array::from_fn(|_| nz(s)),
        ic: s.many(n + 1, |s| fr(&scalar(s))),
        x: s.many(n, |s| fr(&scalar(s))),
        a: fr(&scalar(s)),
        b: fr(&scalar(s)),
        change: s.usize(12),
        at: s.usize(n.max(1)),
        by: nz(s),
    }
}
fn check_trap(t: &Trap, i: &mut Info) -> Res {
    let [al, be, ga, de] = t.abcd;
    let lin = |ic: &[Fr], x: &[Fr]| ic[0] + ic[1..].iter().zip(x).map(|(k, x)| *k * x).sum::<Fr>();
    let c = (t.a * t.b - al * be - ga * lin(&t.ic, &t.x)) * de.inverse().unwrap();
    let (mut x, mut ic, mut p, mut key) = (t.x.clone(), t.ic.clone(), (t.a, t.b, c), t.abcd);
    let names = [
        "honest", "input", "a", "b", "c", "rescaled", "swapped", "alpha", "delta", "IC", "inputs swapped", "negated",
    ];
    match t.change {
        1 if !x.is_empty() => x[t.at] += t.by,
        2 => p.0 += t.by,
        3 => p.1 += t.by,
        4 => p.2 += t.by,
        5 => p = (p.0 * t.by, p.1 * t.by.inverse().unwrap(), p.2),
        6 => std::mem::swap(&mut p.0, &mut p.2),
        7 => key[0] += t.by,
        8 => key[3] += t.by,
        9 => ic[t.at] += t.by,
        10 if x.len() > 1 => {
            let at = 1 + t.at % (x.len() - 1);
            x.swap(0, at)
        }
        11 => p = (-p.0, p.1, p.2),
        _ => {}
    }
    let want = p.0 * p.1 == key[0] * key[1] + key[2] * lin(&ic, &x) + key[3] * p.2;
    i.class(format!("{}: {}", names[t.change], if want { "valid" } else { "invalid" }));
    let vk = VerifyingKey::<Bls12_381> {
        alpha_g1: g1(key[0]),
        beta_g2: g2(key[1]),
        gamma_g2: g2(key[2]),
        delta_g2: g2(key[3]),
        gamma_abc_g1: ic.iter().map(|k| g1(*k)).collect(),
    };
    let proof = Proof { a: g1(p.0), b: g2(p.1), c: g1(p.2) };
    let (k, d) = (key_doc(&vk), proof_doc(&proof));
    ensure_eq!(verdict(&k, &d, &strings(&x))?, Ok(want), "verdict ({})", names[t.change]);
    // another number of inputs
    let mut more = x.clone();
    more.push(Fr::zero());
    ensure!(verdict(&k, &d, &strings(&more))?.is_err(), "an input too many is no error");
    if !x.is_empty() {
        ensure!(verdict(&k, &d, &strings(&x[1..]))?.is_err(), "an input too few is no error");
    }
    Ok(())
}

/// A circuit of random products, proved by arkworks.
#[derive(Clone, Debug)]
struct Real {
    w: Vec<Fr>,
    n: usize,
    rows: Vec<(usize, usize, Fr)>,
    seed: u64,
    at: usize,
    by: Fr,
}
impl ConstraintSynthesizer<Fr> for Real {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let mut vars: Vec<(Variable, Fr)> = vec![];
        for (k, v) in self.w.iter().enumerate() {
            let v = *v;
            vars.push((if k < self.n { cs.new_input_variable(|| Ok(v))? } else { cs.new_witness_variable(|| Ok(v))? }, v));
        }
        for (a, b, k) in &self.rows {
            let (a, b) = (vars[*a], vars[*b]);
            let v = (a.1 + k) * b.1;
            let c = cs.new_witness_variable(|| Ok(v))?;
            let l = LinearCombination::from(a.0) + (*k, Variable::One);
            cs.enforce_constraint(l, b.0.into(), c.into())?;
            vars.push((c, v));
        }
        Ok(())
    }
}
fn real(s: &mut Src) -> Real {
    let n = s.range(0, 4);
    let w = s.many(n + 1 + s_extra(n), |s| fr(&scalar(s)));
    let len = w.len();
    let rows = (0..s.range(1, 5)).map(|i| (s.usize(len + i), s.usize(len + i), fr(&scalar(s)))).collect();
    Real { w, n, rows, seed: s.u64(), at: s.usize(n.max(1)), by: fr(&(scalar(s))) + Fr::from(1u8) }
}
fn s_extra(n: usize) -> usize {
    1 + n % 2
}
fn check_real(c: &Real, i: &mut Info) -> Res {
    i.class(format!("{} inputs", c.n));
    let mut rng = StdRng::seed_from_u64(c.seed);
    let (pk, vk) = Groth16::<Bls12_381>::circuit_specific_setup(c.clone(), &mut rng).map_err(|e| format!("harness error: setup {e}"))?;
    let p = Groth16::<Bls12_381>::prove(&pk, c.clone(), &mut rng).map_err(|e| format!("harness error: prove {e}"))?;
    let x = c.w[..c.n].to_vec();
    let (k, d) = (key_doc(&vk), proof_doc(&p));
    ensure_eq!(verdict(&k, &d, &strings(&x))?, Ok(true), "an honest proof");
    if c.n > 0 && !c.by.is_zero() {
        let mut y = x.clone();
        y[c.at] += c.by;
        // an input that no constraint uses still has a point of its own, unless that is zero
        let free = vk.gamma_abc_g1[c.at + 1].infinity;
        ensure_eq!(verdict(&k, &d, &strings(&y))?, Ok(free), "an honest proof with input {} changed", c.at);
    }
    let (_, other) = Groth16::<Bls12_381>::circuit_specific_setup(c.clone(), &mut rng).unwrap();
    ensure_eq!(verdict(&key_doc(&other), &d, &strings(&x))?, Ok(false), "an honest proof under another key");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("arkworks' pairing check (third party) decides; the code under test reads and writes what it is given");
    ctx.sub("exponents", 8000, 200_000).rule("every case").run(trap, check_trap);
    ctx.sub("circuits", 400, 10_000).rule("every case").run(real, check_real);
}
