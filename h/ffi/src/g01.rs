//! G01: JSON (and binary) forms of keys, proofs and inputs.
use crate::bls::*;
use crate::json_util::*;
use crate::proof::*;
use crate::traits::*;
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fr, G1Affine, G2Affine};
use num_bigint::BigUint;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct E1(
    #[serde(serialize_with = "Bls12_381::serialize_g1::<_>", deserialize_with = "Bls12_381::deserialize_g1_element::<_>")]
    pub G1Affine,
);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct E2_(
    #[serde(serialize_with = "Bls12_381::serialize_g2::<_>", deserialize_with = "Bls12_381::deserialize_g2_element::<_>")]
    pub G2Affine,
);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct ET(
    #[serde(serialize_with = "Bls12_381::serialize_gt::<_>", deserialize_with = "Bls12_381::deserialize_gt_element::<_>")]
    pub Fq12,
);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct EF(
    #[serde(serialize_with = "Bls12_381::serialize_fr::<_>", deserialize_with = "Bls12_381::deserialize_fr_element::<_>")]
    pub Fr,
);

pub fn both<T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug>(v: &T, doc: &Value, what: &str) -> Res {
    let w = guard(|| serde_json::to_value(v))?.map_err(|e| format!("writing {what}: {e}"))?;
    ensure_eq!(w, *doc, "{what} written");
    let text = guard(|| serde_json::to_string(v))?.map_err(|e| format!("writing {what}: {e}"))?;
    for t in [text.clone(), doc.to_string(), serde_json::to_string_pretty(doc).unwrap()] {
        let back: T = guard(|| serde_json::from_str(&t))?.map_err(|e| format!("reading {what}: {e}"))?;
        ensure!(back == *v, "{what} came back as {back:?}");
        ensure_eq!(serde_json::to_string(&back).unwrap(), text, "{what} written again");
    }
    let back: T = guard(|| serde_json::from_reader(doc.to_string().as_bytes()))?.map_err(|e| format!("reading {what}: {e}"))?;
    ensure!(back == *v, "{what} came back from a reader as {back:?}");
    Ok(())
}

type Elems = (P1, P2, Gt, BigUint, BigUint, E2);
fn elems(s: &mut Src) -> Elems {
    let nz = |s: &mut Src| below(s, &(q() - 1u8)) + 1u8;
    (point1(s), point2(s), gt(s), scalar(s), nz(s), (nz(s), below(s, q())))
}
fn check_elems((p, p2, t, f, z, zz): &Elems, i: &mut Info) -> Res {
    i.class(if p.is_some() && p2.is_some() { "affine" } else { "infinity" });
    both(&E1(ark1(p)), &json1(p), "a point of G1")?;
    both(&E2_(ark2(p2)), &json2(p2), "a point of G2")?;
    both(&ET(ark_gt(t)), &json_gt(t), "a target element")?;
    both(&EF(fr(f)), &json!(f.to_string()), "a scalar")?;
    // other representatives of the same points
    let e: E1 = guard(|| serde_json::from_value(json1_z(p, z)))?.map_err(|e| format!("G1 with z={z}: {e}"))?;
    ensure_eq!(of1(e.0), *p, "G1 with z={z}");
    let e: E2_ = guard(|| serde_json::from_value(json2_z(p2, zz)))?.map_err(|e| format!("G2 with z={zz:?}: {e}"))?;
    ensure_eq!(of2(e.0), *p2, "G2 with z={zz:?}");
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Docs(Vk, Proof, Vec<BigUint>, [String; 2], String, [u8; 32], bool);
fn docs(s: &mut Src) -> Docs {
    let text = |s: &mut Src| (0..s.usize(8)).map(|_| *s.pick(&['0', 'a', '"', '\\', '\n', 'é', '\u{0}', '𝕏'])).collect::<String>();
    Docs(vk(s), proof(s), s.vec(0, 9, scalar), [text(s), text(s)], text(s), std::array::from_fn(|_| s.below(256) as u8), s.bool())
}
pub fn ark_vk(v: &Vk) -> JsonVerificationKey<Bls12_381> {
    JsonVerificationKey {
        protocol: "groth16".into(),
        n_public: v.n,
        alpha_1: ark1(&v.a),
        beta_2: ark2(&v.b),
        gamma_2: ark2(&v.c),
        delta_2: ark2(&v.d),
        alpha_beta_gt: ark_gt(&v.ab),
        ic: v.ic.iter().map(ark1).collect(),
    }
}
pub fn ark_proof(p: &Proof) -> Groth16Proof<Bls12_381> {
    Groth16Proof { pi_a: ark1(&p.a), pi_b: ark2(&p.b), pi_c: ark1(&p.c), protocol: "groth16".into(), curve: "bls12381".into() }
}
fn check_docs(Docs(v, p, inputs, strs, enc, hash, plonk): &Docs, i: &mut Info) -> Res {
    i.class(format!("{} points in IC", v.ic.len()));
    let key = ark_vk(v);
    both(&key, &json_vk(v), "a verification key")?;
    let text = json_vk(v).to_string();
    let k = guard(|| JsonVerificationKey::<Bls12_381>::from_reader(text.as_bytes()))?.map_err(|e| format!("from_reader: {e}"))?;
    ensure!(k == key, "a verification key came back from its reader as {k:?}");
    // a key of the usual tools names its curve, too
    let mut named = json_vk(v);
    named["curve"] = json!("bls12381");
    let k: JsonVerificationKey<Bls12_381> = guard(|| serde_json::from_value(named))?.map_err(|e| format!("named curve: {e}"))?;
    ensure!(k == key, "a verification key with a curve came back as {k:?}");
    both(&ark_proof(p), &json_proof(p), "a proof")?;
    let vals = JsonPublicInput { values: inputs.iter().map(fr).collect::<Vec<Fr>>() };
    both(&vals, &json!(inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>()), "public inputs")?;
    // the wrapped proofs
    let w = if *plonk {
        ProofBn254::Plonk(PlonkBn254Proof {
            public_inputs: strs.clone(),
            encoded_proof: enc.clone(),
            raw_proof: strs[0].clone() + enc,
            plonk_vkey_hash: *hash,
        })
    } else {
        ProofBn254::Groth16(Groth16Bn254Proof {
            public_inputs: strs.clone(),
            encoded_proof: enc.clone(),
            raw_proof: strs[0].clone() + enc,
            groth16_vkey_hash: *hash,
        })
    };
    let doc = if *plonk {
        json!({"Plonk": {"public_inputs": strs, "encoded_proof": enc, "raw_proof": strs[0].clone() + enc, "plonk_vkey_hash": hash}})
    } else {
        json!({"Groth16": {"public_inputs": strs, "encoded_proof": enc, "raw_proof": strs[0].clone() + enc, "groth16_vkey_hash": hash}})
    };
    ensure_eq!(serde_json::to_value(&w).unwrap(), doc, "a wrapped proof written");
    let back: ProofBn254 = guard(|| serde_json::from_str(&doc.to_string()))?.map_err(|e| format!("a wrapped proof: {e}"))?;
    ensure_eq!(serde_json::to_value(&back).unwrap(), doc, "a wrapped proof read and written again");
    let bin = bincode::serialize(&w).unwrap();
    let back: ProofBn254 = guard(|| bincode::deserialize(&bin))?.map_err(|e| format!("a wrapped proof from bytes: {e}"))?;
    ensure_eq!(serde_json::to_value(&back).unwrap(), doc, "a wrapped proof from bytes");
    Ok(())
}

type Bin = (Vec<P1>, Vec<P2>, Vec<u8>, Vec<u8>, BigUint, BigUint);
fn bin(s: &mut Src) -> Bin {
    let any = |s: &mut Src, n: usize| match s.below(4) {
        0 => vec![255; n],
        1 => le(&(below(s, q()) % (BigUint::from(1u8) << (8 * n))), n),
        _ => s.many(n, |s| s.below(256) as u8),
    };
    (s.vec(0, 7, point1), s.vec(0, 5, point2), any(s, 48), any(s, 32), below(s, q()), scalar(s))
}
fn check_bin((a, b, x, y, f, g): &Bin, i: &mut Info) -> Res {
    if a.is_empty() && b.is_empty() {
        i.trivial();
    }
    let (da, db): (Vec<u8>, Vec<u8>) = (a.iter().flat_map(bytes1).collect(), b.iter().flat_map(bytes2).collect());
    for c in [CheckElement::Yes, CheckElement::No] {
        let got = guard(|| Bls12_381::g1_vec_from_reader(&da[..], a.len(), c))?.map_err(|e| format!("G1: {e:?}"))?;
        ensure_eq!(got.into_iter().map(of1).collect::<Vec<_>>(), *a, "G1 from bytes");
        let got = guard(|| Bls12_381::g2_vec_from_reader(&db[..], b.len(), c))?.map_err(|e| format!("G2: {e:?}"))?;
        ensure_eq!(got.into_iter().map(of2).collect::<Vec<_>>(), *b, "G2 from bytes");
        let mut rd = &da[..];
        for p in a {
            let got = guard(|| Bls12_381::g1_from_reader(&mut rd, c))?.map_err(|e| format!("G1: {e:?}"))?;
            ensure_eq!(of1(got), *p, "G1 from a reader");
        }
        let mut rd = &db[..];
        for p in b {
            let got = guard(|| Bls12_381::g2_from_reader(&mut rd, c))?.map_err(|e| format!("G2: {e:?}"))?;
            ensure_eq!(of2(got), *p, "G2 from a reader");
        }
    }
    let e = |e: ark_serialize::SerializationError| format!("a field element: {e:?}");
    ensure_eq!(big(guard(|| Fq::from_reader(&x[..]))?.map_err(e)?), BigUint::from_bytes_le(x) % q(), "Fq::from_reader");
    ensure_eq!(big(guard(|| Fr::from_reader(&y[..]))?.map_err(e)?), BigUint::from_bytes_le(y) % r(), "Fr::from_reader");
    // Montgomery forms, once and twice
    let (m, k) = (mont(f), (g << 256) % r());
    ensure_eq!(big(guard(|| Fq::montgomery_bigint_from_reader(&le(&m, 48)[..]))?.map_err(e)?), *f, "Fq, Montgomery");
    ensure_eq!(big(guard(|| Fr::montgomery_bigint_from_reader(&le(&k, 32)[..]))?.map_err(e)?), *g, "Fr, Montgomery");
    let (m, k) = (mont(&m), (k << 256) % r());
    ensure_eq!(big(guard(|| Fq::from_reader_for_groth16_zkey(&le(&m, 48)[..]))?.map_err(e)?), *f, "Fq of a zkey");
    ensure_eq!(big(guard(|| Fr::from_reader_for_groth16_zkey(&le(&k, 32)[..]))?.map_err(e)?), *g, "Fr of a zkey");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("arkworks' field and curve arithmetic (third party) is used to make points; forms are judged on big integers");
    ctx.sub("elements", 6000, 200_000).rule("every case").run(elems, check_elems);
    ctx.sub("documents", 2500, 80_000).rule("every case").run(docs, check_docs);
    ctx.sub("binary", 3000, 100_000).rule("some point").run(bin, check_bin);
}
