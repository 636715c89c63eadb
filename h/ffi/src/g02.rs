//! G02: what is not a point or a number is refused.
use crate::bls::*;
use crate::g01::{E1, E2_, EF, ET};
use crate::json_util::*;
use crate::traits::*;
use ark_bls12_381::{Bls12_381, Fq, Fr};
use num_bigint::{BigInt, BigUint};
use serde_json::{json, Value};
use vh::{ensure, guard, Ctx, Info, Res, Src};

/// Text that is no decimal integer.
fn garbage(s: &mut Src) -> String {
    let t: &[&str] = &[
        "", " ", "-", "+", "abc", "0x10", "1.5", "1e3", " 1", "1 ", "1,2", "NaN", "inf", "１", "0b1", "1\u{0}", "--1", "1-", "٣", "+-1", "null",
        "12345678901234567890x", "'1'",
    ];
    s.pick(t).to_string()
}
/// Values of another kind than text.
fn alien(s: &mut Src) -> Value {
    match s.below(7) {
        0 => json!(s.below(5)),
        1 => Value::Null,
        2 => json!(true),
        3 => json!({}),
        4 => json!([]),
        5 => json!(["1"]),
        _ => json!(1.5),
    }
}
/// The paths of all texts in a document that stand for numbers.
fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, &format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "protocol" && *k != "curve").for_each(|(k, x)| leaves(x, &format!("{at}/{k}"), out)),
        Value::String(_) => out.push(at.to_string()),
        _ => {}
    }
}
/// The paths of all sequences whose length is fixed, IC itself and public inputs are not.
fn seqs(v: &Value, at: &str, out: &mut Vec<String>) {
    if let Value::Object(o) = v {
        o.iter().for_each(|(k, x)| seqs(x, &format!("{at}/{k}"), out));
    }
    if let Value::Array(a) = v {
        if !at.ends_with("/IC") {
            out.push(at.to_string());
        }
        a.iter().enumerate().for_each(|(i, x)| seqs(x, &format!("{at}/{i}"), out));
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    G1,
    G2,
    Gt,
    Fr,
    Vk,
    Proof,
    Inputs,
}
/// None: refused. Some(text): what was read, written again. (Err: it crashed.)
fn read(k: Kind, doc: &str) -> Result<Option<Value>, String> {
    fn go<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(doc: &str) -> Result<Option<Value>, String> {
        let a = guard(|| serde_json::from_str::<T>(doc))?.ok();
        let b = guard(|| serde_json::from_reader::<_, T>(doc.as_bytes()))?.ok();
        if a.is_some() != b.is_some() {
            return Err("read from text and from a reader with different results".into());
        }
        a.map(|v| guard(|| serde_json::to_value(&v))?.map_err(|e| e.to_string())).transpose()
    }
    match k {
        Kind::G1 => go::<E1>(doc),
        Kind::G2 => go::<E2_>(doc),
        Kind::Gt => go::<ET>(doc),
        Kind::Fr => go::<EF>(doc),
        Kind::Vk => go::<JsonVerificationKey<Bls12_381>>(doc),
        Kind::Proof => go::<Groth16Proof<Bls12_381>>(doc),
        Kind::Inputs => go::<JsonPublicInput<Fr>>(doc),
    }
}
fn honest(k: Kind, s: &mut Src) -> Value {
    match k {
        Kind::G1 => json1(&point1(s)),
        Kind::G2 => json2(&point2(s)),
        Kind::Gt => json_gt(&gt(s)),
        Kind::Fr => json!(scalar(s).to_string()),
        Kind::Vk => json_vk(&vk(s)),
        Kind::Proof => json_proof(&proof(s)),
        Kind::Inputs => json!(s.vec(1, 6, |s| scalar(s).to_string())),
    }
}
const KINDS: [Kind; 7] = [Kind::G1, Kind::G2, Kind::Gt, Kind::Fr, Kind::Vk, Kind::Proof, Kind::Inputs];

/// Damage to the shape: always refused.
fn shape(s: &mut Src) -> (Kind, Value, String) {
    let k = *s.pick(&KINDS);
    let mut doc = honest(k, s);
    let (mut l, mut q) = (vec![], vec![]);
    leaves(&doc, "", &mut l);
    seqs(&doc, "", &mut q);
    if k == Kind::Inputs {
        q.clear();
    }
    let fields: Vec<String> = doc.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
    let op = s.weighted(&[5, 4, if q.is_empty() { 0 } else { 5 }, if q.is_empty() { 0 } else { 3 }, if fields.is_empty() { 0 } else { 2 }, 1]);
    let what = match op {
        0 => {
            let (at, t) = (s.pick(&l).clone(), garbage(s));
            *doc.pointer_mut(&at).unwrap() = json!(t);
            format!("{at}: text {t:?}")
        }
        1 => {
            let (at, t) = (s.pick(&l).clone(), alien(s));
            let what = format!("{at}: {t}");
            *doc.pointer_mut(&at).unwrap() = t;
            what
        }
        2 => {
            let at = s.pick(&q).clone();
            let a = doc.pointer_mut(&at).unwrap().as_array_mut().unwrap();
            let i = s.usize(a.len());
            a.remove(i);
            format!("{at}: element {i} missing")
        }
        3 => {
            let at = s.pick(&q).clone();
            let a = doc.pointer_mut(&at).unwrap().as_array_mut().unwrap();
            let x = match s.below(3) {
                0 => a[s.usize(a.len())].clone(),
                1 => json!("1"),
                _ => alien(s),
            };
            let i = s.usize(a.len() + 1);
            let what = format!("{at}: a further element {x} at {i}");
            a.insert(i, x);
            what
        }
        4 => {
            let f = s.pick(&fields).clone();
            doc.as_object_mut().unwrap().remove(&f);
            format!("without {f}")
        }
        _ => {
            let text = doc.to_string();
            let n = 1 + s.usize(text.len() - 1);
            // cut at a character that exists
            let t: String = text.chars().take(n).collect();
            return (k, json!(t), "CUT".into());
        }
    };
    (k, doc, what)
}
fn check_shape((k, doc, what): &(Kind, Value, String), i: &mut Info) -> Res {
    i.class(format!("{k:?}"));
    let text = if what == "CUT" { doc.as_str().unwrap().to_string() } else { doc.to_string() };
    let got = read(*k, &text).map_err(|e| format!("{k:?} with {what} crashed the reader: {e}"))?;
    ensure!(got.is_none(), "{k:?} with {what} was read as {}", got.unwrap());
    Ok(())
}

/// Coordinates of anything: read exactly when they are a point of the subgroup.
#[derive(Clone, Debug)]
enum Pt {
    One(BigUint, BigUint, BigUint),
    Two(E2, E2, E2),
}
fn pt(s: &mut Src) -> Pt {
    let one = || BigUint::from(1u8);
    let zero = || BigUint::from(0u8);
    let rogue = s.chance(1, 3);
    if s.bool() {
        let (mut x, mut y) = (if rogue { rogue1(s) } else { point1(s) }).unwrap_or((zero(), zero()));
        let mut z = one();
        match s.below(6) {
            0 => x = (x + 1u8) % q(),
            1 => y = q() - (y + 1u8),
            2 => std::mem::swap(&mut x, &mut y),
            3 => z = below(s, q()),
            4 => (x, y) = (below(s, q()), below(s, q())),
            _ => {}
        }
        Pt::One(x, y, z)
    } else {
        let o = || (zero(), zero());
        let (mut x, mut y) = (if rogue { rogue2(s) } else { point2(s) }).unwrap_or((o(), o()));
        let mut z = (one(), zero());
        match s.below(8) {
            0 => x.0 = (x.0 + 1u8) % q(),
            1 => y.1 = (y.1 + 1u8) % q(),
            2 => std::mem::swap(&mut x, &mut y),
            3 => z = (below(s, q()), below(s, q())),
            4 => (x, y) = ((below(s, q()), below(s, q())), (below(s, q()), below(s, q()))),
            5 => std::mem::swap(&mut x.0, &mut x.1),
            6 => y.1 = (q() - &y.1) % q(),
            _ => {}
        }
        Pt::Two(x, y, z)
    }
}
fn check_pt(p: &Pt, i: &mut Info) -> Res {
    let e = |v: &BigUint| json!(v.to_string());
    let e2 = |v: &E2| json!([v.0.to_string(), v.1.to_string()]);
    // None: at infinity, which both answers are right for; otherwise the affine point
    let (doc, kind, want, bytes, plain): (Value, Kind, Option<Option<Value>>, Vec<u8>, bool) = match p {
        Pt::One(x, y, z) => {
            let want = (*z != BigUint::from(0u8)).then(|| {
                let w = inv(z, q());
                let (x, y) = (x * &w * &w % q(), y * &w * &w * &w % q());
                let ok = on_curve1(&x, &y) && ark1(&Some((x.clone(), y.clone()))).is_in_correct_subgroup_assuming_on_curve();
                ok.then(|| json1(&Some((x, y))))
            });
            (json!([e(x), e(y), e(z)]), Kind::G1, want, bytes1(&Some((x.clone(), y.clone()))), *z == BigUint::from(1u8))
        }
        Pt::Two(x, y, z) => {
            let zero = BigUint::from(0u8);
            let want = (*z != (zero.clone(), zero.clone())).then(|| {
                let w = inv2(z);
                let w2 = mul2(&w, &w);
                let (x, y) = (mul2(x, &w2), mul2(y, &mul2(&w2, &w)));
                let ok = on_curve2(&x, &y) && ark2(&Some((x.clone(), y.clone()))).is_in_correct_subgroup_assuming_on_curve();
                ok.then(|| json2(&Some((x, y))))
            });
            let plain = *z == (BigUint::from(1u8), zero);
            (json!([e2(x), e2(y), e2(z)]), Kind::G2, want, bytes2(&Some((x.clone(), y.clone()))), plain)
        }
    };
    i.class(match &want {
        None => "z = 0",
        Some(None) => "no point of the group",
        Some(_) => "a point of the group",
    });
    // the element alone, and inside each document
    let mut places = vec![(kind, doc.clone())];
    let mut s = vh::Src::random(7);
    let (mut k, mut pr) = (json_vk(&vk(&mut s)), json_proof(&proof(&mut s)));
    if kind == Kind::G1 {
        for f in ["pi_a", "pi_c"] {
            let old = std::mem::replace(&mut pr[f], doc.clone());
            places.push((Kind::Proof, pr.clone()));
            pr[f] = old;
        }
        let old = std::mem::replace(&mut k["vk_alpha_1"], doc.clone());
        places.push((Kind::Vk, k.clone()));
        k["vk_alpha_1"] = old;
        k["IC"] = json!([json1(&point1(&mut s)), doc, json1(&point1(&mut s))]);
        places.push((Kind::Vk, k.clone()));
    } else {
        pr["pi_b"] = doc.clone();
        places.push((Kind::Proof, pr.clone()));
        for f in ["vk_beta_2", "vk_gamma_2", "vk_delta_2"] {
            let old = std::mem::replace(&mut k[f], doc.clone());
            places.push((Kind::Vk, k.clone()));
            k[f] = old;
        }
    }
    i.evals(places.len() as u64 - 1);
    for (at, (k, d)) in places.iter().enumerate() {
        let got = read(*k, &d.to_string()).map_err(|e| format!("{k:?} crashed the reader: {e}\n{d}"))?;
        match &want {
            None => {}
            Some(None) => ensure!(got.is_none(), "{k:?} was read, though it holds what is no point of the group: {d}"),
            Some(Some(w)) => {
                ensure!(got.is_some(), "{k:?} was refused: {d}");
                if at == 0 {
                    vh::ensure_eq!(got.unwrap(), *w, "the point read");
                }
            }
        }
    }
    // the same by bytes
    if plain && bytes.iter().any(|b| *b != 0) {
        let ok = if kind == Kind::G1 {
            guard(|| Bls12_381::g1_from_reader(&bytes[..], CheckElement::Yes))?.is_ok()
        } else {
            guard(|| Bls12_381::g2_from_reader(&bytes[..], CheckElement::Yes))?.is_ok()
        };
        vh::ensure_eq!(ok, want.unwrap().is_some(), "accepted from bytes");
    }
    Ok(())
}

/// Numbers in another spelling: refused, or the number they spell modulo the field.
fn spelt(s: &mut Src) -> (Kind, Value, String, String) {
    let k = *s.pick(&KINDS);
    let doc = honest(k, s);
    let mut l = vec![];
    leaves(&doc, "", &mut l);
    let at = s.pick(&l).clone();
    let m = if matches!(k, Kind::Fr | Kind::Inputs) { r() } else { q() };
    let v = BigInt::from(doc.pointer(&at).unwrap().as_str().unwrap().parse::<BigUint>().unwrap());
    let m = BigInt::from(m.clone());
    let t = match s.below(8) {
        0 => format!("+{v}"),
        1 => format!("0{v}"),
        2 => format!("000000{v}"),
        3 => (&v + &m).to_string(),
        4 => (&v - &m).to_string(),
        5 => (&v + &m * BigInt::from(s.u64())).to_string(),
        6 => (&v - &m * BigInt::from(s.u64())).to_string(),
        _ => (&v + (&m << 1000usize) as BigInt).to_string(),
    };
    (k, doc, at, t)
}
fn check_spelt((k, doc, at, t): &(Kind, Value, String, String), i: &mut Info) -> Res {
    let mut d = doc.clone();
    *d.pointer_mut(at).unwrap() = json!(t);
    let got = read(*k, &d.to_string()).map_err(|e| format!("{k:?} with {t} at {at} crashed the reader: {e}"))?;
    i.class(if got.is_some() { "taken" } else { "refused" });
    if let Some(g) = got {
        let same = read(*k, &doc.to_string())?.ok_or("the plain document was refused")?;
        vh::ensure_eq!(g, same, "{t} at {at} denotes another value");
    }
    Ok(())
}

/// Bytes: cut off, and coordinates outside the field.
#[derive(Clone, Debug)]
enum Bin {
    Cut1(Vec<P1>, usize),
    Cut2(Vec<P2>, usize),
    Over1(P1, usize, u64),
    Over2(P2, usize, u64),
    Field(BigUint, bool),
}
fn bin(s: &mut Src) -> Bin {
    match s.below(5) {
        0 => Bin::Cut1(s.vec(1, 4, point1), 1 + s.usize(96)),
        1 => Bin::Cut2(s.vec(1, 3, point2), 1 + s.usize(192)),
        2 => Bin::Over1(point1(s), s.usize(2), s.below(3)),
        3 => Bin::Over2(point2(s), s.usize(4), s.below(3)),
        _ => {
            let fq = s.bool();
            let m = if fq { q() } else { r() };
            let top = BigUint::from(1u8) << if fq { 384 } else { 256 };
            Bin::Field(m + below(s, &(top - m)), fq)
        }
    }
}
fn over(mut b: Vec<u8>, at: usize, times: u64) -> Vec<u8> {
    let c = &mut b[48 * at..48 * at + 48];
    c.copy_from_slice(&le(&(BigUint::from_bytes_le(c) + q() * (1 + times)), 48));
    b
}
fn check_bin(b: &Bin, i: &mut Info) -> Res {
    let both = [CheckElement::Yes, CheckElement::No];
    match b {
        Bin::Cut1(p, n) => {
            i.class("cut off");
            let d: Vec<u8> = p.iter().flat_map(bytes1).collect();
            let d = &d[..d.len() - n];
            for c in both {
                ensure!(guard(|| Bls12_381::g1_vec_from_reader(d, p.len(), c))?.is_err(), "{} points from {} bytes", p.len(), d.len());
                ensure!(guard(|| Bls12_381::g1_from_reader(&d[d.len() / 96 * 96..], c))?.is_err(), "a point from too few bytes");
            }
        }
        Bin::Cut2(p, n) => {
            i.class("cut off");
            let d: Vec<u8> = p.iter().flat_map(bytes2).collect();
            let d = &d[..d.len() - n];
            for c in both {
                ensure!(guard(|| Bls12_381::g2_vec_from_reader(d, p.len(), c))?.is_err(), "{} points from {} bytes", p.len(), d.len());
                ensure!(guard(|| Bls12_381::g2_from_reader(&d[d.len() / 192 * 192..], c))?.is_err(), "a point from too few bytes");
            }
        }
        Bin::Over1(p, at, t) => {
            i.class("outside the field");
            let d = over(bytes1(p), *at, *t);
            ensure!(guard(|| Bls12_381::g1_from_reader(&d[..], CheckElement::Yes))?.is_err(), "{p:?} accepted with coordinate {at} not below the modulus");
            ensure!(guard(|| Bls12_381::g1_vec_from_reader(&d[..], 1, CheckElement::Yes))?.is_err(), "{p:?} accepted with coordinate {at} not below the modulus");
        }
        Bin::Over2(p, at, t) => {
            i.class("outside the field");
            let d = over(bytes2(p), *at, *t);
            ensure!(guard(|| Bls12_381::g2_from_reader(&d[..], CheckElement::Yes))?.is_err(), "{p:?} accepted with coordinate {at} not below the modulus");
            ensure!(guard(|| Bls12_381::g2_vec_from_reader(&d[..], 1, CheckElement::Yes))?.is_err(), "{p:?} accepted with coordinate {at} not below the modulus");
        }
        Bin::Field(v, is_q) => {
            i.class("field element");
            let bad = if *is_q {
                guard(|| Fq::montgomery_bigint_from_reader(&le(v, 48)[..]))?.is_err()
            } else {
                guard(|| Fr::montgomery_bigint_from_reader(&le(v, 32)[..]))?.is_err()
            };
            ensure!(bad, "{v} accepted as a Montgomery form");
            let short = le(v, if *is_q { 48 } else { 32 });
            let short = &short[..short.len() - 1];
            let bad = if *is_q { guard(|| Fq::from_reader(short))?.is_err() } else { guard(|| Fr::from_reader(short))?.is_err() };
            ensure!(bad, "a field element from too few bytes");
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("a third coordinate of zero is taken for the point at infinity or refused");
    ctx.sub("shape", 20_000, 600_000).rule("every case").run(shape, check_shape);
    ctx.sub("points", 4000, 120_000).rule("every case").run(pt, check_pt);
    ctx.sub("spelling", 8000, 200_000).rule("every case").run(spelt, check_spelt);
    ctx.sub("bytes", 8000, 200_000).rule("every case").run(bin, check_bin);
}
