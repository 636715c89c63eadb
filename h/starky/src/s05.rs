//! S05: proofs, digests, field elements, setups and trace files through their written forms.
use crate::air::{air, Air, Limits};
use crate::conv::{gfr, gint, gvec, limb_overflow, scalar, to_dec, BlsFr, BnFr};
use crate::m01::Tree;
use crate::prover::{accepted, dup, f3, other_root, setup, Proving};
use crate::s01::{classify, honest, Backend};
use fields::field_gl::Fr as FGL;
use serde::de::DeserializeOwned;
use serde::Serialize;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::polsarray::PolKind;
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::traits::{FieldExtension, MTNodeType};
use starky::ElementDigest;
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

/// Writes and reads in every form serde_json has; all have to give the same.
fn trips<T: Serialize + DeserializeOwned>(x: &T, mut same: impl FnMut(&T) -> Res, want: Option<serde_json::Value>) -> Res {
    let text = serde_json::to_string(x).map_err(|e| e.to_string())?;
    let value = serde_json::to_value(x).map_err(|e| e.to_string())?;
    if let Some(w) = want {
        ensure_eq!(value, w, "written form");
    }
    ensure!(serde_json::from_str::<serde_json::Value>(&text).ok() == Some(value.clone()), "text and value forms differ");
    let pretty = serde_json::to_string_pretty(x).map_err(|e| e.to_string())?;
    let back: Vec<(&str, Result<T, String>)> = vec![
        ("text", guard(|| serde_json::from_str(&text).map_err(|e| e.to_string())).and_then(|r| r)),
        ("bytes", guard(|| serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string())).and_then(|r| r)),
        ("reader", guard(|| serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string())).and_then(|r| r)),
        ("value", guard(|| serde_json::from_value(value).map_err(|e| e.to_string())).and_then(|r| r)),
        ("indented text", guard(|| serde_json::from_str(&pretty).map_err(|e| e.to_string())).and_then(|r| r)),
    ];
    for (how, b) in back {
        let b = b.map_err(|e| format!("reading back ({how}) fails: {e}"))?;
        same(&b).map_err(|f| vh::Fail::from(format!("read back from {how}: {}", f.msg)))?;
        ensure!(serde_json::to_string(&b).ok().as_deref() == Some(&text[..]), "second writing differs ({how})");
    }
    Ok(())
}
#[derive(Debug, Clone)]
struct Elems {
    a: Vec<u64>,
    ext: bool,
    bn: <href::Bn as href::Spec>::F,
    bls: <href::Bls as href::Spec>::F,
}
fn elems(s: &mut Src) -> Elems {
    // coordinates are often zero
    Elems {
        a: s.many(5, |s| if s.chance(1, 3) { 0 } else { s.gl() }),
        ext: s.bool(),
        bn: scalar::<href::Bn>(s),
        bls: scalar::<href::Bls>(s),
    }
}
fn digest<F: ff::PrimeField + Default, G: ff::PrimeField>(v: &G) -> Res {
    if limb_overflow(v) {
        return Ok(());
    }
    let d = crate::conv::node::<ElementDigest<4, F>, G>(v);
    let dec = serde_json::json!(to_dec(v));
    trips(&d, |b| Ok(ensure_eq!(gint(b.as_elements()), gint(d.as_elements()), "digest")), Some(dec.clone()))?;
    let v = vec![vec![d; 2]; 2];
    trips(&v, |b| Ok(ensure!(*b == v, "nested digests")), Some(serde_json::json!([[dec, dec], [dec, dec]])))
}
fn elements(e: &Elems, info: &mut Info) -> Res {
    let s = |v: &[u64]| serde_json::json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    let a = &e.a;
    info.class(if e.ext { "extension values" } else { "base values" });
    if a[..3].contains(&0) {
        info.class("zero coordinate");
    }
    let base = serde_json::json!(a[0].to_string());
    let (x3, x5) = if e.ext {
        (F3G::from_vec(gvec(&a[..3])), F5G::from_vec(gvec(a)))
    } else {
        (F3G::from(gfr(a[0])), F5G::from(gfr(a[0])))
    };
    let (w3, w5) = if e.ext { (s(&a[..3]), s(a)) } else { (base.clone(), base.clone()) };
    trips(&x3, |b| Ok(ensure!(b.dim == x3.dim && b.as_elements() == x3.as_elements(), "{b:?} for {x3:?}")), Some(w3.clone()))?;
    trips(&x5, |b| Ok(ensure!(b.dim == x5.dim && b.as_elements() == x5.as_elements(), "{b:?} for {x5:?}")), Some(w5))?;
    let many = vec![x3, x3];
    trips(&many, |b| Ok(ensure!(*b == many, "list of extension elements")), Some(serde_json::json!([w3, w3])))?;
    trips(&gfr(a[0]), |b: &FGL| Ok(ensure_eq!(b.as_int(), a[0], "base value")), None)?;
    let d = <ElementDigest<4, FGL> as MTNodeType>::new(&gvec(&a[..4]));
    let w = if a[1..4] == [0; 3] { base } else { s(&a[..4]) };
    trips(&d, |b| Ok(ensure_eq!(gint(b.as_elements()), a[..4].to_vec(), "digest")), Some(w))?;
    digest::<BnFr, _>(&e.bn)?;
    digest::<BlsFr, _>(&e.bls)
}

/// A program, and how its proof is disfigured before it is written.
#[derive(Debug, Clone)]
struct Case {
    air: Air,
    edits: Vec<(usize, usize, usize, usize, u64)>,
}
fn disfigure<T: Tree>(p: &mut StarkProof<T>, e: &(usize, usize, usize, usize, u64)) {
    let (kind, a, b, c, v) = *e;
    let steps = p.fri_proof.queries.len();
    match kind {
        0 if !p.publics.is_empty() => {
            let i = a % p.publics.len();
            p.publics[i] = F3G::from(gfr(v));
        }
        1 if !p.evals.is_empty() => {
            let i = a % p.evals.len();
            p.evals[i] = f3([v, 0, 0]);
        }
        2 if !p.evals.is_empty() => {
            let i = a % p.evals.len();
            p.evals[i] = f3([0, v, 0]);
        }
        3 => {
            let i = a % p.fri_proof.last.len();
            p.fri_proof.last[i] = f3([0, 0, v]);
        }
        4 => {
            let q = &mut p.fri_proof.queries[a % steps].pol_queries;
            let i = b % q.len();
            let t = c % q[i].len();
            if let Some(x) = q[i][t].0.last_mut() {
                *x = gfr(v);
            }
        }
        5 => {
            let q = &mut p.fri_proof.queries[a % steps].pol_queries;
            let i = b % q.len();
            let t = c % q[i].len();
            if let Some(x) = q[i][t].1.last_mut() {
                let k = x.len() - 1;
                x[k] = T::bump(&x[k], v);
            }
        }
        6 => p.rootC = None,
        7 => p.root2 = other_root::<T>(&p.root2, v),
        8 => p.prover_addr = v.to_string(),
        _ => {
            // every row of one tree is zero
            let t = a % 5;
            for q in p.fri_proof.queries[0].pol_queries.iter_mut() {
                q[t].0.iter_mut().for_each(|x| *x = gfr(0));
            }
        }
    }
}
/// Every part, lengths included.
fn differs<T: Tree>(p: &StarkProof<T>, q: &StarkProof<T>) -> Option<&'static str> {
    let x = |a: &F3G, b: &F3G| a.dim == b.dim && a.as_elements() == b.as_elements();
    let xs = |a: &[F3G], b: &[F3G]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| x(a, b));
    if [p.root1, p.root2, p.root3, p.root4] != [q.root1, q.root2, q.root3, q.root4] {
        return Some("roots");
    }
    if p.rootC != q.rootC {
        return Some("root of the constants");
    }
    if !xs(&p.evals, &q.evals) {
        return Some("evaluations");
    }
    if !xs(&p.publics, &q.publics) {
        return Some("publics");
    }
    if !xs(&p.fri_proof.last, &q.fri_proof.last) {
        return Some("last polynomial");
    }
    if p.fri_proof.queries.len() != q.fri_proof.queries.len() {
        return Some("number of FRI layers");
    }
    for (i, (a, b)) in p.fri_proof.queries.iter().zip(&q.fri_proof.queries).enumerate() {
        if i > 0 && a.root != b.root {
            return Some("root of a FRI layer");
        }
        if a.pol_queries != b.pol_queries {
            return Some("openings");
        }
    }
    // the Goldilocks form has no prover address
    if T::AR == 16 && p.prover_addr != q.prover_addr {
        return Some("prover address");
    }
    None
}
fn proof<T: Backend>(c: &Case, info: &mut Info) -> Res {
    classify(&c.air, info);
    let p = setup::<T>(&c.air).map_err(|e| format!("setup fails: {e}"))?;
    let honest = honest(&p)?;
    let mut odd = dup(&honest);
    for e in &c.edits {
        disfigure(&mut odd, e);
    }
    info.class(format!("{} edits", c.edits.len()));
    for (what, proof, known) in [("honest", &honest, Some(true)), ("altered", &odd, None)] {
        let verdict = known.unwrap_or_else(|| accepted(|| p.verify::<T::Tr>(proof)));
        trips(
            proof,
            |b| {
                if let Some(d) = differs(proof, b) {
                    return Err(format!("{what} proof: {d} differ").into());
                }
                Ok(())
            },
            None,
        )?;
        let text = serde_json::to_string(proof).unwrap();
        let b: StarkProof<T> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let v = accepted(|| p.verify::<T::Tr>(&b));
        ensure!(v == verdict, "{what} proof: verdict {verdict} before, {v} after writing and reading");
    }
    Ok(())
}
fn stored_setup<T>(c: &Case, info: &mut Info) -> Res
where
    T: Backend + Serialize + DeserializeOwned,
    StarkSetup<T>: Serialize + DeserializeOwned,
{
    classify(&c.air, info);
    let p = setup::<T>(&c.air).map_err(|e| format!("setup fails: {e}"))?;
    let proof = honest(&p)?;
    let text = serde_json::to_string(&p.setup).map_err(|e| e.to_string())?;
    let back: StarkSetup<T> = serde_json::from_str(&text).map_err(|e| format!("stored setup: {e}"))?;
    let n = 1usize << c.air.ss.nBitsExt;
    ensure!(back.const_root == p.setup.const_root && back.const_tree.root() == p.setup.const_root, "root of a stored setup");
    for idx in [0, n - 1, n / 2 + 1, c.edits.first().map_or(0, |e| e.1 % n)] {
        let (a, b) = (p.setup.const_tree.get_group_proof(idx), back.const_tree.get_group_proof(idx));
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(a == b, "opening {idx} of a stored tree differs"),
            (a, b) => return Err(format!("opening {idx}: {:?} / {:?}", a.err(), b.err()).into()),
        }
    }
    let q = Proving::<T> { air: p.air.clone(), pil: p.pil.clone(), setup: back };
    ensure!(q.verify::<T::Tr>(&proof) == Ok(true), "a stored setup refuses an honest proof");
    let again = q.prove::<T::Tr>(&c.air).map_err(|e| format!("a stored setup does not prove: {e}"))?;
    ensure!(differs(&again, &proof).is_none(), "a stored setup gives another proof: {:?}", differs(&again, &proof));
    let program = |s: &StarkSetup<T>| serde_json::to_value(&s.program).ok();
    ensure!(program(&p.setup) == program(&q.setup), "program of a stored setup");
    Ok(())
}
/// The command: files in, proof file out.
fn files<T: Backend>(c: &Case, info: &mut Info) -> Res {
    classify(&c.air, info);
    let dir = std::env::temp_dir().join(format!("vh-s05-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = files_in::<T>(c, &dir, info);
    std::fs::remove_dir_all(&dir).ok();
    r
}
fn files_in<T: Backend>(c: &Case, dir: &std::path::Path, info: &mut Info) -> Res {
    let a = &c.air;
    let at = |n: &str| dir.join(n).to_str().unwrap().to_string();
    std::fs::write(at("pil"), serde_json::to_string(&a.pil).unwrap()).unwrap();
    std::fs::write(at("ss"), serde_json::to_string(&a.ss).unwrap()).unwrap();
    for (kind, name) in [(PolKind::Constant, "const"), (PolKind::Commit, "cm")] {
        let mut f = std::fs::File::create(at(name)).unwrap();
        a.pols(kind).save(&mut f).map_err(|e| e.to_string())?;
    }
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    if p.setup.starkinfo.q_deg == 0 || a.l1 != "Global.L1" {
        // the command has no option for another first row, circuits have a quotient
        info.trivial();
        return Ok(());
    }
    let done = guard(|| {
        starky::prove::stark_prove(
            &at("ss"), &at("pil"), true, false, false, &at("const"), &at("cm"), &at("circom"), &at("zkin"), "77",
        )
    });
    match done {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return Err(format!("the command fails: {e}").into()),
        Err(e) => return Err(format!("the command panics: {e}").into()),
    }
    let text = std::fs::read_to_string(at("zkin")).map_err(|e| e.to_string())?;
    let back: StarkProof<T> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure!(p.verify::<T::Tr>(&back) == Ok(true), "the proof in the file is refused");
    let got: Vec<Vec<u64>> = back.publics.iter().map(|x| gint(&x.as_elements())).collect();
    ensure!(
        got.len() == a.publics.len() && got.iter().zip(&a.publics).all(|(g, w)| g[0] == *w),
        "publics of the proof file: {got:?}, the trace says {:?}",
        a.publics
    );
    let js: serde_json::Value = serde_json::from_str(&text).unwrap();
    ensure_eq!(js.get("proverAddr").is_some(), T::AR == 16, "prover address in the file");
    if T::AR == 16 {
        ensure_eq!(js["proverAddr"], "77", "prover address");
    }
    let text = std::fs::read_to_string(at("circom")).map_err(|e| e.to_string())?;
    ensure!(text.contains("pragma circom"), "circuit text");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let rule = "every case writes and reads; parts with zero coordinates are frequent";
    ctx.sub("elements", 200_000, 2_000_000).rule(rule).run(elems, |e, i| elements(e, i));
    let case = |l: Limits, hash: &'static str| {
        move |s: &mut Src| Case {
            air: air(s, &l, hash),
            edits: s.vec(0, 6, |s| {
                (s.usize(10), s.usize(1 << 16), s.usize(1 << 16), s.usize(1 << 16), if s.chance(1, 3) { 0 } else { s.gl() })
            }),
        }
    };
    let gl = Limits { nbits: (2, 5), ext: (1, 3), queries: 8, blocks: 4, min_queries: 1 };
    let small = Limits { nbits: (2, 3), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 };
    let rule = "random programs; the honest proof and one with random parts replaced are written and read";
    ctx.sub("GL_proof", 4000, 40_000).rule(rule).run(case(gl, "GL"), |c, i| proof::<MerkleTreeGL>(c, i));
    ctx.sub("BN128_proof", 800, 3000).rule(rule).run(case(small, "BN128"), |c, i| proof::<MerkleTreeBN128>(c, i));
    ctx.sub("BLS12381_proof", 800, 3000).rule(rule).run(case(small, "BLS12381"), |c, i| proof::<MerkleTreeBLS12381>(c, i));
    let rule = "random programs; the setup is written and read, and then opens, verifies and proves";
    ctx.sub("GL_setup", 1200, 8000).rule(rule).run(case(gl, "GL"), |c, i| stored_setup::<MerkleTreeGL>(c, i));
    ctx.sub("BN128_setup", 300, 1000).rule(rule).run(case(small, "BN128"), |c, i| stored_setup::<MerkleTreeBN128>(c, i));
    ctx.sub("BLS12381_setup", 300, 1000).rule(rule).run(case(small, "BLS12381"), |c, i| stored_setup::<MerkleTreeBLS12381>(c, i));
    let rule = "random programs given as files; the proof file is read and verified";
    ctx.sub("GL_files", 800, 4000).rule(rule).run(case(gl, "GL"), |c, i| files::<MerkleTreeGL>(c, i));
    ctx.sub("BN128_files", 200, 500).rule(rule).run(case(small, "BN128"), |c, i| files::<MerkleTreeBN128>(c, i));
    ctx.sub("BLS12381_files", 200, 500).rule(rule).run(case(small, "BLS12381"), |c, i| files::<MerkleTreeBLS12381>(c, i));
}
