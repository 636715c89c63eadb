//! S01: completeness. Every satisfied program proves and verifies.
use crate::air::{air, Air, Limits, SMALL};
use crate::conv::gint;
use crate::m01::Tree;
use crate::prover::{setup, Attack, Proving};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::stark_gen::StarkProof;
use starky::traits::{FieldExtension, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use vh::{ensure, ensure_eq, Ctx, Fail, Info, Res, Src};

/// The back ends as the prover combines them.
pub trait Backend: Tree {
    type Tr: Transcript;
}
impl Backend for MerkleTreeGL {
    type Tr = TranscriptGL;
}
impl Backend for MerkleTreeBN128 {
    type Tr = TranscriptBN128;
}
impl Backend for MerkleTreeBLS12381 {
    type Tr = TranscriptBLS128;
}

pub fn classify(a: &Air, info: &mut Info) {
    for t in &a.tags {
        info.class(*t);
    }
    info.class(format!("blow-up {}", 1 << (a.ss.nBitsExt - a.ss.nBits)));
    info.class(format!("{} FRI steps", a.ss.steps.len()));
    if a.pil.publics.len() > 1 {
        info.class("several publics");
    }
}
/// Programs whose quotient is zero by degree need no fourth tree content; nothing else is special about them.
pub fn honest<T: Backend>(p: &Proving<T>) -> Result<StarkProof<T>, Fail> {
    let proof = p.prove::<T::Tr>(&p.air).map_err(|e| format!("proving fails: {e}"))?;
    let got: Vec<Vec<u64>> = proof.publics.iter().map(|x| gint(&x.as_elements())).collect();
    for (i, (g, w)) in got.iter().zip(&p.air.publics).enumerate() {
        ensure!(g[0] == *w && g[1..].iter().all(|x| *x == 0), "public {i} is {g:?}, the trace says {w}");
    }
    ensure_eq!(got.len(), p.air.publics.len(), "number of publics");
    ensure!(p.verify::<T::Tr>(&proof).map_err(|e| format!("verifying fails: {e}"))?, "honest proof is refused");
    Ok(proof)
}

fn complete<T: Backend>(a: &Air, forge: bool, info: &mut Info) -> Res {
    classify(a, info);
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    info.class(format!("{} quotient pieces", p.setup.starkinfo.q_deg));
    info.class(match p.setup.starkinfo.im_exps_list.len() {
        0 => "no intermediate columns",
        1..=3 => "1 to 3 intermediate columns",
        _ => "4 or more intermediate columns",
    });
    let proof = honest(&p)?;
    if forge {
        // a second prover, written from the protocol, convinces the verifier too
        let o = p.forge::<T::Tr>(a, &Attack::default()).map_err(|e| format!("second prover: {e}"))?;
        ensure!(o.q_ok && o.consistent.iter().all(|c| *c), "second prover: quotient or folding is inconsistent");
        ensure!(
            p.verify::<T::Tr>(&o.proof).map_err(|e| format!("second prover: {e}"))?,
            "the verifier refuses the proof of the protocol's description (values agree: {})",
            proof.evals == o.proof.evals
        );
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let rule = "random programs (definitions, transitions, products of roots, conditionals, publics, lookups, permutations, connections) with satisfying traces, random blow-up, queries and folding schedule; all count";
    let gl = |l: Limits| move |s: &mut Src| air(s, &l, "GL");
    ctx.sub("gl", 8000, 200_000).rule(rule).run(gl(SMALL), |a, i| complete::<MerkleTreeGL>(a, false, i));
    ctx.sub("gl_described", 5000, 100_000)
        .rule("the same, and the proof of a second prover written from the protocol is accepted")
        .run(gl(SMALL), |a, i| complete::<MerkleTreeGL>(a, true, i));
    ctx.sub("gl_wide", 1000, 6000)
        .rule("more constraints on more rows")
        .run(gl(Limits { nbits: (5, 8), ext: (1, 4), queries: 24, blocks: 10, min_queries: 1 }), |a, i| {
            complete::<MerkleTreeGL>(a, false, i)
        });
    ctx.sub("gl_large", 60, 240)
        .rule("2^12 to 2^15 rows, so that work is split over threads, blocks and uneven chunks")
        .shrink(40)
        .run(gl(Limits { nbits: (12, 15), ext: (1, 1), queries: 4, blocks: 3, min_queries: 1 }), |a, i| {
            complete::<MerkleTreeGL>(a, false, i)
        });
    let small = Limits { nbits: (2, 3), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 };
    ctx.sub("bn128", 600, 3000).rule(rule).run(move |s| air(s, &small, "BN128"), |a, i| complete::<MerkleTreeBN128>(a, true, i));
    ctx.sub("bls12381", 600, 3000)
        .rule(rule)
        .run(move |s| air(s, &small, "BLS12381"), |a, i| complete::<MerkleTreeBLS12381>(a, true, i));
}
/// The Goldilocks back end alone, for builds whose hashing is vectorised.
#[allow(dead_code)]
pub fn vector(ctx: &mut Ctx) {
    ctx.sub("gl_described", 600, 30_000)
        .rule("random programs with satisfying traces: the proof verifies, and so does the one of a second prover written from the protocol; all count")
        .run(|s: &mut Src| air(s, &SMALL, "GL"), |a, i| complete::<MerkleTreeGL>(a, true, i));
}
