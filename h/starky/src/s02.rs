//! S02: soundness against wrong traces, by the honest prover and by provers that deviate.
use crate::air::{air, mutate, mutation, Air, Limits, SMALL};
use crate::prover::{accepted, degree_bound, setup, Attack};
use crate::s01::{classify, Backend};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use vh::{ensure, Ctx, Info, Res, Src};

/// A program and a trace near a valid one.
fn near(s: &mut Src, l: &Limits, hash: &str) -> (Air, Air) {
    let a = air(s, l, hash);
    let mut b = a.clone();
    for _ in 0..1 + s.weighted(&[6, 2, 1]) {
        let m = mutation(s, &b);
        b = mutate(&b, &m);
    }
    (a, b)
}
fn broken(b: &Air, info: &mut Info) -> Vec<String> {
    let bad = b.violated(&b.publics);
    for v in &bad {
        info.class(format!("breaks {}", v.split(' ').next().unwrap()));
    }
    if bad.len() == 1 {
        info.class("breaks one constraint only");
    }
    bad
}

/// The code's own prover on a wrong trace.
fn trace<T: Backend>(a: &Air, b: &Air, info: &mut Info) -> Res {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let bad = broken(b, info);
    let ok = accepted(|| {
        let proof = p.prove::<T::Tr>(b)?;
        p.verify::<T::Tr>(&proof)
    });
    if bad.is_empty() {
        info.class("still valid");
        info.trivial();
        ensure!(ok, "a changed trace that satisfies the program is refused");
    } else {
        classify(a, info);
        ensure!(!ok, "proof accepted for a trace that breaks {bad:?}");
    }
    Ok(())
}

/// A deviating prover on a wrong trace, or with wrong publics.
fn deviate<T: Backend>(a: &Air, b: &Air, at: &Attack, info: &mut Info) -> Res {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let publics = at.publics.clone().unwrap_or(b.publics.clone());
    let bad = b.violated(&publics);
    let mut why = None;
    let ok = accepted(|| {
        let o = p.forge::<T::Tr>(b, at)?;
        why = Some((o.q_ok, o.fri_deg));
        p.verify::<T::Tr>(&o.proof)
    });
    if bad.is_empty() {
        info.trivial();
        return Ok(());
    }
    let Some((q_ok, d)) = why else {
        info.trivial();
        info.class("forger fails");
        return Ok(());
    };
    // what a schedule that ends below the blow-up factor cannot see is outside of the property
    if q_ok && d < degree_bound(a) {
        info.trivial();
        info.class("not decided: folded away");
        return Ok(());
    }
    info.class(if q_ok { "refused by degree" } else { "refused at the challenge point" });
    ensure!(!ok, "forged proof accepted for {bad:?} (quotient fits: {q_ok}, degree {d} of {})", a.n());
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("gl_trace", 24_000, 300_000)
        .rule("random program, satisfying trace with 1..3 cells, rows or columns changed, proved by the code's prover; trivial when the changed trace still satisfies every constraint (then it must be accepted)")
        .run(|s| near(s, &SMALL, "GL"), |(a, b), i| trace::<MerkleTreeGL>(a, b, i));
    let wide = Limits { nbits: (5, 8), ext: (1, 3), queries: 16, blocks: 8, min_queries: 1 };
    ctx.sub("gl_trace_wide", 800, 20_000)
        .rule("the same with more rows and constraints")
        .run(move |s| near(s, &wide, "GL"), |(a, b), i| trace::<MerkleTreeGL>(a, b, i));
    let attack = |s: &mut Src, a: &Air| {
        let mut at = Attack::default();
        match s.weighted(&[3, 3, 3, 2, 2, 2, 2]) {
            0 => at.lie_q = true,
            1 => at.wide_q = true,
            2 => at.zero_z = true,
            3 => at.bad_h = true,
            4 => at.zero_im = true,
            5 => {
                at.zero_z = true;
                at.bad_h = true;
                at.zero_im = s.bool();
                at.lie_q = s.bool();
            }
            _ => {
                at.zero_im = true;
                at.lie_q = s.bool();
                at.wide_q = s.bool();
            }
        }
        if !a.publics.is_empty() && s.chance(1, 4) {
            let mut p = a.publics.clone();
            let i = s.usize(p.len());
            p[i] = vh::gl::add(p[i], 1 + s.below(5));
            at.publics = Some(p);
        }
        at
    };
    ctx.sub("gl_forged", 16_000, 250_000)
        .rule("a second prover on a wrong trace that adapts its messages: false quotient evaluation, quotient of high degree, constant accumulators, repeated table, empty intermediate columns; trivial when the trace satisfies the program or the schedule ends below the blow-up factor and hides the degree")
        .run(
            |s| {
                let (a, b) = near(s, &SMALL, "GL");
                let at = attack(s, &b);
                (a, b, at)
            },
            |(a, b, at), i| deviate::<MerkleTreeGL>(a, b, at, i),
        );
    ctx.sub("gl_publics", 5_000, 120_000)
        .rule("a valid trace and changed public values; trivial when the program has none, or none of its constraints depends on the changed one (then the proof must be accepted)")
        .run(
            |s| {
                let mut a = air(s, &SMALL, "GL");
                for _ in 0..8 {
                    if !a.publics.is_empty() {
                        break;
                    }
                    a = air(s, &SMALL, "GL");
                }
                let mut p = a.publics.clone();
                for _ in 0..1 + s.usize(2) {
                    if !p.is_empty() {
                        let i = s.usize(p.len());
                        p[i] = if s.bool() { vh::gl::add(p[i], 1 + s.below(3)) } else { s.gl() };
                    }
                }
                let mut at = Attack { publics: Some(p), ..Default::default() };
                match s.below(3) {
                    0 => at.lie_q = true,
                    1 => at.wide_q = true,
                    _ => {}
                }
                (a, at)
            },
            |(a, at), i| {
                let p = at.publics.clone().unwrap();
                if a.violated(&p).is_empty() {
                    i.trivial();
                    i.class("unbound public");
                    let pr = setup::<MerkleTreeGL>(a)?;
                    let at = Attack { publics: at.publics.clone(), ..Default::default() };
                    let o = pr.forge::<<MerkleTreeGL as Backend>::Tr>(a, &at)?;
                    ensure!(
                        pr.verify::<<MerkleTreeGL as Backend>::Tr>(&o.proof)?,
                        "proof with an unconstrained public is refused"
                    );
                    return Ok(());
                }
                deviate::<MerkleTreeGL>(a, a, at, i)
            },
        );
    let small = Limits { nbits: (2, 3), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 };
    ctx.sub("bn128", 800, 20_000).rule("as gl_trace").run(
        move |s| near(s, &small, "BN128"),
        |(a, b), i| trace::<MerkleTreeBN128>(a, b, i),
    );
    ctx.sub("bls12381", 800, 20_000).rule("as gl_trace").run(
        move |s| near(s, &small, "BLS12381"),
        |(a, b), i| trace::<MerkleTreeBLS12381>(a, b, i),
    );
}
