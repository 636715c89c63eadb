//! S04: the low-degree test, reached through the verifier with a prover that controls every layer.
use crate::air::{air, Air, Limits};
use crate::prover::{accepted, degree_bound, setup, Attack, E3};
use crate::s01::{honest, Backend};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::types::{Reference, Step};
use vh::{ensure, Ctx, Info, Res, Src};

/// Any schedule: every decreasing sequence that starts at the extended size and stays above zero.
fn schedule(s: &mut Src, a: &mut Air) {
    let n = a.ss.nBitsExt;
    let mut steps = vec![Step { nBits: n }];
    match s.weighted(&[6, 1, 1]) {
        0 => {
            for b in (1..n).rev() {
                if s.chance(2, 5) {
                    steps.push(Step { nBits: b });
                }
            }
        }
        // one bit at a time, to some end
        1 => {
            let end = s.range(1, n);
            steps.extend((end..n).rev().map(|b| Step { nBits: b }));
        }
        // one jump
        _ => steps.push(Step { nBits: s.range(1, n - 1) }),
    }
    a.ss.steps = steps;
}
fn free_column(s: &mut Src, a: &mut Air) -> usize {
    let id = a.cm.len();
    a.cm.push(s.many(a.n(), |s| s.gl()));
    a.pil.nCommitments += 1;
    a.pil.references.insert(
        "free.column".into(),
        Reference {
            polType: None,
            type_: "cmP".into(),
            id,
            polDeg: a.n(),
            isArray: false,
            elementType: None,
            len: None,
        },
    );
    id
}
fn case(s: &mut Src, l: &Limits, hash: &str) -> (Air, usize) {
    let mut a = air(s, l, hash);
    schedule(s, &mut a);
    let c = free_column(s, &mut a);
    (a, c)
}
fn shape(a: &Air, info: &mut Info) {
    let st: Vec<usize> = a.ss.steps.iter().map(|s| s.nBits).collect();
    info.class(format!("{} layers", st.len()));
    let ext = a.ss.nBitsExt - a.ss.nBits;
    let last = *st.last().unwrap();
    info.class(match last.cmp(&ext) {
        std::cmp::Ordering::Less => "ends below the blow-up factor",
        std::cmp::Ordering::Equal => "ends at the blow-up factor",
        _ => "ends above the blow-up factor",
    });
    for w in st.windows(2) {
        info.class(format!("folds {} bits", w[0] - w[1]));
    }
}

fn within<T: Backend>(a: &Air, info: &mut Info) -> Res {
    shape(a, info);
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    honest(&p)?;
    let o = p.forge::<T::Tr>(a, &Attack::default())?;
    ensure!(p.verify::<T::Tr>(&o.proof)?, "codeword of low degree refused");
    Ok(())
}
/// One committed polynomial of a chosen degree.
fn degree<T: Backend>(a: &Air, c: usize, d: usize, v: u64, info: &mut Info) -> Res {
    shape(a, info);
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let o = p.forge::<T::Tr>(a, &Attack { high: vec![(c, d, v)], ..Default::default() })?;
    let ok = accepted(|| p.verify::<T::Tr>(&o.proof));
    let bound = degree_bound(a);
    if d < a.n() {
        info.class("below the bound");
        ensure!(o.q_ok && o.fri_deg < a.n(), "second prover: degree");
        ensure!(ok, "polynomial of degree {d} < {} refused", a.n());
    } else if d < bound {
        info.class("not decided: folded away");
        info.trivial();
    } else {
        info.class(if d == bound { "first degree above the bound" } else { "above the bound" });
        ensure!(o.fri_deg >= d, "second prover: degree {} of {d}", o.fri_deg);
        ensure!(!ok, "polynomial of degree {d} accepted, the bound is {bound}");
    }
    Ok(())
}
/// Errors in some positions of one layer, with an honest or a repaired continuation.
fn noise<T: Backend>(a: &Air, layer: usize, at: &[(usize, E3)], repair: bool, info: &mut Info) -> Res {
    shape(a, info);
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let layer = layer % a.ss.steps.len();
    let o = p.forge::<T::Tr>(
        a,
        &Attack { noise: Some((layer, at.to_vec())), truncate_last: repair, ..Default::default() },
    )?;
    let last = a.ss.steps.last().unwrap().nBits;
    let coefs = 1usize << last.saturating_sub(a.ss.nBitsExt - a.ss.nBits);
    let low = o.last_deg < coefs;
    let asked = !o.consistent.iter().all(|c| *c);
    info.class(match (asked, low) {
        (true, true) => "inconsistent at a query",
        (true, false) => "inconsistent and of high degree",
        (false, false) => "last polynomial of high degree",
        (false, true) => "missed by all queries",
    });
    if !asked && low {
        info.trivial();
        return Ok(());
    }
    ensure!(
        !accepted(|| p.verify::<T::Tr>(&o.proof)),
        "accepted (queries consistent: {:?}, degree {} of the last polynomial, at most {coefs} coefficients)",
        o.consistent,
        o.last_deg
    );
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let l = Limits { nbits: (2, 5), ext: (1, 3), queries: 12, blocks: 2, min_queries: 1 };
    let small = Limits { nbits: (2, 3), ext: (1, 2), queries: 6, blocks: 2, min_queries: 1 };
    fn all<T: Backend>(ctx: &mut Ctx, k: u64, l: Limits, hash: &'static str) {
        let name = T::NAME;
        ctx.sub(&format!("{name}_within"), 4000 / k, 80_000 / k)
            .rule("random folding schedules (any decreasing sequence) and query counts, honest proofs of both provers must be accepted")
            .run(move |s| case(s, &l, hash).0, |a, i| within::<T>(a, i));
        ctx.sub(&format!("{name}_degree"), 6000 / k, 120_000 / k)
            .rule("one unconstrained column of chosen degree: below the number of rows it must be accepted, from there on refused; trivial when the schedule ends below the blow-up factor and the degree is folded away")
            .run(
                move |s| {
                    let (a, c) = case(s, &l, hash);
                    let (n, ne) = (a.n(), 1usize << a.ss.nBitsExt);
                    let b = degree_bound(&a);
                    let d = match s.weighted(&[3, 2, 2, 4]) {
                        0 => b.min(ne - 1),
                        1 => ne - 1,
                        2 => s.usize(n),
                        _ => s.range(n, ne - 1),
                    };
                    (a, c, d, 1 + s.below(vh::GL_P - 1))
                },
                |(a, c, d, v), i| degree::<T>(a, *c, *d, *v, i),
            );
        ctx.sub(&format!("{name}_noise"), 6000 / k, 120_000 / k)
            .rule("errors in 1..8 positions, or all, of one layer, the last polynomial left or cut to the legal degree; trivial when no query hits an inconsistency and the last polynomial is of low degree")
            .run(
                move |s| {
                    let (a, _) = case(s, &l, hash);
                    let layer = s.usize(a.ss.steps.len());
                    let size = 1usize << a.ss.steps[layer].nBits;
                    let k = if s.chance(1, 3) { size } else { 1 + s.usize(8) };
                    let at: Vec<(usize, E3)> = (0..k)
                        .map(|i| {
                            let p = if k == size { i } else { s.usize(size) };
                            (p, [1 + s.below(1 << 32), s.below(3), s.below(3)])
                        })
                        .collect();
                    (a, layer, at, s.chance(2, 3))
                },
                |(a, layer, at, r), i| noise::<T>(a, *layer, at, *r, i),
            );
    }
    all::<MerkleTreeGL>(ctx, 1, l, "GL");
    all::<MerkleTreeBN128>(ctx, 20, small, "BN128");
    all::<MerkleTreeBLS12381>(ctx, 20, small, "BLS12381");
}
