//! S03: alterations of accepted proofs, by hand and by a prover that commits to something else.
use crate::air::{air, mutate, Air, Limits};
use crate::conv::gfr;
use crate::m01::Tree;
use crate::prover::{accepted, dup, other_root, setup, Attack, Proving};
use crate::s01::{classify, honest, Backend};
use starky::f3g::F3G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::stark_gen::StarkProof;
use starky::traits::MTNodeType;
use starky::types::Expression;
use vh::{ensure, Ctx, Info, Res, Src};

/// An alteration: what kind, and where (indices are taken modulo what exists).
#[derive(Debug, Clone)]
pub struct Alt {
    pub kind: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    by: u64,
}
pub const KINDS: [&str; 22] = [
    "public", "root", "evaluation", "row", "path", "last", "layer root", "swap evaluations", "swap queries", "swap trees",
    "drop", "extend", "splice", "row length", "path length", "swap levels", "public coordinate", "swap roots", "zero row",
    "zero evaluation", "swap last", "reorder row",
];
pub fn alt(s: &mut Src) -> Alt {
    Alt {
        kind: s.usize(KINDS.len()),
        a: s.usize(1 << 16),
        b: s.usize(1 << 16),
        c: s.usize(1 << 16),
        d: s.usize(1 << 16),
        by: 1 + s.below(1 << 40),
    }
}
fn bump(x: &F3G, k: usize, by: u64) -> F3G {
    let mut y = *x;
    y.cube[k] = y.cube[k] + gfr(by);
    y
}
/// The same proof up to what the verifier has no use for.
pub fn same<T: Tree>(p: &StarkProof<T>, q: &StarkProof<T>) -> bool {
    p.root1 == q.root1
        && p.root2 == q.root2
        && p.root3 == q.root3
        && p.root4 == q.root4
        && p.evals == q.evals
        && p.publics == q.publics
        && p.fri_proof.last == q.fri_proof.last
        && p.fri_proof.queries.len() == q.fri_proof.queries.len()
        && p.fri_proof
            .queries
            .iter()
            .zip(&q.fri_proof.queries)
            .enumerate()
            .all(|(i, (a, b))| a.pol_queries == b.pol_queries && (i == 0 || a.root == b.root))
}
/// None: nothing there to alter.
pub fn apply<T: Tree>(p: &StarkProof<T>, other: &StarkProof<T>, al: &Alt) -> Option<StarkProof<T>> {
    let mut q = dup(p);
    let Alt { a, b, c, d, by, .. } = *al;
    let at = |i: usize, n: usize| if n == 0 { None } else { Some(i % n) };
    let steps = p.fri_proof.queries.len();
    let roots = |q: &mut StarkProof<T>, i: usize, f: &dyn Fn(&T::MTNode) -> T::MTNode| match i % 4 {
        0 => q.root1 = f(&q.root1),
        1 => q.root2 = f(&q.root2),
        2 => q.root3 = f(&q.root3),
        _ => q.root4 = f(&q.root4),
    };
    let s = a % steps;
    match KINDS[al.kind] {
        "public" => {
            let i = at(a, q.publics.len())?;
            q.publics[i] = bump(&q.publics[i], 0, by);
        }
        "public coordinate" => {
            let i = at(a, q.publics.len())?;
            q.publics[i] = F3G { dim: 3, ..bump(&q.publics[i], 1 + b % 2, by) };
        }
        "root" => roots(&mut q, a, &|r| other_root::<T>(r, by)),
        "swap roots" => {
            let r = [q.root1, q.root2, q.root3, q.root4];
            let (x, y) = (r[a % 4], r[b % 4]);
            roots(&mut q, a, &|_| y);
            roots(&mut q, b, &|_| x);
        }
        "evaluation" => {
            let i = at(a, q.evals.len())?;
            q.evals[i] = bump(&q.evals[i], b % q.evals[i].dim, by);
        }
        "zero evaluation" => {
            let i = at(a, q.evals.len())?;
            q.evals[i] = crate::prover::f3([0; 3]);
        }
        "swap evaluations" => {
            let n = q.evals.len();
            q.evals.swap(at(a, n)?, at(b, n)?);
        }
        "row" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let row = &mut pq[i][t].0;
            let j = at(d, row.len())?;
            row[j] = row[j] + gfr(by);
        }
        "zero row" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            pq[i][t].0.iter_mut().for_each(|x| *x = gfr(0));
        }
        "reorder row" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let n = pq[i][t].0.len();
            pq[i][t].0.swap(at(d, n)?, at(by as usize, n)?);
        }
        "path" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let mp = &mut pq[i][t].1;
            let l = at(d, mp.len())?;
            let k = at(by as usize, mp[l].len())?;
            mp[l][k] = T::bump(&mp[l][k], by);
        }
        "swap levels" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let n = pq[i][t].1.len();
            pq[i][t].1.swap(at(d, n)?, at(by as usize, n)?);
        }
        "path length" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let mp = &mut pq[i][t].1;
            let l = at(d, mp.len())?;
            match by % 4 {
                0 => {
                    mp.remove(l);
                }
                1 => {
                    let e = mp[l].clone();
                    mp.insert(l, e);
                }
                2 => {
                    let e = mp[l][0].clone();
                    mp[l].push(e);
                }
                _ => {
                    mp[l].pop();
                }
            }
        }
        "row length" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let t = at(c, pq[i].len())?;
            let row = &mut pq[i][t].0;
            match by % 3 {
                0 => row.push(gfr(0)),
                1 => row.push(gfr(by)),
                _ => {
                    row.pop()?;
                }
            }
        }
        "last" => {
            let i = at(a, q.fri_proof.last.len())?;
            q.fri_proof.last[i] = bump(&q.fri_proof.last[i], b % 3, by);
            q.fri_proof.last[i].dim = 3;
        }
        "swap last" => {
            let n = q.fri_proof.last.len();
            q.fri_proof.last.swap(at(a, n)?, at(b, n)?);
        }
        "layer root" => {
            let i = 1 + at(a, steps - 1)?;
            q.fri_proof.queries[i].root = other_root::<T>(&q.fri_proof.queries[i].root, by);
        }
        "swap queries" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let n = pq.len();
            pq.swap(at(b, n)?, at(c, n)?);
        }
        "swap trees" => {
            let pq = &mut q.fri_proof.queries[s].pol_queries;
            let i = at(b, pq.len())?;
            let n = pq[i].len();
            pq[i].swap(at(c, n)?, at(d, n)?);
        }
        "drop" => match b % 6 {
            0 => {
                q.publics.pop()?;
            }
            1 => {
                q.evals.pop()?;
            }
            2 => {
                q.fri_proof.last.pop()?;
            }
            3 => {
                q.fri_proof.queries.remove(s);
            }
            4 => {
                let pq = &mut q.fri_proof.queries[s].pol_queries;
                let i = at(c, pq.len())?;
                pq.remove(i);
            }
            _ => {
                let pq = &mut q.fri_proof.queries[s].pol_queries;
                let i = at(c, pq.len())?;
                let t = at(d, pq[i].len())?;
                pq[i].remove(t);
            }
        },
        "extend" => match b % 6 {
            0 => q.publics.push(F3G::from(gfr(by))),
            1 => q.evals.push(crate::prover::f3([by, 0, 0])),
            2 => q.fri_proof.last.push(crate::prover::f3([if c % 2 == 0 { 0 } else { by }, 0, 0])),
            3 => {
                let x = q.fri_proof.queries[s].clone();
                q.fri_proof.queries.push(x);
            }
            4 => {
                let pq = &mut q.fri_proof.queries[s].pol_queries;
                let x = pq[at(c, pq.len())?].clone();
                pq.push(x);
            }
            _ => {
                let pq = &mut q.fri_proof.queries[s].pol_queries;
                let i = at(c, pq.len())?;
                let x = pq[i][at(d, pq[i].len())?].clone();
                pq[i].push(x);
            }
        },
        // the corresponding component of another accepted proof
        "splice" => match b % 9 {
            0 => q.publics = other.publics.clone(),
            1 => q.evals = other.evals.clone(),
            2 => q.fri_proof.last = other.fri_proof.last.clone(),
            3 => q.fri_proof.queries[s] = other.fri_proof.queries[s].clone(),
            4 => q.root1 = other.root1,
            5 => q.root2 = other.root2,
            6 => q.root3 = other.root3,
            7 => q.root4 = other.root4,
            _ => {
                let i = at(c, q.fri_proof.queries[s].pol_queries.len())?;
                q.fri_proof.queries[s].pol_queries[i] = other.fri_proof.queries[s].pol_queries[i].clone();
            }
        },
        _ => unreachable!(),
    }
    Some(q)
}

fn altered<T: Backend>(a: &Air, alts: &[Alt], info: &mut Info) -> Res {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let proof = honest(&p)?;
    classify(a, info);
    // another proof of the same program: other values in a column nobody constrains, if there is one
    let mut b = a.clone();
    for c in 0..a.cm.len() {
        let m = mutate(a, &crate::air::Mutation::Shift(c, 1));
        if m.violated(&m.publics).is_empty() {
            b = m;
            break;
        }
    }
    let other = p.prove::<T::Tr>(&b).map_err(|e| format!("proving fails: {e}"))?;
    let mut done = 0;
    for al in alts {
        let Some(q) = apply(&proof, &other, al) else { continue };
        if same(&proof, &q) {
            continue;
        }
        info.class(KINDS[al.kind]);
        done += 1;
        ensure!(!accepted(|| p.verify::<T::Tr>(&q)), "proof accepted after altering: {} {al:?}", KINDS[al.kind]);
    }
    if done == 0 {
        info.trivial();
    }
    info.evals(done);
    ensure!(accepted(|| p.verify::<T::Tr>(&proof)), "honest proof refused after these checks");
    Ok(())
}

/// A prover that commits to one thing and opens another, or a verifier that holds other constants.
fn committed<T: Backend>(a: &Air, at: &Attack, info: &mut Info) -> Res {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    if at.fake_layer.is_some_and(|(l, _)| l + 1 >= a.ss.steps.len()) {
        info.trivial();
        return Ok(());
    }
    let o = p.forge::<T::Tr>(a, at)?;
    info.class(match at {
        Attack { fake_root: Some((k, _)), .. } => format!("root {k}"),
        Attack { fake_layer: Some((k, _)), .. } => format!("layer {k}"),
        _ => "evaluation".to_string(),
    });
    ensure!(
        !accepted(|| p.verify_with_root::<T::Tr>(&o.proof, &o.const_root)),
        "accepted with openings that do not belong to what was announced"
    );
    Ok(())
}

/// Changes one number of the program.
fn number(s: &mut Src, a: &Air) -> Option<Air> {
    fn paths(e: &Expression, at: Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if e.op == "number" {
            out.push(at.clone());
        }
        for (i, v) in e.values.iter().flatten().enumerate() {
            let mut p = at.clone();
            p.push(i);
            paths(v, p, out);
        }
    }
    let mut all = vec![];
    for (i, e) in a.pil.expressions.iter().enumerate() {
        paths(e, vec![i], &mut all);
    }
    if all.is_empty() {
        return None;
    }
    let at = s.pick(&all).clone();
    let by = 1 + s.below(1 << 20);
    let mut b = a.clone();
    let mut e = &mut b.pil.expressions[at[0]];
    for i in &at[1..] {
        e = &mut e.values.as_mut().unwrap()[*i];
    }
    let v = crate::air::parse(e.value.as_ref().unwrap());
    *e = crate::air::num(&vh::gl::add(v, by).to_string());
    Some(b)
}
fn program<T: Backend>(a: &Air, b: &Option<Air>, info: &mut Info) -> Res {
    let Some(b) = b else {
        info.trivial();
        return Ok(());
    };
    // the trace of a breaks b
    if b.violated(&a.publics).is_empty() {
        info.trivial();
        return Ok(());
    }
    let p = setup::<T>(a)?;
    let proof = honest(&p)?;
    let r: Proving<T> = setup::<T>(b)?;
    ensure!(!accepted(|| r.verify::<T::Tr>(&proof)), "proof accepted for another program");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    // enough rows and queries that an alteration does not escape by drawing the same positions
    let l = Limits { nbits: (3, 5), ext: (1, 3), queries: 8, blocks: 4, min_queries: 4 };
    fn alts<T: Backend>(ctx: &mut Ctx, n: u64, th: u64, l: Limits, hash: &'static str) {
        ctx.sub(&format!("{}_altered", T::NAME), n, th)
            .rule("an accepted proof of a random program and 24 alterations of one component each (22 kinds); trivial when none of them changed anything")
            .run(move |s| (air(s, &l, hash), s.many(24, alt)), |(a, al), i| altered::<T>(a, al, i));
    }
    alts::<MerkleTreeGL>(ctx, 2500, 60_000, l, "GL");
    let small = Limits { nbits: (3, 4), ext: (1, 2), queries: 5, blocks: 3, min_queries: 4 };
    alts::<MerkleTreeBN128>(ctx, 250, 8_000, small, "BN128");
    alts::<MerkleTreeBLS12381>(ctx, 250, 8_000, small, "BLS12381");
    fn comm<T: Backend>(ctx: &mut Ctx, n: u64, th: u64, l: Limits, hash: &'static str) {
        ctx.sub(&format!("{}_committed", T::NAME), n, th)
            .rule("a prover that announces another root for one of the five trees or one FRI layer, or a false evaluation hidden by the quotient; trivial when there is no such layer")
            .run(
                move |s| {
                    let a = air(s, &l, hash);
                    let mut at = Attack::default();
                    match s.weighted(&[5, 3, 2]) {
                        0 => at.fake_root = Some((s.usize(5), s.u64() >> 8)),
                        1 => at.fake_layer = Some((s.usize(3), s.u64() >> 8)),
                        _ => at.lie_eval = Some((s.usize(1 << 16), [1 + s.below(1 << 40), s.below(2), s.below(2)])),
                    }
                    (a, at)
                },
                |(a, at), i| {
                    if at.lie_eval.is_some() {
                        return lie::<T>(a, at, i);
                    }
                    committed::<T>(a, at, i)
                },
            );
    }
    comm::<MerkleTreeGL>(ctx, 3000, 80_000, l, "GL");
    comm::<MerkleTreeBN128>(ctx, 300, 8_000, small, "BN128");
    comm::<MerkleTreeBLS12381>(ctx, 300, 8_000, small, "BLS12381");
    ctx.sub("gl_constants", 1500, 40_000)
        .rule("an accepted proof against the constant root of a program that differs in one constant cell")
        .run(
            move |s| {
                let a = air(s, &l, "GL");
                (a.clone(), s.usize(a.consts.len()), s.usize(1 << 16), 1 + s.below(1 << 40))
            },
            |(a, c, r, by), i| {
                classify(a, i);
                let mut b = a.clone();
                let r = r % a.n();
                b.consts[*c][r] = vh::gl::add(b.consts[*c][r], *by);
                let p = setup::<MerkleTreeGL>(a)?;
                let q = setup::<MerkleTreeGL>(&b)?;
                ensure!(p.setup.const_root.as_elements() != q.setup.const_root.as_elements(), "equal constant roots");
                let proof = honest(&p)?;
                ensure!(
                    !accepted(|| p.verify_with_root::<<MerkleTreeGL as Backend>::Tr>(&proof, &q.setup.const_root)),
                    "proof accepted against other constants"
                );
                Ok(())
            },
        );
    ctx.sub("gl_program", 2500, 60_000)
        .rule("an accepted proof against the verifier of a program that differs in one number and that the trace breaks; trivial when the trace satisfies it too")
        .run(
            move |s| {
                let a = air(s, &l, "GL");
                let b = number(s, &a);
                (a, b)
            },
            |(a, b), i| program::<MerkleTreeGL>(a, b, i),
        );
}
/// A false evaluation makes the polynomial handed to FRI one of high degree, or the check at the challenge fail.
fn lie<T: Backend>(a: &Air, at: &Attack, info: &mut Info) -> Res {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let o = p.forge::<T::Tr>(a, at)?;
    if o.q_ok && o.fri_deg < crate::prover::degree_bound(a) {
        info.trivial();
        return Ok(());
    }
    info.class("evaluation");
    ensure!(!accepted(|| p.verify::<T::Tr>(&o.proof)), "accepted with a false evaluation");
    Ok(())
}
