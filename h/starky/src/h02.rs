//! H02: linear hashes against plain sponges.
use crate::conv::{conv, gint, gvec, limb_overflow, node_limbs, scalar, Kind, LIMB_SIG};
use href::{Bls, Bn};
use starky::linearhash::LinearHash;
use starky::traits::MTNodeType;
use vh::{ensure, ensure_eq, guard, sig_fail, Ctx, Info, Res, Src};

/// Lengths around every block, batch and digest size.
fn row(s: &mut Src, max: usize) -> Vec<u64> {
    let n = match s.weighted(&[4, 3, 2, 1]) {
        0 => s.range(0, 12),
        1 => s.range(13, 70),
        2 => *s.pick(&[3usize, 4, 8, 9, 16, 17, 24, 31, 32, 33, 36, 40, 44, 45, 47, 48, 49, 51, 63, 64, 65, 95, 96, 97, 128, 129]),
        _ => s.range(71, max),
    };
    let kind = s.weighted(&[4, 2, 1]);
    s.many(n, |s| match kind {
        0 => s.gl(),
        1 => {
            if s.chance(3, 4) {
                0
            } else {
                s.gl()
            }
        }
        _ => s.below(3),
    })
}
fn split(s: &mut Src, row: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![];
    let mut rest = row;
    while !rest.is_empty() {
        let k = s.range(1, rest.len());
        out.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    out
}

fn wide<S: Kind>(ctx: &mut Ctx) {
    ctx.sub(&format!("{}_linear", S::NAME), 30_000, 500_000)
        .rule("rows of 0..300 (one in 100: 0..6000) elements, any split into columns for the matrix form; trivial when empty or all zero")
        .run(
            |s| {
                let top = if s.chance(1, 100) { 6000 } else { 300 };
                let r = row(s, top);
                let c = split(s, &r);
                let at = s.usize(r.len().max(1));
                let d = 1 + s.below(1 << 20);
                (r, c, at, d)
            },
            |(r, cols, at, d), info| {
                if r.iter().all(|x| *x == 0) {
                    info.trivial();
                }
                info.class(match r.len() {
                    0..=3 => "one group",
                    4..=48 => "one block",
                    _ => "several blocks",
                });
                let want = href::fr_linear::<S>(r);
                let cg: Vec<_> = cols.iter().map(|c| gvec(c)).collect();
                let m: S::F = conv(&S::matrix(&cg)?);
                ensure_eq!(m, want, "hash_element_matrix of {} elements in {} columns", r.len(), cols.len());
                let m1: S::F = conv(&S::matrix(&[gvec(r)])?);
                ensure_eq!(m1, want, "hash_element_matrix of one column of {}", r.len());
                array_ok::<S>(r, &want)?;
                if !r.is_empty() {
                    let mut r2 = r.clone();
                    r2[*at] = vh::gl::add(r2[*at], *d);
                    let o: S::F = conv(&S::matrix(&[gvec(&r2)])?);
                    ensure!(o != want, "changing element {at} of {} keeps the digest", r.len());
                }
                Ok(())
            },
        );
    ctx.sub(&format!("{}_node", S::NAME), 15_000, 200_000)
        .rule("16 child digests and a capacity; conversion of four limbs to a digest; trivial when all zero")
        .run(
            |s| {
                let ch = s.many(16, |s| {
                    if s.chance(1, 4) {
                        href::reduce([0; 4])
                    } else {
                        loop {
                            let f = scalar::<S>(s);
                            if !limb_overflow(&f) {
                                break f;
                            }
                        }
                    }
                });
                (ch, scalar::<S>(s), s.many(4, |s| s.gl()))
            },
            |(ch, init, limbs), info: &mut Info| {
                use ff::Field;
                if ch.iter().all(|c| c.is_zero()) {
                    info.trivial();
                }
                let want = href::digest::<S>(ch, init);
                let nodes: Vec<_> = ch.iter().map(|c| gvec(&node_limbs(c))).collect();
                let got = digest_or_known::<S>(&want, || S::hash_node(&nodes, &conv(init)))?;
                if let Some(g) = got {
                    ensure_eq!(gint(&g), node_limbs(&want), "hash_node");
                }
                let w: S::F = href::reduce([limbs[0], limbs[1], limbs[2], limbs[3]]);
                let g4 = gvec(limbs);
                let got = digest_or_known::<S>(&w, || Ok(S::mont([g4[0], g4[1], g4[2], g4[3]]).to_vec()))?;
                if let Some(g) = got {
                    ensure_eq!(gint(&g), node_limbs(&w), "four limbs {limbs:?} as a digest");
                }
                Ok(())
            },
        );
    ctx.sub(&format!("{}_limb", S::NAME), 1, 1)
        .rule("the row whose digest has a Montgomery limb of at least the Goldilocks modulus")
        .run(|_| vec![S::LIMB_ROW], |r, _| array_ok::<S>(r, &href::fr_linear::<S>(r)));
}
/// Runs f; the one listed failure is recognised by the digest it should have produced.
pub fn digest_or_known<S: Kind>(want: &S::F, f: impl FnOnce() -> Result<Vec<fields::field_gl::Fr>, String>) -> Result<Option<Vec<fields::field_gl::Fr>>, vh::Fail> {
    match guard(f) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(e)) => Err(e.into()),
        Err(p) if limb_overflow(want) => Err(sig_fail(&format!("{}-{LIMB_SIG}", S::NAME), p)),
        Err(p) => Err(format!("panic: {p}").into()),
    }
}
fn array_ok<S: Kind>(r: &[u64], want: &S::F) -> Res {
    if let Some(g) = digest_or_known::<S>(want, || S::array(&gvec(r)))? {
        ensure_eq!(gint(&g), node_limbs(want), "hash_element_array of {} elements", r.len());
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("GL_linear", 100_000, 2_000_000)
        .rule("rows of 0..400 (one in 100: 0..20000) elements, any batch size and the default, sponge of one batch, matrix form; trivial when empty or all zero")
        .run(
            |s| {
                let top = if s.chance(1, 100) { 20_000 } else { 400 };
                let r = row(s, top);
                let batch = if s.chance(1, 2) { 0 } else if s.chance(1, 8) { s.range(65, 2 * top) } else { s.range(1, 64) };
                let w = divisors(r.len());
                let cw = if w.is_empty() { 1 } else { *s.pick(&w) };
                let at = s.usize(r.len().max(1));
                let other = s.usize(r.len().max(1));
                (r, batch, cw, at, other, 1 + s.below(1 << 20))
            },
            |(r, batch, cw, at, other, d), info| {
                if r.iter().all(|x| *x == 0) {
                    info.trivial();
                }
                info.class(match r.len() {
                    0..=4 => "raw",
                    5..=8 => "one block",
                    9..=32 => "batches of 8",
                    _ => "long",
                });
                let h = LinearHash::new();
                let want = href::gl_linear(r, *batch).to_vec();
                let g = gvec(r);
                let got = h.hash(&g, *batch).map_err(|e| e.to_string())?;
                ensure_eq!(gint(got.as_elements()), want, "hash of {} elements, batch {batch}", r.len());
                let sp = h._hash(&g).map_err(|e| e.to_string())?;
                ensure_eq!(gint(sp.as_elements()), href::gl_sponge(r).to_vec(), "sponge of {} elements", r.len());
                if !r.is_empty() {
                    let cols: Vec<_> = g.chunks(*cw).map(|c| c.to_vec()).collect();
                    let m = h.hash_element_matrix(&cols, *batch).map_err(|e| e.to_string())?;
                    ensure_eq!(gint(m.as_elements()), want, "hash_element_matrix {} x {cw}, batch {batch}", cols.len());
                    let mut r2 = r.clone();
                    r2[*at] = vh::gl::add(r2[*at], *d);
                    let o = h.hash(&gvec(&r2), *batch).map_err(|e| e.to_string())?;
                    ensure!(gint(o.as_elements()) != want, "changing element {at} of {} keeps the digest", r.len());
                    if r[*at] != r[*other] {
                        let mut r3 = r.clone();
                        r3.swap(*at, *other);
                        let o = h.hash(&gvec(&r3), *batch).map_err(|e| e.to_string())?;
                        ensure!(gint(o.as_elements()) != want, "swapping elements {at} and {other} of {} keeps the digest", r.len());
                    }
                }
                Ok(())
            },
        );
    wide::<Bn>(ctx);
    wide::<Bls>(ctx);
}
fn divisors(n: usize) -> Vec<usize> {
    (1..=n).filter(|d| n % d == 0).collect()
}
