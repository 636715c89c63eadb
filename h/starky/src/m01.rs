//! M01 and M02: Merkle commitments of the three back ends.
use crate::conv::{conv, gfr, gint, gvec, limb_overflow, node, Kind, BlsFr, BnFr, LIMB_SIG};
use fields::field_gl::Fr as FGL;
use href::{Bls, Bn, D4};
use starky::f3g::F3G;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use vh::{ensure, ensure_eq, guard, sig_fail, Ctx, Fail, Res, Src};

/// One level of a reference tree as the path entries of the code under test.
pub trait Tree: MerkleTree<ExtendField = F3G> + Default {
    type D: Clone + PartialEq + std::fmt::Debug + Send + Sync;
    const NAME: &'static str;
    const AR: usize;
    const LIMB_ROW: Option<u64>;
    fn levels(rows: &[Vec<u64>]) -> Vec<Vec<Self::D>>;
    fn entry(d: &Self::D) -> Vec<Self::BaseField>;
    fn to_node(d: &Self::D) -> Self::MTNode;
    fn overflow(d: &Self::D) -> bool;
    /// changes one base-field component of a path entry
    fn bump(b: &Self::BaseField, by: u64) -> Self::BaseField;
}
impl Tree for MerkleTreeGL {
    type D = D4;
    const NAME: &'static str = "GL";
    const AR: usize = 2;
    const LIMB_ROW: Option<u64> = None;
    fn levels(rows: &[Vec<u64>]) -> Vec<Vec<D4>> {
        href::gl_levels(rows)
    }
    fn entry(d: &D4) -> Vec<FGL> {
        gvec(d)
    }
    fn to_node(d: &D4) -> Self::MTNode {
        MTNodeType::new(&gvec(d))
    }
    fn overflow(_: &D4) -> bool {
        false
    }
    fn bump(b: &FGL, by: u64) -> FGL {
        *b + gfr(by)
    }
}
macro_rules! tree {
    ($t:ty, $spec:ty, $fr:ty) => {
        impl Tree for $t {
            type D = <$spec as href::Spec>::F;
            const NAME: &'static str = <$spec as href::Spec>::NAME;
            const AR: usize = 16;
            const LIMB_ROW: Option<u64> = Some(<$spec as Kind>::LIMB_ROW);
            fn levels(rows: &[Vec<u64>]) -> Vec<Vec<Self::D>> {
                href::fr_levels::<$spec>(rows)
            }
            fn entry(d: &Self::D) -> Vec<$fr> {
                vec![conv(d)]
            }
            fn to_node(d: &Self::D) -> Self::MTNode {
                node(d)
            }
            fn overflow(d: &Self::D) -> bool {
                limb_overflow(d)
            }
            fn bump(b: &$fr, by: u64) -> $fr {
                use ff::Field;
                let mut b = *b;
                let d: Self::D = href::reduce([by, 0, 0, 0]);
                b.add_assign(&conv(&d));
                b
            }
        }
    };
}
tree!(MerkleTreeBN128, Bn, BnFr);
tree!(MerkleTreeBLS12381, Bls, BlsFr);

#[derive(Debug, Clone)]
pub struct Mat {
    width: usize,
    rows: Vec<Vec<u64>>,
}
fn mat(s: &mut Src, max_cells: usize) -> Mat {
    let height = match s.weighted(&[3, 3, 2, 1]) {
        0 => s.range(1, 20),
        1 => *s.pick(&[2usize, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        2 => *s.pick(&[128usize, 127, 129, 255, 256, 257, 272, 273]),
        _ => s.range(66, 300),
    };
    let maxw = (max_cells / height).clamp(1, 60);
    let width = match s.weighted(&[4, 2, 1]) {
        0 => s.range(1, maxw.min(6)),
        1 => s.range(1, maxw.min(16)),
        _ => s.range(1, maxw),
    };
    rows(s, width, height)
}
fn rows(s: &mut Src, width: usize, height: usize) -> Mat {
    let kind = s.weighted(&[4, 1, 1, 1]);
    let base = s.gl();
    let small = width * height <= 4096;
    let seed = s.u64();
    let mut r = vh::Rng::new(seed);
    let rows = (0..height)
        .map(|i| {
            (0..width)
                .map(|j| match kind {
                    0 if small => s.gl(),
                    0 => r.next() % vh::GL_P,
                    1 => base,
                    2 => (i * width + j) as u64,
                    _ => r.below(2),
                })
                .collect()
        })
        .collect();
    Mat { width, rows }
}

fn build<T: Tree>(m: &Mat) -> Result<T, Fail> {
    let flat: Vec<FGL> = m.rows.iter().flat_map(|r| gvec(r)).collect();
    let mut t = T::new();
    t.merkelize(flat, m.width, m.rows.len()).map_err(|e| e.to_string())?;
    Ok(t)
}
/// Commits; the one listed failure is recognised by the digests the tree should have.
fn build_or_known<T: Tree>(m: &Mat, levels: &[Vec<T::D>]) -> Result<T, Fail> {
    match guard(|| build::<T>(m)) {
        Ok(r) => r,
        Err(p) if levels.iter().flatten().any(T::overflow) => Err(sig_fail(&format!("{}-{LIMB_SIG}", T::NAME), p)),
        Err(p) => Err(format!("merkelize panics: {p}").into()),
    }
}
fn path<T: Tree>(levels: &[Vec<T::D>], idx: usize) -> Vec<Vec<T::BaseField>> {
    let mut out = vec![];
    let mut i = idx;
    for l in &levels[..levels.len() - 1] {
        if T::AR == 2 {
            out.push(T::entry(&l[i ^ 1]));
        } else {
            let g = i / T::AR * T::AR;
            out.push((g..g + T::AR).flat_map(|k| T::entry(&l[k])).collect());
        }
        i /= T::AR;
    }
    out
}
fn open_ok<T: Tree>(t: &T, m: &Mat, levels: &[Vec<T::D>], idx: usize) -> Res {
    let (row, mp) = t.get_group_proof(idx).map_err(|e| e.to_string())?;
    ensure_eq!(gint(&row), m.rows[idx], "opened row {idx}");
    ensure_eq!(mp, path::<T>(levels, idx), "path of row {idx}");
    let root = t.root();
    // the verifier has the root only
    let fresh = T::new();
    ensure!(fresh.verify_group_proof(&root, &mp, idx, &row).map_err(|e| e.to_string())?, "opening of row {idx} of {} does not verify", m.rows.len());
    ensure!(t.verify_group_proof(&root, &mp, idx, &row).map_err(|e| e.to_string())?, "opening of row {idx} does not verify with the tree itself");
    Ok(())
}
fn commit<T: Tree>(m: &Mat, picks: &[usize]) -> Res {
    let levels = T::levels(&m.rows);
    let t = build_or_known::<T>(m, &levels)?;
    let (h, w) = (m.rows.len(), m.width);
    let want = T::to_node(&levels.last().unwrap()[0]);
    ensure_eq!(t.root(), want, "root of {h} x {w}");
    ensure!(t.eq_root(&t.root(), &want), "eq_root of equal roots");
    ensure_eq!(t.element_size(), h * w, "element_size");
    let mut ext = vec![F3G::ZERO; h * w];
    t.to_extend(&mut ext);
    for i in 0..h {
        for j in 0..w {
            ensure_eq!(t.get_element(i, j).as_int(), m.rows[i][j], "get_element({i}, {j})");
            let e = ext[i * w + j];
            ensure!(e == F3G::from(gfr(m.rows[i][j])), "to_extend at ({i}, {j}): {e:?}");
        }
    }
    for idx in picks {
        open_ok::<T>(&t, m, &levels, idx % h)?;
    }
    ensure!(t.get_group_proof(h).is_err(), "row {h} of {h} opened");
    Ok(())
}

fn m01<T: Tree>(ctx: &mut Ctx, quick: u64, thorough: u64) {
    ctx.sub(&format!("{}_commit", T::NAME), quick, thorough)
        .rule("heights 1..300 around powers of two and of 16, widths 1..60 (raw, one-block and multi-batch leaves), every kind of content; root and every level against a sequential tree, up to 12 openings; trivial for a single row")
        .run(
            |s| (mat(s, if T::AR == 2 { 3000 } else { 1500 }), s.many(12, |s| s.usize(1 << 12))),
            |(m, picks), info| {
                if m.rows.len() == 1 {
                    info.trivial();
                }
                info.class(if m.rows.len().is_power_of_two() { "power of two" } else { "other height" });
                info.evals(picks.len() as u64);
                commit::<T>(m, picks)
            },
        );
    let (lo, hi) = if T::AR == 2 { (13, 14) } else { (16, 17) };
    let (q, th) = if T::AR == 2 { (6, 60) } else { (2, 8) };
    ctx.sub(&format!("{}_tall", T::NAME), q, th)
        .shards(if T::AR == 2 { 3 } else { 1 })
        .shrink(0)
        .rule("trees tall enough that one level is split over worker threads; all cases count")
        .run(
            |s| {
                let mut h = (1usize << s.range(lo, hi)) - s.usize(40) * (s.chance(1, 2) as usize) + s.usize(20);
                if T::AR == 16 && s.bool() {
                    // 16 * 4096 rows are one piece
                    h = h.max((1 << 16) + 1 + s.usize(70));
                }
                let w = s.range(1, 3);
                (rows(s, w, h), s.many(40, |s| s.usize(1 << 20)))
            },
            |(m, picks), _| commit::<T>(m, picks),
        );
    ctx.sub(&format!("{}_wide", T::NAME), q * 6, th * 6)
        .shards(2)
        .shrink(20)
        .rule("rows wide enough that leaf hashing is split over worker threads in several blocks; all cases count")
        .run(
            |s| {
                let (w, h) = if s.chance(1, 5) {
                    // more columns than operations per thread
                    let w = s.range(400, 70_000);
                    (w, s.range(1, 4 + 40_000 / w))
                } else {
                    let w = s.range(64, 400);
                    (w, s.range(100, 40_000 / w))
                };
                (rows(s, w, h), s.many(20, |s| s.usize(1 << 20)))
            },
            |(m, picks), _| commit::<T>(m, picks),
        );
    if let Some(v) = T::LIMB_ROW {
        ctx.sub(&format!("{}_limb", T::NAME), 1, 1)
            .rule("two rows, one of them the one whose digest has a Montgomery limb of at least the Goldilocks modulus")
            .run(|_| Mat { width: 1, rows: vec![vec![v], vec![1]] }, |m, _| commit::<T>(m, &[0, 1]));
    }
}
pub fn run_m01(ctx: &mut Ctx) {
    m01::<MerkleTreeGL>(ctx, 4_000, 60_000);
    m01::<MerkleTreeBN128>(ctx, 2_000, 30_000);
    m01::<MerkleTreeBLS12381>(ctx, 2_000, 30_000);
}

// ------------------------------------------------------------------------------------------- M02

#[derive(Debug)]
struct Alter {
    idx: usize,
    kind: usize,
    a: usize,
    b: usize,
    by: u64,
}
fn alter<T: Tree>(m: &Mat, al: &Alter) -> Result<bool, Fail> {
    let levels = T::levels(&m.rows);
    let t = build_or_known::<T>(m, &levels)?;
    let h = m.rows.len();
    let idx = al.idx % h;
    let (row, mp) = t.get_group_proof(idx).map_err(|e| e.to_string())?;
    let mut root = t.root();
    let root0 = t.root();
    let (mut row2, mut mp2, mut idx2) = (row.clone(), mp.clone(), idx);
    match al.kind {
        // a changed element
        0 => {
            let j = al.a % row2.len();
            row2[j] = row2[j] + gfr(al.by);
        }
        // the row of another index with this path
        1 => row2 = gvec(&m.rows[al.a % h]),
        // another index with this row and path
        2 => idx2 = al.a % h,
        // an index outside of the tree that agrees on the low bits
        3 => {
            let bits: usize = mp.len() * T::AR.trailing_zeros() as usize;
            idx2 = idx + ((1 + al.a % 7) << bits);
        }
        // a changed path entry, wherever it is
        4 => {
            if mp2.is_empty() {
                return Ok(false);
            }
            let l = al.a % mp2.len();
            let k = al.b % mp2[l].len();
            mp2[l][k] = T::bump(&mp2[l][k], al.by);
        }
        // two path levels swapped
        5 => {
            if mp2.len() < 2 {
                return Ok(false);
            }
            let l = al.a % (mp2.len() - 1);
            mp2.swap(l, l + 1);
        }
        // a missing or repeated level
        6 => {
            if mp2.is_empty() {
                return Ok(false);
            }
            let l = al.a % mp2.len();
            if al.b % 2 == 0 {
                mp2.remove(l);
            } else {
                let e = mp2[l].clone();
                mp2.insert(l, e);
            }
        }
        // another root
        7 => {
            let mut d = levels.last().unwrap()[0].clone();
            let mut e = root.as_elements().to_vec();
            let k = al.a % 4;
            e[k] = e[k] + gfr(al.by);
            root = <T::MTNode as MTNodeType>::new(&e);
            let _ = &mut d;
        }
        // two elements of the row swapped
        8 => {
            let (i, j) = (al.a % row2.len(), al.b % row2.len());
            row2.swap(i, j);
        }
        // children of one group swapped inside the path (16-ary), halves swapped (binary)
        9 => {
            if mp2.is_empty() {
                return Ok(false);
            }
            let l = al.a % mp2.len();
            let n = mp2[l].len();
            mp2[l].swap(al.b % n, (al.b + 1 + al.by as usize % (n - 1)) % n);
        }
        // a surplus or missing element in a level
        10 => {
            if mp2.is_empty() {
                return Ok(false);
            }
            let l = al.a % mp2.len();
            if al.b % 2 == 0 {
                let e = mp2[l][al.a % mp2[l].len()].clone();
                mp2[l].push(e);
            } else {
                mp2[l].pop();
            }
        }
        // the complete honest opening of another row under this index
        _ => {
            let o = al.a % h;
            let (r, p) = t.get_group_proof(o).map_err(|e| e.to_string())?;
            row2 = r;
            mp2 = p;
        }
    }
    // an alteration that yields the honest opening of the index it claims is no alteration
    if idx2 < h && root == root0 && gint(&row2) == m.rows[idx2] && mp2 == path::<T>(&levels, idx2) {
        return Ok(false);
    }
    // a length of the path that the height does not allow is noticed by whoever knows the height
    let v = if mp2.len() == mp.len() { T::new() } else { t };
    let ok = guard(|| v.verify_group_proof(&root, &mp2, idx2, &row2).unwrap_or(false)).unwrap_or(false);
    ensure!(!ok, "altered opening verifies (kind {}, {} x {}, row {idx} as {idx2})", al.kind, h, m.width);
    Ok(true)
}

fn m02<T: Tree>(ctx: &mut Ctx, quick: u64, thorough: u64) {
    ctx.sub(&format!("{}_open", T::NAME), quick, thorough)
        .rule("heights 2..300, widths 1..60, one of twelve alterations (element, row, index, index beyond the tree, path entry, levels swapped, dropped or repeated, wider or narrower, root, order in the row or a level, another row's opening); trivial when nothing was altered")
        .run(
            |s| {
                let mut m = mat(s, if T::AR == 2 { 1500 } else { 600 });
                if m.rows.len() == 1 && s.chance(9, 10) {
                    m.rows.push(vec![7; m.width]);
                }
                (m, Alter { idx: s.usize(4096), kind: s.usize(12), a: s.usize(4096), b: s.usize(4096), by: 1 + s.below(1 << 32) })
            },
            |(m, al), info| {
                info.class(format!("kind {}", al.kind));
                if !alter::<T>(m, al)? {
                    info.trivial();
                }
                Ok(())
            },
        );
    ctx.sub(&format!("{}_content", T::NAME), quick / 2, thorough / 2)
        .rule("two matrices of one shape that differ in one cell, in two swapped cells or in two swapped rows; trivial when equal")
        .run(
            |s| (mat(s, if T::AR == 2 { 1500 } else { 600 }), s.below(3), s.many(4, |s| s.usize(4096)), 1 + s.below(1 << 32)),
            |(m, kind, at, by), info| {
                let mut m2 = m.clone();
                let (h, w) = (m.rows.len(), m.width);
                match kind {
                    0 => {
                        let c = &mut m2.rows[at[0] % h][at[1] % w];
                        *c = vh::gl::add(*c, *by);
                    }
                    1 => {
                        let (x, y) = (m.rows[at[0] % h][at[1] % w], m.rows[at[2] % h][at[3] % w]);
                        m2.rows[at[0] % h][at[1] % w] = y;
                        m2.rows[at[2] % h][at[3] % w] = x;
                    }
                    _ => m2.rows.swap(at[0] % h, at[2] % h),
                }
                if m2.rows == m.rows {
                    info.trivial();
                    return Ok(());
                }
                let (a, b) = (build::<T>(m)?, build::<T>(&m2)?);
                ensure!(a.root() != b.root() && !a.eq_root(&a.root(), &b.root()), "different {h} x {w} matrices have one root");
                Ok(())
            },
        );
}
pub fn run_m02(ctx: &mut Ctx) {
    m02::<MerkleTreeGL>(ctx, 30_000, 600_000);
    m02::<MerkleTreeBN128>(ctx, 15_000, 300_000);
    m02::<MerkleTreeBLS12381>(ctx, 15_000, 300_000);
}
/// The Goldilocks tree alone, for builds whose hashing is vectorised.
#[allow(dead_code)]
pub fn vector(ctx: &mut Ctx) {
    m01::<MerkleTreeGL>(ctx, 3_000, 60_000);
    m02::<MerkleTreeGL>(ctx, 6_000, 100_000);
}
