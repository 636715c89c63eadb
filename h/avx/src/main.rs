//! F03 and F05: the vector builds (AVX2, AVX-512) against plain integers and plain hashes.
//! This crate is compiled twice; h/avx512 selects the eight-lane code by its target features.
#[path = "../../starky/src/air.rs"]
#[allow(dead_code)]
mod air;
#[path = "../../starky/src/conv.rs"]
#[allow(dead_code)]
mod conv;
#[path = "../../starky/src/f01.rs"]
#[allow(dead_code)]
mod f01;
#[path = "../../starky/src/m01.rs"]
#[allow(dead_code)]
mod m01;
#[path = "../../starky/src/prover.rs"]
#[allow(dead_code)]
mod prover;
#[path = "../../starky/src/s01.rs"]
#[allow(dead_code)]
mod s01;

use conv::{gint, gvec};
use fields::packable::Packable;
use fields::packed::PackedField;
use starky::linearhash::LinearHash;
use starky::traits::MTNodeType;
use vh::gl;
use vh::{ensure, ensure_eq, guard, Ctx, Res, Src, GL_P};

type R = fields::field_gl::FrRepr;
type P = <R as Packable>::Packing;
const W: usize = P::WIDTH;

#[cfg(target_feature = "avx512f")]
const ID: &str = "F05";
#[cfg(not(target_feature = "avx512f"))]
const ID: &str = "F03";

fn lanes(s: &mut Src) -> Vec<u64> {
    match s.weighted(&[3, 2, 1]) {
        0 => s.many(W, |s| s.gl()),
        1 => s.many(W, |s| s.gl_uniform()),
        _ => {
            let v = s.gl();
            vec![v; W]
        }
    }
}
fn pk(v: &[u64]) -> P {
    let r: Vec<R> = v.iter().map(|x| fields::field_gl::FrRepr([*x])).collect();
    *P::from_slice(&r)
}
fn un(p: &P) -> Vec<u64> {
    p.as_slice().iter().map(|x| x.0[0]).collect()
}
fn zip(a: &[u64], b: &[u64], f: impl Fn(u64, u64) -> u64) -> Vec<u64> {
    a.iter().zip(b).map(|(a, b)| f(*a, *b)).collect()
}

fn packed(ctx: &mut Ctx) {
    ctx.sub("packed_ops", 1_000_000, 20_000_000)
        .rule("two vectors of canonical values (boundary biased, uniform, constant) and a scalar; every operator in every form; trivial when all operands are below 2")
        .run(
            |s| (lanes(s), lanes(s), s.gl()),
            |(a, b, k), info| {
                if a.iter().chain(b).all(|x| *x < 2) {
                    info.trivial();
                }
                if a.iter().zip(b).any(|(a, b)| a < b) {
                    info.class("a lane borrows");
                }
                if a.iter().zip(b).any(|(a, b)| *a as u128 + *b as u128 >= GL_P as u128) {
                    info.class("a lane wraps");
                }
                if a.contains(&0) || b.contains(&0) {
                    info.class("a zero lane");
                }
                let (x, y, kr) = (pk(a), pk(b), fields::field_gl::FrRepr([*k]));
                let kk = vec![*k; W];
                let chk = |name: &str, p: P, want: Vec<u64>| -> Res {
                    ensure_eq!(un(&p), want, "{name} of {a:?}, {b:?}, scalar {k}");
                    Ok(())
                };
                chk("a + b", x + y, zip(a, b, gl::add))?;
                chk("a - b", x - y, zip(a, b, gl::sub))?;
                chk("a * b", x * y, zip(a, b, gl::mul))?;
                chk("-a", -x, a.iter().map(|a| gl::neg(*a)).collect())?;
                chk("square", x.square(), zip(a, a, gl::mul))?;
                chk("a + k", x + kr, zip(a, &kk, gl::add))?;
                chk("a - k", x - kr, zip(a, &kk, gl::sub))?;
                chk("a * k", x * kr, zip(a, &kk, gl::mul))?;
                chk("k + a", kr + x, zip(&kk, a, gl::add))?;
                chk("k - a", kr - x, zip(&kk, a, gl::sub))?;
                chk("k * a", kr * x, zip(&kk, a, gl::mul))?;
                chk("broadcast", P::from(kr), kk.clone())?;
                let mut z = x;
                z += y;
                chk("+=", z, zip(a, b, gl::add))?;
                z = x;
                z -= y;
                chk("-=", z, zip(a, b, gl::sub))?;
                z = x;
                z *= y;
                chk("*=", z, zip(a, b, gl::mul))?;
                z = x;
                z += kr;
                chk("+= k", z, zip(a, &kk, gl::add))?;
                z = x;
                z -= kr;
                chk("-= k", z, zip(a, &kk, gl::sub))?;
                z = x;
                z *= kr;
                chk("*= k", z, zip(a, &kk, gl::mul))?;
                if *k != 0 {
                    let ik = vec![gl::inv(*k); W];
                    chk("a / k", x / kr, zip(a, &ik, gl::mul))?;
                    z = x;
                    z /= kr;
                    chk("/= k", z, zip(a, &ik, gl::mul))?;
                }
                ensure_eq!(un(&P::new(x.get())), *a, "register round trip");
                ensure_eq!(un(&P::ZEROS), vec![0; W], "ZEROS");
                ensure_eq!(un(&P::default()), vec![0; W], "default");
                ensure_eq!(un(&P::ONES), vec![1; W], "ONES");
                Ok(())
            },
        );
    ctx.sub("packed_chain", 100_000, 2_000_000)
        .rule("4 to 24 chained operations over three vectors, each result the next operand; trivial when all start values are below 2")
        .run(
            |s| ((0..3).map(|_| lanes(s)).collect::<Vec<_>>(), s.vec(4, 24, |s| (s.usize(5), s.usize(3), s.usize(3), s.usize(3)))),
            |(start, ops), info| {
                if start.iter().flatten().all(|x| *x < 2) {
                    info.trivial();
                }
                info.evals(ops.len() as u64);
                let mut m = start.clone();
                let mut v: Vec<P> = start.iter().map(|x| pk(x)).collect();
                for (i, (op, d, a, b)) in ops.iter().enumerate() {
                    let (va, vb) = (v[*a], v[*b]);
                    let (ma, mb) = (m[*a].clone(), m[*b].clone());
                    (v[*d], m[*d]) = match op {
                        0 => (va + vb, zip(&ma, &mb, gl::add)),
                        1 => (va - vb, zip(&ma, &mb, gl::sub)),
                        2 => (va * vb, zip(&ma, &mb, gl::mul)),
                        3 => (va.square(), zip(&ma, &ma, gl::mul)),
                        _ => (-va, ma.iter().map(|x| gl::neg(*x)).collect()),
                    };
                    ensure_eq!(un(&v[*d]), m[*d], "operation {i}");
                }
                Ok(())
            },
        );
    ctx.sub("reduce", 300_000, 6_000_000)
        .rule("any 128-bit value per lane, reduced modulo p; trivial when every high word is zero")
        .run(
            |s| (s.many(W, |s| s.edgy_u64(&vh::GL_SPECIAL)), s.many(W, |s| s.edgy_u64(&vh::GL_SPECIAL))),
            |(hi, lo), info| {
                if hi.iter().all(|x| *x == 0) {
                    info.trivial();
                }
                let r = P::reduce(pk(hi).get(), pk(lo).get());
                let want = zip(hi, lo, |h, l| ((((h as u128) << 64) | l as u128) % GL_P as u128) as u64);
                ensure_eq!(un(&r), want, "reduce of {hi:x?}, {lo:x?}");
                Ok(())
            },
        );
    ctx.sub("layout", 50_000, 500_000)
        .rule("slices of up to 8 vectors packed and unpacked, every interleaving block length; trivial when the slice is empty")
        .run(
            |s| {
                let n = s.range(0, 8 * W);
                (s.many(n, |s| s.gl()), lanes(s), lanes(s))
            },
            |(v, a, b), info| {
                if v.is_empty() {
                    info.trivial();
                }
                let mut r: Vec<R> = v.iter().map(|x| fields::field_gl::FrRepr([*x])).collect();
                if v.len() % W == 0 {
                    let p = P::pack_slice(&r);
                    ensure_eq!(p.len(), v.len() / W, "pack_slice length");
                    for (i, c) in v.chunks(W).enumerate() {
                        ensure_eq!(un(&p[i]), c.to_vec(), "pack_slice vector {i}");
                    }
                    for p in P::pack_slice_mut(&mut r) {
                        *p += P::ONES;
                    }
                    for (i, c) in v.iter().enumerate() {
                        ensure_eq!(r[i].0[0], gl::add(*c, 1), "write through pack_slice_mut at {i}");
                    }
                } else {
                    ensure!(guard(|| P::pack_slice(&r).len()).is_err(), "pack_slice accepted {} elements", v.len());
                    let n = r.len();
                    ensure!(guard(|| P::pack_slice_mut(&mut r).len()).is_err(), "pack_slice_mut accepted {n} elements");
                }
                if v.len() != W {
                    let r2: Vec<R> = v.iter().map(|x| fields::field_gl::FrRepr([*x])).collect();
                    ensure!(guard(|| un(P::from_slice(&r2))).is_err(), "from_slice accepted {} elements", v.len());
                }
                let mut bl = 1;
                while bl <= W {
                    let (g0, g1) = pk(a).interleave(pk(b), bl);
                    // 2 x 2 blocks transposed: block j of a and of b, for even and for odd j
                    let (mut w0, mut w1) = (vec![], vec![]);
                    if bl == W {
                        (w0, w1) = (a.clone(), b.clone());
                    } else {
                        for j in (0..W / bl).step_by(2) {
                            w0.extend_from_slice(&a[j * bl..(j + 1) * bl]);
                            w0.extend_from_slice(&b[j * bl..(j + 1) * bl]);
                            w1.extend_from_slice(&a[(j + 1) * bl..(j + 2) * bl]);
                            w1.extend_from_slice(&b[(j + 1) * bl..(j + 2) * bl]);
                        }
                    }
                    ensure_eq!((un(&g0), un(&g1)), (w0, w1), "interleave by {bl}");
                    bl *= 2;
                }
                ensure!(guard(|| pk(a).interleave(pk(b), 3)).is_err(), "interleave by 3");
                Ok(())
            },
        );
}

fn state(s: &mut Src, n: usize) -> Vec<u64> {
    match s.weighted(&[1, 2, 3]) {
        0 => {
            let v = s.gl();
            vec![v; n]
        }
        1 => s.many(n, |s| if s.chance(2, 3) { 0 } else { s.gl() }),
        _ => s.many(n, |s| s.gl()),
    }
}
#[cfg(not(target_feature = "avx512f"))]
fn perm(a: &[u64], _b: &[u64], out: usize) -> Result<(Vec<u64>, Vec<u64>), String> {
    use starky::arch::x86_64::avx2_poseidon_gl::Poseidon;
    let got = Poseidon::new().hash(&gvec(&a[..8]), &gvec(&a[8..]), out).map_err(|e| e.to_string())?;
    for g in &got {
        if g.0 .0[0] >= GL_P {
            return Err("result is not canonical".into());
        }
    }
    Ok((gint(&got), vec![]))
}
#[cfg(target_feature = "avx512f")]
fn perm(a: &[u64], b: &[u64], _out: usize) -> Result<(Vec<u64>, Vec<u64>), String> {
    use starky::arch::x86_64::avx512_poseidon_gl::Poseidon;
    let inp = [&a[..4], &b[..4], &a[4..8], &b[4..8]].concat();
    let got = Poseidon::new().hash(&gvec(&inp), &gvec(&[&a[8..], &b[8..]].concat()), 8).map_err(|e| e.to_string())?;
    for g in &got {
        if g.0 .0[0] >= GL_P {
            return Err("result is not canonical".into());
        }
    }
    let got = gint(&got);
    Ok((got[..4].to_vec(), got[4..].to_vec()))
}
#[cfg(not(target_feature = "avx512f"))]
fn linear(a: &[u64], _b: &[u64], batch: usize) -> Result<(Vec<u64>, Vec<u64>), String> {
    let d = LinearHash::new().hash(&gvec(a), batch).map_err(|e| e.to_string())?;
    Ok((gint(d.as_elements()), vec![]))
}
#[cfg(target_feature = "avx512f")]
fn linear(a: &[u64], b: &[u64], batch: usize) -> Result<(Vec<u64>, Vec<u64>), String> {
    let d = LinearHash::new().hash(&gvec(&[a, b].concat()), batch).map_err(|e| e.to_string())?;
    Ok((gint(d[0].as_elements()), gint(d[1].as_elements())))
}

fn hashes(ctx: &mut Ctx) {
    ctx.sub("poseidon", 100_000, 2_000_000)
        .rule("one state per lane group: equal, sparse, boundary and uniform elements, non-zero capacity; trivial when all zero")
        .run(
            |s| (state(s, 12), state(s, 12), s.range(1, 12)),
            |(a, b, out), info| {
                if a.iter().chain(b).all(|x| *x == 0) {
                    info.trivial();
                }
                let (ga, gb) = perm(a, b, *out)?;
                ensure_eq!(ga, href::gl_hash(&a[..8], &a[8..])[..ga.len()].to_vec(), "Poseidon of the first state");
                ensure_eq!(gb, href::gl_hash(&b[..8], &b[8..])[..gb.len()].to_vec(), "Poseidon of the second state");
                if ID == "F03" {
                    ensure_eq!(ga.len(), *out, "outputs");
                }
                Ok(())
            },
        );
    ctx.sub("linear", 50_000, 1_000_000)
        .rule("rows of 0..300 elements (two different rows of one length where two are hashed at once), default and explicit batch sizes, matrix form; trivial when empty or all zero")
        .run(
            |s| {
                let n = match s.weighted(&[4, 3, 2, 1]) {
                    0 => s.range(0, 12),
                    1 => s.range(13, 70),
                    2 => *s.pick(&[3usize, 4, 8, 9, 16, 17, 24, 31, 32, 33, 36, 47, 48, 49, 63, 64, 65, 95, 96, 97, 128, 129]),
                    _ => s.range(71, 300),
                };
                let k = s.weighted(&[4, 2]);
                let f = |s: &mut Src| s.many(n, |s| if k == 1 && s.chance(3, 4) { 0 } else { s.gl() });
                let (a, b) = (f(s), f(s));
                let batch = if s.chance(2, 3) { 0 } else { s.range(1, 40) };
                let cols = (1..=n).filter(|c| n % c == 0).collect::<Vec<_>>();
                let col = if cols.is_empty() { 0 } else { *s.pick(&cols) };
                (a, b, batch, col)
            },
            |(a, b, batch, col), info| {
                if a.iter().chain(b).all(|x| *x == 0) {
                    info.trivial();
                }
                info.class(match a.len() {
                    0..=4 => "copied",
                    5..=8 => "one block",
                    _ => "several blocks",
                });
                let (ga, gb) = linear(a, b, *batch)?;
                ensure_eq!(ga, href::gl_linear(a, *batch).to_vec(), "linear hash of {} elements, batch {batch}", a.len());
                if !gb.is_empty() {
                    ensure_eq!(gb, href::gl_linear(b, *batch).to_vec(), "linear hash of the second row of {} elements, batch {batch}", b.len());
                }
                if *col > 0 {
                    let m: Vec<_> = a.chunks(*col).map(gvec).collect();
                    let d = LinearHash::new().hash_element_matrix(&m, *batch).map_err(|e| e.to_string())?;
                    ensure_eq!(gint(d.as_elements()), href::gl_linear(a, *batch).to_vec(), "matrix hash of {} elements in columns of {col}", a.len());
                }
                Ok(())
            },
        );
}

fn run(ctx: &mut Ctx) {
    packed(ctx);
    hashes(ctx);
    m01::vector(ctx);
    s01::vector(ctx);
    ctx.assume("reference: integers modulo p, the plain Poseidon, linear hash and tree of h/href; the processor has the instruction set (the check says so otherwise)");
}
fn main() {
    vh::main(&[(ID, run)]);
}
