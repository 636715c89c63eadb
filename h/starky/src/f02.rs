//! F02: extension fields against polynomial arithmetic modulo the defining polynomial.
use crate::f01::{fr, val};
use fields::field_gl::Fr;
use fields::Field;
use starky::f3g::F3G;
use starky::f5g::F5G;
use starky::polutils::{batch_inverse, eval_pol, pol_mul_axi};
use starky::traits::FieldExtension;
use vh::gl;
use vh::{ensure_eq, Ctx, Fail, Src};

pub trait Ext: FieldExtension {
    const N: usize;
    const RED: &'static [u64];
    fn coords(&self) -> Vec<u64>;
    fn build(v: &[u64]) -> Self;
}
impl Ext for F3G {
    const N: usize = 3;
    const RED: &'static [u64] = &gl::RED3;
    fn coords(&self) -> Vec<u64> {
        self.cube[..].iter().map(|x| x.as_int()).collect()
    }
    fn build(v: &[u64]) -> Self {
        match v.len() {
            1 => F3G { cube: [fr(v[0]), Fr::ZERO, Fr::ZERO], dim: 1 },
            _ => F3G { cube: [fr(v[0]), fr(v[1]), fr(v[2])], dim: 3 },
        }
    }
}
impl Ext for F5G {
    const N: usize = 5;
    const RED: &'static [u64] = &gl::RED5;
    fn coords(&self) -> Vec<u64> {
        self.cube[..].iter().map(|x| x.as_int()).collect()
    }
    fn build(v: &[u64]) -> Self {
        match v.len() {
            1 => F5G { cube: [fr(v[0]), Fr::ZERO, Fr::ZERO, Fr::ZERO, Fr::ZERO], dim: 1 },
            _ => F5G { cube: [fr(v[0]), fr(v[1]), fr(v[2]), fr(v[3]), fr(v[4])], dim: 5 },
        }
    }
}

/// dim 1 or N coordinates; extension elements often have zero coordinates.
fn elem<const N: usize>(s: &mut Src) -> Vec<u64> {
    if s.chance(1, 3) {
        return vec![val(s)];
    }
    let sparse = s.chance(1, 3);
    s.many(N, |s| if sparse && s.bool() { 0 } else { val(s) })
}
fn full(v: &[u64], n: usize) -> Vec<u64> {
    let mut v = v.to_vec();
    v.resize(n, 0);
    v
}
fn chk<F: Ext>(name: &str, got: F, want: &[u64], dim: usize) -> Result<(), Fail> {
    ensure_eq!(got.coords(), want.to_vec(), "{name}: coordinates");
    ensure_eq!(got.dim(), dim, "{name}: dimension");
    for (x, w) in got.as_elements().iter().zip(want) {
        ensure_eq!(x.into_raw(), gl::to_mont(*w), "{name}: raw limb");
    }
    Ok(())
}
trait Raw {
    fn into_raw(&self) -> u64;
}
impl Raw for Fr {
    fn into_raw(&self) -> u64 {
        self.0 .0[0]
    }
}

fn binary<F: Ext>(a: &[u64], b: &[u64]) -> Result<(), Fail> {
    let n = F::N;
    let (x, y) = (F::build(a), F::build(b));
    let (fa, fb) = (full(a, n), full(b, n));
    let dim = a.len().max(b.len());
    let sum: Vec<u64> = (0..n).map(|i| gl::add(fa[i], fb[i])).collect();
    let dif: Vec<u64> = (0..n).map(|i| gl::sub(fa[i], fb[i])).collect();
    let mul = gl::polmulmod(&fa, &fb, F::RED);
    chk("a+b", x + y, &sum, dim)?;
    chk("a-b", x - y, &dif, dim)?;
    chk("a*b", x * y, &mul, dim)?;
    let mut t = x;
    t += y;
    chk("+=", t, &sum, dim)?;
    let mut t = x;
    t -= y;
    chk("-=", t, &dif, dim)?;
    let mut t = x;
    t *= y;
    chk("*=", t, &mul, dim)?;
    let mut t = x;
    Field::add_assign(&mut t, &y);
    chk("add_assign", t, &sum, dim)?;
    let mut t = x;
    Field::sub_assign(&mut t, &y);
    chk("sub_assign", t, &dif, dim)?;
    let mut t = x;
    Field::mul_assign(&mut t, &y);
    chk("mul_assign", t, &mul, dim)?;
    ensure_eq!(x._eq(&y), fa == fb, "_eq");
    ensure_eq!(x == y, fa == fb && a.len() == b.len(), "==");
    if fb.iter().any(|v| *v != 0) {
        let q = x / y;
        ensure_eq!(gl::polmulmod(&q.coords(), &fb, F::RED), fa, "(a/b)*b");
        let mut t = x;
        t /= y;
        ensure_eq!(t, q, "/=");
    }
    if a.len() == b.len() {
        // order: lexicographic on the coordinates, from coordinate 0
        ensure_eq!(x.gt(&y), fa > fb, "gt");
        ensure_eq!(x.lt(&y), fa < fb, "lt");
        ensure_eq!(x.geq(&y), fa >= fb, "geq");
        ensure_eq!(x.leq(&y), fa <= fb, "leq");
    }
    Ok(())
}

fn unary<F: Ext>(a: &[u64], e: u64, k: u64) -> Result<(), Fail> {
    let n = F::N;
    let dim = a.len();
    let x = F::build(a);
    let fa = full(a, n);
    chk("-a", -x, &fa.iter().map(|v| gl::neg(*v)).collect::<Vec<_>>(), dim)?;
    let mut t = x;
    t.negate();
    chk("negate", t, &fa.iter().map(|v| gl::neg(*v)).collect::<Vec<_>>(), dim)?;
    let mut t = x;
    t.double();
    chk("double", t, &fa.iter().map(|v| gl::add(*v, *v)).collect::<Vec<_>>(), dim)?;
    let mut t = x;
    t.square();
    chk("square", t, &gl::polmulmod(&fa, &fa, F::RED), dim)?;
    let zero = fa.iter().all(|v| *v == 0);
    ensure_eq!(x.is_zero(), zero, "is_zero");
    if !zero {
        let i = x.inv();
        let mut one = vec![0; n];
        one[0] = 1;
        ensure_eq!(gl::polmulmod(&i.coords(), &fa, F::RED), one, "a^-1 * a");
        ensure_eq!(i.dim(), dim, "dimension of the inverse");
        ensure_eq!(x.inverse(), Some(i), "inverse()");
    }
    // square-and-multiply from the low end, on the reference
    let mut want = vec![0; n];
    want[0] = 1;
    let (mut b, mut k2) = (fa.clone(), e);
    while k2 > 0 {
        if k2 & 1 == 1 {
            want = gl::polmulmod(&want, &b, F::RED);
        }
        b = gl::polmulmod(&b, &b, F::RED);
        k2 >>= 1;
    }
    ensure_eq!(x.exp(e as usize).coords(), want, "exp({e})");
    chk("mul_scalar", x.mul_scalar(k as usize), &fa.iter().map(|v| gl::mul(*v, k)).collect::<Vec<_>>(), dim)?;
    // conversions
    ensure_eq!(x.as_elements().iter().map(|v| v.as_int()).collect::<Vec<_>>(), a.to_vec(), "as_elements");
    ensure_eq!(x.as_int(), a[0], "as_int");
    ensure_eq!(x.dim(), dim, "dim");
    if dim == 1 {
        ensure_eq!(x.to_be().as_int(), a[0], "to_be");
        ensure_eq!(F::from(fr(a[0])), x, "From<Fr>");
        ensure_eq!(F::from(a[0]), x, "From<u64>");
        ensure_eq!(F::from(a[0] as usize), x, "From<usize>");
        ensure_eq!(format!("{x}"), a[0].to_string(), "display");
    } else {
        ensure_eq!(F::from_vec(x.as_elements()), x, "from_vec(as_elements)");
        let want = format!("[{}]", a.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
        ensure_eq!(format!("{x}"), want, "display");
    }
    let js = serde_json::to_value(x).map_err(|e| e.to_string())?;
    let want = if dim == 1 { serde_json::json!(a[0].to_string()) } else { serde_json::json!(a.iter().map(|v| v.to_string()).collect::<Vec<_>>()) };
    ensure_eq!(js, want, "JSON form");
    let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    let back: F = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    ensure_eq!(back, x, "JSON round trip");
    ensure_eq!(x.as_bytes().len(), 8 * dim, "as_bytes length");
    let want: Vec<u8> = a.iter().flat_map(|v| gl::to_mont(*v).to_le_bytes()).collect();
    ensure_eq!(x.as_bytes().to_vec(), want, "as_bytes");
    Ok(())
}

fn constants<F: Ext>() -> Result<(), Fail> {
    let zero = vec![0u64; F::N];
    let mut one = zero.clone();
    one[0] = 1;
    chk("ZERO", F::ZERO, &zero, 1)?;
    chk("ONE", F::ONE, &one, 1)?;
    chk("ZEROS", F::ZEROS, &zero, F::N)?;
    chk("ONES", F::ONES, &one, F::N)?;
    chk("zero()", F::zero(), &zero, F::N)?;
    chk("one()", F::one(), &one, F::N)?;
    Ok(())
}

fn batch<F: Ext>(v: &[Vec<u64>], x: &[u64], init: &[u64]) -> Result<(), Fail> {
    let n = F::N;
    let elems: Vec<F> = v.iter().map(|e| F::build(e)).collect();
    let nz: Vec<F> = elems.iter().filter(|e| !e.is_zero()).cloned().collect();
    let inv = batch_inverse(&nz);
    ensure_eq!(inv.len(), nz.len(), "batch_inverse length");
    let mut one = vec![0; n];
    one[0] = 1;
    for (i, (a, b)) in nz.iter().zip(&inv).enumerate() {
        ensure_eq!(gl::polmulmod(&a.coords(), &b.coords(), F::RED), one, "batch_inverse[{i}] * element");
    }
    // eval_pol and pol_mul_axi
    let fx = full(x, n);
    let mut want = vec![0u64; n];
    for e in v.iter().rev() {
        let t = gl::polmulmod(&want, &fx, F::RED);
        let fe = full(e, n);
        want = (0..n).map(|i| gl::add(t[i], fe[i])).collect();
    }
    ensure_eq!(eval_pol(&elems, &F::build(x)).coords(), want, "eval_pol");
    let mut p = elems.clone();
    pol_mul_axi(&mut p, F::build(init), &F::build(x));
    let mut r = full(init, n);
    for (i, e) in v.iter().enumerate() {
        ensure_eq!(p[i].coords(), gl::polmulmod(&full(e, n), &r, F::RED), "pol_mul_axi[{i}]");
        r = gl::polmulmod(&r, &fx, F::RED);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("f3_binary", 1_000_000, 10_000_000)
        .rule("two elements of dimension 1 or 3 with boundary-biased and zero coordinates; trivial when both have dimension 1")
        .run(
            |s| (elem::<3>(s), elem::<3>(s)),
            |(a, b), info| {
                if a.len() + b.len() == 2 {
                    info.trivial();
                }
                info.class(format!("{}x{}", a.len(), b.len()));
                binary::<F3G>(a, b)
            },
        );
    ctx.sub("f3_shared", 300_000, 4_000_000)
        .rule("two elements that share coordinates (ties in comparisons); trivial when equal")
        .run(
            |s| {
                let a = elem::<3>(s);
                let b = a.iter().map(|v| if s.bool() { *v } else { val(s) }).collect::<Vec<_>>();
                (a, b)
            },
            |(a, b), info| {
                if a == b {
                    info.trivial();
                }
                binary::<F3G>(a, b)
            },
        );
    ctx.sub("f3_unary", 300_000, 4_000_000).rule("one element, an exponent and a scalar; trivial at dimension 1").run(
        |s| (elem::<3>(s), s.edgy_u64(&[]), s.gl()),
        |(a, e, k), info| {
            if a.len() == 1 {
                info.trivial();
            }
            constants::<F3G>()?;
            unary::<F3G>(a, *e, *k)
        },
    );
    ctx.sub("f5_binary", 500_000, 4_000_000)
        .rule("two elements of dimension 1 or 5; trivial when both have dimension 1")
        .run(
            |s| (elem::<5>(s), elem::<5>(s)),
            |(a, b), info| {
                if a.len() + b.len() == 2 {
                    info.trivial();
                }
                info.class(format!("{}x{}", a.len(), b.len()));
                binary::<F5G>(a, b)
            },
        );
    ctx.sub("f5_shared", 300_000, 4_000_000)
        .rule("two elements that share coordinates (ties in comparisons); trivial when equal")
        .risky()
        .run(
            |s| {
                let a = elem::<5>(s);
                let b = a.iter().map(|v| if s.bool() { *v } else { val(s) }).collect::<Vec<_>>();
                (a, b)
            },
            |(a, b), info| {
                if a == b {
                    info.trivial();
                }
                binary::<F5G>(a, b)
            },
        );
    ctx.sub("f5_unary", 200_000, 2_000_000).rule("one element, an exponent and a scalar; trivial at dimension 1").run(
        |s| (elem::<5>(s), s.edgy_u64(&[]), s.gl()),
        |(a, e, k), info| {
            if a.len() == 1 {
                info.trivial();
            }
            constants::<F5G>()?;
            unary::<F5G>(a, *e, *k)
        },
    );
    ctx.sub("f3_batch", 40_000, 400_000).rule("0 to 40 elements of mixed dimension and a point; trivial below two elements").run(
        |s| (s.vec(0, 40, elem::<3>), elem::<3>(s), elem::<3>(s)),
        |(v, x, i), info| {
            if v.len() < 2 {
                info.trivial();
            }
            batch::<F3G>(v, x, i)
        },
    );
    ctx.sub("f5_batch", 20_000, 200_000).rule("0 to 20 elements of mixed dimension and a point; trivial below two elements").run(
        |s| (s.vec(0, 20, elem::<5>), elem::<5>(s), elem::<5>(s)),
        |(v, x, i), info| {
            if v.len() < 2 {
                info.trivial();
            }
            batch::<F5G>(v, x, i)
        },
    );
}
