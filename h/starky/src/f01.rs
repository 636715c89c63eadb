//! F01: Goldilocks arithmetic against integers modulo p (u128 reference).
use fields::field_gl::{Fr, FrRepr, GL as _GlEngine};
use fields::{Field, LegendreSymbol, PrimeField, PrimeFieldRepr, SqrtField};
use vh::gl;
use vh::{ensure, ensure_eq, guard, Ctx, Src, GL_P, GL_SPECIAL};

/// A field value as its canonical integer; half of the edge cases are edges of the Montgomery limb.
pub fn val(s: &mut Src) -> u64 {
    let v = s.gl();
    if s.chance(1, 3) {
        gl::from_mont(v)
    } else {
        v
    }
}
pub fn fr(v: u64) -> Fr {
    // independent of From<u64>: through the raw Montgomery limb
    Fr(FrRepr([gl::to_mont(v)]))
}
fn chk(name: &str, got: Fr, want: u64) -> Result<(), vh::Fail> {
    ensure!(got.0 .0[0] < GL_P, "{name}: result limb {:#x} is not canonical", got.0 .0[0]);
    ensure_eq!(got.0 .0[0], gl::to_mont(want), "{name}: limb (expected value {want})");
    ensure_eq!(got.as_int(), want, "{name}");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let _ = std::marker::PhantomData::<_GlEngine>;
    ctx.sub("binary_ops", 3_000_000, 60_000_000)
        .rule("two operands, boundary biased in canonical and Montgomery form; trivial when both are below 2")
        .run(
            |s| (val(s), val(s)),
            |&(a, b), info| {
                if a < 2 && b < 2 {
                    info.trivial();
                }
                if a as u128 + b as u128 >= GL_P as u128 {
                    info.class("sum wraps");
                }
                if a < b {
                    info.class("difference wraps");
                }
                let (x, y) = (fr(a), fr(b));
                chk("a+b", x + y, gl::add(a, b))?;
                chk("a-b", x - y, gl::sub(a, b))?;
                chk("a*b", x * y, gl::mul(a, b))?;
                let mut t = x;
                t.add_assign(&y);
                chk("add_assign", t, gl::add(a, b))?;
                let mut t = x;
                t.sub_assign(&y);
                chk("sub_assign", t, gl::sub(a, b))?;
                let mut t = x;
                t.mul_assign(&y);
                chk("mul_assign", t, gl::mul(a, b))?;
                if b != 0 {
                    chk("a/b", x / y, gl::mul(a, gl::inv(b)))?;
                }
                ensure_eq!(x == y, a == b, "equality of {a} and {b}");
                ensure_eq!(x.cmp(&y), a.cmp(&b), "order of {a} and {b}");
                ensure_eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "partial order of {a} and {b}");
                ensure_eq!(x < y, a < b, "{a} < {b}");
                Ok(())
            },
        );

    ctx.sub("unary_ops", 1_000_000, 20_000_000)
        .rule("one operand, boundary biased in canonical and Montgomery form; trivial when below 2")
        .run(
            |s| val(s),
            |&a, info| {
                if a < 2 {
                    info.trivial();
                }
                let x = fr(a);
                chk("value", x, a)?;
                chk("-a", -x, gl::neg(a))?;
                let mut t = x;
                t.negate();
                chk("negate", t, gl::neg(a))?;
                let mut t = x;
                t.double();
                chk("double", t, gl::add(a, a))?;
                let mut t = x;
                t.square();
                chk("square", t, gl::mul(a, a))?;
                let mut t = x;
                t.frobenius_map(1);
                chk("frobenius_map", t, a)?;
                ensure_eq!(x.is_zero(), a == 0, "is_zero");
                match x.inverse() {
                    None => ensure!(a == 0, "no inverse of {a}"),
                    Some(i) => {
                        if a != 0 {
                            chk("inverse", i, gl::inv(a))?;
                            ensure_eq!(i * x, Fr::one(), "a * a^-1");
                        } else {
                            // documented special case of this code base: the inverse of zero is zero
                            chk("inverse of zero", i, 0)?;
                        }
                    }
                }
                Ok(())
            },
        );

    ctx.sub("powers", 200_000, 2_000_000)
        .rule("base and 64-bit exponent, boundary biased; multi-limb exponents for pow; trivial when the base is below 2")
        .run(
            |s| (val(s), s.edgy_u64(&GL_SPECIAL), s.vec(0, 3, |s| s.edgy_u64(&[])), s.edgy_u64(&[])),
            |(a, e, limbs, e2), info| {
                if *a < 2 {
                    info.trivial();
                }
                let x = fr(*a);
                let want = if *e == 0 { 1 } else { gl::pow(*a, *e) };
                chk("exp", x.exp(*e), want)?;
                chk("pow", x.pow([*e]), want)?;
                // pow with any number of limbs, least significant first
                let mut want = 1u64;
                for l in limbs.iter().rev() {
                    for i in (0..64).rev() {
                        want = gl::mul(want, want);
                        if l >> i & 1 == 1 {
                            want = gl::mul(want, *a);
                        }
                    }
                }
                chk("pow limbs", x.pow(limbs), want)?;
                if let Some(s) = e.checked_add(*e2) {
                    ensure_eq!(x.exp(*e) * x.exp(*e2), x.exp(s), "exponents add up");
                }
                Ok(())
            },
        );

    ctx.sub("sqrt", 40_000, 1_000_000)
        .rule("one operand, a square half of the time; trivial when below 2")
        .run(
            |s| {
                let v = val(s);
                if s.bool() {
                    gl::mul(v, v)
                } else {
                    v
                }
            },
            |&a, info| {
                if a < 2 {
                    info.trivial();
                }
                let x = fr(a);
                let euler = gl::pow(a, (GL_P - 1) / 2);
                let leg = x.legendre();
                let want = match euler {
                    0 => LegendreSymbol::Zero,
                    1 => LegendreSymbol::QuadraticResidue,
                    _ => LegendreSymbol::QuadraticNonResidue,
                };
                ensure_eq!(leg, want, "legendre({a})");
                match x.sqrt() {
                    None => ensure!(euler != 0 && euler != 1, "no root of the square {a}"),
                    Some(r) => {
                        ensure!(r.0 .0[0] < GL_P, "root is not canonical");
                        ensure_eq!(gl::mul(r.as_int(), r.as_int()), a, "sqrt({a})^2");
                        info.class("square");
                    }
                }
                Ok(())
            },
        );

    ctx.sub("conversions", 400_000, 6_000_000)
        .rule("a 64-bit integer, boundary biased around p and 2^64; trivial when below 2")
        .run(
            |s| (s.edgy_u64(&GL_SPECIAL), s.edgy_u64(&GL_SPECIAL)),
            |&(v, hi), info| {
                if v < 2 {
                    info.trivial();
                }
                let ok = v < GL_P;
                info.class(if ok { "in field" } else { "out of field" });
                // checked constructors
                let r = Fr::from_repr(FrRepr([v]));
                ensure_eq!(r.is_ok(), ok, "from_repr({v}) accepts");
                if let Ok(r) = r {
                    chk("from_repr", r, v)?;
                    ensure_eq!(r.into_repr(), FrRepr([v]), "into_repr");
                    ensure_eq!(FrRepr::from(r), FrRepr([v]), "FrRepr::from");
                    chk("From<u64>", Fr::from(v), v)?;
                    ensure_eq!(format!("{r}"), format!("Fr({v:#018x})"), "display");
                    ensure_eq!(format!("{r:?}"), format!("Fr({v:#018x})"), "debug");
                    let js = serde_json::to_string(&r).map_err(|e| e.to_string())?;
                    let back: Fr = serde_json::from_str(&js).map_err(|e| e.to_string())?;
                    ensure_eq!(back, r, "JSON round trip of {v}");
                } else {
                    ensure!(guard(|| Fr::from(v)).is_err(), "From<u64> takes {v} >= p");
                }
                let r = Fr::from_raw_repr(FrRepr([v]));
                ensure_eq!(r.is_ok(), ok, "from_raw_repr({v}) accepts");
                if let Ok(r) = r {
                    ensure_eq!(r.into_raw_repr(), FrRepr([v]), "into_raw_repr");
                    ensure_eq!(u64::from(r), v, "u64::from gives the raw limb");
                    chk("from_raw_repr", r, gl::from_mont(v))?;
                }
                // decimal strings denote integers modulo p
                chk("from_str", Fr::from_str(&v.to_string()).ok_or("from_str refuses a decimal")?, v % GL_P)?;
                let wide = (hi as u128) << 64 | v as u128;
                chk("from_str wide", Fr::from_str(&wide.to_string()).ok_or("from_str refuses a decimal")?, (wide % GL_P as u128) as u64)?;
                for bad in [format!("{v}x"), format!("-{v}"), format!(" {v}"), format!("0x{v:x}"), format!("{v}."), String::new()] {
                    ensure!(Fr::from_str(&bad).is_none(), "from_str accepts {bad:?}");
                }
                Ok(())
            },
        );

    ctx.sub("repr_ops", 400_000, 6_000_000)
        .rule("two 64-bit words and a shift; sums and doublings only where they fit the word, as the trait requires")
        .run(
            |s| (s.edgy_u64(&GL_SPECIAL), s.edgy_u64(&GL_SPECIAL), s.below(140) as u32),
            |&(a, b, n), info| {
                if a < 2 && b < 2 {
                    info.trivial();
                }
                let (x, y) = (FrRepr([a]), FrRepr([b]));
                ensure_eq!(FrRepr::from(a), x, "from u64");
                ensure_eq!(x.num_bits(), 64 - a.leading_zeros(), "num_bits({a:#x})");
                ensure_eq!(x.is_odd(), a & 1 == 1, "is_odd");
                ensure_eq!(x.is_even(), a & 1 == 0, "is_even");
                ensure_eq!(x.is_zero(), a == 0, "is_zero");
                ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp");
                ensure_eq!(x == y, a == b, "eq");
                let mut t = x;
                t.shl(n);
                ensure_eq!(t.0[0], if n < 64 { a << n } else { 0 }, "{a:#x} << {n}");
                let mut t = x;
                t.shr(n);
                ensure_eq!(t.0[0], if n < 64 { a >> n } else { 0 }, "{a:#x} >> {n}");
                let mut t = x;
                t.div2();
                ensure_eq!(t.0[0], a >> 1, "div2");
                if a >> 63 == 0 {
                    let mut t = x;
                    t.mul2();
                    ensure_eq!(t.0[0], a << 1, "mul2");
                }
                if let Some(sum) = a.checked_add(b) {
                    let mut t = x;
                    t.add_nocarry(&y);
                    ensure_eq!(t.0[0], sum, "add_nocarry");
                }
                if a >= b {
                    let mut t = x;
                    t.sub_noborrow(&y);
                    ensure_eq!(t.0[0], a - b, "sub_noborrow");
                }
                let mut buf = vec![];
                x.write_be(&mut buf).map_err(|e| e.to_string())?;
                ensure_eq!(buf, a.to_be_bytes().to_vec(), "write_be");
                let mut t = FrRepr([b]);
                t.read_be(&buf[..]).map_err(|e| e.to_string())?;
                ensure_eq!(t, x, "read_be");
                let mut buf = vec![];
                x.write_le(&mut buf).map_err(|e| e.to_string())?;
                ensure_eq!(buf, a.to_le_bytes().to_vec(), "write_le");
                let mut t = FrRepr([b]);
                t.read_le(&buf[..]).map_err(|e| e.to_string())?;
                ensure_eq!(t, x, "read_le");
                Ok(())
            },
        );

    ctx.sub("programs", 200_000, 2_000_000)
        .rule("a random straight-line program over a growing set of values (state: all results so far), compared after each step")
        .run(
            |s| {
                let init = s.vec(1, 4, val);
                let ops = s.vec(1, 40, |s| (s.below(8), s.below(64), s.below(64)));
                (init, ops)
            },
            |(init, ops), info| {
                let mut m: Vec<u64> = init.clone();
                let mut x: Vec<Fr> = init.iter().map(|v| fr(*v)).collect();
                if ops.len() < 3 {
                    info.trivial();
                }
                for (k, (op, i, j)) in ops.iter().enumerate() {
                    let (i, j) = (*i as usize % m.len(), *j as usize % m.len());
                    let (a, b) = (m[i], m[j]);
                    let (want, got) = match op {
                        0 => (gl::add(a, b), x[i] + x[j]),
                        1 => (gl::sub(a, b), x[i] - x[j]),
                        2 => (gl::mul(a, b), x[i] * x[j]),
                        3 => (gl::neg(a), -x[i]),
                        4 => (gl::add(a, a), {
                            let mut t = x[i];
                            t.double();
                            t
                        }),
                        5 => (gl::mul(a, a), {
                            let mut t = x[i];
                            t.square();
                            t
                        }),
                        6 if b != 0 => (gl::mul(a, gl::inv(b)), x[i] / x[j]),
                        _ => (gl::pow(a, b & 0xff), x[i].exp(b & 0xff)),
                    };
                    chk(&format!("step {k} (op {op})"), got, want)?;
                    m.push(want);
                    x.push(got);
                }
                Ok(())
            },
        );

    ctx.sub("random_and_constants", 20_000, 500_000)
        .rule("the code's own generator, seeded per case; the field constants are checked in every case")
        .run(
            |s| [s.u64() as u32, s.u64() as u32, s.u64() as u32, s.u64() as u32],
            |seed, _| {
                use rand::{Rand, SeedableRng, XorShiftRng};
                let mut sd = *seed;
                sd[0] |= 1;
                let mut rng = XorShiftRng::from_seed(sd);
                for _ in 0..4 {
                    let v = Fr::rand(&mut rng);
                    ensure!(v.0 .0[0] < GL_P, "random element is not canonical: {:#x}", v.0 .0[0]);
                }
                chk("zero", Fr::zero(), 0)?;
                chk("ZERO", Fr::ZERO, 0)?;
                chk("default", Fr::default(), 0)?;
                chk("one", Fr::one(), 1)?;
                chk("ONE", Fr::ONE, 1)?;
                ensure_eq!(Fr::char(), FrRepr([GL_P]), "char");
                ensure_eq!((Fr::NUM_BITS, Fr::CAPACITY, Fr::S), (64, 63, 32), "sizes");
                let g = Fr::multiplicative_generator().as_int();
                for q in [2u64, 3, 5, 17, 257, 65537] {
                    ensure!(gl::pow(g, (GL_P - 1) / q) != 1, "{g} is no generator (prime {q})");
                }
                let w = Fr::root_of_unity().as_int();
                ensure_eq!(gl::pow(w, 1 << 31), GL_P - 1, "order of the root of unity");
                ensure_eq!(w, gl::pow(g, (GL_P - 1) >> 32), "root of unity is g^t");
                Ok(())
            },
        );
}
