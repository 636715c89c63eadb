//! A02: witness files.
use crate::sides::*;
use crate::{biguint, dir, measured};
use num_bigint::BigUint;
use serde_json::json;
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

/// A witness file, written from the description of the format.
pub fn write(p: &BigUint, n8: usize, version: u32, vals: &[BigUint]) -> Vec<u8> {
    let mut f = b"wtns".to_vec();
    f.extend(version.to_le_bytes());
    f.extend(2u32.to_le_bytes());
    f.extend(1u32.to_le_bytes());
    f.extend((n8 as u64 + 8).to_le_bytes());
    f.extend((n8 as u32).to_le_bytes());
    f.extend(le_bytes(p, n8));
    f.extend((vals.len() as u32).to_le_bytes());
    f.extend(2u32.to_le_bytes());
    f.extend(((vals.len() * n8) as u64).to_le_bytes());
    for v in vals {
        f.extend(le_bytes(v, n8));
    }
    f
}
fn values<S: Side>(s: &mut Src) -> Vec<BigUint> {
    let most = if s.chance(1, 20) { 300 } else { 12 };
    s.vec(0, most, |s| biguint(s, &S::p()))
}
type Case = (Vec<BigUint>, u32, bool);
fn check<S: Side>((v, version, files): &Case, i: &mut Info) -> Res {
    i.class(S::NAME);
    if v.is_empty() {
        i.trivial();
    }
    let b = write(&S::p(), S::n8(), *version, v);
    ensure_eq!(guard(|| S::wtns_reader(&b))??, *v, "from a reader");
    ensure_eq!(guard(|| S::wtns_array(b.clone()))??, *v, "from an array");
    if *files {
        let d = dir("a02");
        let p = d.path("w.wtns");
        std::fs::write(&p, &b).unwrap();
        ensure_eq!(guard(|| S::wtns_bin_path(&p))?, *v, "from a binary file");
        ensure_eq!(guard(|| S::wtns_path(&p))?, *v, "from a file (binary by its name)");
        let p = d.path("w.json");
        std::fs::write(&p, json!(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).to_string()).unwrap();
        ensure_eq!(guard(|| S::wtns_json_path(&p))?, *v, "from a JSON file");
        ensure_eq!(guard(|| S::wtns_path(&p))?, *v, "from a file (JSON by its name)");
        i.evals(4);
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Bad {
    Cut(usize),
    Byte(usize, u8),
    Version(u32),
    Prime(BigUint),
    Over(usize, BigUint),
    /// another count of values, with the section size of the real ones or of the claimed ones
    Count(u32, bool),
    Size(u64),
}
fn bad<S: Side>(s: &mut Src) -> (Vec<BigUint>, Bad) {
    let (p, n8) = (S::p(), S::n8());
    let v = s.vec(1, 8, |s| biguint(s, &p));
    let full = BigUint::from(1u8) << (8 * n8);
    let k = match s.weighted(&[6, 2, 1, 2, 5, 4, 2]) {
        0 => {
            let n = write(&p, n8, 2, &v).len();
            Bad::Cut(if s.chance(1, 2) { n - 1 - s.usize(n8 * 2) } else { s.usize(n) })
        }
        // magic, number of sections, type and size of the first section, bytes per element
        // and the type of the second section
        1 => Bad::Byte(*s.pick(&[0, 1, 2, 3, 8, 9, 12, 14, 16, 20, 24, 26, 32 + n8, 33 + n8, 35 + n8]), 1 + s.below(255) as u8),
        2 => Bad::Version(*s.pick(&[3, 4, 256, u32::MAX])),
        3 => {
            let others: Vec<_> = [BN, BLS, GLP].into_iter().map(dec).filter(|x| *x != p && *x < full).collect();
            Bad::Prime(match s.usize(1 + !others.is_empty() as usize) {
                1 => s.pick(&others).clone(),
                _ => p.clone() ^ (BigUint::from(1u8) << s.usize(8 * n8)),
            })
        }
        4 => {
            let room = &full - &p;
            let d = match s.usize(3) {
                0 => BigUint::from(s.below(3)),
                1 => biguint(s, &room),
                _ => &room - 1u8,
            };
            Bad::Over(s.usize(v.len()), p + d)
        }
        5 => {
            let n = v.len() as u32;
            let c = match s.usize(5) {
                0 => n - 1 - s.below(n as u64) as u32,
                1 => n + 1 + s.below(3) as u32,
                2 => n.wrapping_add(1 << s.range(20, 31)),
                3 => n.wrapping_add((s.below(31) as u32 + 1) << 27),
                _ => u32::MAX - s.below(3) as u32,
            };
            Bad::Count(c, s.bool())
        }
        _ => Bad::Size(s.edgy_u64(&[(v.len() * n8) as u64, 1 << 32])),
    };
    (v, k)
}
fn check_bad<S: Side>((v, k): &(Vec<BigUint>, Bad), i: &mut Info) -> Res {
    i.class(S::NAME);
    let (p, n8) = (S::p(), S::n8());
    let mut b = write(&p, n8, 2, v);
    let (at_n, at_size) = (28 + n8, 36 + n8);
    match k {
        Bad::Cut(n) => b.truncate(*n),
        Bad::Byte(at, x) => b[*at] ^= x,
        Bad::Version(x) => b = write(&p, n8, *x, v),
        Bad::Prime(q) => b = write(q, n8, 2, v),
        Bad::Over(j, x) => {
            let mut w = v.clone();
            w[*j] = x.clone();
            b = write(&p, n8, 2, &w);
        }
        Bad::Count(c, both) => {
            b[at_n..at_n + 4].copy_from_slice(&c.to_le_bytes());
            if *both {
                if *c as usize <= v.len() {
                    // a shorter witness, and bytes nobody asked for: says nothing
                    i.trivial();
                    return Ok(());
                }
                b[at_size..at_size + 8].copy_from_slice(&(*c as u64 * n8 as u64).to_le_bytes());
            }
        }
        Bad::Size(x) => {
            if *x == (v.len() * n8) as u64 {
                i.trivial();
                return Ok(());
            }
            b[at_size..at_size + 8].copy_from_slice(&x.to_le_bytes());
        }
    }
    i.class(format!("{k:?}").split('(').next().unwrap().to_string());
    for who in 0..2 {
        let (r, most) = measured(|| guard(|| if who == 0 { S::wtns_reader(&b) } else { S::wtns_array(b.clone()) }));
        ensure!(most <= (64 << 20) + 100 * b.len(), "{most} bytes at once for a file of {} bytes", b.len());
        match r {
            Err(e) if e == LOOPS => return Err(e.into()),
            Ok(Ok(w)) => return Err(format!("accepted, as a witness of {} values", w.len()).into()),
            _ => {}
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct BadJson(Vec<BigUint>, usize, &'static str);
fn check_json<S: Side>(BadJson(v, at, bad): &BadJson, i: &mut Info) -> Res {
    i.class(S::NAME);
    let d = dir("a02j");
    let p = d.path("w.json");
    let mut list: Vec<String> = v.iter().map(|x| format!("\"{x}\"")).collect();
    list.insert(*at, bad.to_string());
    std::fs::write(&p, format!("[{}]", list.join(","))).unwrap();
    if let Ok(w) = guard(|| S::wtns_path(&p)) {
        return Err(format!("{bad} accepted, in a witness of {} values", w.len()).into());
    }
    Ok(())
}
fn one<S: Side>(ctx: &mut Ctx) {
    let n = S::NAME.replace('/', "_");
    ctx.sub(&format!("exact_{n}"), 15_000, 500_000)
        .rule("non-trivial when the witness has a value")
        .run(|s| (values::<S>(s), s.range(1, 2) as u32, s.chance(1, 4)), check::<S>);
    ctx.sub(&format!("large_{n}"), 40, 400)
        .shrink(4)
        .rule("up to 150000 values; every case")
        .run(
            |s| {
                let n = *s.pick(&[1000, 32_768, 65_536, 70_000, 150_000]);
                let q = &mut Src::random(s.u64());
                let n = n + q.usize(3);
                ((0..n).map(|_| biguint(q, &S::p())).collect(), 2, true)
            },
            check::<S>,
        );
    ctx.sub(&format!("refused_{n}"), 40_000, 2_000_000)
        .rule("every case but those whose edit leaves the file unchanged or longer than it says")
        .risky()
        .run(bad::<S>, check_bad::<S>);
    ctx.sub(&format!("json_refused_{n}"), 2_000, 50_000)
        .rule("every case has one entry that is no decimal number")
        .run(
            |s| {
                let v = s.vec(0, 5, |s| biguint(s, &S::p()));
                let at = s.usize(v.len() + 1);
                BadJson(v, at, *s.pick::<&str>(&["\"\"", "\"x\"", "\"1.5\"", "\"0x10\"", "\"12 \"", "null", "[\"1\"]", "\"1e3\"", "true"]))
            },
            check_json::<S>,
        );
}
pub fn run(ctx: &mut Ctx) {
    one::<gpu::GpuBls>(ctx);
    one::<gpu::GpuBn>(ctx);
    one::<ce::CeBn>(ctx);
    one::<ce::CeBls>(ctx);
    one::<ce::CeGl>(ctx);
}
