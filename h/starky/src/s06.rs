//! S06: the same inputs under other numbers of processors and threads, after other work, and at the same time.
use crate::air::{air, Air, Limits};
use crate::conv::{gint, gvec};
use crate::prover::setup;
use crate::s01::{classify, honest, Backend};
use serde_json::{json, Value};
use starky::f3g::F3G;
use starky::fft::FFT;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{FieldExtension, MTNodeType, MerkleTree};
use vh::{ensure, Ctx, Fail, Info, Res, Src};

#[derive(Debug, Clone)]
struct Env {
    cpus: usize,
    threads: usize,
    /// what happens before, in the same process
    before: Vec<(usize, usize)>,
    /// how many do the same work at the same time
    together: usize,
}
#[derive(Debug, Clone)]
struct Case {
    air: Air,
    other: Air,
    envs: Vec<Env>,
}
/// Restricts the calling thread, and what it spawns, to the first k of the processors it may use.
fn restrict(k: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut all) != 0 {
            return;
        }
        let mut some: libc::cpu_set_t = std::mem::zeroed();
        let mut n = 0;
        for i in 0..libc::CPU_SETSIZE as usize {
            if libc::CPU_ISSET(i, &all) && n < k {
                libc::CPU_SET(i, &mut some);
                n += 1;
            }
        }
        libc::sched_setaffinity(0, size, &some);
    }
}
fn sums<T: Backend>(a: &Air) -> Result<Value, Fail> {
    let p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let proof = honest(&p)?;
    let mut layout = serde_json::to_value(&p.setup.starkinfo).map_err(|e| e.to_string())?;
    // maps that are written as lists of pairs
    if let Some(o) = layout["ev_idx"].as_object_mut() {
        for v in o.values_mut().filter_map(|v| v.as_array_mut()) {
            v.sort_by_key(|p| p.to_string());
        }
    }
    Ok(json!({
        "constant root": gint(p.setup.const_root.as_elements()),
        "program": serde_json::to_value(&p.setup.program).map_err(|e| e.to_string())?,
        "layout": layout,
        "proof": serde_json::to_value(&proof).map_err(|e| e.to_string())?,
    }))
}
fn work(kind: usize, n: usize, other: &Air) {
    let v: Vec<u64> = (0..1u64 << (n % 12 + 1)).map(|i| vh::gl::mul(i, i + n as u64)).collect();
    match kind % 6 {
        0 => {
            let e: Vec<F3G> = gvec(&v).into_iter().map(F3G::from).collect();
            let mut f = FFT::new();
            let c = f.fft(&e);
            f.ifft(&c);
        }
        1 => {
            let bits = n % 12 + 1;
            let mut out = vec![F3G::ZERO; v.len() * 2];
            let e: Vec<F3G> = gvec(&v).into_iter().map(F3G::from).collect();
            starky::fft_p::interpolate(&e, 1, bits, &mut out, bits + 1);
        }
        2 => {
            MerkleTreeGL::default().merkelize(gvec(&v), 1, v.len()).ok();
        }
        3 => {
            vh::guard(|| sums::<MerkleTreeGL>(other)).ok();
        }
        4 => {
            vh::guard(|| sums::<MerkleTreeBN128>(other)).ok();
        }
        _ => {
            // a failing run leaves nothing behind either
            let mut bad = other.clone();
            bad.cm.iter_mut().for_each(|c| c.reverse());
            vh::guard(|| sums::<MerkleTreeGL>(&bad)).ok();
        }
    }
}
fn check<T: Backend>(c: &Case, info: &mut Info) -> Res {
    classify(&c.air, info);
    let want = sums::<T>(&c.air)?;
    for e in &c.envs {
        info.class(format!("{} processors", e.cpus));
        let got: Vec<Result<Value, Fail>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..e.together)
                .map(|i| {
                    s.spawn(move || {
                        restrict(e.cpus);
                        let pool = rayon::ThreadPoolBuilder::new().num_threads(e.threads).build().map_err(|e| Fail::from(e.to_string()))?;
                        pool.install(|| {
                            for (k, n) in &e.before {
                                work(k + i, *n, &c.other);
                            }
                            vh::guard(|| sums::<T>(&c.air)).map_err(Fail::from).and_then(|r| r)
                        })
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panics".into()))).collect()
        });
        for g in got {
            let g = g.map_err(|f| Fail::from(format!("under {e:?}: {}", f.msg)))?;
            for k in ["constant root", "program", "layout", "proof"] {
                ensure!(g[k] == want[k], "the {k} differs under {e:?}: {}", g[k].as_object().map_or(String::new(), |o| o.iter().filter(|(x, v)| want[k][x] != **v).map(|(x, v)| format!("{x}: {v} / {}", want[k][x])).collect()));
            }
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("the number of processors is what the affinity mask of the calling thread allows");
    let case = |l: Limits, hash: &'static str, envs: usize| {
        move |s: &mut Src| {
            let small = Limits { nbits: (2, 4), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 };
            Case {
                air: air(s, &l, hash),
                other: air(s, &small, "GL"),
                envs: s.vec(1, envs, |s| Env {
                    cpus: 1 + s.usize(8),
                    threads: *s.pick(&[1, 2, 3, 5, 8, 16]),
                    before: s.vec(0, 4, |s| (s.usize(6), s.usize(100))),
                    together: if s.chance(1, 4) { 2 } else { 1 },
                }),
            }
        }
    };
    let rule = "random programs under random numbers of processors and threads, after random work; all count";
    let l = Limits { nbits: (2, 7), ext: (1, 3), queries: 8, blocks: 5, min_queries: 1 };
    ctx.sub("GL", 1200, 40_000).rule(rule).run(case(l, "GL", 4), check::<MerkleTreeGL>);
    let l = Limits { nbits: (11, 15), ext: (1, 1), queries: 4, blocks: 3, min_queries: 1 };
    ctx.sub("GL_large", 24, 300).rule("2^11 to 2^15 rows").shards(4).shrink(20).run(case(l, "GL", 2), check::<MerkleTreeGL>);
    let l = Limits { nbits: (2, 4), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 };
    ctx.sub("BN128", 120, 2000).rule(rule).run(case(l, "BN128", 3), check::<MerkleTreeBN128>);
    ctx.sub("BLS12381", 120, 2000).rule(rule).run(case(l, "BLS12381", 3), check::<MerkleTreeBLS12381>);
}
