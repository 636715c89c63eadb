//! H01: Poseidon of the three back ends against plain descriptions.
use crate::conv::{conv, gint, gvec, scalar, Kind};
use href::{Bls, Bn};
use starky::poseidon_opt::Poseidon;
use vh::{ensure, ensure_eq, Ctx};

fn state(s: &mut vh::Src, n: usize) -> Vec<u64> {
    match s.weighted(&[1, 2, 3]) {
        0 => {
            let v = s.gl();
            vec![v; n]
        }
        1 => s.many(n, |s| if s.chance(2, 3) { 0 } else { s.gl() }),
        _ => s.many(n, |s| s.gl()),
    }
}

fn wide<S: Kind>(ctx: &mut Ctx) {
    ctx.sub(&format!("{}_perm", S::NAME), 20_000, 300_000)
        .rule("1..16 inputs (each width), boundary and uniform scalars, non-zero capacity, 1..t outputs; trivial when every input is zero")
        .run(
            |s| {
                let n = s.range(1, 16);
                let same = s.chance(1, 6);
                let inp: Vec<S::F> = if same {
                    let v = scalar::<S>(s);
                    vec![v; n]
                } else {
                    s.many(n, |s| scalar::<S>(s))
                };
                let init = if s.chance(1, 2) { href::reduce([0; 4]) } else { scalar::<S>(s) };
                (inp, init, s.range(1, n + 1))
            },
            |(inp, init, out), info| {
                use ff::Field;
                info.class(format!("t={}", inp.len() + 1));
                if inp.iter().all(|x| x.is_zero()) && init.is_zero() {
                    info.trivial();
                }
                let ci: Vec<S::Code> = inp.iter().map(conv).collect();
                let cinit: S::Code = conv(init);
                let want = href::perm::<S>(inp, init);
                let got = S::hash_ex(&ci, &cinit, *out)?;
                let got: Vec<S::F> = got.iter().map(conv).collect();
                ensure_eq!(got, want[..*out].to_vec(), "hash_ex of {} inputs, {out} outputs", inp.len());
                let h: S::F = conv(&S::hash(&ci, &cinit)?);
                ensure_eq!(h, want[S::OUT], "hash of {} inputs", inp.len());
                Ok(())
            },
        );
    ctx.sub(&format!("{}_sizes", S::NAME), 1_000, 5_000)
        .rule("0 or more than 16 inputs must be refused; all cases count")
        .run(
            |s| {
                let n = if s.chance(1, 4) { 0 } else { s.range(17, 40) };
                s.many(n, |s| scalar::<S>(s))
            },
            |inp, _| {
                let ci: Vec<S::Code> = inp.iter().map(conv).collect();
                let zero: S::Code = conv(&href::reduce::<S::F>([0; 4]));
                ensure!(S::hash(&ci, &zero).is_err(), "hash accepted {} inputs", inp.len());
                ensure!(S::hash_ex(&ci, &zero, 1).is_err(), "hash_ex accepted {} inputs", inp.len());
                Ok(())
            },
        );
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("GL_perm", 200_000, 4_000_000)
        .rule("12-element states: equal, sparse, boundary and uniform elements, 1..12 outputs; trivial when the state is all zero")
        .run(
            |s| (state(s, 12), s.range(1, 12)),
            |(st, out), info| {
                if st.iter().all(|x| *x == 0) {
                    info.trivial();
                }
                let got = Poseidon::new().hash(&gvec(&st[..8]), &gvec(&st[8..]), *out).map_err(|e| e.to_string())?;
                let want = href::gl_hash(&st[..8], &st[8..]);
                ensure_eq!(gint(&got), want[..*out].to_vec(), "Poseidon, {out} outputs");
                for (g, w) in got.iter().zip(&want) {
                    ensure_eq!(g.0 .0[0], vh::gl::to_mont(*w), "canonical representation");
                }
                Ok(())
            },
        );
    ctx.sub("GL_sizes", 2_000, 10_000)
        .rule("rate or capacity of another length must be refused; all cases count")
        .run(
            |s| {
                let n = s.range(0, 13);
                let c = if n == 8 { *s.pick(&[0usize, 1, 2, 3, 5, 6, 8]) } else { s.range(0, 6) };
                (state(s, n), state(s, c))
            },
            |(i, c), _| {
                ensure!(Poseidon::new().hash(&gvec(i), &gvec(c), 4).is_err(), "accepted {} inputs and {} capacity elements", i.len(), c.len());
                Ok(())
            },
        );
    wide::<Bn>(ctx);
    wide::<Bls>(ctx);
    ctx.assume("reference: round constants of the 256-bit fields from the Grain generator of the Poseidon reference implementation (alpha variant for BN128; the Neptune variant with the Cauchy matrix 1/(i+t+j) for BLS12381); Goldilocks constants embedded as published");
}
