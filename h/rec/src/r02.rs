//! R02: what the rows of the compressor's PIL say.
use crate::comp::*;
use crate::sys::*;
use vh::gl::add;
use vh::{ensure, ensure_eq, Ctx, Info, Res, Src};

#[derive(Debug, Clone)]
struct Case {
    sys: Sys,
    w: Vec<u64>,
    /// (wire, amount)
    hits: Vec<(usize, u64)>,
    free: u64,
}
fn finish(s: &mut Src, sys: Sys, w: Vec<u64>) -> Case {
    let hits = s.many(6, |s| (s.usize(1 << 16), if s.chance(1, 2) { 1 } else { s.gl().max(1) }));
    Case { sys, w, hits, free: s.u64() }
}
/// One use of one gate, all of its signals different wires.
fn gen_gate(s: &mut Src) -> Case {
    let k = match s.weighted(&[3, 3, 4, 1]) {
        0 => Kind::CMulAdd,
        1 => Kind::EvPol,
        2 => {
            let t = *s.pick(&[4, 2]);
            Kind::Fft([s.gl(), s.gl(), s.gl(), t])
        }
        _ => Kind::Poseidon,
    };
    let n_pub = s.usize(4);
    let mut w = vec![1];
    w.extend(s.many(n_pub, |s| s.gl()));
    let f: Vec<u64> = s.many(k.arity().1, |s| s.gl());
    let base = w.len();
    w.extend(&f);
    w.extend(k.apply(&f));
    let sig = (base..w.len()).collect();
    // a constraint, so that the system is not empty otherwise
    let sys = Sys { n_in: n_pub, n_wires: w.len(), gates: vec![k], uses: vec![(0, sig)], ..Default::default() };
    finish(s, sys, w)
}
/// Products of two wires with factors and constants, two of each shape, on wires of their own.
fn gen_plonk(s: &mut Src) -> Case {
    let n_pub = s.usize(4);
    let mut w = vec![1];
    w.extend(s.many(n_pub, |s| s.gl()));
    let mut cons = vec![];
    for _ in 0..s.range(1, 4) {
        let q: Vec<u64> = s.many(6, |s| s.gl().max(1));
        let con = s.many(3, |s| s.chance(1, 2));
        for _ in 0..s.range(1, 4) {
            let b = w.len();
            w.extend(s.many(2, |s| s.gl()));
            let mut c = [vec![(b, q[0])], vec![(b + 1, q[1])], vec![]];
            for k in 0..3 {
                if con[k] {
                    c[k].push((0, q[3 + k]));
                }
            }
            let d = vh::gl::sub(vh::gl::mul(lc(&c[0], &w), lc(&c[1], &w)), lc(&c[2], &w));
            c[2].push((b + 2, q[2]));
            w.push(vh::gl::mul(d, vh::gl::inv(q[2])));
            cons.push(c);
        }
    }
    let sys = Sys { n_in: n_pub, n_wires: w.len(), cons, ..Default::default() };
    finish(s, sys, w)
}
/// Publics alone.
fn gen_public(s: &mut Src) -> Case {
    let n_in = s.usize(30);
    let n_out = s.usize(12);
    let mut w = vec![1];
    w.extend(s.many(n_in + n_out, |s| s.gl()));
    let mut sys = Sys { n_in, n_out, n_wires: w.len(), ..Default::default() };
    if w.len() > 1 && s.chance(3, 4) {
        let mut c = [gen_lc(s, w.len()), gen_lc(s, w.len()), vec![]];
        settle(&mut c, &w);
        sys.cons.push(c);
    }
    finish(s, sys, w)
}
fn check(c: &Case, i: &mut Info) -> Res {
    let comp = match setup(&c.sys, 0)? {
        Ok(s) => s,
        Err(m) => return Err(format!("setup refuses a system: {m}").into()),
    };
    i.class(c.sys.gates.first().map_or("plonk", |k| k.name()));
    if c.w.len() == 1 {
        i.trivial();
    }
    let mut r = vh::Rng::new(c.free);
    let e = comp.extend(&c.w);
    ensure!(c.sys.holds(&c.w), "harness: assignment does not satisfy");
    let cm = comp.trace(&e, || 0);
    let publics = comp.public_values(&cm)?;
    ensure_eq!(publics.len(), c.sys.n_pub(), "publics");
    if let Some(v) = comp.violated(&cm, publics.clone()) {
        ensure!(false, "a row of the operation violates its gate: {v}");
    }
    // what is not wired does not matter
    let cm2 = comp.trace(&e, || r.next() % vh::GL_P);
    if let Some(v) = comp.violated(&cm2, comp.public_values(&cm2)?) {
        ensure!(false, "a cell that is not wired matters: {v}");
    }
    for (at, d) in &c.hits {
        if c.w.len() < 2 {
            break;
        }
        let mut w = c.w.clone();
        let at = 1 + at % (w.len() - 1);
        w[at] = add(w[at], *d);
        let cm = comp.trace(&comp.extend(&w), || if c.free % 2 == 0 { 0 } else { r.next() % vh::GL_P });
        i.evals(1);
        let got = comp.violated(&cm, comp.public_values(&cm)?);
        let want = c.sys.holds(&w);
        if want {
            ensure!(got.is_none(), "wire {at} may change, but {}", got.unwrap());
        } else {
            ensure!(got.is_some(), "wire {at} of a gate changed by {d} and no row notices");
        }
        // the announced value is that of the cell
        if at <= c.sys.n_pub() {
            ensure!(comp.violated(&cm, publics.clone()).is_some(), "a public value other than that of its cell is accepted (public {at})");
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("PIL text is read by a stand-in for powdr's analyser (stubs/powdr)");
    ctx.assume("the operations of the custom gates are those of the circom templates they are named after");
    ctx.sub("gates", 10_000, 200_000).rule("at least one wire").risky().run(gen_gate, check);
    ctx.sub("plonk", 8_000, 150_000).rule("at least one wire").risky().run(gen_plonk, check);
    ctx.sub("publics", 4_000, 60_000).rule("at least one wire").risky().run(gen_public, check);
}
