//! R01: gates of three wires that stand for rank-one constraints.
use crate::sys::*;
use algebraic::circom_circuit::R1CS;
use fields::field_gl::{Fr as FGL, GL};
use recursion::r1cs2plonk::{r1cs2plonk, PlonkGate};
use vh::gl::{add, mul};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

fn to_r1cs(s: &Sys) -> R1CS<GL> {
    let l = |l: &Lc| l.iter().map(|(i, c)| (*i, FGL::from(*c))).collect::<Vec<_>>();
    R1CS {
        num_inputs: 1 + s.n_pub(),
        num_aux: s.n_wires - 1 - s.n_pub(),
        num_variables: s.n_wires,
        num_outputs: s.n_out,
        constraints: s.cons.iter().map(|[a, b, c]| (l(a), l(b), l(c))).collect(),
        custom_gates: vec![],
        custom_gates_uses: vec![],
    }
}
fn residue(g: &PlonkGate, w: &[u64]) -> u64 {
    let (a, b, c) = (w[g.0], w[g.1], w[g.2]);
    let q = [g.3, g.4, g.5, g.6, g.7].map(|x| x.as_int());
    [mul(q[0], mul(a, b)), mul(q[1], a), mul(q[2], b), mul(q[3], c), q[4]].into_iter().fold(0, add)
}
#[derive(Debug, Clone)]
struct Case {
    sys: Sys,
    w: Vec<Vec<u64>>,
    hit: (usize, u64),
}
fn gen(big: usize) -> impl Fn(&mut Src) -> Case {
    move |s| {
        let (sys, w) = gen_sys(s, 6, big, 0);
        let mut ws = vec![w.clone()];
        for _ in 0..4 {
            ws.push(alter(s, &w));
        }
        let mut r = vec![1];
        r.extend(s.many(w.len() - 1, |s| s.gl()));
        ws.push(r);
        Case { sys, w: ws, hit: (s.usize(1 << 20), s.gl()) }
    }
}
/// The same from a seed: thousands of constraints over thousands of wires.
fn gen_large(s: &mut Src) -> Case {
    let most = *s.pick(&[300, 1000, 3000, 8000]);
    let mut q = Src::random(s.u64());
    let (sys, w) = gen_sys(&mut q, 60, most, 0);
    let mut ws = vec![w.clone()];
    for _ in 0..3 {
        ws.push(alter(&mut q, &w));
    }
    Case { sys, w: ws, hit: (q.usize(1 << 20), q.gl()) }
}
fn check(c: &Case, i: &mut Info) -> Res {
    let r = to_r1cs(&c.sys);
    let (gates, adds) = guard(|| r1cs2plonk(&r))?;
    let n = c.sys.n_wires;
    if c.sys.cons.is_empty() {
        i.trivial();
    }
    if !adds.is_empty() {
        i.class("auxiliary wires");
    }
    for (k, a) in adds.iter().enumerate() {
        ensure!(a.0 < n + k && a.1 < n + k, "addition {k} of {} wires uses {} and {}", n, a.0, a.1);
    }
    let all = n + adds.len();
    for (k, g) in gates.iter().enumerate() {
        ensure!(g.0 < all && g.1 < all && g.2 < all, "gate {k} uses a wire beyond {all}: {g}");
    }
    for (k, w) in c.w.iter().enumerate() {
        let mut e = w.clone();
        for a in &adds {
            let v = add(mul(e[a.0], a.2.as_int()), mul(e[a.1], a.3.as_int()));
            e.push(v);
        }
        let want = c.sys.cons_hold(w);
        let bad = gates.iter().position(|g| residue(g, &e) != 0);
        if k == 0 {
            ensure!(want, "harness: assignment does not satisfy");
        } else {
            i.class(if want { "another assignment, satisfying" } else { "violating" });
        }
        match (want, bad) {
            (true, Some(g)) => ensure!(false, "assignment {k} satisfies the system and violates gate {g}: {}", gates[g]),
            (false, None) => ensure!(false, "assignment {k} violates the system and satisfies all gates"),
            _ => {}
        }
        i.evals(1);
        // the value of an auxiliary wire is determined
        if want && !adds.is_empty() {
            let at = n + c.hit.0 % adds.len();
            let mut f = e.clone();
            f[at] = if f[at] == c.hit.1 { add(c.hit.1, 1) } else { c.hit.1 };
            ensure!(
                gates.iter().any(|g| residue(g, &f) != 0),
                "auxiliary wire {at} may take another value than that of its definition"
            );
            ensure_eq!(f.len(), e.len(), "");
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("the wires of a linear combination are distinct, as circom writes them");
    ctx.sub("small", 400_000, 8_000_000).rule("at least one constraint").run(gen(3), check);
    ctx.sub("systems", 60_000, 2_000_000).rule("at least one constraint").run(gen(30), check);
    ctx.sub("large_systems", 1_000, 10_000).shrink(20).rule("up to 8000 constraints; at least one").run(gen_large, check);
}
