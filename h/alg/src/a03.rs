//! A03: the constraint system given to the SNARK back end.
use crate::a01::{lc, model, model_large, sys, Model};
use crate::biguint;
use crate::sides::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

#[derive(Clone, Debug)]
pub struct Circ {
    pub sys: Sys,
    /// the values the mapping picks from; the wires themselves without a mapping
    pub w: Vec<BigUint>,
    pub map: Option<Vec<usize>>,
    pub pre: Vec<BigUint>,
    /// other assignments of the wires
    pub others: Vec<Vec<BigUint>>,
}
fn dot(l: &Lc, w: &[BigUint], p: &BigUint) -> BigUint {
    l.iter().fold(BigUint::zero(), |a, (i, c)| (a + c * &w[*i]) % p)
}
pub fn holds(s: &Sys, w: &[BigUint], p: &BigUint) -> bool {
    s.cons.iter().all(|[a, b, c]| dot(a, w, p) * dot(b, w, p) % p == dot(c, w, p))
}
pub fn wires(c: &Circ) -> Vec<BigUint> {
    match &c.map {
        None => c.w.clone(),
        Some(m) => m.iter().map(|i| c.w[*i].clone()).collect(),
    }
}
fn circ<S: Side>(s: &mut Src, mapped: bool) -> Circ {
    let m = model(s, S::p(), S::n8(), false);
    circ_of::<S>(s, mapped, m)
}
fn circ_of<S: Side>(s: &mut Src, mapped: bool, m: Model) -> Circ {
    let p = S::p();
    let mut sys = sys(&m);
    let n = sys.n_vars;
    let map = mapped.then(|| {
        let extra = s.usize(4);
        let mut m: Vec<usize> = (0..n).map(|_| 1 + s.usize(n + extra)).collect();
        m[0] = 0;
        m
    });
    let len = map.as_ref().map_or(n, |m| m.iter().max().unwrap() + 1);
    let mut w: Vec<_> = s.many(len, |s| biguint(s, &p));
    w[0] = BigUint::one();
    let pre = if s.chance(1, 3) { s.vec(0, 3, |s| biguint(s, &p)) } else { vec![] };
    let mut c = Circ { sys: sys.clone(), w, map, pre, others: vec![] };
    let ws = wires(&c);
    // most constraints are made to hold through the constant of their right-hand side or through a wire with a value
    for con in sys.cons.iter_mut() {
        if s.chance(1, 5) {
            con[0] = lc(s, &p, n as u32, false);
        }
        match s.weighted(&[8, 1, 1]) {
            0 => {
                let at = if s.bool() { 0 } else { s.usize(n) };
                let at = if ws[at].is_zero() { 0 } else { at };
                con[2].retain(|t| t.0 != at);
                let d = (dot(&con[0], &ws, &p) * dot(&con[1], &ws, &p) + &p - dot(&con[2], &ws, &p)) % &p;
                let k = d * ws[at].modpow(&(&p - 2u8), &p) % &p;
                if !k.is_zero() || s.chance(1, 4) {
                    con[2].push((at, k));
                }
            }
            1 => {
                con[s.usize(2)].clear();
                con[2].clear();
            }
            _ => con[s.usize(3)].clear(),
        }
    }
    c.sys = sys;
    for _ in 0..s.usize(4) {
        let mut o = ws.clone();
        for _ in 0..s.range(1, 2) {
            let i = s.usize(n);
            if i > 0 {
                o[i] = match s.usize(3) {
                    0 => (&o[i] + 1u8) % &p,
                    1 => BigUint::zero(),
                    _ => biguint(s, &p),
                };
            }
        }
        c.others.push(o);
    }
    c
}
fn rec_holds(r: &Rec, inputs: &[BigUint], aux: &[BigUint], p: &BigUint) -> Result<bool, String> {
    let dot = |l: &Vec<((bool, usize), BigUint)>| -> Result<BigUint, String> {
        let mut a = BigUint::zero();
        for ((input, i), c) in l {
            let v = match (*input, *i) {
                (true, 0) => BigUint::one(),
                (true, i) => inputs.get(i - 1).ok_or(format!("public input {i} does not exist"))?.clone(),
                (false, i) => aux.get(i).ok_or(format!("auxiliary variable {i} does not exist"))?.clone(),
            };
            a = (a + c * v) % p;
        }
        Ok(a)
    };
    for [a, b, c] in &r.cons {
        if dot(a)? * dot(b)? % p != dot(c)? {
            return Ok(false);
        }
    }
    Ok(true)
}
fn check<S: Side>(c: &Circ, i: &mut Info) -> Res {
    let p = S::p();
    i.class(S::NAME);
    let ws = wires(c);
    let n_in = c.sys.n_inputs;
    let map = c.map.as_deref();
    let truth = holds(&c.sys, &ws, &p);
    i.class(if truth { "satisfied" } else { "not satisfied" });
    if c.sys.cons.is_empty() {
        i.trivial();
    }
    let r = guard(|| S::synth(&c.sys, &c.w, map, &c.pre))??;
    ensure_eq!(r.inputs, ws[1..n_in], "public inputs of the constraint system");
    ensure!(r.aux[..c.pre.len()] == c.pre[..], "variables of others were changed");
    ensure_eq!(r.aux[c.pre.len()..], ws[n_in..], "auxiliary variables of the constraint system");
    ensure_eq!(rec_holds(&r, &r.inputs, &r.aux, &p)?, truth, "satisfied by the given witness");
    for o in &c.others {
        let aux: Vec<_> = c.pre.iter().chain(&o[n_in..]).cloned().collect();
        ensure_eq!(rec_holds(&r, &o[1..n_in], &aux, &p)?, holds(&c.sys, o, &p), "satisfied by {o:?}");
        i.evals(1);
    }
    // what the key is made for is what the proof is made of
    let k = guard(|| S::shape(&c.sys, map, &c.pre))??;
    ensure_eq!((k.inputs.len(), k.aux.len()), (r.inputs.len(), r.aux.len()), "variables without a witness");
    ensure_eq!(k.cons, r.cons, "constraints without a witness");
    let (v, j) = guard(|| S::publics(&c.sys, Some(&c.w), map))?;
    ensure_eq!(v.as_deref(), Some(&ws[1..n_in]), "reported public inputs");
    let j: Vec<String> = serde_json::from_str(&j).map_err(|e| e.to_string())?;
    ensure_eq!(j, ws[1..n_in].iter().map(|x| x.to_string()).collect::<Vec<_>>(), "reported public inputs as JSON");
    let (v, j) = guard(|| S::publics(&c.sys, None, map))?;
    ensure!(v.is_none() && j == "[]", "public inputs without a witness: {v:?} {j}");
    Ok(())
}

// ------------------------------------------------------------------------------------- a real back end (bellperson)
#[derive(Clone, Debug)]
struct Snark {
    sys: Sys,
    w: Vec<BigUint>,
    /// another value for one public input, and a change of one wire for the prover
    other: Option<(usize, BigUint)>,
    bad: Option<(usize, BigUint)>,
}
fn snark(s: &mut Src) -> Snark {
    type S = gpu::GpuBls;
    let p = S::p();
    let mut c = circ::<S>(s, false);
    let n = c.sys.n_vars;
    let ws = c.w.clone();
    c.sys.cons.retain(|[a, b, l]| dot(a, &ws, &p) * dot(b, &ws, &p) % &p == dot(l, &ws, &p));
    // every wire is used: (sum of random multiples of the wires) * 1 = constant
    let l: Lc = (1..n).map(|i| (i, biguint(s, &p) + 1u8)).map(|(i, c)| (i, c % &p)).filter(|t| !t.1.is_zero()).collect();
    let k = dot(&l, &ws, &p);
    c.sys.cons.push([l, vec![(0, BigUint::one())], vec![(0, k)]]);
    let other = (c.sys.n_inputs > 1).then(|| (1 + s.usize(c.sys.n_inputs - 1), biguint(s, &p)));
    let bad = (n > 1 && s.bool()).then(|| (1 + s.usize(n - 1), biguint(s, &p)));
    Snark { sys: c.sys, w: ws, other, bad }
}
fn check_snark(c: &Snark, i: &mut Info) -> Res {
    use bellperson::groth16::*;
    use blstrs::{Bls12, Scalar};
    type S = gpu::GpuBls;
    let p = S::p();
    let mut rng = rand8::rngs::OsRng;
    let params = match generate_random_parameters::<Bls12, _, _>(S::circuit(&c.sys, None, None, 0), &mut rng) {
        Ok(p) => p,
        Err(e) => {
            // a wire whose coefficients cancel, which the back end does not take
            i.trivial();
            i.class(format!("setup: {e}"));
            return Ok(());
        }
    };
    let vk = prepare_verifying_key(&params.vk);
    let full = S::circuit(&c.sys, Some(&c.w), None, 0);
    let publics: Vec<Scalar> = full.get_public_inputs().unwrap();
    let proof = create_random_proof(full, &params, &mut rng).map_err(|e| format!("proving: {e}"))?;
    ensure!(verify_proof(&vk, &proof, &publics).unwrap_or(false), "an honest proof is rejected");
    if let Some((k, v)) = &c.other {
        let mut q = publics.clone();
        q[*k - 1] = gpu::from(v);
        if q != publics {
            i.class("other public input");
            ensure!(!verify_proof(&vk, &proof, &q).unwrap_or(false), "accepted for another public input {k}");
        }
    }
    if let Some((k, v)) = &c.bad {
        let mut w = c.w.clone();
        w[*k] = v.clone();
        if !holds(&c.sys, &w, &p) {
            i.class("unsatisfying witness");
            let circ = S::circuit(&c.sys, Some(&w), None, 0);
            let q: Vec<Scalar> = circ.get_public_inputs().unwrap();
            if let Ok(Ok(proof)) = guard(|| create_random_proof(circ, &params, &mut rng)) {
                ensure!(!verify_proof(&vk, &proof, &q).unwrap_or(false), "a witness that satisfies nothing is accepted");
            }
        }
    }
    Ok(())
}
fn one<S: Side>(ctx: &mut Ctx) {
    let n = S::NAME.replace('/', "_");
    for mapped in [false, true] {
        ctx.sub(&format!("{}_{n}", if mapped { "mapped" } else { "plain" }), 12_000, 500_000)
            .rule("non-trivial when there is a constraint")
            .run(move |s| circ::<S>(s, mapped), check::<S>);
        ctx.sub(&format!("{}_large_{n}", if mapped { "mapped" } else { "plain" }), 200, 3_000)
            .shrink(4)
            .rule("up to 2000 constraints, 600 publics and 5000 wires; every case")
            .run(
                move |s| {
                    let m = model_large(s, S::p(), S::n8(), &[300, 1000, 5000]);
                    circ_of::<S>(&mut Src::random(s.u64()), mapped, m)
                },
                check::<S>,
            );
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("the bellman_ce constraint-system traits are stand-ins of the same shape; bellperson's are the real ones");
    one::<gpu::GpuBls>(ctx);
    one::<gpu::GpuBn>(ctx);
    one::<ce::CeBn>(ctx);
    one::<ce::CeBls>(ctx);
    ctx.sub("groth16", 1500, 5_000).shrink(40).rule("non-trivial when the back end makes a key").run(snark, check_snark);
}
