//! R03: the compressed circuit accepts what the circuit accepts.
use crate::comp::*;
use crate::sys::*;
#[path = "../../alg/src/wasm.rs"]
mod wasm;
use fields::field_gl::GL;
use starky::merklehash::MerkleTreeGL;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::traits::FieldExtension;
use starky::transcript::TranscriptGL;
use starky::types::{StarkStruct, Step};
use vh::gl::add;
use vh::{ensure, ensure_eq, guard, Ctx, Fail, Info, Res, Src, GL_P};

#[derive(Debug, Clone)]
struct Case {
    sys: Sys,
    /// the first satisfies the system
    w: Vec<Vec<u64>>,
    /// auxiliary wires and single cells to change
    hits: Vec<(usize, u64)>,
    free: u64,
    /// bits beyond those needed, if the size is forced; negative: too few
    force: Option<i64>,
}
fn gen(cons: usize, gates: usize) -> impl Fn(&mut Src) -> Case {
    move |s| {
        let publics = if s.chance(1, 8) { 40 } else { 8 };
        let (sys, w) = gen_sys(s, publics, cons, gates);
        let mut ws = vec![w.clone()];
        for _ in 0..3 {
            ws.push(alter(s, &w));
        }
        // one signal of a gate
        if !sys.uses.is_empty() {
            let mut v = w.clone();
            let (_, sig) = s.pick(&sys.uses);
            let at = *s.pick(sig);
            v[at] = add(v[at], s.gl().max(1));
            ws.push(v);
        }
        let hits = s.many(3, |s| (s.usize(1 << 24), s.gl().max(1)));
        let force = s.chance(1, 5).then(|| s.below(4) as i64 - 1);
        Case { sys, w: ws, hits, free: s.u64(), force }
    }
}
/// The same from a seed: tables of more than 2^10 rows, further custom gates and publics over several rows.
fn gen_large(s: &mut Src) -> Case {
    let (publics, cons, gates) = (*s.pick(&[8, 60, 200]), *s.pick(&[300, 1200, 3000]), *s.pick(&[2, 20, 60]));
    let mut q = Src::random(s.u64());
    let (sys, w) = gen_sys(&mut q, publics, cons, gates);
    let mut ws = vec![w.clone()];
    for _ in 0..3 {
        ws.push(alter(&mut q, &w));
    }
    if !sys.uses.is_empty() {
        let mut v = w.clone();
        let (_, sig) = q.pick(&sys.uses);
        let at = *q.pick(sig);
        v[at] = add(v[at], q.gl().max(1));
        ws.push(v);
    }
    let hits = q.many(3, |s| (s.usize(1 << 24), s.gl().max(1)));
    Case { sys, w: ws, hits, free: q.u64(), force: None }
}
fn wiring(sys: &Sys, comp: &Comp) -> Res {
    // one class of cells per wire
    let class = comp.classes()?;
    let mut of_wire = std::collections::HashMap::new();
    let mut of_class = std::collections::HashMap::new();
    for r in 0..comp.pil.n {
        for c in 0..12 {
            let wire = comp.plan.get(r).map_or(0, |p| p[c]);
            let k = class[c][r];
            if wire > 0 {
                let first = *of_wire.entry(wire).or_insert(k);
                ensure_eq!(first, k, "cells of wire {wire} are not connected (cell {c}, {r})");
            }
            let other = *of_class.entry(k).or_insert(wire);
            ensure_eq!(other, wire, "cells of different wires are connected (cell {c}, {r})");
        }
    }
    // publics are the wires after the constant one, in order
    let cells = comp.public_cells()?;
    let wires: Vec<usize> = cells.iter().map(|(_, c, r)| comp.plan.get(*r).map_or(0, |p| p[*c])).collect();
    ensure_eq!(wires, (1..=sys.n_pub()).collect::<Vec<_>>(), "wires of the public cells");
    // the row the prover's arguments start from
    let (_, l1) = comp.pil.an.definitions.get("Global.L1").map(|(s, _)| s.array_elements().next().unwrap()).ok_or("no Global.L1".to_string())?;
    let l1 = &comp.cc[l1.id as usize];
    ensure!(l1[0] == 1 && l1[1..].iter().all(|v| *v == 0), "Global.L1 is not the first row's Lagrange polynomial");
    Ok(())
}
fn check(c: &Case, i: &mut Info) -> Res {
    let mut comp = match setup(&c.sys, 0)? {
        Ok(s) => s,
        Err(m) => return Err(format!("setup refuses a system: {m}").into()),
    };
    if let Some(f) = c.force {
        let need = comp.pil.n.trailing_zeros() as i64;
        // the plan itself may fit into fewer rows than the size chosen
        let fits = comp.plan.len().max(2).next_power_of_two().trailing_zeros() as i64;
        let bits = if f < 0 { fits - 1 } else { need + f };
        if bits > 0 {
            match (setup(&c.sys, bits as usize)?, f < 0) {
                (Ok(s), false) => {
                    i.class("forced size");
                    comp = s
                }
                (Err(m), false) => return Err(format!("setup refuses a system with {bits} bits forced: {m}").into()),
                (Ok(_), true) => return Err(format!("setup accepts a size of {bits} bits for {} rows", comp.plan.len()).into()),
                (Err(_), true) => i.class("forced size too small: refused"),
            }
        }
    }
    if c.sys.cons.is_empty() && c.sys.uses.is_empty() {
        i.trivial();
    }
    for (g, _) in &c.sys.uses {
        i.class(c.sys.gates[*g].name());
    }
    wiring(&c.sys, &comp)?;
    let mut rng = vh::Rng::new(c.free);
    let mut free = || if c.free % 2 == 0 { 0 } else { rng.next() % GL_P };
    for (k, w) in c.w.iter().enumerate() {
        let want = c.sys.holds(w);
        ensure!(k > 0 || want, "harness: assignment does not satisfy");
        let e = comp.extend(w);
        let cm = comp.trace(&e, &mut free);
        let publics = comp.public_values(&cm)?;
        i.evals(1);
        match (want, comp.violated(&cm, publics.clone())) {
            (true, Some(v)) => ensure!(false, "a satisfying witness ({k}) gives a trace that violates {v}"),
            (false, None) => ensure!(false, "a violating witness ({k}) gives a trace that satisfies the program"),
            _ => {}
        }
        i.class(if want { "satisfying" } else { "violating" });
        if !want {
            continue;
        }
        for (at, d) in &c.hits {
            // no other values of the auxiliary wires
            if !comp.adds.is_empty() {
                let mut f = e.clone();
                let x = w.len() + at % comp.adds.len();
                f[x] = add(f[x], *d);
                let cm = comp.trace(&f, &mut free);
                ensure!(comp.violated(&cm, publics.clone()).is_some(), "auxiliary wire {x} may be anything");
            }
            // no other announced values
            if c.sys.n_pub() > 0 {
                let mut p = publics.clone();
                let (n, _, _) = &comp.public_cells()?[at % c.sys.n_pub()];
                p.insert(n.clone(), add(p[n], *d));
                ensure!(comp.violated(&cm, p).is_some(), "{n} may be announced as anything");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- through the witness generator

#[derive(Debug, Clone)]
struct Run {
    name: String,
    values: Vec<u64>,
    /// choices for the system built around the witness
    tape: Vec<u64>,
    prove: Option<(usize, usize, Vec<usize>)>,
}
fn gen_run(s: &mut Src) -> Run {
    let name = s.pick(&["a", "rootC", "publics", "evals"]).to_string();
    let values = s.vec(1, 6, |s| s.gl());
    Run { name, values, tape: s.many(400, |s| s.u64()), prove: None }
}
fn gen_prove(s: &mut Src) -> Run {
    let mut r = gen_run(s);
    r.prove = Some((s.range(1, 3), s.range(1, 8), s.vec(0, 2, |s| s.range(1, 3))));
    r
}
/// A system that a given witness satisfies.
fn around(tape: &[u64], w: &[u64]) -> Sys {
    let mut s = Src::replay(tape.to_vec());
    let s = &mut s;
    let n_pub = s.usize(w.len().min(14));
    let n_out = s.usize(n_pub + 1);
    let mut sys = Sys { n_out, n_in: n_pub - n_out, n_wires: w.len(), ..Default::default() };
    for _ in 0..s.usize(8) {
        let mut c = [gen_lc(s, w.len()), gen_lc(s, w.len()), gen_lc(s, w.len())];
        settle(&mut c, w);
        sys.cons.push(c);
    }
    sys
}
fn check_run(c: &Run, i: &mut Info) -> Res {
    use algebraic::witness::{load_input_for_witness, WitnessCalculator};
    let err = |e: anyhow::Error| Fail::from(format!("{e:#}"));
    let d = dir("rec-run");
    let (wasm_file, input, cm_file) = (d.path("c.wasm"), d.path("in.json"), d.path("c.cm"));
    let p = num_bigint::BigUint::from(GL_P);
    std::fs::write(&wasm_file, wasm::recorder(&p, 2, Some(2))).unwrap();
    let vals: Vec<String> = c.values.iter().map(|v| format!("\"{v}\"")).collect();
    std::fs::write(&input, format!("{{\"{}\": [{}]}}", c.name, vals.join(", "))).unwrap();
    let w = guard(|| -> anyhow::Result<_> {
        let mut calc = WitnessCalculator::from_file(&wasm_file)?;
        calc.calculate_witness(load_input_for_witness(&input), false)
    })?
    .map_err(err)?;
    let w: Vec<u64> = w.iter().map(|x| x.to_string().parse().unwrap()).collect();
    ensure_eq!(w.len(), 1 + 4 * c.values.len(), "harness: witness of the recorder");
    let sys = around(&c.tape, &w);
    ensure!(sys.holds(&w), "harness: witness does not satisfy");
    let comp = match setup(&sys, 0)? {
        Ok(s) => s,
        Err(m) => return Err(format!("setup refuses a system: {m}").into()),
    };
    if sys.cons.is_empty() {
        i.trivial();
    }
    let (pil, exec) = (comp.dir.path("c.pil"), comp.dir.path("c.exec"));
    guard(|| recursion::compressor12_exec::exec(&input, &wasm_file, &pil, &exec, &cm_file))?.map_err(err)?;
    let bytes = std::fs::read(&cm_file).unwrap();
    ensure_eq!(bytes.len(), 8 * comp.pil.n * comp.pil.n_cm, "size of the trace");
    let cm = columns(&bytes, comp.pil.n_cm);
    ensure_eq!(cm, comp.trace(&comp.extend(&w), || 0), "the trace is not that of the plan");
    if let Some(v) = comp.violated(&cm, comp.public_values(&cm)?) {
        ensure!(false, "the trace of a satisfying witness violates {v}");
    }
    wiring(&sys, &comp)?;
    i.evals(1);
    if let Some((ext, queries, steps)) = &c.prove {
        let mut pil = recursion::pilcom::compile_pil_from_path(&pil);
        let text = std::fs::read_to_string(format!("{}.json", comp.dir.path("c.pil"))).unwrap();
        let read: starky::types::PIL = serde_json::from_str(&text).map_err(|e| format!("the program exec writes: {e}"))?;
        ensure_eq!(serde_json::to_value(&read).unwrap(), serde_json::to_value(&pil).unwrap(), "the program exec writes");
        let mut cc = PolsArray::new(&pil, PolKind::Constant);
        cc.load(&comp.dir.path("c.const")).map_err(err)?;
        let mut a = PolsArray::new(&pil, PolKind::Commit);
        a.load(&cm_file).map_err(err)?;
        let n_bits = comp.pil.n.trailing_zeros() as usize;
        let mut at = n_bits + 1 + ext;
        let mut st = vec![Step { nBits: at }];
        for s in steps {
            if at > s + 1 + 2 {
                at -= s;
                st.push(Step { nBits: at });
            }
        }
        let ss = StarkStruct { nBits: n_bits, nBitsExt: n_bits + 1 + ext, nQueries: *queries, verificationHashType: "GL".into(), steps: st };
        let public_values: Vec<u64> = w[1..=sys.n_pub()].to_vec();
        let ok = guard(|| -> anyhow::Result<(Vec<u64>, bool)> {
            let mut su = StarkSetup::<MerkleTreeGL>::new(&cc, &mut pil, &ss, None)?;
            let proof = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(
                a, cc, &su.const_tree, &su.starkinfo, &su.program, &pil, &ss, "",
            )?;
            let ok = stark_verify::<MerkleTreeGL, TranscriptGL>(&proof, &su.const_root, &su.starkinfo, &ss, &mut su.program)?;
            Ok((proof.publics.iter().map(|p| p.as_elements()[0].as_int()).collect(), ok))
        })?
        .map_err(err)?;
        ensure!(ok.1, "the proof of a compressed circuit does not verify");
        ensure_eq!(ok.0, public_values, "publics of the proof");
        i.class("proved");
    }
    let _ = std::marker::PhantomData::<GL>;
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("PIL text is read by a stand-in for powdr's analyser (stubs/powdr)");
    ctx.assume("the operations of the custom gates are those of the circom templates they are named after");
    ctx.sub("small", 10_000, 200_000).rule("at least one constraint or gate").risky().run(gen(4, 1), check);
    ctx.sub("systems", 4_000, 60_000).rule("at least one constraint or gate").risky().run(gen(40, 4), check);
    ctx.sub("large_systems", 100, 1_000).shrink(10).rule("up to 3000 constraints, 60 custom gates and 200 publics").risky().run(gen_large, check);
    ctx.sub("exec", 600, 8_000).rule("at least one constraint").run(gen_run, check_run);
    ctx.sub("prove", 3, 400).rule("at least one constraint").shrink(60).run(gen_prove, check_run);
}
