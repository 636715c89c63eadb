//! Z01: the zkVM driver of /repo/zkvm over a virtual machine that follows a script.
use powdr::number::GoldilocksField as G;
use powdr::vm::{statement, Log, Machine, Script, State, LOG, SCRIPT};
use starky::merklehash::MerkleTreeGL;
use starky::pil2circom::{pil2circom, StarkOption};
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_setup::StarkSetup;
use starky::types::{StarkStruct, Step};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

struct Dir(PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
fn dir() -> Dir {
    let d = std::env::temp_dir().join(format!("vh-zkvm-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Dir {
    fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
    /// Files of this directory, by name.
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(&self.0).unwrap().flatten() {
            if e.path().is_file() {
                m.insert(e.file_name().to_str().unwrap().to_string(), std::fs::read(e.path()).unwrap());
            }
        }
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// --------------------------------------------------------------------------------------------- generator

#[derive(Clone, Debug)]
struct Mach {
    name: String,
    bits: usize,
    pil: String,
    /// constants from here
    seed: u64,
    keyed: bool,
    /// a machine nothing is to be verified of
    no_qs: bool,
    /// sizes with further keys
    others: Vec<usize>,
}
#[derive(Clone, Debug)]
struct Case {
    task: String,
    suite: String,
    asm: String,
    ms: Vec<Mach>,
    fixed: Vec<(String, usize)>,
    chunks: Vec<(Vec<u64>, u64)>,
    /// chunks to prove, in this order
    order: Vec<usize>,
    fail: Option<(usize, bool)>,
}
const NAMES: [&str; 8] = ["main", "main_binary", "main_memory", "poseidon_gl", "split_gl", "shift", "a", "main_bootloader_inputs"];
fn pil(s: &mut Src, name: &str, bits: usize) -> String {
    let nb = 1 + s.usize(3);
    let mut t = format!("namespace {name}({});\n    pol constant L, C;\n", 1 << bits);
    for k in 0..nb {
        t += &format!("    pol commit w{k};\n");
    }
    if s.bool() {
        t += &format!("    public out = w{}({});\n", s.usize(nb), s.usize(1 << bits));
    }
    for _ in 0..1 + s.usize(3) {
        let w = |s: &mut Src| format!("w{}{}", s.usize(nb), if s.bool() { "'" } else { "" });
        let (a, b, c) = (w(s), w(s), w(s));
        let k = s.below(1000);
        t += &match s.below(5) {
            0 => format!("    {a} * {b} - {c} - C = 0;\n"),
            1 => format!("    L * ({a} - {k}) = 0;\n"),
            2 => format!("    (1 - L) * ({a} - {b} - {k} * C) = 0;\n"),
            3 => format!("    {a} * C - {b} - {k} = 0;\n"),
            _ => format!("    {a} * {b} * {c} - {k} = 0;\n"),
        };
    }
    t
}
fn gen(s: &mut Src) -> Case {
    let mut names = NAMES.to_vec();
    s.shuffle(&mut names);
    let n = 1 + s.usize(4);
    let main_bits = 2 + s.usize(5);
    let ms: Vec<Mach> = (0..n)
        .map(|k| {
            let bits = if k == 0 || s.chance(1, 3) { main_bits } else { 2 + s.usize(5) };
            Mach {
                name: names[k].into(),
                bits,
                pil: pil(s, names[k], bits),
                seed: s.u64(),
                keyed: !s.chance(1, 5),
                no_qs: s.chance(1, 6),
                others: s.vec(0, 2, |s| 2 + s.usize(5)).into_iter().filter(|b| *b != bits).collect(),
            }
        })
        .collect();
    // the number of steps is that of one column among others
    let mut fixed = vec![("main.STEP".to_string(), 1 << main_bits)];
    for f in ["main.STEP2", "main::STEP", "memory.STEP", "main.p_line", "STEP"] {
        if s.chance(1, 3) {
            fixed.push((f.into(), 1 << (1 + s.usize(6))));
        }
    }
    s.shuffle(&mut fixed);
    let mut chunks: Vec<(Vec<u64>, u64)> = vec![];
    for k in 0..1 + s.usize(3) {
        let mut v: Vec<u64> = s.vec(0, 8, |s| s.gl());
        v.push(k as u64);
        chunks.push((v, 1 + s.below(1 << main_bits)));
    }
    let mut order: Vec<usize> = (0..chunks.len()).collect();
    s.shuffle(&mut order);
    let twice = *s.pick(&order);
    if s.chance(1, 3) {
        order.push(twice);
    }
    let fail = s.chance(1, 4).then(|| (s.usize(chunks.len()), s.bool()));
    Case {
        task: s.pick(&["evm", "lr", "a-b", "chunk_1", "t.x"]).to_string(),
        suite: s.pick(&["", "{}", "{\"a\": [1, 2, \"\\u00e9\"]}", "plain\ntext \"quoted\"", "\u{e9}\u{1f600}"]).to_string(),
        asm: format!("program {}", s.below(1000)),
        ms,
        fixed,
        chunks,
        order,
        fail,
    }
}

// --------------------------------------------------------------------------------------------- reference

/// The parameters the prover takes for a machine of a size.
fn params(bits: usize) -> StarkStruct {
    StarkStruct {
        nBits: bits,
        nBitsExt: bits + 1,
        nQueries: 2,
        verificationHashType: "GL".into(),
        steps: steps(bits + 1),
    }
}
/// From the top by fours, down to at least two.
fn steps(top: usize) -> Vec<Step> {
    let mut v = vec![Step { nBits: top }];
    while v.last().unwrap().nBits >= 6 {
        v.push(Step { nBits: v.last().unwrap().nBits - 4 });
    }
    v
}
/// A key of this machine at a size.
fn key(m: &Mach, bits: usize, clear: bool) -> anyhow::Result<Vec<u8>> {
    let text = m.pil.replacen(&format!("({});", 1 << m.bits), &format!("({});", 1 << bits), 1);
    let text: String = text.lines().filter(|l| bits >= m.bits || !l.contains("public")).map(|l| format!("{l}\n")).collect();
    let mut p = recursion::pilcom::compile_pil_from_str(&text);
    let mut cc = PolsArray::new(&p, PolKind::Constant);
    let mut r = Src::random(m.seed);
    for (k, col) in cc.array.iter_mut().enumerate() {
        for (row, v) in col.iter_mut().enumerate() {
            *v = fields::field_gl::Fr::from(if k == 0 { (row == 0) as u64 } else { r.gl() });
        }
    }
    let mut su = StarkSetup::<MerkleTreeGL>::new(&cc, &mut p, &params(bits), None)?;
    if clear {
        su.starkinfo.qs.clear();
    }
    Ok(serde_json::to_vec(&su)?)
}
/// The verifier of a machine.
fn verifier(m: &Mach, key: &[u8]) -> anyhow::Result<String> {
    let p = recursion::pilcom::compile_pil_from_str(&m.pil);
    let mut su: StarkSetup<MerkleTreeGL> = serde_json::from_slice(key)?;
    let opt = StarkOption { enable_input: false, verkey_input: false, skip_main: true, agg_stage: false };
    pil2circom(&p, &su.const_root, &params(m.bits), &mut su.starkinfo, &mut su.program, &opt)
}
fn external(v: &[(String, Vec<u64>)]) -> BTreeMap<String, Vec<u64>> {
    v.iter().cloned().collect()
}
/// Everything but what comes from outside.
fn base(s: &State) -> State {
    State { external: vec![], ..s.clone() }
}
fn log() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

// --------------------------------------------------------------------------------------------- check

fn check(c: &Case, i: &mut Info) -> Res {
    let d = dir();
    let out = d.path();
    let keys = guard(|| {
        c.ms.iter()
            .map(|m| {
                if !m.keyed {
                    return Ok(None);
                }
                let mut v = vec![(1u64 << m.bits, key(m, m.bits, m.no_qs)?)];
                for b in &m.others {
                    v.push((1 << b, key(m, *b, false)?));
                }
                Ok(Some(v))
            })
            .collect::<anyhow::Result<Vec<Option<Vec<(u64, Vec<u8>)>>>>>()
    })?
    .map_err(|e| format!("setup of a machine: {e:?}"))?;
    let machines: Vec<Machine> = c
        .ms
        .iter()
        .zip(&keys)
        .map(|(m, k)| Machine { name: m.name.clone(), pil: m.pil.clone(), size: 1 << m.bits, keys: k.clone() })
        .collect();
    let steps = c.fixed.iter().find(|f| f.0 == "main.STEP").unwrap().1 as u64;
    let script = Script {
        asm: c.asm.clone(),
        fixed: c.fixed.iter().map(|(n, l)| (n.clone(), (0..*l as u64).collect())).collect(),
        machines,
        chunks: c.chunks.clone(),
        fail_witness: None,
        fail_proof: None,
    };
    SCRIPT.with(|s| *s.borrow_mut() = script.clone());
    log();
    // 1. the chunks
    let program = format!("program/{}", c.task);
    let got = guard(|| zkvm::zkvm_generate_chunks(&program, &c.suite, out))?.map_err(|e| format!("no chunks: {e:?}"))?;
    let got: Vec<(Vec<u64>, u64)> = got.into_iter().map(|(v, n)| (v.iter().map(|x: &G| x.0).collect(), n)).collect();
    ensure_eq!(got, c.chunks, "chunks");
    let l = log();
    ensure_eq!(l.compiled, vec![(program.clone(), PathBuf::from(out))], "what is compiled, and where to");
    let text = format!("{} {program} [\"base\", \"poseidon\"] bootloader true", c.asm);
    let data = vec![(1u32, serde_json::to_string(&c.suite).unwrap())];
    let dry = State { asm: Some(text.clone()), output: Some(out.into()), data: data.clone(), ..State::default() };
    ensure_eq!(l.dry_runs, vec![dry], "what the dry run sees");
    ensure!(l.proofs.is_empty(), "generating chunks proves something");
    if c.chunks.len() == 1 && c.ms.len() == 1 {
        i.trivial();
    }
    // 2. each alone
    let mut before = d.files();
    for k in &c.order {
        let (inputs, start) = &c.chunks[*k];
        let fails = c.fail.as_ref().is_some_and(|f| f.0 == *k);
        SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            let f = fails.then(|| inputs.clone());
            let w = c.fail.as_ref().is_some_and(|f| f.1);
            s.fail_witness = f.clone().filter(|_| w);
            s.fail_proof = f.filter(|_| !w);
        });
        let r = guard(|| zkvm::zkvm_prove_only(&c.task, &c.suite, inputs.iter().map(|x| G::from(*x)).collect(), *start, *k, out));
        let l = log();
        let after = d.files();
        if fails {
            i.class(if c.fail.as_ref().unwrap().1 { "a witness fails" } else { "a proof fails" });
            ensure!(!matches!(r, Ok(Ok(_))), "chunk {k} counts as proved although its {} fails", if c.fail.as_ref().unwrap().1 { "witness" } else { "proof" });
            ensure_eq!(before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>(), "files after a failure");
            continue;
        }
        let ids = r?.map_err(|e| format!("chunk {k} is not proved: {e:?}"))?;
        ensure!(!l.proofs.is_empty(), "chunk {k}: nothing is proved");
        let shutdown: Vec<u64> = (1..=steps).map(|n| (n == *start) as u64).collect();
        let want: BTreeMap<_, _> =
            [("main_bootloader_inputs.value".to_string(), inputs.clone()), ("main.jump_to_shutdown_routine".to_string(), shutdown)].into();
        for p in &l.proofs {
            let state = State {
                asm: Some(text.clone()),
                output: Some(d.0.join(format!("{}_chunk_{k}", c.task))),
                data: data.clone(),
                backend: Some(("EStarkStarkyComposite".into(), Some("stark_gl".into()))),
                witness: true,
                ..State::default()
            };
            ensure_eq!(base(p), state, "chunk {k}: what is proved");
            ensure_eq!(external(&p.external), want, "chunk {k}: values given to the proof");
        }
        let proved = l.proofs.last().unwrap();
        // the proofs and verifiers, and nothing else
        let mut ids_want = vec![];
        let mut changed: Vec<String> = after.keys().filter(|f| before.get(*f) != after.get(*f)).cloned().collect();
        for (m, (mach, key_)) in c.ms.iter().zip(&keys).enumerate() {
            let Some(key_) = key_ else { continue };
            let name = format!("{}_chunk_{k}_submachine_{m}", c.task);
            changed.retain(|f| !f.starts_with(&format!("{name}.")));
            let proof = after.get(&format!("{name}.json")).ok_or(format!("no {name}.json"))?;
            let said = statement(proved, m);
            ensure_eq!(String::from_utf8_lossy(proof), String::from_utf8_lossy(&said), "{name}.json");
            if mach.no_qs {
                i.class("nothing to verify");
                continue;
            }
            ids_want.push(m);
            let text = after.get(&format!("{name}.circom")).ok_or(format!("no {name}.circom"))?;
            let text = String::from_utf8_lossy(text);
            let want = guard(|| verifier(mach, &key_[0].1))?.map_err(|e| format!("verifier of a machine: {e:?}"))?;
            if 1u64 << mach.bits != steps {
                i.class("a machine of its own size");
            }
            if text != want {
                let line = text.lines().zip(want.lines()).position(|(a, b)| a != b);
                let show = |t: &str| line.and_then(|l| t.lines().nth(l)).unwrap_or("(end)").chars().take(160).collect::<String>();
                return Err(format!(
                    "{name}.circom is not the verifier of {} (2^{} rows, {steps} steps in all): line {line:?} is {:?}, not {:?}",
                    mach.name, mach.bits, show(&text), show(&want)
                )
                .into());
            }
        }
        ensure_eq!(ids, ids_want, "chunk {k}: machines with a verifier");
        ensure!(changed.is_empty(), "chunk {k}: other files change: {changed:?}");
        before = after;
    }
    if keys.iter().any(|k| k.is_none()) {
        i.class("a machine without a key");
    }
    // 3. all at once
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let f = c.fail.as_ref().map(|f| c.chunks[f.0].0.clone());
        let w = c.fail.as_ref().is_some_and(|f| f.1);
        s.fail_witness = f.clone().filter(|_| w);
        s.fail_proof = f.filter(|_| !w);
    });
    let r = guard(|| zkvm::zkvm_execute_and_prove(&c.task, c.suite.clone(), out));
    let l = log();
    if c.fail.is_some() {
        ensure!(!matches!(r, Ok(Ok(_))), "the execution counts as proved although chunk {} fails", c.fail.as_ref().unwrap().0);
        return Ok(());
    }
    r?.map_err(|e| format!("the execution is not proved: {e:?}"))?;
    ensure_eq!(l.compiled, vec![(program, PathBuf::from(out))], "what is compiled, and where to");
    ensure_eq!(l.proofs.len(), c.chunks.len(), "number of proofs of the execution");
    for (k, (p, (inputs, start))) in l.proofs.iter().zip(&c.chunks).enumerate() {
        let e = external(&p.external);
        ensure_eq!(e.get("main_bootloader_inputs.value"), Some(inputs), "execution, chunk {k}: inputs");
        ensure_eq!(e.get("start").cloned(), Some(vec![*start]), "execution, chunk {k}: start of the shutdown routine");
        ensure_eq!((&p.asm, &p.data, &p.inputs), (&Some(text.clone()), &data, &vec![]), "execution, chunk {k}: program and data");
        ensure_eq!(p.backend, Some(("EStarkStarkyComposite".into(), Some("stark_gl".into()))), "execution, chunk {k}: backend");
    }
    Ok(())
}
fn run(ctx: &mut Ctx) {
    ctx.assume("the virtual machine, its compiler and its prover (powdr) are a stand-in that follows a script and keeps the order of calls of the real one; keys are real STARK setups");
    ctx.sub("chunks", 3000, 80000)
        .rule("more than one machine or chunk")
        .run(gen, check);
}
fn main() {
    vh::main(&[("Z01", run)]);
}
