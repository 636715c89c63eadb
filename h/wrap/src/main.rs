//! G05: the wrapper from its command line down: the process of /repo/recursion-gnark/cli, the Rust side of the
//! foreign functions, the Go side (built over stand-ins for gnark), and the three files read back.
#[path = "../../ffi/src/bls.rs"]
#[allow(dead_code)]
mod bls;

use ark_bls12_381::{Bls12_381, Fr};
use bls::*;
use num_bigint::BigUint;
use num_traits::Zero;
use recursion_gnark_ffi::json_util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

const BN_R: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
const FILES: [&str; 3] = ["proof_bls12381.json", "groth16_vk_bls12381.json", "public_inputs_bls12381.json"];
fn bn_r() -> BigUint {
    BN_R.parse().unwrap()
}

struct Dir(PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
fn dir() -> Dir {
    let d = std::env::temp_dir().join(format!("vh-wrap-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------------------------------ the inner side

/// What wrapping a proof under a key gives: the outer proof and the outer key.
#[derive(Clone, Debug)]
struct Outer {
    proof: Proof,
    alpha: P1,
    beta1: P1,
    delta1: P1,
    beta: P2,
    gamma: P2,
    delta: P2,
    k: Vec<P1>,
    ab: Gt,
}
/// A key of the inner system, as its file has it.
#[derive(Clone, Debug)]
struct Key {
    name: String,
    n: usize,
    fail: &'static str,
    outer: Outer,
}
fn el(v: &BigUint) -> Value {
    json!(v.to_string())
}
fn go_e2(v: &E2) -> Value {
    json!({"A0": el(&v.0), "A1": el(&v.1)})
}
fn go1(p: &P1) -> Value {
    let z = BigUint::zero();
    let (x, y) = p.as_ref().map(|p| (&p.0, &p.1)).unwrap_or((&z, &z));
    json!({"X": el(x), "Y": el(y)})
}
fn go2(p: &P2) -> Value {
    let z = (BigUint::zero(), BigUint::zero());
    let (x, y) = p.as_ref().map(|p| (&p.0, &p.1)).unwrap_or((&z, &z));
    json!({"X": go_e2(x), "Y": go_e2(y)})
}
fn go_gt(v: &Gt) -> Value {
    let six = |c: &[E2; 3]| json!({"B0": go_e2(&c[0]), "B1": go_e2(&c[1]), "B2": go_e2(&c[2])});
    json!({"C0": six(&v[0]), "C1": six(&v[1])})
}
impl Key {
    fn file(&self) -> String {
        let o = &self.outer;
        json!({"name": self.name, "n": self.n, "fail": self.fail, "outer": {
            "Ar": go1(&o.proof.a), "Krs": go1(&o.proof.c), "Bs": go2(&o.proof.b),
            "Alpha": go1(&o.alpha), "Beta": go1(&o.beta1), "Delta": go1(&o.delta1),
            "Beta2": go2(&o.beta), "Gamma2": go2(&o.gamma), "Delta2": go2(&o.delta),
            "K": o.k.iter().map(go1).collect::<Vec<_>>(), "AlphaBeta": go_gt(&o.ab),
        }})
        .to_string()
    }
}
fn key(s: &mut Src, n: usize, name: &str) -> Key {
    // one more than the numbers that are public, and one more when the prover commits
    let len = 4 * n + 1 + if s.chance(1, 3) { 1 } else { 0 };
    Key {
        name: name.into(),
        n,
        fail: "",
        outer: Outer {
            proof: proof(s),
            alpha: point1(s),
            beta1: point1(s),
            delta1: point1(s),
            beta: point2(s),
            gamma: point2(s),
            delta: point2(s),
            k: s.many(len, point1),
            ab: gt(s),
        },
    }
}
fn public(s: &mut Src) -> BigUint {
    let m = bn_r();
    match s.weighted(&[2, 2, 3, 8]) {
        0 => s.below(4).into(),
        1 => m - 1u8 - s.below(4),
        2 => (BigUint::from(1u8) << s.usize(254)) % m,
        _ => (0..4).fold(BigUint::zero(), |a, _| (a << 64) + s.u64()) % m,
    }
}
/// The ways of writing a number.
fn written(s: &mut Src, v: &BigUint) -> String {
    let v = if s.chance(1, 8) { v + bn_r() } else { v.clone() };
    match s.weighted(&[6, 2, 2, 1]) {
        0 => v.to_string(),
        1 => format!("0x{v:x}"),
        2 => format!("0x{v:X}"),
        _ => format!("00{v}"),
    }
}

// ------------------------------------------------------------------------------------------ one wrapping

#[derive(Clone, Debug)]
struct Req {
    /// the key's file, where there is one
    vk: Option<Result<Key, String>>,
    /// what the proof proves: key, values, points at infinity
    proof: (String, Vec<BigUint>, bool),
    raw: String,
    publics: Vec<String>,
    /// the document of the inputs, where it is not the list of them
    doc: Option<String>,
    out: Out,
    stale: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Fine,
    Missing,
    Taken(usize),
}
fn number(t: &str) -> Option<BigUint> {
    let (d, base) = match t.strip_prefix("0x") {
        Some(h) => (h, 16),
        None => (t, 10),
    };
    if d.is_empty() || !d.chars().all(|c| c.is_digit(base)) {
        return None;
    }
    Some(BigUint::parse_bytes(d.as_bytes(), base)? % bn_r())
}
/// What a request must give: a reason to refuse it, or the key and the values.
fn model(r: &Req) -> Result<(&Key, Vec<BigUint>), String> {
    let bytes = hex::decode(&r.raw).map_err(|_| "not hexadecimal")?;
    serde_json::from_slice::<Value>(&bytes).map_err(|_| "not a proof")?;
    let k = match &r.vk {
        None => return Err("there is no key".into()),
        Some(Err(_)) => return Err("not a key".into()),
        Some(Ok(k)) => k,
    };
    if r.doc.is_some() {
        return Err("not a list of inputs".into());
    }
    let v: Option<Vec<BigUint>> = r.publics.iter().map(|t| number(t)).collect();
    let v = v.ok_or("an input that is no number")?;
    if r.proof.0 != k.name || r.proof.1 != v || v.len() != k.n {
        return Err("the proof does not hold".into());
    }
    if !k.fail.is_empty() {
        return Err(format!("a step fails: {}", k.fail));
    }
    if r.out != Out::Fine {
        return Err("the output can not be written".into());
    }
    Ok((k, v))
}
fn proof_json(p: &(String, Vec<BigUint>, bool)) -> String {
    json!({"key": p.0, "publics": p.1.iter().map(|v| v.to_string()).collect::<Vec<_>>(), "infinity": p.2}).to_string()
}
fn request(s: &mut Src, n: usize, name: &str) -> Req {
    let k = key(s, n, name);
    let v = s.many(n, public);
    let proof = (name.to_string(), v.clone(), s.chance(1, 6));
    let mut raw = hex::encode(proof_json(&proof));
    if s.chance(1, 5) {
        raw = raw.to_uppercase();
    }
    let publics = v.iter().map(|x| written(s, x)).collect();
    let mut r = Req { vk: Some(Ok(k)), proof, raw, publics, doc: None, out: Out::Fine, stale: s.chance(1, 3) };
    if s.chance(1, 2) {
        return r;
    }
    match s.usize(13) {
        0 if n > 0 => {
            // another value
            let i = s.usize(n);
            let by = (BigUint::from(1u8) << s.usize(256)) % bn_r();
            r.publics[i] = written(s, &((&v[i] + by) % bn_r()));
        }
        1 if n > 1 => {
            // the values in another order
            let i = s.usize(n - 1);
            r.publics.swap(i, i + 1);
        }
        2 => r.proof.0 = "another".into(),
        3 => {
            // a value more or less
            if n > 0 && s.bool() {
                r.publics.pop();
            } else {
                r.publics.push("0".into());
            }
        }
        4 => r.vk = None,
        5 => r.vk = Some(Err(s.pick(&["", "{", "\u{0}\u{1}", "null junk"]).to_string())),
        6 => {
            // not what the encoding is
            let i = s.usize(r.raw.len());
            match s.usize(4) {
                0 => r.raw.truncate(i),
                3 => {
                    let more: &str = s.pick::<&str>(&["g", "0", "zz", " ", "\n"]);
                    r.raw.push_str(more)
                }
                1 => r.raw.replace_range(i..i + 1, "g"),
                _ => r.raw = format!("0x{}", r.raw),
            }
        }
        7 if n > 0 => {
            let i = s.usize(n);
            r.publics[i] = s.pick(&["", "0x", "12a", "0xfg", "one", " 1", "1.5"]).to_string();
        }
        8 => r.doc = Some(s.pick(&["", "[", "{}", "[1]", "\"1\"", "[\"1\""]).to_string()),
        9 => r.out = Out::Missing,
        10 => r.out = Out::Taken(s.usize(3)),
        _ => {
            if let Some(Ok(k)) = &mut r.vk {
                k.fail = *s.pick(&["solve", "compile", "setup", "prove", "verify"]);
            }
        }
    }
    if r.proof.0 != name {
        r.raw = hex::encode(proof_json(&r.proof));
    }
    r
}
/// The files a request needs, below a directory; returns the paths of the key and of the output.
fn lay(d: &Dir, i: usize, r: &Req) -> (String, String) {
    let base = d.0.join(format!("r{i}"));
    let out = base.join("out put");
    std::fs::create_dir_all(&out).unwrap();
    let vk = base.join("vk.bin");
    match &r.vk {
        None => {}
        Some(Ok(k)) => std::fs::write(&vk, k.file()).unwrap(),
        Some(Err(t)) => std::fs::write(&vk, t).unwrap(),
    }
    if r.stale {
        for (j, f) in FILES.iter().enumerate() {
            if r.out != Out::Taken(j) {
                std::fs::write(out.join(f), format!("stale {}", "x".repeat(9000))).unwrap();
            }
        }
    }
    if let Out::Taken(j) = r.out {
        std::fs::create_dir(out.join(FILES[j])).unwrap();
    }
    let out = if r.out == Out::Missing { base.join("nowhere") } else { out };
    (vk.to_str().unwrap().into(), out.to_str().unwrap().into())
}
fn tree(d: &std::path::Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).into_iter().flatten() {
        let e = e.unwrap();
        m.insert(e.file_name().to_string_lossy().into(), std::fs::read(e.path()).unwrap_or_default());
    }
    m
}
/// The three files, read with the Rust types.
fn read_back(out: &str, k: &Key, v: &[BigUint]) -> Res {
    let t = tree(std::path::Path::new(out));
    ensure_eq!(t.keys().cloned().collect::<Vec<_>>(), { let mut f = FILES.map(String::from); f.sort(); f.to_vec() }, "the files written");
    let text = |i: usize| String::from_utf8_lossy(&t[FILES[i]]).to_string();
    let o = &k.outer;
    let p: Groth16Proof<Bls12_381> =
        guard(|| serde_json::from_str(&text(0)))?.map_err(|e| format!("the proof {} can not be read: {e}", text(0)))?;
    ensure_eq!(of1(p.pi_a), o.proof.a, "A of the proof");
    ensure_eq!(of2(p.pi_b), o.proof.b, "B of the proof");
    ensure_eq!(of1(p.pi_c), o.proof.c, "C of the proof");
    ensure_eq!((p.protocol.as_str(), p.curve.as_str()), ("groth16", "bls12381"), "protocol and curve of the proof");
    let w: JsonVerificationKey<Bls12_381> =
        guard(|| serde_json::from_str(&text(1)))?.map_err(|e| format!("the key {} can not be read: {e}", text(1)))?;
    ensure_eq!(of1(w.alpha_1), o.alpha, "alpha of the key");
    ensure_eq!(of2(w.beta_2), o.beta, "beta of the key");
    ensure_eq!(of2(w.gamma_2), o.gamma, "gamma of the key");
    ensure_eq!(of2(w.delta_2), o.delta, "delta of the key");
    ensure!(w.alpha_beta_gt == ark_gt(&o.ab), "the key's pairing of alpha and beta is {}, not {:?}", w.alpha_beta_gt, o.ab);
    ensure_eq!(w.protocol, "groth16", "protocol of the key");
    let raw: Value = serde_json::from_str(&text(1)).unwrap();
    ensure_eq!(raw["curve"], json!("bls12381"), "curve of the key");
    ensure_eq!(w.n_public, 4 * v.len(), "number of public inputs of the key");
    let ic: Vec<P1> = w.ic.iter().map(|p| of1(*p)).collect();
    let n = if v.is_empty() { 1 } else { o.k.len() };
    ensure_eq!(ic, o.k[..n].to_vec(), "the points of the key for the public inputs");
    let x: JsonPublicInput<Fr> =
        guard(|| serde_json::from_str(&text(2)))?.map_err(|e| format!("the inputs {} can not be read: {e}", text(2)))?;
    let limbs: Vec<BigUint> =
        v.iter().flat_map(|v| (0..4).map(move |i| (v >> (64 * i)) & BigUint::from(u64::MAX))).collect();
    ensure_eq!(x.values.iter().map(|x| big(*x)).collect::<Vec<_>>(), limbs, "the public inputs");
    Ok(())
}
fn quiet(d: &Dir, c: &mut Command) -> (bool, String) {
    let o = c.current_dir(&d.0).env("GOTRACEBACK", "none").output().expect("harness: the tool does not start");
    let t = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    (o.status.code() == Some(0), t.lines().take(4).collect::<Vec<_>>().join(" | "))
}
fn judge(r: &Req, ok: bool, said: &str, out: &str, before: &BTreeMap<String, Vec<u8>>) -> Res {
    match model(r) {
        Ok((k, v)) => {
            ensure!(ok, "a proof that holds is refused: {said}");
            read_back(out, k, &v)
        }
        Err(why) => {
            ensure!(!ok, "success is reported though: {why}");
            if r.out == Out::Fine {
                ensure!(*before == tree(std::path::Path::new(out)), "files were written though: {why}");
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------------------ the command line

#[derive(Clone, Debug)]
struct CliCase {
    req: Req,
    line: Vec<usize>,
    long: Vec<bool>,
    /// what is wrong with the call
    call: Call,
    rest: (String, [u8; 32]),
}
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Fine,
    System(&'static str),
    Without(usize),
    NoProof,
    Cut(usize),
    Command(&'static str),
}
fn cli_case(s: &mut Src) -> CliCase {
    let mut req = request(s, 2, "vk-a");
    // the tool takes two inputs, and writes the list of them itself
    if req.publics.len() != 2 || req.doc.is_some() {
        req.doc = None;
        req.publics.resize(2, "7".into());
        if let Some(Ok(k)) = &mut req.vk {
            k.n = 2 + s.usize(2);
        }
    }
    let mut line = vec![0, 1, 2, 3];
    s.shuffle(&mut line);
    let call = if s.chance(1, 6) {
        match s.usize(5) {
            0 => Call::System(*s.pick(&["plonk", "", "Groth16", "groth16 ", "stark"])),
            1 => Call::Without(s.usize(4)),
            2 => Call::NoProof,
            3 => Call::Cut(s.usize(1000)),
            _ => Call::Command(*s.pick(&["", "prove", "Test"])),
        }
    } else {
        Call::Fine
    };
    let text: String = (0..s.usize(6)).map(|_| *s.pick(&['0', 'a', '"', '\u{0}', 'é'])).collect();
    CliCase { req, line, long: s.many(4, |s| s.bool()), call, rest: (text, std::array::from_fn(|_| s.below(256) as u8)) }
}
fn check_cli(c: &CliCase, i: &mut Info) -> Res {
    let d = dir();
    let r = &c.req;
    let (vk, out) = lay(&d, 0, r);
    // the file of the proof, written here: lengths as eight bytes, then the text
    let mut b = vec![];
    let text = |b: &mut Vec<u8>, t: &str| {
        b.extend((t.len() as u64).to_le_bytes());
        b.extend(t.as_bytes());
    };
    for p in &r.publics {
        text(&mut b, p);
    }
    text(&mut b, &c.rest.0);
    text(&mut b, &r.raw);
    b.extend(c.rest.1);
    if let Call::Cut(k) = c.call {
        b.truncate(k % b.len());
    }
    if c.call != Call::NoProof {
        std::fs::write(d.0.join("proof.bin"), b).unwrap();
    }
    let system = if let Call::System(s) = c.call { s } else { "groth16" };
    let proof = d.0.join("proof.bin").to_str().unwrap().to_string();
    let opts = [("output_dir", 'o', out.as_str()), ("vk_path", 'v', vk.as_str()), ("proof_path", 'p', proof.as_str()), ("system", 's', system)];
    let mut a: Vec<String> = vec![];
    match c.call {
        Call::Command("") => {}
        Call::Command(x) => a.push(x.into()),
        _ => a.push("test".into()),
    }
    for &k in &c.line {
        if c.call == Call::Without(k) {
            continue;
        }
        let (l, sh, v) = &opts[k];
        if c.long[k] {
            a.push(format!("--{}", l.replace('_', "-")));
        } else {
            a.push(format!("-{sh}"));
        }
        a.push(v.to_string());
    }
    let before = tree(std::path::Path::new(&out));
    let exe = std::env::current_exe().unwrap().with_file_name("recursion-gnark-cli");
    let (ok, said) = quiet(&d, Command::new(exe).args(&a));
    if c.call != Call::Fine {
        i.class("the call is wrong");
        ensure!(!ok, "success is reported though: {:?}", c.call);
        ensure!(before == tree(std::path::Path::new(&out)), "files were written though: {:?}", c.call);
        return Ok(());
    }
    i.class(model(r).map(|_| "wrapped".to_string()).unwrap_or_else(|e| e));
    judge(r, ok, &said, &out, &before)
}

// ------------------------------------------------------------------------------------------ the library

/// Calls one after the other in one process, of which only the last may fail (a failure ends the process).
fn calls(s: &mut Src) -> Vec<Req> {
    let mut v: Vec<Req> = vec![];
    for i in 0..s.range(1, 4) {
        let n = s.weighted(&[2, 3, 3, 1, 1]);
        let name = format!("vk-{}", s.usize(2 + i));
        let r = request(s, n, &name);
        let stop = model(&r).is_err();
        v.push(r);
        if stop {
            break;
        }
    }
    v
}
fn check_calls(v: &Vec<Req>, i: &mut Info) -> Res {
    let d = dir();
    let laid: Vec<(String, String)> = v.iter().enumerate().map(|(i, r)| lay(&d, i, r)).collect();
    let list: Vec<Value> = v
        .iter()
        .zip(&laid)
        .map(|(r, (vk, out))| json!([vk, out, r.raw, r.doc.clone().unwrap_or_else(|| json!(r.publics).to_string())]))
        .collect();
    std::fs::write(d.0.join("calls.json"), json!(list).to_string()).unwrap();
    let before: Vec<_> = laid.iter().map(|l| tree(std::path::Path::new(&l.1))).collect();
    let (ok, said) = quiet(&d, Command::new(std::env::current_exe().unwrap()).args(["--calls", "calls.json"]));
    for (k, r) in v.iter().enumerate() {
        i.class(model(r).map(|x| format!("wrapped, {} inputs", x.1.len())).unwrap_or_else(|e| e));
        let ok = ok || (k + 1 < v.len() && model(r).is_ok());
        judge(r, ok, &said, &laid[k].1, &before[k]).map_err(|e| vh::Fail { msg: format!("call {k}: {}", e.msg), ..e })?;
    }
    Ok(())
}

fn run(ctx: &mut Ctx) {
    ctx.assume("the stand-ins for gnark (stubs/gnark) keep gnark's interface: what a proof is made of, not its mathematics");
    ctx.sub("command line", 5000, 200000).risky().shrink(300)
        .rule("a key, a proof file and inputs through the tool's process; half of them hold, the rest are wrong in one way")
        .run(cli_case, check_cli);
    ctx.sub("calls", 5000, 200000).risky().shrink(300)
        .rule("one to four calls of the library in one process, each with its own key, proof and 0-4 inputs")
        .run(calls, check_calls);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--calls") {
        let v: Vec<[String; 4]> = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        for [vk, out, raw, doc] in v {
            recursion_gnark_ffi::ffi::build_groth16(&vk, &out, &raw, &doc);
        }
        return;
    }
    vh::main(&[("G05", run)]);
}
