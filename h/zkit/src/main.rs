//! C01: the command line tool of /repo/zkit, built from its own sources, run as a process.
#[path = "../../starky/src/air.rs"]
#[allow(dead_code)]
mod air;
#[path = "../../alg/src/wasm.rs"]
#[allow(dead_code)]
mod wasm;
mod conv {
    pub fn gvec(v: &[u64]) -> Vec<fields::field_gl::Fr> {
        v.iter().map(|x| fields::field_gl::Fr::from(*x)).collect()
    }
}

use num_bigint::BigUint;
use num_traits::One;
use serde_json::{json, Value};
use starky::polsarray::PolKind;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::{ensure, ensure_eq, guard, Ctx, Fail, Info, Res, Src, GL_P};

const BLS_R: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";

struct Dir(PathBuf);
static SEQ: AtomicU64 = AtomicU64::new(0);
fn dir() -> Dir {
    let d = std::env::temp_dir().join(format!("vh-zkit-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}
impl Dir {
    fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
    fn put(&self, f: &str, t: impl AsRef<[u8]>) {
        std::fs::write(self.0.join(f), t).unwrap();
    }
    fn text(&self, f: &str) -> Result<String, Fail> {
        Ok(std::fs::read_to_string(self.0.join(f)).map_err(|e| format!("{f}: {e}"))?)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// --------------------------------------------------------------------------------- the command line

/// How an option is written: its names, and whether it takes a value.
#[derive(Clone, Debug)]
struct Opt {
    names: &'static [&'static str],
    value: Option<String>,
}
fn opt(names: &'static [&'static str], v: impl Into<String>) -> Opt {
    Opt { names, value: Some(v.into()) }
}
fn flag(names: &'static [&'static str]) -> Opt {
    Opt { names, value: None }
}
/// The choices of writing: order, short or long, glued or apart.
fn line(s: &mut Src, cmd: &str, opts: &[Opt], keep_order: bool) -> Vec<String> {
    let mut o: Vec<&Opt> = opts.iter().collect();
    if !keep_order {
        s.shuffle(&mut o);
    }
    let mut a = vec![cmd.to_string()];
    for o in o {
        let n = s.pick(o.names).to_string();
        match &o.value {
            None => a.push(n),
            Some(v) if v.is_empty() || v.starts_with('-') => a.push(format!("{n}={v}")),
            Some(v) => match s.usize(3) {
                0 => a.push(format!("{n}={v}")),
                1 if !n.starts_with("--") && !v.starts_with('=') => a.push(format!("{n}{v}")),
                _ => a.extend([n, v.clone()]),
            },
        }
    }
    a
}
struct Ran {
    code: Option<i32>,
    err: String,
}
fn zkit(d: &Dir, args: &[String], fail: Option<&str>) -> Ran {
    let exe = std::env::current_exe().unwrap().with_file_name("eigen-zkit");
    let mut c = Command::new(exe);
    c.current_dir(&d.0).args(args).env("RAYON_NUM_THREADS", "2").env_remove("RUST_LOG").env_remove("VH_CIRCOM_FAIL");
    if let Some(f) = fail {
        c.env("VH_CIRCOM_FAIL", f);
    }
    let o = c.output().expect("harness: the tool does not start");
    Ran { code: o.status.code(), err: format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)) }
}
fn works(d: &Dir, args: &[String]) -> Res {
    let r = zkit(d, args, None);
    let tail: String = r.err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
    ensure!(r.code == Some(0), "{args:?} exits with {:?}: {tail}", r.code);
    Ok(())
}
fn refuses(d: &Dir, args: &[String], why: &str) -> Res {
    ensure!(zkit(d, args, None).code != Some(0), "{args:?} reports success: {why}");
    Ok(())
}
/// A name for a file, none of them twice.
fn name(s: &mut Src, used: &mut Vec<String>, ext: &str) -> String {
    let base = s.pick(&["a", "b.verifier", "c d", "x_y", "é", "in", "Out"]).to_string();
    let mut n = format!("{base}{ext}");
    let mut k = 0;
    while used.contains(&n) {
        k += 1;
        n = format!("{base}{k}{ext}");
    }
    used.push(n.clone());
    n
}
/// Every file below a directory.
fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, p: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let n = format!("{p}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                go(&e.path(), &format!("{n}/"), m);
            } else {
                m.insert(n, std::fs::read(e.path()).unwrap());
            }
        }
    }
    let mut m = BTreeMap::new();
    if d.is_dir() {
        go(d, "", &mut m);
    }
    m
}

// ------------------------------------------------------------------------------------------ compile

#[derive(Debug, Clone)]
struct Compile {
    file: String,
    sub: bool,
    source: String,
    prime: Option<String>,
    o0: bool,
    o1: bool,
    o2: Option<String>,
    links: Vec<String>,
    out: String,
    fail: Option<&'static str>,
    drop: Option<usize>,
    stale: bool,
    tape: Vec<u64>,
}
const STEPS: [&str; 8] = ["parse", "types", "build", "r1cs", "sym", "compile", "wasm", "wat"];
fn gen_compile(s: &mut Src) -> Compile {
    Compile {
        file: s.pick(&["circuit.circom", "fib.verifier.circom", "a b.circom", "plain", "é.x.y.circom"]).to_string(),
        sub: s.bool(),
        source: format!("template {}", s.u64()),
        prime: if s.chance(1, 4) { None } else { Some(s.pick(&["BN128", "bn128", "goldilocks", "Goldilocks", "GL", "BLS12381", "bls12381", "bLs12377", "PALLAS"]).to_string()) },
        o0: s.chance(1, 5),
        o1: s.chance(1, 4),
        o2: match s.weighted(&[3, 3, 6, 2, 1, 1]) {
            0 => None,
            1 => Some("full".into()),
            2 => Some(s.below(30).to_string()),
            3 => Some(s.u64().to_string()),
            4 => Some("".into()),
            _ => Some(s.pick(&["fast", "-1", "3x", "99999999999999999999", " 2"]).to_string()),
        },
        links: s.vec(0, 4, |s| s.pick(&["../circuits", "node_modules/circomlib/circuits", "/opt/x y", "lib", "lib2"]).to_string()),
        out: s.pick(&["out", "build.d", "o p", "."]).to_string(),
        fail: if s.chance(1, 4) { Some(*s.pick(&STEPS)) } else { None },
        drop: if s.chance(1, 12) { Some(s.usize(2)) } else { None },
        stale: s.chance(1, 4),
        tape: s.many(24, |s| s.u64()),
    }
}
fn compile(c: &Compile, i: &mut Info) -> Res {
    let d = dir();
    let file = if c.sub { format!("src/{}", c.file) } else { c.file.clone() };
    std::fs::create_dir_all(d.0.join("src")).unwrap();
    d.put(&file, &c.source);
    let out = if c.out == "." { "here".to_string() } else { c.out.clone() };
    std::fs::create_dir_all(d.0.join(&out)).unwrap();
    let stem = Path::new(&c.file).file_stem().unwrap().to_str().unwrap().to_string();
    if c.stale {
        std::fs::create_dir_all(d.0.join(&out).join(format!("{stem}_js"))).unwrap();
        d.put(&format!("{out}/{stem}.r1cs"), "x".repeat(5000));
        d.put(&format!("{out}/{stem}_js/{stem}.wasm"), "x".repeat(5000));
    }
    let mut o = vec![opt(&["-i"], file.clone()), opt(&["-o"], out.clone())];
    if let Some(k) = c.drop {
        o.remove(k);
    }
    if let Some(p) = &c.prime {
        o.push(opt(&["-p"], p.clone()));
    }
    if c.o0 {
        o.push(flag(&["--O0"]));
    }
    if c.o1 {
        o.push(flag(&["--O1"]));
    }
    if let Some(v) = &c.o2 {
        o.push(opt(&["--O2"], v.clone()));
    }
    let mut s = Src::replay(c.tape.clone());
    // the libraries are searched in the order they are given
    let at = s.usize(o.len() + 1);
    for l in c.links.iter().rev() {
        o.insert(at, opt(&["-l"], l.clone()));
    }
    let args = line(&mut s, "compile", &o, true);
    let ran = zkit(&d, &args, c.fail);
    let o2 = c.o2.clone().unwrap_or("full".into());
    let style = match (c.o0, c.o1) {
        (true, _) => Some("none".to_string()),
        (_, true) => Some("linear".to_string()),
        _ if o2 == "full" => Some("full".to_string()),
        _ if o2.is_empty() => Some("linear".to_string()),
        _ => match o2.parse::<u64>() {
            Ok(u64::MAX) => Some("full".to_string()),
            Ok(n) => Some(format!("rounds {n}")),
            Err(_) => None,
        },
    };
    i.class(match &style {
        None => "no number of rounds",
        Some(s) if s.starts_with("rounds") => "rounds",
        _ => "a named simplification",
    });
    if c.drop.is_some() || c.fail.is_some() || style.is_none() {
        i.class("failing");
        ensure!(ran.code != Some(0), "{args:?} reports success, though {}", match (c.drop, c.fail) {
            (Some(_), _) => "a required option is missing".to_string(),
            (_, Some(f)) => format!("the compiler fails at {f}"),
            _ => format!("{o2:?} is no number of rounds"),
        });
        if c.drop.is_none() && style.is_some() {
            // what the compiler has found
            let report = match c.fail {
                Some("parse") => "an error",
                Some("types") => "a type error",
                _ => "",
            };
            ensure!(ran.err.contains(report), "the compiler fails at {} with the report {report:?}, which is not shown: {}", c.fail.unwrap_or(""), ran.err);
        }
        return Ok(());
    }
    let style = style.unwrap();
    ensure!(ran.code == Some(0), "{args:?} exits with {:?}: {}", ran.code, ran.err);
    let links: Vec<PathBuf> = c.links.iter().map(PathBuf::from).collect();
    let prime = c.prime.clone().unwrap_or("BN128".into()).to_lowercase();
    let desc = format!("source={:?} links={links:?} prime={prime} simplification={style}", c.source);
    let mut want = BTreeMap::new();
    want.insert(format!("{stem}.r1cs"), format!("r1cs {desc} custom=true").into_bytes());
    want.insert(format!("{stem}.sym"), format!("sym {desc}").into_bytes());
    want.insert(format!("{stem}_js/{stem}.wasm"), format!("\0asmwasm {desc}").into_bytes());
    want.insert(format!("{stem}_js/generate_witness.js"), stem.clone().into_bytes());
    let got = tree(&d.0.join(&out));
    let names = |m: &BTreeMap<String, Vec<u8>>| m.keys().cloned().collect::<Vec<_>>();
    ensure_eq!(names(&got), names(&want), "files in the output directory");
    for (n, t) in &want {
        ensure_eq!(String::from_utf8_lossy(&got[n]), String::from_utf8_lossy(t), "{n} of {args:?}");
    }
    ensure_eq!(d.text(&file)?, c.source, "the source");
    for w in ["a warning", "a type warning"] {
        ensure!(ran.err.contains(w), "the compiler reports {w:?}, which is not shown: {}", ran.err);
    }
    Ok(())
}

// -------------------------------------------------------------------------------------- stark_prove

#[derive(Debug)]
struct Stark {
    air: air::Air,
    norm: bool,
    skip: bool,
    agg: bool,
    addr: Option<u64>,
    /// options left to their defaults
    defaults: Vec<bool>,
    tape: Vec<u64>,
    bad: Option<usize>,
}
fn gen_stark(hash: &'static str) -> impl Fn(&mut Src) -> Stark {
    move |s| {
        let l = match hash {
            "GL" => air::Limits { nbits: (2, 4), ext: (1, 2), queries: 3, blocks: 3, min_queries: 1 },
            _ => air::Limits { nbits: (2, 3), ext: (1, 2), queries: 2, blocks: 2, min_queries: 1 },
        };
        Stark {
            air: air::air(s, &l, hash),
            norm: s.bool(),
            skip: s.bool(),
            agg: s.chance(1, 3),
            addr: if s.chance(1, 3) { None } else { Some(s.u64()) },
            defaults: s.many(7, |s| s.chance(1, 4)),
            tape: s.many(60, |s| s.u64()),
            bad: if s.chance(1, 4) { Some(s.usize(4)) } else { None },
        }
    }
}
fn stark(c: &Stark, i: &mut Info) -> Res {
    let a = &c.air;
    if a.l1 != "Global.L1" || a.pil.polIdentities.is_empty() {
        i.trivial();
        return Ok(());
    }
    let d = dir();
    let mut s = Src::replay(c.tape.clone());
    let mut used = vec![];
    let kinds: [(&'static [&'static str], &str, &str); 6] = [
        (&["-s", "--stark_stuct"], "stark_struct.json", ".ss"),
        (&["-p", "--piljson"], "pil.json", ".pil"),
        (&["--o"], "pols.const", ".const"),
        (&["--m"], "pols.cm", ".cm"),
        (&["-c", "--circom"], "stark_verfier.circom", ".circom"),
        (&["--i"], "zkin.json", ".zkin"),
    ];
    // the option of the security parameters is `stark_stuct` or `stark_struct` in the sources' history; the
    // short one is what every script uses
    let mut o = vec![];
    let mut f = vec![];
    for (k, (names, def, ext)) in kinds.iter().enumerate() {
        if c.defaults[k] {
            f.push(def.to_string());
        } else {
            let n = name(&mut s, &mut used, ext);
            f.push(n.clone());
            o.push(opt(if k == 0 { &["-s"] } else { names }, n));
        }
    }
    if c.norm {
        o.push(flag(&["-n", "--norm_stage"]));
    }
    if c.skip {
        o.push(flag(&["--skip_main"]));
    }
    // only circuits over the small field aggregate, and a statement without a root has nothing to aggregate
    let agg = c.agg && a.publics.len() >= 4;
    if agg {
        o.push(flag(&["-a", "--agg_stage"]));
    }
    let addr = match c.addr {
        Some(v) => {
            o.push(opt(&["--prover_addr"], v.to_string()));
            v.to_string()
        }
        None => "273030697313060285579891744179749754319274977764".to_string(),
    };
    d.put(&f[0], serde_json::to_string(&a.ss).unwrap());
    d.put(&f[1], serde_json::to_string(&a.pil).unwrap());
    for (kind, k) in [(PolKind::Constant, 2), (PolKind::Commit, 3)] {
        let mut w = std::fs::File::create(d.0.join(&f[k])).unwrap();
        a.pols(kind).save(&mut w).map_err(|e| e.to_string())?;
    }
    let (lc, lz) = (d.path("lib.circom"), d.path("lib.zkin"));
    // what the library does with these choices
    let lib = guard(|| {
        starky::prove::stark_prove(
            &d.path(&f[0]), &d.path(&f[1]), c.norm, c.skip, agg, &d.path(&f[2]), &d.path(&f[3]), &lc, &lz, &addr,
        )
    });
    let args = line(&mut s, "stark_prove", &o, false);
    if !matches!(lib, Ok(Ok(_))) {
        // (programs whose circuit has no quotient)
        i.class("the library refuses");
        i.trivial();
        return refuses(&d, &args, "the library fails");
    }
    i.class(format!("norm {} skip {} agg {agg}", c.norm, c.skip));
    works(&d, &args)?;
    ensure_eq!(d.text(&f[4])?, d.text("lib.circom")?, "the circuit of {args:?}");
    let (got, want): (Value, Value) = (js(&d.text(&f[5])?)?, js(&d.text("lib.zkin")?)?);
    ensure_eq!(got, want, "the proof of {args:?}");
    if c.bad.is_some() {
        // an input that is not there
        let k = c.bad.unwrap();
        std::fs::remove_file(d.0.join(&f[k])).unwrap();
        refuses(&d, &args, "an input file is missing")?;
        i.evals(1);
    }
    Ok(())
}
fn js(t: &str) -> Result<Value, Fail> {
    Ok(serde_json::from_str(t).map_err(|e| format!("no JSON: {e}"))?)
}

// ------------------------------------------------------------------------------------------ circuits

/// A circuit that the recording witness generator satisfies for the given values: 1, then four wires per value.
#[derive(Clone, Debug)]
struct Circuit {
    vals: Vec<u64>,
    n_out: usize,
    n_in: usize,
    pairs: Vec<(usize, usize)>,
}
fn gen_circuit(s: &mut Src, p: u64) -> Circuit {
    let vals = s.vec(1, 4, |s| s.u64() % p);
    let n = 4 * vals.len();
    let n_pub = s.usize(n.min(12));
    let n_out = s.usize(n_pub + 1);
    Circuit { n_out, n_in: n_pub - n_out, pairs: s.vec(1, 8, |s| (s.usize(n + 1), s.usize(n + 1))), vals }
}
fn witness(vals: &[u64]) -> Vec<BigUint> {
    let h = "in".bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut w = vec![BigUint::one()];
    for (k, v) in vals.iter().enumerate() {
        w.extend([BigUint::from(h >> 32), BigUint::from(h & 0xffff_ffff), BigUint::from(k), BigUint::from(*v)]);
    }
    w
}
fn r1cs(c: &Circuit, prime: &BigUint, n8: usize) -> Vec<u8> {
    let w = witness(&c.vals);
    let le = |v: &BigUint| {
        let mut b = v.to_bytes_le();
        b.resize(n8, 0);
        b
    };
    let one = BigUint::one();
    let mut cons: Vec<[Vec<(usize, BigUint)>; 3]> = vec![];
    for (i, j) in &c.pairs {
        cons.push([vec![(*i, one.clone())], vec![(*j, one.clone())], vec![(0, &w[*i] * &w[*j] % prime)]]);
    }
    for i in 1..w.len() {
        cons.push([vec![(i, one.clone())], vec![(0, one.clone())], vec![(i, one.clone())]]);
    }
    let mut h = vec![];
    h.extend((n8 as u32).to_le_bytes());
    h.extend(le(prime));
    for x in [w.len(), c.n_out, c.n_in, w.len() - 1 - c.n_out - c.n_in] {
        h.extend((x as u32).to_le_bytes());
    }
    h.extend((w.len() as u64).to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut b = vec![];
    for l in cons.iter().flatten() {
        b.extend((l.len() as u32).to_le_bytes());
        for (i, k) in l {
            b.extend((*i as u32).to_le_bytes());
            b.extend(le(k));
        }
    }
    let m: Vec<u8> = (0..w.len() as u64).flat_map(|i| i.to_le_bytes()).collect();
    let mut f = b"r1cs".to_vec();
    f.extend(1u32.to_le_bytes());
    f.extend(3u32.to_le_bytes());
    for (t, d) in [(1u32, h), (2, b), (3, m)] {
        f.extend(t.to_le_bytes());
        f.extend((d.len() as u64).to_le_bytes());
        f.extend(d);
    }
    f
}
fn input(vals: &[u64]) -> String {
    json!({"in": vals.iter().map(|v| v.to_string()).collect::<Vec<_>>()}).to_string()
}

// --------------------------------------------------------------------------------------- compressor

#[derive(Debug, Clone)]
struct Compress {
    c: Circuit,
    force: Option<usize>,
    defaults: Vec<bool>,
    tape: Vec<u64>,
    bad: usize,
}
fn gen_compress(s: &mut Src) -> Compress {
    Compress {
        c: gen_circuit(s, GL_P),
        force: if s.bool() { None } else { Some(s.range(5, 9)) },
        defaults: s.many(9, |s| s.chance(1, 4)),
        tape: s.many(60, |s| s.u64()),
        bad: s.usize(8),
    }
}
fn compress(c: &Compress, i: &mut Info) -> Res {
    let d = dir();
    let mut s = Src::replay(c.tape.clone());
    let mut used = vec![];
    let p = BigUint::from(GL_P);
    let mut pick = |s: &mut Src, k: usize, def: &str, ext: &str| if c.defaults[k] { def.to_string() } else { name(s, &mut used, ext) };
    let r = pick(&mut s, 0, "mycircuit.verifier.r1cs", ".r1cs");
    let cf = pick(&mut s, 1, "mycircuit.c12.const", ".const");
    let pf = pick(&mut s, 2, "mycircuit.c12.pil", ".pil");
    let ef = pick(&mut s, 3, "mycircuit.c12.exec", ".exec");
    let inf = pick(&mut s, 4, "mycircuit.proof.zkin.json", ".zkin");
    let wf = pick(&mut s, 5, "mycircuit.verifier.wasm", ".wasm");
    let mf = pick(&mut s, 6, "mycircuit.c12.cm", ".cm");
    d.put(&r, r1cs(&c.c, &p, 8));
    d.put(&wf, wasm::recorder(&p, 2, Some(2)));
    d.put(&inf, input(&c.c.vals));
    let given = |o: &mut Vec<Opt>, k: usize, n: &'static [&'static str], f: &str| {
        if !c.defaults[k] {
            o.push(opt(n, f));
        }
    };
    let mut o = vec![];
    given(&mut o, 0, &["--r"], &r);
    given(&mut o, 1, &["--c"], &cf);
    given(&mut o, 2, &["--p"], &pf);
    given(&mut o, 3, &["--e"], &ef);
    if let Some(f) = c.force {
        o.push(opt(&["--force-n-bits"], f.to_string()));
    }
    let setup = line(&mut s, "compressor12_setup", &o, false);
    let l = |f: &str| d.path(f);
    let lib = guard(|| recursion::compressor12_setup::setup(&l(&r), &l("lib.pil"), &l("lib.const"), &l("lib.exec"), c.force.unwrap_or(0)));
    if !matches!(lib, Ok(Ok(()))) {
        i.class("the library refuses");
        return refuses(&d, &setup, "the library fails");
    }
    i.class(if c.force.is_some() { "size forced" } else { "size chosen" });
    works(&d, &setup)?;
    let same = |a: &str, b: &str, what: &str| -> Res {
        let rd = |f: &str| std::fs::read(d.0.join(f)).map_err(|e| Fail::from(format!("{what}: {f}: {e}")));
        ensure!(rd(a)? == rd(b)?, "{what} in {a} differ from what the library writes");
        Ok(())
    };
    same(&pf, "lib.pil", "the program")?;
    same(&cf, "lib.const", "the constants")?;
    same(&ef, "lib.exec", "the plan")?;
    let mut o = vec![];
    given(&mut o, 4, &["--i"], &inf);
    given(&mut o, 5, &["--w"], &wf);
    given(&mut o, 2, &["--p"], &pf);
    given(&mut o, 3, &["--e"], &ef);
    given(&mut o, 6, &["--m"], &mf);
    let exec = line(&mut s, "compressor12_exec", &o, false);
    guard(|| recursion::compressor12_exec::exec(&l(&inf), &l(&wf), &l("lib.pil"), &l("lib.exec"), &l("lib.cm")))?
        .map_err(|e| e.to_string())?;
    works(&d, &exec)?;
    same(&mf, "lib.cm", "the trace")?;
    i.evals(1);
    let (f, a) = match c.bad {
        0 => (&r, &setup),
        1 => (&inf, &exec),
        2 => (&wf, &exec),
        3 => (&pf, &exec),
        4 => (&ef, &exec),
        _ => return Ok(()),
    };
    std::fs::remove_file(d.0.join(f)).unwrap();
    refuses(&d, a, &format!("{f} is missing"))
}

// ------------------------------------------------------------------------------------------- joining

#[derive(Debug, Clone)]
struct Join {
    x: [Vec<String>; 2],
    roots: [String; 2],
    defaults: Vec<bool>,
    tape: Vec<u64>,
    bad: usize,
}
fn gen_join(s: &mut Src) -> Join {
    Join {
        x: [s.vec(0, 9, |s| s.gl().to_string()), s.vec(0, 9, |s| s.gl().to_string())],
        roots: [s.u64().to_string(), s.u64().to_string()],
        defaults: s.many(3, |s| s.chance(1, 4)),
        tape: s.many(30, |s| s.u64()),
        bad: s.usize(6),
    }
}
fn join(c: &Join, i: &mut Info) -> Res {
    let d = dir();
    let mut s = Src::replay(c.tape.clone());
    let mut used = vec![];
    let (mut f, mut o) = (vec![], vec![]);
    let kinds: [(&'static [&'static str], &str); 3] =
        [(&["--zkin1"], "input1.zkin.json"), (&["--zkin2"], "input2.zkin.json"), (&["--zkinout"], "out.zkin.json")];
    for (k, (n, def)) in kinds.iter().enumerate() {
        if c.defaults[k] {
            f.push(def.to_string());
        } else {
            f.push(name(&mut s, &mut used, ".json"));
            o.push(opt(n, f[k].clone()));
        }
    }
    for k in 0..2 {
        d.put(&f[k], json!({"publics": c.x[k], "root1": c.roots[k], "rootC": [c.roots[k], "0", "1", "2"]}).to_string());
    }
    let args = line(&mut s, "join_zkin", &o, false);
    guard(|| starky::zkin_join::join_zkin(&d.path(&f[0]), &d.path(&f[1]), &d.path("lib")))?.map_err(|e| e.to_string())?;
    works(&d, &args)?;
    ensure_eq!(js(&d.text(&f[2])?)?, js(&d.text("lib")?)?, "the output of {args:?}");
    ensure_eq!(js(&d.text(&f[2])?)?["a_root1"], json!(c.roots[0]), "the first proof");
    if c.bad < 2 {
        i.class("missing input");
        std::fs::remove_file(d.0.join(&f[c.bad])).unwrap();
        refuses(&d, &args, "an input is missing")?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- groth16

#[derive(Debug, Clone)]
struct Groth {
    c: Circuit,
    other: u64,
    hex: [bool; 2],
    tape: Vec<u64>,
    bad: usize,
}
fn gen_groth(s: &mut Src) -> Groth {
    let mut c = gen_circuit(s, u64::MAX);
    if c.n_in + c.n_out == 0 {
        c.n_in = 1;
    }
    // a value that the statement shows
    c.n_in += 4usize.saturating_sub(c.n_in + c.n_out).min(4);
    Groth { c, other: 1 + s.below(1 << 40), hex: [s.bool(), s.bool()], tape: s.many(120, |s| s.u64()), bad: s.usize(10) }
}
fn groth(c: &Groth, i: &mut Info) -> Res {
    let d = dir();
    let mut s = Src::replay(c.tape.clone());
    let p: BigUint = BLS_R.parse().unwrap();
    let mut used = vec![];
    let mut n = |s: &mut Src, e: &str| name(s, &mut used, e);
    let (circ, pk, vk, wf, inf, pf, prf, sol) =
        (n(&mut s, ".r1cs"), n(&mut s, ".key"), n(&mut s, ".key"), n(&mut s, ".wasm"), n(&mut s, ".json"), n(&mut s, ".json"), n(&mut s, ".json"), n(&mut s, ".sol"));
    d.put(&circ, r1cs(&c.c, &p, 32));
    d.put(&wf, wasm::recorder(&p, 8, Some(2)));
    d.put(&inf, input(&c.c.vals));
    let curve = || opt(&["-c"], "BLS12381");
    let mut o = vec![curve(), opt(&["--r1cs"], circ.clone()), opt(&["-p"], pk.clone()), opt(&["-v"], vk.clone())];
    if c.hex[0] {
        o.push(flag(&["-t"]));
    }
    let setup = line(&mut s, "groth16_setup", &o, false);
    works(&d, &setup)?;
    let key = js(&d.text(&vk)?)?;
    let w = witness(&c.c.vals);
    let n_pub = c.c.n_in + c.c.n_out;
    ensure_eq!(key["IC"].as_array().map(|a| a.len()), Some(n_pub + 1), "points of the key");
    ensure_eq!(key["vk_alpha_1"]["x"].as_str().map(|v| v.starts_with("0x")), Some(c.hex[0]), "hexadecimal key");
    let mut o = vec![
        curve(),
        opt(&["--r1cs"], circ.clone()),
        opt(&["-w"], wf.clone()),
        opt(&["-p"], pk.clone()),
        opt(&["-i"], inf.clone()),
        opt(&["--public-input"], pf.clone()),
        opt(&["--proof"], prf.clone()),
    ];
    if c.hex[1] {
        o.push(flag(&["-t"]));
    }
    let prove = line(&mut s, "groth16_prove", &o, false);
    works(&d, &prove)?;
    let proof = js(&d.text(&prf)?)?;
    ensure_eq!(proof["pi_a"]["x"].as_str().map(|v| v.starts_with("0x")), Some(c.hex[1]), "hexadecimal proof");
    let publics = js(&d.text(&pf)?)?;
    let num = |v: &Value| -> Option<BigUint> {
        let t = v.as_str()?;
        match t.strip_prefix("0x") {
            Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
            None => BigUint::parse_bytes(t.as_bytes(), 10),
        }
    };
    let got: Vec<Option<BigUint>> = publics.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default();
    ensure_eq!(got, w[1..=n_pub].iter().map(|x| Some(x.clone())).collect::<Vec<_>>(), "public values");
    let o = [curve(), opt(&["-v"], vk.clone()), opt(&["--public-input"], pf.clone()), opt(&["--proof"], prf.clone())];
    let verify = line(&mut s, "groth16_verify", &o, false);
    works(&d, &verify)?;
    let o = [opt(&["-v"], vk.clone()), opt(&["-p"], "groth16"), opt(&["-s"], sol.clone())];
    let contract = line(&mut s, "generate_verifier", &o, false);
    works(&d, &contract)?;
    let text = d.text(&sol)?;
    guard(|| groth16::api::generate_verifier(&d.path(&vk), &d.path("lib.sol")))?.map_err(|e| e.to_string())?;
    ensure_eq!(text, d.text("lib.sol")?, "the contract of {contract:?}");
    i.evals(3);
    // another statement is refused
    let mut y = w[1..=n_pub].to_vec();
    y[(c.other % n_pub as u64) as usize] += c.other;
    d.put(&pf, json!(y.iter().map(|v| v.to_string()).collect::<Vec<_>>()).to_string());
    refuses(&d, &verify, "the statement is another")?;
    i.evals(1);
    let swap = |a: &[String], from: &str, to: &str| a.iter().map(|x| x.replace(from, to)).collect::<Vec<_>>();
    match c.bad {
        0 => refuses(&d, &swap(&setup, "BLS12381", "BLS12377"), "no such curve"),
        1 => refuses(&d, &swap(&prove, "BLS12381", "BLS12377"), "no such curve"),
        2 => refuses(&d, &swap(&verify, "BLS12381", "BLS12377"), "no such curve"),
        3 => refuses(&d, &swap(&contract, "groth16", "plonk"), "no such protocol"),
        4 => {
            std::fs::remove_file(d.0.join(&wf)).unwrap();
            refuses(&d, &prove, "no witness generator")
        }
        5 => {
            std::fs::remove_file(d.0.join(&circ)).unwrap();
            refuses(&d, &setup, "no circuit")
        }
        6 => {
            std::fs::remove_file(d.0.join(&vk)).unwrap();
            refuses(&d, &contract, "no key")
        }
        7 => {
            // another key: made again, the file replaced
            d.put(&pf, publics.to_string());
            works(&d, &verify)?;
            works(&d, &setup)?;
            refuses(&d, &verify, "the key is another")
        }
        8 => {
            // another input: proved exactly when the circuit allows it
            let mut v = c.c.vals.clone();
            v[0] ^= 1;
            let x = witness(&v);
            let ok = c.c.pairs.iter().all(|(i, j)| &x[*i] * &x[*j] % &p == &w[*i] * &w[*j] % &p);
            d.put(&inf, input(&v));
            d.put(&pf, "");
            let made = zkit(&d, &prove, None).code == Some(0);
            ensure!(made || !ok, "an input that the circuit allows is not proved");
            let accepted = made && zkit(&d, &verify, None).code == Some(0);
            ensure_eq!(accepted, ok, "verdict on a proof for another input");
            Ok(())
        }
        _ => Ok(()),
    }
}

// --------------------------------------------------------------------------------------- nonsense

const COMMANDS: [&str; 9] = [
    "compile", "generate_verifier", "stark_prove", "compressor12_setup", "compressor12_exec", "join_zkin", "groth16_setup", "groth16_prove", "groth16_verify",
];
#[derive(Debug, Clone)]
struct Nonsense(Vec<String>);
fn gen_nonsense(s: &mut Src) -> Nonsense {
    let mut a = vec![];
    match s.usize(4) {
        0 => {}
        1 => a.push(s.pick(&["", "prove", "stark-prove", "setup", "Compile", "groth16"]).to_string()),
        _ => a.push(s.pick(&COMMANDS).to_string()),
    }
    // no file is there
    for _ in 0..s.usize(4) {
        a.push(s.pick(&["-x", "--nothing", "-i", "-o", "out", "--r1cs", "-c", "BN128", "--O2", "7", "-p", "-t", "--e=1", "-v"]).to_string());
    }
    Nonsense(a)
}
fn nonsense(c: &Nonsense, _: &mut Info) -> Res {
    let d = dir();
    refuses(&d, &c.0, "there is nothing to work on")
}

pub fn run(ctx: &mut Ctx) {
    ctx.assume("the circom compiler and clap are stand-ins (stubs/): the first writes what it was asked for, the second does what clap documents; Groth16 is the variant over bellperson");
    let rule = "random options, written in random ways, for files of random names; every case runs the tool";
    ctx.sub("compile", 6000, 30_000).rule(rule).run(gen_compile, compile);
    ctx.sub("join", 1500, 5000).rule(rule).run(gen_join, join);
    ctx.sub("compress", 1200, 3000).rule(rule).run(gen_compress, compress);
    ctx.sub("GL_prove", 1200, 8000).rule(rule).run(gen_stark("GL"), stark);
    ctx.sub("BN128_prove", 300, 1500).rule(rule).run(gen_stark("BN128"), stark);
    ctx.sub("BLS12381_prove", 300, 1500).rule(rule).run(gen_stark("BLS12381"), stark);
    ctx.sub("groth16", 250, 1000).rule(rule).run(gen_groth, groth);
    ctx.sub("nonsense", 400, 4000).rule(rule).run(gen_nonsense, nonsense);
}

fn main() {
    vh::main(&[("C01", run)]);
}
