//! J01: the example machines of starkjs, run in node and judged by their PIL text.
use crate::comp::{columns, dir, Dir};
use crate::pil::*;
use powdr::ast::analyzed::*;
use powdr::number::GoldilocksField as G;
use serde_json::{json, Value};
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::polsarray::{PolKind, PolsArray};
use starky::stark_gen::StarkProof;
use starky::stark_setup::StarkSetup;
use starky::stark_verify::stark_verify;
use starky::traits::{MerkleTree, Transcript};
use starky::transcript::TranscriptGL;
use starky::transcript_bls12381::TranscriptBLS128;
use starky::transcript_bn128::TranscriptBN128;
use starky::types::StarkStruct;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;
use vh::gl::{add, mul};
use vh::{ensure, ensure_eq, guard, Ctx, Fail, Info, Res, Src};

struct Node {
    child: Child,
    to: ChildStdin,
    from: Receiver<String>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Node {
    fn new() -> Node {
        let script = std::env::var("VERIF_DIR").unwrap_or("/verif".into()) + "/h/js/run.js";
        let mut child =
            Command::new("node").arg(script).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("node");
        let (to, out) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        let (tx, from) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Node { child, to, from }
    }
    fn ask(&mut self, v: &Value) -> Result<String, Fail> {
        writeln!(self.to, "{v}").map_err(|e| format!("node: {e}"))?;
        self.from.recv_timeout(Duration::from_secs(120)).map_err(|_| "the executor does not end".to_string().into())
    }
}
thread_local!(static NODE: RefCell<Option<Node>> = const { RefCell::new(None) });
fn ask(v: &Value) -> Result<String, Fail> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let r = n.get_or_insert_with(Node::new).ask(v);
        if r.is_err() {
            *n = None;
        }
        r
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Fibonacci,
    Poseidon,
    Permutation,
    Plookup,
    Connection,
}
impl M {
    fn name(self) -> String {
        format!("{self:?}").to_lowercase()
    }
}
#[derive(Clone, Debug)]
struct Case {
    m: M,
    bits: usize,
    /// two numbers, or states of twelve with the hash claimed (None: the right one) and a result kind
    start: [u64; 2],
    states: Vec<([u64; 12], Option<[u64; 4]>, Option<u64>)>,
    /// column, row, new value
    hits: Vec<(usize, usize, u64)>,
    prove: Option<(usize, usize, bool)>,
}
fn gen(s: &mut Src) -> Case {
    let m = [M::Fibonacci, M::Poseidon, M::Permutation, M::Plookup, M::Connection][s.weighted(&[4, 8, 1, 1, 1])];
    let bits = match m {
        M::Plookup => s.range(8, 11),
        _ if s.chance(1, 5) => s.range(8, 11),
        _ => s.range(1, 8),
    };
    let slots = (1usize << bits) / 31;
    let n = match s.weighted(&[4, 2, 1]) {
        0 => s.usize(slots + 1),
        1 => slots,
        _ => slots + 1 + s.usize(2),
    };
    let mut wrong = s.chance(1, 4);
    let states = s.many(if m == M::Poseidon { n } else { 0 }, |s| {
        let st: [u64; 12] = match s.weighted(&[1, 2, 4]) {
            0 => [s.below(3); 12],
            1 => std::array::from_fn(|i| s.below(i as u64 + 2)),
            _ => std::array::from_fn(|_| s.gl()),
        };
        let h = (wrong && s.chance(1, 3)).then(|| {
            wrong = false;
            let mut h = hash(&st);
            let v = s.gl();
            h[s.usize(4)] = v;
            h
        });
        (st, h, s.bool().then(|| s.below(4)))
    });
    Case { m, bits, start: [s.gl(), s.gl()], states, hits: s.many(12, |s| (s.usize(1 << 20), s.usize(1 << 20), s.gl())), prove: None }
}
fn gen_prove(s: &mut Src) -> Case {
    let mut c = gen(s);
    c.hits.clear();
    let own = s.chance(1, 3);
    if own {
        c.bits = 10;
    }
    c.bits = c.bits.max(4);
    let slots = (1usize << c.bits) / 31;
    c.states.truncate(slots);
    c.states.iter_mut().for_each(|s| s.1 = None);
    c.prove = Some((s.usize(3), s.range(1, 8), own));
    c
}
fn hash(st: &[u64; 12]) -> [u64; 4] {
    href::gl_perm(st)[..4].try_into().unwrap()
}
/// The text of a program with its includes, at another size.
fn text(file: &std::path::Path, bits: usize, d: &Dir) -> Result<String, Fail> {
    fn flat(f: &std::path::Path) -> Result<String, Fail> {
        let t = std::fs::read_to_string(f).map_err(|e| format!("{f:?}: {e}"))?;
        let mut out = String::new();
        for l in t.lines() {
            match l.trim().strip_prefix("include") {
                Some(r) => {
                    let n = r.trim().trim_end_matches(';').trim().trim_matches('"');
                    out += &flat(&f.with_file_name(n))?;
                }
                None => out += l,
            }
            out.push('\n');
        }
        Ok(out)
    }
    let mut t = flat(file)?;
    let a = t.find("let N").ok_or("no size in the program".to_string())?;
    let b = a + t[a..].find(';').ok_or("no size in the program".to_string())?;
    t.replace_range(a..b, &format!("let N: int = 2**{bits}"));
    let p = d.path("m.pil");
    std::fs::write(&p, &t).unwrap();
    Ok(t)
}
fn col(p: &Pil, name: &str, i: usize) -> Result<usize, Fail> {
    let (s, _) = p.an.definitions.get(name).ok_or(format!("no column {name}"))?;
    Ok(s.id as usize + i)
}
/// The first identity of any kind that is violated.
fn violated(p: &Pil, t: &Trace) -> Result<Option<String>, Fail> {
    if let Some((k, r)) = p.violated(t, 0..p.n) {
        return Ok(Some(format!("row {r}: {}", p.describe(k))));
    }
    let mut memo = HashMap::new();
    for (k, i) in p.an.identities.iter().enumerate() {
        let mut rows = |e: &SelectedExpressions<Ex>| -> Vec<Vec<u64>> {
            (0..p.n)
                .filter(|r| e.selector.as_ref().is_none_or(|s| p.eval(s, *r, t, &mut memo) != 0))
                .collect::<Vec<_>>()
                .into_iter()
                .map(|r| e.expressions.iter().map(|x| p.eval(x, r, t, &mut memo)).collect())
                .collect()
        };
        let bad = match i.kind {
            IdentityKind::Polynomial => false,
            IdentityKind::Plookup => {
                let right: std::collections::HashSet<_> = rows(&i.right).into_iter().collect();
                rows(&i.left).iter().any(|x| !right.contains(x))
            }
            IdentityKind::Permutation => {
                let (mut l, mut r) = (rows(&i.left), rows(&i.right));
                l.sort();
                r.sort();
                l != r
            }
            IdentityKind::Connect => {
                let (l, s) = (rows(&i.left), rows(&i.right));
                let to = sigma(p.n, &s)?;
                (0..p.n).any(|r| (0..l[r].len()).any(|j| l[r][j] != l[to[r][j].1][to[r][j].0]))
            }
        };
        if bad {
            return Ok(Some(p.describe(k)));
        }
    }
    Ok(None)
}
/// Where every cell (row, column) of a connection leads: (column, row).
fn sigma(n: usize, s: &[Vec<u64>]) -> Result<Vec<Vec<(usize, usize)>>, Fail> {
    let (mut cell, mut k, w) = (HashMap::new(), 1u64, vh::gl::root(n.trailing_zeros() as usize));
    let m = s[0].len();
    for j in 0..m {
        let mut v = k;
        for r in 0..n {
            cell.insert(v, (j, r));
            v = mul(v, w);
        }
        k = mul(k, 12275445934081160404);
    }
    let mut seen = std::collections::HashSet::new();
    let mut to = vec![];
    for (r, row) in s.iter().enumerate() {
        let mut v = vec![];
        for (j, x) in row.iter().enumerate() {
            let c = *cell.get(x).ok_or(format!("connection of column {j}, row {r} leads nowhere"))?;
            ensure!(seen.insert(c), "two cells are connected to {c:?}");
            v.push(c);
        }
        to.push(v);
    }
    Ok(to)
}
fn publics(p: &Pil, cm: &[Vec<u64>]) -> Result<HashMap<String, u64>, Fail> {
    let mut v = HashMap::new();
    for (n, d) in &p.an.public_declarations {
        let id = d.polynomial.poly_id.unwrap();
        ensure!(id.ptype == PolynomialType::Committed, "public {n} of no committed column");
        v.insert(n.clone(), cm[id.id as usize + d.array_index.unwrap_or(0)][d.index as usize]);
    }
    Ok(v)
}
fn check(c: &Case, i: &mut Info) -> Res {
    let d = dir("js");
    let name = c.m.name();
    let info: Value = {
        let t = ask(&json!({"machine": name, "what": "struct"}))?;
        serde_json::from_str(&t).map_err(|_| format!("{name}: {t}"))?
    };
    let file = info["pil"].as_str().ok_or("no program named".to_string())?.to_string();
    let txt = text(file.as_ref(), c.bits, &d)?;
    let an = powdr::pil_analyzer::analyze_string::<G>(&txt);
    let n = 1usize << c.bits;
    let mut pols = vec![];
    for (s, _) in an.definitions.values() {
        let SymbolKind::Poly(t) = s.kind else { continue };
        let kind = if t == PolynomialType::Constant { "constant" } else { "commit" };
        pols.push(json!({"name": s.absolute_name, "kind": kind, "id": s.id, "len": s.length}));
    }
    let dec = |v: &[u64]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let input = match c.m {
        M::Fibonacci => json!(dec(&c.start)),
        M::Poseidon => {
            let v: Vec<Vec<String>> = c
                .states
                .iter()
                .map(|(s, h, k)| [&s[..], &h.unwrap_or(hash(s)), &k.map_or(vec![], |k| vec![k])].concat())
                .map(|v| dec(&v))
                .collect();
            json!(v)
        }
        _ => json!([]),
    };
    let home = d.path("");
    let said = ask(&json!({"machine": name, "n": n, "pols": pols, "input": input, "dir": home.trim_end_matches('/')}))?;
    let p = Pil::new(an);
    i.class(name.clone());
    if c.m == M::Poseidon && c.states.len() > n / 31 {
        ensure!(said.starts_with("error"), "{} hashes in {n} rows are taken", c.states.len());
        i.class("too many");
        return Ok(());
    }
    ensure_eq!(said, "ok", "{name} with {n} rows");
    let read = |f: &str, k: usize| -> Result<Vec<Vec<u64>>, Fail> {
        let b = std::fs::read(d.path(f)).map_err(|e| format!("{f}: {e}"))?;
        ensure_eq!(b.len(), 8 * n * k, "size of {f}");
        let v = columns(&b, k);
        ensure!(v.iter().flatten().all(|x| *x < vh::GL_P), "{f}: a value is not reduced");
        Ok(v)
    };
    let (cc, mut cm) = (read("m.const", p.n_const)?, read("m.cm", p.n_cm)?);
    let ps = publics(&p, &cm)?;
    let bad = violated(&p, &Trace { cm: &cm, cc: &cc, publics: ps.clone() })?;
    let wrong = c.states.iter().any(|(s, h, _)| h.is_some_and(|h| h != hash(s)));
    if wrong {
        ensure!(bad.is_some(), "a wrong hash satisfies the program");
        i.class("wrong hash");
        return Ok(());
    }
    if let Some(b) = bad {
        ensure!(false, "{name}, {n} rows: the trace violates {b}");
    }
    // the public values
    let want: Vec<(&str, u64)> = match c.m {
        M::Fibonacci => {
            let [mut a, mut b] = c.start;
            for _ in 1..n {
                (a, b) = (b, add(mul(a, a), mul(b, b)));
            }
            vec![("in1", c.start[0]), ("in2", c.start[1]), ("out", b)]
        }
        M::Poseidon => {
            let st = c.states.first().map_or([0; 12], |s| s.0);
            let names = ["pin0", "pin1", "pin2", "pin3", "pin4", "pin5", "pin6", "pin7"];
            names.into_iter().zip(st).collect()
        }
        _ => vec![],
    };
    let space = txt.split("namespace").last().unwrap().split('(').next().unwrap().trim().to_string();
    for (k, v) in want {
        ensure_eq!(ps.get(&format!("{space}.{k}")), Some(&v), "public {k} of {name}");
    }
    // what the trace says: the states of every slot
    if c.m == M::Poseidon {
        let cols = ["in0", "in1", "in2", "in3", "in4", "in5", "in6", "in7", "hashType", "cap1", "cap2", "cap3"];
        for (k, (st, _, kind)) in c.states.iter().enumerate() {
            let out = href::gl_perm(st);
            for (j, x) in cols.iter().enumerate() {
                let v = &cm[col(&p, &format!("{space}.{x}"), 0)?];
                ensure_eq!((v[31 * k], v[31 * k + 30]), (st[j], out[j]), "state {k}: {x} before and after");
            }
            for j in 0..4 {
                ensure_eq!(cm[col(&p, &format!("{space}.hash{j}"), 0)?][31 * k], out[j], "hash {k}");
            }
            for j in 1..4 {
                let want = (*kind == Some(j)) as u64;
                ensure_eq!(cm[col(&p, &format!("{space}.result{j}"), 0)?][31 * k], want, "result {j} of hash {k}");
            }
        }
    } else if c.m == M::Fibonacci && (c.start[0] > 1 || c.start[1] > 1) {
    } else if c.m == M::Fibonacci {
        i.trivial();
    }
    // a changed cell is noticed, where the program binds it
    let is = |x: &str, id: usize| col(&p, &format!("{space}.{x}"), 0).is_ok_and(|k| k == id);
    for (k, r, v) in &c.hits {
        let (k, mut r) = (k % p.n_cm, r % n);
        let mut v = *v;
        if c.m == M::Plookup {
            r %= 11;
            v |= 16;
        }
        if cm[k][r] == v {
            continue;
        }
        let bound = match c.m {
            M::Fibonacci => true,
            M::Poseidon => {
                let slot = n / 31 * 31;
                if ["result1", "result2", "result3"].iter().any(|x| is(x, k)) {
                    !(v == 0 || v == 1 && r % 31 == 0 && r < slot)
                } else {
                    // the last row is tied to nothing when no transition leads there, except for the hash
                    !(r == n - 1 && r % 31 == 0) || (0..4).any(|j| is(&format!("hash{j}"), k))
                }
            }
            M::Permutation => {
                let sel = |x: &str| cm[col(&p, &format!("{space}.{x}"), 0).unwrap()][r] == 1;
                is("a", k) || is("b", k) || is("c", k) && sel("selC") || is("d", k) && sel("selD")
            }
            M::Plookup => {
                let sel = |r: usize| cm[col(&p, &format!("{space}.sel"), 0).unwrap()][r] == 1;
                is("a", k) && sel(r) || is("b", k) && r > 0 && sel(r - 1)
            }
            M::Connection => {
                let s: Vec<Vec<u64>> =
                    (0..n).map(|r| (1..4).map(|j| cc[col(&p, &format!("{space}.S{j}"), 0).unwrap()][r]).collect()).collect();
                let to = sigma(n, &s)?;
                let j = ["a", "b", "c"].iter().position(|x| is(x, k)).unwrap();
                to[r][j] != (j, r)
            }
        };
        if !bound {
            continue;
        }
        let old = std::mem::replace(&mut cm[k][r], v);
        let t = Trace { cm: &cm, cc: &cc, publics: ps.clone() };
        ensure!(violated(&p, &t)?.is_some(), "{name}, {n} rows: column {k}, row {r} may be {v} instead of {old}");
        cm[k][r] = old;
        i.evals(1);
    }
    // another public value is noticed
    if c.m == M::Fibonacci || c.m == M::Poseidon {
        let mut names: Vec<&String> = ps.keys().collect();
        names.sort();
        for (_, k, v) in &c.hits {
            let (name_, old) = (names[k % names.len()], ps[names[k % names.len()]]);
            let mut other = ps.clone();
            other.insert(name_.clone(), if *v == old { (v + 1) % vh::GL_P } else { *v });
            ensure!(violated(&p, &Trace { cm: &cm, cc: &cc, publics: other })?.is_some(), "{name}, {n} rows: public {name_} may be {v} instead of {old}");
        }
    }
    if let Some((ext, queries, own)) = c.prove {
        let ss = if own {
            serde_json::from_value::<StarkStruct>(info["struct"].clone()).map_err(|e| format!("the script's structure: {e}"))?
        } else {
            let hash = ["GL", "GL", "GL", "BN128", "BLS12381"][queries % 5];
            let top = c.bits + 1 + ext.min(1);
            let mut steps = vec![json!({"nBits": top})];
            if top > 5 {
                steps.push(json!({"nBits": top - 3}));
            }
            let v = json!({"nBits": c.bits, "nBitsExt": top, "nQueries": queries, "verificationHashType": hash, "steps": steps});
            serde_json::from_value(v).unwrap()
        };
        i.class(format!("proved {}", ss.verificationHashType));
        let got = match ss.verificationHashType.as_str() {
            "BN128" => prove::<MerkleTreeBN128, TranscriptBN128>(&d, &ss)?,
            "BLS12381" => prove::<MerkleTreeBLS12381, TranscriptBLS128>(&d, &ss)?,
            _ => prove::<MerkleTreeGL, TranscriptGL>(&d, &ss)?,
        };
        let mut names: Vec<_> = p.an.public_declarations.values().collect();
        names.sort_by_key(|d| d.id);
        let want: Vec<u64> = names.iter().map(|d| ps[&d.name]).collect();
        ensure_eq!(got, want, "publics of the proof");
    }
    Ok(())
}
fn prove<T: MerkleTree + Default, R: Transcript>(d: &Dir, ss: &StarkStruct) -> Result<Vec<u64>, Fail> {
    use starky::traits::FieldExtension;
    let err = |e: anyhow::Error| Fail::from(format!("{e:#}"));
    let addr = if ss.verificationHashType == "GL" { "" } else { "273030697313060285579891744179749754319274977764" };
    guard(|| -> anyhow::Result<_> {
        let mut pil = recursion::pilcom::compile_pil_from_path(&d.path("m.pil"));
        let mut cc = PolsArray::new(&pil, PolKind::Constant);
        cc.load(&d.path("m.const"))?;
        let mut cm = PolsArray::new(&pil, PolKind::Commit);
        cm.load(&d.path("m.cm"))?;
        let mut su = StarkSetup::<T>::new(&cc, &mut pil, ss, None)?;
        let proof = StarkProof::<T>::stark_gen::<R>(cm, cc, &su.const_tree, &su.starkinfo, &su.program, &pil, ss, addr)?;
        anyhow::ensure!(stark_verify::<T, R>(&proof, &su.const_root, &su.starkinfo, ss, &mut su.program)?, "the proof does not verify");
        Ok(proof.publics.iter().map(|p| p.as_elements()[0].as_int()).collect())
    })?
    .map_err(err)
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("the npm packages the scripts import are stand-ins: field arithmetic, columns and files, no compiler");
    ctx.assume("PIL text is read by a stand-in for powdr's analyser (stubs/powdr)");
    ctx.sub("machines", 4_000, 40_000).rule("a machine other than Fibonacci from 0 and 1").run(gen, check);
    ctx.sub("prove", 120, 2_000).rule("a machine other than Fibonacci from 0 and 1").shrink(40).run(gen_prove, check);
}
