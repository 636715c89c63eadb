//! S10: the circuits generated for a program accept what the verifier accepts, and nothing else.
use crate::air::{air, Air, Limits};
use crate::circlib::{interp, known, library, Kind};
use crate::circom::{self, big, Er, Program, N};
use crate::prover::{accepted, other_root, setup, Attack, Proving};
use crate::s01::{classify, honest, Backend};
use crate::s03::{alt, apply, same, Alt, KINDS};
use num_bigint::BigUint;
use serde_json::Value;
use starky::merklehash::MerkleTreeGL;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::pil2circom::{pil2circom, StarkOption};
use starky::stark_gen::StarkProof;
use starky::starkinfo::{Program as Prog, StarkInfo};
use starky::types::{StarkStruct, PIL};
use starky::f3g::F3G;
use starky::traits::{MTNodeType, Transcript};
use starky::types::Public;
use vh::{ensure, guard, Ctx, Fail, Info, Res, Src};

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Opt {
    pub enable: bool,
    pub verkey: bool,
    pub agg: bool,
    pub skip: bool,
}
impl Opt {
    fn gen(s: &mut Src, gl: bool) -> Opt {
        let o = |verkey, agg, skip| Opt { enable: false, verkey, agg, skip };
        match s.weighted(&[4, 3, 3, if gl { 2 } else { 0 }, 2, if gl { 0 } else { 1 }]) {
            0 => o(false, false, true),
            1 => o(false, false, false),
            2 => o(true, false, false),
            3 => o(true, true, false),
            4 => Opt { enable: true, ..o(s.bool(), false, true) },
            _ => o(true, false, true),
        }
    }
}

/// Back ends with a generator.
pub trait Circ: Backend {
    fn text(
        pil: &PIL,
        root: &Self::MTNode,
        ss: &StarkStruct,
        si: &mut StarkInfo,
        p: &mut Prog,
        o: &StarkOption,
    ) -> anyhow::Result<String>;
}
macro_rules! circ {
    ($t:ty, $f:ty) => {
        impl Circ for $t {
            fn text(
                pil: &PIL,
                root: &Self::MTNode,
                ss: &StarkStruct,
                si: &mut StarkInfo,
                p: &mut Prog,
                o: &StarkOption,
            ) -> anyhow::Result<String> {
                pil2circom::<$f>(pil, root, ss, si, p, o)
            }
        }
    };
}
circ!(MerkleTreeGL, fields::field_gl::Fr);
circ!(MerkleTreeBN128, crate::conv::BnFr);
circ!(MerkleTreeBLS12381, crate::conv::BlsFr);

/// The generated circuit with its library.
pub struct Circuit {
    pub p: Program,
    pub kind: Kind,
    pub opt: Opt,
}
pub fn generate<T: Circ>(
    p: &mut Proving<T>,
    opt: Opt,
) -> Result<(String, Circuit), Fail> {
    let kind = Kind::of(&p.air.ss.verificationHashType);
    let o = StarkOption { enable_input: opt.enable, verkey_input: opt.verkey, agg_stage: opt.agg, skip_main: opt.skip };
    let (pil, root, ss) = (&p.pil, p.setup.const_root, &p.air.ss);
    let (si, pr) = (&mut p.setup.starkinfo, &mut p.setup.program);
    let text = guard(move || T::text(pil, &root, ss, si, pr, &o))
        .map_err(|e| format!("generating the circuit panics: {e}"))?
        .map_err(|e| format!("generating the circuit fails: {e}"))?;
    let mut lib = library(kind).map_err(|e| format!("library: {e:?}"))?;
    lib.load(&text).map_err(|e| format!("the generated circuit is no circom: {e:?}"))?;
    for i in &lib.includes {
        ensure!(
            known(kind, i) || std::path::Path::new("/repo/stark-circuits/circuits").join(i.trim_start_matches("./")).exists(),
            "unknown include {i}"
        );
    }
    Ok((text, Circuit { p: lib, kind, opt }))
}
pub type Inputs = Vec<(String, Vec<N>)>;
/// The proof as the circuit's input file.
pub fn zkin<T: Backend>(q: &StarkProof<T>) -> Result<Value, String> {
    serde_json::to_value(q).map_err(|e| e.to_string())
}
impl Circuit {
    pub fn inputs(&self, v: &Value) -> Result<Inputs, String> {
        circom::inputs(v, &self.p.fld)
    }
    /// Runs the circuit. The input file names some things the circuit has no use for, which the witness
    /// calculator passes over.
    pub fn run(&self, inp: &Inputs) -> Result<Option<N>, Er> {
        let mut i = interp(&self.p, self.kind);
        let mut inp = inp.clone();
        if self.opt.enable && !inp.iter().any(|x| x.0 == "enable") {
            inp.push(("enable".into(), vec![circom::ONE]));
        }
        let r = if self.kind != Kind::GL && self.opt.skip {
            // a template for a main component of one's own
            i.run("StarkVerifier", &[], &inp)?
        } else {
            i.run_main(&inp)?
        };
        Ok(r.output(&self.p, "publicsHash").map(|o| o[0]))
    }
    fn verdict(&self, v: &Value) -> Result<(), String> {
        let inp = self.inputs(v)?;
        self.run(&inp).map(|_| ()).map_err(|e| format!("{e:?}"))
    }
}
/// SHA-256 of the prover's address and the publics, as a field element.
fn publics_hash(addr: &BigUint, publics: &[u64], k: Kind) -> BigUint {
    let mut bits: Vec<u8> = (0..160).rev().map(|i| ((addr >> i as usize) % 2u32 == BigUint::from(1u32)) as u8).collect();
    for p in publics {
        bits.extend((0..64).rev().map(|i| (p >> i & 1) as u8));
    }
    BigUint::from_bytes_be(&crate::circlib::sha256_bits(&bits)) % k.modulus()
}

fn shape(a: &Air, o: &Opt, info: &mut Info) {
    classify(a, info);
    info.class(match o {
        Opt { enable: true, .. } => "with an enable input",
        Opt { agg: true, .. } => "aggregation",
        Opt { verkey: true, .. } => "constants' root as input",
        Opt { skip: true, .. } => "verifier as main",
        _ => "main component",
    });
}
const ADDR: &str = "273030697313060285579891744179749754319274977764";

#[derive(Debug, Clone)]
pub struct Case {
    pub a: Air,
    pub opt: Opt,
    pub alts: Vec<Alt>,
    pub by: u64,
}
/// The rows a proof opens.
fn queries<T: Circ>(a: &Air, p: &StarkProof<T>) -> Result<Vec<usize>, Fail> {
    let mut tr = T::Tr::new();
    let err = |e: anyhow::Error| Fail::from(e.to_string());
    let three = |tr: &mut T::Tr, e: &F3G| -> Res {
        for k in 0..3 {
            tr.put(&[vec![e.cube[k]]]).map_err(err)?;
        }
        Ok(())
    };
    for x in &p.publics {
        tr.put(&[vec![x.cube[0]]]).map_err(err)?;
    }
    for (r, n) in [(&p.root1, 2), (&p.root2, 2), (&p.root3, 1), (&p.root4, 1)] {
        tr.put(&[r.as_elements().to_vec()]).map_err(err)?;
        for _ in 0..n {
            let _: F3G = tr.get_field();
        }
    }
    for e in &p.evals {
        three(&mut tr, e)?;
    }
    for _ in 0..2 {
        let _: F3G = tr.get_field();
    }
    for i in 0..a.ss.steps.len() {
        let _: F3G = tr.get_field();
        match p.fri_proof.queries.get(i + 1) {
            Some(q) => tr.put(&[q.root.as_elements().to_vec()]).map_err(err)?,
            None => p.fri_proof.last.iter().try_for_each(|e| three(&mut tr, e))?,
        }
    }
    tr.get_permutations(a.ss.nQueries, a.ss.steps[0].nBits).map_err(err)
}
/// The verifier insists on some redundant parts of a proof that a circuit has no use for: what lies on the way
/// in the levels of a 16-ary opening, and openings of trees without columns.
fn normalise<T: Circ>(p: &Proving<T>, honest: &StarkProof<T>, ys: &[usize], q: &mut StarkProof<T>) {
    let si = &p.setup.starkinfo.map_sectionsN;
    for (s, step) in p.air.ss.steps.iter().enumerate() {
        let (a, b) = (&honest.fri_proof.queries[s].pol_queries, &mut q.fri_proof.queries.get_mut(s));
        let Some(b) = b else { continue };
        for (i, (a, b)) in a.iter().zip(&mut b.pol_queries).enumerate() {
            for (t, (a, b)) in a.iter().zip(b).enumerate() {
                if s == 0 && (t == 1 && si.cm2_2ns == 0 || t == 2 && si.cm3_2ns == 0) {
                    *b = a.clone();
                }
                let y = ys[i] % (1 << step.nBits);
                for (l, (a, b)) in a.1.iter().zip(&mut b.1).enumerate() {
                    let k = y >> (4 * l) & 15;
                    if T::AR == 16 && k < a.len() && k < b.len() {
                        b[k] = a[k].clone();
                    }
                }
            }
        }
    }
}
fn accept<T: Circ>(c: &Case, info: &mut Info) -> Res {
    let mut p = setup::<T>(&c.a).map_err(|e| format!("setup fails: {e}"))?;
    shape(&c.a, &c.opt, info);
    let proof = honest(&p)?;
    if p.setup.starkinfo.q_deg == 0 {
        info.trivial();
        return Ok(());
    }
    let v = zkin(&proof)?;
    let ys = queries::<T>(&c.a, &proof)?;
    // alterations that fit the input file, judged by the verifier
    let mut tests: Vec<(String, StarkProof<T>, bool)> = vec![];
    for al in &c.alts {
        let Some(mut q) = apply(&proof, &proof, al) else { continue };
        normalise(&p, &proof, &ys, &mut q);
        if same(&proof, &q) {
            continue;
        }
        match guard(|| zkin(&q)) {
            Ok(Ok(w)) if w != v && shape_of(&w) == shape_of(&v) => {}
            _ => continue,
        }
        let ok = accepted(|| p.verify::<T::Tr>(&q));
        tests.push((format!("altered {} {al:?}", KINDS[al.kind]), q, ok));
    }
    let (text, circ) = generate::<T>(&mut p, c.opt)?;
    let check = |what: &str, v: &Value, ok: bool| -> Res {
        match circ.verdict(v) {
            Ok(()) => ensure!(ok, "the circuit accepts what the verifier refuses: {what}"),
            Err(e) => ensure!(!ok, "the circuit refuses {what}: {e} ({} bytes of text)", text.len()),
        }
        Ok(())
    };
    if c.opt.agg {
        return aggregate(c, &circ, &v, &tests.iter().map(|t| (t.0.as_str(), &t.1, t.2)).collect::<Vec<_>>(), info);
    }
    check("an accepted proof", &v, true)?;
    let inp = circ.inputs(&v)?;
    if let Ok(Some(h)) = circ.run(&inp) {
        let want = publics_hash(&BigUint::parse_bytes(ADDR.as_bytes(), 10).unwrap(), &c.a.publics, circ.kind);
        ensure!(big(&h) == want, "publicsHash is {}, not {want}", big(&h));
        info.class("hash of the publics");
    } else {
        ensure!(circ.kind == Kind::GL || c.opt.skip, "no publicsHash");
    }
    for (what, q, ok) in &tests {
        check(what, &zkin(q)?, *ok)?;
        info.class(if *ok { "altered and accepted" } else { "altered and refused" });
    }
    // another root for the constants
    if c.opt.verkey {
        let mut q = crate::prover::dup(&proof);
        q.rootC = Some(other_root::<T>(&p.setup.const_root, c.by));
        check("another root for the constants", &zkin(&q)?, false)?;
    }
    if c.opt.enable {
        // disabled, anything goes; and the switch is a bit
        let mut bad = inp.clone();
        bad.push(("enable".into(), vec![circom::ZERO]));
        if let Some(q) = tests.iter().find(|t| !t.2 && circ.inputs(&zkin(&t.1).unwrap()).is_ok_and(|i| shapes(&i) == shapes(&inp))) {
            let mut i = circ.inputs(&zkin(&q.1)?)?;
            i.push(("enable".into(), vec![circom::ZERO]));
            if let Err(e) = circ.run(&i) {
                return Err(format!("disabled, yet the circuit refuses: {e:?}").into());
            }
        }
        let mut two = inp.clone();
        two.push(("enable".into(), vec![circom::small(2 + c.by)]));
        ensure!(circ.run(&two).is_err(), "enable may be {}", 2 + c.by);
    }
    info.evals(1 + tests.len() as u64);
    Ok(())
}
/// The JSON value without its leaves.
fn shape_of(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(shape_of).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), shape_of(v))).collect()),
        _ => Value::Null,
    }
}
fn shapes(i: &Inputs) -> Vec<(String, usize)> {
    let mut v: Vec<_> = i.iter().map(|(n, v)| (n.clone(), v.len())).collect();
    v.sort();
    v
}
/// Two proofs of the same program, joined as the tool joins them.
fn aggregate<T: Circ>(c: &Case, circ: &Circuit, v: &Value, tests: &[(&str, &StarkProof<T>, bool)], info: &mut Info) -> Res {
    let dir = Scratch::new();
    let join = |a: &Value, b: &Value| -> Result<Value, String> {
        let f = |n: &str| dir.0.join(n).to_str().unwrap().to_string();
        std::fs::write(f("a"), a.to_string()).map_err(|e| e.to_string())?;
        std::fs::write(f("b"), b.to_string()).map_err(|e| e.to_string())?;
        starky::zkin_join::join_zkin(&f("a"), &f("b"), &f("o")).map_err(|e| e.to_string())?;
        serde_json::from_str(&std::fs::read_to_string(f("o")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    };
    if let Err(e) = circ.verdict(&join(v, v)?) {
        return Err(format!("the circuit refuses two accepted proofs: {e}").into());
    }
    for (i, (what, q, ok)) in tests.iter().enumerate() {
        let w = zkin(*q)?;
        let r = if (i as u64 + c.by) % 2 == 0 { join(v, &w)? } else { join(&w, v)? };
        match circ.verdict(&r) {
            Ok(()) => ensure!(ok, "the circuit accepts one altered proof of two: {what}"),
            Err(e) => ensure!(!ok, "the circuit refuses one proof of two: {what}: {e}"),
        }
    }
    info.evals(1 + tests.len() as u64);
    Ok(())
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vh-s10-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A prover that controls every message: the circuit decides as the verifier does.
fn forged<T: Circ>(
    a: &Air,
    at: &Attack,
    opt: Opt,
    info: &mut Info,
) -> Res {
    let mut p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    shape(a, &opt, info);
    if at.fake_layer.is_some_and(|(l, _)| l + 1 >= a.ss.steps.len()) {
        info.trivial();
        return Ok(());
    }
    if p.setup.starkinfo.q_deg == 0 {
        info.trivial();
        return Ok(());
    }
    // an empty tree has a root nobody opens
    let si = &p.setup.starkinfo.map_sectionsN;
    if at.fake_root.is_some_and(|(k, _)| k == 1 && si.cm2_2ns == 0 || k == 2 && si.cm3_2ns == 0) {
        info.trivial();
        return Ok(());
    }
    let mut o = p.forge::<T::Tr>(a, at)?;
    o.proof.prover_addr = ADDR.into();
    let native = accepted(|| p.verify_with_root::<T::Tr>(&o.proof, &o.const_root));
    if !opt.verkey {
        p.setup.const_root = o.const_root;
    }
    let (_, circ) = generate::<T>(&mut p, opt)?;
    let r = circ.verdict(&zkin(&o.proof)?);
    info.class(if native { "forged and accepted" } else { "forged and refused" });
    match r {
        Ok(()) => ensure!(native, "the circuit accepts a forged proof that the verifier refuses: {at:?}"),
        Err(e) => ensure!(!native, "the circuit refuses a proof that the verifier accepts: {e}"),
    }
    Ok(())
}
fn attack(s: &mut Src, a: &Air) -> Attack {
    let mut at = Attack::default();
    let e3 = |s: &mut Src| [1 + s.below(1 << 40), s.below(2), s.below(2)];
    match s.weighted(&[1, 5, 3, 3, 3, 2, 2, 1, 2, 2]) {
        0 => {}
        1 => at.fake_root = Some((s.usize(5), s.u64() >> 8)),
        2 => at.fake_layer = Some((s.usize(3), s.u64() >> 8)),
        3 => at.lie_eval = Some((s.usize(1 << 16), e3(s))),
        4 => {
            let n = 1 + s.usize(3);
            at.noise = Some((s.usize(a.ss.steps.len()), (0..n).map(|_| (s.usize(1 << a.ss.nBitsExt), e3(s))).collect()));
            at.truncate_last = s.bool();
        }
        5 => at.high = vec![(s.usize(a.cm.len()), s.range(a.n(), 1 << a.ss.nBitsExt) - 1, 1 + s.below(1 << 40))],
        6 => at.lie_q = true,
        7 => at.wide_q = true,
        8 => at.zero_z = true,
        _ => at.publics = Some(a.publics.iter().map(|p| vh::gl::add(*p, s.below(3))).collect()),
    }
    at
}
/// Aggregation takes the last four publics apart, so there have to be that many.
fn publics(s: &mut Src, a: &mut Air) {
    while a.publics.len() < 4 + s.usize(2) {
        let (c, r) = (s.usize(a.cm.len()), s.usize(a.n()));
        a.publics.push(a.cm[c][r]);
        a.pil.publics.push(Public { polType: "cmP".into(), polId: c, idx: r, id: a.publics.len() - 1, name: format!("more{}", a.publics.len()) });
    }
}
fn case(s: &mut Src, l: &Limits, hash: &str, n: usize) -> Case {
    let mut a = air(s, l, hash);
    let opt = Opt::gen(s, hash == "GL");
    if opt.agg {
        publics(s, &mut a);
    }
    Case { a, opt, alts: s.many(n, alt), by: s.below(1 << 20) }
}
pub fn run(ctx: &mut Ctx) {
    let l = Limits { nbits: (2, 4), ext: (1, 3), queries: 5, blocks: 4, min_queries: 3 };
    let small = Limits { nbits: (2, 3), ext: (1, 2), queries: 3, blocks: 3, min_queries: 2 };
    let rule = "a random program and one set of options: an accepted proof, the same after single alterations, another constants' root; all count";
    fn two<T: Circ>(
        ctx: &mut Ctx,
        n: (u64, u64),
        l: Limits,
        hash: &'static str,
        rule: &str,
        alts: usize,
    ) {
        ctx.sub(&format!("{}_proofs", T::NAME), n.0, n.1)
            .rule(rule)
            .run(move |s| case(s, &l, hash, alts), |c, i| accept::<T>(c, i));
        ctx.sub(&format!("{}_forged", T::NAME), n.0, n.1)
            .rule("a prover that deviates from the protocol in one way: circuit and verifier agree; trivial when there is no such layer")
            .run(
                move |s| {
                    let a = air(s, &l, hash);
                    let at = attack(s, &a);
                    let opt = Opt { agg: false, enable: false, ..Opt::gen(s, hash == "GL") };
                    (a, at, opt)
                },
                |(a, at, o), i| forged::<T>(a, at, *o, i),
            );
    }
    // as many queries as it takes for their bits to fill more than one field
    fn many<T: Circ>(ctx: &mut Ctx, n: (u64, u64), l: Limits, hash: &'static str) {
        ctx.sub(&format!("{}_queries", T::NAME), n.0, n.1)
            .rule("more queries than one challenge has bits for: an accepted proof and one alteration; all count")
            .run(move |s| case(s, &l, hash, 1), |c, i| accept::<T>(c, i));
    }
    many::<MerkleTreeGL>(ctx, (240, 6_000), Limits { nbits: (2, 5), ext: (1, 3), queries: 44, blocks: 2, min_queries: 14 }, "GL");
    let wide = Limits { nbits: (3, 4), ext: (3, 4), queries: 60, blocks: 1, min_queries: 34 };
    many::<MerkleTreeBN128>(ctx, (16, 400), wide, "BN128");
    many::<MerkleTreeBLS12381>(ctx, (16, 400), wide, "BLS12381");
    two::<MerkleTreeGL>(ctx, (2_000, 40_000), l, "GL", rule, 6);
    two::<MerkleTreeBN128>(ctx, (500, 10_000), small, "BN128", rule, 3);
    two::<MerkleTreeBLS12381>(ctx, (500, 10_000), small, "BLS12381", rule, 3);
}
