//! A04: named inputs on their way to a witness generator, and the witness on its way back.
use crate::a02;
use crate::sides::*;
use crate::{biguint, dir, wasm};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::One;
use std::collections::BTreeMap;
use vh::{ensure_eq, guard, Ctx, Info, Res, Src};

#[derive(Clone, Debug)]
enum J {
    Num(BigInt),
    Str(BigInt),
    Bool(bool),
    Arr(Vec<J>),
    /// what is no number
    Bad(&'static str),
}
impl J {
    fn text(&self, o: &mut String) {
        match self {
            J::Num(v) => o.push_str(&v.to_string()),
            J::Str(v) => o.push_str(&format!("\"{v}\"")),
            J::Bool(b) => o.push_str(&b.to_string()),
            J::Bad(s) => o.push_str(s),
            J::Arr(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push_str(", ");
                    }
                    x.text(o);
                }
                o.push(']');
            }
        }
    }
    /// values in row-major order
    fn flat(&self, o: &mut Vec<BigInt>) {
        match self {
            J::Num(v) | J::Str(v) => o.push(v.clone()),
            J::Bool(b) => o.push(BigInt::from(*b as u8)),
            J::Arr(v) => v.iter().for_each(|x| x.flat(o)),
            J::Bad(_) => unreachable!(),
        }
    }
    fn leaves(&mut self) -> Vec<&mut J> {
        if !matches!(self, J::Arr(v) if !v.is_empty()) {
            return vec![self];
        }
        let J::Arr(v) = self else { unreachable!() };
        v.iter_mut().flat_map(|x| x.leaves()).collect()
    }
}
fn value(s: &mut Src, p: &BigUint) -> BigInt {
    let v = match s.weighted(&[8, 2, 2, 1]) {
        0 => biguint(s, p).into(),
        1 => BigInt::from(p.clone()) + s.below(5) - 2,
        2 => BigInt::from(biguint(s, &(BigUint::one() << 256usize))),
        _ => BigInt::from(biguint(s, &(BigUint::one() << 400usize))),
    };
    if s.chance(1, 5) {
        -v
    } else {
        v
    }
}
fn tree(s: &mut Src, p: &BigUint, depth: usize) -> J {
    match s.weighted(&[4, 4, 1, if depth == 0 { 0 } else { 4 }]) {
        0 => J::Num(value(s, p)),
        1 => J::Str(value(s, p)),
        2 => J::Bool(s.bool()),
        _ => J::Arr(s.vec(0, 4, |s| tree(s, p, depth - 1))),
    }
}
type Inputs = BTreeMap<String, J>;
fn inputs(s: &mut Src, p: &BigUint) -> Inputs {
    let names = ["a", "b", "in", "inputs", "root1", "s0_vals1", "x_y", "main.in", "publics", "Ä", "a1", "enable"];
    s.vec(0, 5, |s| (s.pick(&names).to_string(), tree(s, p, 3))).into_iter().collect()
}
fn text(v: &Inputs) -> String {
    let mut o = "{".to_string();
    for (k, (n, j)) in v.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push_str(&format!("{}: ", serde_json::to_string(n).unwrap()));
        j.text(&mut o);
    }
    o + "}"
}
fn fnv1a(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
fn modp(v: &BigInt, p: &BigUint) -> BigUint {
    let p: BigInt = p.clone().into();
    (((v % &p) + &p) % &p).to_biguint().unwrap()
}
/// (msb, lsb, pos, value) records, sorted: the order of the names is free, positions say the order within a name.
type Records = Vec<[BigUint; 4]>;
fn expect(v: &Inputs, p: &BigUint) -> Records {
    let mut o = vec![];
    for (n, j) in v {
        let h = fnv1a(n);
        let mut f = vec![];
        j.flat(&mut f);
        for (k, x) in f.iter().enumerate() {
            o.push([(h >> 32).into(), (h & 0xffff_ffff).into(), k.into(), modp(x, p)]);
        }
    }
    o.sort();
    o
}
fn records(w: &[BigUint]) -> Result<Records, String> {
    if w.first() != Some(&BigUint::one()) || w.len() % 4 != 1 {
        return Err(format!("a witness of {} entries that begins with {:?}", w.len(), w.first()));
    }
    let mut o: Records = w[1..].chunks(4).map(|c| [c[0].clone(), c[1].clone(), c[2].clone(), c[3].clone()]).collect();
    o.sort();
    Ok(o)
}
#[derive(Clone, Debug)]
struct Case {
    field: usize,
    version: Option<u32>,
    /// the same calculator serves all of these, in order
    runs: Vec<(Inputs, bool)>,
    save: bool,
}
/// From a seed: hundreds of names, arrays of thousands of elements, deep nesting.
fn large(s: &mut Src) -> Case {
    let field = s.weighted(&[3, 3, 2]);
    let p = dec(FIELDS[field]);
    let (names, len, depth) = (*s.pick(&[1usize, 5, 150]), *s.pick(&[3usize, 300, 5000]), *s.pick(&[1usize, 2, 12]));
    let q = &mut Src::random(s.u64());
    let mut v = Inputs::new();
    for k in 0..names {
        let len = if k == 0 { len + q.usize(3) } else { q.usize(8) };
        let mut flat: Vec<J> = (0..len).map(|_| tree(q, &p, 0)).collect();
        for _ in 1..depth {
            // rows of one length
            let w = 1 + q.usize(3);
            flat = flat.chunks(w).map(|c| J::Arr(c.to_vec())).collect();
        }
        v.insert(format!("{}{k}", q.pick(&["s", "signal_with_a_long_name_", "a", "Ω"])), J::Arr(flat));
    }
    let again = inputs(q, &p);
    Case { field, version: *s.pick(&[Some(2), None]), runs: vec![(v, s.bool()), (again, true)], save: s.bool() }
}
const FIELDS: [&str; 3] = [BN, BLS, GLP];
fn case(s: &mut Src) -> Case {
    let field = s.weighted(&[3, 3, 2]);
    let p = dec(FIELDS[field]);
    Case {
        field,
        version: *s.pick(&[Some(2), Some(1), None]),
        runs: s.vec(1, 3, |s| (inputs(s, &p), s.bool())),
        save: s.chance(1, 2),
    }
}
macro_rules! lib {
    ($lib:ident, $name:ident, $bad:ident, $mult:ident, [$(($k:literal, $e:ty, $side:ty)),*]) => {
        fn $name(c: &Case, i: &mut Info) -> Res {
            use $lib::witness::{load_input_for_witness, WitnessCalculator};
            let p = dec(FIELDS[c.field]);
            let n32 = if c.field == 2 { 2 } else { 8 };
            if c.runs.iter().all(|r| expect(&r.0, &p).is_empty()) {
                i.trivial();
            }
            i.class(["bn256", "bls12381", "gl"][c.field]);
            let d = dir("a04");
            let (wasm, json, wtns) = (d.path("c.wasm"), d.path("input.json"), d.path("w.wtns"));
            std::fs::write(&wasm, wasm::recorder(&p, n32, c.version)).unwrap();
            let mut calc = guard(|| WitnessCalculator::from_file(&wasm))?.map_err(|e| e.to_string())?;
            ensure_eq!(calc.memory.prime, BigInt::from(p.clone()), "prime");
            ensure_eq!(calc.n64, n32 / 2, "n64");
            for (input, sanity) in &c.runs {
                std::fs::write(&json, text(input)).unwrap();
                let want = expect(input, &p);
                let given = guard(|| load_input_for_witness(&json))?;
                let w = guard(|| calc.calculate_witness(given.clone(), *sanity))?.map_err(|e| e.to_string())?;
                let w: Option<Vec<BigUint>> = w.iter().map(|x| x.to_biguint()).collect();
                let w = w.ok_or("a negative witness entry".to_string())?;
                ensure_eq!(records(&w)?, want, "input signals");
                if c.save {
                    let v = guard(|| calc.calculate_witness_bin(given, *sanity))?.map_err(|e| e.to_string())?;
                    // entries of this run: the order of the names is the map's
                    let vals: Vec<BigUint> = v.chunks(n32 as usize).map(|c| BigUint::from_slice(c)).collect();
                    ensure_eq!(v.len(), vals.len() * n32 as usize, "words");
                    ensure_eq!(records(&vals)?, want, "input signals (words)");
                    let version = c.version.unwrap_or(1);
                    match c.field {
                        $($k => {
                            guard(|| calc.save_witness_to_bin_file::<$e>(&wtns, &v))?.map_err(|e| e.to_string())?;
                            ensure_eq!(std::fs::read(&wtns).unwrap(), a02::write(&p, n32 as usize * 4, version, &vals), "file");
                            ensure_eq!(guard(|| <$side>::wtns_path(&wtns))?, vals, "witness from the file");
                            i.evals(1);
                        })*
                        _ => {}
                    }
                }
                i.evals(1);
            }
            Ok(())
        }
        fn $bad(v: &Inputs, i: &mut Info) -> Res {
            let _ = i;
            let d = dir("a04b");
            let json = d.path("input.json");
            std::fs::write(&json, text(v)).unwrap();
            match guard(|| $lib::witness::load_input_for_witness(&json)) {
                Err(_) => Ok(()),
                Ok(m) => Err(format!("{} is taken for {m:?}", text(v)).into()),
            }
        }
        fn $mult(c: &Mult, i: &mut Info) -> Res {
            use $lib::witness::WitnessCalculator;
            let (p, file) = (dec(c.p), c.file);
            i.class(file.rsplit('/').next().unwrap());
            let mut calc = guard(|| WitnessCalculator::from_file(file))?.map_err(|e| e.to_string())?;
            for (a, b) in &c.ab {
                let m = std::collections::HashMap::from([("a".to_string(), vec![a.clone()]), ("b".to_string(), vec![b.clone()])]);
                let w = guard(|| calc.calculate_witness(m, true))?.map_err(|e| e.to_string())?;
                let (a, b) = (modp(a, &p), modp(b, &p));
                let want: Vec<BigInt> = [BigUint::one(), &a * &b % &p, a, b].into_iter().map(|x| BigInt::from_biguint(Sign::Plus, x)).collect();
                ensure_eq!(w, want, "witness of a product");
            }
            Ok(())
        }
    };
}
#[derive(Clone, Debug)]
struct Mult {
    file: &'static str,
    p: &'static str,
    ab: Vec<(BigInt, BigInt)>,
}
const MULT: [(&str, &str); 3] = [
    ("/repo/algebraic-gpu/test-vectors/mycircuit.wasm", BN),
    ("/repo/algebraic/test-vectors/mycircuit.wasm", BN),
    ("/repo/groth16/test-vectors/mycircuit_bls12381.wasm", BLS),
];
fn mult(s: &mut Src) -> Mult {
    let (file, p) = *s.pick(&MULT);
    let q = dec(p);
    Mult { file, p, ab: s.vec(1, 4, |s| (value(s, &q), value(s, &q))) }
}
lib!(algebraic_gpu, gpu_case, gpu_bad, gpu_mult, [(0, crate::sides::gpu::bn::Scalar, gpu::GpuBn), (1, blstrs::Scalar, gpu::GpuBls)]);
lib!(
    algebraic,
    ce_case,
    ce_bad,
    ce_mult,
    [(0, vh_alg_ce::BnE, ce::CeBn), (1, vh_alg_ce::BlsE, ce::CeBls), (2, fields::field_gl::GL, ce::CeGl)]
);
fn bad(s: &mut Src) -> Inputs {
    let p = dec(BN);
    let mut v = inputs(s, &p);
    if v.is_empty() {
        v.insert("a".into(), J::Num(1.into()));
    }
    let n = v.len();
    let j = v.values_mut().nth(s.usize(n)).unwrap();
    let mut l = j.leaves();
    let n = l.len();
    let texts = ["null", "{}", "1.5", "\"\"", "\"abc\"", "\"1.5\"", "\"12a\"", "{\"a\": 1}", "\"1 \"", "\"--1\"", "\"true\""];
    *l[s.usize(n)] = J::Bad(s.pick::<&str>(&texts));
    v
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("a witness generator that records its inputs stands in for compiled circuits, besides the product circuits of the repository");
    for m in MULT {
        assert!(std::path::Path::new(m.0).exists(), "{} is missing", m.0);
    }
    ctx.sub("recorded_algebraic-gpu", 20_000, 500_000).rule("non-trivial when some input has a value").run(case, gpu_case);
    ctx.sub("recorded_algebraic", 20_000, 500_000).rule("non-trivial when some input has a value").run(case, ce_case);
    ctx.sub("large_algebraic-gpu", 400, 4_000).shrink(10).rule("up to 150 names and 5000 elements; every case").run(large, gpu_case);
    ctx.sub("product_algebraic-gpu", 2_000, 50_000).rule("every case").run(mult, gpu_mult);
    ctx.sub("large_algebraic", 400, 4_000).shrink(10).rule("up to 150 names and 5000 elements; every case").run(large, ce_case);
    ctx.sub("product_algebraic", 2_000, 50_000).rule("every case").run(mult, ce_mult);
    ctx.sub("refused_algebraic-gpu", 20_000, 500_000).rule("every case has one input that is no number").run(bad, gpu_bad);
    ctx.sub("refused_algebraic", 20_000, 500_000).rule("every case has one input that is no number").run(bad, ce_bad);
}
