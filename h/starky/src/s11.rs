//! S11: the circuit library computes what it names, whatever the prover puts for its hints.
use crate::air::{air, Air, Limits};
use crate::circlib::{interp, library, Kind};
use crate::circom::{big, small, Er, Fld, Program, N, ONE, ZERO};
use crate::prover::setup;
use crate::s01::honest;
use crate::s10::{generate, zkin, Circ, Opt};
use href::Bls;
use num_bigint::BigUint;
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use std::collections::HashMap;
use vh::{ensure, ensure_eq, gl, Ctx, Fail, Info, Res, Src, GL_P};

type Inputs = Vec<(String, Vec<N>)>;
/// A hint as it came: template, signal, position, value.
type Rec = (String, String, usize, N);
fn go(p: &Program, k: Kind, t: &Call, over: &HashMap<usize, N>, rec: Option<&mut Vec<Rec>>) -> Result<Vec<N>, Er> {
    let mut n = 0;
    let mut seen = vec![];
    let keep = rec.is_some();
    let r = {
        let mut i = interp(p, k);
        i.hint = Some(Box::new(|t, s, at, v| {
            let x = over.get(&n).copied().unwrap_or(*v);
            if keep {
                seen.push((t.to_string(), s.to_string(), at, *v));
            }
            n += 1;
            x
        }));
        match t {
            Call::Template(t, a, inp) => i.run(t, a, inp)?.output(p, "out").or(None),
            Call::Root(t, a, inp) => i.run(t, a, inp)?.output(p, "root"),
            Call::Main(inp) => {
                i.run_main(inp)?;
                Some(vec![])
            }
            Call::Verifier(inp) => {
                i.run("StarkVerifier", &[], inp)?;
                Some(vec![])
            }
        }
    };
    if let Some(rec) = rec {
        *rec = seen;
    }
    r.ok_or(Er::Bad("an output without a value".into()))
}
enum Call {
    Template(&'static str, Vec<u64>, Inputs),
    Root(&'static str, Vec<u64>, Inputs),
    Main(Inputs),
    Verifier(Inputs),
}

/// What a prover does with the hints.
#[derive(Debug, Clone)]
enum Cheat {
    /// quotient and remainder of a reduction, moved against each other by this much
    Pair(usize, i128),
    /// the bits of another representative of the same number
    Alias(usize),
    /// one hint replaced: which, how, by what
    One(usize, u8, u64),
    /// one bit of a decomposition replaced by a value, the next made up for it
    Bit(usize, usize, u64),
}
fn cheat(s: &mut Src) -> Cheat {
    let at = s.usize(1 << 16);
    match s.weighted(&[5, 3, 3, 1]) {
        0 => Cheat::Pair(
            at,
            match s.weighted(&[3, 2, 2, 3]) {
                0 => 1 + s.below(1 << 32) as i128,
                1 => -(1 + s.below(1 << 40) as i128),
                2 => (1 + s.below(4)) as i128 * [GL_P as i128, 1 << 64, -(GL_P as i128)][s.usize(3)],
                _ => s.u64() as i128 - (1i128 << 63),
            },
        ),
        1 => Cheat::Alias(at),
        2 => Cheat::One(at, s.usize(5) as u8, s.u64()),
        _ => Cheat::Bit(at, s.usize(64), 2 + s.below(5)),
    }
}
fn of(f: &Fld, v: i128) -> N {
    let a = f.of(&BigUint::from(v.unsigned_abs()));
    if v < 0 {
        f.sub(&ZERO, &a)
    } else {
        a
    }
}
/// Decompositions among the hints: start and length.
fn decompositions(h: &[Rec]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < h.len() {
        if h[i].0 == "Num2Bits" && h[i].2 == 0 {
            let mut n = 1;
            while i + n < h.len() && h[i + n].0 == "Num2Bits" && h[i + n].2 == n {
                n += 1;
            }
            v.push((i, n));
            i += n;
        } else {
            i += 1;
        }
    }
    v
}
/// The replaced hints; None when there is nothing of the kind.
fn plan(f: &Fld, h: &[Rec], c: &Cheat) -> Option<HashMap<usize, N>> {
    let p = BigUint::from(GL_P);
    let mut m = HashMap::new();
    let dec = decompositions(h);
    let inside = |i: usize| dec.iter().any(|(a, n)| (*a..*a + *n).contains(&i));
    match c {
        Cheat::Pair(at, d) => {
            // a quotient and the remainder of the same template and position that goes with it
            let pairs: Vec<(usize, usize)> = (0..h.len())
                .filter(|i| h[*i].1 == "k")
                .filter_map(|i| {
                    let j = (i + 1..h.len().min(i + 40)).find(|j| h[*j].0 == h[i].0 && h[*j].1 == "out" && h[*j].2 == h[i].2)?;
                    Some((i, j))
                })
                .collect();
            if pairs.is_empty() {
                return None;
            }
            let (k, o) = pairs[at % pairs.len()];
            let d = of(f, *d);
            m.insert(k, f.add(&h[k].3, &f.mul(&d, &f.inverse(&f.of(&p)))));
            m.insert(o, f.sub(&h[o].3, &d));
        }
        Cheat::Alias(at) => {
            let long: Vec<(usize, usize, BigUint)> = dec
                .iter()
                .filter_map(|(a, n)| {
                    let v: BigUint = (0..*n).filter(|i| h[a + i].3 == ONE).map(|i| BigUint::from(1u32) << i).sum();
                    let w = v + &f.modulus;
                    (w.bits() as usize <= *n).then_some((*a, *n, w))
                })
                .collect();
            if long.is_empty() {
                return None;
            }
            let (a, n, w) = &long[at % long.len()];
            for i in 0..*n {
                m.insert(a + i, if (w >> i) % 2u32 == BigUint::from(1u32) { ONE } else { ZERO });
            }
        }
        Cheat::One(at, how, v) => {
            if h.is_empty() {
                return None;
            }
            // bits are many, the others few
            let other: Vec<usize> = (0..h.len()).filter(|i| !inside(*i)).collect();
            let i = if !other.is_empty() && at % 3 > 0 { other[at / 3 % other.len()] } else { at / 3 % h.len() };
            let x = match how {
                0 => ZERO,
                1 => f.add(&h[i].3, &ONE),
                2 => f.add(&h[i].3, &f.of(&p)),
                3 => f.sub(&h[i].3, &small(1 + v % 7)),
                _ => f.mul(&small(*v | 1), &small(v >> 7)),
            };
            if x == h[i].3 {
                return None;
            }
            m.insert(i, x);
        }
        Cheat::Bit(at, b, v) => {
            if dec.is_empty() {
                return None;
            }
            let (a, n) = dec[at % dec.len()];
            if n < 2 {
                return None;
            }
            let i = a + b % (n - 1);
            // bit i becomes v, bit i+1 takes the difference
            let d = f.sub(&h[i].3, &small(*v));
            m.insert(i, small(*v));
            m.insert(i + 1, f.add(&h[i + 1].3, &f.mul(&d, &f.inverse(&small(2)))));
        }
    }
    Some(m)
}

#[derive(Debug, Clone)]
struct Case {
    bn: bool,
    t: &'static str,
    args: Vec<u64>,
    v: Vec<Vec<i128>>,
    cheats: Vec<Cheat>,
}
const P: i128 = GL_P as i128;
fn modp(v: i128) -> u64 {
    v.rem_euclid(P) as u64
}
/// An operand: the arithmetic of the library allows for sums and differences of some values.
fn slack(s: &mut Src) -> i128 {
    let b = match s.weighted(&[3, 3, 2, 1]) {
        0 => s.gl() as i128,
        1 => s.below(4) as i128,
        2 => P - s.below(4) as i128,
        _ => s.u64() as i128,
    };
    b + match s.weighted(&[5, 2, 2]) {
        0 => 0,
        1 => -P * (1 + s.below(15) as i128),
        _ => P * s.below(16) as i128,
    }
}
/// A value of 64 bits.
fn word(s: &mut Src) -> i128 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.gl() as i128,
        1 => s.edgy_u64(&[GL_P, GL_P + 1, GL_P - 1]) as i128,
        _ => s.below(3) as i128,
    }
}
fn case(s: &mut Src) -> Case {
    let names = ["GLNorm", "GLCNorm", "GLMul", "GLMulAdd", "GLCMul", "GLCMulAdd", "GLInv", "GLCInv", "EvalPol", "FFT", "TreeSelector", "CompConstant64", "BN1toGL3"];
    let t = names[s.weighted(&[3, 2, 3, 3, 4, 4, 2, 3, 3, 4, 2, 2, 2])];
    let row = |s: &mut Src, n: usize| (0..n).map(|_| slack(s)).collect::<Vec<_>>();
    let words = |s: &mut Src, n: usize| (0..n).map(|_| word(s)).collect::<Vec<_>>();
    let mut args = vec![];
    let v = match t {
        "GLNorm" => vec![row(s, 1)],
        "GLCNorm" => vec![row(s, 3)],
        "GLMul" => vec![row(s, 1), row(s, 1)],
        "GLMulAdd" => vec![row(s, 1), row(s, 1), words(s, 1)],
        "GLCMul" => vec![row(s, 3), row(s, 3)],
        "GLCMulAdd" => vec![row(s, 3), row(s, 3), row(s, 3)],
        "GLInv" => vec![words(s, 1)],
        "GLCInv" => vec![words(s, 3)],
        "EvalPol" => {
            args = vec![1 + s.below(9)];
            vec![words(s, 3 * args[0] as usize), words(s, 3)]
        }
        "FFT" => {
            args = vec![s.below(4), s.below(2)];
            vec![words(s, 3 << args[0])]
        }
        "TreeSelector" => {
            args = vec![1 + s.below(4), 1 + s.below(3)];
            let key = (0..args[0]).map(|_| s.below(2) as i128).collect();
            vec![words(s, (args[1] << args[0]) as usize), key]
        }
        "CompConstant64" => {
            args = vec![s.edgy_u64(&[GL_P - 1, GL_P])];
            let near = args[0].wrapping_add(s.below(5)).wrapping_sub(2);
            let x = if s.bool() { near } else { s.edgy_u64(&[GL_P - 1, GL_P]) };
            vec![(0..64).map(|i| (x >> i & 1) as i128).collect()]
        }
        _ => {
            // small numbers have a second representation below 2^255
            let top = [0, 1, 1 << 32, s.u64() >> 6, s.u64() >> 2][s.usize(5)];
            vec![vec![word(s), word(s), word(s), top as i128]]
        }
    };
    Case { bn: s.bool(), t, args, v, cheats: s.many(4, cheat) }
}
/// The outputs modulo p, or None where there are none (no inverse).
fn want(c: &Case) -> Option<Vec<u64>> {
    let m = |i: usize| c.v[i].iter().map(|x| modp(*x)).collect::<Vec<_>>();
    let e = |i: usize| {
        let v = m(i);
        [v[0], v[1], v[2]]
    };
    let e3 = |a: [u64; 3]| a.to_vec();
    use crate::prover as q;
    Some(match c.t {
        "GLNorm" | "GLCNorm" => m(0),
        "GLMul" => vec![gl::mul(m(0)[0], m(1)[0])],
        "GLMulAdd" => vec![gl::add(gl::mul(m(0)[0], m(1)[0]), m(2)[0])],
        "GLCMul" => e3(q::mul(e(0), e(1))),
        "GLCMulAdd" => e3(q::add(q::mul(e(0), e(1)), e(2))),
        "GLInv" => {
            let x = m(0)[0];
            if x == 0 {
                return None;
            }
            vec![q::inv([x, 0, 0])[0]]
        }
        "GLCInv" => {
            if e(0) == [0; 3] {
                return None;
            }
            e3(q::inv(e(0)))
        }
        "EvalPol" => {
            let co: Vec<[u64; 3]> = m(0).chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
            e3(q::horner(&co, e(1)))
        }
        "FFT" => {
            let n = 1usize << c.args[0];
            let root = gl::root(c.args[0] as usize);
            let (w, f) = if c.args[1] == 1 { (q::inv([root, 0, 0])[0], q::inv([n as u64, 0, 0])[0]) } else { (root, 1) };
            let v = m(0);
            let mut o = vec![];
            for i in 0..n {
                for k in 0..3 {
                    let mut sum = 0;
                    for j in 0..n {
                        sum = gl::add(sum, gl::mul(gl::pow(w, (i * j) as u64), v[3 * j + k]));
                    }
                    o.push(gl::mul(f, sum));
                }
            }
            o
        }
        "TreeSelector" => {
            let at: usize = c.v[1].iter().enumerate().map(|(i, b)| (*b as usize) << i).sum();
            let e = c.args[1] as usize;
            m(0)[at * e..(at + 1) * e].to_vec()
        }
        "CompConstant64" => {
            let x: u64 = c.v[0].iter().enumerate().map(|(i, b)| (*b as u64) << i).sum();
            vec![(x > c.args[0]) as u64]
        }
        _ => unreachable!(),
    })
}
fn operation(c: &Case, info: &mut Info) -> Res {
    let k = if c.bn { Kind::BN } else { Kind::BLS };
    let p = library(k).map_err(|e| format!("library: {e:?}"))?;
    let f = Fld::new(&k.modulus());
    info.class(c.t);
    let field = |v: &[i128]| v.iter().map(|x| of(&f, *x)).collect::<Vec<N>>();
    let names: &[&str] = match c.t {
        "GLNorm" | "GLCNorm" | "GLInv" | "GLCInv" | "FFT" | "CompConstant64" | "BN1toGL3" => &["in"],
        "EvalPol" => &["pol", "x"],
        "TreeSelector" => &["values", "key"],
        _ => &["ina", "inb", "inc"],
    };
    let mut inp: Inputs = names.iter().zip(&c.v).map(|(n, v)| (n.to_string(), field(v))).collect();
    let want = if c.t == "BN1toGL3" {
        let limb = |i: usize| BigUint::from(c.v[0][i] as u64) << (64 * i);
        let x = (limb(0) + limb(1) + limb(2) + limb(3)) % &f.modulus;
        inp[0].1 = vec![f.of(&x)];
        let limb = |i: usize| -> BigUint { (&x >> (64 * i)) % (BigUint::from(1u32) << 64usize) };
        Some((0..3).map(|i| limb(i).to_u64_digits().first().copied().unwrap_or(0)).collect())
    } else {
        want(c)
    };
    let exact = matches!(c.t, "BN1toGL3" | "CompConstant64" | "TreeSelector") || c.t == "EvalPol" && c.args[0] == 1;
    let call = Call::Template(c.t, c.args.clone(), inp);
    let mut hints = vec![];
    let r = go(&p, k, &call, &HashMap::new(), Some(&mut hints));
    let Some(want) = want else {
        ensure!(r.is_err(), "{} of zero gives {:?}", c.t, r.map(|v| v.iter().map(big).collect::<Vec<_>>()));
        return Ok(());
    };
    let check = |o: &[N], strict: bool| -> Result<(), String> {
        let o: Vec<BigUint> = o.iter().map(big).collect();
        let bound = BigUint::from(1u32) << 64usize;
        let ok = o.len() == want.len()
            && o.iter().zip(&want).all(|(a, b)| {
                let r = if exact && c.t == "BN1toGL3" { a.clone() } else { a % GL_P };
                r == BigUint::from(*b) && (*a < bound || exact) && (!strict || exact || *a < BigUint::from(GL_P))
            });
        if ok {
            Ok(())
        } else {
            Err(format!("{:?}{:?} of {:?} is {o:?}, not {want:?}", c.t, c.args, c.v))
        }
    };
    match &r {
        Ok(o) => check(o, true)?,
        Err(e) => return Err(format!("{}{:?} of {:?} fails: {e:?}", c.t, c.args, c.v).into()),
    }
    let mut done = 0;
    for ch in &c.cheats {
        let Some(over) = plan(&f, &hints, ch) else { continue };
        done += 1;
        if let Ok(o) = go(&p, k, &call, &over, None) {
            info.class("other hints accepted");
            check(&o, false).map_err(|e| format!("with other hints ({ch:?}) {e}"))?;
        } else {
            info.class("other hints refused");
        }
    }
    info.evals(1 + done);
    Ok(())
}

/// Poseidon, leaves and trees of the BLS12-381 circuits.
#[derive(Debug, Clone)]
enum Hash {
    Sponge(Vec<N>, N),
    Leaf(usize, Vec<u64>),
    Tree(usize, usize, Vec<Vec<u64>>, usize, u8),
}
fn element(s: &mut Src) -> N {
    let m = Kind::BLS.modulus();
    let b = match s.weighted(&[2, 1, 5]) {
        0 => BigUint::from(s.below(3)),
        1 => &m - 1u32 - s.below(3),
        _ => (0..4).map(|i| BigUint::from(s.u64()) << (64 * i)).sum::<BigUint>() % &m,
    };
    Fld::new(&m).of(&b)
}
fn hash(s: &mut Src) -> Hash {
    match s.weighted(&[2, 3, 3]) {
        0 => {
            let n = 1 + s.usize(16);
            Hash::Sponge((0..n).map(|_| element(s)).collect(), element(s))
        }
        1 => {
            let e = [1, 3][s.usize(2)];
            let n = 1 + if s.chance(1, 4) { s.usize(120) } else { s.usize(18) };
            let v = (0..n * e).map(|_| s.gl()).collect();
            Hash::Leaf(e, v)
        }
        _ => {
            let e = [1, 3][s.usize(2)];
            let n = 1 + s.usize(5);
            let bits = 1 + s.usize(6);
            let rows = (0..1usize << bits).map(|_| (0..n * e).map(|_| s.gl()).collect()).collect();
            Hash::Tree(e, bits, rows, s.usize(1 << bits), s.usize(4) as u8)
        }
    }
}
fn hashes(h: &Hash, info: &mut Info) -> Res {
    let k = Kind::BlsFull;
    let p = library(k).map_err(|e| format!("library: {e:?}"))?;
    let none = HashMap::new();
    let err = |e: Er| Fail::from(format!("fails: {e:?}"));
    let n = |v: &[u64]| v.iter().map(|x| small(*x)).collect::<Vec<N>>();
    let fr = |v: &N| href::from_limbs::<<Bls as href::Spec>::F>(*v).expect("canonical");
    match h {
        Hash::Sponge(v, init) => {
            info.class("permutation");
            let want: Vec<N> =
                href::perm::<Bls>(&v.iter().map(fr).collect::<Vec<_>>(), &fr(init)).iter().map(href::to_limbs).collect();
            let l = v.len() as u64;
            let inp = vec![("inputs".to_string(), v.clone()), ("initialState".to_string(), vec![*init])];
            for outs in [1, l + 1] {
                let o = go(&p, k, &Call::Template("PoseidonEx", vec![l, outs], inp.clone()), &none, None).map_err(err)?;
                ensure_eq!(&o[..], &want[..outs as usize], "PoseidonEx({l}, {outs})");
            }
        }
        Hash::Leaf(e, v) => {
            info.class("leaf");
            let inp = vec![("in".to_string(), n(v))];
            let o = go(&p, k, &Call::Template("LinearHash", vec![(v.len() / e) as u64, *e as u64], inp), &none, None).map_err(err)?;
            ensure_eq!(o, vec![href::to_limbs(&href::fr_linear::<Bls>(v))], "LinearHash of {} elements of {e}", v.len() / e);
        }
        Hash::Tree(e, bits, rows, at, alter) => {
            info.class("tree");
            let lv = href::fr_levels::<Bls>(rows);
            let root = href::to_limbs(&lv.last().unwrap()[0]);
            let mut sib = vec![];
            let mut i = *at;
            for l in &lv[..lv.len() - 1] {
                let b = i / 16 * 16;
                sib.extend((b..b + 16).map(|j| l.get(j).map_or(ZERO, href::to_limbs)));
                i /= 16;
            }
            let mut row = n(&rows[*at]);
            let mut key: Vec<N> = (0..*bits).map(|i| small((at >> i & 1) as u64)).collect();
            let mut same = true;
            match alter {
                1 => {
                    let j = at % row.len();
                    row[j] = small((row[j][0] + 1) % GL_P);
                    same = false;
                }
                2 => {
                    let other = at ^ 1;
                    key[0] = small((other & 1) as u64);
                    same = rows[other] == rows[*at];
                }
                3 => {
                    let j = (at * 7 + 3) % sib.len();
                    let lvl = j / 16;
                    same = (at >> (4 * lvl)) & 15 == j % 16;
                    sib[j] = Fld::new(&k.modulus()).add(&sib[j], &ONE);
                }
                _ => {}
            }
            let inp = vec![("values".to_string(), row), ("siblings".to_string(), sib), ("key".to_string(), key)];
            let args = vec![*e as u64, (rows[0].len() / e) as u64, 1 << bits];
            let o = go(&p, k, &Call::Root("MerkleHash", args, inp), &none, None).map_err(err)?;
            ensure!((o[0] == root) == same, "row {at} of {} ({}): root {}, should be {}", rows.len(), ["as it is", "altered", "at its neighbour", "with another path"][*alter as usize], big(&o[0]), big(&root));
        }
    }
    Ok(())
}

/// A disabled verifier checks nothing but what its values are: other hints for the same input are refused.
fn generated<T: Circ>(a: &Air, opt: Opt, cheats: &[Cheat], info: &mut Info) -> Res {
    let mut p = setup::<T>(a).map_err(|e| format!("setup fails: {e}"))?;
    let proof = honest(&p)?;
    if p.setup.starkinfo.q_deg == 0 {
        info.trivial();
        return Ok(());
    }
    let (_, circ) = generate::<T>(&mut p, opt)?;
    let f = Fld::new(&circ.kind.modulus());
    let mut inp = circ.inputs(&zkin(&proof)?)?;
    inp.retain(|x| x.0 != "enable");
    inp.push(("enable".into(), vec![ZERO]));
    let call = if opt.skip { Call::Verifier(inp) } else { Call::Main(inp) };
    let mut hints = vec![];
    if let Err(e) = go(&circ.p, circ.kind, &call, &HashMap::new(), Some(&mut hints)) {
        return Err(format!("disabled, yet the circuit refuses a proof: {e:?}").into());
    }
    let mut done = 0;
    for ch in cheats {
        // two values of 64 bits may stand for the same element
        if matches!(ch, Cheat::Pair(_, d) if d % P == 0) || matches!(ch, Cheat::One(_, 2, _)) {
            continue;
        }
        let Some(over) = plan(&f, &hints, ch) else { continue };
        done += 1;
        info.class(match ch {
            Cheat::Pair(..) => "another quotient",
            Cheat::Alias(_) => "another representation",
            Cheat::One(..) => "one hint",
            Cheat::Bit(..) => "no bits",
        });
        let at = over.keys().min().copied().unwrap_or(0);
        ensure!(
            go(&circ.p, circ.kind, &call, &over, None).is_err(),
            "other values of the hints are accepted: {ch:?}, hint {at} ({}.{})",
            hints[at].0,
            hints[at].1
        );
    }
    if done == 0 {
        info.trivial();
    }
    info.evals(1 + done);
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.sub("operations", 12_000, 400_000)
        .rule("a template of the library over the field of BN254 or BLS12-381 with boundary-biased operands: the outputs are the results modulo p, below p as computed, below 2^64 and the same element with other hints; all count")
        .run(case, operation);
    ctx.sub("hashes", 600, 20_000)
        .rule("Poseidon, leaf hash and tree path of the BLS12-381 library against the reference, altered paths included; all count")
        .run(hash, hashes);
    let l = Limits { nbits: (2, 3), ext: (1, 2), queries: 3, blocks: 3, min_queries: 2 };
    fn one<T: Circ>(ctx: &mut Ctx, n: (u64, u64), l: Limits, hash: &'static str) {
        ctx.sub(&format!("{}_generated", T::NAME), n.0, n.1)
            .rule("a disabled generated verifier with other values for its hints refuses; trivial when no hint can be altered")
            .run(
                move |s| {
                    let a = air(s, &l, hash);
                    let opt = Opt { enable: true, verkey: s.bool(), agg: false, skip: true };
                    (a, opt, s.many(6, cheat))
                },
                |(a, o, c), i| generated::<T>(a, *o, c, i),
            );
    }
    one::<MerkleTreeBN128>(ctx, (150, 4_000), l, "BN128");
    one::<MerkleTreeBLS12381>(ctx, (150, 4_000), l, "BLS12381");
}
