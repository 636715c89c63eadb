//! A01: the binary and the JSON form of an R1CS.
use crate::sides::*;
use crate::{biguint, dir, measured};
use num_bigint::BigUint;
use serde_json::{json, Map, Value};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src};

#[derive(Clone, Debug)]
pub struct Model {
    pub p: BigUint,
    pub n8: usize,
    pub n_out: u32,
    pub n_in: u32,
    pub n_prv: u32,
    pub n_wires: u32,
    pub n_labels: u64,
    pub cons: Vec<[Lc; 3]>,
    pub map: Vec<u64>,
    pub custom: bool,
    pub gates: Vec<(String, Vec<BigUint>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
    /// order of the sections, as a list of types; unknown ones come with content
    pub order: Vec<u32>,
    pub junk: Vec<u8>,
}
pub fn lc(s: &mut Src, p: &BigUint, wires: u32, sorted: bool) -> Lc {
    let mut idx: Vec<usize> = (0..wires as usize).collect();
    s.shuffle(&mut idx);
    let n = s.usize(idx.len().min(6) + 1);
    let mut idx = idx[..n].to_vec();
    if sorted {
        idx.sort();
    }
    idx.into_iter().map(|i| (i, biguint(s, p))).collect()
}
pub fn model(s: &mut Src, p: BigUint, n8: usize, big: bool) -> Model {
    let (n_out, n_in, n_prv) = (s.usize(4) as u32, s.usize(4) as u32, s.usize(4) as u32);
    let n_wires = 1 + n_out + n_in + n_prv + s.usize(if big { 60 } else { 7 }) as u32;
    let sorted = s.chance(1, 2);
    let cons = s.vec(0, if big { 40 } else { 6 }, |s| {
        [lc(s, &p, n_wires, sorted), lc(s, &p, n_wires, sorted), lc(s, &p, n_wires, sorted)]
    });
    let n_labels = n_wires as u64 + s.below(5) + if s.chance(1, 8) { 1 << 33 } else { 0 };
    let mut map = vec![0u64];
    for i in 1..n_wires as u64 {
        map.push(if s.chance(1, 4) { s.below(n_labels) } else { i });
    }
    let custom = s.chance(1, 2);
    let (mut gates, mut uses) = (vec![], vec![]);
    if custom {
        let names = ["CMul", "PoseidonT", "FFT4", "EvPol4", "x", "", "Größe", "a_rather_long_template_name_of_a_gate"];
        gates = s.vec(0, 4, |s| (s.pick(&names).to_string(), s.vec(0, 4, |s| biguint(s, &p))));
        uses = s.vec(0, 4, |s| {
            let id = if s.chance(1, 6) { s.below(1 << 32) } else { s.below(6) };
            (id, s.vec(0, 7, |s| if s.chance(1, 5) { s.u64() } else { s.below(n_wires as u64) }))
        });
    }
    let mut order = vec![1, 2, 3];
    if custom {
        order.extend([4, 5]);
    }
    if s.chance(1, 2) {
        s.shuffle(&mut order);
    }
    Model { p, n8, n_out, n_in, n_prv, n_wires, n_labels, cons, map, custom, gates, uses, order, junk: vec![] }
}
/// The same from a seed: thousands of wires and terms, wires beyond 2^16.
pub fn model_large(s: &mut Src, p: BigUint, n8: usize, wires: &[u32]) -> Model {
    let (cons, n_wires, pubs) = (*s.pick(&[20usize, 300, 2000]), *s.pick(wires), *s.pick(&[3usize, 300]));
    let q = &mut Src::random(s.u64());
    let mut m = model(q, p.clone(), n8, false);
    (m.n_out, m.n_in, m.n_prv) = (q.usize(pubs) as u32, q.usize(pubs) as u32, q.usize(pubs) as u32);
    m.n_wires = n_wires.max(1 + m.n_out + m.n_in + m.n_prv);
    m.n_labels = m.n_wires as u64 + q.below(5);
    m.map = (0..m.n_wires as u64).map(|i| if i > 0 && q.chance(1, 4) { q.below(m.n_labels) } else { i }).collect();
    let long = |q: &mut Src, n: usize| -> Lc {
        let mut l: std::collections::BTreeMap<usize, BigUint> = Default::default();
        for _ in 0..n {
            l.insert(if q.chance(1, 20) { m.n_wires as usize - 1 } else { q.usize(m.n_wires as usize) }, biguint(q, &p));
        }
        l.into_iter().collect()
    };
    m.cons = (0..cons)
        .map(|k| {
            std::array::from_fn(|j| {
                let n = if k == 0 && j == 2 { 3000 } else if q.chance(1, 100) { q.usize(300) } else { q.usize(5) };
                long(q, n)
            })
        })
        .collect();
    if m.custom {
        m.uses = (0..q.usize(400)).map(|_| (q.below(6), (0..q.usize(40)).map(|_| q.below(m.n_wires as u64)).collect())).collect();
    }
    m
}
/// Where the parts of a written file lie, for the mutations.
#[derive(Default, Clone, Debug)]
pub struct Layout {
    /// starts of field elements
    coefs: Vec<usize>,
    params: Vec<usize>,
    /// starts of 4-byte counts, and of the 8-byte section sizes
    counts: Vec<(usize, &'static str)>,
    sizes: Vec<(u32, usize)>,
    prime: usize,
    n_wires: usize,
}
pub fn write(m: &Model) -> (Vec<u8>, Layout) {
    let mut lay = Layout::default();
    let mut f = vec![];
    f.extend(b"r1cs");
    f.extend(1u32.to_le_bytes());
    f.extend((m.order.len() as u32).to_le_bytes());
    for t in &m.order {
        f.extend(t.to_le_bytes());
        let at = f.len();
        lay.sizes.push((*t, at));
        f.extend([0; 8]);
        let start = f.len();
        match t {
            1 => {
                f.extend((m.n8 as u32).to_le_bytes());
                lay.prime = f.len();
                f.extend(le_bytes(&m.p, m.n8));
                lay.n_wires = f.len();
                for x in [m.n_wires, m.n_out, m.n_in, m.n_prv] {
                    f.extend(x.to_le_bytes());
                }
                f.extend(m.n_labels.to_le_bytes());
                lay.counts.push((f.len(), "n_constraints"));
                f.extend((m.cons.len() as u32).to_le_bytes());
            }
            2 => {
                for l in m.cons.iter().flatten() {
                    lay.counts.push((f.len(), "terms"));
                    f.extend((l.len() as u32).to_le_bytes());
                    for (i, c) in l {
                        f.extend((*i as u32).to_le_bytes());
                        lay.coefs.push(f.len());
                        f.extend(le_bytes(c, m.n8));
                    }
                }
            }
            3 => m.map.iter().for_each(|x| f.extend(x.to_le_bytes())),
            4 => {
                lay.counts.push((f.len(), "gates"));
                f.extend((m.gates.len() as u32).to_le_bytes());
                for (n, ps) in &m.gates {
                    f.extend(n.as_bytes());
                    f.push(0);
                    lay.counts.push((f.len(), "parameters"));
                    f.extend((ps.len() as u32).to_le_bytes());
                    for p in ps {
                        lay.params.push(f.len());
                        f.extend(le_bytes(p, m.n8));
                    }
                }
            }
            5 => {
                lay.counts.push((f.len(), "uses"));
                f.extend((m.uses.len() as u32).to_le_bytes());
                for (id, sig) in &m.uses {
                    f.extend((*id as u32).to_le_bytes());
                    lay.counts.push((f.len(), "signals"));
                    f.extend((sig.len() as u32).to_le_bytes());
                    for x in sig {
                        f.extend(x.to_le_bytes());
                    }
                }
            }
            _ => f.extend(&m.junk),
        }
        let n = (f.len() - start) as u64;
        f[at..at + 8].copy_from_slice(&n.to_le_bytes());
    }
    (f, lay)
}
pub fn sys(m: &Model) -> Sys {
    let n_inputs = (1 + m.n_out + m.n_in) as usize;
    Sys {
        n_inputs,
        n_aux: m.n_wires as usize - n_inputs,
        n_vars: m.n_wires as usize,
        n_out: m.n_out as usize,
        cons: m.cons.clone(),
        gates: m.gates.clone(),
        uses: m.uses.clone(),
    }
}
/// The order of terms within a linear combination says nothing.
pub fn normal(mut s: Sys) -> Sys {
    for l in s.cons.iter_mut().flatten() {
        l.sort();
    }
    s
}
fn head(m: &Model) -> Head {
    Head {
        version: 1,
        field_size: m.n8 as u32,
        prime: le_bytes(&m.p, m.n8),
        n_wires: m.n_wires,
        n_pub_out: m.n_out,
        n_pub_in: m.n_in,
        n_prv_in: m.n_prv,
        n_labels: m.n_labels,
        n_constraints: m.cons.len() as u32,
        custom: m.custom,
        map: m.map.clone(),
    }
}
fn exact<S: Side>(s: &mut Src) -> (Model, bool) {
    let mut m = model(s, S::p(), S::n8(), false);
    if s.chance(1, 8) {
        m = model(s, S::p(), S::n8(), true);
    }
    // sections this version of the format does not define are skipped
    if s.chance(1, 4) {
        m.junk = s.vec(0, 40, |s| s.below(256) as u8);
        let at = s.usize(m.order.len() + 1);
        m.order.insert(at, *s.pick(&[6, 100, 0x1_0000]));
    }
    (m, s.chance(1, 6))
}
fn check_exact<S: Side>((m, file): &(Model, bool), i: &mut Info) -> Res {
    i.class(S::NAME);
    if m.cons.is_empty() || m.cons.iter().flatten().all(|l| l.is_empty()) {
        i.trivial();
    }
    if m.custom {
        i.class("custom gates");
    }
    if !m.order.is_sorted() {
        i.class("sections out of order");
    }
    let (b, _) = write(m);
    let want = normal(sys(m));
    let (h, f) = guard(|| S::file(&b))??;
    ensure_eq!(h, head(m), "header");
    ensure_eq!(normal(f.clone()).cons, want.cons, "constraints");
    ensure_eq!(f.gates, want.gates, "custom gates");
    ensure_eq!(f.uses, want.uses, "uses of custom gates");
    let (r, map) = guard(|| S::r1cs_bin(&b))?;
    ensure_eq!(normal(r), want, "circuit");
    ensure_eq!(map, m.map.iter().map(|x| *x as usize).collect::<Vec<_>>(), "wire map");
    if *file {
        let d = dir("a01");
        let p = d.path("c.r1cs");
        std::fs::write(&p, &b).unwrap();
        let r = guard(|| S::r1cs_path(&p))?;
        ensure_eq!(normal(r), want, "circuit from a file");
    }
    i.evals(1);
    Ok(())
}

pub fn to_json(m: &Model) -> Value {
    let lc = |l: &Lc| Value::Object(l.iter().map(|(i, c)| (i.to_string(), json!(c.to_string()))).collect::<Map<_, _>>());
    json!({
        "constraints": m.cons.iter().map(|c| c.iter().map(lc).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "nPubInputs": m.n_in, "nOutputs": m.n_out, "nVars": m.n_wires,
    })
}
fn check_json<S: Side>(m: &Model, i: &mut Info) -> Res {
    i.class(S::NAME);
    if m.cons.iter().flatten().all(|l| l.is_empty()) {
        i.trivial();
    }
    let d = dir("a01j");
    let p = d.path("c.json");
    std::fs::write(&p, to_json(m).to_string()).unwrap();
    let got = normal(guard(|| S::r1cs_path(&p))?);
    let mut want = normal(sys(m));
    want.gates.clear();
    want.uses.clear();
    ensure_eq!(got, want, "circuit from JSON");
    Ok(())
}

#[derive(Clone, Debug)]
enum Bad {
    Cut(usize),
    Byte { at: usize, xor: u8 },
    Version(u32),
    Prime(String),
    Coef { which: usize, raw: Vec<u8> },
    Param { which: usize, raw: Vec<u8> },
    Count { which: usize, v: u32 },
    Wires(u32),
}
fn over(s: &mut Src, p: &BigUint, n8: usize) -> Vec<u8> {
    let top = (BigUint::from(1u8) << (8 * n8)) - p;
    let d = match s.usize(3) {
        0 => BigUint::from(s.below(3)),
        1 => biguint(s, &top),
        _ => top.clone() - 1u8,
    };
    le_bytes(&(p + d.min(top - 1u8)), n8)
}
fn bad<S: Side>(s: &mut Src) -> (Model, Bad) {
    let m = model(s, S::p(), S::n8(), false);
    let (b, lay) = write(&m);
    let k = match s.weighted(&[5, 1, 1, 2, 3, 2, 4, 1]) {
        0 => Bad::Cut(s.usize(b.len())),
        1 => Bad::Byte { at: s.usize(4), xor: 1 + s.below(255) as u8 },
        2 => Bad::Version(*s.pick(&[0, 2, 3, 257, u32::MAX])),
        3 => {
            let others: Vec<_> = [BN, BLS, GLP].into_iter().filter(|x| dec(x) != m.p).collect();
            match s.usize(3) {
                0 => Bad::Prime(s.pick(&others).to_string()),
                1 => Bad::Prime((m.p.clone() - 2u8).to_string()),
                _ => {
                    let bit = BigUint::from(1u8) << s.usize(m.n8 * 8);
                    Bad::Prime((m.p.clone() ^ bit).to_string())
                }
            }
        }
        4 if !lay.coefs.is_empty() => Bad::Coef { which: s.usize(lay.coefs.len()), raw: over(s, &m.p, m.n8) },
        5 if !lay.params.is_empty() => Bad::Param { which: s.usize(lay.params.len()), raw: over(s, &m.p, m.n8) },
        7 => Bad::Wires(1 << s.range(20, 31)),
        _ => {
            // more entries than a file of this length can hold
            let v = *s.pick(&[1 << 16, 1 << 20, 1 << 24, 1 << 28, 0x7fff_ffff, u32::MAX]);
            Bad::Count { which: s.usize(lay.counts.len()), v }
        }
    };
    (m, k)
}
fn check_bad<S: Side>((m, k): &(Model, Bad), i: &mut Info) -> Res {
    i.class(S::NAME);
    let (mut b, lay) = write(m);
    let set = |b: &mut Vec<u8>, at: usize, v: &[u8]| b[at..at + v.len()].copy_from_slice(v);
    match k {
        Bad::Cut(n) => {
            i.class("cut");
            b.truncate(*n)
        }
        Bad::Byte { at, xor } => b[*at] ^= xor,
        Bad::Version(v) => set(&mut b, 4, &v.to_le_bytes()),
        Bad::Prime(p) => {
            let p = dec(p);
            if p.bits() as usize > 8 * m.n8 || p.bits() <= 64 && m.n8 == 32 {
                // another width: write the file for that width
                let mut m2 = m.clone();
                m2.n8 = if m.n8 == 32 { 8 } else { 32 };
                m2.p = p;
                for c in m2.cons.iter_mut().flatten().flatten() {
                    c.1 %= &m2.p;
                }
                for c in m2.gates.iter_mut().flat_map(|g| g.1.iter_mut()) {
                    *c %= &m2.p;
                }
                b = write(&m2).0;
            } else {
                set(&mut b, lay.prime, &le_bytes(&p, m.n8));
            }
            i.class("prime");
        }
        Bad::Coef { which, raw } => {
            i.class("coefficient outside the field");
            set(&mut b, lay.coefs[*which], raw)
        }
        Bad::Param { which, raw } => {
            i.class("gate parameter outside the field");
            set(&mut b, lay.params[*which], raw)
        }
        Bad::Count { which, v } => {
            let (at, name) = lay.counts[*which];
            i.class(format!("count of {name}"));
            set(&mut b, at, &v.to_le_bytes());
        }
        Bad::Wires(v) => {
            // consistent with the size of the wire map's section, of which the file has the beginning
            i.class("count of wires");
            set(&mut b, lay.n_wires, &v.to_le_bytes());
            let at = lay.sizes.iter().find(|x| x.0 == 3).unwrap().1;
            set(&mut b, at, &(*v as u64 * 8).to_le_bytes());
        }
    }
    verdict::<S>(&b, true)
}
/// Runs both entry points over a file that may be anything.
fn verdict<S: Side>(b: &[u8], refuse: bool) -> Res {
    for who in 0..2 {
        let (r, most) = measured(|| {
            guard(|| match who {
                0 => S::file(b).map(|_| ()),
                _ => {
                    S::r1cs_bin(b);
                    Ok(())
                }
            })
        });
        ensure!(most <= (64 << 20) + 100 * b.len(), "{most} bytes at once for a file of {} bytes", b.len());
        match r {
            Err(e) if e == LOOPS => return Err(format!("{e} ({} bytes)", b.len()).into()),
            Err(_) | Ok(Err(_)) => {}
            Ok(Ok(())) if refuse => return Err(format!("accepted by {}", ["from_reader", "load_r1cs_from_bin"][who]).into()),
            Ok(Ok(())) => {}
        }
    }
    Ok(())
}
/// Any file at all: no verdict expected, but an end is.
fn check_any<S: Side>((m, edits): &(Model, Vec<(u8, usize, u64)>), i: &mut Info) -> Res {
    i.class(S::NAME);
    let (mut b, lay) = write(m);
    for (kind, at, v) in edits {
        let at = at % b.len().max(1);
        match kind {
            0 => b[at] = *v as u8,
            1 => {
                let n = at.min(b.len() - 4.min(b.len()));
                for (k, x) in (*v as u32).to_le_bytes().iter().enumerate() {
                    b[n + k] = *x;
                }
            }
            2 => {
                let (_, at) = lay.sizes[at % lay.sizes.len()];
                if at + 8 <= b.len() {
                    b[at..at + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            _ => {
                b.remove(at);
            }
        }
    }
    verdict::<S>(&b, false)
}
fn any<S: Side>(s: &mut Src) -> (Model, Vec<(u8, usize, u64)>) {
    let m = model(s, S::p(), S::n8(), false);
    let e = s.vec(1, 4, |s| (s.below(4) as u8, s.usize(4000), s.edgy_u64(&[])));
    (m, e)
}

fn one<S: Side>(ctx: &mut Ctx) {
    let n = S::NAME.replace('/', "_");
    ctx.sub(&format!("exact_{n}"), 20_000, 1_000_000)
        .rule("non-trivial when some linear combination has a term")
        .run(exact::<S>, check_exact::<S>);
    ctx.sub(&format!("large_{n}"), 200, 2_000)
        .shrink(10)
        .rule("up to 2000 constraints, 3000 terms, 140000 wires; every case")
        .run(
            |s| (model_large(s, S::p(), S::n8(), &[300, 5000, 70_000, 140_000]), s.bool()),
            |c: &(Model, bool), i| {
                check_exact::<S>(c, i)?;
                check_json::<S>(&c.0, i)
            },
        );
    ctx.sub(&format!("json_{n}"), 3_000, 100_000)
        .rule("non-trivial when some linear combination has a term")
        .run(|s| model(s, S::p(), S::n8(), false), check_json::<S>);
    ctx.sub(&format!("refused_{n}"), 40_000, 2_000_000)
        .rule("every case is a file with one defect")
        .risky()
        .run(bad::<S>, check_bad::<S>);
    ctx.sub(&format!("any_file_{n}"), 30_000, 2_000_000)
        .rule("every case is an edited file")
        .risky()
        .run(any::<S>, check_any::<S>);
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("refusal is an error or a panic of the loader, never an abort; memory is the largest single request");
    one::<gpu::GpuBls>(ctx);
    one::<gpu::GpuBn>(ctx);
    one::<ce::CeBn>(ctx);
    one::<ce::CeBls>(ctx);
    one::<ce::CeGl>(ctx);
}
