//! S08: literals of PIL descriptions, and descriptions through JSON.
use crate::air::{air, parse, Air, Limits};
use crate::conv::gint;
use crate::prover::setup;
use crate::s01::{classify, honest};
use starky::merklehash::MerkleTreeGL;
use starky::traits::MTNodeType;
use starky::types::{load_json, parse_pil_number, read_json, Expression, StarkStruct, PIL};
use vh::{ensure, ensure_eq, guard, Ctx, Info, Res, Src, GL_P};

/// A literal as the number of whole moduli added to a residue, and how it is spelt.
#[derive(Debug, Clone)]
struct Lit {
    v: u64,
    k: i64,
    hex: usize,
    pad: usize,
}
fn lit(s: &mut Src) -> Lit {
    let k = match s.weighted(&[4, 4, 3, 2, 2]) {
        0 => 0,
        1 => -1,
        2 => *s.pick(&[1, -2, 2, -3]),
        3 => s.usize(1 << 20) as i64 - (1 << 19),
        _ => (s.u64() >> 2) as i64 - (1 << 61),
    };
    Lit { v: s.gl(), k, hex: s.usize(4), pad: s.usize(4) }
}
fn spell(l: &Lit) -> String {
    let n = l.v as i128 + l.k as i128 * GL_P as i128;
    let pad = "0".repeat(l.pad);
    match l.hex {
        0 if n >= 0 => format!("0x{pad}{n:x}"),
        1 if n >= 0 => format!("0x{pad}{n:X}"),
        2 if n < 0 => format!("-{pad}{}", n.unsigned_abs()),
        2 => format!("{pad}{n}"),
        _ => n.to_string(),
    }
}
fn literal(l: &Lit, info: &mut Info) -> Res {
    let t = spell(l);
    info.class(match (l.k < -1, l.k == -1, t.starts_with("0x")) {
        (true, ..) => "below -p",
        (_, true, _) => "from -p to -1",
        (_, _, true) => "hexadecimal",
        _ => "not negative",
    });
    let g = guard(|| parse_pil_number(&t)).map_err(|e| format!("{t} panics: {e}"))?;
    ensure!(g == l.v, "{t} denotes {g}, not {}", l.v);
    ensure_eq!(parse(&t), l.v, "the harness' own reading");
    Ok(())
}
#[derive(Debug, Clone)]
struct Case {
    air: Air,
    lits: Vec<Lit>,
}
fn walk(e: &mut Expression, lits: &[Lit], i: &mut usize) {
    if e.op == "number" {
        if let Some(v) = &mut e.value {
            let l = &lits[*i % lits.len()];
            *i += 1;
            *v = spell(&Lit { v: parse(v), ..l.clone() });
        }
    }
    for x in e.values.iter_mut().flatten() {
        walk(x, lits, i);
    }
}
fn sums(a: &Air) -> Result<(Vec<u64>, serde_json::Value), vh::Fail> {
    let p = setup::<MerkleTreeGL>(a).map_err(|e| format!("setup fails: {e}"))?;
    let proof = honest(&p)?;
    Ok((gint(p.setup.const_root.as_elements()), serde_json::to_value(&proof).unwrap()))
}
fn deep(e: &Expression) -> serde_json::Value {
    serde_json::json!([
        e.op,
        e.deg,
        e.id,
        e.next,
        e.value,
        e.keep,
        e.keep2ns,
        e.idQ,
        e.const_,
        e.values.as_ref().map(|v| v.iter().map(deep).collect::<Vec<_>>())
    ])
}
fn same_pil(a: &PIL, b: &PIL) -> bool {
    a.nCommitments == b.nCommitments
        && a.nQ == b.nQ
        && a.nIm == b.nIm
        && a.nConstants == b.nConstants
        && a.publics == b.publics
        && a.references == b.references
        && a.expressions.iter().map(deep).eq(b.expressions.iter().map(deep))
        && a.polIdentities == b.polIdentities
        && a.plookupIdentities == b.plookupIdentities
        && a.permutationIdentities == b.permutationIdentities
        && a.connectionIdentities == b.connectionIdentities
}
fn program(c: &Case, info: &mut Info) -> Res {
    classify(&c.air, info);
    let mut b = c.air.clone();
    let mut n = 0;
    if !c.lits.is_empty() {
        for e in b.pil.expressions.iter_mut() {
            walk(e, &c.lits, &mut n);
        }
    }
    if n == 0 {
        info.trivial();
    }
    let (x, y) = (sums(&c.air)?, sums(&b)?);
    ensure!(x.0 == y.0, "another spelling of the literals gives other constants");
    ensure!(x.1 == y.1, "another spelling of the literals gives another proof");
    // through JSON
    let text = serde_json::to_string(&b.pil).map_err(|e| e.to_string())?;
    let back: PIL = read_json(text.clone()).map_err(|e| e.to_string())?;
    ensure!(same_pil(&b.pil, &back), "the description changes through JSON");
    ensure!(serde_json::to_string(&back).ok() == Some(text.clone()), "the second text differs");
    let shown: PIL = serde_json::from_str(&b.pil.to_string()).map_err(|e| e.to_string())?;
    ensure!(same_pil(&b.pil, &shown), "the displayed description is another");
    let path = std::env::temp_dir().join(format!("vh-s08-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&path, &text).unwrap();
    let loaded = load_json::<PIL>(path.to_str().unwrap());
    std::fs::remove_file(&path).ok();
    ensure!(same_pil(&b.pil, &loaded.map_err(|e| e.to_string())?), "the loaded description is another");
    ensure!(load_json::<PIL>(path.to_str().unwrap()).is_err(), "a missing file loads");
    let ss: StarkStruct = serde_json::from_str(&serde_json::to_string(&b.ss).unwrap()).map_err(|e| e.to_string())?;
    ensure!(ss == b.ss, "the STARK structure changes through JSON");
    let mut d = b.clone();
    d.pil = back;
    ensure!(sums(&d)?.1 == x.1, "the description read back gives another proof");
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("literals fit the 127-bit integers the reader supports; negative ones are decimal");
    ctx.sub("literals", 400_000, 20_000_000).rule("every literal counts").run(lit, literal);
    let l = Limits { nbits: (2, 4), ext: (1, 2), queries: 4, blocks: 4, min_queries: 1 };
    ctx.sub("programs", 1500, 40_000)
        .rule("programs with at least one literal, respelt")
        .run(move |s| Case { air: air(s, &l, "GL"), lits: s.vec(1, 6, lit) }, program);
}
