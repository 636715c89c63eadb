//! S09: joining two recursive inputs.
use serde_json::{json, Map, Value};
use vh::{ensure, guard, Ctx, Info, Res, Src};

#[derive(Debug, Clone)]
struct Case {
    a: Map<String, Value>,
    b: Map<String, Value>,
    /// what the output file held before
    before: Option<usize>,
    /// the output replaces an input: 1 or 2
    onto: usize,
}
fn text(s: &mut Src) -> String {
    match s.weighted(&[6, 1, 1]) {
        0 => s.gl().to_string(),
        1 => s.vec(0, 6, |s| *s.pick(&['a', '"', '\\', '\n', 'é', '{', '0', '\u{1f600}', '\u{0}'])).into_iter().collect(),
        _ => format!("0x{:x}", s.u64()),
    }
}
fn value(s: &mut Src, depth: usize) -> Value {
    match s.weighted(&[6, 1, 1, if depth > 0 { 5 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
        0 => json!(text(s)),
        1 => json!(s.u64()),
        2 => s.pick(&[Value::Null, json!(true), json!(-3)]).clone(),
        3 => Value::Array(s.vec(0, 4, |s| value(s, depth - 1))),
        _ => Value::Object(s.vec(0, 3, |s| (text(s), value(s, depth - 1))).into_iter().collect()),
    }
}
fn input(s: &mut Src) -> Map<String, Value> {
    let mut m = Map::new();
    for k in ["root1", "root2", "root3", "root4", "evals", "s1_root", "s1_vals", "s1_siblings", "s0_vals1", "s0_valsC", "finalPol"] {
        if s.chance(3, 4) {
            m.insert(k.into(), value(s, 3));
        }
    }
    if s.chance(5, 6) {
        m.insert("rootC".into(), value(s, 1));
    }
    if s.chance(9, 10) {
        let p = s.vec(0, 12, |s| json!(text(s)));
        m.insert("publics".into(), Value::Array(p));
    }
    // keys that look like what the join makes
    for _ in 0..s.usize(4) {
        let k = s.pick(&["a_publics", "b_publics", "a_", "b_root1", "a_root1", "proverAddr", "rootCSingle", "publics2", "xrootC", "é"]);
        m.insert(k.to_string(), value(s, 2));
    }
    m
}
fn check(c: &Case, info: &mut Info) -> Res {
    let dir = std::env::temp_dir().join(format!("vh-s09-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = in_dir(c, &dir, info);
    std::fs::remove_dir_all(&dir).ok();
    r
}
fn in_dir(c: &Case, dir: &std::path::Path, info: &mut Info) -> Res {
    let at = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let (f1, f2) = (at("1"), at("2"));
    let texts = [serde_json::to_string(&c.a).unwrap(), serde_json::to_string_pretty(&c.b).unwrap()];
    std::fs::write(&f1, &texts[0]).unwrap();
    std::fs::write(&f2, &texts[1]).unwrap();
    let out = match c.onto {
        1 => f1.clone(),
        2 => f2.clone(),
        _ => at("out"),
    };
    if c.onto == 0 {
        if let Some(n) = c.before {
            std::fs::write(&out, "x".repeat(n)).unwrap();
        }
    }
    // a missing input is refused, and nothing is written
    ensure!(!matches!(guard(|| starky::zkin_join::join_zkin(&f1, &at("none"), &at("no"))), Ok(Ok(()))), "a missing input is joined");
    guard(|| starky::zkin_join::join_zkin(&f1, &f2, &out))
        .map_err(|e| format!("joining panics: {e}"))?
        .map_err(|e| format!("joining fails: {e}"))?;
    let got = std::fs::read_to_string(&out).unwrap();
    let got: Map<String, Value> = serde_json::from_str(&got).map_err(|e| format!("the output is no JSON object: {e}"))?;
    let mut want = Map::new();
    for (k, v) in &c.a {
        want.insert(format!("a_{k}"), v.clone());
    }
    for (k, v) in &c.b {
        want.insert(format!("b_{k}"), v.clone());
    }
    if let Some(r) = c.a.get("rootC") {
        want.insert("rootC".into(), r.clone());
    }
    if let Some(Value::Array(p)) = c.a.get("publics") {
        // the last four are the root of the constants of the inner circuit
        let n = if p.len() >= 4 { p.len() - 4 } else { p.len() };
        info.class(if p.len() >= 4 { "publics with a root" } else { "fewer than four publics" });
        want.insert("publics".into(), Value::Array(p[..n].to_vec()));
    }
    for (k, v) in &want {
        ensure!(got.get(k) == Some(v), "{k} is {:?}, want {v}", got.get(k));
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "{k} comes from nowhere");
    }
    for (i, f) in [f1, f2].iter().enumerate() {
        if c.onto != i + 1 {
            ensure!(std::fs::read_to_string(f).unwrap() == texts[i], "input {} was changed", i + 1);
        }
    }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("the shared public values are those of the first input but the last four, which hold a root of constants");
    ctx.sub("join", 15_000, 500_000).rule("two inputs with different keys and nested values; all count").run(
        |s| Case {
            a: input(s),
            b: input(s),
            before: if s.bool() { Some(s.usize(100_000)) } else { None },
            onto: if s.chance(1, 8) { 1 + s.usize(2) } else { 0 },
        },
        check,
    );
}
