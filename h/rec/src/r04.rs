//! R04: the prover's description of an analysed program.
use crate::comp::dir;
use crate::pil::*;
use powdr::ast::analyzed::*;
use powdr::number::GoldilocksField as G;
use powdr_parser_util::SourceRef;
use starky::types::{Expression, PIL};
use std::collections::HashMap;
use std::sync::Arc;
use vh::gl::{self, add, mul, neg};
use vh::{ensure, ensure_eq, guard, Ctx, Fail, Info, Res, Src, GL_P};

#[derive(Clone, Debug)]
struct Case {
    an: Analyzed<G>,
    seed: u64,
}
#[derive(Clone)]
struct Pol {
    name: String,
    id: u64,
    t: PolynomialType,
}
struct Gen<'a> {
    s: &'a mut Src,
    pols: Vec<Pol>,
    publics: Vec<String>,
}
fn bin(l: Ex, op: AlgebraicBinaryOperator, r: Ex) -> Ex {
    Ex::BinaryOperation(AlgebraicBinaryOperation { left: Box::new(l), op, right: Box::new(r) })
}
impl Gen<'_> {
    fn num(&mut self) -> Ex {
        Ex::Number(G::from(self.s.gl()))
    }
    fn leaf(&mut self) -> Ex {
        match self.s.weighted(&[16, 4, 2, 1]) {
            0 if !self.pols.is_empty() => {
                let p = self.s.pick(&self.pols).clone();
                Ex::Reference(AlgebraicReference { name: p.name, poly_id: PolyID { id: p.id, ptype: p.t }, next: self.s.chance(1, 3) })
            }
            2 if !self.publics.is_empty() => Ex::PublicReference(self.s.pick(&self.publics).clone()),
            3 => Ex::Challenge(Challenge { id: self.s.below(4), stage: 1 + self.s.below(3) as u32 }),
            _ => self.num(),
        }
    }
    fn constant(&mut self) -> Ex {
        let (a, b) = (self.num(), Ex::Number(G::from(self.s.below(6))));
        bin(a, AlgebraicBinaryOperator::Pow, b)
    }
    fn ex(&mut self, depth: usize) -> Ex {
        if depth == 0 {
            return self.leaf();
        }
        match self.s.weighted(&[4, 3, 3, 4, 1, 1]) {
            0 => self.leaf(),
            k @ 1..=3 => {
                let (l, r) = (self.ex(depth - 1), self.ex(depth - 1));
                use AlgebraicBinaryOperator::*;
                bin(l, [Add, Sub, Mul][k - 1], r)
            }
            4 => Ex::UnaryOperation(AlgebraicUnaryOperation { op: AlgebraicUnaryOperator::Minus, expr: Box::new(self.ex(depth - 1)) }),
            _ => self.constant(),
        }
    }
}
fn gen(big: usize) -> impl Fn(&mut Src) -> Case {
    move |s| {
        let degree = 1u64 << s.range(1, 4);
        let mut an: Analyzed<G> = Analyzed::new();
        an.degree = Some(degree);
        // texts the statements come from
        let files: Vec<(Option<Arc<str>>, Option<Arc<str>>)> = s.vec(1, 3, |s| {
            let name = s.pick(&[Some("a.pil"), Some("/x/y.z/main.pil"), Some("../rel/b.pil"), Some("ä/ö.pil"), None]).map(Arc::from);
            let lines = s.vec(0, 12, |s| "x".repeat(s.usize(9)));
            let mut text = lines.join("\n");
            if s.bool() {
                text.push('\n');
            }
            (name, if s.chance(1, 8) { None } else { Some(Arc::from(text.as_str())) })
        });
        let source = |s: &mut Src| {
            let (n, t) = s.pick(&files).clone();
            let start = t.as_ref().map_or(0, |t| s.usize(t.len() + 1));
            SourceRef { file_name: n, file_contents: t, start, end: start }
        };
        let style = s.weighted(&[4, 1, 1]);
        let space = s.vec(1, 3, |_| ()).len();
        let full = |ns: usize, n: usize| match style {
            0 => format!("N{ns}.p{n}"),
            1 => format!("N{ns}::p{n}"),
            _ => format!("std::N{ns}::p{n}"),
        };
        // what is declared, then the order of everything
        let (mut next, mut pols) = (HashMap::new(), vec![]);
        enum Item {
            Def(String, Symbol),
            Public(usize),
            Identity,
        }
        let mut items = vec![];
        for n in 0..s.range(1, big) {
            let t = [PolynomialType::Committed, PolynomialType::Constant, PolynomialType::Intermediate][s.weighted(&[3, 2, 3])];
            let length = s.chance(1, 3).then(|| s.range(1, 4) as u64);
            let name = full(s.usize(space), n);
            let c = next.entry(t).or_insert(0);
            let sym = Symbol { id: *c, source: source(s), absolute_name: name.clone(), kind: SymbolKind::Poly(t), length };
            *c += length.unwrap_or(1);
            for (_, id) in sym.array_elements() {
                pols.push(Pol { name: name.clone(), id: id.id, t });
            }
            items.push(Item::Def(name, sym));
        }
        let n_pub = if items.iter().any(|i| matches!(i, Item::Def(_, y) if y.kind != SymbolKind::Poly(PolynomialType::Constant))) { s.usize(4) } else { 0 };
        items.extend((0..n_pub).map(Item::Public));
        items.extend((0..s.usize(big)).map(|_| Item::Identity));
        // what is declared may come in any order; the numbers of polynomials stay those of the analyser
        s.shuffle(&mut items);
        let publics: Vec<String> = (0..n_pub).map(|i| format!("N0.pub{i}")).collect();
        let syms: Vec<Symbol> = items.iter().filter_map(|i| if let Item::Def(_, y) = i { Some(y.clone()) } else { None }).collect();
        // intermediate polynomials refer to those before them only: no cycles
        let mut n_public = 0;
        for it in items {
            match it {
                Item::Def(name, sym) => {
                    an.source_order.push(StatementIdentifier::Definition(name.clone()));
                    if sym.kind == SymbolKind::Poly(PolynomialType::Intermediate) {
                        let first = sym.id;
                        let usable = pols.iter().filter(|p| p.t != PolynomialType::Intermediate || p.id < first).cloned().collect();
                        let mut g = Gen { s: &mut *s, pols: usable, publics: publics.clone() };
                        let v = (0..sym.length.unwrap_or(1)).map(|_| g.ex(3)).collect();
                        an.intermediate_columns.insert(name, (sym, v));
                    } else {
                        an.definitions.insert(name, (sym, None));
                    }
                }
                Item::Public(i) => {
                    let y = s.pick(&syms).clone();
                    let SymbolKind::Poly(t) = y.kind else { unreachable!() };
                    let d = PublicDeclaration {
                        id: n_public,
                        source: source(s),
                        name: publics[i].clone(),
                        polynomial: PolynomialReference { name: y.absolute_name.clone(), poly_id: Some(PolyID { id: y.id, ptype: t }) },
                        // an element of an array is named by its index
                        array_index: y.length.map(|l| s.usize(l as usize)),
                        index: s.below(degree),
                    };
                    n_public += 1;
                    an.source_order.push(StatementIdentifier::PublicDeclaration(publics[i].clone()));
                    an.public_declarations.insert(publics[i].clone(), d);
                }
                Item::Identity => {
                    let kind = [IdentityKind::Polynomial, IdentityKind::Plookup, IdentityKind::Permutation, IdentityKind::Connect][s.weighted(&[4, 2, 2, 1])];
                    let mut g = Gen { s: &mut *s, pols: pols.clone(), publics: publics.clone() };
                    let (mut l, mut r) = (SelectedExpressions::default(), SelectedExpressions::default());
                    if kind == IdentityKind::Polynomial {
                        l.selector = Some(g.ex(4));
                    } else {
                        let n = g.s.range(1, 4);
                        for e in [&mut l, &mut r] {
                            e.expressions = (0..n).map(|_| g.ex(2)).collect();
                            if kind != IdentityKind::Connect && g.s.bool() {
                                e.selector = Some(g.ex(2));
                            }
                        }
                    }
                    let id = an.identities.len();
                    an.source_order.push(StatementIdentifier::Identity(id));
                    let source = source(s);
                    an.identities.push(Identity { id: id as u64, kind, source, left: l, right: r });
                }
            }
        }
        Case { an, seed: s.u64() }
    }
}

/// Values of everything on a few rows, the same on both sides.
struct Table<'a> {
    pil: &'a Pil,
    json: &'a PIL,
    cm: Vec<Vec<u64>>,
    cc: Vec<Vec<u64>>,
    publics: Vec<u64>,
}
impl Table<'_> {
    fn json(&self, e: &Expression, r: usize, d: usize) -> Result<u64, Fail> {
        ensure!(d < 200, "expressions refer to each other in a circle");
        let n = self.pil.n;
        let at = if e.next() { (r + 1) % n } else { r };
        let id = || e.id.ok_or(Fail::from(format!("{} without id", e.op)));
        let v = |k: usize| -> Result<u64, Fail> {
            let x = e.values.as_ref().and_then(|v| v.get(k)).ok_or(Fail::from(format!("{} without operand {k}", e.op)))?;
            self.json(x, r, d + 1)
        };
        let col = |t: &[Vec<u64>]| -> Result<u64, Fail> { Ok(t.get(id()?).ok_or(Fail::from(format!("{} {:?}", e.op, e.id)))?[at]) };
        Ok(match e.op.as_str() {
            "cm" => col(&self.cm)?,
            "const" => col(&self.cc)?,
            "exp" => {
                let x = self.json.expressions.get(id()?).ok_or(Fail::from(format!("no expression {:?}", e.id)))?;
                self.json(x, at, d + 1)?
            }
            "challenge" => challenge(id()? as u64),
            "public" => *self.publics.get(id()?).ok_or(Fail::from("no such public"))?,
            "number" => {
                let t = e.value.as_ref().ok_or(Fail::from("number without value"))?;
                let (m, t) = t.strip_prefix('-').map_or((false, t.as_str()), |t| (true, t));
                let v: u64 = t.parse().map_err(|e| format!("number {t}: {e}"))?;
                ensure!(v < GL_P, "number {v}");
                if m {
                    neg(v)
                } else {
                    v
                }
            }
            "add" => add(v(0)?, v(1)?),
            "sub" => gl::sub(v(0)?, v(1)?),
            "mul" => mul(v(0)?, v(1)?),
            "pow" => gl::pow(v(0)?, v(1)?),
            "neg" => neg(v(0)?),
            o => return Err(format!("operation {o}").into()),
        })
    }
    fn same(&self, a: &Ex, e: usize, what: &str) -> Res {
        let x = self.json.expressions.get(e).ok_or(Fail::from(format!("{what}: no expression {e}")))?;
        let publics = self.pil.an.public_declarations.iter().map(|(n, d)| (n.clone(), self.publics[d.id as usize])).collect();
        let t = Trace { cm: &self.cm, cc: &self.cc, publics };
        let mut memo = HashMap::new();
        for r in 0..self.pil.n {
            let (l, m) = (self.pil.eval(a, r, &t, &mut memo), self.json(x, r, 0)?);
            ensure_eq!(m, l, "{what} (expression {e}) on row {r}");
        }
        degrees(a, x, what, true)
    }
}
/// The degree of an expression in the columns, an intermediate polynomial counting as one.
fn degree(a: &Ex) -> usize {
    match a {
        Ex::Reference(_) => 1,
        Ex::BinaryOperation(o) => {
            let (l, r) = (degree(&o.left), degree(&o.right));
            if o.op == AlgebraicBinaryOperator::Mul {
                l + r
            } else {
                l.max(r)
            }
        }
        Ex::UnaryOperation(o) => degree(&o.expr),
        _ => 0,
    }
}
fn degrees(a: &Ex, x: &Expression, what: &str, top: bool) -> Res {
    // a quotient of its own makes the expression one of degree one
    if top && x.idQ.is_some() {
        ensure_eq!(x.deg, 1, "{what}: degree of an expression with a quotient");
    } else {
        ensure_eq!(x.deg, degree(a), "{what}: degree");
        ensure!(x.idQ.is_none() || top, "{what}: a quotient of an inner expression");
    }
    // the parts, where they correspond
    match (a, x.op.as_str(), x.values.as_deref()) {
        (Ex::BinaryOperation(o), "add" | "sub" | "mul" | "pow", Some([l, r])) => {
            degrees(&o.left, l, what, false)?;
            degrees(&o.right, r, what, false)
        }
        (Ex::UnaryOperation(o), "neg", Some([v])) => degrees(&o.expr, v, what, false),
        _ => Ok(()),
    }
}
fn line(s: &SourceRef) -> usize {
    match &s.file_contents {
        None => 0,
        Some(t) => 1 + t.as_bytes()[..s.start].iter().filter(|b| **b == b'\n').count(),
    }
}
fn file(s: &SourceRef) -> String {
    s.file_name.as_deref().map_or(String::new(), |f| f.rsplit('/').next().unwrap().to_string())
}
fn compare(an: &Analyzed<G>, json: &PIL, seed: u64) -> Res {
    let pil = Pil::new(an.clone());
    let mut r = vh::Rng::new(seed);
    let mut col = |n: usize| (0..n).map(|_| (0..pil.n).map(|_| r.next() % GL_P).collect::<Vec<u64>>()).collect::<Vec<_>>();
    let (cm, cc) = (col(pil.n_cm), col(pil.n_const));
    let publics = col(json.publics.len()).iter().map(|c| c[0]).collect();
    ensure_eq!(json.nCommitments, pil.n_cm, "nCommitments");
    ensure_eq!(json.nConstants, pil.n_const, "nConstants");
    ensure_eq!(json.nIm, an.intermediate_count(), "nIm");
    let q: Vec<usize> = json.expressions.iter().filter_map(|e| e.idQ).collect();
    ensure_eq!(q, (0..json.nQ).collect::<Vec<_>>(), "quotients");
    ensure_eq!(json.publics.len(), an.public_declarations.len(), "publics");
    let t = Table { pil: &pil, json, cm, cc, publics };
    // names
    let all = an.definitions.values().map(|d| &d.0).chain(an.intermediate_columns.values().map(|d| &d.0));
    let mut first = HashMap::new();
    ensure_eq!(json.references.len(), an.definitions.len() + an.intermediate_columns.len(), "references");
    for y in all {
        // the last separator is a dot, and the only one
        let name = match y.absolute_name.rsplit_once("::") {
            Some((a, b)) => format!("{a}.{b}"),
            None => y.absolute_name.clone(),
        };
        let f = json.references.get(&name).ok_or(Fail::from(format!("no reference {name}")))?;
        let SymbolKind::Poly(p) = y.kind else { panic!() };
        let ty = match p {
            PolynomialType::Committed => "cmP",
            PolynomialType::Constant => "constP",
            PolynomialType::Intermediate => "imP",
        };
        ensure_eq!(f.type_, ty, "type of {name}");
        ensure_eq!(f.isArray, y.length.is_some(), "array {name}");
        ensure_eq!(f.len, y.length.map(|l| l as usize), "length of {name}");
        ensure_eq!(f.polDeg, pil.n, "degree of {name}");
        if p != PolynomialType::Intermediate {
            ensure_eq!(f.id, y.id as usize, "id of {name}");
        } else {
            let (_, v) = &an.intermediate_columns[&y.absolute_name];
            for (k, e) in v.iter().enumerate() {
                first.insert(y.id + k as u64, f.id + k);
                t.same(e, f.id + k, &format!("{name}, element {k}"))?;
                ensure_eq!(json.expressions[f.id + k].idQ.is_some(), degree(e) > 1, "quotient of {name}, element {k}");
            }
        }
    }
    let (mut np, mut nl, mut nm, mut nc, mut pubs) = (0, 0, 0, 0, 0);
    for s in &an.source_order {
        match s {
            StatementIdentifier::Definition(_) => {}
            StatementIdentifier::PublicDeclaration(n) => {
                let d = &an.public_declarations[n];
                let p = &json.publics[pubs];
                let id = d.polynomial.poly_id.unwrap();
                let at = id.id + d.array_index.unwrap_or(0) as u64;
                let (ty, at) = match id.ptype {
                    PolynomialType::Committed => ("cmP", at as usize),
                    PolynomialType::Constant => ("constP", at as usize),
                    PolynomialType::Intermediate => ("imP", first[&at]),
                };
                ensure_eq!((p.polType.as_str(), p.polId, p.idx, p.id, p.name.as_str()), (ty, at, d.index as usize, pubs, n.as_str()), "public {n}");
                pubs += 1;
            }
            StatementIdentifier::Identity(k) => {
                let i = &an.identities[*k];
                let what = format!("identity {k}");
                let want_src = (file(&i.source), line(&i.source));
                let side = |e: &SelectedExpressions<Ex>, ids: &Option<Vec<usize>>, sel: &Option<usize>| -> Res {
                    let ids = ids.as_ref().ok_or(Fail::from(format!("{what}: no expressions")))?;
                    ensure_eq!(ids.len(), e.expressions.len(), "{what}: number of expressions");
                    for (a, x) in e.expressions.iter().zip(ids) {
                        t.same(a, *x, &what)?;
                        ensure_eq!(json.expressions[*x].idQ.is_some(), degree(a) > 1, "{what}: quotient");
                    }
                    ensure_eq!(sel.is_some(), e.selector.is_some(), "{what}: selector");
                    if let (Some(a), Some(x)) = (&e.selector, sel) {
                        t.same(a, *x, &format!("selector of {what}"))?;
                        ensure_eq!(json.expressions[*x].idQ.is_some(), degree(a) > 1, "{what}: quotient of the selector");
                    }
                    Ok(())
                };
                let src = match i.kind {
                    IdentityKind::Polynomial => {
                        let x = json.polIdentities.get(np).ok_or(Fail::from("identities are missing"))?;
                        np += 1;
                        let a = i.left.selector.as_ref().unwrap();
                        t.same(a, x.e, &what)?;
                        ensure_eq!(json.expressions[x.e].idQ.is_some(), degree(a) > 2, "{what}: quotient");
                        (x.fileName.clone(), x.line)
                    }
                    IdentityKind::Plookup => {
                        let x = json.plookupIdentities.get(nl).ok_or(Fail::from("lookups are missing"))?;
                        nl += 1;
                        side(&i.left, &x.f, &x.selF)?;
                        side(&i.right, &x.t, &x.selT)?;
                        (x.fileName.clone(), x.line)
                    }
                    IdentityKind::Permutation => {
                        let x = json.permutationIdentities.as_ref().and_then(|v| v.get(nm)).ok_or(Fail::from("permutations are missing"))?;
                        nm += 1;
                        side(&i.left, &x.f, &x.selF)?;
                        side(&i.right, &x.t, &x.selT)?;
                        (x.fileName.clone(), x.line)
                    }
                    IdentityKind::Connect => {
                        let x = json.connectionIdentities.as_ref().and_then(|v| v.get(nc)).ok_or(Fail::from("connections are missing"))?;
                        nc += 1;
                        side(&i.left, &x.pols, &None)?;
                        side(&i.right, &x.connections, &None)?;
                        (x.fileName.clone(), x.line)
                    }
                };
                ensure_eq!(src, want_src, "{what}: file and line");
            }
        }
    }
    ensure_eq!(json.polIdentities.len(), np, "number of identities");
    ensure_eq!(json.plookupIdentities.len(), nl, "number of lookups");
    ensure_eq!(json.permutationIdentities.as_ref().map_or(0, |v| v.len()), nm, "number of permutations");
    ensure_eq!(json.connectionIdentities.as_ref().map_or(0, |v| v.len()), nc, "number of connections");
    Ok(())
}
fn check(c: &Case, i: &mut Info) -> Res {
    let json = guard(|| recursion::pilcom::export(&c.an))?;
    if c.an.identities.is_empty() {
        i.trivial();
    }
    for x in &c.an.identities {
        i.class(format!("{:?}", x.kind));
    }
    if !json.expressions.iter().all(|e| e.idQ.is_none()) {
        i.class("quotients");
    }
    compare(&c.an, &json, c.seed)?;
    // the file the prover reads
    let text = serde_json::to_string(&json).map_err(|e| e.to_string())?;
    let back: PIL = serde_json::from_str(&text).map_err(|e| format!("{e}: {text}"))?;
    compare(&c.an, &back, c.seed).map_err(|f| Fail::from(format!("read back: {}", f.msg)))
}

// ------------------------------------------------------------------------------------------- text

#[derive(Clone, Debug)]
struct Text {
    text: String,
    seed: u64,
}
fn gen_text(s: &mut Src) -> Text {
    let bits = s.range(1, 5);
    let mut t = format!("let N: int = 2**{bits};\n");
    let mut names: Vec<(String, Option<usize>)> = vec![];
    let mut publics = vec![];
    let mut k = 0;
    for ns in 0..s.range(1, 3) {
        t += &format!("namespace M{ns}(N);\n");
        for _ in 0..s.range(1, 6) {
            let len = s.chance(1, 3).then(|| s.range(1, 4));
            let l = len.map_or(String::new(), |l| format!("[{l}]"));
            let word = *s.pick(&["constant", "commit", "fixed", "witness"]);
            t += &format!("    pol {word} x{k}{l};\n");
            names.push((format!("M{ns}.x{k}"), len));
            k += 1;
        }
        for _ in 0..s.usize(6) {
            let e = text_ex(s, &names, &publics, 3);
            match s.weighted(&[3, 4, 2, 1, 1]) {
                0 => {
                    t += &format!("    pol x{k} = {e};\n");
                    names.push((format!("M{ns}.x{k}"), None));
                    k += 1;
                }
                1 => {
                    let f = if s.bool() { "0".to_string() } else { text_ex(s, &names, &publics, 1) };
                    t += &format!("    {e} = {f};\n");
                }
                2 => {
                    let (a, b) = (text_ref(s, &names), text_ref(s, &names));
                    let word = *s.pick(&["in", "is"]);
                    let sel = if s.bool() { format!("{} $ ", text_ref(s, &names)) } else { String::new() };
                    t += &format!("    {sel}[{e}, {a}] {word} [{b}, {a}];\n");
                }
                3 => {
                    let (a, b) = (text_ref(s, &names), text_ref(s, &names));
                    t += &format!("    [{a}, {b}] connect [{b}, {a}];\n");
                }
                _ => {
                    let (n, l) = s.pick(&names).clone();
                    let l = l.map_or(String::new(), |l| format!("[{}]", s.usize(l)));
                    t += &format!("    public p{k} = {n}{l}({});\n", s.usize(1 << bits));
                    publics.push((ns, format!("p{k}")));
                    k += 1;
                }
            }
        }
        // publics of a namespace are named within it
        publics.clear();
    }
    Text { text: t, seed: s.u64() }
}
fn text_ref(s: &mut Src, names: &[(String, Option<usize>)]) -> String {
    let (n, l) = s.pick(names).clone();
    let l = l.map_or(String::new(), |l| format!("[{}]", s.usize(l)));
    format!("{n}{l}{}", if s.chance(1, 4) { "'" } else { "" })
}
fn text_ex(s: &mut Src, names: &[(String, Option<usize>)], publics: &[(usize, String)], d: usize) -> String {
    match if d == 0 { s.weighted(&[4, 1]) } else { s.weighted(&[3, 1, 5, 1, 1]) } {
        0 => text_ref(s, names),
        1 => s.below(1 << 40).to_string(),
        2 => {
            let op = *s.pick(&["+", "-", "*"]);
            format!("({} {op} {})", text_ex(s, names, publics, d - 1), text_ex(s, names, publics, d - 1))
        }
        3 => format!("-{}", text_ref(s, names)),
        _ if !publics.is_empty() => format!(":{}", s.pick(publics).1),
        _ => text_ref(s, names),
    }
}
fn check_text(c: &Text, i: &mut Info) -> Res {
    let d = dir("pil");
    let p = d.path("prog.pil");
    std::fs::write(&p, &c.text).unwrap();
    let a = guard(|| recursion::pilcom::compile_pil_from_str(&c.text))?;
    let b = guard(|| recursion::pilcom::compile_pil_from_path(&p))?;
    if a.polIdentities.is_empty() {
        i.trivial();
    }
    compare(&powdr::pil_analyzer::analyze_string(&c.text), &a, c.seed)?;
    compare(&powdr::pil_analyzer::analyze_file(std::path::Path::new(&p)), &b, c.seed)
}
pub fn run(ctx: &mut Ctx) {
    ctx.assume("powdr's analyser is replaced by stand-in types and a small parser (stubs/powdr)");
    ctx.sub("programs", 60_000, 2_000_000).rule("at least one identity").run(gen(6), check);
    ctx.sub("large programs", 8_000, 200_000).rule("at least one identity").run(gen(16), check);
    ctx.sub("text", 6_000, 200_000).rule("at least one identity").run(gen_text, check_text);
}
