//! Random PIL programs with traces that satisfy them by construction, and an independent checker that says
//! which constraints a trace breaks. Nothing here uses the code under test beyond its plain data types.
use starky::polsarray::{PolKind, PolsArray};
use starky::types::{
    ConnectionIdentity, Expression, PermutationIdentity, PlookupIdentity, PolIdentity, Public, Reference, StarkStruct,
    Step, PIL,
};
use std::collections::HashMap;
use vh::{gl, Src, GL_P};

pub fn parse(v: &str) -> u64 {
    let p = GL_P as i128;
    let n = if let Some(h) = v.strip_prefix("0x") { i128::from_str_radix(h, 16) } else { v.parse::<i128>() };
    n.unwrap().rem_euclid(p) as u64
}

#[derive(Clone)]
pub struct Air {
    pub pil: PIL,
    pub ss: StarkStruct,
    pub l1: String,
    pub cm: Vec<Vec<u64>>,
    pub consts: Vec<Vec<u64>>,
    pub publics: Vec<u64>,
    pub tags: Vec<&'static str>,
}
impl std::fmt::Debug for Air {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "Air {{ nBits {}, ext {}, queries {}, steps {:?}, cm {}, const {}, l1 {}",
            self.ss.nBits,
            self.ss.nBitsExt - self.ss.nBits,
            self.ss.nQueries,
            self.ss.steps.iter().map(|s| s.nBits).collect::<Vec<_>>(),
            self.cm.len(),
            self.consts.len(),
            self.l1
        )?;
        for i in &self.pil.polIdentities {
            write!(f, ", e{}", i.e)?;
        }
        for (i, e) in self.pil.expressions.iter().enumerate() {
            write!(f, "; e{i} = {}", show(e))?;
        }
        for p in &self.pil.publics {
            write!(f, "; public {} {}@{}", p.polType, p.polId, p.idx)?;
        }
        for l in &self.pil.plookupIdentities {
            write!(f, "; {:?} {:?} in {:?} {:?}", l.selF, l.f, l.selT, l.t)?;
        }
        for l in self.pil.permutationIdentities.iter().flatten() {
            write!(f, "; {:?} {:?} is {:?} {:?}", l.selF, l.f, l.selT, l.t)?;
        }
        for l in self.pil.connectionIdentities.iter().flatten() {
            write!(f, "; {:?} connect {:?}", l.pols, l.connections)?;
        }
        if self.cm[0].len() <= 8 {
            write!(f, "; cm {:?}; const {:?}", self.cm, self.consts)?;
        }
        write!(f, " }}")
    }
}
fn show(e: &Expression) -> String {
    let n = if e.next() { "'" } else { "" };
    let v = |i: usize| show(&e.values.as_ref().unwrap()[i]);
    match e.op.as_str() {
        "number" => e.value.clone().unwrap(),
        "cm" => format!("c{}{n}", e.id.unwrap()),
        "const" => format!("k{}{n}", e.id.unwrap()),
        "exp" => format!("e{}{n}", e.id.unwrap()),
        "public" => format!("p{}", e.id.unwrap()),
        "add" => format!("({}+{})", v(0), v(1)),
        "sub" => format!("({}-{})", v(0), v(1)),
        "mul" => format!("{}*{}", v(0), v(1)),
        "neg" => format!("-{}", v(0)),
        o => o.to_string(),
    }
}

// ------------------------------------------------------------------------------------------- semantics

impl Air {
    pub fn n(&self) -> usize {
        1 << self.ss.nBits
    }
    pub fn eval(&self, e: &Expression, row: usize, publics: &[u64]) -> u64 {
        eval(&self.pil.expressions, e, row, &self.cm, &self.consts, publics)
    }
    fn eval_id(&self, id: usize, row: usize, publics: &[u64]) -> u64 {
        self.eval(&self.pil.expressions[id], row, publics)
    }
    /// The public values the trace defines.
    pub fn publics_of_trace(&self) -> Vec<u64> {
        let mut p: Vec<u64> = vec![0; self.pil.publics.len()];
        for (i, d) in self.pil.publics.iter().enumerate() {
            p[i] = if d.polType == "cmP" { self.cm[d.polId][d.idx] } else { self.eval_id(d.polId, d.idx, &p) };
        }
        p
    }
    /// The constraints the trace breaks, given public values.
    pub fn violated(&self, publics: &[u64]) -> Vec<String> {
        let mut out = vec![];
        let n = self.n();
        let p = publics;
        for (k, i) in self.pil.polIdentities.iter().enumerate() {
            if (0..n).any(|r| self.eval_id(i.e, r, p) != 0) {
                out.push(format!("identity {k}"));
            }
        }
        let tuple = |ids: &[usize], r: usize| -> Vec<u64> { ids.iter().map(|i| self.eval_id(*i, r, p)).collect() };
        let sel = |s: &Option<usize>, r: usize| s.map(|i| self.eval_id(i, r, p)).unwrap_or(1);
        let comb = |k: u64, a: &[u64], b: &[u64]| -> Vec<u64> {
            a.iter().zip(b).map(|(x, y)| gl::add(gl::mul(k, *x), gl::mul(gl::sub(1, k), *y))).collect()
        };
        // a selected row is its tuple, an unselected one a default that is no tuple: one more coordinate
        for (k, l) in self.pil.plookupIdentities.iter().enumerate() {
            let (f, t) = (l.f.as_ref().unwrap(), l.t.as_ref().unwrap());
            let w = f.len().max(t.len());
            let pad = |v: Vec<u64>, d: u64| {
                let mut o = vec![0; w - v.len()];
                o.extend(v);
                o.push(d);
                o
            };
            let def = pad(vec![0; w], 1);
            let ts: Vec<Vec<u64>> = (0..n).map(|r| comb(sel(&l.selT, r), &pad(tuple(t, r), 0), &def)).collect();
            let set: std::collections::HashSet<&Vec<u64>> = ts.iter().collect();
            if (0..n).any(|r| !set.contains(&comb(sel(&l.selF, r), &pad(tuple(f, r), 0), &ts[r]))) {
                out.push(format!("lookup {k}"));
            }
        }
        for (k, l) in self.pil.permutationIdentities.iter().flatten().enumerate() {
            let (f, t) = (l.f.as_ref().unwrap(), l.t.as_ref().unwrap());
            let side = |ids: &[usize], s: &Option<usize>| {
                let mut def = vec![0; ids.len()];
                def.push(1);
                let mut v: Vec<Vec<u64>> = (0..n)
                    .map(|r| {
                        let mut x = tuple(ids, r);
                        x.push(0);
                        comb(sel(s, r), &x, &def)
                    })
                    .collect();
                v.sort();
                v
            };
            if side(f, &l.selF) != side(t, &l.selT) {
                out.push(format!("permutation {k}"));
            }
        }
        for (k, c) in self.pil.connectionIdentities.iter().flatten().enumerate() {
            let (ps, cs) = (c.pols.as_ref().unwrap(), c.connections.as_ref().unwrap());
            let mut a = vec![];
            let mut b = vec![];
            for (j, (pi, ci)) in ps.iter().zip(cs).enumerate() {
                for r in 0..n {
                    let v = self.eval_id(*pi, r, p);
                    a.push((v, cell(self.ss.nBits, j, r)));
                    b.push((v, self.eval_id(*ci, r, p)));
                }
            }
            a.sort();
            b.sort();
            if a != b {
                out.push(format!("connection {k}"));
            }
        }
        out
    }
    pub fn pols(&self, kind: PolKind) -> PolsArray {
        let data = if kind == PolKind::Commit { &self.cm } else { &self.consts };
        let mut a = PolsArray::new(&self.pil, kind);
        for (i, c) in data.iter().enumerate() {
            a.array[i] = crate::conv::gvec(c);
        }
        a
    }
}
/// The name of cell (column j, row r) in connection columns: k^j * w^r.
pub fn cell(nbits: usize, j: usize, r: usize) -> u64 {
    gl::mul(gl::pow(12275445934081160404, j as u64), gl::pow(gl::root(nbits), r as u64))
}
pub fn eval(ex: &[Expression], e: &Expression, row: usize, cm: &[Vec<u64>], co: &[Vec<u64>], p: &[u64]) -> u64 {
    let at = |c: &[u64], next: bool| c[(row + next as usize) % c.len()];
    let v = |i: usize| eval(ex, &e.values.as_ref().unwrap()[i], row, cm, co, p);
    match e.op.as_str() {
        "number" => parse(e.value.as_ref().unwrap()),
        "cm" => at(&cm[e.id.unwrap()], e.next()),
        "const" => at(&co[e.id.unwrap()], e.next()),
        "exp" => {
            let n = cm.iter().chain(co).next().unwrap().len();
            let r = if e.next() { (row + 1) % n } else { row };
            eval(ex, &ex[e.id.unwrap()], r, cm, co, p)
        }
        "public" => p[e.id.unwrap()],
        "add" => gl::add(v(0), v(1)),
        "sub" => gl::sub(v(0), v(1)),
        "mul" => gl::mul(v(0), v(1)),
        "neg" => gl::neg(v(0)),
        o => panic!("op {o}"),
    }
}

// ------------------------------------------------------------------------------------------- generation

#[derive(Clone)]
struct X {
    e: Expression,
    d: usize,
    next: bool,
    cost: usize,
}
fn leaf(op: &str, id: usize, next: bool) -> Expression {
    let mut e = Expression::new(op.to_string(), 1, Some(id), None, None);
    e.next = Some(next);
    e
}
fn bin(op: &str, a: Expression, b: Expression) -> Expression {
    let d = if op == "mul" { a.deg + b.deg } else { a.deg.max(b.deg) };
    Expression::new(op.to_string(), d, None, None, Some(vec![a, b]))
}
pub fn num(v: &str) -> Expression {
    Expression::new("number".to_string(), 0, None, Some(v.to_string()), None)
}
fn numv(s: &mut Src, v: u64) -> Expression {
    // the ways pilcom and the exporter write a constant, and any other integer for it
    match s.weighted(&[8, 2, 2, 1]) {
        3 => {
            let k = s.below(1 << 40) as i128 * GL_P as i128;
            num(&(v as i128 + if s.bool() { k } else { -k }).to_string())
        }
        0 => num(&v.to_string()),
        1 => num(&format!("0x{v:x}")),
        _ if v != 0 => num(&format!("-{}", GL_P - v)),
        _ => num("0"),
    }
}

struct B {
    nbits: usize,
    maxd: usize,
    cm: Vec<Vec<u64>>,
    consts: Vec<Vec<u64>>,
    ex: Vec<Expression>,
    exinfo: Vec<(bool, usize)>, // has next inside, cost
    ids: Vec<usize>,
    plk: Vec<PlookupIdentity>,
    perm: Vec<PermutationIdentity>,
    conn: Vec<ConnectionIdentity>,
    publics: Vec<Public>,
    pv: Vec<u64>,
    nq: usize,
    lag: HashMap<usize, usize>,
    tags: Vec<&'static str>,
}
impl B {
    fn n(&self) -> usize {
        1 << self.nbits
    }
    fn lagrange(&mut self, row: usize) -> usize {
        if let Some(i) = self.lag.get(&row) {
            return *i;
        }
        let mut c = vec![0; self.n()];
        c[row] = 1;
        self.consts.push(c);
        self.lag.insert(row, self.consts.len() - 1);
        self.consts.len() - 1
    }
    fn values(&self, s: &mut Src) -> Vec<u64> {
        let n = self.n();
        match s.weighted(&[3, 3, 2, 1, 1]) {
            0 => {
                let mut r = vh::Rng::new(s.u64());
                (0..n).map(|_| r.next() % GL_P).collect()
            }
            1 if n <= 64 => s.many(n, |s| s.gl()),
            2 => {
                let k = 1 + s.below(6);
                let mut r = vh::Rng::new(s.u64());
                (0..n).map(|_| r.below(k)).collect()
            }
            3 => vec![s.gl(); n],
            _ => {
                let b = s.gl();
                (0..n).map(|i| gl::add(b, i as u64)).collect()
            }
        }
    }
    fn bits(&self, s: &mut Src) -> Vec<u64> {
        let n = self.n();
        let mut r = vh::Rng::new(s.u64());
        match s.weighted(&[4, 1, 1]) {
            0 => (0..n).map(|_| r.below(2)).collect(),
            1 => (0..n).map(|_| (r.below(6) == 0) as u64).collect(),
            _ => (0..n).map(|_| (r.below(6) != 0) as u64).collect(),
        }
    }
    fn new_cm(&mut self, v: Vec<u64>) -> usize {
        self.cm.push(v);
        self.cm.len() - 1
    }
    fn new_const(&mut self, v: Vec<u64>) -> usize {
        self.consts.push(v);
        self.consts.len() - 1
    }
    fn push(&mut self, x: X, q: bool) -> usize {
        let mut e = x.e;
        if q && x.d >= 2 {
            e.idQ = Some(self.nq);
            e.deg = 1;
            self.nq += 1;
        }
        self.ex.push(e);
        self.exinfo.push((x.next, x.cost));
        self.ex.len() - 1
    }
    fn eval_col(&self, e: &Expression) -> Vec<u64> {
        (0..self.n()).map(|r| eval(&self.ex, e, r, &self.cm, &self.consts, &self.pv)).collect()
    }
    fn leaf(&mut self, s: &mut Src, next_ok: bool) -> X {
        let nx = |s: &mut Src| next_ok && s.chance(1, 3);
        match s.weighted(&[8, 3, 2, 3, 1]) {
            0 if !self.cm.is_empty() => {
                let (i, n) = (s.usize(self.cm.len()), nx(s));
                X { e: leaf("cm", i, n), d: 1, next: n, cost: 1 }
            }
            1 if !self.consts.is_empty() => {
                let (i, n) = (s.usize(self.consts.len()), nx(s));
                X { e: leaf("const", i, n), d: 1, next: n, cost: 1 }
            }
            3 if !self.ex.is_empty() => {
                let i = s.usize(self.ex.len());
                let (inner, cost) = self.exinfo[i];
                if cost > 60 || (inner && !next_ok) {
                    return X { e: numv(s, 3), d: 0, next: false, cost: 1 };
                }
                let n = !inner && nx(s);
                X { e: leaf("exp", i, n), d: 1, next: inner || n, cost: cost + 1 }
            }
            4 if !self.publics.is_empty() => {
                let i = s.usize(self.publics.len());
                X { e: leaf0("public", i), d: 0, next: false, cost: 1 }
            }
            _ => {
                let v = if s.chance(2, 3) { s.below(20) } else { s.gl() };
                X { e: numv(s, v), d: 0, next: false, cost: 1 }
            }
        }
    }
    fn expr(&mut self, s: &mut Src, depth: usize, next_ok: bool) -> X {
        if depth == 0 || s.chance(1, 5) {
            return self.leaf(s, next_ok);
        }
        let mut x = match s.weighted(&[3, 3, 4, 1]) {
            k @ (0 | 1) => {
                let a = self.expr(s, depth - 1, next_ok);
                let b = self.expr(s, depth - 1, next_ok);
                X {
                    e: bin(["add", "sub"][k], a.e, b.e),
                    d: a.d.max(b.d),
                    next: a.next || b.next,
                    cost: a.cost + b.cost + 1,
                }
            }
            2 => {
                let a = self.expr(s, depth - 1, next_ok);
                let b = self.expr(s, depth - 1, next_ok);
                self.mul(a, b)
            }
            _ => {
                let a = self.expr(s, depth - 1, next_ok);
                X {
                    e: Expression::new("neg".into(), a.d, None, None, Some(vec![a.e])),
                    d: a.d,
                    next: a.next,
                    cost: a.cost + 1,
                }
            }
        };
        if x.d >= 1 && s.chance(1, 4) {
            x = self.outline(x);
            if next_ok && !x.next && s.chance(1, 4) {
                x.e.next = Some(true);
                x.next = true;
            }
        }
        x
    }
    fn outline(&mut self, x: X) -> X {
        let (next, cost) = (x.next, x.cost + 1);
        let q = x.d >= 2;
        let id = self.push(x, q);
        X { e: leaf("exp", id, false), d: 1, next, cost }
    }
    /// A product whose written-out degree stays within what a PIL compiler emits.
    fn mul(&mut self, a: X, b: X) -> X {
        let (mut a, mut b) = (a, b);
        if a.d + b.d > self.maxd && a.d > 1 {
            a = self.outline(a);
        }
        if a.d + b.d > self.maxd && b.d > 1 {
            b = self.outline(b);
        }
        let x = X { d: a.d + b.d, next: a.next || b.next, cost: a.cost + b.cost + 1, e: bin("mul", a.e, b.e) };
        if x.d > self.maxd {
            return self.outline(x);
        }
        x
    }
    fn x_cm(&self, i: usize, next: bool) -> X {
        X { e: leaf("cm", i, next), d: 1, next, cost: 1 }
    }
    fn x_const(&self, i: usize) -> X {
        X { e: leaf("const", i, false), d: 1, next: false, cost: 1 }
    }
    fn sub(&self, a: X, b: X) -> X {
        X { d: a.d.max(b.d), next: a.next || b.next, cost: a.cost + b.cost + 1, e: bin("sub", a.e, b.e) }
    }
    /// Adds `x = 0`, written in one of the equivalent ways.
    fn identity(&mut self, s: &mut Src, x: X) {
        let x = match s.weighted(&[4, 2, 1, 1]) {
            0 => x,
            1 => {
                let z = X { e: num("0"), d: 0, next: false, cost: 1 };
                self.sub(x, z)
            }
            2 => {
                let z = X { e: num("0"), d: 0, next: false, cost: 1 };
                self.sub(z, x)
            }
            _ => {
                let k = 1 + s.below(1000);
                let k = X { e: numv(s, k), d: 0, next: false, cost: 1 };
                if s.bool() {
                    self.mul(k, x)
                } else {
                    self.mul(x, k)
                }
            }
        };
        let q = s.chance(1, 6);
        let id = self.push(x, q);
        self.ids.push(id);
    }

    // each of these adds columns and constraints the columns satisfy
    fn free(&mut self, s: &mut Src) {
        let v = self.values(s);
        self.new_cm(v);
    }
    fn defined(&mut self, s: &mut Src) {
        let x = self.expr(s, 3, true);
        let v = self.eval_col(&x.e);
        let c = self.new_cm(v);
        let l = self.x_cm(c, false);
        let d = if s.bool() { self.sub(l, x) } else { self.sub(x, l) };
        self.identity(s, d);
        self.tags.push("definition");
    }
    fn transition(&mut self, s: &mut Src) {
        // c' = E(everything, c), on all rows but one
        let n = self.n();
        let c = self.new_cm(vec![0; n]);
        let start = if s.chance(1, 3) { s.usize(n) } else { 0 };
        let mut x = self.expr(s, 2, true);
        let own = self.x_cm(c, false);
        x = match s.weighted(&[2, 1]) {
            0 => X { d: x.d.max(1), next: x.next, cost: x.cost + 2, e: bin("add", own.e, x.e) },
            _ => self.mul(own, x),
        };
        // expressions made above may look at c itself only on the current row
        self.cm[c][start] = s.gl();
        if uses_next(&self.ex, &x.e, c) {
            return; // stays an unconstrained column
        }
        for k in 0..n - 1 {
            let r = (start + k) % n;
            let v = eval(&self.ex, &x.e, r, &self.cm, &self.consts, &self.pv);
            self.cm[c][(r + 1) % n] = v;
        }
        let last = self.lagrange((start + n - 1) % n);
        let one = X { e: num("1"), d: 0, next: false, cost: 1 };
        let gate = self.sub(one, self.x_const(last));
        let l = self.x_cm(c, true);
        let d = self.sub(l, x);
        let d = if s.bool() { self.mul(d, gate) } else { self.mul(gate, d) };
        self.identity(s, d);
        self.tags.push("transition");
    }
    fn roots(&mut self, s: &mut Src) {
        // product (c - r_i) = 0
        let k = s.range(2, 4);
        let rs: Vec<u64> = (0..k).map(|i| if s.chance(3, 4) { i as u64 } else { s.gl() }).collect();
        let v: Vec<u64> = {
            let mut r = vh::Rng::new(s.u64());
            (0..self.n()).map(|_| rs[r.below(k as u64) as usize]).collect()
        };
        let c = self.new_cm(v);
        let nx = s.chance(1, 4);
        let mut acc: Option<X> = None;
        for r in rs {
            let k = X { e: numv(s, r), d: 0, next: false, cost: 1 };
            let f = self.sub(self.x_cm(c, nx), k);
            acc = Some(match acc {
                None => f,
                Some(a) => self.mul(a, f),
            });
        }
        self.identity(s, acc.unwrap());
        self.tags.push("roots");
    }
    fn conditional(&mut self, s: &mut Src) {
        let b = self.bits(s);
        let x = self.expr(s, 2, true);
        let xv = self.eval_col(&x.e);
        let mut v = self.values(s);
        for i in 0..self.n() {
            if b[i] == 1 {
                v[i] = xv[i];
            }
        }
        let c = self.new_cm(v);
        let sel = if s.bool() {
            let i = self.new_const(b);
            self.x_const(i)
        } else {
            let i = self.new_cm(b);
            self.x_cm(i, false)
        };
        let d = self.sub(self.x_cm(c, false), x);
        let d = self.mul(sel, d);
        self.identity(s, d);
        self.tags.push("conditional");
    }
    fn const_only(&mut self, s: &mut Src) {
        let b = self.bits(s);
        let c = self.new_const(b);
        let one = X { e: num("1"), d: 0, next: false, cost: 1 };
        let f = self.sub(self.x_const(c), one);
        let d = self.mul(self.x_const(c), f);
        self.identity(s, d);
        self.tags.push("const-only");
    }
    fn public(&mut self, s: &mut Src) {
        let n = self.n();
        let row = match s.weighted(&[2, 2, 1]) {
            0 => 0,
            1 => n - 1,
            _ => s.usize(n),
        };
        let id = self.publics.len();
        let name = format!("pub{id}");
        let im = s.chance(1, 2);
        let x = if im {
            let x = if s.bool() { self.leaf(s, true) } else { self.expr(s, 2, true) };
            let x = self.outline(x);
            let e = x.e.id.unwrap();
            self.publics.push(Public { polType: "imP".into(), polId: e, idx: row, id, name });
            self.pv.push(eval(&self.ex, &self.ex[e].clone(), row, &self.cm, &self.consts, &self.pv));
            x
        } else {
            let c = s.usize(self.cm.len());
            self.publics.push(Public { polType: "cmP".into(), polId: c, idx: row, id, name });
            self.pv.push(self.cm[c][row]);
            self.x_cm(c, false)
        };
        if s.chance(5, 6) {
            let l = self.lagrange(row);
            let p = X { e: leaf0("public", id), d: 0, next: false, cost: 1 };
            let d = if s.bool() { self.sub(x, p) } else { self.sub(p, x) };
            let d = self.mul(self.x_const(l), d);
            self.identity(s, d);
        }
        self.tags.push(if im { "public-expression" } else { "public-column" });
    }
    /// An expression id whose value on each row is `v`.
    fn carrier(&mut self, s: &mut Src, v: Vec<u64>, constant: bool, next_ok: bool) -> usize {
        let n = self.n();
        let kind = s.weighted(&[5, 2, 2]);
        let place = |b: &mut B, v: Vec<u64>, next: bool| -> X {
            let v: Vec<u64> = if next { (0..n).map(|i| v[(i + n - 1) % n]).collect() } else { v };
            if constant {
                let i = b.new_const(v);
                X { e: leaf("const", i, next), d: 1, next, cost: 1 }
            } else {
                let i = b.new_cm(v);
                X { e: leaf("cm", i, next), d: 1, next, cost: 1 }
            }
        };
        let nx = next_ok && s.chance(1, 4);
        let x = match kind {
            0 => place(self, v, nx),
            1 => {
                // k * c + b
                let k = 1 + s.below(9);
                let b = s.gl();
                let ki = gl::inv(k);
                let inner = place(self, v.iter().map(|x| gl::mul(gl::sub(*x, b), ki)).collect(), nx);
                let (k, b) = (numv(s, k), numv(s, b));
                X { d: 1, next: nx, cost: 5, e: bin("add", bin("mul", inner.e, k), b) }
            }
            _ => {
                // c * u where u never vanishes
                let u: Vec<u64> = {
                    let mut r = vh::Rng::new(s.u64());
                    (0..n).map(|_| 1 + r.below(5)).collect()
                };
                let inner = place(self, v.iter().zip(&u).map(|(x, u)| gl::mul(*x, gl::inv(*u))).collect(), nx);
                let ui = if s.bool() { (self.new_cm(u), "cm") } else { (self.new_const(u), "const") };
                let u = X { e: leaf(ui.1, ui.0, false), d: 1, next: false, cost: 1 };
                self.mul(inner, u)
            }
        };
        let q = s.chance(1, 2);
        self.push(x, q)
    }
    fn selector(&mut self, s: &mut Src, b: Vec<u64>, next_ok: bool) -> usize {
        let x = if s.bool() {
            let i = self.new_const(b);
            self.x_const(i)
        } else if next_ok && s.chance(1, 3) {
            let n = b.len();
            let i = self.new_cm((0..n).map(|i| b[(i + n - 1) % n]).collect());
            self.x_cm(i, true)
        } else {
            let i = self.new_cm(b);
            self.x_cm(i, false)
        };
        self.push(x, false)
    }
    fn lookup(&mut self, s: &mut Src) {
        let n = self.n();
        let w = s.range(1, 3);
        let mut t: Vec<Vec<u64>> = vec![];
        for _ in 0..w {
            t.push(self.values(s));
        }
        let st = if s.chance(2, 5) { Some(self.bits(s)) } else { None };
        let sf = if s.chance(2, 5) { Some(self.bits(s)) } else { None };
        let mut st = st;
        if let Some(b) = &mut st {
            if b.iter().all(|x| *x == 0) {
                b[s.usize(n)] = 1;
            }
        }
        let rows: Vec<usize> = (0..n).filter(|r| st.as_ref().map(|b| b[*r] == 1).unwrap_or(true)).collect();
        let mut r = vh::Rng::new(s.u64());
        let few = s.chance(1, 3);
        let mut f: Vec<Vec<u64>> = vec![vec![0; n]; w];
        for i in 0..n {
            let j = rows[if few { 0 } else { r.below(rows.len() as u64) as usize }];
            let on = sf.as_ref().map(|b| b[i] == 1).unwrap_or(true);
            for c in 0..w {
                f[c][i] = if on { t[c][j] } else { r.next() % GL_P };
            }
        }
        let tc = s.bool();
        let ti: Vec<usize> = t.into_iter().map(|v| self.carrier(s, v, tc, false)).collect();
        let fi: Vec<usize> = f.into_iter().map(|v| self.carrier(s, v, false, true)).collect();
        let sel_t = st.map(|b| self.selector(s, b, false));
        let sel_f = sf.map(|b| self.selector(s, b, true));
        self.lagrange(0);
        self.plk.push(PlookupIdentity {
            f: Some(fi),
            t: Some(ti),
            selF: sel_f,
            selT: sel_t,
            fileName: "g.pil".into(),
            line: 1,
        });
        self.tags.push(match (w > 1, sel_f.is_some(), sel_t.is_some()) {
            (false, false, false) => "lookup-single-column",
            (_, true, true) => "lookup-both-selectors",
            (_, true, false) => "lookup-selF",
            (_, false, true) => "lookup-selT",
            _ => "lookup-tuple",
        });
    }
    fn permutation(&mut self, s: &mut Src) {
        let n = self.n();
        let w = s.range(1, 3);
        let mut t: Vec<Vec<u64>> = vec![];
        for _ in 0..w {
            t.push(self.values(s));
        }
        let selected = s.chance(1, 2);
        let mut f: Vec<Vec<u64>> = vec![vec![0; n]; w];
        let mut perm: Vec<usize> = (0..n).collect();
        let mut r = vh::Rng::new(s.u64());
        for i in (1..n).rev() {
            perm.swap(i, r.below(i as u64 + 1) as usize);
        }
        let st = self.bits(s);
        let mut sf = vec![0; n];
        for i in 0..n {
            sf[i] = st[perm[i]];
            for c in 0..w {
                f[c][i] = if !selected || sf[i] == 1 { t[c][perm[i]] } else { r.next() % GL_P };
            }
        }
        let tc = s.chance(1, 3);
        let ti: Vec<usize> = t.into_iter().map(|v| self.carrier(s, v, tc, true)).collect();
        let fi: Vec<usize> = f.into_iter().map(|v| self.carrier(s, v, false, true)).collect();
        let (sel_f, sel_t) = if selected {
            (Some(self.selector(s, sf, true)), Some(self.selector(s, st, true)))
        } else {
            (None, None)
        };
        self.lagrange(0);
        self.perm.push(PermutationIdentity {
            f: Some(fi),
            t: Some(ti),
            selF: sel_f,
            selT: sel_t,
            fileName: "g.pil".into(),
            line: 2,
        });
        self.tags.push(if selected { "permutation-selected" } else { "permutation" });
    }
    fn connection(&mut self, s: &mut Src) {
        let n = self.n();
        // get_ks is only defined for at least one further column
        let w = s.range(2, 4);
        let mut r = vh::Rng::new(s.u64());
        let cells: Vec<(usize, usize)> = (0..w).flat_map(|j| (0..n).map(move |i| (j, i))).collect();
        let mut perm: Vec<usize> = (0..cells.len()).collect();
        for _ in 0..s.range(0, 2 * n) {
            let (a, b) = (r.below(cells.len() as u64) as usize, r.below(cells.len() as u64) as usize);
            perm.swap(a, b);
        }
        // one value per cycle
        let mut val = vec![None; cells.len()];
        for i in 0..cells.len() {
            if val[i].is_none() {
                let v = r.next() % GL_P;
                let mut j = i;
                while val[j].is_none() {
                    val[j] = Some(v);
                    j = perm[j];
                }
            }
        }
        let mut pols = vec![];
        let mut conns = vec![];
        for j in 0..w {
            let c = self.new_cm((0..n).map(|i| val[j * n + i].unwrap()).collect());
            let x = self.x_cm(c, false);
            pols.push(self.push(x, false));
            let sc = self.new_const(
                (0..n)
                    .map(|i| {
                        let (jj, ii) = cells[perm[j * n + i]];
                        cell(self.nbits, jj, ii)
                    })
                    .collect(),
            );
            let x = self.x_const(sc);
            conns.push(self.push(x, false));
        }
        self.lagrange(0);
        self.conn.push(ConnectionIdentity {
            pols: Some(pols),
            connections: Some(conns),
            fileName: "g.pil".into(),
            line: 3,
        });
        self.tags.push("connection");
    }
}
fn leaf0(op: &str, id: usize) -> Expression {
    Expression::new(op.to_string(), 0, Some(id), None, None)
}
fn uses_next(ex: &[Expression], e: &Expression, c: usize) -> bool {
    fn go(ex: &[Expression], e: &Expression, c: usize, next: bool) -> bool {
        let nx = next || e.next();
        match e.op.as_str() {
            "cm" => nx && e.id == Some(c),
            "exp" => go(ex, &ex[e.id.unwrap()], c, nx),
            _ => e.values.iter().flatten().any(|v| go(ex, v, c, next)),
        }
    }
    go(ex, e, c, false)
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub nbits: (usize, usize),
    pub ext: (usize, usize),
    pub queries: usize,
    pub blocks: usize,
    /// a low number of queries leaves a prover some room: attacks are only decided with enough of them
    pub min_queries: usize,
}
pub const SMALL: Limits = Limits { nbits: (2, 5), ext: (1, 3), queries: 8, blocks: 4, min_queries: 1 };

pub fn stark_struct(s: &mut Src, l: &Limits, hash: &str) -> StarkStruct {
    let nbits = s.range(l.nbits.0, l.nbits.1);
    let ext = s.range(l.ext.0, l.ext.1);
    let mut steps = vec![Step { nBits: nbits + ext }];
    let mut cur = nbits + ext;
    loop {
        // mostly stop while the final polynomial is still larger than the blow-up factor
        let stop = if cur <= ext + 1 { s.chance(3, 4) } else { s.chance(1, 4) };
        if stop || cur <= 1 {
            break;
        }
        cur -= 1 + s.usize((cur - 1).min(4));
        steps.push(Step { nBits: cur });
    }
    StarkStruct {
        nBits: nbits,
        nBitsExt: nbits + ext,
        nQueries: s.range(l.min_queries, l.queries),
        verificationHashType: hash.to_string(),
        steps,
    }
}

pub fn air(s: &mut Src, l: &Limits, hash: &str) -> Air {
    let ss = stark_struct(s, l, hash);
    let maxd = if s.chance(1, 5) { 3.min((1 << (ss.nBitsExt - ss.nBits)) + 1) } else { 2 };
    let mut b = B {
        nbits: ss.nBits,
        maxd,
        cm: vec![],
        consts: vec![],
        ex: vec![],
        exinfo: vec![],
        ids: vec![],
        plk: vec![],
        perm: vec![],
        conn: vec![],
        publics: vec![],
        pv: vec![],
        nq: 0,
        lag: HashMap::new(),
        tags: vec![],
    };
    for _ in 0..s.range(1, 3) {
        b.free(s);
    }
    for _ in 0..s.usize(3) {
        let v = b.values(s);
        b.new_const(v);
    }
    for _ in 0..s.range(1, l.blocks) {
        match s.weighted(&[5, 5, 3, 3, 1, 5, 4, 4, 3]) {
            0 => b.defined(s),
            1 => b.transition(s),
            2 => b.roots(s),
            3 => b.conditional(s),
            4 => b.const_only(s),
            5 => b.public(s),
            6 => b.lookup(s),
            7 => b.permutation(s),
            _ => b.connection(s),
        }
    }
    if b.ids.is_empty() && b.plk.is_empty() && b.perm.is_empty() && b.conn.is_empty() {
        b.defined(s);
    }
    if b.consts.is_empty() {
        b.lagrange(0);
    }
    finish(s, b, ss)
}

fn finish(s: &mut Src, mut b: B, ss: StarkStruct) -> Air {
    // ids in any order
    let mut pc: Vec<usize> = (0..b.consts.len()).collect();
    let mut pm: Vec<usize> = (0..b.cm.len()).collect();
    s.shuffle(&mut pc);
    s.shuffle(&mut pm);
    fn remap(e: &mut Expression, pc: &[usize], pm: &[usize]) {
        match e.op.as_str() {
            "cm" => e.id = Some(pm[e.id.unwrap()]),
            "const" => e.id = Some(pc[e.id.unwrap()]),
            _ => {}
        }
        for v in e.values.iter_mut().flatten() {
            remap(v, pc, pm);
        }
    }
    for e in b.ex.iter_mut() {
        remap(e, &pc, &pm);
    }
    for p in b.publics.iter_mut() {
        if p.polType == "cmP" {
            p.polId = pm[p.polId];
        }
    }
    let mut cm = vec![vec![]; b.cm.len()];
    for (i, v) in b.cm.into_iter().enumerate() {
        cm[pm[i]] = v;
    }
    let mut consts = vec![vec![]; b.consts.len()];
    for (i, v) in b.consts.into_iter().enumerate() {
        consts[pc[i]] = v;
    }
    let mut references = HashMap::new();
    let l1 = if s.chance(1, 4) { "main.FIRST".to_string() } else { "Global.L1".to_string() };
    let l1_id = b.lag.get(&0).map(|i| pc[*i]);
    let n = 1usize << ss.nBits;
    let r = |ty: &str, id: usize, len: Option<usize>| Reference {
        polType: None,
        type_: ty.to_string(),
        id,
        polDeg: n,
        isArray: len.is_some(),
        elementType: None,
        len,
    };
    for (kind, total) in [("constP", consts.len()), ("cmP", cm.len())] {
        let mut i = 0;
        while i < total {
            if kind == "constP" && Some(i) == l1_id {
                references.insert(l1.clone(), r(kind, i, None));
                i += 1;
                continue;
            }
            let mut k = 1;
            if s.chance(1, 5) {
                while k < 4 && i + k < total && !(kind == "constP" && Some(i + k) == l1_id) {
                    k += 1;
                }
                references.insert(format!("ns{}.{kind}{i}", i % 3), r(kind, i, Some(k)));
            } else {
                references.insert(format!("ns{}.{kind}{i}", i % 3), r(kind, i, None));
            }
            i += k;
        }
    }
    if s.chance(1, 4) {
        references.insert("ns0.inter".into(), r("imP", 0, None));
    }
    s.shuffle(&mut b.ids);
    let opt = |e: bool| e;
    let none_perm = b.perm.is_empty() && opt(s.chance(1, 2));
    let none_conn = b.conn.is_empty() && opt(s.chance(1, 2));
    let pil = PIL {
        nCommitments: cm.len(),
        nQ: b.nq,
        nIm: 0,
        nConstants: consts.len(),
        publics: b.publics,
        references,
        expressions: b.ex,
        polIdentities: b.ids.iter().map(|e| PolIdentity { e: *e, fileName: "g.pil".into(), line: 4 }).collect(),
        plookupIdentities: b.plk,
        permutationIdentities: if none_perm { None } else { Some(b.perm) },
        connectionIdentities: if none_conn { None } else { Some(b.conn) },
        cm_dims: vec![],
        q2exp: vec![],
    };
    let mut a = Air { pil, ss, l1, cm, consts, publics: vec![], tags: b.tags };
    a.publics = a.publics_of_trace();
    assert_eq!(a.publics, b.pv, "generator: public values");
    let bad = a.violated(&a.publics);
    assert!(bad.is_empty(), "generator: {bad:?} in {a:?}");
    a
}

/// One change of the committed trace.
#[derive(Debug, Clone)]
pub enum Mutation {
    Cell(usize, usize, u64),
    Swap(usize, usize, usize),
    Shift(usize, u64),
    Copy(usize, usize, usize),
    Rotate(usize),
    Set(Vec<(usize, usize, u64)>),
}
/// The committed cells a row of an expression reads.
fn cells_of(a: &Air, e: &Expression, row: usize, out: &mut Vec<(usize, usize)>) {
    let n = a.n();
    let r = if e.next() { (row + 1) % n } else { row };
    match e.op.as_str() {
        "cm" => out.push((e.id.unwrap(), r)),
        "exp" => cells_of(a, &a.pil.expressions[e.id.unwrap()], r, out),
        _ => e.values.iter().flatten().for_each(|v| cells_of(a, v, row, out)),
    }
}
/// One cell that gives expression `id` the value `v` on `row`.
fn solve(a: &mut Air, id: usize, row: usize, v: u64) -> Option<(usize, usize, u64)> {
    let mut cells = vec![];
    cells_of(a, &a.pil.expressions[id], row, &mut cells);
    for (c, r) in cells {
        let old = a.cm[c][r];
        let mut at = |x: u64| {
            a.cm[c][r] = x;
            a.eval_id(id, row, &a.publics)
        };
        let (y0, y1, y2) = (at(0), at(1), at(2));
        a.cm[c][r] = old;
        let k = gl::sub(y1, y0);
        if k != 0 && gl::sub(y2, y1) == k {
            return Some((c, r, gl::mul(gl::sub(v, y0), gl::inv(k))));
        }
    }
    None
}
/// A change of tuples that keeps some of what a faulty comparison of tables might look at: the
/// set of values of every column, the sum of every tuple, the tuples up to order, the set of tuples.
fn tuple_mutation(s: &mut Src, a: &Air) -> Option<Mutation> {
    let mut sides: Vec<(Vec<usize>, Option<usize>)> = vec![];
    for l in &a.pil.plookupIdentities {
        sides.push((l.f.clone()?, l.selF));
        sides.push((l.t.clone()?, l.selT));
    }
    for l in a.pil.permutationIdentities.iter().flatten() {
        sides.push((l.f.clone()?, l.selF));
        sides.push((l.t.clone()?, l.selT));
    }
    for l in a.pil.connectionIdentities.iter().flatten() {
        sides.push((l.pols.clone()?, None));
    }
    if sides.is_empty() {
        return None;
    }
    let n = a.n();
    let (ids, sel) = sides[s.usize(sides.len())].clone();
    let val = |id: usize, r: usize| a.eval_id(id, r, &a.publics);
    let live: Vec<usize> = (0..n).filter(|r| sel.map(|x| val(x, *r) != 0).unwrap_or(true)).collect();
    if live.is_empty() {
        return None;
    }
    let (r, q) = (live[s.usize(live.len())], live[s.usize(live.len())]);
    let i = s.usize(ids.len());
    let j = if ids.len() > 1 { (i + 1 + s.usize(ids.len() - 1)) % ids.len() } else { i };
    let (ci, cj) = (ids[i], ids[j]);
    let d = if s.bool() { 1 + s.below(3) } else { s.gl() };
    let mut want: Vec<(usize, usize, u64)> = match s.weighted(&[3, 3, 3, 2, 1, 1, 1, 1]) {
        // two members of a tuple change places
        0 => vec![(ci, r, val(cj, r)), (cj, r, val(ci, r))],
        // the sum of the members stays
        1 => vec![(ci, r, gl::add(val(ci, r), d)), (cj, r, gl::sub(val(cj, r), d))],
        // two rows exchange one member
        2 => vec![(ci, r, val(ci, q)), (ci, q, val(ci, r))],
        // a row repeats another
        3 => ids.iter().map(|c| (*c, r, val(*c, q))).collect(),
        // the same in every row
        4 => (0..n).flat_map(|r| vec![(ci, r, val(cj, r)), (cj, r, val(ci, r))]).collect(),
        5 => (0..n).map(|r| (ci, r, gl::add(val(ci, r), d))).collect(),
        // the values that stand for no tuple
        6 => ids.iter().map(|c| (*c, r, 0)).collect(),
        // two rows move in opposite directions
        _ => vec![(ci, r, gl::add(val(ci, r), d)), (ci, q, gl::sub(val(ci, q), d))],
    };
    if let (Some(x), true) = (sel, s.chance(1, 8)) {
        // or the selection itself
        let row = s.usize(n);
        want = vec![(x, row, if s.bool() { gl::sub(1, val(x, row)) } else { d })];
    }
    let mut b = a.clone();
    let mut set = vec![];
    for (id, r, v) in want {
        let (c, r, x) = solve(&mut b, id, r, v)?;
        b.cm[c][r] = x;
        set.push((c, r, x));
    }
    Some(Mutation::Set(set))
}
pub fn mutation(s: &mut Src, a: &Air) -> Mutation {
    let n = a.n();
    if s.chance(2, 5) {
        if let Some(m) = tuple_mutation(s, a) {
            return m;
        }
    }
    let c = s.usize(a.cm.len());
    let row = |s: &mut Src| match s.weighted(&[3, 2, 2]) {
        0 => s.usize(n),
        1 => 0,
        _ => n - 1,
    };
    match s.weighted(&[8, 2, 1, 2, 1]) {
        0 => {
            let r = row(s);
            let old = a.cm[c][r];
            let v = match s.weighted(&[2, 2, 1]) {
                0 => gl::add(old, 1 + s.below(3)),
                1 => s.gl(),
                _ => gl::neg(old),
            };
            Mutation::Cell(c, r, v)
        }
        1 => Mutation::Swap(c, row(s), row(s)),
        2 => Mutation::Shift(c, 1 + s.below(GL_P - 1)),
        3 => Mutation::Copy(c, row(s), row(s)),
        _ => Mutation::Rotate(c),
    }
}
pub fn mutate(a: &Air, m: &Mutation) -> Air {
    let mut a = a.clone();
    match *m {
        Mutation::Cell(c, r, v) => a.cm[c][r] = v,
        Mutation::Swap(c, i, j) => a.cm[c].swap(i, j),
        Mutation::Shift(c, d) => a.cm[c].iter_mut().for_each(|x| *x = gl::add(*x, d)),
        Mutation::Copy(c, i, j) => a.cm[c][i] = a.cm[c][j],
        Mutation::Rotate(c) => a.cm[c].rotate_left(1),
        Mutation::Set(ref v) => v.iter().for_each(|(c, r, x)| a.cm[*c][*r] = *x),
    }
    a.publics = a.publics_of_trace();
    a
}
