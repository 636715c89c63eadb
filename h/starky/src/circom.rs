//! A small evaluator of circom: enough of the language for the generated verifiers and for
//! /repo/stark-circuits. It runs a circuit as the witness generator would and checks every
//! constraint on the way. `Unsat` is a constraint that does not hold, `Bad` something circom
//! would refuse: unknown names, wrong shapes, non-quadratic constraints, unassigned inputs.
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

pub type N = [u64; 4];
pub const ZERO: N = [0; 4];
pub const ONE: N = [1, 0, 0, 0];

fn lt(a: &N, b: &N) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn add_raw(a: &N, b: &N) -> (N, bool) {
    let (mut r, mut c) = (ZERO, 0u128);
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
fn sub_raw(a: &N, b: &N) -> N {
    let (mut r, mut bor) = (ZERO, false);
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (x, b2) = x.overflowing_sub(bor as u64);
        r[i] = x;
        bor = b1 || b2;
    }
    r
}
pub fn big(n: &N) -> BigUint {
    let mut b = vec![];
    n.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
    BigUint::from_bytes_le(&b)
}
pub fn small(v: u64) -> N {
    [v, 0, 0, 0]
}

/// Integers modulo a prime below 2^255.
#[derive(Clone)]
pub struct Fld {
    pub m: N,
    r2: N,
    inv: u64,
    half: N,
    pub modulus: BigUint,
}
impl Fld {
    pub fn new(modulus: &BigUint) -> Fld {
        let raw = |b: &BigUint| {
            let mut n = ZERO;
            for (i, x) in b.to_bytes_le().iter().enumerate() {
                n[i / 8] |= (*x as u64) << (8 * (i % 8));
            }
            n
        };
        let m = raw(modulus);
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let r2 = raw(&((BigUint::one() << 512usize) % modulus));
        Fld { m, r2, inv: inv.wrapping_neg(), half: raw(&(modulus >> 1usize)), modulus: modulus.clone() }
    }
    pub fn of(&self, b: &BigUint) -> N {
        let b = b % &self.modulus;
        let mut n = ZERO;
        for (i, x) in b.to_bytes_le().iter().enumerate() {
            n[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        n
    }
    pub fn add(&self, a: &N, b: &N) -> N {
        let (r, _) = add_raw(a, b); // below 2^256
        if lt(&r, &self.m) {
            r
        } else {
            sub_raw(&r, &self.m)
        }
    }
    pub fn sub(&self, a: &N, b: &N) -> N {
        if lt(a, b) {
            sub_raw(&add_raw(a, &self.m).0, b)
        } else {
            sub_raw(a, b)
        }
    }
    fn mont(&self, a: &N, b: &N) -> N {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let k = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + k as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + k as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || !lt(&r, &self.m) {
            sub_raw(&r, &self.m)
        } else {
            r
        }
    }
    pub fn mul(&self, a: &N, b: &N) -> N {
        if a[1] | a[2] | a[3] | b[1] | b[2] | b[3] == 0 {
            let p = a[0] as u128 * b[0] as u128;
            let r = [p as u64, (p >> 64) as u64, 0, 0];
            if lt(&r, &self.m) {
                return r;
            }
        }
        self.mont(&self.mont(a, b), &self.r2)
    }
    pub fn pow(&self, a: &N, e: &BigUint) -> N {
        let mut r = self.of(&BigUint::one());
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if ((e >> i as usize) & BigUint::one()) == BigUint::one() {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inverse(&self, a: &N) -> N {
        self.pow(a, &(&self.modulus - 2u32))
    }
    fn less(&self, a: &N, b: &N) -> bool {
        // values above half of the modulus count as negative
        let (na, nb) = (lt(&self.half, a), lt(&self.half, b));
        if na != nb {
            na
        } else {
            lt(a, b)
        }
    }
}

#[derive(Debug, Clone)]
pub enum Er {
    Unsat(String),
    Bad(String),
}
type Rs<T> = Result<T, Er>;
fn bad<T>(m: impl Into<String>) -> Rs<T> {
    Err(Er::Bad(m.into()))
}

// ---------------------------------------------------------------- syntax

type Sym = u32;
#[derive(Debug, Clone)]
enum E {
    Num(N),
    Id(Sym),
    Idx(Box<E>, Box<E>),
    Mem(Box<E>, Sym),
    Bin(&'static str, Box<E>, Box<E>),
    Un(char, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    Call(Sym, Vec<E>),
    Anon(Sym, Vec<E>, Vec<E>),
    Arr(Vec<E>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    In,
    Out,
    Mid,
}
#[derive(Debug, Clone)]
enum S {
    Sig(Kind, Vec<(Sym, Vec<E>)>, Option<(&'static str, E)>),
    Var(Vec<(Sym, Vec<E>, Option<E>)>),
    Comp(Vec<(Sym, Vec<E>, Option<E>)>),
    Assign(E, &'static str, E),
    Eq(E, E),
    If(E, Box<S>, Option<Box<S>>),
    For(Box<S>, E, Box<S>, Box<S>),
    While(E, Box<S>),
    Ret(E),
    Assert(E),
    Block(Vec<S>),
    Nop,
}
#[derive(Debug)]
struct Template {
    name: Sym,
    params: Vec<Sym>,
    body: Vec<S>,
    split: usize,
}
#[derive(Debug)]
struct Function {
    params: Vec<Sym>,
    body: Vec<S>,
}

#[derive(Debug, Clone, PartialEq)]
enum T {
    Id(String),
    Num(BigUint),
    Str(String),
    P(&'static str),
    End,
}
const PUNCT: &[&str] = &[
    "<==", "<--", "===", "==>", "-->", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "\\=", "%=", "{",
    "}", "(", ")", "[", "]", ";", ",", ".", "?", ":", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "<", ">", "=", "!", "~",
];
fn lex(t: &str) -> Rs<Vec<T>> {
    let b = t.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            let Some(k) = t[i + 2..].find("*/") else { return bad("comment without end") };
            i += k + 4;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(T::Id(t[s..i].into()));
        } else if c.is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let w = &t[s..i];
            let v = match w.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => BigUint::parse_bytes(w.as_bytes(), 10),
            };
            match v {
                Some(v) => out.push(T::Num(v)),
                None => return bad(format!("number {w}")),
            }
        } else if c == b'"' {
            let Some(k) = t[i + 1..].find('"') else { return bad("string without end") };
            out.push(T::Str(t[i + 1..i + 1 + k].into()));
            i += k + 2;
        } else {
            for p in PUNCT {
                if b[i..].starts_with(p.as_bytes()) {
                    out.push(T::P(p));
                    i += p.len();
                    continue 'next;
                }
            }
            return bad(format!("character {:?}", c as char));
        }
    }
    out.push(T::End);
    Ok(out)
}

/// A set of sources.
pub struct Program {
    pub fld: Fld,
    names: Vec<String>,
    syms: HashMap<String, Sym>,
    templates: HashMap<Sym, Rc<Template>>,
    functions: HashMap<Sym, Rc<Function>>,
    main: Option<(Vec<Sym>, E)>,
    pub includes: Vec<String>,
}
struct Parser<'a> {
    t: Vec<T>,
    i: usize,
    p: &'a mut Program,
}
const LEVELS: &[&[&str]] = &[
    &["||"],
    &["&&"],
    &["==", "!=", "<", ">", "<=", ">="],
    &["|"],
    &["^"],
    &["&"],
    &["<<", ">>"],
    &["+", "-"],
    &["*", "/", "\\", "%"],
    &["**"],
];
impl<'a> Parser<'a> {
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].clone();
        self.i = (self.i + 1).min(self.t.len() - 1);
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn word(&self, w: &str) -> bool {
        matches!(self.peek(), T::Id(q) if q == w)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        if r {
            self.i += 1;
        }
        r
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let r = self.word(w);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, p: &str) -> Rs<()> {
        if self.eat(p) {
            return Ok(());
        }
        let near: Vec<String> = self.t[self.i.saturating_sub(8)..(self.i + 3).min(self.t.len())].iter().map(|x| format!("{x:?}")).collect();
        bad(format!("{p} expected near {}", near.join(" ")))
    }
    fn ident(&mut self) -> Rs<Sym> {
        match self.next() {
            T::Id(s) => Ok(self.p.sym(&s)),
            x => bad(format!("name expected, found {x:?}")),
        }
    }
    fn list(&mut self, end: &str) -> Rs<Vec<E>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.want(",")?;
        }
    }
    fn dims(&mut self) -> Rs<Vec<E>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.want("]")?;
        }
        Ok(d)
    }
    fn expr(&mut self) -> Rs<E> {
        let c = self.level(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(E::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn level(&mut self, l: usize) -> Rs<E> {
        if l == LEVELS.len() {
            return self.unary();
        }
        let mut a = self.level(l + 1)?;
        while let T::P(p) = self.peek() {
            let Some(op) = LEVELS[l].iter().find(|q| *q == p) else { break };
            self.i += 1;
            let b = self.level(l + 1)?;
            a = E::Bin(op, Box::new(a), Box::new(b));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Rs<E> {
        for op in ["-", "!", "~"] {
            if self.eat(op) {
                return Ok(E::Un(op.chars().next().unwrap(), Box::new(self.unary()?)));
            }
        }
        let mut e = match self.next() {
            T::Num(n) => E::Num(self.p.fld.of(&n)),
            T::P("(") => {
                let e = self.expr()?;
                self.want(")")?;
                e
            }
            T::P("[") => E::Arr(self.list("]")?),
            T::Id(s) => {
                let s = self.p.sym(&s);
                if self.eat("(") {
                    let a = self.list(")")?;
                    if self.eat("(") {
                        E::Anon(s, a, self.list(")")?)
                    } else {
                        E::Call(s, a)
                    }
                } else {
                    E::Id(s)
                }
            }
            x => return bad(format!("expression expected, found {x:?}")),
        };
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                e = E::Idx(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                e = E::Mem(Box::new(e), self.ident()?);
            } else {
                return Ok(e);
            }
        }
    }
    fn block(&mut self) -> Rs<Vec<S>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == T::End {
                return bad("end of file in a block");
            }
            v.push(self.stmt()?);
        }
        Ok(v)
    }
    fn stmt(&mut self) -> Rs<S> {
        if self.is("{") {
            return Ok(S::Block(self.block()?));
        }
        if self.eat_word("if") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let a = Box::new(self.stmt()?);
            let b = if self.eat_word("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(S::If(c, a, b));
        }
        if self.eat_word("for") {
            self.want("(")?;
            let i = self.simple()?;
            self.want(";")?;
            let c = self.expr()?;
            self.want(";")?;
            let s = self.simple()?;
            self.want(")")?;
            return Ok(S::For(Box::new(i), c, Box::new(s), Box::new(self.stmt()?)));
        }
        if self.eat_word("while") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            return Ok(S::While(c, Box::new(self.stmt()?)));
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    fn simple(&mut self) -> Rs<S> {
        if self.eat_word("signal") {
            let k = if self.eat_word("input") {
                Kind::In
            } else if self.eat_word("output") {
                Kind::Out
            } else {
                Kind::Mid
            };
            let mut v = vec![];
            loop {
                let s = self.ident()?;
                v.push((s, self.dims()?));
                for op in ["<==", "<--"] {
                    if self.eat(op) {
                        if v.len() != 1 {
                            return bad("several signals with a value");
                        }
                        return Ok(S::Sig(k, v, Some((op, self.expr()?))));
                    }
                }
                if !self.eat(",") {
                    return Ok(S::Sig(k, v, None));
                }
            }
        }
        for (w, comp) in [("var", false), ("component", true)] {
            if self.eat_word(w) {
                let mut v = vec![];
                loop {
                    let s = self.ident()?;
                    let d = self.dims()?;
                    let e = if self.eat("=") { Some(self.expr()?) } else { None };
                    v.push((s, d, e));
                    if !self.eat(",") {
                        return Ok(if comp { S::Comp(v) } else { S::Var(v) });
                    }
                }
            }
        }
        if self.eat_word("return") {
            return Ok(S::Ret(self.expr()?));
        }
        if self.eat_word("assert") {
            self.want("(")?;
            let e = self.expr()?;
            self.want(")")?;
            return Ok(S::Assert(e));
        }
        if self.eat_word("log") {
            self.want("(")?;
            self.list(")")?;
            return Ok(S::Nop);
        }
        let l = self.expr()?;
        for (p, op) in [("++", "+"), ("--", "-")] {
            if self.eat(p) {
                return Ok(S::Assign(l.clone(), "=", E::Bin(op, Box::new(l), Box::new(E::Num(ONE)))));
            }
        }
        for (p, op) in [("+=", "+"), ("-=", "-"), ("*=", "*"), ("/=", "/"), ("\\=", "\\"), ("%=", "%")] {
            if self.eat(p) {
                let r = self.expr()?;
                return Ok(S::Assign(l.clone(), "=", E::Bin(op, Box::new(l), Box::new(r))));
            }
        }
        for op in ["=", "<==", "<--"] {
            if self.eat(op) {
                return Ok(S::Assign(l, op, self.expr()?));
            }
        }
        for (p, op) in [("==>", "<=="), ("-->", "<--")] {
            if self.eat(p) {
                return Ok(S::Assign(self.expr()?, op, l));
            }
        }
        if self.eat("===") {
            return Ok(S::Eq(l, self.expr()?));
        }
        let x = self.next();
        bad(format!("statement expected, found {x:?}"))
    }
    fn file(&mut self) -> Rs<()> {
        loop {
            if *self.peek() == T::End {
                return Ok(());
            }
            if self.eat_word("pragma") {
                while !self.eat(";") {
                    if self.next() == T::End {
                        return bad("pragma");
                    }
                }
            } else if self.eat_word("include") {
                match self.next() {
                    T::Str(s) => self.p.includes.push(s),
                    x => return bad(format!("include of {x:?}")),
                }
                self.want(";")?;
            } else if self.word("template") || self.word("function") {
                let template = self.word("template");
                self.i += 1;
                while template && (self.word("parallel") || self.word("custom")) {
                    self.i += 1;
                }
                let name = self.ident()?;
                self.want("(")?;
                let mut params = vec![];
                while !self.eat(")") {
                    params.push(self.ident()?);
                    if !self.is(")") {
                        self.want(",")?;
                    }
                }
                let body = self.block()?;
                let split = body.iter().rposition(|s| matches!(s, S::Sig(Kind::In, ..))).map_or(0, |i| i + 1);
                if self.p.templates.contains_key(&name) || self.p.functions.contains_key(&name) {
                    return bad(format!("{} is defined twice", self.p.names[name as usize]));
                }
                if template {
                    self.p.templates.insert(name, Rc::new(Template { name, params, body, split }));
                } else {
                    self.p.functions.insert(name, Rc::new(Function { params, body }));
                }
            } else if self.eat_word("component") {
                if !self.eat_word("main") {
                    return bad("component outside of a template");
                }
                let mut public = vec![];
                if self.eat("{") {
                    if !self.eat_word("public") {
                        return bad("public expected");
                    }
                    self.want("[")?;
                    while !self.eat("]") {
                        public.push(self.ident()?);
                        if !self.is("]") {
                            self.want(",")?;
                        }
                    }
                    self.want("}")?;
                }
                self.want("=")?;
                let e = self.expr()?;
                self.want(";")?;
                if self.p.main.replace((public, e)).is_some() {
                    return bad("two main components");
                }
            } else {
                let x = self.next();
                return bad(format!("definition expected, found {x:?}"));
            }
        }
    }
}
impl Program {
    pub fn new(modulus: &BigUint) -> Program {
        Program {
            fld: Fld::new(modulus),
            names: vec![],
            syms: HashMap::new(),
            templates: HashMap::new(),
            functions: HashMap::new(),
            main: None,
            includes: vec![],
        }
    }
    pub fn sym(&mut self, s: &str) -> Sym {
        if let Some(i) = self.syms.get(s) {
            return *i;
        }
        self.names.push(s.into());
        self.syms.insert(s.into(), self.names.len() as Sym - 1);
        self.names.len() as Sym - 1
    }
    pub fn load(&mut self, text: &str) -> Rs<()> {
        let t = lex(text)?;
        Parser { t, i: 0, p: self }.file()
    }
    /// Forgets a definition, so that another one can take its place.
    pub fn remove(&mut self, name: &str) {
        let s = self.sym(name);
        self.templates.remove(&s);
        self.functions.remove(&s);
    }
    pub fn defines(&self, name: &str) -> bool {
        self.syms.get(name).map_or(false, |s| self.templates.contains_key(s) || self.functions.contains_key(s))
    }
}
impl Clone for Program {
    fn clone(&self) -> Self {
        Program {
            fld: self.fld.clone(),
            names: self.names.clone(),
            syms: self.syms.clone(),
            templates: self.templates.clone(),
            functions: self.functions.clone(),
            main: self.main.clone(),
            includes: self.includes.clone(),
        }
    }
}

// ---------------------------------------------------------------- evaluation

/// A value: a number with the degree of the expression it came from (0 constant, 1 linear,
/// 2 one product plus linear, 3 anything else), or an array.
#[derive(Debug, Clone)]
pub enum V {
    N(N, u8),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn num(&self) -> Rs<&N> {
        match self {
            V::N(n, _) => Ok(n),
            V::A(_) => bad("array where a number is needed"),
        }
    }
    fn shape(&self) -> Rs<Vec<usize>> {
        match self {
            V::N(..) => Ok(vec![]),
            V::A(a) => {
                let mut s = vec![a.len()];
                if let Some(f) = a.first() {
                    s.extend(f.shape()?);
                    for x in a.iter() {
                        if x.shape()? != s[1..] {
                            return bad("ragged array");
                        }
                    }
                }
                Ok(s)
            }
        }
    }
    pub fn flat(&self, out: &mut Vec<(N, u8)>) {
        match self {
            V::N(n, d) => out.push((*n, *d)),
            V::A(a) => a.iter().for_each(|x| x.flat(out)),
        }
    }
    pub fn numbers(&self) -> Vec<N> {
        let mut o = vec![];
        self.flat(&mut o);
        o.into_iter().map(|x| x.0).collect()
    }
    pub fn array(v: Vec<N>, deg: u8) -> V {
        V::A(Rc::new(v.into_iter().map(|x| V::N(x, deg)).collect()))
    }
}
fn nest(dims: &[usize], it: &mut dyn Iterator<Item = V>) -> V {
    match dims.split_first() {
        None => it.next().unwrap(),
        Some((n, rest)) => V::A(Rc::new((0..*n).map(|_| nest(rest, it)).collect())),
    }
}

struct Sig {
    kind: Kind,
    dims: Vec<usize>,
    v: Vec<Option<N>>,
}
struct Comps {
    dims: Vec<usize>,
    v: Vec<Option<Box<Comp>>>,
}
struct Comp {
    t: Rc<Template>,
    vars: Vec<(Sym, V)>,
    sigs: HashMap<Sym, Sig>,
    order: Vec<Sym>,
    comps: HashMap<Sym, Comps>,
    missing: usize,
    done: bool,
}
enum Acc {
    I(usize),
    M(Sym),
}
pub type Builtin = Box<dyn Fn(&[V], &Fld) -> V>;
/// What a hint (`<--`) is replaced by: template, signal, position, honest value.
pub type Hint<'a> = Box<dyn FnMut(&str, &str, usize, &N) -> N + 'a>;
pub struct Interp<'a> {
    pub p: &'a Program,
    pub builtins: HashMap<String, Builtin>,
    pub hint: Option<Hint<'a>>,
    cache: HashMap<(Sym, Vec<N>), V>,
    pub constraints: usize,
    pub hints: usize,
}
pub struct Run {
    root: Comp,
}

fn offset(dims: &[usize], idx: &[usize]) -> Rs<(usize, usize)> {
    if idx.len() > dims.len() {
        return bad("too many indices");
    }
    let mut o = 0;
    for (d, i) in dims.iter().zip(idx) {
        if i >= d {
            return bad(format!("index {i} of {d}"));
        }
        o = o * d + i;
    }
    let rest: usize = dims[idx.len()..].iter().product();
    Ok((o * rest, rest))
}
impl<'a> Interp<'a> {
    pub fn new(p: &'a Program) -> Self {
        Interp { p, builtins: HashMap::new(), hint: None, cache: HashMap::new(), constraints: 0, hints: 0 }
    }
    fn name(&self, s: Sym) -> &str {
        &self.p.names[s as usize]
    }
    /// Runs the main component on named inputs; all of them have to be there.
    pub fn run_main(&mut self, inputs: &[(String, Vec<N>)]) -> Rs<Run> {
        let Some((public, e)) = &self.p.main else { return bad("no main component") };
        let E::Call(t, args) = e else { return bad("main component") };
        let t = *t;
        let mut c = Comp::shell(self.template(t)?);
        let args: Vec<V> = args.iter().map(|a| self.eval(&mut c, a)).collect::<Rs<_>>()?;
        self.run_sym(t, &args, Some(public), inputs)
    }
    pub fn run(&mut self, template: &str, args: &[u64], inputs: &[(String, Vec<N>)]) -> Rs<Run> {
        let Some(t) = self.p.syms.get(template) else { return bad(format!("no template {template}")) };
        let args: Vec<V> = args.iter().map(|a| V::N(small(*a), 0)).collect();
        self.run_sym(*t, &args, None, inputs)
    }
    fn run_sym(&mut self, t: Sym, args: &[V], public: Option<&Vec<Sym>>, inputs: &[(String, Vec<N>)]) -> Rs<Run> {
        let mut c = self.instantiate(t, args)?;
        for s in public.into_iter().flatten() {
            if c.sigs.get(s).map_or(true, |x| x.kind != Kind::In) {
                return bad(format!("public {} is no input of the main component", self.name(*s)));
            }
        }
        for (n, v) in inputs {
            let s = self.p.syms.get(n.as_str()).copied();
            match s.and_then(|s| c.sigs.get_mut(&s)) {
                Some(sig) if sig.kind == Kind::In => {
                    if sig.v.len() != v.len() {
                        return bad(format!("{} values for input {n} of {}", v.len(), sig.v.len()));
                    }
                    for (slot, x) in sig.v.iter_mut().zip(v) {
                        if slot.replace(*x).is_none() {
                            c.missing -= 1;
                        }
                    }
                }
                _ => {} // the witness calculator passes over names the circuit does not have
            }
        }
        if c.missing > 0 {
            let m = c.order.iter().filter(|s| c.sigs[s].v.iter().any(|x| x.is_none())).map(|s| self.name(*s).to_string()).collect::<Vec<_>>();
            return bad(format!("inputs without values: {}", m.join(", ")));
        }
        if !c.done {
            self.finish(&mut c)?;
        }
        Ok(Run { root: c })
    }
    fn template(&self, t: Sym) -> Rs<Rc<Template>> {
        self.p.templates.get(&t).cloned().ok_or_else(|| Er::Bad(format!("no template {}", self.name(t))))
    }
    fn instantiate(&mut self, t: Sym, args: &[V]) -> Rs<Comp> {
        let t = self.template(t)?;
        if args.len() != t.params.len() {
            return bad(format!("{} takes {} parameters, not {}", self.name(t.name), t.params.len(), args.len()));
        }
        let mut c = Comp::shell(t.clone());
        for (p, a) in t.params.iter().zip(args) {
            c.vars.push((*p, a.clone()));
        }
        for s in &t.body[..t.split] {
            self.exec(&mut c, s)?;
        }
        c.missing = c.order.iter().map(|s| c.sigs[s].v.len()).sum();
        if c.missing == 0 {
            self.finish(&mut c)?;
        }
        Ok(c)
    }
    fn finish(&mut self, c: &mut Comp) -> Rs<()> {
        let t = c.t.clone();
        for s in &t.body[t.split..] {
            self.exec(c, s)?;
        }
        c.done = true;
        for (s, k) in &c.comps {
            for x in k.v.iter().flatten() {
                if !x.done {
                    return bad(format!("component {} of {} has inputs without values", self.name(*s), self.name(t.name)));
                }
            }
        }
        for (s, x) in &c.sigs {
            if x.kind == Kind::Out && x.v.iter().any(|x| x.is_none()) {
                return bad(format!("output {} of {} has no value", self.name(*s), self.name(t.name)));
            }
        }
        c.vars = vec![];
        c.comps = HashMap::new();
        c.sigs.retain(|_, x| x.kind == Kind::Out);
        Ok(())
    }
    fn path(&mut self, c: &mut Comp, e: &E) -> Rs<(Sym, Vec<Acc>)> {
        match e {
            E::Id(s) => Ok((*s, vec![])),
            E::Idx(b, i) => {
                let (s, mut p) = self.path(c, b)?;
                p.push(Acc::I(self.index(c, i)?));
                Ok((s, p))
            }
            E::Mem(b, m) => {
                let (s, mut p) = self.path(c, b)?;
                p.push(Acc::M(*m));
                Ok((s, p))
            }
            _ => bad("not a place"),
        }
    }
    fn index(&mut self, c: &mut Comp, e: &E) -> Rs<usize> {
        match self.eval(c, e)? {
            V::N(n, 0) if n[1] | n[2] | n[3] == 0 && n[0] < 1 << 40 => Ok(n[0] as usize),
            V::N(n, 0) => bad(format!("index or size {}", big(&n))),
            V::N(..) => bad("index that depends on signals"),
            _ => bad("array as an index"),
        }
    }
    fn read(&mut self, c: &mut Comp, e: &E) -> Rs<V> {
        let (s, p) = self.path(c, e)?;
        if let Some((_, v)) = c.vars.iter().rev().find(|x| x.0 == s) {
            let mut v = v;
            for a in &p {
                match (a, v) {
                    (Acc::I(i), V::A(x)) if *i < x.len() => v = &x[*i],
                    _ => return bad(format!("access to variable {}", self.name(s))),
                }
            }
            return Ok(v.clone());
        }
        let sig = |me: &Self, x: &Sig, s: Sym, idx: &[Acc]| -> Rs<V> {
            let mut i = [0usize; 4];
            for (k, a) in idx.iter().enumerate() {
                match a {
                    Acc::I(v) if k < 4 => i[k] = *v,
                    _ => return bad(format!("access to signal {}", me.name(s))),
                }
            }
            let (o, n) = offset(&x.dims, &i[..idx.len()]).map_err(|e| match e {
                Er::Bad(m) => Er::Bad(format!("signal {}: {m}", me.name(s))),
                e => e,
            })?;
            let get = |k: usize| x.v[k].map(|n| V::N(n, 1)).ok_or_else(|| Er::Bad(format!("signal {} is read before it has a value", me.name(s))));
            if idx.len() == x.dims.len() {
                return get(o);
            }
            let all = (o..o + n).map(get).collect::<Rs<Vec<V>>>()?;
            Ok(nest(&x.dims[idx.len()..], &mut all.into_iter()))
        };
        if let Some(x) = c.sigs.get(&s) {
            return sig(self, x, s, &p);
        }
        if let Some(k) = c.comps.get(&s) {
            let mut idx = vec![];
            for (j, a) in p.iter().enumerate() {
                match a {
                    Acc::I(i) => idx.push(*i),
                    Acc::M(m) => {
                        if idx.len() != k.dims.len() {
                            return bad(format!("access to component {}", self.name(s)));
                        }
                        let (o, _) = offset(&k.dims, &idx)?;
                        let Some(ch) = &k.v[o] else { return bad(format!("component {} does not exist yet", self.name(s))) };
                        let Some(x) = ch.sigs.get(m) else { return bad(format!("component {} has no signal {}", self.name(s), self.name(*m))) };
                        if x.kind == Kind::Out && !ch.done {
                            return bad(format!("output of component {} before its inputs are set", self.name(s)));
                        }
                        if x.kind == Kind::Mid {
                            return bad(format!("signal {} inside of component {}", self.name(*m), self.name(s)));
                        }
                        return sig(self, x, *m, &p[j + 1..]);
                    }
                }
            }
        }
        bad(format!("nothing is called {} in {}", self.name(s), self.name(c.t.name)))
    }
    fn bin(&self, op: &str, a: &V, b: &V) -> Rs<V> {
        let f = &self.p.fld;
        let (V::N(x, d), V::N(y, e)) = (a, b) else { return bad(format!("{op} on arrays")) };
        let (d, e) = (*d, *e);
        let other = if d == 0 && e == 0 { 0 } else { 3 };
        let flag = |b: bool| V::N(small(b as u64), other);
        let shift = |n: &N| -> Rs<usize> {
            if n[1] | n[2] | n[3] != 0 || n[0] > 4096 {
                return bad("shift or power out of range");
            }
            Ok(n[0] as usize)
        };
        Ok(match op {
            "+" | "-" => {
                let v = if op == "+" { f.add(x, y) } else { f.sub(x, y) };
                V::N(v, if d == 2 && e == 2 { 3 } else { d.max(e) })
            }
            "*" => V::N(
                f.mul(x, y),
                match (d, e) {
                    (0, k) | (k, 0) => k,
                    (1, 1) => 2,
                    _ => 3,
                },
            ),
            "/" => {
                if *y == ZERO {
                    return Err(Er::Unsat("division by zero".into()));
                }
                V::N(f.mul(x, &f.inverse(y)), if e == 0 { d } else { 3 })
            }
            "\\" | "%" => {
                if *y == ZERO {
                    return Err(Er::Unsat("division by zero".into()));
                }
                let (x, y) = (big(x), big(y));
                V::N(f.of(&if op == "%" { x % y } else { x / y }), other)
            }
            "**" => V::N(f.pow(x, &BigUint::from(shift(y)?)), if d == 0 && e == 0 { 0 } else { 3 }),
            "<<" => V::N(f.of(&(big(x) << shift(y)?)), other),
            ">>" => V::N(f.of(&(big(x) >> shift(y)?)), other),
            "&" | "|" | "^" => {
                let mut r = ZERO;
                for i in 0..4 {
                    r[i] = match op {
                        "&" => x[i] & y[i],
                        "|" => x[i] | y[i],
                        _ => x[i] ^ y[i],
                    };
                }
                V::N(f.of(&big(&r)), other)
            }
            "==" => flag(x == y),
            "!=" => flag(x != y),
            "<" => flag(f.less(x, y)),
            ">" => flag(f.less(y, x)),
            "<=" => flag(!f.less(y, x)),
            ">=" => flag(!f.less(x, y)),
            "&&" => flag(*x != ZERO && *y != ZERO),
            "||" => flag(*x != ZERO || *y != ZERO),
            _ => return bad(format!("operator {op}")),
        })
    }
    fn eval(&mut self, c: &mut Comp, e: &E) -> Rs<V> {
        match e {
            E::Num(n) => Ok(V::N(*n, 0)),
            E::Id(_) | E::Idx(..) | E::Mem(..) => {
                // an index into something that is not a place
                let mut b = e;
                while let E::Idx(x, _) | E::Mem(x, _) = b {
                    b = x;
                }
                if matches!(b, E::Id(_)) {
                    return self.read(c, e);
                }
                let E::Idx(x, i) = e else { return bad("member of an expression") };
                let i = self.index(c, i)?;
                match self.eval(c, x)? {
                    V::A(a) if i < a.len() => Ok(a[i].clone()),
                    _ => bad("index into an expression"),
                }
            }
            E::Bin(op, a, b) => {
                let x = self.eval(c, a)?;
                let y = self.eval(c, b)?;
                self.bin(op, &x, &y)
            }
            E::Un(op, a) => {
                let V::N(x, d) = self.eval(c, a)? else { return bad("operator on an array") };
                match op {
                    '-' => Ok(V::N(self.p.fld.sub(&ZERO, &x), d)),
                    '!' => Ok(V::N(small((x == ZERO) as u64), if d == 0 { 0 } else { 3 })),
                    _ => bad("operator ~"),
                }
            }
            E::Tern(a, x, y) => {
                let t = *self.eval(c, a)?.num()? != ZERO;
                self.eval(c, if t { x } else { y })
            }
            E::Arr(v) => Ok(V::A(Rc::new(v.iter().map(|x| self.eval(c, x)).collect::<Rs<Vec<V>>>()?))),
            E::Call(s, args) => {
                let args: Vec<V> = args.iter().map(|a| self.eval(c, a)).collect::<Rs<_>>()?;
                self.call(*s, args)
            }
            E::Anon(t, params, args) => {
                let params: Vec<V> = params.iter().map(|a| self.eval(c, a)).collect::<Rs<_>>()?;
                let mut k = self.instantiate(*t, &params)?;
                if k.order.len() != args.len() {
                    return bad(format!("{} inputs for {}", args.len(), self.name(*t)));
                }
                for (s, a) in k.order.clone().into_iter().zip(args) {
                    let v = self.eval(c, a)?;
                    self.quadratic(&v)?;
                    self.put(&mut k, s, &[], &v, true)?;
                }
                let outs: Vec<&Sig> = k.sigs.values().filter(|x| x.kind == Kind::Out).collect();
                if !k.done || outs.len() != 1 {
                    return bad(format!("{} used as an expression", self.name(*t)));
                }
                let x = outs[0];
                Ok(nest(&x.dims, &mut x.v.iter().map(|n| V::N(n.unwrap(), 1))))
            }
        }
    }
    fn call(&mut self, s: Sym, args: Vec<V>) -> Rs<V> {
        if let Some(b) = self.builtins.get(self.name(s)) {
            return Ok(b(&args, &self.p.fld));
        }
        let Some(f) = self.p.functions.get(&s).cloned() else { return bad(format!("no function {}", self.name(s))) };
        if f.params.len() != args.len() {
            return bad(format!("arguments of {}", self.name(s)));
        }
        let deg = args.iter().map(|a| matches!(a, V::N(_, 0))).all(|x| x);
        let key = (s, args.iter().filter_map(|a| a.num().ok().copied()).collect::<Vec<N>>());
        if deg {
            if let Some(v) = self.cache.get(&key) {
                return Ok(v.clone());
            }
        }
        // a function runs in a component of its own that has only variables
        let mut c = Comp::shell(Rc::new(Template { name: s, params: vec![], body: vec![], split: 0 }));
        c.vars = f.params.iter().copied().zip(args).collect();
        let mut r = None;
        for x in &f.body {
            r = self.exec(&mut c, x)?;
            if r.is_some() {
                break;
            }
        }
        let Some(v) = r else { return bad(format!("{} returns nothing", self.name(s))) };
        if deg {
            self.cache.insert(key, v.clone());
        }
        Ok(v)
    }
    fn quadratic(&self, v: &V) -> Rs<()> {
        let mut o = vec![];
        v.flat(&mut o);
        if o.iter().any(|x| x.1 > 2) {
            return bad("constraint that is not quadratic");
        }
        Ok(())
    }
    /// Assigns a signal (or a part of an array of signals) of a component.
    fn put(&mut self, c: &mut Comp, s: Sym, idx: &[usize], v: &V, input: bool) -> Rs<()> {
        let Some(x) = c.sigs.get_mut(&s) else { return bad(format!("{} has no signal {}", self.name(c.t.name), self.name(s))) };
        if (x.kind == Kind::In) != input {
            return bad(format!("assignment to signal {} of {}", self.name(s), self.name(c.t.name)));
        }
        let (o, n) = offset(&x.dims, idx).map_err(|e| match e {
            Er::Bad(m) => Er::Bad(format!("signal {} of {}: {m}", self.p.names[s as usize], self.p.names[c.t.name as usize])),
            e => e,
        })?;
        if v.shape()? != x.dims[idx.len()..] {
            return bad(format!("signal {} of {}: shape {:?} instead of {:?}", self.name(s), self.name(c.t.name), v.shape()?, &x.dims[idx.len()..]));
        }
        let mut f = vec![];
        v.flat(&mut f);
        for (k, y) in (o..o + n).zip(f) {
            if x.v[k].replace(y.0).is_some() {
                return bad(format!("signal {} of {} is assigned twice", self.name(s), self.name(c.t.name)));
            }
        }
        if input {
            c.missing -= n;
            if c.missing == 0 {
                self.finish(c)?;
            }
        }
        Ok(())
    }
    fn assign(&mut self, c: &mut Comp, l: &E, op: &str, r: &E) -> Rs<()> {
        let (s, p) = self.path(c, l)?;
        if c.comps.contains_key(&s) && !p.iter().any(|a| matches!(a, Acc::M(_))) {
            let E::Call(t, args) = r else { return bad(format!("assignment to component {}", self.name(s))) };
            if op != "=" {
                return bad(format!("assignment to component {}", self.name(s)));
            }
            let args: Vec<V> = args.iter().map(|a| self.eval(c, a)).collect::<Rs<_>>()?;
            let k = self.instantiate(*t, &args)?;
            let idx: Vec<usize> = p.iter().map(|a| if let Acc::I(i) = a { *i } else { 0 }).collect();
            let name = self.name(s).to_string();
            let a = c.comps.get_mut(&s).unwrap();
            let (o, n) = offset(&a.dims, &idx)?;
            if n != 1 || a.dims.len() != idx.len() || a.v[o].replace(Box::new(k)).is_some() {
                return bad(format!("component {name} is assigned twice"));
            }
            return Ok(());
        }
        let v = self.eval(c, r)?;
        if op == "=" {
            let Some(slot) = c.vars.iter_mut().rev().find(|x| x.0 == s) else { return bad(format!("no variable {}", self.name(s))) };
            let mut place = &mut slot.1;
            for a in &p {
                match (a, place) {
                    (Acc::I(i), V::A(x)) if *i < x.len() => place = &mut Rc::make_mut(x)[*i],
                    _ => return bad(format!("access to variable {}", self.p.names[s as usize])),
                }
            }
            *place = v;
            return Ok(());
        }
        if c.vars.iter().any(|x| x.0 == s) {
            return bad(format!("{op} on variable {}", self.name(s)));
        }
        let at = p.iter().position(|a| matches!(a, Acc::M(_)));
        let nums = |a: &[Acc]| a.iter().map(|x| if let Acc::I(i) = x { Ok(*i) } else { bad("access") }).collect::<Rs<Vec<usize>>>();
        let v = if op == "<==" {
            self.quadratic(&v)?;
            self.constraints += 1;
            v
        } else {
            self.hints += 1;
            match &mut self.hint {
                None => v,
                Some(_) => {
                    let (t, n) = (self.name(c.t.name).to_string(), self.name(s).to_string());
                    let x = v.num()?;
                    let i = p.iter().fold(0, |a, b| if let Acc::I(i) = b { a * 64 + i } else { a });
                    V::N((self.hint.as_mut().unwrap())(&t, &n, i, x), 3)
                }
            }
        };
        match at {
            None => self.put(c, s, &nums(&p)?, &v, false),
            Some(at) => {
                let Acc::M(m) = p[at] else { unreachable!() };
                let (idx, rest) = (nums(&p[..at])?, nums(&p[at + 1..])?);
                let name = self.name(s).to_string();
                let Some(k) = c.comps.get_mut(&s) else { return bad(format!("no component {name}")) };
                let (o, _) = offset(&k.dims, &idx)?;
                if idx.len() != k.dims.len() {
                    return bad(format!("access to component {name}"));
                }
                let Some(mut ch) = k.v[o].take() else { return bad(format!("component {name} does not exist yet")) };
                let r = self.put(&mut ch, m, &rest, &v, true);
                c.comps.get_mut(&s).unwrap().v[o] = Some(ch);
                r
            }
        }
    }
    fn exec(&mut self, c: &mut Comp, s: &S) -> Rs<Option<V>> {
        match s {
            S::Nop => {}
            S::Sig(kind, items, init) => {
                for (n, d) in items {
                    let dims: Vec<usize> = d.iter().map(|e| self.index(c, e)).collect::<Rs<_>>()?;
                    let len = dims.iter().product();
                    if c.comps.contains_key(n) || c.sigs.insert(*n, Sig { kind: *kind, dims, v: vec![None; len] }).is_some() {
                        return bad(format!("{} is declared twice in {}", self.name(*n), self.name(c.t.name)));
                    }
                    if *kind == Kind::In {
                        c.order.push(*n);
                    }
                }
                if let Some((op, e)) = init {
                    self.assign(c, &E::Id(items[0].0), op, e)?;
                }
            }
            S::Var(items) => {
                for (n, d, e) in items {
                    let dims: Vec<usize> = d.iter().map(|e| self.index(c, e)).collect::<Rs<_>>()?;
                    let v = match e {
                        Some(e) => {
                            let v = self.eval(c, e)?;
                            if v.shape()? != dims {
                                return bad(format!("variable {}: shape {:?} instead of {dims:?}", self.name(*n), v.shape()?));
                            }
                            v
                        }
                        None => nest(&dims, &mut std::iter::repeat(V::N(ZERO, 0))),
                    };
                    c.vars.push((*n, v));
                }
            }
            S::Comp(items) => {
                for (n, d, e) in items {
                    let dims: Vec<usize> = d.iter().map(|e| self.index(c, e)).collect::<Rs<_>>()?;
                    let len = dims.iter().product::<usize>();
                    let k = Comps { dims, v: (0..len).map(|_| None).collect() };
                    if c.sigs.contains_key(n) || c.comps.insert(*n, k).is_some() {
                        return bad(format!("{} is declared twice in {}", self.name(*n), self.name(c.t.name)));
                    }
                    if let Some(e) = e {
                        self.assign(c, &E::Id(*n), "=", e)?;
                    }
                }
            }
            S::Assign(l, op, r) => self.assign(c, l, op, r)?,
            S::Eq(a, b) => {
                let (x, y) = (self.eval(c, a)?, self.eval(c, b)?);
                let d = self.bin("-", &x, &y)?;
                self.quadratic(&d)?;
                self.constraints += 1;
                if *d.num()? != ZERO {
                    return Err(Er::Unsat(format!("constraint of {}", self.name(c.t.name))));
                }
            }
            S::If(e, a, b) => {
                let t = *self.eval(c, e)?.num()? != ZERO;
                let len = c.vars.len();
                let r = if t {
                    self.exec(c, a)?
                } else if let Some(b) = b {
                    self.exec(c, b)?
                } else {
                    None
                };
                c.vars.truncate(len);
                return Ok(r);
            }
            S::For(i, e, st, b) => {
                let len = c.vars.len();
                self.exec(c, i)?;
                while *self.eval(c, e)?.num()? != ZERO {
                    let inner = c.vars.len();
                    if let Some(r) = self.exec(c, b)? {
                        return Ok(Some(r));
                    }
                    c.vars.truncate(inner);
                    self.exec(c, st)?;
                }
                c.vars.truncate(len);
            }
            S::While(e, b) => {
                while *self.eval(c, e)?.num()? != ZERO {
                    let inner = c.vars.len();
                    if let Some(r) = self.exec(c, b)? {
                        return Ok(Some(r));
                    }
                    c.vars.truncate(inner);
                }
            }
            S::Ret(e) => return Ok(Some(self.eval(c, e)?)),
            S::Assert(e) => {
                if *self.eval(c, e)?.num()? == ZERO {
                    return Err(Er::Unsat(format!("assertion of {}", self.name(c.t.name))));
                }
            }
            S::Block(v) => {
                let len = c.vars.len();
                for x in v {
                    if let Some(r) = self.exec(c, x)? {
                        return Ok(Some(r));
                    }
                }
                c.vars.truncate(len);
            }
        }
        Ok(None)
    }
}
impl Comp {
    fn shell(t: Rc<Template>) -> Comp {
        Comp { t, vars: vec![], sigs: HashMap::new(), order: vec![], comps: HashMap::new(), missing: 0, done: false }
    }
}
impl Run {
    pub fn output(&self, p: &Program, name: &str) -> Option<Vec<N>> {
        let x = self.root.sigs.get(p.syms.get(name)?)?;
        x.v.iter().copied().collect()
    }
}

/// Numbers of a JSON value, in order; strings are decimal or 0x-hexadecimal.
pub fn flatten(v: &serde_json::Value, f: &Fld, out: &mut Vec<N>) -> Result<(), String> {
    match v {
        serde_json::Value::Array(a) => a.iter().try_for_each(|x| flatten(x, f, out)),
        serde_json::Value::Number(n) => flatten(&serde_json::Value::String(n.to_string()), f, out),
        serde_json::Value::String(s) => {
            let b = match s.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => BigUint::parse_bytes(s.as_bytes(), 10),
            };
            out.push(f.of(&b.ok_or(format!("{s:?} is no number"))?));
            Ok(())
        }
        x => Err(format!("{x} is no number")),
    }
}
pub fn inputs(v: &serde_json::Value, f: &Fld) -> Result<Vec<(String, Vec<N>)>, String> {
    let o = v.as_object().ok_or("no object")?;
    o.iter()
        .map(|(k, x)| {
            let mut n = vec![];
            flatten(x, f, &mut n)?;
            Ok((k.clone(), n))
        })
        .collect()
}
#[allow(dead_code)]
pub fn to_u64(n: &N) -> u64 {
    big(n).to_u64().unwrap_or(0)
}
#[allow(dead_code)]
pub fn is_zero(n: &N) -> bool {
    big(n).is_zero()
}
