//! A small interpreter for the Solidity of the generated verifier contracts: structs and arrays in memory, checked
//! 256-bit arithmetic, functions of libraries and contracts, and the little inline assembly that calls precompiles.
//! The precompiles of BN254 work on a table of points with known exponents (an ideal group), see `Group`.
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(BigUint),
    Str(String),
    P(&'static str),
}
const PUNCT: &[&str] = &[
    ":=", "=>", "->", "++", "--", "+=", "-=", "*=", "/=", "%=", "<<", ">>", "==", "!=", "<=", ">=", "&&", "||", "**", "{", "}", "(", ")", "[", "]", ";", ",", ".",
    "=", "<", ">", "+", "-", "*", "/", "%", "!", "?", ":", "^", "&", "|", "~",
];
pub struct Bad(pub String);
fn lex(t: &str) -> Result<Vec<Tok>, Bad> {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            let s = i + 1;
            i = s;
            while i < c.len() && c[i] != '"' {
                i += 1;
            }
            out.push(Tok::Str(c[s..i.min(c.len())].iter().collect()));
            i += 1;
        } else if x.is_alphabetic() || x == '_' || x == '$' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            out.push(Tok::Id(c[s..i].iter().collect()));
        } else if x.is_ascii_digit() {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().filter(|x| **x != '_').collect();
            let v = match w.strip_prefix("0x").or(w.strip_prefix("0X")) {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None => BigUint::parse_bytes(w.as_bytes(), 10),
            };
            out.push(Tok::Num(v.ok_or(Bad(format!("number {w}")))?));
        } else {
            let p = PUNCT.iter().find(|p| c[i..].iter().take(p.len()).collect::<String>() == **p).ok_or(Bad(format!("character {x:?}")))?;
            out.push(Tok::P(p));
            i += p.len();
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Ty {
    Uint,
    Bool,
    Name(String),
    Arr(Box<Ty>, Option<Box<Ex>>),
}
#[derive(Clone, Debug)]
enum Ex {
    Num(BigUint),
    Bool(bool),
    Id(String),
    Dot(Box<Ex>, String),
    Ix(Box<Ex>, Box<Ex>),
    Call(Box<Ex>, Vec<Ex>),
    New(Ty, Vec<Ex>),
    Un(&'static str, Box<Ex>),
    Post(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Set(&'static str, Box<Ex>, Box<Ex>),
    If(Box<Ex>, Box<Ex>, Box<Ex>),
    List(Vec<Ex>),
    Tuple(Vec<Ex>),
}
#[derive(Clone, Debug)]
enum St {
    Block(Vec<St>),
    Var(Ty, String, Option<Ex>),
    Ex(Ex),
    If(Ex, Box<St>, Option<Box<St>>),
    For(Option<Box<St>>, Option<Ex>, Option<Ex>, Box<St>),
    While(Ex, Box<St>),
    Return(Option<Ex>),
    Break,
    Continue,
    Revert,
    Asm(Vec<Yul>),
    Unchecked(Vec<St>),
}
#[derive(Clone, Debug)]
enum Yul {
    Set(String, bool, YEx),
    Ex(YEx),
    Switch(YEx, Vec<(Option<YEx>, Vec<Yul>)>),
    If(YEx, Vec<Yul>),
}
#[derive(Clone, Debug)]
enum YEx {
    Num(BigUint),
    Id(String),
    Call(String, Vec<YEx>),
}
#[derive(Clone, Debug)]
struct Fun {
    scope: String,
    args: Vec<(Ty, String)>,
    rets: Vec<(Ty, String)>,
    body: Vec<St>,
}
pub struct Program {
    funs: HashMap<(String, String), Fun>,
    structs: HashMap<(String, String), Vec<(Ty, String)>>,
    consts: HashMap<(String, String), (Ty, Ex)>,
    libs: Vec<String>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
type PR<T> = Result<T, Bad>;
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, p: &str) -> bool {
        match self.peek() {
            Some(Tok::P(q)) => *q == p,
            Some(Tok::Id(q)) => q == p,
            _ => false,
        }
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p);
        self.i += r as usize;
        r
    }
    fn need(&mut self, p: &str) -> PR<()> {
        if self.eat(p) {
            return Ok(());
        }
        let ctx: Vec<_> = self.t[self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())].to_vec();
        Err(Bad(format!("{p:?} is missing near {ctx:?}")))
    }
    fn id(&mut self) -> PR<String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            x => Err(Bad(format!("a name is missing: {x:?}"))),
        }
    }
    /// A type, if one starts here and a name (or a data location) follows.
    fn ty(&mut self) -> PR<Ty> {
        let mut n = self.id()?;
        while self.eat(".") {
            n = format!("{n}.{}", self.id()?);
        }
        let mut t = match n.as_str() {
            "uint" | "uint256" => Ty::Uint,
            "bool" => Ty::Bool,
            _ => Ty::Name(n),
        };
        while self.eat("[") {
            let k = if self.is("]") { None } else { Some(Box::new(self.ex()?)) };
            self.need("]")?;
            t = Ty::Arr(Box::new(t), k);
        }
        Ok(t)
    }
    fn location(&mut self) {
        while self.eat("memory") || self.eat("calldata") || self.eat("storage") {}
    }
    fn params(&mut self) -> PR<Vec<(Ty, String)>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.is(")") {
            let t = self.ty()?;
            self.location();
            let n = if let Some(Tok::Id(_)) = self.peek() { self.id()? } else { String::new() };
            v.push((t, n));
            if !self.eat(",") {
                break;
            }
        }
        self.need(")")?;
        Ok(v)
    }
    fn args(&mut self, close: &str) -> PR<Vec<Ex>> {
        let mut v = vec![];
        while !self.is(close) {
            v.push(self.ex()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(close)?;
        Ok(v)
    }
    fn ex(&mut self) -> PR<Ex> {
        let l = self.cond()?;
        for op in ["=", "+=", "-=", "*=", "/=", "%="] {
            if self.eat(op) {
                let r = self.ex()?;
                let op = match op {
                    "=" => "",
                    "+=" => "+",
                    "-=" => "-",
                    "*=" => "*",
                    "/=" => "/",
                    _ => "%",
                };
                return Ok(Ex::Set(op, Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn cond(&mut self) -> PR<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.ex()?;
            self.need(":")?;
            let b = self.ex()?;
            return Ok(Ex::If(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, level: usize) -> PR<Ex> {
        const L: &[&[&str]] = &[&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"], &["**"]];
        if level == L.len() {
            return self.unary();
        }
        let mut l = self.bin(level + 1)?;
        while let Some(op) = L[level].iter().find(|o| self.is(o)) {
            self.i += 1;
            let r = self.bin(level + 1)?;
            l = Ex::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> PR<Ex> {
        for op in ["!", "-", "++", "--", "~"] {
            if self.eat(op) {
                return Ok(Ex::Un(op, Box::new(self.unary()?)));
            }
        }
        let mut e = match self.peek().cloned() {
            Some(Tok::Num(v)) => {
                self.i += 1;
                Ex::Num(v)
            }
            Some(Tok::Str(_)) => {
                self.i += 1;
                Ex::Bool(true)
            }
            Some(Tok::Id(n)) => {
                self.i += 1;
                match n.as_str() {
                    "true" | "false" => Ex::Bool(n == "true"),
                    "new" => {
                        let t = self.ty()?;
                        self.need("(")?;
                        Ex::New(t, self.args(")")?)
                    }
                    _ => Ex::Id(n),
                }
            }
            Some(Tok::P("(")) => {
                self.i += 1;
                let mut v = self.args(")")?;
                if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    Ex::Tuple(v)
                }
            }
            Some(Tok::P("[")) => {
                self.i += 1;
                Ex::List(self.args("]")?)
            }
            x => return Err(Bad(format!("an expression is missing: {x:?}"))),
        };
        loop {
            if self.eat(".") {
                e = Ex::Dot(Box::new(e), self.id()?);
            } else if self.eat("[") {
                let k = self.ex()?;
                self.need("]")?;
                e = Ex::Ix(Box::new(e), Box::new(k));
            } else if self.eat("(") {
                e = Ex::Call(Box::new(e), self.args(")")?);
            } else if self.eat("++") {
                e = Ex::Post("+", Box::new(e));
            } else if self.eat("--") {
                e = Ex::Post("-", Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn declaration(&mut self) -> Option<(Ty, String)> {
        let at = self.i;
        if let Ok(t) = self.ty() {
            self.location();
            if let Ok(n) = self.id() {
                return Some((t, n));
            }
        }
        self.i = at;
        None
    }
    fn block(&mut self) -> PR<Vec<St>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if self.peek().is_none() {
                return Err(Bad("the text ends inside a block".into()));
            }
            v.push(self.st()?);
        }
        Ok(v)
    }
    fn simple(&mut self) -> PR<St> {
        if let Some((t, n)) = self.declaration() {
            let e = if self.eat("=") { Some(self.ex()?) } else { None };
            return Ok(St::Var(t, n, e));
        }
        Ok(St::Ex(self.ex()?))
    }
    fn st(&mut self) -> PR<St> {
        if self.is("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eat("unchecked") {
            return Ok(St::Unchecked(self.block()?));
        }
        if self.eat("if") {
            self.need("(")?;
            let c = self.ex()?;
            self.need(")")?;
            let a = Box::new(self.st()?);
            let b = if self.eat("else") { Some(Box::new(self.st()?)) } else { None };
            return Ok(St::If(c, a, b));
        }
        if self.eat("while") {
            self.need("(")?;
            let c = self.ex()?;
            self.need(")")?;
            return Ok(St::While(c, Box::new(self.st()?)));
        }
        if self.eat("for") {
            self.need("(")?;
            let a = if self.is(";") { None } else { Some(Box::new(self.simple()?)) };
            self.need(";")?;
            let c = if self.is(";") { None } else { Some(self.ex()?) };
            self.need(";")?;
            let n = if self.is(")") { None } else { Some(self.ex()?) };
            self.need(")")?;
            return Ok(St::For(a, c, n, Box::new(self.st()?)));
        }
        if self.eat("assembly") {
            if let Some(Tok::Str(_)) = self.peek() {
                self.i += 1;
            }
            return Ok(St::Asm(self.yblock()?));
        }
        let r = if self.eat("return") {
            let e = if self.is(";") { None } else { Some(self.ex()?) };
            St::Return(e)
        } else if self.eat("break") {
            St::Break
        } else if self.eat("continue") {
            St::Continue
        } else if self.is("revert") {
            self.i += 1;
            self.need("(")?;
            self.args(")")?;
            St::Revert
        } else {
            self.simple()?
        };
        self.need(";")?;
        Ok(r)
    }
    fn yblock(&mut self) -> PR<Vec<Yul>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if self.eat("switch") {
                let e = self.yex()?;
                let mut c = vec![];
                loop {
                    if self.eat("case") {
                        let k = self.yex()?;
                        c.push((Some(k), self.yblock()?));
                    } else if self.eat("default") {
                        c.push((None, self.yblock()?));
                    } else {
                        break;
                    }
                }
                v.push(Yul::Switch(e, c));
            } else if self.eat("if") {
                let e = self.yex()?;
                v.push(Yul::If(e, self.yblock()?));
            } else if self.eat("let") {
                let n = self.id()?;
                self.need(":=")?;
                v.push(Yul::Set(n, true, self.yex()?));
            } else {
                let e = self.yex()?;
                match e {
                    YEx::Id(n) if self.eat(":=") => v.push(Yul::Set(n, false, self.yex()?)),
                    e => v.push(Yul::Ex(e)),
                }
            }
        }
        Ok(v)
    }
    fn yex(&mut self) -> PR<YEx> {
        if let Some(Tok::Num(v)) = self.peek().cloned() {
            self.i += 1;
            return Ok(YEx::Num(v));
        }
        let n = self.id()?;
        if !self.eat("(") {
            return Ok(YEx::Id(n));
        }
        let mut v = vec![];
        while !self.is(")") {
            v.push(self.yex()?);
            if !self.eat(",") {
                break;
            }
        }
        self.need(")")?;
        Ok(YEx::Call(n, v))
    }
}
pub fn parse(text: &str) -> Result<Program, Bad> {
    let mut p = P { t: lex(text)?, i: 0 };
    let mut g = Program { funs: HashMap::new(), structs: HashMap::new(), consts: HashMap::new(), libs: vec![] };
    while p.peek().is_some() {
        if p.eat("pragma") {
            while !p.eat(";") {
                if p.peek().is_none() {
                    return Err(Bad("pragma without end".into()));
                }
                p.i += 1;
            }
            continue;
        }
        let lib = p.is("library");
        if !lib && !p.is("contract") {
            return Err(Bad(format!("{:?} at the outermost level", p.peek())));
        }
        p.i += 1;
        let scope = p.id()?;
        if lib {
            g.libs.push(scope.clone());
        }
        p.need("{")?;
        while !p.eat("}") {
            if p.eat("using") {
                while !p.eat(";") {
                    if p.peek().is_none() {
                        return Err(Bad("using without end".into()));
                    }
                    p.i += 1;
                }
            } else if p.eat("struct") {
                let n = p.id()?;
                p.need("{")?;
                let mut f = vec![];
                while !p.eat("}") {
                    let t = p.ty()?;
                    f.push((t, p.id()?));
                    p.need(";")?;
                }
                g.structs.insert((scope.clone(), n), f);
            } else if p.eat("function") {
                let n = p.id()?;
                let args = p.params()?;
                let mut rets = vec![];
                loop {
                    if p.eat("returns") {
                        rets = p.params()?;
                    } else if !["pure", "view", "internal", "public", "external", "private", "virtual", "override"].iter().any(|k| p.eat(k)) {
                        break;
                    }
                }
                let body = p.block()?;
                if g.funs.insert((scope.clone(), n.clone()), Fun { scope: scope.clone(), args, rets, body }).is_some() {
                    return Err(Bad(format!("unsupported: overloaded {n}")));
                }
            } else {
                let t = p.ty()?;
                while ["constant", "internal", "private", "public", "immutable"].iter().any(|k| p.eat(k)) {}
                let n = p.id()?;
                p.need("=")?;
                let e = p.ex()?;
                p.need(";")?;
                g.consts.insert((scope.clone(), n), (t, e));
            }
        }
    }
    Ok(g)
}

#[derive(Clone, Debug)]
pub enum Val {
    N(BigUint),
    B(bool),
    R(Rc<Obj>),
    T(Vec<Val>),
}
#[derive(Debug)]
pub struct Obj {
    /// None for arrays, the field names of a struct otherwise.
    names: Option<Vec<String>>,
    dynamic: bool,
    pub cells: RefCell<Vec<Val>>,
}
pub fn int(v: u64) -> Val {
    Val::N(v.into())
}
pub fn arr(v: Vec<Val>) -> Val {
    Val::R(Rc::new(Obj { names: None, dynamic: false, cells: RefCell::new(v) }))
}
pub fn dynarr(v: Vec<Val>) -> Val {
    Val::R(Rc::new(Obj { names: None, dynamic: true, cells: RefCell::new(v) }))
}
pub fn record(f: &[&str], v: Vec<Val>) -> Val {
    Val::R(Rc::new(Obj { names: Some(f.iter().map(|x| x.to_string()).collect()), dynamic: false, cells: RefCell::new(v) }))
}
/// The integers of a value, depth first.
pub fn flat(v: &Val) -> Vec<BigUint> {
    match v {
        Val::N(v) => vec![v.clone()],
        Val::B(b) => vec![(*b as u8).into()],
        Val::R(o) => o.cells.borrow().iter().flat_map(flat).collect(),
        Val::T(v) => v.iter().flat_map(flat).collect(),
    }
}
#[derive(Debug)]
pub enum Stop {
    /// The transaction reverts.
    Revert(String),
    /// Not in the subset, or ill-typed.
    Bad(String),
}
fn bad<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(s.into()))
}
fn revert<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Revert(s.into()))
}
enum Flow {
    Next,
    Break,
    Continue,
    Return(Option<Val>),
}
#[derive(Clone)]
enum Word {
    N(BigUint),
    Ptr(Rc<Obj>, BigUint),
}

/// An ideal group with pairing: points are strings of words with an exponent.
pub struct Group {
    pub r: BigUint,
    q: BigUint,
    g1: HashMap<(BigUint, BigUint), BigUint>,
    g1_of: HashMap<BigUint, (BigUint, BigUint)>,
    g2: HashMap<[BigUint; 4], BigUint>,
    g2_of: HashMap<BigUint, [BigUint; 4]>,
    next: BigUint,
    mul: BigUint,
    pub pairings: usize,
}
impl Group {
    pub fn new(q: BigUint, r: BigUint, seed: u64) -> Self {
        let mul = (BigUint::from(seed | 1) << 180) + (BigUint::from(seed | 1) << 70) + BigUint::from(0x9e3779b97f4a7c15u64);
        let mut g = Group { r, q, g1: HashMap::new(), g1_of: HashMap::new(), g2: HashMap::new(), g2_of: HashMap::new(), next: BigUint::from(seed), mul, pairings: 0 };
        let d = |s: &str| s.parse::<BigUint>().unwrap();
        g.put1(BigUint::one(), (BigUint::one(), BigUint::from(2u8)));
        let p2 = [
            d("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
            d("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
            d("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
            d("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
        ];
        g.g2.insert(p2.clone(), BigUint::one());
        g.g2_of.insert(BigUint::one(), p2);
        g
    }
    fn fresh(&mut self) -> BigUint {
        self.next = (&self.next * &self.mul + 12345u32) % &self.q;
        // small and short values now and then: formatting has to cope with them
        match (&self.next % 16u8).to_u8().unwrap() {
            0 => (&self.next >> 190) + 3u8,
            1 => &self.q - (&self.next >> 240) - 3u8,
            _ => self.next.clone(),
        }
    }
    fn put1(&mut self, e: BigUint, p: (BigUint, BigUint)) {
        let n = (p.0.clone(), &self.q - &p.1);
        let m = &self.r - &e;
        self.g1.insert(p.clone(), e.clone());
        self.g1_of.insert(e, p);
        self.g1.insert(n.clone(), m.clone());
        self.g1_of.insert(m, n);
    }
    pub fn g1(&mut self, e: &BigUint) -> (BigUint, BigUint) {
        let e = e % &self.r;
        if e.is_zero() {
            return (e.clone(), e);
        }
        if !self.g1_of.contains_key(&e) {
            let p = loop {
                let p = (self.fresh(), self.fresh());
                if !self.g1.contains_key(&p) && !p.1.is_zero() {
                    break p;
                }
            };
            self.put1(e.clone(), p);
        }
        self.g1_of[&e].clone()
    }
    /// Real and imaginary part of x, then of y.
    pub fn g2(&mut self, e: &BigUint) -> [BigUint; 4] {
        let e = e % &self.r;
        if e.is_zero() {
            return [e.clone(), e.clone(), e.clone(), e];
        }
        if !self.g2_of.contains_key(&e) {
            let p = [self.fresh(), self.fresh(), self.fresh(), self.fresh()];
            self.g2.insert(p.clone(), e.clone());
            self.g2_of.insert(e.clone(), p);
        }
        self.g2_of[&e].clone()
    }
    pub fn log1(&self, x: &BigUint, y: &BigUint) -> Option<BigUint> {
        if x.is_zero() && y.is_zero() {
            return Some(BigUint::zero());
        }
        self.g1.get(&(x.clone(), y.clone())).cloned()
    }
    pub fn log2(&self, p: &[BigUint]) -> Option<BigUint> {
        if p.iter().all(|x| x.is_zero()) {
            return Some(BigUint::zero());
        }
        self.g2.get(p).cloned()
    }
    /// The precompiled contracts 6, 7 and 8; None when the call fails.
    fn call(&mut self, addr: u64, w: &[BigUint]) -> Result<Option<Vec<BigUint>>, Stop> {
        let at = |i: usize| w.get(i).cloned().unwrap_or_default();
        let p = match addr {
            6 => match (self.log1(&at(0), &at(1)), self.log1(&at(2), &at(3))) {
                (Some(a), Some(b)) => self.g1(&(a + b)),
                _ => return Ok(None),
            },
            7 => match self.log1(&at(0), &at(1)) {
                Some(a) => self.g1(&(a * at(2))),
                _ => return Ok(None),
            },
            8 => {
                self.pairings += 1;
                if w.len() % 6 != 0 {
                    return Ok(None);
                }
                let mut sum = BigUint::zero();
                for c in w.chunks(6) {
                    match (self.log1(&c[0], &c[1]), self.log2(&[c[3].clone(), c[2].clone(), c[5].clone(), c[4].clone()])) {
                        (Some(a), Some(b)) => sum += a * b,
                        _ => return Ok(None),
                    }
                }
                return Ok(Some(vec![((sum % &self.r).is_zero() as u8).into()]));
            }
            _ => return bad(format!("call of contract {addr}")),
        };
        Ok(Some(vec![p.0, p.1]))
    }
}

pub struct Vm<'a> {
    pub g: &'a Program,
    pub group: &'a mut Group,
    pub steps: u64,
    unchecked: bool,
}
type Env = Vec<HashMap<String, Val>>;
type VR = Result<Val, Stop>;
impl<'a> Vm<'a> {
    pub fn new(g: &'a Program, group: &'a mut Group) -> Self {
        Vm { g, group, steps: 0, unchecked: false }
    }
    fn fields(&self, scope: &str, n: &str) -> Option<(String, &'a Vec<(Ty, String)>)> {
        let (s, n) = n.split_once('.').unwrap_or((scope, n));
        self.g.structs.get(&(s.to_string(), n.to_string())).map(|f| (s.to_string(), f))
    }
    fn zero(&mut self, scope: &str, t: &Ty, env: &mut Env) -> VR {
        Ok(match t {
            Ty::Uint => int(0),
            Ty::Bool => Val::B(false),
            Ty::Arr(_, None) => dynarr(vec![]),
            Ty::Arr(e, Some(n)) => {
                let n = self.num(scope, n, env)?.to_usize().unwrap_or(usize::MAX);
                if n > 10000 {
                    return bad("array size");
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.zero(scope, e, env)?);
                }
                arr(v)
            }
            Ty::Name(n) => {
                let Some((s, f)) = self.fields(scope, n) else { return bad(format!("type {n}")) };
                let mut v = vec![];
                for (t, _) in f {
                    v.push(self.zero(&s, t, env)?);
                }
                record(&f.iter().map(|x| x.1.as_str()).collect::<Vec<_>>(), v)
            }
        })
    }
    /// Calls a function with arguments that already are values.
    pub fn call(&mut self, scope: &str, name: &str, args: Vec<Val>) -> VR {
        let Some(f) = self.g.funs.get(&(scope.to_string(), name.to_string())) else { return bad(format!("function {scope}.{name}")) };
        if f.args.len() != args.len() {
            return bad(format!("{name} takes {} arguments, {} given", f.args.len(), args.len()));
        }
        let mut env: Env = vec![HashMap::new()];
        for ((t, n), v) in f.args.iter().zip(args) {
            self.fits(&f.scope, t, &v, &mut env)?;
            env[0].insert(n.clone(), v);
        }
        for (i, (t, n)) in f.rets.iter().enumerate() {
            let z = self.zero(&f.scope, t, &mut env)?;
            env[0].insert(if n.is_empty() { format!("${i}") } else { n.clone() }, z);
        }
        let old = std::mem::replace(&mut self.unchecked, false);
        let r = self.block(&f.scope, &f.body, &mut env);
        self.unchecked = old;
        let out = match r? {
            Flow::Return(Some(v)) => {
                if f.rets.len() == 1 {
                    self.fits(&f.scope, &f.rets[0].0, &v, &mut env)?;
                }
                return Ok(v);
            }
            Flow::Next | Flow::Return(None) => f.rets.iter().enumerate().map(|(i, (_, n))| env[0][&if n.is_empty() { format!("${i}") } else { n.clone() }].clone()).collect::<Vec<_>>(),
            _ => return bad("break outside of a loop"),
        };
        Ok(if out.len() == 1 { out[0].clone() } else { Val::T(out) })
    }
    /// A type error the compiler would report.
    fn fits(&mut self, scope: &str, t: &Ty, v: &Val, env: &mut Env) -> Result<(), Stop> {
        match (t, v) {
            (Ty::Uint, Val::N(_)) | (Ty::Bool, Val::B(_)) => Ok(()),
            (Ty::Arr(e, n), Val::R(o)) if o.names.is_none() && o.dynamic == n.is_none() => {
                if let Some(n) = n {
                    let n = self.num(scope, n, env)?;
                    if BigUint::from(o.cells.borrow().len()) != n {
                        return bad("array of another size");
                    }
                }
                for v in o.cells.borrow().iter() {
                    self.fits(scope, e, v, env)?;
                }
                Ok(())
            }
            (Ty::Name(n), Val::R(o)) => {
                let Some((s, f)) = self.fields(scope, n) else { return bad(format!("type {n}")) };
                let names: Vec<String> = f.iter().map(|x| x.1.clone()).collect();
                if o.names.as_ref() != Some(&names) {
                    return bad(format!("a value of another type for {n}"));
                }
                for ((t, _), v) in f.iter().zip(o.cells.borrow().iter()) {
                    self.fits(&s, t, v, env)?;
                }
                Ok(())
            }
            _ => bad(format!("{v:?} is no {t:?}")),
        }
    }
    fn block(&mut self, scope: &str, b: &'a [St], env: &mut Env) -> Result<Flow, Stop> {
        env.push(HashMap::new());
        let mut r = Ok(Flow::Next);
        for s in b {
            r = self.st(scope, s, env);
            if !matches!(r, Ok(Flow::Next)) {
                break;
            }
        }
        env.pop();
        r
    }
    fn st(&mut self, scope: &str, s: &'a St, env: &mut Env) -> Result<Flow, Stop> {
        self.steps += 1;
        if self.steps > 1_000_000 {
            return revert("out of gas");
        }
        Ok(match s {
            St::Block(b) => return self.block(scope, b, env),
            St::Unchecked(b) => {
                let old = std::mem::replace(&mut self.unchecked, true);
                let r = self.block(scope, b, env);
                self.unchecked = old;
                return r;
            }
            St::Var(t, n, e) => {
                let v = match e {
                    Some(e) => {
                        let v = self.ex(scope, e, env)?;
                        self.fits(scope, t, &v, env)?;
                        v
                    }
                    None => self.zero(scope, t, env)?,
                };
                env.last_mut().unwrap().insert(n.clone(), v);
                Flow::Next
            }
            St::Ex(e) => {
                self.ex(scope, e, env)?;
                Flow::Next
            }
            St::If(c, a, b) => {
                if self.truth(scope, c, env)? {
                    return self.st(scope, a, env);
                } else if let Some(b) = b {
                    return self.st(scope, b, env);
                }
                Flow::Next
            }
            St::While(c, b) => {
                while self.truth(scope, c, env)? {
                    match self.st(scope, b, env)? {
                        Flow::Break => break,
                        Flow::Return(v) => return Ok(Flow::Return(v)),
                        _ => {}
                    }
                }
                Flow::Next
            }
            St::For(a, c, n, b) => {
                env.push(HashMap::new());
                let mut run = || -> Result<Flow, Stop> {
                    if let Some(a) = a {
                        self.st(scope, a, env)?;
                    }
                    while match c {
                        Some(c) => self.truth(scope, c, env)?,
                        None => true,
                    } {
                        match self.st(scope, b, env)? {
                            Flow::Break => break,
                            Flow::Return(v) => return Ok(Flow::Return(v)),
                            _ => {}
                        }
                        if let Some(n) = n {
                            self.ex(scope, n, env)?;
                        }
                    }
                    Ok(Flow::Next)
                };
                let r = run();
                env.pop();
                return r;
            }
            St::Return(None) => Flow::Return(None),
            St::Return(Some(e)) => Flow::Return(Some(self.ex(scope, e, env)?)),
            St::Break => Flow::Break,
            St::Continue => Flow::Continue,
            St::Revert => return revert("revert"),
            St::Asm(y) => {
                self.yul(y, env)?;
                Flow::Next
            }
        })
    }
    fn truth(&mut self, scope: &str, e: &'a Ex, env: &mut Env) -> Result<bool, Stop> {
        match self.ex(scope, e, env)? {
            Val::B(b) => Ok(b),
            v => bad(format!("{v:?} is no condition")),
        }
    }
    fn num(&mut self, scope: &str, e: &Ex, env: &mut Env) -> Result<BigUint, Stop> {
        // expressions of types live as long as the program, but are borrowed through a function here
        let e: &'a Ex = unsafe { std::mem::transmute(e) };
        match self.ex(scope, e, env)? {
            Val::N(v) => Ok(v),
            v => bad(format!("{v:?} is no number")),
        }
    }
    fn get(&self, n: &str, env: &Env) -> Option<Val> {
        env.iter().rev().find_map(|m| m.get(n).cloned())
    }
    fn arith(&self, op: &str, a: &Val, b: &Val) -> VR {
        let lim = BigUint::one() << 256;
        Ok(match (a, b) {
            (Val::N(a), Val::N(b)) => match op {
                "+" | "*" | "<<" | "**" => {
                    let v = match op {
                        "+" => a + b,
                        "*" => a * b,
                        "<<" => (a << b.to_usize().unwrap_or(256).min(256)) % &lim,
                        _ => a.modpow(b, &(&lim << 8)),
                    };
                    if v >= lim && !self.unchecked {
                        return revert("arithmetic overflow");
                    }
                    Val::N(v % lim)
                }
                "-" if a < b && !self.unchecked => return revert("arithmetic underflow"),
                "-" => Val::N((a + &lim - b) % lim),
                "/" | "%" if b.is_zero() => return revert("division by zero"),
                "/" => Val::N(a / b),
                "%" => Val::N(a % b),
                ">>" => Val::N(a >> b.to_usize().unwrap_or(256).min(256)),
                "&" => Val::N(a & b),
                "|" => Val::N(a | b),
                "^" => Val::N(a ^ b),
                "==" => Val::B(a == b),
                "!=" => Val::B(a != b),
                "<" => Val::B(a < b),
                ">" => Val::B(a > b),
                "<=" => Val::B(a <= b),
                ">=" => Val::B(a >= b),
                _ => return bad(format!("operator {op} on numbers")),
            },
            (Val::B(a), Val::B(b)) => Val::B(match op {
                "==" => a == b,
                "!=" => a != b,
                "&&" => *a && *b,
                "||" => *a || *b,
                _ => return bad(format!("operator {op} on booleans")),
            }),
            _ => return bad(format!("operator {op} on {a:?} and {b:?}")),
        })
    }
    fn assign(&mut self, scope: &str, to: &'a Ex, v: Val, env: &mut Env) -> Result<(), Stop> {
        fn same(a: &Val, b: &Val) -> bool {
            match (a, b) {
                (Val::N(_), Val::N(_)) | (Val::B(_), Val::B(_)) => true,
                (Val::R(a), Val::R(b)) => a.names == b.names && a.dynamic == b.dynamic,
                _ => false,
            }
        }
        match to {
            Ex::Id(n) => {
                for m in env.iter_mut().rev() {
                    if let Some(x) = m.get_mut(n) {
                        if !same(x, &v) {
                            return bad(format!("{n} = {v:?}"));
                        }
                        *x = v;
                        return Ok(());
                    }
                }
                bad(format!("assignment to {n}"))
            }
            Ex::Dot(o, f) => match self.ex(scope, o, env)? {
                Val::R(o) => {
                    let Some(i) = o.names.as_ref().and_then(|n| n.iter().position(|x| x == f)) else { return bad(format!("field {f}")) };
                    if !same(&o.cells.borrow()[i], &v) {
                        return bad(format!("{f} = {v:?}"));
                    }
                    o.cells.borrow_mut()[i] = v;
                    Ok(())
                }
                x => bad(format!("field {f} of {x:?}")),
            },
            Ex::Ix(o, k) => {
                let o = self.ex(scope, o, env)?;
                let k = self.num(scope, k, env)?;
                match o {
                    Val::R(o) if o.names.is_none() => {
                        let n = o.cells.borrow().len();
                        let k = match k.to_usize() {
                            Some(k) if k < n => k,
                            _ => return revert("index out of range"),
                        };
                        if !same(&o.cells.borrow()[k], &v) {
                            return bad(format!("[{k}] = {v:?}"));
                        }
                        o.cells.borrow_mut()[k] = v;
                        Ok(())
                    }
                    x => bad(format!("index into {x:?}")),
                }
            }
            Ex::Tuple(t) => match v {
                Val::T(v) if v.len() == t.len() => {
                    for (t, v) in t.iter().zip(v) {
                        self.assign(scope, t, v, env)?;
                    }
                    Ok(())
                }
                _ => bad("tuple of another length"),
            },
            _ => bad("assignment to an expression"),
        }
    }
    fn many(&mut self, scope: &str, v: &'a [Ex], env: &mut Env) -> Result<Vec<Val>, Stop> {
        v.iter().map(|e| self.ex(scope, e, env)).collect()
    }
    fn ex(&mut self, scope: &str, e: &'a Ex, env: &mut Env) -> VR {
        self.steps += 1;
        if self.steps > 1_000_000 {
            return revert("out of gas");
        }
        Ok(match e {
            Ex::Num(v) => {
                if v.bits() > 256 {
                    return bad("a number of more than 256 bits");
                }
                Val::N(v.clone())
            }
            Ex::Bool(b) => Val::B(*b),
            Ex::Id(n) => match self.get(n, env) {
                Some(v) => v,
                None => match self.g.consts.get(&(scope.to_string(), n.clone())) {
                    Some((_, e)) => return self.ex(scope, e, env),
                    None => return bad(format!("unknown name {n}")),
                },
            },
            Ex::Dot(o, f) => {
                if let Ex::Id(l) = &**o {
                    if self.get(l, env).is_none() {
                        if let Some((_, e)) = self.g.consts.get(&(l.clone(), f.clone())) {
                            return self.ex(l, e, env);
                        }
                    }
                }
                match self.ex(scope, o, env)? {
                    Val::R(o) => match &o.names {
                        Some(n) => match n.iter().position(|x| x == f) {
                            Some(i) => o.cells.borrow()[i].clone(),
                            None => return bad(format!("no field {f}")),
                        },
                        None if f == "length" => int(o.cells.borrow().len() as u64),
                        None => return bad(format!("field {f} of an array")),
                    },
                    x => return bad(format!("field {f} of {x:?}")),
                }
            }
            Ex::Ix(o, k) => {
                let o = self.ex(scope, o, env)?;
                let k = self.num(scope, k, env)?;
                match o {
                    Val::R(o) if o.names.is_none() => match k.to_usize().and_then(|k| o.cells.borrow().get(k).cloned()) {
                        Some(v) => v,
                        None => return revert("index out of range"),
                    },
                    x => return bad(format!("index into {x:?}")),
                }
            }
            Ex::New(t, a) => {
                let Ty::Arr(t, None) = t else { return bad("new of something else than an array") };
                if a.len() != 1 {
                    return bad("new takes a length");
                }
                let n = self.num(scope, &a[0], env)?.to_usize().unwrap_or(usize::MAX);
                if n > 100_000 {
                    return revert("out of gas");
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.zero(scope, t, env)?);
                }
                dynarr(v)
            }
            Ex::List(v) => arr(self.many(scope, v, env)?),
            Ex::Tuple(v) => Val::T(self.many(scope, v, env)?),
            Ex::If(c, a, b) => {
                if self.truth(scope, c, env)? {
                    self.ex(scope, a, env)?
                } else {
                    self.ex(scope, b, env)?
                }
            }
            Ex::Un("!", a) => Val::B(!self.truth(scope, a, env)?),
            Ex::Un("~", a) => Val::N(((BigUint::one() << 256) - 1u8) - self.num(scope, a, env)?),
            Ex::Un(op @ ("++" | "--"), a) => {
                let v = self.ex(scope, a, env)?;
                let v = self.arith(&op[..1], &v, &int(1))?;
                self.assign(scope, a, v.clone(), env)?;
                v
            }
            Ex::Un(op, _) => return bad(format!("operator {op}")),
            Ex::Post(op, a) => {
                let v = self.ex(scope, a, env)?;
                let w = self.arith(op, &v, &int(1))?;
                self.assign(scope, a, w, env)?;
                v
            }
            Ex::Bin("&&", a, b) => Val::B(self.truth(scope, a, env)? && self.truth(scope, b, env)?),
            Ex::Bin("||", a, b) => Val::B(self.truth(scope, a, env)? || self.truth(scope, b, env)?),
            Ex::Bin(op, a, b) => {
                let (a, b) = (self.ex(scope, a, env)?, self.ex(scope, b, env)?);
                self.arith(op, &a, &b)?
            }
            Ex::Set(op, to, v) => {
                let mut v = self.ex(scope, v, env)?;
                if !op.is_empty() {
                    let old = self.ex(scope, to, env)?;
                    v = self.arith(op, &old, &v)?;
                }
                self.assign(scope, to, v.clone(), env)?;
                v
            }
            Ex::Call(f, a) => return self.invoke(scope, f, a, env),
        })
    }
    fn invoke(&mut self, scope: &str, f: &'a Ex, a: &'a [Ex], env: &mut Env) -> VR {
        let (s, n) = match f {
            Ex::Id(n) => match n.as_str() {
                "require" | "assert" => {
                    if a.is_empty() || !self.truth(scope, &a[0], env)? {
                        return revert("require");
                    }
                    return Ok(Val::T(vec![]));
                }
                "uint" | "uint256" if a.len() == 1 => {
                    return match self.ex(scope, &a[0], env)? {
                        v @ Val::N(_) => Ok(v),
                        v => bad(format!("uint256 of {v:?}")),
                    }
                }
                "addmod" | "mulmod" if a.len() == 3 => {
                    let v = [self.num(scope, &a[0], env)?, self.num(scope, &a[1], env)?, self.num(scope, &a[2], env)?];
                    if v[2].is_zero() {
                        return revert("modulus zero");
                    }
                    return Ok(Val::N(if n == "addmod" { (&v[0] + &v[1]) % &v[2] } else { (&v[0] * &v[1]) % &v[2] }));
                }
                _ => (scope.to_string(), n.clone()),
            },
            Ex::Dot(o, n) => match &**o {
                Ex::Id(l) if self.get(l, env).is_none() => (l.clone(), n.clone()),
                o => {
                    // using ... for *: a method of a library
                    let mut v = vec![self.ex(scope, o, env)?];
                    v.extend(self.many(scope, a, env)?);
                    let libs = self.g.libs.clone();
                    for l in libs {
                        if self.g.funs.contains_key(&(l.clone(), n.clone())) {
                            return self.call(&l, n, v);
                        }
                    }
                    return bad(format!("method {n}"));
                }
            },
            _ => return bad("call of an expression"),
        };
        let v = self.many(scope, a, env)?;
        if let Some(fields) = self.g.structs.get(&(s.clone(), n.clone())) {
            if fields.len() != v.len() {
                return bad(format!("{n} has {} fields, {} given", fields.len(), v.len()));
            }
            for ((t, _), v) in fields.iter().zip(&v) {
                self.fits(&s, t, v, env)?;
            }
            return Ok(record(&fields.iter().map(|x| x.1.as_str()).collect::<Vec<_>>(), v));
        }
        self.call(&s, &n, v)
    }

    fn yul(&mut self, b: &[Yul], env: &mut Env) -> Result<(), Stop> {
        for s in b {
            match s {
                Yul::Ex(e) => {
                    self.yex(e, env)?;
                }
                Yul::Set(n, new, e) => {
                    let v = match self.yex(e, env)? {
                        Word::N(v) => v,
                        _ => return bad("a pointer in a variable"),
                    };
                    if *new {
                        env.last_mut().unwrap().insert(n.clone(), Val::N(v));
                        continue;
                    }
                    let Some(x) = env.iter_mut().rev().find_map(|m| m.get_mut(n)) else { return bad(format!("assignment to {n}")) };
                    *x = match x {
                        Val::B(_) => Val::B(!v.is_zero()),
                        Val::N(_) => Val::N(v),
                        _ => return bad(format!("assignment to {n}")),
                    };
                }
                Yul::If(e, b) => match self.yex(e, env)? {
                    Word::N(v) if v.is_zero() => {}
                    _ => self.yul(b, env)?,
                },
                Yul::Switch(e, c) => {
                    let Word::N(v) = self.yex(e, env)? else { return bad("switch on a pointer") };
                    for (k, b) in c {
                        let hit = match k {
                            None => true,
                            Some(k) => matches!(self.yex(k, env)?, Word::N(k) if k == v),
                        };
                        if hit {
                            self.yul(b, env)?;
                            break;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn memory(o: &Obj) -> Vec<BigUint> {
        let mut v: Vec<BigUint> = if o.dynamic { vec![o.cells.borrow().len().into()] } else { vec![] };
        for c in o.cells.borrow().iter() {
            v.push(match c {
                Val::N(v) => v.clone(),
                Val::B(b) => (*b as u8).into(),
                // a pointer: its value depends on the layout of the memory
                _ => BigUint::from(0x80u8) + (BigUint::from(v.len()) << 5),
            });
        }
        v
    }
    fn yex(&mut self, e: &YEx, env: &mut Env) -> Result<Word, Stop> {
        let lim = BigUint::one() << 256;
        let (n, a) = match e {
            YEx::Num(v) => return Ok(Word::N(v.clone())),
            YEx::Id(n) => {
                return match self.get(n, env) {
                    Some(Val::N(v)) => Ok(Word::N(v)),
                    Some(Val::B(b)) => Ok(Word::N((b as u8).into())),
                    Some(Val::R(o)) => Ok(Word::Ptr(o, BigUint::zero())),
                    _ => bad(format!("unknown name {n} in assembly")),
                }
            }
            YEx::Call(n, a) => (n, a),
        };
        // arguments are evaluated from the last to the first
        let mut w = vec![];
        for x in a.iter().rev() {
            w.push(self.yex(x, env)?);
        }
        w.reverse();
        let num = |i: usize| match w.get(i) {
            Some(Word::N(v)) => Ok(v.clone()),
            _ => bad(format!("argument {i} of {n}")),
        };
        Ok(match (n.as_str(), w.len()) {
            ("gas", 0) => Word::N(BigUint::from(30_000_000u64)),
            ("invalid", 0) => return revert("invalid"),
            ("revert", 2) => return revert("revert"),
            ("not", 1) => Word::N(&lim - 1u8 - num(0)?),
            ("iszero", 1) => Word::N((num(0)?.is_zero() as u8).into()),
            ("eq", 2) => Word::N(((num(0)? == num(1)?) as u8).into()),
            ("lt", 2) => Word::N(((num(0)? < num(1)?) as u8).into()),
            ("gt", 2) => Word::N(((num(0)? > num(1)?) as u8).into()),
            ("and", 2) => Word::N(num(0)? & num(1)?),
            ("or", 2) => Word::N(num(0)? | num(1)?),
            ("mul", 2) => Word::N(num(0)? * num(1)? % lim),
            ("sub", 2) => Word::N((num(0)? + &lim - num(1)? % &lim) % &lim),
            ("add", 2) => match (&w[0], &w[1]) {
                (Word::N(a), Word::N(b)) => Word::N((a + b) % lim),
                (Word::Ptr(o, k), Word::N(b)) | (Word::N(b), Word::Ptr(o, k)) => Word::Ptr(o.clone(), k + b),
                _ => return bad("sum of pointers"),
            },
            ("mload", 1) => match &w[0] {
                Word::Ptr(o, k) => {
                    let k = k.to_usize().unwrap_or(1);
                    match Self::memory(o).get(k / 32) {
                        Some(v) if k % 32 == 0 => Word::N(v.clone()),
                        _ => return bad("mload outside of an object"),
                    }
                }
                _ => return bad("mload of a number"),
            },
            ("staticcall", 6) => {
                let (addr, insize, outsize) = (num(1)?, num(3)?, num(5)?);
                let (Word::Ptr(o, k), Word::Ptr(out, ok)) = (&w[2], &w[4]) else { return bad("memory of a call") };
                let (k, insize, ok, outsize) = match (k.to_usize(), insize.to_usize(), ok.to_usize(), outsize.to_usize()) {
                    (Some(a), Some(b), Some(c), Some(d)) if [a, b, c, d].iter().all(|x| x % 32 == 0 && *x < 1 << 20) => (a / 32, b / 32, c / 32, d / 32),
                    _ => return bad("sizes of a call"),
                };
                let m = Self::memory(o);
                // what lies behind the object is unknown: some number
                let input: Vec<BigUint> = (k..k + insize).map(|i| m.get(i).cloned().unwrap_or(BigUint::from(0x1234567u32))).collect();
                let cost = match addr.to_u64() {
                    Some(6) => 150,
                    Some(7) => 6000,
                    Some(8) => 45_000 + 34_000 * (insize as u64 / 6),
                    _ => 0,
                };
                let answer = if num(0)? < BigUint::from(cost) { None } else { self.group.call(addr.to_u64().unwrap_or(0), &input)? };
                match answer {
                    None => Word::N(BigUint::zero()),
                    Some(v) => {
                        let base = if out.dynamic { 1 } else { 0 };
                        for (i, v) in v.into_iter().take(outsize).enumerate() {
                            let mut c = out.cells.borrow_mut();
                            match (ok + i).checked_sub(base).and_then(|i| c.get_mut(i)) {
                                Some(x @ Val::N(_)) => *x = Val::N(v),
                                Some(x @ Val::B(_)) => *x = Val::B(!v.is_zero()),
                                _ => return bad("a call writes outside of an object"),
                            }
                        }
                        Word::N(BigUint::one())
                    }
                }
            }
            _ => return bad(format!("assembly function {n} of {} arguments", w.len())),
        })
    }
    /// The length of the fixed array that a parameter of this function takes, if it has such a parameter.
    pub fn array_param(&mut self, scope: &str, name: &str) -> Result<Option<usize>, Stop> {
        let Some(f) = self.g.funs.get(&(scope.to_string(), name.to_string())) else { return bad(format!("function {scope}.{name}")) };
        for (t, _) in &f.args {
            if let Ty::Arr(_, Some(n)) = t {
                return Ok(self.num(scope, n, &mut vec![HashMap::new()])?.to_usize());
            }
        }
        Ok(None)
    }
    pub fn has(&self, scope: &str, name: &str) -> bool {
        self.g.funs.contains_key(&(scope.to_string(), name.to_string()))
    }
}
