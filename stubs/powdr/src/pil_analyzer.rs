//! The plain subset of PIL: let, namespace, pol constant / commit / intermediate, public, identities,
//! lookups (in), permutations (is), connections (connect).
use crate::ast::analyzed::*;
use crate::number::FieldElement;
use powdr_parser_util::SourceRef;
use std::collections::HashMap;
use std::path::Path;
use std::sync::Arc;

pub fn analyze_file<T: FieldElement>(path: &Path) -> Analyzed<T> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path:?}: {e}"));
    analyze(&text, Some(path.to_string_lossy().as_ref().into()))
}
pub fn analyze_string<T: FieldElement>(text: &str) -> Analyzed<T> {
    analyze(text, None)
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(String),
    Num(u64),
    Sym(&'static str),
}
fn lex(t: &str) -> Vec<(Tok, usize)> {
    let b = t.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    'outer: while i < b.len() {
        let c = b[i] as char;
        if c.is_ascii_whitespace() {
            i += 1;
        } else if t[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c.is_ascii_alphabetic() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            out.push((Tok::Name(t[s..i].into()), s));
        } else if c.is_ascii_digit() {
            let s = i;
            let (radix, skip) = if t[i..].starts_with("0x") { (16, 2) } else { (10, 0) };
            i += skip;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let d = t[s + skip..i].replace('_', "");
            out.push((Tok::Num(u64::from_str_radix(&d, radix).unwrap_or_else(|e| panic!("number {}: {e}", &t[s..i]))), s));
        } else {
            for s in ["**", "::", "+", "-", "*", "(", ")", "[", "]", "{", "}", ",", ";", "=", "'", ":", ".", "$"] {
                if t[i..].starts_with(s) {
                    out.push((Tok::Sym(s), i));
                    i += s.len();
                    continue 'outer;
                }
            }
            panic!("unexpected {c:?} at {i}");
        }
    }
    out
}

struct An<T> {
    toks: Vec<(Tok, usize)>,
    at: usize,
    lets: HashMap<String, u64>,
    ns: String,
    file: Option<Arc<str>>,
    text: Arc<str>,
    out: Analyzed<T>,
    next: HashMap<PolynomialType, u64>,
}
type E<T> = AlgebraicExpression<T>;
fn bin<T>(l: E<T>, op: AlgebraicBinaryOperator, r: E<T>) -> E<T> {
    E::BinaryOperation(AlgebraicBinaryOperation { left: Box::new(l), op, right: Box::new(r) })
}
fn analyze<T: FieldElement>(text: &str, file: Option<Arc<str>>) -> Analyzed<T> {
    let mut a = An {
        toks: lex(text),
        at: 0,
        lets: HashMap::new(),
        ns: String::new(),
        file,
        text: text.into(),
        out: Analyzed::new(),
        next: HashMap::new(),
    };
    while a.at < a.toks.len() {
        a.statement();
    }
    a.out
}
impl<T: FieldElement> An<T> {
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.at).map(|t| &t.0)
    }
    fn is(&self, s: &str) -> bool {
        match self.peek() {
            Some(Tok::Sym(x)) => *x == s,
            Some(Tok::Name(x)) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        self.at += y as usize;
        y
    }
    fn need(&mut self, s: &str) {
        assert!(self.eat(s), "expected {s:?}, found {:?} at {:?}", self.peek(), self.toks.get(self.at).map(|t| t.1));
    }
    fn name(&mut self) -> String {
        match self.toks[self.at].0.clone() {
            Tok::Name(n) => {
                self.at += 1;
                n
            }
            t => panic!("expected a name, found {t:?} at {}", self.toks[self.at].1),
        }
    }
    fn source(&self, start: usize) -> SourceRef {
        SourceRef { file_name: self.file.clone(), file_contents: Some(self.text.clone()), start, end: start }
    }
    /// At most two parts are joined by a dot, more by double colons.
    fn full(&self, n: &str) -> String {
        if self.ns.contains("::") {
            format!("{}::{n}", self.ns)
        } else {
            format!("{}.{n}", self.ns)
        }
    }
    fn int(&mut self) -> u64 {
        let e = self.sum();
        fn v<T: FieldElement>(e: &E<T>) -> i128 {
            match e {
                E::Number(n) => n.to_canonical() as i128,
                E::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
                    let (l, r) = (v(left), v(right));
                    match op {
                        AlgebraicBinaryOperator::Add => l + r,
                        AlgebraicBinaryOperator::Sub => l - r,
                        AlgebraicBinaryOperator::Mul => l * r,
                        AlgebraicBinaryOperator::Pow => l.pow(r as u32),
                    }
                }
                _ => panic!("not a number"),
            }
        }
        v(&e) as u64
    }
    fn declare(&mut self, n: &str, ptype: PolynomialType, length: Option<u64>, start: usize) -> Symbol {
        let c = self.next.entry(ptype).or_insert(0);
        let id = *c;
        *c += length.unwrap_or(1);
        let absolute_name = self.full(n);
        self.out.source_order.push(StatementIdentifier::Definition(absolute_name.clone()));
        Symbol { id, source: self.source(start), absolute_name, kind: SymbolKind::Poly(ptype), length }
    }
    fn length(&mut self) -> Option<u64> {
        self.eat("[").then(|| {
            let n = self.int();
            self.need("]");
            n
        })
    }
    fn statement(&mut self) {
        let start = self.toks[self.at].1;
        if self.eat("let") {
            let n = self.name();
            if self.eat(":") {
                self.name();
            }
            self.need("=");
            let v = self.int();
            self.lets.insert(n, v);
            self.need(";");
        } else if self.eat("namespace") {
            let mut n = self.name();
            while self.eat("::") {
                n = format!("{n}::{}", self.name());
            }
            self.ns = n;
            self.need("(");
            let d = self.int();
            assert!(self.out.degree.is_none() || self.out.degree == Some(d), "namespaces of different degrees");
            self.out.degree = Some(d);
            self.need(")");
            self.need(";");
        } else if self.eat("pol") || self.eat("col") {
            let kind = [("constant", 0), ("fixed", 0), ("commit", 1), ("witness", 1)].into_iter().find(|(k, _)| self.eat(k));
            if let Some((_, k)) = kind {
                let ptype = [PolynomialType::Constant, PolynomialType::Committed][k];
                loop {
                    let n = self.name();
                    let len = self.length();
                    let s = self.declare(&n, ptype, len, start);
                    assert!(self.out.definitions.insert(s.absolute_name.clone(), (s, None)).is_none(), "{n} twice");
                    if !self.eat(",") {
                        break;
                    }
                }
            } else {
                let n = self.name();
                let len = self.length();
                self.need("=");
                let v = if len.is_some() {
                    self.need("[");
                    self.list("]")
                } else {
                    vec![self.sum()]
                };
                let s = self.declare(&n, PolynomialType::Intermediate, len, start);
                assert_eq!(v.len() as u64, len.unwrap_or(1));
                assert!(self.out.intermediate_columns.insert(s.absolute_name.clone(), (s, v)).is_none(), "{n} twice");
            }
            self.need(";");
        } else if self.eat("public") {
            let n = self.name();
            self.need("=");
            let (name, sym) = self.symbol();
            let array_index = self.length().map(|i| i as usize);
            let SymbolKind::Poly(ptype) = sym.kind else { panic!() };
            self.need("(");
            let index = self.int();
            self.need(")");
            self.need(";");
            let full = self.full(&n);
            let d = PublicDeclaration {
                id: self.out.public_declarations.len() as u64,
                source: self.source(start),
                name: full.clone(),
                polynomial: PolynomialReference { name, poly_id: Some(PolyID { id: sym.id, ptype }) },
                array_index,
                index,
            };
            self.out.source_order.push(StatementIdentifier::PublicDeclaration(full.clone()));
            assert!(self.out.public_declarations.insert(full, d).is_none(), "{n} twice");
        } else {
            self.identity(start);
        }
    }
    fn list(&mut self, close: &str) -> Vec<E<T>> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.sum());
            if !self.eat(",") {
                self.need(close);
                break;
            }
        }
        v
    }
    fn side(&mut self) -> SelectedExpressions<E<T>> {
        let selector = (!self.is("{") && !self.is("[")).then(|| self.sum());
        if selector.is_some() {
            self.eat("$");
        }
        if self.eat("{") {
            SelectedExpressions { selector, expressions: self.list("}") }
        } else if self.eat("[") {
            SelectedExpressions { selector, expressions: self.list("]") }
        } else {
            // a single expression without brackets
            SelectedExpressions { selector: None, expressions: selector.into_iter().collect() }
        }
    }
    fn identity(&mut self, start: usize) {
        let mark = self.at;
        let bare = (!self.is("{") && !self.is("[")).then(|| self.sum());
        let (kind, left, right);
        if bare.is_some() && self.eat("=") {
            let r = self.sum();
            // powdr keeps `a = b` as a - b
            let e = match &r {
                E::Number(n) if n.to_canonical() == 0 => bare.unwrap(),
                _ => bin(bare.unwrap(), AlgebraicBinaryOperator::Sub, r),
            };
            kind = IdentityKind::Polynomial;
            left = SelectedExpressions { selector: Some(e), expressions: vec![] };
            right = SelectedExpressions::default();
        } else {
            self.at = mark;
            left = self.side();
            kind = match self.name().as_str() {
                "in" => IdentityKind::Plookup,
                "is" => IdentityKind::Permutation,
                "connect" => IdentityKind::Connect,
                o => panic!("unknown identity {o}"),
            };
            right = self.side();
            assert_eq!(left.expressions.len(), right.expressions.len());
        }
        self.need(";");
        let id = self.out.identities.len();
        self.out.source_order.push(StatementIdentifier::Identity(id));
        let source = self.source(start);
        self.out.identities.push(Identity { id: id as u64, kind, source, left, right });
    }
    fn symbol(&mut self) -> (String, Symbol) {
        let mut n = self.name();
        let full = if self.is(".") || self.is("::") {
            while self.eat("::") || self.eat(".") {
                n = if n.contains('.') { format!("{}::{}", n.replace('.', "::"), self.name()) } else { format!("{n}.{}", self.name()) };
            }
            n
        } else {
            self.full(&n)
        };
        let s = self
            .out
            .definitions
            .get(&full)
            .map(|d| d.0.clone())
            .or_else(|| self.out.intermediate_columns.get(&full).map(|d| d.0.clone()))
            .unwrap_or_else(|| panic!("unknown {full}"));
        (full, s)
    }
    fn sum(&mut self) -> E<T> {
        let mut l = self.product();
        loop {
            let op = if self.eat("+") {
                AlgebraicBinaryOperator::Add
            } else if self.eat("-") {
                AlgebraicBinaryOperator::Sub
            } else {
                return l;
            };
            l = bin(l, op, self.product());
        }
    }
    fn product(&mut self) -> E<T> {
        let mut l = self.unary();
        while self.eat("*") {
            l = bin(l, AlgebraicBinaryOperator::Mul, self.unary());
        }
        l
    }
    fn unary(&mut self) -> E<T> {
        if self.eat("-") {
            return E::UnaryOperation(AlgebraicUnaryOperation { op: AlgebraicUnaryOperator::Minus, expr: Box::new(self.unary()) });
        }
        let b = self.atom();
        if self.eat("**") {
            return bin(b, AlgebraicBinaryOperator::Pow, self.unary());
        }
        b
    }
    fn atom(&mut self) -> E<T> {
        if self.eat("(") {
            let e = self.sum();
            self.need(")");
            return e;
        }
        if self.eat(":") {
            let n = self.name();
            return E::PublicReference(self.full(&n));
        }
        match self.toks[self.at].0.clone() {
            Tok::Num(n) => {
                self.at += 1;
                E::Number(T::from(n))
            }
            Tok::Name(n) if self.lets.contains_key(&n) => {
                self.at += 1;
                E::Number(T::from(self.lets[&n]))
            }
            Tok::Name(_) => {
                let (name, sym) = self.symbol();
                let index = self.length();
                assert_eq!(index.is_some(), sym.is_array(), "{name} and its index");
                assert!(index.unwrap_or(0) < sym.length.unwrap_or(1), "{name}[{index:?}]");
                let SymbolKind::Poly(ptype) = sym.kind else { panic!() };
                let next = self.eat("'");
                let poly_id = PolyID { id: sym.id + index.unwrap_or(0), ptype };
                E::Reference(AlgebraicReference { name, poly_id, next })
            }
            t => panic!("unexpected {t:?} at {}", self.toks[self.at].1),
        }
    }
}
