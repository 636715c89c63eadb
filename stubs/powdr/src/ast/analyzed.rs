use powdr_parser_util::SourceRef;
use std::collections::HashMap;

#[derive(Debug, Clone)]
pub enum StatementIdentifier {
    Definition(String),
    PublicDeclaration(String),
    Identity(usize),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PolynomialType {
    Committed,
    Constant,
    Intermediate,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SymbolKind {
    Poly(PolynomialType),
    Other(),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct PolyID {
    pub id: u64,
    pub ptype: PolynomialType,
}
#[derive(Debug, Clone)]
pub struct Symbol {
    pub id: u64,
    pub source: SourceRef,
    pub absolute_name: String,
    pub kind: SymbolKind,
    pub length: Option<u64>,
}
impl Symbol {
    pub fn is_array(&self) -> bool {
        self.length.is_some()
    }
    pub fn array_elements(&self) -> impl Iterator<Item = (String, PolyID)> + '_ {
        let SymbolKind::Poly(ptype) = self.kind else { panic!("no polynomial") };
        (0..self.length.unwrap_or(1)).map(move |i| {
            let name = match self.length {
                Some(_) => format!("{}[{i}]", self.absolute_name),
                None => self.absolute_name.clone(),
            };
            (name, PolyID { id: self.id + i, ptype })
        })
    }
}
#[derive(Debug, Clone)]
pub struct PolynomialReference {
    pub name: String,
    pub poly_id: Option<PolyID>,
}
#[derive(Debug, Clone)]
pub struct PublicDeclaration {
    pub id: u64,
    pub source: SourceRef,
    pub name: String,
    pub polynomial: PolynomialReference,
    pub array_index: Option<usize>,
    pub index: u64,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum IdentityKind {
    Polynomial,
    Plookup,
    Permutation,
    Connect,
}
#[derive(Debug, Clone)]
pub struct SelectedExpressions<Expr> {
    pub selector: Option<Expr>,
    pub expressions: Vec<Expr>,
}
impl<Expr> Default for SelectedExpressions<Expr> {
    fn default() -> Self {
        Self { selector: None, expressions: vec![] }
    }
}
#[derive(Debug, Clone)]
pub struct Identity<SelectedExpressions> {
    pub id: u64,
    pub kind: IdentityKind,
    pub source: SourceRef,
    pub left: SelectedExpressions,
    pub right: SelectedExpressions,
}
#[derive(Debug, Clone)]
pub struct AlgebraicReference {
    pub name: String,
    pub poly_id: PolyID,
    pub next: bool,
}
#[derive(Debug, Clone)]
pub struct Challenge {
    pub id: u64,
    pub stage: u32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AlgebraicBinaryOperator {
    Add,
    Sub,
    Mul,
    Pow,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AlgebraicUnaryOperator {
    Minus,
}
#[derive(Debug, Clone)]
pub struct AlgebraicBinaryOperation<T> {
    pub left: Box<AlgebraicExpression<T>>,
    pub op: AlgebraicBinaryOperator,
    pub right: Box<AlgebraicExpression<T>>,
}
#[derive(Debug, Clone)]
pub struct AlgebraicUnaryOperation<T> {
    pub op: AlgebraicUnaryOperator,
    pub expr: Box<AlgebraicExpression<T>>,
}
#[derive(Debug, Clone)]
pub enum AlgebraicExpression<T> {
    Reference(AlgebraicReference),
    PublicReference(String),
    Challenge(Challenge),
    Number(T),
    BinaryOperation(AlgebraicBinaryOperation<T>),
    UnaryOperation(AlgebraicUnaryOperation<T>),
}
#[derive(Debug, Clone)]
pub struct Analyzed<T> {
    pub degree: Option<u64>,
    /// The fixed column's function is of no interest here.
    pub definitions: HashMap<String, (Symbol, Option<()>)>,
    pub public_declarations: HashMap<String, PublicDeclaration>,
    pub intermediate_columns: HashMap<String, (Symbol, Vec<AlgebraicExpression<T>>)>,
    pub identities: Vec<Identity<SelectedExpressions<AlgebraicExpression<T>>>>,
    pub source_order: Vec<StatementIdentifier>,
}
impl<T> Analyzed<T> {
    pub fn new() -> Self {
        Self {
            degree: None,
            definitions: HashMap::new(),
            public_declarations: HashMap::new(),
            intermediate_columns: HashMap::new(),
            identities: vec![],
            source_order: vec![],
        }
    }
    pub fn degree(&self) -> u64 {
        self.degree.expect("no degree")
    }
    fn count(&self, t: PolynomialType) -> usize {
        let n = |s: &Symbol| if s.kind == SymbolKind::Poly(t) { s.length.unwrap_or(1) as usize } else { 0 };
        self.definitions.values().map(|(s, _)| n(s)).chain(self.intermediate_columns.values().map(|(s, _)| n(s))).sum()
    }
    pub fn commitment_count(&self) -> usize {
        self.count(PolynomialType::Committed)
    }
    pub fn intermediate_count(&self) -> usize {
        self.count(PolynomialType::Intermediate)
    }
    pub fn constant_count(&self) -> usize {
        self.count(PolynomialType::Constant)
    }
}
impl<T> Default for Analyzed<T> {
    fn default() -> Self {
        Self::new()
    }
}
