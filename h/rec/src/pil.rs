//! The meaning of a PIL program on a trace, straight from its text.
use powdr::ast::analyzed::*;
use powdr::number::{FieldElement, GoldilocksField as G};
use std::collections::HashMap;
use vh::gl::{self, add, mul, neg};

pub type Ex = AlgebraicExpression<G>;
/// The value a challenge stands for while two descriptions are compared.
pub fn challenge(id: u64) -> u64 {
    mul(id + 12345, 0x123456789abcdef)
}
pub struct Pil {
    pub an: Analyzed<G>,
    pub n: usize,
    inter: HashMap<u64, Ex>,
    pub n_const: usize,
    pub n_cm: usize,
}
pub struct Trace<'a> {
    pub cm: &'a [Vec<u64>],
    pub cc: &'a [Vec<u64>],
    /// by full name
    pub publics: HashMap<String, u64>,
}
impl Pil {
    pub fn new(an: Analyzed<G>) -> Self {
        let mut inter = HashMap::new();
        for (s, v) in an.intermediate_columns.values() {
            for ((_, id), e) in s.array_elements().zip(v) {
                inter.insert(id.id, e.clone());
            }
        }
        Pil { n: an.degree() as usize, n_const: an.constant_count(), n_cm: an.commitment_count(), inter, an }
    }
    pub fn eval(&self, e: &Ex, r: usize, t: &Trace, memo: &mut HashMap<(u64, usize), u64>) -> u64 {
        match e {
            Ex::Number(v) => v.to_canonical(),
            Ex::PublicReference(n) => t.publics[n],
            Ex::Challenge(c) => challenge(c.id),
            Ex::Reference(f) => {
                let r = (r + f.next as usize) % self.n;
                let id = f.poly_id.id;
                match f.poly_id.ptype {
                    PolynomialType::Committed => t.cm[id as usize][r],
                    PolynomialType::Constant => t.cc[id as usize][r],
                    PolynomialType::Intermediate => {
                        if let Some(v) = memo.get(&(id, r)) {
                            return *v;
                        }
                        let v = self.eval(&self.inter[&id], r, t, memo);
                        memo.insert((id, r), v);
                        v
                    }
                }
            }
            Ex::UnaryOperation(o) => neg(self.eval(&o.expr, r, t, memo)),
            Ex::BinaryOperation(o) => {
                let (a, b) = (self.eval(&o.left, r, t, memo), self.eval(&o.right, r, t, memo));
                match o.op {
                    AlgebraicBinaryOperator::Add => add(a, b),
                    AlgebraicBinaryOperator::Sub => gl::sub(a, b),
                    AlgebraicBinaryOperator::Mul => mul(a, b),
                    AlgebraicBinaryOperator::Pow => gl::pow(a, b),
                }
            }
        }
    }
    /// The first polynomial identity that a row violates: (identity, row).
    pub fn violated(&self, t: &Trace, rows: std::ops::Range<usize>) -> Option<(usize, usize)> {
        let mut memo = HashMap::new();
        for r in rows {
            for (k, i) in self.an.identities.iter().enumerate() {
                if i.kind == IdentityKind::Polynomial && self.eval(i.left.selector.as_ref().unwrap(), r, t, &mut memo) != 0 {
                    return Some((k, r));
                }
            }
        }
        None
    }
    pub fn describe(&self, k: usize) -> String {
        let i = &self.an.identities[k];
        let text = i.source.file_contents.as_deref().unwrap_or("");
        let from = &text[i.source.start.min(text.len())..];
        from.split(';').next().unwrap_or("").to_string()
    }
}
