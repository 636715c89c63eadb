use std::fmt::{Debug, Display};

pub trait FieldElement: Copy + Clone + Debug + Display + PartialEq + Eq + From<u64> + From<bool> + Send + Sync + 'static {
    fn to_canonical(&self) -> u64;
}

pub type DegreeType = u64;

/// A canonical value.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct GoldilocksField(pub u64);
pub const P: u64 = 0xffff_ffff_0000_0001;
impl From<u64> for GoldilocksField {
    fn from(v: u64) -> Self {
        Self(v % P)
    }
}
impl From<bool> for GoldilocksField {
    fn from(v: bool) -> Self {
        Self(v as u64)
    }
}
impl Display for GoldilocksField {
    // powdr writes the upper half of the field as negative numbers
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0 <= P / 2 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "-{}", P - self.0)
        }
    }
}
impl FieldElement for GoldilocksField {
    fn to_canonical(&self) -> u64 {
        self.0
    }
}
