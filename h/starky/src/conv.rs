//! Conversions between the code's types and the plain ones.
use ff::PrimeField;
use fields::field_gl::Fr as FGL;
use href::{from_limbs, raw_limbs, to_limbs, Spec};
use starky::merklehash_bls12381::MerkleTreeBLS12381;
use starky::merklehash_bn128::MerkleTreeBN128;
use starky::traits::{MTNodeType, MerkleTree};
use vh::GL_P;

pub type BnFr = <MerkleTreeBN128 as MerkleTree>::BaseField;
pub type BlsFr = <MerkleTreeBLS12381 as MerkleTree>::BaseField;

pub fn gfr(v: u64) -> FGL {
    crate::f01::fr(v)
}
pub fn gvec(v: &[u64]) -> Vec<FGL> {
    v.iter().map(|x| gfr(*x)).collect()
}
pub fn gint(v: &[FGL]) -> Vec<u64> {
    v.iter().map(|x| x.as_int()).collect()
}
pub fn conv<A: PrimeField, B: PrimeField>(a: &A) -> B {
    from_limbs(to_limbs(a)).unwrap()
}
/// The signature of the one listed way in which digests of the 256-bit fields fail.
pub const LIMB_SIG: &str = "digest-limb-not-below-Goldilocks-modulus";
pub const LIMB_ROW_BN: u64 = 632179961;
pub const LIMB_ROW_BLS: u64 = 626114838;
pub fn limb_overflow<F: PrimeField>(f: &F) -> bool {
    raw_limbs(f).iter().any(|l| *l >= GL_P)
}
/// A digest node stores the Montgomery limbs of its scalar.
pub fn node_limbs<F: PrimeField>(f: &F) -> Vec<u64> {
    raw_limbs(f).to_vec()
}
pub fn node<N: MTNodeType, F: PrimeField>(f: &F) -> N {
    N::new(&gvec(&node_limbs(f)))
}

/// The 256-bit back ends under test.
pub trait Kind: Spec {
    type Code: PrimeField;
    const LIMB_ROW: u64;
    fn hash(inp: &[Self::Code], init: &Self::Code) -> Result<Self::Code, String>;
    fn hash_ex(inp: &[Self::Code], init: &Self::Code, out: usize) -> Result<Vec<Self::Code>, String>;
    fn array(v: &[FGL]) -> Result<Vec<FGL>, String>;
    fn matrix(v: &[Vec<FGL>]) -> Result<Self::Code, String>;
    fn hash_node(v: &[Vec<FGL>], init: &Self::Code) -> Result<Vec<FGL>, String>;
    fn mont(v: [FGL; 4]) -> [FGL; 4];
}
macro_rules! kind {
    ($spec:ty, $fr:ty, $pos:path, $lin:path, $mont:ident, $row:expr) => {
        impl Kind for $spec {
            type Code = $fr;
            const LIMB_ROW: u64 = $row;
            fn hash(inp: &[$fr], init: &$fr) -> Result<$fr, String> {
                use $pos as P;
                P::new().hash(inp, init).map_err(|e| e.to_string())
            }
            fn hash_ex(inp: &[$fr], init: &$fr, out: usize) -> Result<Vec<$fr>, String> {
                use $pos as P;
                P::new().hash_ex(inp, init, out).map_err(|e| e.to_string())
            }
            fn array(v: &[FGL]) -> Result<Vec<FGL>, String> {
                use $lin as L;
                L::new().hash_element_array(v).map(|d| d.as_elements().to_vec()).map_err(|e| e.to_string())
            }
            fn matrix(v: &[Vec<FGL>]) -> Result<$fr, String> {
                use $lin as L;
                L::new().hash_element_matrix(v).map_err(|e| e.to_string())
            }
            fn hash_node(v: &[Vec<FGL>], init: &$fr) -> Result<Vec<FGL>, String> {
                use $lin as L;
                let e: Vec<starky::ElementDigest<4, $fr>> = v.iter().map(|x| MTNodeType::new(x)).collect();
                L::new().hash_node(&e, init).map(|d| d.as_elements().to_vec()).map_err(|e| e.to_string())
            }
            fn mont(v: [FGL; 4]) -> [FGL; 4] {
                use $lin as L;
                L::$mont(v)
            }
        }
    };
}
kind!(href::Bn, BnFr, starky::poseidon_bn128_opt::Poseidon, starky::linearhash_bn128::LinearHashBN128, to_bn128_mont, LIMB_ROW_BN);
kind!(href::Bls, BlsFr, starky::poseidon_bls12381_opt::Poseidon, starky::linearhash_bls12381::LinearHashBLS12381, to_bls12381_mont, LIMB_ROW_BLS);

/// A scalar of the 256-bit field: boundary values, one-limb values, uniform ones.
pub fn scalar<S: Spec>(s: &mut vh::Src) -> S::F {
    let m = S::F::char();
    let m: Vec<u64> = m.as_ref().to_vec();
    match s.weighted(&[3, 2, 2, 2, 6]) {
        0 => href::reduce([s.below(4), 0, 0, 0]),
        1 => href::reduce([s.gl(), 0, 0, 0]),
        2 => href::reduce([s.gl(), s.gl(), s.gl(), 0]),
        3 => {
            let d = 1 + s.below(4);
            href::reduce([m[0].wrapping_sub(d), if m[0] < d { m[1] - 1 } else { m[1] }, m[2], m[3]])
        }
        _ => href::reduce([s.u64(), s.u64(), s.u64(), s.u64()]),
    }
}
/// Decimal text of a scalar.
pub fn to_dec<F: PrimeField>(f: &F) -> String {
    let l = to_limbs(f);
    l.iter().rev().fold(num_bigint::BigUint::from(0u32), |a, x| (a << 64usize) + num_bigint::BigUint::from(*x)).to_string()
}
