//! Scalar fields of the two pairing curves over ff_ce, and engines that name them.
extern crate ff;
use algebraic::bellman_ce::{Engine, ScalarEngine};
use ff::*;

pub mod bn {
    use super::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
    #[PrimeFieldGenerator = "7"]
    pub struct Fr(FrRepr);
}
pub mod bls {
    use super::*;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
    #[PrimeFieldGenerator = "7"]
    pub struct Fr(FrRepr);
}
#[derive(Clone, Copy, Debug)]
pub struct BnE;
#[derive(Clone, Copy, Debug)]
pub struct BlsE;
impl ScalarEngine for BnE {
    type Fr = bn::Fr;
}
impl ScalarEngine for BlsE {
    type Fr = bls::Fr;
}
impl Engine for BnE {
    type Fq = bn::Fr;
}
impl Engine for BlsE {
    type Fq = bls::Fr;
}
/// Little-endian canonical bytes of a field element, and back.
pub fn le<F: PrimeField>(f: &F) -> Vec<u8> {
    let mut v = vec![];
    f.into_repr().write_le(&mut v).unwrap();
    v
}
pub fn from_dec<F: PrimeField>(s: &str) -> F {
    F::from_str(s).unwrap()
}
