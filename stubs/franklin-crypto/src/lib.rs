//! Stand-in for the slice of franklin-crypto / bellman_ce / pairing_ce that /repo names.
//! The real crates are git dependencies that are not available offline. Traits only: the field
//! traits are the real ones (ff_ce, which pairing_ce re-exports); the constraint-system traits
//! have the same shape as bellman_ce's. The plonk bigint types are data-only.

pub mod bellman {
    pub mod pairing {
        pub use ::ff;
        use ff::PrimeField;
        pub use ff::ScalarEngine;
        pub trait Engine: ScalarEngine {
            type Fq: PrimeField;
        }
    }
    pub use pairing::ff::{Field, PrimeField, PrimeFieldRepr};
    pub use pairing::{Engine, ScalarEngine};

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum Index {
        Input(usize),
        Aux(usize),
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Variable(Index);
    impl Variable {
        pub fn new_unchecked(idx: Index) -> Self {
            Variable(idx)
        }
        pub fn get_unchecked(&self) -> Index {
            self.0
        }
    }

    #[derive(Debug)]
    pub enum SynthesisError {
        AssignmentMissing,
        Unsatisfiable,
    }
    impl std::fmt::Display for SynthesisError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for SynthesisError {}

    #[derive(Debug, Clone)]
    pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> LinearCombination<E> {
        pub fn zero() -> Self {
            LinearCombination(vec![])
        }
    }
    impl<E: ScalarEngine> AsRef<[(Variable, E::Fr)]> for LinearCombination<E> {
        fn as_ref(&self) -> &[(Variable, E::Fr)] {
            &self.0
        }
    }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> {
        type Output = LinearCombination<E>;
        fn add(mut self, (coeff, var): (E::Fr, Variable)) -> Self {
            self.0.push((var, coeff));
            self
        }
    }

    pub trait ConstraintSystem<E: Engine>: Sized {
        fn alloc<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, annotation: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }

    pub trait Circuit<E: Engine> {
        fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>;
    }

    pub mod kate_commitment {
        use super::Engine;
        use std::io::{Error, ErrorKind, Read, Result};
        use std::marker::PhantomData;
        #[derive(Debug)]
        pub struct CrsForMonomialForm;
        #[derive(Debug)]
        pub struct CrsForLagrangeForm;
        #[derive(Debug)]
        pub struct Crs<E: Engine, T>(PhantomData<(E, T)>);
        impl<E: Engine, T> Crs<E, T> {
            pub fn read<R: Read>(_r: &mut R) -> Result<Self> {
                Err(Error::new(ErrorKind::Unsupported, "stand-in"))
            }
        }
    }
}

pub mod plonk {
    pub mod circuit {
        pub mod bigint {
            pub mod field {
                use crate::bellman::Engine;
                use ff::PrimeField;
                use num_bigint::BigUint;
                use std::marker::PhantomData;
                #[derive(Clone, Debug, Default)]
                pub struct LimbedRepresentationParameters {
                    pub limb_size_bits: usize,
                    pub limb_max_value: BigUint,
                }
                #[derive(Clone, Debug, Default)]
                pub struct RangeCheckInfo {
                    pub minimal_multiple: usize,
                }
                #[derive(Clone, Debug)]
                pub struct RnsParameters<E: Engine, F: PrimeField> {
                    pub num_limbs_for_in_field_representation: usize,
                    pub num_binary_limbs: usize,
                    pub binary_limbs_params: LimbedRepresentationParameters,
                    pub range_check_info: RangeCheckInfo,
                    pub binary_limbs_bit_widths: Vec<usize>,
                    pub binary_limbs_max_values: Vec<BigUint>,
                    pub double_limb_witness: bool,
                    pub _marker: PhantomData<(E, F)>,
                }
                impl<E: Engine, F: PrimeField> RnsParameters<E, F> {
                    pub fn can_allocate_from_double_limb_witness(&self) -> bool {
                        self.double_limb_witness
                    }
                }
            }
            #[allow(clippy::module_inception)]
            pub mod bigint {
                use ff::PrimeField;
                use num_bigint::BigUint;
                pub fn biguint_to_fe<F: PrimeField>(value: BigUint) -> F {
                    F::from_str(&value.to_str_radix(10)).unwrap()
                }
                pub fn fe_to_biguint<F: PrimeField>(el: &F) -> BigUint {
                    let s = format!("{}", el.into_repr());
                    BigUint::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).unwrap()
                }
            }
        }
    }
}
