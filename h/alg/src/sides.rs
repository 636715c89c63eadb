//! One face for the two copies of the algebraic code (`algebraic` over ff_ce, `algebraic-gpu` over ff) and their fields.
//! Everything crosses it as integers, so the oracles never compute with the code's own types.
use num_bigint::BigUint;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub const BN: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const BLS: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
pub const GLP: &str = "18446744069414584321";
pub fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}

/// Little-endian bytes of v, n of them.
pub fn le_bytes(v: &BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    assert!(b.len() <= n);
    b.resize(n, 0);
    b
}

/// A reader that counts calls, to tell a loader that loops from one that fails.
pub struct Counting<'a> {
    cur: Cursor<&'a [u8]>,
    left: u64,
}
pub const LOOPS: &str = "the loader keeps reading";
impl<'a> Counting<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Counting { left: 20_000 + 16 * b.len() as u64, cur: Cursor::new(b) }
    }
    fn tick(&mut self) {
        if self.left == 0 {
            panic!("{LOOPS}");
        }
        self.left -= 1;
    }
}
impl Read for Counting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.cur.read(buf)
    }
}
impl Seek for Counting<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.tick();
        self.cur.seek(p)
    }
}

pub type Lc = Vec<(usize, BigUint)>;
/// The constraint system as loaded, or as given to the code.
#[derive(Clone, Debug, PartialEq)]
pub struct Sys {
    pub n_inputs: usize,
    pub n_aux: usize,
    pub n_vars: usize,
    pub n_out: usize,
    pub cons: Vec<[Lc; 3]>,
    pub gates: Vec<(String, Vec<BigUint>)>,
    pub uses: Vec<(u64, Vec<u64>)>,
}
/// What from_reader reports besides the system.
#[derive(Clone, Debug, PartialEq)]
pub struct Head {
    pub version: u32,
    pub field_size: u32,
    pub prime: Vec<u8>,
    pub n_wires: u32,
    pub n_pub_out: u32,
    pub n_pub_in: u32,
    pub n_prv_in: u32,
    pub n_labels: u64,
    pub n_constraints: u32,
    pub custom: bool,
    pub map: Vec<u64>,
}
/// A synthesised constraint system: values of the public inputs (without ONE) and of the auxiliary variables, and the
/// constraints over (is input, index).
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub inputs: Vec<BigUint>,
    pub aux: Vec<BigUint>,
    pub cons: Vec<[Vec<((bool, usize), BigUint)>; 3]>,
}

pub trait Side {
    const NAME: &'static str;
    fn p() -> BigUint;
    /// bytes of a field element in files
    fn n8() -> usize {
        if Self::p().bits() <= 64 {
            8
        } else {
            32
        }
    }
    fn file(b: &[u8]) -> Result<(Head, Sys), String>;
    fn r1cs_bin(b: &[u8]) -> (Sys, Vec<usize>);
    fn r1cs_path(p: &str) -> Sys;
    fn wtns_reader(b: &[u8]) -> Result<Vec<BigUint>, String>;
    fn wtns_array(b: Vec<u8>) -> Result<Vec<BigUint>, String>;
    fn wtns_path(p: &str) -> Vec<BigUint>;
    fn wtns_bin_path(p: &str) -> Vec<BigUint>;
    fn wtns_json_path(p: &str) -> Vec<BigUint>;
    fn publics(_s: &Sys, _w: Option<&[BigUint]>, _m: Option<&[usize]>) -> (Option<Vec<BigUint>>, String) {
        unreachable!()
    }
    /// `pre` auxiliary variables are already in the constraint system.
    fn synth(_s: &Sys, _w: &[BigUint], _m: Option<&[usize]>, _pre: &[BigUint]) -> Result<Rec, String> {
        unreachable!()
    }
    /// The constraint system of a circuit without a witness, as made for a key: no value is asked for.
    fn shape(_s: &Sys, _m: Option<&[usize]>, _pre: &[BigUint]) -> Result<Rec, String> {
        unreachable!()
    }
}

macro_rules! common {
    ($lib:ident, $e:ty, $from:path, $to:path) => {
        fn file(b: &[u8]) -> Result<(Head, Sys), String> {
            let f = $lib::r1cs_file::from_reader::<_, $e>(Counting::new(b)).map_err(|e| e.to_string())?;
            let h = Head {
                version: f.version,
                field_size: f.header.field_size,
                prime: f.header.prime_size.clone(),
                n_wires: f.header.n_wires,
                n_pub_out: f.header.n_pub_out,
                n_pub_in: f.header.n_pub_in,
                n_prv_in: f.header.n_prv_in,
                n_labels: f.header.n_labels,
                n_constraints: f.header.n_constraints,
                custom: f.header.use_custom_gates,
                map: f.wire_mapping.clone(),
            };
            let n = |x: &Vec<(usize, _)>| x.iter().map(|(i, c)| (*i, $to(c))).collect::<Lc>();
            let s = Sys {
                n_inputs: 0,
                n_aux: 0,
                n_vars: 0,
                n_out: 0,
                cons: f.constraints.iter().map(|(a, b, c)| [n(a), n(b), n(c)]).collect(),
                gates: f
                    .custom_gates
                    .iter()
                    .map(|g| (g.template_name.clone(), g.parameters.iter().map(|x| $to(x)).collect()))
                    .collect(),
                uses: f.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
            };
            Ok((h, s))
        }
        fn r1cs_bin(b: &[u8]) -> (Sys, Vec<usize>) {
            let (r, m) = $lib::reader::load_r1cs_from_bin::<_, $e>(Counting::new(b));
            (Self::sys(&r), m)
        }
        fn r1cs_path(p: &str) -> Sys {
            Self::sys(&$lib::reader::load_r1cs::<$e>(p))
        }
        fn wtns_reader(b: &[u8]) -> Result<Vec<BigUint>, String> {
            $lib::reader::load_witness_from_bin_reader::<$e, _>(Counting::new(b))
                .map(|v| v.iter().map(|x| $to(x)).collect())
                .map_err(|e| e.to_string())
        }
        fn wtns_array(b: Vec<u8>) -> Result<Vec<BigUint>, String> {
            $lib::reader::load_witness_from_array::<$e>(b)
                .map(|v| v.iter().map(|x| $to(x)).collect())
                .map_err(|e| e.to_string())
        }
        fn wtns_path(p: &str) -> Vec<BigUint> {
            $lib::reader::load_witness_from_file::<$e>(p).iter().map(|x| $to(x)).collect()
        }
        fn wtns_bin_path(p: &str) -> Vec<BigUint> {
            $lib::reader::load_witness_from_bin_file::<$e>(p).iter().map(|x| $to(x)).collect()
        }
        fn wtns_json_path(p: &str) -> Vec<BigUint> {
            $lib::reader::load_witness_from_json_file::<$e>(p).iter().map(|x| $to(x)).collect()
        }
    };
}
macro_rules! sysconv {
    ($side:ident, $lib:ident, $e:ty, $from:path, $to:path) => {
        impl $side {
            pub fn sys(r: &$lib::circom_circuit::R1CS<$e>) -> Sys {
                let n = |x: &Vec<(usize, _)>| x.iter().map(|(i, c)| (*i, $to(c))).collect::<Lc>();
                Sys {
                    n_inputs: r.num_inputs,
                    n_aux: r.num_aux,
                    n_vars: r.num_variables,
                    n_out: r.num_outputs,
                    cons: r.constraints.iter().map(|(a, b, c)| [n(a), n(b), n(c)]).collect(),
                    gates: r
                        .custom_gates
                        .iter()
                        .map(|g| (g.template_name.clone(), g.parameters.iter().map(|x| $to(x)).collect()))
                        .collect(),
                    uses: r.custom_gates_uses.iter().map(|u| (u.id, u.signals.clone())).collect(),
                }
            }
            #[allow(dead_code)]
            pub fn circuit(
                s: &Sys,
                w: Option<&[BigUint]>,
                m: Option<&[usize]>,
                aux_offset: usize,
            ) -> $lib::circom_circuit::CircomCircuit<$e> {
                let n = |x: &Lc| x.iter().map(|(i, c)| (*i, $from(c))).collect::<Vec<_>>();
                $lib::circom_circuit::CircomCircuit {
                    r1cs: $lib::circom_circuit::R1CS {
                        num_inputs: s.n_inputs,
                        num_aux: s.n_aux,
                        num_variables: s.n_vars,
                        num_outputs: s.n_out,
                        constraints: s.cons.iter().map(|[a, b, c]| (n(a), n(b), n(c))).collect(),
                        custom_gates: vec![],
                        custom_gates_uses: vec![],
                    },
                    witness: w.map(|w| w.iter().map(|x| $from(x)).collect()),
                    wire_mapping: m.map(|m| m.to_vec()),
                    aux_offset,
                }
            }
        }
    };
}

// ------------------------------------------------------------------------------------------------ algebraic (ff_ce)
pub mod ce {
    use super::*;
    use algebraic::bellman_ce::{Circuit, ConstraintSystem, Engine, Index, LinearCombination, SynthesisError, Variable};
    use algebraic::PrimeField;
    pub fn to<F: PrimeField>(f: &F) -> BigUint {
        BigUint::from_bytes_le(&vh_alg_ce::le(f))
    }
    pub fn from<F: PrimeField>(v: &BigUint) -> F {
        vh_alg_ce::from_dec(&v.to_string())
    }
    #[derive(Default)]
    struct Cs(Rec, bool);
    impl<E: Engine> ConstraintSystem<E> for Cs {
        fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            self.0.aux.push(if self.1 { BigUint::default() } else { to(&f()?) });
            Ok(Variable::new_unchecked(Index::Aux(self.0.aux.len() - 1)))
        }
        fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError>
        where
            F: FnOnce() -> Result<E::Fr, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            self.0.inputs.push(if self.1 { BigUint::default() } else { to(&f()?) });
            Ok(Variable::new_unchecked(Index::Input(self.0.inputs.len())))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
            LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>,
        {
            let n = |l: LinearCombination<E>| {
                l.as_ref()
                    .iter()
                    .map(|(v, c)| {
                        let v = match v.get_unchecked() {
                            Index::Input(i) => (true, i),
                            Index::Aux(i) => (false, i),
                        };
                        (v, to(c))
                    })
                    .collect()
            };
            let z = LinearCombination::zero;
            self.0.cons.push([n(a(z())), n(b(z())), n(c(z()))]);
        }
    }
    macro_rules! side {
        ($s:ident, $e:ty, $name:literal, $p:expr, {$($extra:item)*}) => {
            pub struct $s;
            sysconv!($s, algebraic, $e, from, to);
            impl Side for $s {
                const NAME: &'static str = $name;
                fn p() -> BigUint {
                    dec($p)
                }
                common!(algebraic, $e, from, to);
                $($extra)*
            }
        };
    }
    macro_rules! full {
        ($s:ident, $e:ty, $name:literal, $p:expr) => {
            side!($s, $e, $name, $p, {
                fn publics(s: &Sys, w: Option<&[BigUint]>, m: Option<&[usize]>) -> (Option<Vec<BigUint>>, String) {
                    let c = Self::circuit(s, w, m, 0);
                    (c.get_public_inputs().map(|v| v.iter().map(to).collect()), c.get_public_inputs_json())
                }
                fn synth(s: &Sys, w: &[BigUint], m: Option<&[usize]>, pre: &[BigUint]) -> Result<Rec, String> {
                    let mut cs = Cs::default();
                    cs.0.aux = pre.to_vec();
                    let c = Self::circuit(s, Some(w), m, pre.len());
                    Circuit::<$e>::synthesize(c, &mut cs).map_err(|e| e.to_string())?;
                    Ok(cs.0)
                }
                fn shape(s: &Sys, m: Option<&[usize]>, pre: &[BigUint]) -> Result<Rec, String> {
                    let mut cs = Cs(Rec::default(), true);
                    cs.0.aux = pre.to_vec();
                    let c = Self::circuit(s, None, m, pre.len());
                    Circuit::<$e>::synthesize(c, &mut cs).map_err(|e| e.to_string())?;
                    Ok(cs.0)
                }
            });
        };
    }
    full!(CeBn, vh_alg_ce::BnE, "algebraic/bn256", BN);
    full!(CeBls, vh_alg_ce::BlsE, "algebraic/bls12381", BLS);
    side!(CeGl, fields::field_gl::GL, "algebraic/gl", GLP, {});
}

// --------------------------------------------------------------------------------------------- algebraic-gpu (ff 0.13)
pub mod gpu {
    use super::*;
    use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
    use ff::PrimeField;

    pub mod bn {
        use ff::PrimeField;
        #[derive(PrimeField)]
        #[PrimeFieldModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"]
        #[PrimeFieldGenerator = "7"]
        #[PrimeFieldReprEndianness = "little"]
        pub struct Scalar([u64; 4]);
    }
    pub fn to<F: PrimeField>(f: &F) -> BigUint {
        BigUint::from_bytes_le(f.to_repr().as_ref())
    }
    pub fn from<F: PrimeField>(v: &BigUint) -> F {
        let mut r = F::Repr::default();
        let b = v.to_bytes_le();
        r.as_mut()[..b.len()].copy_from_slice(&b);
        F::from_repr(r).unwrap()
    }
    #[derive(Default)]
    struct Cs(Rec, bool);
    impl<F: PrimeField> ConstraintSystem<F> for Cs {
        type Root = Self;
        fn alloc<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
        where
            G: FnOnce() -> Result<F, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            self.0.aux.push(if self.1 { BigUint::default() } else { to(&f()?) });
            Ok(Variable::new_unchecked(Index::Aux(self.0.aux.len() - 1)))
        }
        fn alloc_input<G, A, AR>(&mut self, _: A, f: G) -> Result<Variable, SynthesisError>
        where
            G: FnOnce() -> Result<F, SynthesisError>,
            A: FnOnce() -> AR,
            AR: Into<String>,
        {
            self.0.inputs.push(if self.1 { BigUint::default() } else { to(&f()?) });
            Ok(Variable::new_unchecked(Index::Input(self.0.inputs.len())))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
        where
            A: FnOnce() -> AR,
            AR: Into<String>,
            LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
            LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
            LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        {
            let n = |l: LinearCombination<F>| {
                l.iter()
                    .map(|(v, c)| {
                        let v = match v.get_unchecked() {
                            Index::Input(i) => (true, i),
                            Index::Aux(i) => (false, i),
                        };
                        (v, to(c))
                    })
                    .collect()
            };
            let z = LinearCombination::zero;
            self.0.cons.push([n(a(z())), n(b(z())), n(c(z()))]);
        }
        fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, _: N) {}
        fn pop_namespace(&mut self) {}
        fn get_root(&mut self) -> &mut Self {
            self
        }
    }
    macro_rules! side {
        ($s:ident, $e:ty, $name:literal, $p:expr) => {
            pub struct $s;
            sysconv!($s, algebraic_gpu, $e, from, to);
            impl Side for $s {
                const NAME: &'static str = $name;
                fn p() -> BigUint {
                    dec($p)
                }
                common!(algebraic_gpu, $e, from, to);
                fn publics(s: &Sys, w: Option<&[BigUint]>, m: Option<&[usize]>) -> (Option<Vec<BigUint>>, String) {
                    let c = Self::circuit(s, w, m, 0);
                    (c.get_public_inputs().map(|v| v.iter().map(to).collect()), c.get_public_inputs_json())
                }
                fn synth(s: &Sys, w: &[BigUint], m: Option<&[usize]>, pre: &[BigUint]) -> Result<Rec, String> {
                    let mut cs = Cs::default();
                    cs.0.aux = pre.to_vec();
                    let c = Self::circuit(s, Some(w), m, pre.len());
                    Circuit::<$e>::synthesize(c, &mut cs).map_err(|e| e.to_string())?;
                    Ok(cs.0)
                }
                fn shape(s: &Sys, m: Option<&[usize]>, pre: &[BigUint]) -> Result<Rec, String> {
                    let mut cs = Cs(Rec::default(), true);
                    cs.0.aux = pre.to_vec();
                    let c = Self::circuit(s, None, m, pre.len());
                    Circuit::<$e>::synthesize(c, &mut cs).map_err(|e| e.to_string())?;
                    Ok(cs.0)
                }
            }
        };
    }
    side!(GpuBn, bn::Scalar, "algebraic-gpu/bn256", BN);
    side!(GpuBls, blstrs::Scalar, "algebraic-gpu/bls12381", BLS);
}
