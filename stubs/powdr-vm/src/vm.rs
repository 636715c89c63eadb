//! A virtual machine that follows a script: what it is asked to run and prove is recorded, and what it answers is
//! what the script holds. The order of calls is that of the real pipeline: no witness without a program and the
//! columns, no proof without a witness, no key without a backend.
use crate::ast::analyzed::Analyzed;
use crate::number::FieldElement;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// One machine of the program.
#[derive(Clone, Default)]
pub struct Machine {
    pub name: String,
    pub pil: String,
    pub size: u64,
    /// keys by size; None: this machine has none
    pub keys: Option<Vec<(u64, Vec<u8>)>>,
}
#[derive(Clone, Default)]
pub struct Script {
    pub asm: String,
    /// fixed columns
    pub fixed: Vec<(String, Vec<u64>)>,
    pub machines: Vec<Machine>,
    pub chunks: Vec<(Vec<u64>, u64)>,
    /// the chunk whose witness or proof fails, by its bootloader inputs
    pub fail_witness: Option<Vec<u64>>,
    pub fail_proof: Option<Vec<u64>>,
}
#[derive(Clone, Default, Debug, PartialEq)]
pub struct State {
    pub asm: Option<String>,
    pub output: Option<PathBuf>,
    pub inputs: Vec<u64>,
    pub data: Vec<(u32, String)>,
    pub external: Vec<(String, Vec<u64>)>,
    pub backend: Option<(String, Option<String>)>,
    pub witness: bool,
}
#[derive(Clone, Default)]
pub struct Log {
    /// program, output directory
    pub compiled: Vec<(String, PathBuf)>,
    pub dry_runs: Vec<State>,
    pub proofs: Vec<State>,
}
thread_local! {
    pub static SCRIPT: RefCell<Script> = RefCell::new(Script::default());
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
}
fn script() -> Script {
    SCRIPT.with(|s| s.borrow().clone())
}
/// What the proof of a machine says.
pub fn statement(s: &State, machine: usize) -> Vec<u8> {
    format!("proof of machine {machine} by {s:?}").into_bytes()
}

#[derive(Clone)]
pub struct Pipeline<F> {
    pub state: State,
    fixed: Option<Fixed<F>>,
    pil: Option<Rc<Analyzed<F>>>,
    proof: Option<Vec<u8>>,
}
type Fixed<F> = Rc<Vec<(String, executor::constant_evaluator::VariablySizedColumn<F>)>>;
type Errs = Vec<String>;
impl<F> Default for Pipeline<F> {
    fn default() -> Self {
        Pipeline { state: State::default(), fixed: None, pil: None, proof: None }
    }
}
fn err<T>(m: &str) -> Result<T, Errs> {
    Err(vec![m.to_string()])
}
#[allow(clippy::wrong_self_convention)]
impl<F: FieldElement> Pipeline<F> {
    pub fn with_output(mut self, d: PathBuf, _force: bool) -> Self {
        self.state.output = Some(d);
        self
    }
    pub fn from_asm_string(mut self, t: String, _path: Option<PathBuf>) -> Self {
        self.state.asm = Some(t);
        self
    }
    pub fn from_asm_file(mut self, f: PathBuf) -> Self {
        self.state.asm = std::fs::read_to_string(f).ok();
        self
    }
    pub fn with_prover_inputs(mut self, v: Vec<F>) -> Self {
        self.state.inputs = v.iter().map(|x| x.to_canonical()).collect();
        self
    }
    pub fn add_data<S: serde::Serialize>(mut self, channel: u32, d: &S) -> Self {
        self.state.data.push((channel, serde_json::to_string(d).unwrap()));
        self
    }
    pub fn add_external_witness_values(mut self, v: Vec<(String, Vec<F>)>) -> Self {
        self.state.external.extend(v.into_iter().map(|(n, v)| (n, v.iter().map(|x| x.to_canonical()).collect())));
        self.state.witness = false;
        self.proof = None;
        self
    }
    pub fn with_backend(mut self, b: backend::BackendType, options: Option<String>) -> Self {
        self.state.backend = Some((format!("{b:?}"), options));
        self
    }
    pub fn output_dir(&self) -> &Option<PathBuf> {
        &self.state.output
    }
    pub fn compute_fixed_cols(&mut self) -> Result<Fixed<F>, Errs> {
        if self.state.asm.is_none() {
            return err("no program");
        }
        self.fixed = Some(Rc::new(
            script().fixed.iter().map(|(n, v)| (n.clone(), executor::constant_evaluator::VariablySizedColumn(v.iter().map(|x| F::from(*x)).collect()))).collect(),
        ));
        self.fixed_cols()
    }
    pub fn fixed_cols(&self) -> Result<Fixed<F>, Errs> {
        self.fixed.clone().ok_or(vec!["no fixed columns".to_string()])
    }
    pub fn compute_optimized_pil(&mut self) -> Result<Rc<Analyzed<F>>, Errs> {
        if self.state.asm.is_none() {
            return err("no program");
        }
        // the analyser knows one size; the whole is only there to be split
        let text = script().machines.first().map_or(String::new(), |m| m.pil.clone());
        self.pil = Some(Rc::new(crate::pil_analyzer::analyze_string::<F>(&text)));
        self.optimized_pil()
    }
    pub fn optimized_pil(&self) -> Result<Rc<Analyzed<F>>, Errs> {
        self.pil.clone().ok_or(vec!["no program".to_string()])
    }
    fn boot(&self) -> Option<&Vec<u64>> {
        self.state.external.iter().find(|e| e.0 == "main_bootloader_inputs.value").map(|e| &e.1)
    }
    pub fn compute_witness(&mut self) -> Result<(), Errs> {
        if self.state.asm.is_none() || self.fixed.is_none() {
            return err("not ready");
        }
        if script().fail_witness.is_some() && script().fail_witness.as_ref() == self.boot() {
            return err("the witness fails");
        }
        self.state.witness = true;
        Ok(())
    }
    pub fn compute_proof(&mut self) -> Result<&Vec<u8>, Errs> {
        if self.state.backend.is_none() {
            return err("no backend");
        }
        if !self.state.witness {
            self.compute_witness()?;
        }
        if self.pil.is_none() {
            self.compute_optimized_pil()?;
        }
        if script().fail_proof.is_some() && script().fail_proof.as_ref() == self.boot() {
            return err("the proof fails");
        }
        LOG.with(|l| l.borrow_mut().proofs.push(self.state.clone()));
        let proofs = script()
            .machines
            .iter()
            .enumerate()
            .map(|(i, m)| backend::composite::MachineProof { machine: m.name.clone(), size: m.size, proof: statement(&self.state, i) })
            .collect();
        self.proof = Some(bincode::serialize(&backend::composite::CompositeProof { proofs }).unwrap());
        Ok(self.proof.as_ref().unwrap())
    }
    pub fn proof(&self) -> Result<&Vec<u8>, Errs> {
        self.proof.as_ref().ok_or(vec!["no proof".to_string()])
    }
    pub fn export_verification_key<W: std::io::Write>(&mut self, mut w: W) -> Result<(), Errs> {
        if self.state.backend.is_none() {
            return err("no backend");
        }
        let verification_keys = script().machines.iter().map(|m| m.keys.as_ref().map(|k| k.iter().cloned().collect())).collect();
        w.write_all(&bincode::serialize(&backend::composite::CompositeVerificationKey { verification_keys }).unwrap()).map_err(|e| vec![e.to_string()])
    }
}

pub mod backend {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum BackendType {
        EStarkStarky,
        EStarkStarkyComposite,
        EStarkDump,
        EStarkDumpComposite,
    }
    pub mod composite {
        use serde::{Deserialize, Serialize};
        use std::collections::BTreeMap;
        #[derive(Serialize, Deserialize)]
        pub struct MachineProof {
            pub machine: String,
            pub size: u64,
            pub proof: Vec<u8>,
        }
        #[derive(Serialize, Deserialize)]
        pub struct CompositeProof {
            pub proofs: Vec<MachineProof>,
        }
        #[derive(Serialize, Deserialize)]
        pub struct CompositeVerificationKey {
            pub verification_keys: Vec<Option<BTreeMap<u64, Vec<u8>>>>,
        }
        pub mod split {
            use crate::ast::analyzed::Analyzed;
            use crate::number::FieldElement;
            use std::collections::BTreeMap;
            pub fn split_pil<F: FieldElement>(_: Analyzed<F>) -> BTreeMap<String, Analyzed<F>> {
                super::super::super::script().machines.iter().map(|m| (m.name.clone(), crate::pil_analyzer::analyze_string::<F>(&m.pil))).collect()
            }
        }
    }
}
pub mod executor {
    pub mod constant_evaluator {
        #[derive(Clone, Debug)]
        pub struct VariablySizedColumn<F>(pub Vec<F>);
        #[derive(Debug)]
        pub struct HasMultipleSizesError;
        pub fn get_uniquely_sized<F>(c: &[(String, VariablySizedColumn<F>)]) -> Result<Vec<(String, &Vec<F>)>, HasMultipleSizesError> {
            Ok(c.iter().map(|(n, v)| (n.clone(), &v.0)).collect())
        }
    }
}
pub mod riscv {
    use super::*;
    #[derive(Clone, Debug, Default)]
    pub struct Runtime(Vec<&'static str>);
    impl Runtime {
        pub fn base() -> Self {
            Runtime(vec!["base"])
        }
        pub fn with_poseidon(mut self) -> Self {
            self.0.push("poseidon");
            self
        }
    }
    /// Writes the program next to where it is asked to, under the name of the crate.
    pub fn compile_rust<F: FieldElement>(
        program: &str,
        out: &Path,
        _force: bool,
        runtime: &Runtime,
        _via_elf: bool,
        bootloader: bool,
    ) -> Option<(PathBuf, String)> {
        LOG.with(|l| l.borrow_mut().compiled.push((program.to_string(), out.to_path_buf())));
        let text = format!("{} {program} {:?} bootloader {bootloader}", script().asm, runtime.0);
        let file = out.join(format!("{}.asm", Path::new(program).file_name()?.to_str()?));
        std::fs::write(&file, &text).ok()?;
        Some((file, text))
    }
    pub mod continuations {
        use super::*;
        pub type BootloaderInputs<F> = Vec<F>;
        pub fn rust_continuations_dry_run<F: FieldElement>(p: &mut Pipeline<F>, _profile: Option<()>) -> Vec<(BootloaderInputs<F>, u64)> {
            assert!(p.state.asm.is_some(), "no program");
            LOG.with(|l| l.borrow_mut().dry_runs.push(p.state.clone()));
            script().chunks.iter().map(|(v, s)| (v.iter().map(|x| F::from(*x)).collect(), *s)).collect()
        }
        pub fn rust_continuations<F: FieldElement, C, E>(mut p: Pipeline<F>, callback: C, chunks: Vec<(BootloaderInputs<F>, u64)>) -> Result<(), E>
        where
            C: Fn(Pipeline<F>) -> Result<(), E>,
        {
            p.compute_fixed_cols().unwrap();
            p.compute_optimized_pil().unwrap();
            for (v, start) in chunks {
                let at = vec![F::from(start)];
                let q = p.clone().add_external_witness_values(vec![("main_bootloader_inputs.value".into(), v), ("start".into(), at)]);
                callback(q)?;
            }
            Ok(())
        }
    }
}
