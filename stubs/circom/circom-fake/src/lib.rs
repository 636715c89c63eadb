//! A stand-in for the circom compiler (which is not installed here). What it writes says what it was asked for, so
//! that the files a caller ends up with tell whether every choice arrived. `VH_CIRCOM_FAIL` names a step that fails.
use std::path::{Path, PathBuf};

pub fn fails(step: &str) -> bool {
    std::env::var("VH_CIRCOM_FAIL").map_or(false, |s| s == step)
}

#[derive(Clone, Default)]
pub struct FileLibrary(pub String);
#[derive(Clone)]
pub struct Report(pub String);
impl Report {
    pub fn print_reports(reports: &[Report], lib: &FileLibrary) {
        for r in reports {
            eprintln!("{}: {}", lib.0, r.0);
        }
    }
}
pub type ReportCollection = Vec<Report>;

pub struct ProgramArchive {
    pub file_library: FileLibrary,
    pub desc: String,
    pub version: String,
    pub checked: bool,
}
impl ProgramArchive {
    pub fn get_file_library(&self) -> &FileLibrary {
        &self.file_library
    }
}
pub fn run_parser(file: String, version: &str, links: Vec<PathBuf>) -> Result<(ProgramArchive, ReportCollection), (FileLibrary, ReportCollection)> {
    let lib = FileLibrary(file.clone());
    match std::fs::read_to_string(&file) {
        Ok(text) if !fails("parse") => Ok((
            ProgramArchive { file_library: lib, desc: format!("source={text:?} links={links:?}"), version: version.to_string(), checked: false },
            vec![Report("a warning".into())],
        )),
        _ => Err((lib, vec![Report("an error".into())])),
    }
}
pub fn check_types(a: &mut ProgramArchive) -> Result<ReportCollection, ReportCollection> {
    if fails("types") {
        return Err(vec![Report("a type error".into())]);
    }
    a.checked = true;
    Ok(vec![Report("a type warning".into())])
}

pub struct BuildConfig {
    pub no_rounds: usize,
    pub flag_json_sub: bool,
    pub json_substitutions: String,
    pub flag_s: bool,
    pub flag_f: bool,
    pub flag_p: bool,
    pub flag_verbose: bool,
    pub flag_old_heuristics: bool,
    pub inspect_constraints: bool,
    pub prime: String,
}
pub struct VCP {
    desc: String,
    version: String,
}
pub struct DebugWriter {
    pub json_constraints: String,
}
impl DebugWriter {
    pub fn new(c: String) -> Result<DebugWriter, ()> {
        Ok(DebugWriter { json_constraints: c })
    }
}
pub trait ConstraintExporter {
    fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()>;
    fn json_constraints(&self, writer: &DebugWriter) -> Result<(), ()>;
    fn sym(&self, out: &str) -> Result<(), ()>;
}
struct Exporter(String);
fn put(step: &str, f: &str, t: String) -> Result<(), ()> {
    if fails(step) {
        return Err(());
    }
    std::fs::write(f, t).map_err(|_| ())
}
impl ConstraintExporter for Exporter {
    fn r1cs(&self, out: &str, custom_gates: bool) -> Result<(), ()> {
        put("r1cs", out, format!("r1cs {} custom={custom_gates}", self.0))
    }
    fn json_constraints(&self, w: &DebugWriter) -> Result<(), ()> {
        put("json", &w.json_constraints, format!("json {}", self.0))
    }
    fn sym(&self, out: &str) -> Result<(), ()> {
        put("sym", out, format!("sym {}", self.0))
    }
}
pub fn build_circuit(a: ProgramArchive, c: BuildConfig) -> Result<(Box<dyn ConstraintExporter>, VCP), ()> {
    if fails("build") || !a.checked {
        return Err(());
    }
    // the compiler's own reading of the flags: unsimplified, linear only, or rounds of full simplification
    let style = match (c.flag_f, c.flag_s) {
        (true, _) => "none".to_string(),
        (_, true) => "linear".to_string(),
        _ if c.no_rounds == usize::MAX => "full".to_string(),
        _ => format!("rounds {}", c.no_rounds),
    };
    let desc = format!("{} prime={} simplification={style}", a.desc, c.prime);
    Ok((Box::new(Exporter(desc.clone())), VCP { desc, version: a.version }))
}

pub struct Config {
    pub debug_output: bool,
    pub produce_input_log: bool,
    pub wat_flag: bool,
}
pub struct Circuit {
    desc: String,
}
pub fn run_compiler(vcp: VCP, _: Config, version: &str) -> Result<Circuit, ()> {
    if fails("compile") || version != vcp.version {
        return Err(());
    }
    Ok(Circuit { desc: vcp.desc })
}
fn folder(d: &str) -> Result<(), ()> {
    std::fs::create_dir_all(Path::new(d)).map_err(|_| ())
}
pub fn write_wasm(c: &Circuit, js_folder: &str, name: &str, file: &str) -> Result<(), ()> {
    if fails("wasm") {
        return Err(());
    }
    folder(js_folder)?;
    std::fs::write(Path::new(js_folder).join("generate_witness.js"), name).map_err(|_| ())?;
    let bad = if fails("wat") { "BAD" } else { "" };
    std::fs::write(file, format!("{bad}wasm {}", c.desc)).map_err(|_| ())
}
pub fn write_c(c: &Circuit, folder_: &str, name: &str, file: &str, dat: &str) -> Result<(), ()> {
    folder(folder_)?;
    std::fs::write(file, format!("cpp {name} {}", c.desc)).map_err(|_| ())?;
    std::fs::write(dat, "dat").map_err(|_| ())
}
