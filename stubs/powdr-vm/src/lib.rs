//! The stand-in for powdr with a virtual machine that follows a script (`vm`).
#[path = "../../powdr/src/ast/mod.rs"]
pub mod ast;
#[path = "../../powdr/src/number.rs"]
pub mod number;
#[path = "../../powdr/src/pil_analyzer.rs"]
pub mod pil_analyzer;
pub mod vm;
pub use vm::{backend, executor, riscv, Pipeline};
