//! Stand-in for the part of powdr (branch eigen/v1) that /repo uses: the analysed form of a PIL program, and
//! an analyser of the plain subset of PIL that /repo emits.
pub mod ast;
pub mod number;
pub mod pil_analyzer;
