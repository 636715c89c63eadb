//! not called by dsl_compile
