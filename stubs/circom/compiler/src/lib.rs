pub mod compiler_interface {
    pub use circom_fake::{run_compiler, write_c, write_wasm, Circuit, Config, VCP};
}
pub mod hir {
    pub mod very_concrete_program {
        pub use circom_fake::VCP;
    }
}
