pub use circom_fake::ConstraintExporter;
pub mod debug_writer {
    pub use circom_fake::DebugWriter;
}
