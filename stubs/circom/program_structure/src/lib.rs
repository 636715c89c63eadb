pub mod error_definition {
    pub use circom_fake::{Report, ReportCollection};
}
pub mod program_archive {
    pub use circom_fake::ProgramArchive;
}
pub mod file_definition {
    pub use circom_fake::FileLibrary;
}
