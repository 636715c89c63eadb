pub mod check_types {
    pub use circom_fake::check_types;
}
