pub use circom_fake::run_parser;
