pub use circom_fake::{build_circuit, BuildConfig};
