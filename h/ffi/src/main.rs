// The modules of the wrapper that do not need its Go part, as they are in /repo.
include!("../../../build/ffi_mods.rs");

mod bls;
mod g01;
mod g02;
mod g03;

fn main() {
    vh::main(&[("G01", g01::run), ("G02", g02::run), ("G03", g03::run)]);
}
