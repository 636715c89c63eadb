mod air;
mod conv;
mod f01;
mod f02;
mod f04;
mod h01;
mod h02;
mod m01;
mod prover;
mod s01;
mod s02;
mod s03;
mod s04;
mod s05;
mod s06;
mod s07;
mod s08;
mod s09;
mod s10;
mod s11;
mod circlib;
mod circom;
mod t01;

fn main() {
    vh::main(&[
        ("S01", s01::run),
        ("S02", s02::run),
        ("S03", s03::run),
        ("S04", s04::run),
        ("S05", s05::run),
        ("S06", s06::run),
        ("S07", s07::run),
        ("S08", s08::run),
        ("S09", s09::run),
        ("S10", s10::run),
        ("S11", s11::run),
        ("F01", f01::run),
        ("F02", f02::run),
        ("F04", f04::run),
        ("H01", h01::run),
        ("H02", h02::run),
        ("T01", t01::run),
        ("M01", m01::run_m01),
        ("M02", m01::run_m02),
    ]);
}
