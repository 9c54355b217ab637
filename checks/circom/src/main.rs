mod groth;
mod inputs;
mod plonk;
#[path = "../../core/src/util.rs"]
mod util;
fn main() {
    symex::driver::main(&[
        ("G01", groth::g01),
        ("G02", groth::g02),
        ("G03", groth::g03),
        ("G04", groth::g04),
        ("K01", plonk::k01),
        ("K02", plonk::k02),
        ("K03", plonk::k03),
        ("K04", plonk::k04),
        ("K05", plonk::k05),
        ("C01", inputs::c01),
        ("C02", inputs::c02),
    ]);
}
