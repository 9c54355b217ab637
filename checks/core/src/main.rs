mod shamir;
mod pointshare;
mod poseidon;
mod util;
fn main() {
    symex::driver::main(&[("S01", shamir::s01), ("S02", shamir::s02), ("S03", shamir::s03), ("S04", shamir::s04), ("S05", shamir::s05), ("S06", pointshare::s06), ("S07", pointshare::s07), ("P01", poseidon::p01), ("P02", poseidon::p02), ("P03", poseidon::p03), ("P04", poseidon::p04), ("P05", poseidon::p05)]);
}
