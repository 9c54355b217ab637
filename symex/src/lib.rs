pub mod arena;
#[cfg(feature = "circom")]
mod bridge;
pub mod curve;
pub mod driver;
pub mod entropy;
pub mod field;
pub mod net;
pub mod privacy;
pub mod smt;

pub use driver::{Cx, Session};
pub use field::{SymF, concrete, unsupported};
