//! Symbolic execution of generic Rust numeric code: instantiate it with [`Sym`].
pub mod eng;
pub mod rat;
pub mod run;
pub mod sc;
pub mod smt;
pub mod sym;
pub use run::{main_with, Harness, HarnessBuilder};
pub use sc::{Sc, C};
pub use sym::Sym;
