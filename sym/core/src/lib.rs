//! The parts of the symbolic engine that do not depend on the crate under test.
pub mod fx;
pub mod lin;
pub mod smt;
pub mod spec;
pub mod sym;
