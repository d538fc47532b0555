//! Bodies run twice: by Kani, where every `any` is symbolic, and natively with
//! the values of a counterexample (src/main.rs).
pub mod body;
pub mod stub;

#[cfg(kani)]
mod proofs;
