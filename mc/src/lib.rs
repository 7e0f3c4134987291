//! Explicit-state / bounded-exhaustive exploration engine for syntaxis.
pub mod engine;
pub mod interpose;
pub mod gram;
pub mod ebnf;
pub mod lexref;
pub mod jsonref;
