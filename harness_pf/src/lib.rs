//! Harnesses for the proof verification. Compiled without inlining, so that the arithmetic of the base field stays visible as calls.
#![allow(clippy::all)]
#![allow(dead_code)]
pub mod sym;
pub mod c09_proofs;
pub mod c29_points;
