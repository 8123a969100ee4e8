//! Harnesses deciding the properties in /verif/properties.jsonl for the elusiv program: ordinary functions, executed
//! symbolically by /verif/symex and natively (on one input) by the replay program.
#![allow(clippy::all)]
#![allow(dead_code)]
pub mod sym;
pub mod c01_map;
pub mod env;
pub mod c02_nullifiers;
pub mod c03_queue;
pub mod c04_batch;
pub mod tree;
pub mod c06_nodes;
pub mod c07_roots;
pub mod c08_hashing;
pub mod c19_closing;
pub mod c20_finalize;
pub mod c21_binding;
pub mod proofs;
pub mod c15_lamports;
pub mod c16_tokens;
pub mod c18_inputs;
pub mod c10_fees;
pub mod c13_store;
pub mod c14_verification;
pub mod c05_buffer;
pub mod c11_tokens;
pub mod c12_transfers;
pub mod c24_vkey;
pub mod c25_children;
pub mod c23_dispatch;
