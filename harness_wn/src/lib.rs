#![allow(clippy::all)]
#![allow(dead_code)]
pub mod sym;
pub mod env;
pub mod wardens;
pub mod c31_registration;
pub mod c32_attestation;
pub mod c33_statistics;
pub mod c34_genesis;
pub mod c35_proposals;
pub mod c36_dispatch;
