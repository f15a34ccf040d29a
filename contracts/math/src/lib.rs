#![allow(non_snake_case)]
pub mod interp;
pub mod stats;
pub mod seqs;
pub mod roots;
pub mod distrib;
pub mod descent;
pub mod long;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
