#![allow(non_snake_case)]
pub mod curve;
pub mod paths;
pub mod sde;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
