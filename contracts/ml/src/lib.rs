#![allow(non_snake_case)]
pub mod activations;
pub mod classify;
pub mod regression;
pub mod long;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
