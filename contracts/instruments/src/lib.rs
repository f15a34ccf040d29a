#![allow(non_snake_case)]
pub mod fx;
pub mod analytic;
pub mod iso;
pub mod numerical;
pub mod payoffs;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
