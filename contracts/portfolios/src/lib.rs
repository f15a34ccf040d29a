#![allow(non_snake_case)]
pub mod positions;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
