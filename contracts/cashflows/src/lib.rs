#![allow(non_snake_case)]
pub mod flows;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
