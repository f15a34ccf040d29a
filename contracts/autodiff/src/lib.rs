#![allow(non_snake_case)]
pub mod tape;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
