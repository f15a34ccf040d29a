#![allow(non_snake_case)]
pub mod curves;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
