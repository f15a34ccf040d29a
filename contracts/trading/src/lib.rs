#![allow(non_snake_case)]
pub mod book;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
