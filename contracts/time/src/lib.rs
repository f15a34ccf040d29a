#![allow(non_snake_case)]
pub mod daycount;
pub mod easter;
pub mod holidays;
pub mod roll;
pub mod long;
pub mod util;
include!(concat!(env!("OUT_DIR"), "/registry.rs"));
