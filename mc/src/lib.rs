#![allow(dead_code)]
pub mod big;
pub mod fp;
#[macro_use]
pub mod report;
pub mod rec;
pub mod gad;
pub mod bigsolve;
pub mod solve;
pub mod pair;
pub mod blake;
pub mod psd;
pub mod curve;
pub mod toy;
pub mod cat;
pub mod sol;
pub mod evm;
