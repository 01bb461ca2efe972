//! Client programs of the library, written for abstract interpretation by `gifsa`. They are never
//! run: `rt` holds intrinsics of the analyzer, and every `h_*` function is an entry point that the
//! analyzer interprets abstractly from the MIR of the library's current source.
#![allow(dead_code)]
pub mod rt;
pub mod ghost;
pub mod decode;
pub mod tables;
pub mod encode;
pub mod mon;
