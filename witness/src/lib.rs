//! Most-general clients of fixed-map, analysed (never run) by fmlint.
#![allow(dead_code, clippy::all)]
pub mod fm;
pub mod h;
#[macro_use]
mod iters;
#[macro_use]
mod lists;
pub mod models;
pub mod ob;
#[cfg(feature = "ser")]
pub mod ser;
pub mod shapes;
/// Changes on every run, so that the analysis is never skipped as up to date.
pub const NONCE: Option<&str> = option_env!("FM_NONCE");
