//! Exploration engine, format registry and value lattices shared by the property checkers.

pub mod dd;
pub mod engine;
pub mod fmts;
pub mod host;
pub mod lattice;
pub mod space;

pub use dd::*;
pub use engine::*;
pub use fmts::*;
pub use lattice::*;
pub use space::*;
pub use model::{blen, int_of, mask, text, Fmt, Rm, DIVZERO, INEXACT, INVALID, OVERFLOW, RMS, UNDERFLOW, V};
pub use std::sync::Arc;
