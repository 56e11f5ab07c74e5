//! Obligations with loop invariants, for any number of iterations: decided on
//! the copy of /repo made by tools/extract_loops.py. See /verif/DESIGN.md.
#![allow(clippy::all, dead_code, unused_imports, unused_macros, static_mut_refs)]
extern crate alloc;

#[macro_use]
#[path = "../../contracts/src/nd.rs"]
pub mod nd;
#[path = "../../contracts/src/spec.rs"]
pub mod spec;
#[path = "../../contracts/src/store.rs"]
pub mod store;

#[cfg(all(kani, feature = "c04"))]
pub mod l04;
#[cfg(all(kani, feature = "c07"))]
pub mod l07;
