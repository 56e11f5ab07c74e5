//! Native driver: executes contracts with seeded inputs and replays
//! counterexamples of the verifier against the real code.
//!
//!   contracts list
//!   contracts run PROP SEED MILLIS          -> one JSON line per obligation
//!   contracts search NAME SEED MILLIS       -> same, a single obligation
//!   contracts replay NAME HEX,HEX,...       -> exit 1 when the obligation fails
#![cfg_attr(kani, allow(unused))]
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
include!("driver.rs");
