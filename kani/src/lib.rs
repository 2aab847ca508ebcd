//! Contract harnesses.  Each one states the precondition of a public operation with `kani::assume`,
//! calls the real function of /repo on unconstrained inputs and asserts the postcondition; Kani
//! discharges every obligation (postcondition, absence of panics and overflow, memory safety,
//! complete unwinding) of every path.
//!
//! `//@ name | label | functions | contract` describes each harness to the runner.
#![cfg(kani)]
#![allow(clippy::all)]
#[macro_use]
mod util;

mod k02;


mod k05;

#[cfg(bytedata_verif)]
mod h09;
