//! What functions of /repo have to compute, written a second time from the standards they implement
//! (yellow paper, EIP-55/155/658/2718/2930/1559, Overlord) and the repository's documentation.
//! ax/equiv.py compares each with the function of /repo it describes, on every path and for all inputs,
//! by their value-flow summaries. Nothing here is ever executed.
#![allow(dead_code, unused_imports, clippy::all)]
pub mod block;
pub mod ckb;
pub mod config;
pub mod helpers;
pub mod layout;
pub mod logger;
pub mod merkle;
pub mod misc;
pub mod prim;
pub mod rpc;
pub mod tools;
pub mod tx;
