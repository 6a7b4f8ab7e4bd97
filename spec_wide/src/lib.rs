//! What the crates that are type-checked with stubs/ have to compute. Never run.
#![allow(dead_code, unused_variables, clippy::all)]
pub mod abi;
pub mod api;
pub mod filters;
pub mod consensus;
pub mod db;
pub mod exec;
pub mod mempool;
pub mod node;
pub mod precompile;
pub mod served;
pub mod state;
pub mod storage;
pub mod system;
