//! Deterministic simulation of hudi-core readers against simulated writers on a simulated object
//! store. One seed is one execution.

pub mod config;
pub mod core;
pub mod driver;
pub mod gen;
pub mod interpose;
pub mod plan;
pub mod reader;
pub mod rng;
pub mod run;
pub mod store;
pub mod table;
pub mod types;
pub mod watch;
pub mod world;
pub mod writer;
