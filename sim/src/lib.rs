#![allow(clippy::all)]
pub use fcbase::{alloc, ensure, types, world};

pub mod byz;
pub mod driver;
pub mod engine;
pub mod fx;
pub mod r#gen;
pub mod iters;
#[macro_use]
pub mod maps;
pub mod lowlevel;
pub mod oddvals;
pub mod plan;
pub mod run;
pub mod serde_sim;
pub mod sets;
pub mod threads;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub fn pin_randomness() {
    foldhash::sim::pin(true);
}
