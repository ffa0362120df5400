//! The part of the simulator that every callback and every allocation goes through. A crate of its own so that it can be
//! optimised while the rest, which is large and mostly waits for this, is not.
#![feature(alloc_error_hook)]
#![allow(clippy::all)]
pub mod alloc;
pub mod step;
pub mod types;
pub mod world;
