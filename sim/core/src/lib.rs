#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs)]
//! The simulated environment and the adaptors around the real trees.
//! Families of trees are instantiated in their own crates, so that they compile in parallel.
pub mod rng;
pub mod env;
pub mod alloc;
pub mod val;
pub mod res;
pub mod view;
pub mod cont;
pub mod node;
pub mod fams;
pub mod bits;
pub use hibit_tree;
