//! Bounded exhaustive exploration of the real `graph_safe_compare` code.
#![allow(clippy::all)]
pub mod alloc;
pub mod choice;
pub mod classes;
pub mod drive;
pub mod graph;
pub mod modes;
pub mod monitored;
pub mod node;
pub mod pump;
pub mod refm;
pub mod runner;
pub mod tables;
pub mod util;
pub mod variants;
