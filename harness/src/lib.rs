//! Property-based verification of the tedium TDMS library. See /verif/DESIGN.md.
pub mod alloc;
pub mod engine;
pub mod ty;
pub mod disk;
pub mod model;
pub mod hist;
pub mod foreign;
pub mod parser;
pub mod props;

#[global_allocator]
static ALLOCATOR: alloc::Capped = alloc::Capped;
