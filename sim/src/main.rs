#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints, dead_code, static_mut_refs, unused)]
mod alloc;
#[macro_use]
mod types;
#[macro_use]
mod api;
mod base;
mod custom;
mod model;
mod os;
mod props;
mod props_conc;
mod props_file;
mod props_scripts;
mod props_own;
mod props_user;
mod registry;
mod runner;
mod sched;
mod step;
mod stream;

/// Values of every size.
pub const SMALL: bool = false;
#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;
fn main() {
    std::process::exit(runner::in_scratch(runner::main));
}
