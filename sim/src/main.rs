//! Deterministic simulation of lcms2. See /verif/DESIGN.md.
#![allow(unexpected_cfgs, deprecated, unknown_lints, invalid_runtime_symbol_definitions)]
mod choice;
mod disk;
mod driver;
mod engine;
mod os;
mod props;
mod refdec;
mod shared;
#[macro_use]
mod sim;

fn main() {
    driver::main();
}
