#[macro_use]
mod vx;
mod gen;
include!("mods.rs");
