#![allow(warnings)]
#[macro_use]
mod sym;
#[path = "gen.rs"]
mod proto;
mod model;
mod entry;
fn main() { entry::replay_main() }
