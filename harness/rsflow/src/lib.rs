#![allow(warnings)]
#[macro_use]
mod sym;
#[path = "p/mod.rs"]
mod p;
#[path = "c/mod.rs"]
mod c;
mod world;
mod entry;
