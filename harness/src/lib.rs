#![allow(static_mut_refs)]
extern crate alloc;
mod bitcoin;
mod codec;
mod entries;
mod mock;
mod run;
mod serial;
mod sym;
