#![allow(dead_code)]
mod ctx;
mod hostile;
mod io;
mod net;
mod past;
mod twin;
mod model;
mod refmath;
mod rt;
mod rng;
mod runner;
mod scenarios;
mod selftest;
mod tape;

#[global_allocator]
static ALLOC: rt::Alloc = rt::Alloc;

fn main() {
    runner::main();
}
