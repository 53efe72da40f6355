//! Simulated deployments of the parts of surfrs behind the two git dependencies (see layout.py, stubs/).
#![allow(dead_code)]
mod c12;
mod c13;
mod c19;
mod c21;
mod c22;
mod obs;
#[path = "../../sim/src/common.rs"]
mod common;
#[path = "../../sim/src/feeds.rs"]
mod feeds;
#[path = "../../sim/src/rec.rs"]
mod rec;
#[path = "../../sim/src/truth.rs"]
mod truth;

#[global_allocator]
static ALLOC: simkit::sched::SimAlloc = simkit::sched::SimAlloc;

fn main() {
    simkit::harness::main_with(&[&c12::C12, &c13::C13, &c19::C19, &c21::C21, &c22::C22]);
}
