//! Simulated deployments of surfrs: publishers, a faulty network, clients and their storage.
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c14;
mod c15;
mod c16;
mod c17;
mod c23;
mod c24;
mod c25;
mod c18;
mod c20;
mod common;
mod feeds;
mod fspec;
mod jdocs;
mod objs;
mod rec;
mod truth;

#[global_allocator]
static ALLOC: simkit::sched::SimAlloc = simkit::sched::SimAlloc;

fn main() {
    simkit::harness::main_with(&[&c01::C01, &c02::C02, &c03::C03, &c04::C04, &c05::C05, &c06::C06, &c07::C07, &c08::C08, &c09::C09, &c10::C10, &c11::C11, &c14::C14, &c15::C15, &c16::C16, &c17::C17, &c18::C18, &c23::C23, &c24::C24, &c25::C25, &c20::C20]);
}
