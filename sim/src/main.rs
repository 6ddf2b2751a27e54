#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
#[macro_use]
mod world;
mod driver;
mod io;
mod pgs;
mod props;
mod sched;
mod sys;
mod tape;
mod vob;

#[global_allocator]
static ALLOC: sys::SimAlloc = sys::SimAlloc;

fn main() {
    driver::main();
}
