#![feature(alloc_error_hook, thread_local)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions, static_mut_refs, dead_code)]
//! sim check <property> <tier> <seed> <verif dir>
//! sim replay <file>
//! sim batch <property> <seed> <batch>      (one batch, verbose)
mod arena;
mod codec;
mod driver;
mod engine;
mod exec;
mod gen;
mod plan;
mod rng;
mod sched;
mod shared;
mod sys;

#[global_allocator]
static ALLOC: arena::SimAlloc = arena::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    sys::remember_args(a.len());
    sys::read_literals();
    shared::map();
    arena::reserve();
    sys::reserve_stacks();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match s.get(1..) {
        Some(["check", prop, tier, seed, dir]) => driver::check(prop, tier, seed.parse().unwrap_or(1), dir),
        Some(["replay", file]) => driver::replay(file),
        Some(["batch", prop, seed, batch]) => driver::show(prop, seed.parse().unwrap(), batch.parse().unwrap()),
        _ => {
            eprintln!("usage: sim check|replay|batch ...");
            2
        }
    };
    std::process::exit(code);
}
