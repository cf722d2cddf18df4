//! flatsim: deterministic simulation of programs that use flatdata, with fault injection.

#[macro_use]
extern crate flatdata;

mod alloc;
mod check;
mod driver;
mod exec;
mod hooks;
mod model;
mod plan;
mod props;
mod rng;
mod schemas;
mod vfs;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    hooks::link_me();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| &s[..]) {
        Some("check") => driver::check(&a[2..]),
        Some("worker") => driver::worker(&a[2..]),
        Some("exec") => driver::exec_file(&a[2]),
        Some("replay") => driver::replay(&a[2]),
        Some("gen") => driver::gen(&a[2..]),
        _ => {
            eprintln!("flatsim check PROP [quick|thorough] | replay FILE | gen PROP SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
