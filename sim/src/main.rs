//! sim check PROP            run the batch of a property (VERIF_SEED, VERIF_TIER), report
//! sim replay FILE [-v]      run a replay file again: exit 1 if it fails the same way
//! sim trace PROP SEED IDX   one run, written out
//! sim digest PROP SEED N W CHUNK   event-log digest of N runs on W workers
//! sim worker ...            (internal) runs a piece of a batch
//! sim shrink ...            (internal) makes a failing run small
//! sim solo                  (internal) executes one connection alone
#![allow(unexpected_cfgs)]
mod alloc;
mod builds;
mod corpus;
mod cov;
mod elf;
mod engine;
mod gate;
mod gen;
mod giant;
mod model;
mod oracles;
mod props;
mod qos;
mod refcodec;
mod runner;
mod script;
mod shrink;
mod src;

#[global_allocator]
static SEAM: alloc::Seam = alloc::Seam;

fn main() {
    builds::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a[i].parse().expect("number") };
    let code = match a.get(1).map(String::as_str) {
        Some("check") => runner::check(&a[2]),
        Some("worker") => runner::worker(&a[2], n(3), n(4), n(5), &a[6]),
        Some("replay") => runner::replay(&a[2], a.get(3).is_some()),
        Some("trace") => runner::trace(&a[2], n(3), n(4)),
        Some("shrink") => shrink::main(&a[2], &a[3]),
        Some("digest") => runner::digest(&a[2], n(3), n(4), n(5) as usize, n(6)),
        Some("solo") => {
            script::solo_main();
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|trace|digest ...");
            2
        }
    };
    std::process::exit(code);
}
