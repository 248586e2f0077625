//! Deterministic simulation of the callers of `langtag`, with fault injection.
// The build that counts steps (C12) has that world only.
#![cfg_attr(feature = "meter", allow(dead_code, unused_macros, unused_imports))]
mod age;
mod alloc;
mod ctx;
mod dict;
mod fine;
mod kinds;
#[cfg(feature = "meter")]
mod meter;
mod model;
mod queries;
mod rng;
mod sched;
mod seams;
#[cfg(not(feature = "meter"))]
#[path = "../../device/src/serve.rs"]
mod serve;
mod shrink;
mod supervise;
mod world;
mod worlds;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

/// Runs execute in a thread with less stack than the callers' threads have, so
/// that a depth that grows with the text does not go unnoticed.
fn shallow(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(1024 * 1024).spawn_scoped(s, f).expect("thread");
        t.join().unwrap_or(101)
    })
}

fn main() {
    world::quiet_panics();
    langtag::sim::set_hook(sched::hook);
    fine::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::process::exit(match &a[..] {
        ["run", prop] => supervise::run(prop),
        ["worker", rest @ ..] => shallow(|| supervise::worker(rest)),
        ["survey", rest @ ..] => supervise::survey(rest),
        ["exec", file] => shallow(|| supervise::exec(file, false)),
        ["replay", file] => shallow(|| supervise::exec(file, true)),
        ["plan", prop, seed, run] => supervise::plan(prop, seed, run),
        ["literals"] => {
            dict::harvest().iter().for_each(|l| println!("{l}"));
            0
        }
        ["list"] => {
            world::all().iter().for_each(|d| println!("{}", d.meta.id));
            0
        }
        _ => {
            eprintln!("usage: langtag-sim run <property> | replay <file> | plan <property> <seed> <run> | list");
            2
        }
    });
}
