//! The simulation engines.
use crate::ctx::*;
use crate::util::Prng;

pub mod blind;
pub mod bytes;
pub mod capi;
pub mod compat;
pub mod setup;
pub mod numbers;
pub mod conc;
pub mod erase;
pub mod hold;
pub mod link;
pub mod mac;
pub mod plain;
pub mod proof;
pub mod restore;
pub mod world;

/// A generator for engines whose runs are independent cases on a shared lab.
pub fn cases(ops: &[(&str, u64)], n: usize, seed: u64) -> Vec<Step> {
    let mut r = Prng::new(seed);
    // Mostly of the usual length; some short, and some much longer, for what only shows after many operations.
    let n = match r.below(100) { 0..=3 => n * 5, 4..=29 => n / 3 + 1, _ => n };
    let ws: Vec<u64> = ops.iter().map(|(_, w)| 1 + w * r.range(40, 160) / 10).collect();
    (0..n).map(|_| {
        let o = ops[r.weighted(&ws)].0;
        Step::new(o, r.below(64), r.below(64), r.below(256), r.u64())
    }).collect()
}

pub fn generate(engine: &str, profile: &str, seed: u64, thorough: bool) -> Run {
    let steps = match engine {
        "world" => world::generate(profile, seed, thorough),
        "restore" => restore::generate(seed, thorough),
        "proof" => proof::generate(profile, seed, thorough),
        "bytes" => bytes::generate(seed, thorough),
        "compat" => compat::generate(seed, thorough),
        "setup" => setup::generate(seed, thorough),
        "numbers" => numbers::generate(seed, thorough),
        "mac" => mac::generate(seed, thorough),
        "plain" => plain::generate(seed, thorough),
        "erase" => erase::generate(seed, thorough),
        "hold" => hold::generate(seed, thorough),
        "conc" => conc::generate(seed, thorough),
        "capi" => capi::generate(seed, thorough),
        "blind" => blind::generate(seed, thorough),
        "link" => link::generate(seed, thorough),
        _ => panic!("no engine {}", engine),
    };
    Run { engine: engine.into(), profile: profile.into(), seed, steps }
}

pub fn execute(run: &Run, ctx: &mut Ctx) {
    match &run.engine[..] {
        "world" => world::execute(run, ctx),
        "restore" => restore::execute(run, ctx),
        "proof" => proof::execute(run, ctx),
        "bytes" => bytes::execute(run, ctx),
        "compat" => compat::execute(run, ctx),
        "setup" => setup::execute(run, ctx),
        "numbers" => numbers::execute(run, ctx),
        "mac" => mac::execute(run, ctx),
        "plain" => plain::execute(run, ctx),
        "erase" => erase::execute(run, ctx),
        "hold" => hold::execute(run, ctx),
        "conc" => conc::execute(run, ctx),
        "capi" => capi::execute(run, ctx),
        "blind" => blind::execute(run, ctx),
        "link" => link::execute(run, ctx),
        _ => panic!("no engine {}", run.engine),
    }
}

/// What it means when the process of a run dies (by a signal, an exit, or hanging).
pub fn death_props(engine: &str, profile: &str, how: &str) -> Vec<&'static str> {
    let hang = how.starts_with("hung") || how.starts_with("deadlocked");
    match engine {
        "world" => match profile {
            "net" => vec!["C01", "C07"],
            "durable" => vec!["C06", "C07"],
            "aborts" => vec!["C05", "C07"],
            "interop" => vec!["C11", "C07"],
            "similar" => vec!["C14", "C07"],
            _ => vec!["C07"],
        },
        "restore" => vec!["C06", "C07"],
        "conc" => vec!["C13"],
        "capi" => vec!["C10", "C07"],
        "setup" => vec!["C12"],
        "compat" => vec!["C11", "C07"],
        "numbers" => vec!["C14", "C07"],
        "hold" => if hang { vec![] } else { vec!["C18"] },
        "erase" => if hang { vec![] } else { vec!["C16"] },
        _ => vec!["C07"],
    }
}
