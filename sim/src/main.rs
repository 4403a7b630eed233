#![recursion_limit = "512"]
#![feature(thread_local, integer_atomics, global_asm, const_vec_new)]
//! Deterministic simulation of the anonymous credential system: see ../DESIGN.md.
mod baton;
mod ctx;
mod engines;
mod entropy;
mod golden;
mod guard;
mod heap;
mod lab;
mod make;
mod plan;
mod prove;
mod refimpl;
mod runner;
mod step;
mod surface;
mod util;

use runner::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[global_allocator]
static ALLOC: heap::SimAlloc = heap::SimAlloc;

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

fn main() {
    guard::install();
    entropy::install();
    step::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.iter().map(|s| &s[..]).collect::<Vec<_>>()[..] {
        ["check", id, tier, seed] => check(id, tier == "thorough", seed.parse().unwrap_or(1)),
        ["replay", file] => replay_file(file),
        ["runs", engine, profile, n] => runs(engine, profile, n.parse().unwrap()),
        ["one", engine, profile, seed] => one(engine, profile, seed.parse().unwrap()),
        ["digest", id, seed, jobs, factor] => {
            let s = run_batches(plan::Plan::new(id, seed.parse().unwrap(), false, factor.parse().unwrap()), id, &[], false, 3000, jobs.parse().unwrap());
            println!("{:016x} {} runs", s.digest, s.runs);
            0
        }
        _ => { eprintln!("usage: sim check <id> quick|thorough <seed> | replay <file>"); 2 }
    };
    unsafe { libc::_exit(code) }
}

/// Development: run some and show every anomaly.
fn runs(engine: &str, profile: &str, n: u64) -> i32 {
    let t0 = Instant::now();
    let rs: Vec<_> = (0..n).map(|i| engines::generate(engine, profile, util::mixes(&[7, i]), false)).collect();
    let mut kinds: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    let mut counts: std::collections::BTreeMap<String, u64> = Default::default();
    for (i, r) in run_fresh(&rs, false, false, 120) {
        for a in r.anomalies { kinds.entry(format!("{:?} {}", a.props, a.kind)).or_insert((0, i as u64, a.detail)).0 += 1; }
        for (k, v) in r.counts { *counts.entry(k).or_insert(0) += v; }
    }
    for (k, v) in &counts { println!("{:8} {}", v, k); }
    for (k, (c, i, d)) in &kinds { println!("ANOMALY {} x{} (first in {}): {}", k, c, i, d); }
    println!("{} runs in {:.2} s", n, util::secs(t0.elapsed()));
    0
}
fn one(engine: &str, profile: &str, i: u64) -> i32 {
    let r = engines::generate(engine, profile, util::mixes(&[7, i]), false);
    for (_, rep) in run_fresh(&[r], true, false, 120) {
        for l in rep.log { println!("{}", l); }
        for a in rep.anomalies { println!("{:?}", a); }
    }
    0
}

fn replay_file(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => { eprintln!("cannot read {}", file); return 2; }
    };
    let (hit, log) = replay(&r);
    for l in &log { println!("{}", l); }
    match hit {
        Some(a) => { println!("VIOLATION property={} replay={}\n  {}: {}", r.property, file, a.kind, a.detail); 1 }
        None => { println!("not reproduced"); 0 }
    }
}

fn check(id: &str, thorough: bool, seed: u64) -> i32 {
    let t0 = Instant::now();
    if !plan::PROPS.contains(&id) { eprintln!("no property {}", id); return 2; }
    let root = root();
    let known = known(&root.join("known-findings.txt"));
    let factor = if thorough { std::env::var("SIM_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(40) } else { 1 };
    let cap = if thorough { 720 } else { 420 };
    println!("{}: seed {}, {}", id, seed, if thorough { "thorough" } else { "quick" });
    let p = plan::Plan::new(id, seed, thorough, factor);
    let planned = p.total();
    let s = run_batches(p, id, &known, thorough, cap, jobs());
    let searching = util::secs(t0.elapsed());
    println!("{} of {} runs, {} distinct histories, {} distinct states, {:.1} s", s.runs, planned, s.traces.len(), s.states.len(), searching);

    // The same seeds again, at another worker count: the histories must be the same.
    let (a, b) = if s.failures.is_empty() {
        let few = |jobs| {
            let p = plan::Plan::new(id, seed, thorough, 1).take(8);
            run_batches(p, "none", &[], thorough, 120, jobs).digest
        };
        (few(1), few(jobs().max(2)))
    } else { (0, 0) };
    if a != b { println!("note: the same seeds gave different histories"); }

    for k in known.iter().filter(|k| k.property == id) {
        if s.known.contains_key(&k.kind) { println!("KNOWN-FINDING: property={} {}", id, k.what); }
    }

    let mut result = 0;
    let mut violations = 0;
    let real: Vec<&Failure> = s.failures.iter().filter(|f| f.anomaly.props.iter().any(|p| p == id)).collect();
    if let Some(f) = real.first() {
        violations = real.len();
        let min = minimise(f, id, thorough);
        let exact = min.is_some();
        let runs = min.unwrap_or_else(|| f.runs.clone());
        let mut r = Replay { property: id.into(), kind: f.anomaly.kind.clone(), detail: f.anomaly.detail.clone(), thorough, runs, history: vec![] };
        let (hit, log) = replay(&r);
        r.history = log;
        if let Some(a) = &hit { r.detail = a.detail.clone(); }
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{:016x}.json", id, f.anomaly.kind, f.runs.last().unwrap().seed));
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap());
        if !exact && f.anomaly.kind.starts_with("process-hung") {
            println!("a run did not finish in time, but does when repeated: inconclusive");
            result = 2;
        } else {
            if !exact { println!("note: the minimiser could not repeat this failure; the replay file holds the whole batch"); }
            println!("{}: {}", f.anomaly.kind, r.detail);
            println!("minimised to {} steps", r.runs.iter().map(|r| r.steps.len()).sum::<usize>());
            println!("VIOLATION property={} replay={}", id, path.display());
            result = 1;
        }
    } else if let Some(f) = s.failures.first() {
        println!("harness error: {:?}", f.anomaly);
        result = 2;
    } else if s.runs == 0 || s.nontrivial.is_empty() {
        println!("nothing was explored");
        result = 2;
    }

    let samples: Vec<_> = plan::Plan::new(id, seed, thorough, 1).take(3).map(|mut b| { let mut r = b.runs.remove(0); r.steps.truncate(12); serde_json::to_value(r).unwrap() }).collect();
    let sel = |pre: &str| -> serde_json::Value { s.counts.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), json!(v))).collect::<serde_json::Map<_, _>>().into() };
    let ev = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": "A case is one simulated run: a schedule of steps generated from the seed and executed against the real code. It is non-trivial if library operations were executed and at least one fault, attack or boundary case was injected; two are distinct if their recorded histories (operations, parties, results) hash differently.",
            "samples": samples,
            "runs_per_engine": s.per_engine,
            "operations": s.counts.get("ops").cloned().unwrap_or(0),
            "faults_injected": sel("fault."), "attacks": sel("attack."), "cases": sel("case."), "events": sel("event."),
            "distinct_histories": s.traces.len(), "distinct_states": s.states.len(),
            "state_measure": "hash of the abstract state after each step (who holds a credential, messages in flight, saved state current or stale, partition, interface of each node), or of the kind of case for engines made of independent cases",
            "simulated_time_s": s.sim_ms as f64 / 1000.0,
            "runs_and_seeds_per_hour": (s.runs as f64 * 3600.0 / searching.max(0.001)) as u64,

            "stopped_by_time_limit": s.capped,
            "known_findings_seen": s.known,
            "determinism": { "rerun_batches": 8, "worker_counts": [1, jobs().max(2)], "identical": a == b },
            "real_components": ["aeonflux", "signal-credential", "ffi/src/c.rs (compiled as a Rust library)", "wasm/src/js.rs (compiled for the host)", "curve25519-dalek", "merlin", "serde, bincode, serde_json"],
            "stubbed_components": ["rand (thread_rng/OsRng deliver the simulator's entropy)", "wasm-bindgen (JsValue is a JSON text)", "network, disks, clocks (simulated)", "malloc and the Rust allocator (wrapped)", "thread scheduling (decided by the simulator)"],
        },
        "assumptions": ["The curve, hash and serialisation crates behave as specified.", "Found nothing on the explored runs is evidence, not proof."],
        "wall_s": util::secs(t0.elapsed()),
        "violations": violations,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_vec_pretty(&ev).unwrap()).is_err() { result = result.max(2); }
    println!("{}: {} in {:.1} s", id, match result { 0 => "held on everything explored", 1 => "violated", _ => "inconclusive" }, util::secs(t0.elapsed()));
    result
}
