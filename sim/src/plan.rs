//! Which simulations decide which property, and how many runs of each.
use crate::ctx::Run;
use crate::runner::Batch;
use crate::util::*;

pub struct Part { pub engine: &'static str, pub profile: &'static str, pub runs: u64, pub batch: u64 }

fn p(engine: &'static str, profile: &'static str, runs: u64) -> Part { Part { engine, profile, runs, batch: 8 } }

/// Quick amounts; thorough multiplies them.
pub fn parts(prop: &str) -> Vec<Part> {
    match prop {
        "C01" => vec![p("world", "net", 3000), p("plain", "", 480), p("world", "interop", 600), p("world", "durable", 400), p("mac", "", 300)],
        "C02" => vec![p("world", "present", 2400), p("plain", "", 560), p("world", "net", 200), p("proof", "valid", 240), p("mac", "", 600)],
        "C03" => vec![p("world", "roster", 2400), p("plain", "", 160), p("world", "net", 200), p("proof", "equal", 240)],
        "C04" => vec![p("world", "issuance", 2800), p("plain", "", 560), p("world", "net", 200), p("proof", "issuance", 240)],
        "C05" => vec![p("world", "aborts", 3600), p("plain", "", 800)],
        "C06" => vec![p("restore", "", 1600), p("world", "durable", 1600)],
        "C07" => vec![p("bytes", "", 6000), p("plain", "", 160), p("capi", "", 1200), p("world", "durable", 400)],
        "C08" => vec![p("link", "", 1600)],
        "C09" => vec![p("blind", "", 800)],
        "C10" => vec![p("capi", "", 3600), p("conc", "", 1200)],
        "C11" => vec![p("compat", "", 1600), p("world", "interop", 1600), p("proof", "all", 160)],
        "C12" => vec![p("setup", "", 5000), p("mac", "", 80)],
        "C13" => vec![p("conc", "", 3600)],
        "C14" => vec![p("numbers", "", 4000), p("world", "similar", 1600)],
        "C15" => vec![p("proof", "blind", 700)],
        "C16" => vec![p("erase", "", 3000)],
        "C18" => vec![p("hold", "", 2400)],
        _ => vec![],
    }
}

pub const PROPS: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18"];

pub struct Plan { prop: String, parts: Vec<Part>, seed: u64, thorough: bool, next: Vec<u64>, index: usize }

impl Plan {
    pub fn new(prop: &str, seed: u64, thorough: bool, factor: u64) -> Plan {
        let mut parts = parts(prop);
        for x in parts.iter_mut() { x.runs *= factor; }
        let n = parts.len();
        Plan { prop: prop.into(), parts, seed, thorough, next: vec![0; n], index: 0 }
    }
    pub fn total(&self) -> u64 { self.parts.iter().map(|p| p.runs).sum() }
}

impl Iterator for Plan {
    type Item = Batch;
    /// Batches of all parts, interleaved in proportion.
    fn next(&mut self) -> Option<Batch> {
        let k = (0..self.parts.len()).filter(|k| self.next[*k] < self.parts[*k].runs)
            .min_by_key(|k| (self.next[*k] * 1_000_000 / self.parts[*k].runs, *k))?;
        let part = &self.parts[k];
        let (lo, hi) = (self.next[k], (self.next[k] + part.batch).min(part.runs));
        self.next[k] = hi;
        let runs: Vec<Run> = (lo..hi).map(|i| {
            let s = mixes(&[self.seed, hash_bytes(self.prop.as_bytes()), hash_bytes(part.engine.as_bytes()), hash_bytes(part.profile.as_bytes()), i]);
            crate::engines::generate(part.engine, part.profile, s, self.thorough)
        }).collect();
        self.index += 1;
        Some(Batch { index: self.index - 1, runs })
    }
}
