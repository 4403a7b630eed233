//! What a simulated run records.
use crate::util::{hash_bytes, mix};
use serde_derive::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// One step of a schedule: self-contained, so that any subset of steps is again a schedule.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step { pub op: String, pub a: u64, pub b: u64, pub c: u64, pub seed: u64 }

impl Step {
    pub fn new(op: &str, a: u64, b: u64, c: u64, seed: u64) -> Step { Step { op: op.into(), a, b, c, seed } }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Run { pub engine: String, pub profile: String, pub seed: u64, pub steps: Vec<Step> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Anomaly { pub props: Vec<String>, pub kind: String, pub step: usize, pub detail: String }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub anomalies: Vec<Anomaly>,
    pub counts: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub trace: u64,
    pub sim_ms: u64,
    pub log: Vec<String>,
}

pub struct Ctx {
    pub report: Report,
    pub step: usize,
    pub verbose: bool,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(verbose: bool, thorough: bool) -> Ctx { Ctx { report: Report::default(), step: 0, verbose, thorough } }

    /// A property is violated here. `kind` is a stable class, used to follow it through minimisation.
    pub fn bad(&mut self, props: &[&str], kind: &str, detail: String) {
        if self.verbose { self.report.log.push(format!("  !! {:?} {}: {}", props, kind, detail)); }
        self.report.trace = mix(self.report.trace ^ hash_bytes(kind.as_bytes()));
        if self.report.anomalies.len() < 20 {
            self.report.anomalies.push(Anomaly {
                props: props.iter().map(|s| s.to_string()).collect(), kind: kind.into(), step: self.step, detail,
            });
        }
    }
    pub fn count(&mut self, k: &str) { self.add(k, 1) }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.report.counts.get_mut(k) { *x += n; return; }
        self.report.counts.insert(k.into(), n);
    }
    /// An event of the history: hashed always, spelt out when replaying.
    pub fn ev<F: FnOnce() -> String>(&mut self, h: &[u64], f: F) {
        for x in h { self.report.trace = mix(self.report.trace ^ *x); }
        if self.verbose { let s = f(); self.report.log.push(format!("{:3} {}", self.step, s)); }
    }
    pub fn state(&mut self, h: u64) { self.report.states.push(h); }
    pub fn op(&mut self) { self.count("ops") }
}
