//! What a run reports.

use std::collections::{BTreeMap, BTreeSet, HashMap};

use serde::{Deserialize, Serialize};

#[derive(Debug, Clone)]
pub struct Violation {
    /// All properties that are broken by it.
    pub props: Vec<&'static str>,
    /// A short class, the same for all instances.
    pub kind: String,
    pub detail: String,
}

#[derive(Debug, Default)]
pub struct RunStats {
    pub counts: BTreeMap<String, u64>,
    /// Distinct local situations met.
    pub situations: BTreeSet<u64>,
    pub verdicts: HashMap<(u16, usize), bool>,
    pub steps: u64,
    /// Hash of the whole interleaving.
    pub fingerprint: u64,
    /// Simulated time, in microseconds.
    pub sim_us: u64,
}

impl RunStats {
    pub fn add(&mut self, key: &str, n: u64) {
        match self.counts.get_mut(key) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(key.into(), n);
            }
        }
    }
    pub fn situation(&mut self, h: u64) {
        self.situations.insert(h);
    }
    pub fn get(&self, key: &str) -> u64 {
        self.counts.get(key).copied().unwrap_or(0)
    }
}

/// The result of one simulated run.
#[derive(Debug, Default)]
pub struct RunOut {
    pub stats: RunStats,
    pub violations: Vec<Violation>,
    pub choices: Vec<u32>,
    pub trace: Vec<String>,
    /// A line describing the run.
    pub label: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub choices: Vec<u32>,
    pub kind: String,
    pub detail: String,
    pub fingerprint: u64,
    pub trace: Vec<String>,
}
