//! What a run observed: feature histogram and distinct-case fingerprints.

use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Hist {
    pub map: HashMap<(&'static str, u64), u64>,
}

impl Hist {
    pub fn hit(&mut self, name: &'static str, value: u64) {
        *self.map.entry((name, value)).or_insert(0) += 1;
    }

    pub fn add(&mut self, name: &'static str, value: u64, n: u64) {
        *self.map.entry((name, value)).or_insert(0) += n;
    }

    pub fn merge(&mut self, other: Hist) {
        for (k, v) in other.map {
            *self.map.entry(k).or_insert(0) += v;
        }
    }

    pub fn distinct(&self, name: &str) -> u64 {
        self.map.keys().filter(|k| k.0 == name).count() as u64
    }

    pub fn sorted(&self) -> BTreeMap<&'static str, BTreeMap<u64, u64>> {
        let mut out: BTreeMap<&'static str, BTreeMap<u64, u64>> = BTreeMap::new();
        for (&(n, v), &c) in &self.map {
            out.entry(n).or_default().insert(v, c);
        }
        out
    }
}

#[derive(Default)]
pub struct Stats {
    pub hist: Hist,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

pub const DISTINCT_CAP: usize = 4_000_000;

impl Stats {
    pub fn merge(&mut self, other: Stats) {
        self.hist.merge(other.hist);
        self.evals += other.evals;
        for f in other.distinct {
            if self.distinct.len() >= DISTINCT_CAP {
                break;
            }
            self.distinct.insert(f);
        }
        self.samples.extend(other.samples);
    }
}
