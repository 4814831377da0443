//! What one simulated run reports.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
    pub step: usize,
}

#[derive(Serialize, Deserialize, Clone, Default, Debug)]
pub struct Rep {
    pub viol: Option<Viol>,
    /// known findings reproduced by this run: key -> description
    pub known: BTreeMap<String, String>,
    pub counts: BTreeMap<String, u64>,
    /// operations executed
    pub ops: u64,
    /// injected faults that actually fired
    pub fired: u64,
    /// abstract history: kinds of operations, outcomes, fault positions, schedule
    pub sig: u64,
    /// everything observed
    pub trace: u64,
    pub sim_nanos: u64,
    /// replaces the scenario in the replay file (explicit schedules)
    pub pinned: Option<serde_json::Value>,
}

/// FNV-1a with a final mix; stable across processes and builds.
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        simrt::rng::mix(self.0, 0)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
pub fn fold(acc: u64, x: impl Hash) -> u64 {
    let mut h = Fnv(acc ^ 0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

impl Rep {
    /// First violation wins. Returns true if the run is over.
    pub fn fail(&mut self, step: usize, class: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.to_string(), msg, step });
        }
    }
    pub fn over(&self) -> bool {
        self.viol.is_some()
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.fired += 1;
        self.count(&format!("fault:{k}"));
    }
    pub fn known(&mut self, key: &str, what: String) {
        // only findings listed in known_findings.txt are no violations
        static LISTED: std::sync::OnceLock<Option<Vec<String>>> = std::sync::OnceLock::new();
        let l = LISTED.get_or_init(|| std::env::var("SIM_KNOWN").ok().map(|s| s.split(',').map(String::from).collect()));
        if l.as_ref().map_or(false, |l| !l.iter().any(|k| k == key)) {
            self.fail(0, &format!("unlisted-{key}"), what);
            return;
        }
        self.known.entry(key.to_string()).or_insert(what);
    }
    pub fn sig(&mut self, x: impl Hash) {
        self.sig = fold(self.sig, x);
    }
    pub fn see(&mut self, x: impl Hash) {
        self.trace = fold(self.trace, x);
    }
}
