//! State of one simulated run: choices, trace, verdict, counters.

use std::collections::{BTreeMap, HashSet};

use crate::src::{fnv, mix, Src};
use crate::types::Registry;

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    /// Stable name of what went wrong; minimisation preserves it.
    pub class: String,
    pub text: String,
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub digests: HashSet<u64>,
    pub sim_us: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(k) {
            *c += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
}

pub struct Ctx<'a> {
    pub prop: &'static str,
    pub thorough: bool,
    pub src: Src,
    pub reg: &'a Registry,
    pub stats: &'a mut Stats,
    pub trace: Option<Vec<String>>,
    pub fail: Option<Violation>,
    /// Digest of the run's event history, for the determinism self-test.
    pub hist: u64,
    pub lines: usize,
}

impl<'a> Ctx<'a> {
    pub fn count(&mut self, k: &str) {
        self.stats.add(k, 1);
    }
    /// An oracle judged one library call.
    pub fn judged(&mut self) {
        self.stats.add("judged", 1);
    }
    /// Record an event; the text is only built when a trace is wanted.
    pub fn ev(&mut self, tag: &str, a: u64, b: u64, text: impl FnOnce() -> String) {
        self.hist = mix(self.hist, mix(fnv(tag.as_bytes()), mix(a, b)));
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let s = text();
                t.push(s);
            }
        }
    }
    /// Remember a distinct, non-trivial case.
    pub fn case(&mut self, a: u64, b: u64) {
        let d = mix(a, b);
        self.stats.digests.insert(d);
    }
    pub fn violate(&mut self, props: &[&'static str], class: &str, text: impl FnOnce() -> String) {
        if self.fail.is_some() {
            return;
        }
        // The macro world judges hand-written codecs by what the records mean.
        let macros = self.prop == "C12" && ["C02", "C04", "C09", "C11"].iter().any(|p| props.contains(p));
        if props.contains(&self.prop) || macros {
            let text = text();
            if let Some(t) = &mut self.trace {
                t.push(format!("VIOLATED {} [{}] {}", self.prop, class, text));
            }
            self.fail = Some(Violation { prop: self.prop, class: class.to_string(), text });
        } else {
            self.stats.add("other-property-mismatch", 1);
        }
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
