//! One generated case: its choices, what was checked, and the first failure.

use crate::tape::Tape;
use std::collections::BTreeMap;

pub struct Case {
    pub t: Tape,
    pub prop: &'static str,
    pub fail: Option<String>,
    pub foreign: Vec<String>,
    pub log: Vec<String>,
    pub verbose: bool,
    /// oracle evaluations that count for this property
    pub checks: u64,
    /// interesting situations met (what makes a case non-trivial)
    pub hits: BTreeMap<String, u64>,
}

impl Case {
    pub fn new(t: Tape, prop: &'static str) -> Self {
        Case { t, prop, fail: None, foreign: vec![], log: vec![], verbose: false, checks: 0, hits: BTreeMap::new() }
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
    pub fn mine(&self, tags: &[&str]) -> bool {
        // compatibility with released versions, unsolicited transfers: everything must go as it should
        self.prop == "C25" || self.prop == "C26" || tags.iter().any(|t| *t == self.prop)
    }
    /// an oracle check belonging to the properties in `tags`
    pub fn ck(&mut self, ok: bool, tags: &[&str], msg: impl FnOnce() -> String) -> bool {
        if self.mine(tags) {
            self.checks += 1;
            if !ok && self.fail.is_none() {
                let m = msg();
                self.log.push(format!("!! {m}"));
                self.fail = Some(m);
            }
        } else if !ok && self.foreign.len() < 3 {
            self.foreign.push(format!("{tags:?} {}", msg()));
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T, tags: &[&str]) -> bool {
        let ok = got == want;
        self.ck(ok, tags, || format!("{what}: got {got:?}, expected {want:?}"))
    }
    pub fn hit(&mut self, what: &str) {
        *self.hits.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if self.log.len() < 400 {
            self.log.push(s());
        }
    }
}
