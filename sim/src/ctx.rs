//! What one simulated run carries: its choices, its event log (as hashes, and as text when
//! replayed), its statistics and the first violation found.
use crate::choices::Choices;
use std::collections::BTreeMap;

pub struct Viol {
    pub kind: String,
    pub detail: String,
    pub step: u64,
}

pub struct Ctx {
    pub ch: Choices,
    pub prop: &'static str,
    pub known: Vec<String>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub viol: Option<Viol>,
    /// hash of everything that happened, bytes included (determinism check)
    pub full: u64,
    /// hash of the event sequence without payload bytes (what counts as a distinct run)
    pub shape: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    /// simulated milliseconds covered
    pub sim_ms: u64,
    /// number of property checks evaluated
    pub checks: u64,
    pub nontrivial: bool,
    pub verbose: bool,
    pub text: Vec<String>,
}

#[inline]
fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 160 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..160]), b.len())
    }
}

impl Ctx {
    pub fn new(prop: &'static str, ch: Choices, known: Vec<String>, verbose: bool) -> Self {
        Ctx {
            ch,
            prop,
            known,
            known_hits: BTreeMap::new(),
            viol: None,
            full: 1,
            shape: 1,
            steps: 0,
            faults: BTreeMap::new(),
            counts: BTreeMap::new(),
            sim_ms: 0,
            checks: 0,
            nontrivial: false,
            verbose,
            text: Vec::new(),
        }
    }

    /// One event of the run.
    pub fn ev(&mut self, kind: &'static str, a: u64, b: u64, bytes: &[u8]) {
        self.steps += 1;
        self.shape = fnv(fnv(fnv(self.shape, kind.as_bytes()), &a.to_le_bytes()), &b.to_le_bytes());
        self.full = fnv(fnv(fnv(fnv(self.full, kind.as_bytes()), &a.to_le_bytes()), &b.to_le_bytes()), bytes);
        if self.verbose {
            self.text.push(format!("{:5} {:<26} a={} b={} {}", self.steps, kind, a, b, hexs(bytes)));
        }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.text.push(format!("      # {}", s));
        }
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
        self.shape = fnv(self.shape, kind.as_bytes());
        if self.verbose {
            self.text.push(format!("      ! fault {}", kind));
        }
    }

    pub fn faults_n(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind).or_insert(0) += n;
        }
    }

    pub fn count(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(kind).or_insert(0) += n;
        }
    }

    pub fn fail(&mut self, kind: &str, detail: impl FnOnce() -> String) {
        if self.known.iter().any(|k| k == kind) {
            let e = self.known_hits.entry(kind.to_string()).or_insert((0, String::new()));
            e.0 += 1;
            if e.0 == 1 {
                e.1 = detail();
            }
            return;
        }
        if self.viol.is_none() {
            let detail = detail();
            if self.verbose {
                self.text.push(format!("      VIOLATED {} {}", kind, detail));
            }
            self.viol = Some(Viol { kind: kind.to_string(), detail, step: self.steps });
        }
    }

    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(kind, detail);
        }
        ok
    }

    pub fn failed(&self) -> bool {
        self.viol.is_some()
    }
}
