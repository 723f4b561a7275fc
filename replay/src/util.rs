//! Random numbers and the record of what was tried.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
}

pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub deep: bool,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<serde_json::Value>,
    pub only: Option<(String, String)>,
}

fn hash(s: &str) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Report {
    /// one case: `f` says what went wrong, a panic counts as going wrong
    pub fn case(&mut self, kind: &str, input: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some((k, i)) = &self.only {
            if k != kind || i != input {
                return;
            }
        }
        self.cases += 1;
        let new = self.distinct.insert(hash(&format!("{kind}|{input}")));
        if new && (self.samples.len() < 3 || (self.cases.is_power_of_two() && self.samples.len() < 12)) {
            self.samples.push(format!("{kind}: {}", &input.chars().take(300).collect::<String>()));
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!(
                "panic: {}",
                e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
        };
        if let Err(what) = r {
            if self.fails.len() < 5000 {
                self.fails.push(serde_json::json!({"property": self.prop, "kind": kind, "input": input, "what": what, "seed": self.seed}));
            }
        }
    }
}

pub fn eq(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
