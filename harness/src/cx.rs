//! Bookkeeping of a run: what was observed, and the first violation.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `Err`: the property is violated, and how
pub type Case = Result<(), String>;

#[derive(Default)]
pub struct Cx {
    /// Cases generated
    pub evaluations: u64,
    /// Executions judged
    pub judgements: u64,
    /// Fingerprints of the distinct non-trivial cases
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub findings: Vec<String>,
}

impl Cx {
    /// One non-trivial case that was judged; equal fingerprints are the same case
    pub fn judged(&mut self, fingerprint: u64) {
        self.judgements += 1;
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(fingerprint);
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counts.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(what.to_owned(), n);
            }
        }
    }
    pub fn max(&mut self, what: &str, v: u64) {
        let m = self.maxima.entry(what.to_owned()).or_insert(0);
        *m = (*m).max(v);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // a few early ones and a few late ones
        let n = self.evaluations;
        if self.samples.len() < 3 || (n.is_power_of_two() && n > 500 && self.samples.len() < 8) {
            self.samples.push(f());
        }
    }
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub message: String,
    pub file: String,
    pub line: u32,
}

impl Panic {
    /// Raised by the harness, not by the code under test or its dependencies
    pub fn ours(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("verif/harness") || self.file.contains("verif/fuzz")
    }
    pub fn text(&self) -> String {
        format!("panic '{}' at {}:{}", self.message, self.file, self.line)
    }
}

thread_local! {
    static LAST: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = match (info.payload().downcast_ref::<&str>(), info.payload().downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "?".to_owned(),
        };
        let (file, line) = info.location().map_or((String::new(), 0), |l| (l.file().to_owned(), l.line()));
        LAST.with(|l| *l.borrow_mut() = Some(Panic { message, file, line }));
    }));
}

/// Runs code that may panic
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panic { message: "?".into(), file: "?".into(), line: 0 })
    })
}
