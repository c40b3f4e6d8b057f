//! Context of a run: random source, monitors, counters and verdicts.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

use essay_tensor::tensor::Tensor;

use crate::ledger;
use crate::model::{differs, Elem, In, Keep, M};
use crate::rng::Rng;

pub struct Violation {
    pub props: Vec<&'static str>,
    pub msg: String,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string payload)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub struct Cx {
    pub prop: &'static str,
    pub rng: Rng,
    pub seed: u64,
    pub index: u64,
    /// small workloads (Miri)
    pub small: bool,
    pub owner: &'static str,
    pub desc: String,
    pub keeps: Vec<Box<dyn Keep>>,
    pub panicked: bool,

    pub evals: u64,
    pub checks: u64,
    pub rejections: u64,
    pub route_failed: u64,
    pub anomalies: u64,
    pub anomaly_sample: String,
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub findings: BTreeMap<String, u64>,
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Cx {
    pub fn new(prop: &'static str, seed: u64, small: bool) -> Self {
        Cx {
            prop, seed, small,
            rng: Rng::new(seed, 0, 0),
            index: 0,
            owner: prop,
            desc: String::new(),
            keeps: Vec::new(),
            panicked: false,
            evals: 0, checks: 0, rejections: 0, route_failed: 0, anomalies: 0,
            anomaly_sample: String::new(),
            sigs: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            findings: BTreeMap::new(),
        }
    }

    pub fn fail(&self, prop: &'static str, msg: String) -> ! {
        panic_any(Violation { props: vec![prop], msg })
    }

    pub fn fail_any(&self, props: &[&'static str], msg: String) -> ! {
        panic_any(Violation { props: props.to_vec(), msg })
    }

    /// Declares the operation under test: the owner of its value oracle, and a
    /// signature that tells distinct cases apart.
    pub fn op(&mut self, owner: &'static str, name: &str, sig: impl Hash + std::fmt::Debug) {
        self.owner = owner;
        self.evals += 1;
        let s = hash(&(name, hash(&sig)));
        self.desc = format!("{} {:?}", name, sig);
        if self.sigs.len() < 3_000_000 {
            self.sigs.insert(s);
        }
        *self.counters.entry(name.to_string()).or_insert(0) += 1;
        if self.samples.len() < 6 && (self.evals % 97 == 1 || self.index % 1000 == 7) {
            let mut d = self.desc.clone();
            if d.len() > 300 {
                let mut k = 300;
                while !d.is_char_boundary(k) { k -= 1; }
                d.truncate(k);
            }
            self.samples.push(format!("case {}: {}", self.index, d));
        }
    }

    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }

    /// The result must show exactly the model.
    pub fn eq<E: Elem>(&mut self, owner: &'static str, t: &Tensor<E>, m: &M<E>) {
        self.checks += 1;
        self.invariant(t);
        if let Some(d) = differs(t, m) {
            self.fail(owner, format!("{}: result differs: {}", self.desc, d));
        }
        if self.prop == "C03" && t.size() <= 4000 {
            crate::views::accessors(self, t, m);
        }
    }

    /// Product of dimensions is the number of elements.
    pub fn invariant<E: Elem>(&mut self, t: &Tensor<E>) {
        let shape = t.shape().as_vec();
        let n: usize = shape.iter().product();
        if n != t.as_slice().len() || n != t.size() || n != t.shape().size() || shape.len() != t.rank() {
            self.fail("C04", format!(
                "{}: shape {:?} (size {}) with {} elements and size() {}",
                self.desc, shape, t.shape().size(), t.as_slice().len(), t.size()
            ));
        }
        // nothing is left of the dimensions of other shapes
        if n > 0 && *t.shape() != essay_tensor::tensor::Shape::from(shape.as_slice()) {
            self.fail("C04", format!("{}: the shape {:?} is not equal to a new shape of those dimensions", self.desc, shape));
        }
    }

    /// An operand must be unchanged.
    pub fn still<E: Elem>(&mut self, v: &In<E>) {
        self.checks += 1;
        if let Some(d) = differs(&v.t, &v.m) {
            self.fail("C03", format!("{}: operand changed: {}", self.desc, d));
        }
    }

    /// The request must be refused by a panic.
    pub fn refuse<T>(&mut self, owner: &'static str, what: &str, f: impl FnOnce() -> T) {
        self.owner = owner;
        self.evals += 1;
        self.rejections += 1;
        *self.counters.entry("refused requests".to_string()).or_insert(0) += 1;
        self.sigs.insert(hash(&("refuse", what)));
        self.desc = format!("refuse {}", what);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => {
                std::mem::forget(v);
                self.panicked = true;
                // what cannot be satisfied must end cleanly in every build (C01)
                self.fail_any(&[owner, "C01"], format!("accepted although it must be refused: {}", what));
            }
            Err(e) => {
                if let Some(v) = e.downcast_ref::<Violation>() {
                    let (p, m) = (v.props.clone(), v.msg.clone());
                    panic_any(Violation { props: p, msg: m });
                }
                self.panicked = true;
            }
        }
    }

    pub fn begin(&mut self, index: u64) {
        self.index = index;
        self.rng = Rng::new(self.seed, hash(&self.prop), index);
        self.owner = self.prop;
        self.desc.clear();
        self.keeps.clear();
        self.panicked = false;
        ledger::reset();
        ledger::Zst::reset();
    }

    /// Runs one case and all end-of-case monitors; a violation of the property
    /// under test is returned.
    pub fn case(&mut self, index: u64, f: fn(&mut Cx)) -> Option<String> {
        self.begin(index);

        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        ledger::disarm();

        let mut out: Option<(Vec<&'static str>, String)> = None;
        if let Err(e) = r {
            self.panicked = true;
            match e.downcast::<Violation>() {
                Ok(v) => out = Some((v.props, v.msg)),
                Err(_) => {
                    out = Some((vec![self.owner], format!("{}: unexpected panic: {}", self.desc, last_panic())));
                }
            }
        }

        // every tensor still alive must be unchanged
        if out.is_none() {
            self.checks += self.keeps.len() as u64;
            for k in &self.keeps {
                if let Some(d) = k.check() {
                    out = Some((vec!["C03"], format!("{}: {}", self.desc, d)));
                    break;
                }
            }
        }
        let keeps = std::mem::take(&mut self.keeps);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(keeps)));

        if let Some(p) = ledger::problem() {
            out = Some((vec!["C01", "C02", "C16", "C22"], format!("{}: {}", self.desc, p)));
        } else if out.is_none() && !self.panicked && (ledger::live() != 0 || ledger::Zst::live() != 0) {
            out = Some((vec!["C02"], format!(
                "{}: {} values never dropped", self.desc, ledger::live() + ledger::Zst::live()
            )));
        }

        match out {
            Some((props, msg)) if props.contains(&self.prop) => Some(msg),
            Some((props, msg)) => {
                self.anomalies += 1;
                if self.anomaly_sample.is_empty() {
                    self.anomaly_sample = format!("{:?}: {}", props, msg);
                }
                None
            }
            None => None,
        }
    }

    /// A listed finding was observed.
    pub fn finding(&mut self, name: &str) {
        *self.findings.entry(name.to_string()).or_insert(0) += 1;
    }
}
