//! C21: generated clients of #[derive_opt] against a plain model.
#![allow(unused, non_camel_case_types)]
use essay_opt::derive_opt;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn f32(&mut self) -> f32 { ((self.u64() % 2_000_001) as f32 - 1e6) / 64. }
    pub fn string(&mut self) -> String {
        let n = self.below(6);
        (0..n).map(|_| *[' ', 'a', 'Z', '\u{e9}', '0', '\n', '"', '\u{1f600}'].get(self.below(8)).unwrap()).collect()
    }
    pub fn bytes(&mut self) -> Vec<u8> { let n = self.below(5); (0..n).map(|_| self.u64() as u8).collect() }
    pub fn option(&mut self) -> Option<u8> { if self.below(3) == 0 { None } else { Some(self.u64() as u8) } }
}
pub const STRS: [&str; 5] = ["", "x", "long string", " y ", "None"];

#[derive(Clone, Debug, PartialEq, Default)]
pub enum Level { #[default] Off, At(u32) }
impl Level {
    pub fn pick(r: &mut Rng) -> Level { if r.below(3) == 0 { Level::Off } else { Level::At(r.u64() as u32 | 1) } }
    pub fn number(&self) -> u32 { match self { Level::Off => 0, Level::At(n) => *n } }
}
impl From<u32> for Level { fn from(v: u32) -> Level { if v == 0 { Level::Off } else { Level::At(v) } } }

#[derive(Default)]
pub struct Cx {
    events: u64, checks: u64, sequences: u64, sigs: HashSet<u64>, per: BTreeMap<String, u64>,
    samples: Vec<String>, violation: Option<String>,
}
impl Cx {
    pub fn event(&mut self, s: &str, _op: usize) { self.events += 1; *self.per.entry(s.into()).or_insert(0) += 1; }
    pub fn check(&mut self, s: &str, log: &[String], d: Option<String>) {
        self.checks += 1;
        if let Some(d) = d {
            if self.violation.is_none() { self.violation = Some(format!("{} after {}:{}", s, log.join(" . "), d)); }
        }
    }
    pub fn end(&mut self, s: &str, log: &[String]) {
        self.sequences += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (s, log).hash(&mut h);
        self.sigs.insert(h.finish());
        if self.samples.len() < 12 && log.len() > 3 && log.len() < 9 && self.sequences % 1201 == 5 { self.samples.push(format!("{}: {}", s, log.join(" . "))); }
    }
}

include!(env!("OPTS_GEN"));

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let mut cx = Cx::default();
    for (k, run) in RUNS.iter().enumerate() {
        for i in 0..n {
            let mut r = Rng(seed.wrapping_mul(0x100000001b3) ^ ((k as u64) << 40) ^ i);
            r.u64();
            run(&mut cx, &mut r);
            if cx.violation.is_some() { break }
        }
    }
    println!("{{\"structs\":{},\"sequences\":{},\"calls\":{},\"checks\":{},\"distinct\":{},\"samples\":[{}],\"violation\":{}}}",
        RUNS.len(), cx.sequences, cx.events, cx.checks, cx.sigs.len(),
        cx.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        cx.violation.as_ref().map(|v| js(v)).unwrap_or("null".into()));
    std::process::exit(if cx.violation.is_some() { 1 } else { 0 });
}
