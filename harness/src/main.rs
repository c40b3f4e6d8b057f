#![allow(dead_code, unused_imports, dropping_copy_types, suspicious_runtime_symbol_definitions, unknown_lints)]
mod alloc;
mod cx;
mod ledger;
mod model;
mod rng;

mod elementwise;
mod arrays;
mod construct;
mod fileio;
mod random;
mod signal;
mod faults;
mod history;
mod pure;
#[cfg(not(any(miri, harness_san)))]
mod oom;
mod threads;
mod inits;
mod linalg;
mod reduce;
mod shapes;
mod views;
mod registry;

use std::fs::OpenOptions;
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[cfg(not(any(miri, harness_san)))]
#[global_allocator]
static ALLOC: alloc::Redzone = alloc::Redzone;

/// milliseconds since start at which the current case began
static CASE_AT: AtomicU64 = AtomicU64::new(0);

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).map(|i| args[i + 1].clone())
    };
    let prop_arg = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").unwrap_or("1".into()).parse().unwrap();
    let from: u64 = get("--from").unwrap_or("0".into()).parse().unwrap();
    let to: u64 = get("--to").unwrap_or("1000".into()).parse().unwrap();
    let step: u64 = get("--step").unwrap_or("1".into()).parse().unwrap();
    let time: u64 = get("--time").unwrap_or("3600".into()).parse().unwrap();
    let hang: u64 = get("--hang").unwrap_or("0".into()).parse().unwrap();
    let only = get("--only");
    let out = get("--out");
    let journal = get("--journal");
    let small = args.iter().any(|a| a == "--small");

    let (prop, cases) = registry::lookup(&prop_arg);
    let cases: Vec<registry::Case> = match &only {
        Some(o) => cases.into_iter().filter(|c| c.name.starts_with(o.as_str())).collect(),
        None => cases,
    };
    assert!(!cases.is_empty(), "no workload");
    let total: u64 = cases.iter().map(|c| c.weight).sum();

    cx::install_hook();

    let start = Instant::now();

    if hang > 0 {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_millis() as u64;
            let at = CASE_AT.load(Ordering::Relaxed);
            if at > 0 && now > at + hang * 1000 {
                alloc::die(alloc::EXIT_HANG, "HANG: the case does not end");
            }
        });
    }

    let mut journal = journal.map(|j| OpenOptions::new().create(true).write(true).truncate(true).open(j).unwrap());

    let mut cx = cx::Cx::new(prop, seed, small);
    let mut violation = None;
    let mut done = 0;
    let mut by_case = std::collections::BTreeMap::<&'static str, u64>::new();

    let mut i = from;
    while i < to {
        if start.elapsed().as_secs() >= time {
            break;
        }
        // which workload: a fixed, well mixed function of the index
        let mut w = rng::Rng::new(7, 7, i).u64() % total;
        let mut case = &cases[0];
        for c in &cases {
            if w < c.weight {
                case = c;
                break;
            }
            w -= c.weight;
        }

        if let Some(j) = &mut journal {
            let _ = j.seek(SeekFrom::Start(0));
            let _ = j.write_all(format!("{:20} {:40}\n", i, case.name).as_bytes());
        } else if cfg!(miri) {
            eprintln!("CASE {} {}", i, case.name);
        }
        CASE_AT.store((start.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
        alloc::BUDGET.store(
            alloc::LIVE_BYTES.load(Ordering::Relaxed) + case.budget as i64,
            Ordering::Relaxed
        );

        let r = cx.case(i, case.run);
        *by_case.entry(case.name).or_insert(0) += 1;
        done += 1;
        if let Some(msg) = r {
            violation = Some((i, case.name, msg));
            break;
        }
        i += step;
    }
    alloc::BUDGET.store(i64::MAX, Ordering::Relaxed);
    CASE_AT.store(0, Ordering::Relaxed);

    fileio::clean_scratch();

    let mut s = String::from("{");
    s += &format!("\"prop\":{},\"seed\":{},\"cases\":{},", json_str(prop), seed, done);
    s += &format!("\"evaluations\":{},\"checks\":{},\"rejections\":{},\"route_failed\":{},\"anomalies\":{},\"anomaly_sample\":{},",
        cx.evals, cx.checks, cx.rejections, cx.route_failed, cx.anomalies, json_str(&cx.anomaly_sample));
    s += &format!("\"ledger_events\":{},\"allocs\":{},\"frees\":{},",
        ledger::TOTAL_EVENTS.load(Ordering::Relaxed),
        alloc::ALLOCS.load(Ordering::Relaxed), alloc::FREES.load(Ordering::Relaxed));
    s += &format!("\"distinct\":{},", cx.sigs.len());
    s += "\"counters\":{";
    s += &cx.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"workloads\":{";
    s += &by_case.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"findings\":{";
    s += &cx.findings.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"samples\":[";
    s += &cx.samples.iter().map(|v| json_str(v)).collect::<Vec<_>>().join(",");
    s += "],\"violation\":";
    match &violation {
        Some((i, name, msg)) => {
            s += &format!("{{\"case\":{},\"workload\":{},\"msg\":{}}}", i, json_str(name), json_str(msg));
        }
        None => s += "null",
    }
    s += "}";

    match &out {
        Some(out) => {
            std::fs::write(out, &s).unwrap();
            let mut bytes = Vec::new();
            for h in &cx.sigs {
                bytes.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{}.sigs", out), bytes).unwrap();
        }
        None => println!("{}", s),
    }
    if violation.is_some() {
        std::process::exit(1);
    }
}
