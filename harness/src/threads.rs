//! C15: random streams of threads; C16: tensors shared between threads.

use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use essay_tensor::array::concatenate;
use essay_tensor::init::{random_normal, Normal};
use essay_tensor::random::{random_seed, Rand32, Rand64};
use essay_tensor::tensor::{Axis, Tensor, Type};

use crate::arrays::{m_concat, m_split, m_transpose};
use crate::cx::Cx;
use crate::ledger::Tracked;
use crate::model::{differs, refactor, shp, Elem, M};
use crate::random::{Ref32, Ref64};
use crate::pure::{Job, KINDS};
use crate::rng::Rng;

struct Gate(AtomicUsize, usize);
impl Gate {
    fn new(n: usize) -> Arc<Gate> { Arc::new(Gate(AtomicUsize::new(0), n)) }
    fn wait(&self) {
        self.0.fetch_add(1, Ordering::SeqCst);
        while self.0.load(Ordering::SeqCst) < self.1 {
            if cfg!(miri) { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    }
}

fn jitter(r: &mut Rng) {
    match r.below(4) {
        0 => std::thread::yield_now(),
        1 => for _ in 0..r.below(200) { std::hint::spin_loop() },
        _ => {}
    }
}

/// What a thread drew: the values of its stream that it saw, in order.
fn draws(r: &mut Rng, n: usize) -> Vec<(u8, u64)> {
    let mut v = Vec::new();
    for _ in 0..n {
        match r.below(4) {
            0 => v.push((0, Rand64::new().0 as u64)),
            1 => v.push((1, Rand32::new().0)),
            2 => v.push((2, Rand64::new().next())),
            _ => v.push((3, random_normal([2], Normal::default()).as_slice()[1].to_bits() as u64)),
        }
        if r.chance(30) { jitter(r) }
    }
    v
}

/// Does the sequence of draws follow from the stream?
fn follows(seed: u64, d: &[(u8, u64)]) -> bool {
    let mut s = Ref64(seed as u128);
    d.iter().all(|(k, v)| {
        let x = s.next();
        match k {
            0 | 1 => x == *v,
            2 => Ref64(x as u128).next() == *v,
            _ => {
                let mut r = Ref32(x);
                let u: Vec<f64> = (0..4).map(|_| r.next() as f64 / u32::MAX as f64).collect();
                let e = (-2. * u[2].max(1e-38).ln()).sqrt() * (std::f64::consts::TAU * u[3]).cos();
                let g = f32::from_bits(*v as u32) as f64;
                (g - e).abs() < 1e-4 || u[2] > 1. - 1e-5 || u[2] < 1e-9
            }
        }
    })
}

/// Threads started after seeding get the successive streams of the chain.
pub fn seeded(cx: &mut Cx) {
    let max = if cx.small { 4 } else { 12 };
    let k = cx.rng.range(1, max);
    let seed = match cx.rng.below(4) { 0 => cx.rng.range(1, 100) as u64, 1 => u64::MAX, _ => cx.rng.u64() | 1 };
    let rounds = cx.rng.range(1, 3);
    cx.op("C15", "seeded", (k, seed, rounds));
    random_seed(seed);
    let mut chain = Ref64(seed as u128);
    let mut prev = seed;
    let mut next_seed = || { chain = Ref64(prev as u128); prev = chain.next(); prev };
    let mut orders = Vec::new();
    for round in 0..rounds {
        let gate = Gate::new(k);
        // the events, in the order in which the threads finished their first draw
        let order = Arc::new(Mutex::new(Vec::new()));
        let mut hs = Vec::new();
        for i in 0..k {
            let (gate, order) = (gate.clone(), order.clone());
            let mut r = Rng::new(cx.rng.u64(), i as u64, 5);
            hs.push(std::thread::spawn(move || {
                gate.wait();
                jitter(&mut r);
                let n = r.range(1, 5);
                let first = (0u8, Rand64::new().0 as u64);
                order.lock().unwrap().push(i);
                let mut v = vec![first];
                v.extend(draws(&mut r, n));
                v
            }));
        }
        let got: Vec<Vec<(u8, u64)>> = hs.into_iter().map(|h| h.join().expect("random thread")).collect();
        let seeds: Vec<u64> = (0..k).map(|_| next_seed()).collect();
        let mut used = vec![false; k];
        let mut perm = Vec::new();
        for (i, d) in got.iter().enumerate() {
            cx.checks += 1;
            let m = (0..k).find(|j| Ref64(seeds[*j] as u128).next() == d[0].1);
            let Some(j) = m else {
                cx.fail("C15", format!("seed {} with {} threads, round {}: thread {} draws {:?}, which starts no stream of the chain", seed, k, round, i, d));
            };
            if used[j] {
                cx.fail("C15", format!("seed {} with {} threads, round {}: stream {} is handed out twice", seed, k, round, j));
            }
            used[j] = true;
            perm.push(j as u8);
            if !follows(seeds[j], d) {
                cx.fail("C15", format!("seed {} with {} threads: thread {} leaves its stream: {:?}", seed, k, i, d));
            }
            cx.count("draws", d.len() as u64);
        }
        orders.push(perm);
    }
    // distinct assignments of streams to threads that were seen
    cx.op("C15", "assignment", orders);
}

/// Without a process seed: no repetition.
pub fn unseeded(cx: &mut Cx) {
    let max = if cx.small { 4 } else { 12 };
    let k = cx.rng.range(2, max);
    cx.op("C15", "unseeded", (k, cx.index));
    if cx.rng.chance(70) { random_seed(0) }
    let gate = Gate::new(k);
    let mut hs = Vec::new();
    for i in 0..k {
        let gate = gate.clone();
        let mut r = Rng::new(cx.rng.u64(), i as u64, 6);
        hs.push(std::thread::spawn(move || {
            gate.wait();
            jitter(&mut r);
            let n = r.range(2, 6);
            (0..n).map(|_| if r.chance(50) { Rand64::new().0 as u64 } else { Rand32::new().0 }).collect::<Vec<u64>>()
        }));
    }
    let mut all: Vec<u64> = hs.into_iter().flat_map(|h| h.join().expect("random thread")).collect();
    // this thread takes part
    all.push(Rand64::new().0 as u64);
    all.push(Rand32::new().0);
    let n = all.len();
    all.sort();
    all.dedup();
    cx.checks += 1;
    cx.count("draws", n as u64);
    if all.len() != n {
        cx.fail("C15", format!("{} generators in {} threads have {} distinct states", n, k, all.len()));
    }
}

// ---- sharing ----

fn work<E: Elem + Send + Sync>(r: &mut Rng, mut pool: Vec<(Tensor<E>, M<E>)>, chan: &Mutex<Vec<(Tensor<E>, M<E>)>>, steps: usize) -> Result<u64, String>
where E::Rep: Send {
    let mut done = 0;
    for _ in 0..steps {
        jitter(r);
        if pool.is_empty() {
            let got = chan.lock().unwrap().pop();
            match got {
                Some(v) => pool.push(v),
                None => break,
            }
        }
        done += 1;
        let i = r.below(pool.len());
        let (t, m) = (&pool[i].0, &pool[i].1);
        let n = m.size();
        let rank = m.rank();
        let made: Option<(Tensor<E>, M<E>)> = match r.below(10) {
            0 => Some((t.clone(), m.clone())),
            1 if rank > 0 && n > 0 => {
                let from = r.below(m.shape[0]);
                let len = r.range(1, m.shape[0] - from);
                Some((t.subslice(from, len), m_split(m, 0, from, from + len)))
            }
            2 => {
                let s = refactor(r, n, 3);
                Some((t.clone().reshape(shp(&s)), M::new(s, m.data.clone())))
            }
            3 => Some((t.map(|v| v.clone()), m.clone())),
            4 if rank > 0 => Some((t.transpose(), m_transpose(m))),
            5 if rank > 0 && n < 60 => Some((concatenate([t, t].as_slice()), m_concat(&[m.clone(), m.clone()], 0))),
            6 if n > 0 => {
                let l = r.below(n);
                Some((t.subslice_flat(l, n - l, shp(&[n - l])), M::new(vec![n - l], m.data[l..].to_vec())))
            }
            7 if rank > 1 => {
                let v = t.fold_axis(Axis::axis(0), None::<E>, |s, v| s.or(Some(v.clone())));
                let inner: usize = m.shape[1..].iter().product();
                for k in 0..inner {
                    if v.as_slice()[k].as_ref().map(|v| v.rep()) != Some(m.data[k].clone()) {
                        return Err("fold differs in a thread".into());
                    }
                }
                None
            }
            8 => {
                pool.swap_remove(i);
                continue;
            }
            1 | 4 | 5 | 6 | 7 => None,
            _ => {
                // hand over to another thread
                let v = pool.swap_remove(i);
                chan.lock().unwrap().push(v);
                continue;
            }
        };
        if let Some((t, m)) = made {
            if let Some(d) = differs(&t, &m) {
                return Err(format!("a result differs in a thread: {}", d));
            }
            pool.push((t, m));
        }
        let j = r.below(pool.len());
        if let Some(d) = differs(&pool[j].0, &pool[j].1) {
            return Err(format!("a tensor has changed in a thread: {}", d));
        }
        if pool.len() > 6 {
            let k = r.below(pool.len());
            pool.swap_remove(k);
        }
    }
    Ok(done)
}

fn sharing_of<E: Elem + Send + Sync>(cx: &mut Cx) where E::Rep: Send {
    let k = if cx.small { cx.rng.range(2, 3) } else { cx.rng.range(2, 8) };
    let steps = if cx.small { 6 } else { cx.rng.range(5, 60) };
    let base = cx.rng.range(1, 3);
    let mut roots = Vec::new();
    for _ in 0..base {
        let shape = cx.shape(0, 3, 20);
        let v = cx.tensor::<E>(&shape);
        roots.push((v.t, v.m));
    }
    cx.keeps.clear();
    cx.op("C16", "sharing", (k, steps, base, E::NAME, cx.index));
    let gate = Gate::new(k);
    let chan = Arc::new(Mutex::new(Vec::new()));
    let mut hs = Vec::new();
    for i in 0..k {
        let pool: Vec<(Tensor<E>, M<E>)> = roots.iter().map(|(t, m)| (t.clone(), m.clone())).collect();
        let (gate, chan) = (gate.clone(), chan.clone());
        let mut r = Rng::new(cx.rng.u64(), i as u64, 9);
        hs.push(std::thread::spawn(move || {
            gate.wait();
            work::<E>(&mut r, pool, &chan, steps)
        }));
    }
    // the first owner goes while the threads work
    if cx.rng.chance(60) { roots.clear() }
    let mut msgs = Vec::new();
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => cx.count("thread steps", n),
            Ok(Err(m)) => msgs.push(m),
            Err(e) => {
                let what = e.downcast_ref::<String>().cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                msgs.push(format!("a thread panicked: {}", what));
            }
        }
    }
    cx.checks += k as u64;
    if let Some(m) = msgs.pop() {
        cx.fail("C16", format!("{}: {}", cx.desc, m));
    }
    for (t, m) in &roots {
        if let Some(d) = differs(t, m) {
            cx.fail("C16", format!("{}: {}", cx.desc, d));
        }
    }
    drop(roots);
    let rest = std::mem::take(&mut *chan.lock().unwrap());
    for (t, m) in &rest {
        if let Some(d) = differs(t, m) {
            cx.fail("C16", format!("{}: handed over tensor: {}", cx.desc, d));
        }
    }
    drop(rest);
    if crate::ledger::live() != 0 {
        cx.fail_any(&["C16", "C02"], format!("{}: {} values never dropped", cx.desc, crate::ledger::live()));
    }
}

pub fn sharing(cx: &mut Cx) {
    // the ledger synchronises, which would hide races from a race detector
    let plain = cfg!(any(miri, harness_san));
    match cx.rng.below(6) {
        0 => sharing_of::<f32>(cx),
        1 | 2 => sharing_of::<String>(cx),
        3 => sharing_of::<(u8, String)>(cx),
        _ if plain => sharing_of::<String>(cx),
        _ => sharing_of::<Tracked>(cx),
    }
}

/// Threads that run operations over shared storage at the same time: each
/// result is the one the operation has alone.
pub fn jobs(cx: &mut Cx) {
    let k = if cx.small { 2 } else { cx.rng.range(2, 8) };
    let steps = if cx.small { 3 } else { cx.rng.range(4, 40) };
    let n = cx.rng.range(70, 200);
    let base: Tensor<f32> = (0..n).map(|_| (cx.rng.unit() * 8. - 4.) as f32).collect();
    // few kinds, so that threads meet in the same code with different arguments
    let kinds: Vec<usize> = (0..cx.rng.range(1, 3)).map(|_| cx.rng.below(KINDS)).collect();
    let jobs: Vec<Job> = (0..cx.rng.range(2, 6)).map(|_| {
        let kind = *cx.rng.pick(&kinds);
        Job::new(&mut cx.rng, &base, kind, 48)
    }).collect();
    drop(base);
    cx.op("C16", "jobs", (k, steps, &kinds, jobs.len(), cx.index));
    let before = if cx.rng.chance(50) { Some(jobs.iter().map(|j| j.run()).collect::<Vec<_>>()) } else { None };
    let gate = Gate::new(k);
    let mut hs = Vec::new();
    for i in 0..k {
        let (gate, jobs) = (gate.clone(), jobs.clone());
        let mut r = Rng::new(cx.rng.u64(), i as u64, 11);
        hs.push(std::thread::spawn(move || {
            gate.wait();
            let mut out: Vec<(usize, Vec<u64>)> = Vec::new();
            for _ in 0..steps {
                if r.chance(20) { jitter(&mut r) }
                let j = r.below(jobs.len());
                let d = jobs[j].run();
                // keep what differs from what this thread has seen
                if !out.iter().any(|(i, x)| *i == j && *x == d) { out.push((j, d)) }
            }
            out
        }));
    }
    let mut seen = Vec::new();
    let mut msgs = Vec::new();
    for h in hs {
        match h.join() {
            Ok(v) => seen.extend(v),
            Err(e) => {
                let what = e.downcast_ref::<String>().cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                msgs.push(format!("a thread panicked: {}", what));
            }
        }
    }
    if let Some(m) = msgs.pop() {
        cx.fail("C16", format!("{}: {}", cx.desc, m));
    }
    cx.count("thread steps", (k * steps) as u64);
    let alone = before.unwrap_or_else(|| jobs.iter().map(|j| j.run()).collect());
    for (j, d) in &seen {
        cx.checks += 1;
        if !jobs[*j].agrees(d, &alone[*j]) {
            cx.fail("C16", format!("{}: operation {} has another result while threads run: {:x?}, alone {:x?}", cx.desc, jobs[*j].kind, d, alone[*j]));
        }
    }
}

// compile-time facts, observed at run time

struct Probe<T: ?Sized>(PhantomData<T>);
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Fallback for Probe<T> {}
struct ProbeSend<T: ?Sized>(PhantomData<T>);
struct ProbeSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Fallback for ProbeSend<T> {}
impl<T: ?Sized> Fallback for ProbeSync<T> {}
impl<T: ?Sized + Send> ProbeSend<T> { const SEND: bool = true; }
impl<T: ?Sized + Sync> ProbeSync<T> { const SYNC: bool = true; }

#[derive(Clone)]
struct SendOnly(#[allow(unused)] Cell<u32>);
impl Type for SendOnly {}
#[derive(Clone)]
struct SyncOnly(PhantomData<*const u8>);
unsafe impl Sync for SyncOnly {}
impl Type for SyncOnly {}
#[derive(Clone)]
struct Neither(#[allow(unused)] Rc<u32>);
impl Type for Neither {}

pub fn bounds(cx: &mut Cx) {
    let facts: [(&str, bool, bool, bool, bool); 5] = [
        ("f32", ProbeSend::<Tensor<f32>>::SEND, ProbeSync::<Tensor<f32>>::SYNC, true, true),
        ("String", ProbeSend::<Tensor<String>>::SEND, ProbeSync::<Tensor<String>>::SYNC, true, true),
        ("Send, not Sync", ProbeSend::<Tensor<SendOnly>>::SEND, ProbeSync::<Tensor<SendOnly>>::SYNC, false, false),
        ("Sync, not Send", ProbeSend::<Tensor<SyncOnly>>::SEND, ProbeSync::<Tensor<SyncOnly>>::SYNC, false, false),
        ("neither", ProbeSend::<Tensor<Neither>>::SEND, ProbeSync::<Tensor<Neither>>::SYNC, false, false),
    ];
    let _ = Probe::<u8>(PhantomData);
    for (name, send, sync, esend, esync) in facts {
        cx.op("C16", "bounds", name);
        cx.checks += 2;
        if (send, sync) != (esend, esync) {
            cx.fail("C16", format!("a tensor of {} elements: Send {} Sync {}, expected {} {}", name, send, sync, esend, esync));
        }
    }
}
