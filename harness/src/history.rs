//! C02: histories of tensors that share storage, with a balance of live values
//! after each step.

use essay_tensor::array::{concatenate, stack};
use essay_tensor::tensor::{Axis, Tensor};

use crate::arrays::{m_concat, m_split, m_stack, m_tile, m_transpose};
use crate::cx::Cx;
use crate::ledger::{self, Tracked};
use crate::model::{differs, refactor, shp, size, M};

type T = Tensor<Tracked>;
type Mm = M<Tracked>;

struct Entry {
    t: T,
    m: Mm,
    store: usize,
}

/// A storage: where its elements lie, and how many tensors use it.
struct Store {
    from: usize,
    to: usize,
    len: usize,
    users: usize,
}

struct Pool {
    entries: Vec<Entry>,
    stores: Vec<Store>,
    steps: u64,
}

const SZ: usize = std::mem::size_of::<Tracked>();

impl Pool {
    fn expected(&self) -> i64 {
        self.stores.iter().filter(|s| s.users > 0).map(|s| s.len as i64).sum()
    }

    fn balance(&self, cx: &mut Cx, what: &str) {
        cx.checks += 1;
        let (live, exp) = (ledger::live(), self.expected());
        if live != exp {
            cx.fail("C02", format!(
                "step {} ({}): {} live values, the tensors in use hold {}", self.steps, what, live, exp
            ));
        }
    }

    /// Adds a tensor that must use the storage of another one.
    fn shared(&mut self, cx: &mut Cx, t: T, m: Mm, store: usize, what: &str) {
        let p = t.as_slice().as_ptr() as usize;
        let s = &self.stores[store];
        if !m.data.is_empty() && !(s.from <= p && p + m.data.len() * SZ <= s.to) {
            cx.fail("C02", format!("step {} ({}): the result does not share the storage", self.steps, what));
        }
        self.verify(cx, &t, &m, what);
        self.stores[store].users += 1;
        self.entries.push(Entry { t, m, store });
    }

    /// Adds a result that may share a known storage or has its own.
    fn result(&mut self, cx: &mut Cx, t: T, m: Mm, what: &str) {
        self.verify(cx, &t, &m, what);
        let p = t.as_slice().as_ptr() as usize;
        let n = m.data.len();
        let known = self.stores.iter().position(|s| s.users > 0 && n > 0 && s.from <= p && p + n * SZ <= s.to);
        let store = match known {
            Some(i) => i,
            None => {
                self.stores.push(Store { from: p, to: p + n * SZ, len: n, users: 0 });
                self.stores.len() - 1
            }
        };
        self.stores[store].users += 1;
        self.entries.push(Entry { t, m, store });
    }

    fn verify(&self, cx: &mut Cx, t: &T, m: &Mm, what: &str) {
        cx.checks += 1;
        if let Some(d) = differs(t, m) {
            cx.fail_any(&["C03", "C08", "C09", "C10"], format!("step {} ({}): {}", self.steps, what, d));
        }
    }
}

pub fn history(cx: &mut Cx) {
    let steps = if cx.small { 10 } else { cx.rng.range(8, 80) };
    cx.op("C02", "history", (steps, cx.index));
    let mut pool = Pool { entries: Vec::new(), stores: Vec::new(), steps: 0 };
    let mut sig = Vec::new();
    for _ in 0..steps {
        pool.steps += 1;
        let op = cx.rng.below(22);
        sig.push(op as u8);
        step(cx, &mut pool, op);
        if cx.rng.chance(10) {
            for e in &pool.entries {
                pool.verify(cx, &e.t, &e.m, "all tensors");
            }
        }
    }
    // the end, in a random order
    while !pool.entries.is_empty() {
        pool.steps += 1;
        let i = cx.rng.below(pool.entries.len());
        let e = pool.entries.swap_remove(i);
        pool.stores[e.store].users -= 1;
        drop(e.t);
        pool.balance(cx, "final drop");
    }
    cx.count("history steps", pool.steps);
    cx.count("history storages", pool.stores.len() as u64);
    cx.op("C02", "history of", sig);
}

fn step(cx: &mut Cx, pool: &mut Pool, op: usize) {
    let (c0, d0) = (ledger::cloned(), ledger::dropped());
    let quiet = |cx: &mut Cx, what: &str| {
        cx.checks += 1;
        let (c, d) = (ledger::cloned() - c0, ledger::dropped() - d0);
        if c != 0 || d != 0 {
            cx.fail("C02", format!("{}: {} values cloned and {} dropped by sharing", what, c, d));
        }
    };
    if pool.entries.is_empty() || op == 0 || op == 1 {
        let shape = cx.shape(0, 4, 24);
        let data = cx.reps::<Tracked>(size(&shape));
        let m = Mm::new(shape.clone(), data);
        let t = match cx.rng.below(5) {
            0 => T::from_vec(m.vals(), shp(&shape)),
            1 => T::from_box(m.vals().into_boxed_slice(), shp(&shape)),
            2 => T::from(m.vals()).reshape(shp(&shape)),
            3 => { let mut it = m.vals().into_iter(); T::init(shp(&shape), || it.next().unwrap()) }
            _ => m.vals().into_iter().collect::<T>().reshape(shp(&shape)),
        };
        pool.result(cx, t, m, "new");
        return pool.balance(cx, "new");
    }
    let i = cx.rng.below(pool.entries.len());
    let (t, m, store) = { let e = &pool.entries[i]; (e.t.clone(), e.m.clone(), e.store) };
    quiet(cx, "clone");
    let n = m.data.len();
    let rank = m.shape.len();
    match op {
        2 | 3 => {
            pool.shared(cx, t, m, store, "clone");
            quiet(cx, "clone");
        }
        4 if rank > 0 && n > 0 => {
            let from = cx.rng.below(m.shape[0]);
            let len = cx.rng.range(1, m.shape[0] - from);
            let v = t.subslice(from, len);
            quiet(cx, "subslice");
            let e = m_split(&m, 0, from, from + len);
            pool.shared(cx, v, e, store, "subslice");
        }
        5 if n > 0 => {
            let from = cx.rng.below(n);
            let len = cx.rng.range(1, n - from);
            let s = refactor(&mut cx.rng, len, 3);
            let v = t.subslice_flat(from, len, shp(&s));
            quiet(cx, "subslice_flat");
            let e = Mm::new(s, m.data[from..from + len].to_vec());
            pool.shared(cx, v, e, store, "subslice_flat");
        }
        6 => {
            let s = refactor(&mut cx.rng, n, 4);
            let v = t.reshape(shp(&s));
            quiet(cx, "reshape");
            pool.shared(cx, v, Mm::new(s, m.data), store, "reshape");
        }
        7 => {
            let v = t.flatten();
            quiet(cx, "flatten");
            pool.shared(cx, v, Mm::new(vec![n], m.data), store, "flatten");
        }
        8 => {
            let v = t.squeeze();
            quiet(cx, "squeeze");
            let mut s: Vec<usize> = m.shape.iter().cloned().filter(|d| *d != 1).collect();
            if s.is_empty() { s = v.shape().as_vec() }
            pool.shared(cx, v, Mm::new(s, m.data), store, "squeeze");
        }
        9 if rank < 5 => {
            let at = cx.rng.below(rank + 1);
            let v = t.expand_dims(Axis::axis(at as isize));
            quiet(cx, "expand_dims");
            let mut s = m.shape.clone();
            s.insert(at, 1);
            pool.shared(cx, v, Mm::new(s, m.data), store, "expand_dims");
        }
        10 => {
            let v = t.map(|v| v.clone());
            pool.result(cx, v, m, "map");
        }
        11 if rank > 0 => {
            let r = concatenate([&t, &t].as_slice());
            let e = m_concat(&[m.clone(), m], 0);
            if size(&e.shape) < 200 { pool.result(cx, r, e, "concatenate") }
        }
        12 if rank < 5 && n < 60 => {
            let r = stack([t.clone(), t].as_slice());
            pool.result(cx, r, m_stack(&[m.clone(), m], 0), "stack");
        }
        13 if rank > 0 => {
            let r = t.transpose();
            pool.result(cx, r, m_transpose(&m), "transpose");
        }
        14 if rank > 0 && n > 0 => {
            let ax = cx.rng.below(rank);
            let cut = cx.rng.below(m.shape[ax] + 1);
            let parts = t.split_axis(Axis::axis(ax as isize), vec![cut]);
            let mut exp = Vec::new();
            if cut > 0 { exp.push(m_split(&m, ax, 0, cut)) }
            if cut < m.shape[ax] { exp.push(m_split(&m, ax, cut, m.shape[ax])) }
            if parts.len() == exp.len() {
                for (p, e) in parts.into_iter().zip(exp) { pool.result(cx, p, e, "split") }
            }
        }
        15 if rank > 1 && n > 0 && n < 40 => {
            let ax = cx.rng.below(rank);
            let parts = t.unstack(Axis::axis(ax as isize));
            if parts.len() == m.shape[ax] {
                for (k, p) in parts.into_iter().enumerate() {
                    let mut e = m_split(&m, ax, k, k + 1);
                    e.shape.remove(ax);
                    pool.result(cx, p, e, "unstack");
                }
            }
        }
        16 if n < 20 => {
            let r = t.tile([2]);
            let e = m_tile(&m, &[2]);
            pool.result(cx, r, e, "tile");
        }
        17 if n > 0 => {
            let r = t.reduce(|a, _| a);
            pool.result(cx, r, Mm::new(vec![], vec![m.data[0]]), "reduce");
        }
        18 => {
            // drop while sharing
            drop(t);
            let e = pool.entries.swap_remove(i);
            pool.stores[e.store].users -= 1;
            drop(e.t);
            return pool.balance(cx, "drop");
        }
        19 => {
            drop(t);
            for _ in 0..cx.rng.range(1, pool.entries.len()) {
                let k = cx.rng.below(pool.entries.len());
                let e = pool.entries.swap_remove(k);
                pool.stores[e.store].users -= 1;
                drop(e.t);
                pool.balance(cx, "drop several");
            }
        }
        20 => {
            // replaced in place, the old tensor goes
            drop(t);
            let j = cx.rng.below(pool.entries.len());
            let (nt, nm, ns) = { let e = &pool.entries[j]; (e.t.clone(), e.m.clone(), e.store) };
            pool.stores[ns].users += 1;
            pool.stores[pool.entries[i].store].users -= 1;
            pool.entries[i].t = nt;
            pool.entries[i].m = nm;
            pool.entries[i].store = ns;
        }
        _ => {
            // a failing request leaves the balance as it was
            let what = cx.rng.below(4);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match what {
                0 => { t.subslice(n + 1, 1); }
                1 => { t.subslice_flat(0, n + 1, shp(&[n + 1])); }
                2 => { let _ = t.clone().reshape(shp(&[n + 1])); }
                _ => { let _ = &t[n]; }
            }));
            drop(t);
            if r.is_ok() {
                cx.count("accepted out of range", 1);
            }
        }
    }
    pool.balance(cx, &format!("operation {}", op));
}
