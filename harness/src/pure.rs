//! Operations without side effects, as jobs that threads run at the same
//! time: the result of a job depends on its arguments only.

use essay_tensor::array;
use essay_tensor::init;
use essay_tensor::io::decode_wav;
use essay_tensor::signal::{rfft_norm, FftArg, FftOpt};
use essay_tensor::random::{Rand32, Rand64};
use essay_tensor::stats::{histogram, histogram2d};
use essay_tensor::tensor::{Axis, FoldState, Tensor, Type};

use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::cx::Cx;
use crate::fileio::wav;
use crate::model::{refactor, shp, size};
use crate::rng::Rng;

#[derive(Clone)]
struct Ends([f32; 2]);
impl FoldState for Ends {
    type Out = [f32; 2];
    fn into_result(self) -> [f32; 2] { self.0 }
}

#[derive(Clone)]
pub struct Job {
    pub kind: usize,
    a: Tensor<f32>,
    b: Tensor<f32>,
    n: usize,
    m: usize,
    bytes: Tensor<u8>,
    twice: u8,
}

pub const KINDS: usize = 43;

/// Shape and bits.
type Digest = Vec<u64>;

trait Bits { fn bits(&self) -> u64; }
impl Bits for f32 { fn bits(&self) -> u64 { if self.is_nan() { u64::MAX } else { self.to_bits() as u64 } } }
impl Bits for i32 { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for u8 { fn bits(&self) -> u64 { *self as u64 } }
impl Bits for bool { fn bits(&self) -> u64 { *self as u64 } }

fn dig<T: Type + Bits>(out: &mut Digest, t: &Tensor<T>) {
    out.push(0xabcd_0000 + t.rank() as u64);
    out.extend(t.shape().as_vec().iter().map(|d| *d as u64));
    out.extend(t.iter().map(|v| v.bits()));
}

impl Job {
    /// A job over a window of the shared storage `base`.
    pub fn new(r: &mut Rng, base: &Tensor<f32>, kind: usize, max: usize) -> Job {
        let mut window = |lo: usize, hi: usize| {
            let n = r.range(lo, hi.min(base.size()));
            let at = r.below(base.size() - n + 1);
            base.subslice_flat(at, n, shp(&[n]))
        };
        let (a, b) = match kind {
            0 | 1 => { let a = window(2, max + 16); (a.clone(), a) }
            7 => { let a = window(4, max); let n = a.size() / 2; let a = a.subslice(0, 2 * n); (a.clone().reshape([n, 2]), a) }
            _ => { let a = window(2, max); let n = a.size(); (a, window(n, n)) }
        };
        let mut a = a;
        let mut b = b;
        if matches!(kind, 8 | 9 | 10 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 24 | 36 | 37 | 41 | 42) {
            let n = a.size();
            let s = refactor(r, n, 3);
            if size(&s) == n {
                a = a.reshape(shp(&s));
                b = b.reshape(shp(&s));
            }
        }
        let samples: Vec<i16> = (0..2 * r.range(1, 9)).map(|_| r.u32() as i16).collect();
        Job {
            kind, a, b,
            n: r.range(1, 9),
            m: r.range(1, 9),
            bytes: Tensor::from(wav(&samples, r.range(1, 2) as u16, 8000)),
            twice: r.below(2) as u8,
        }
    }

    /// The same arguments in other storage, at other addresses.
    pub fn elsewhere(&self, r: &mut Rng) -> Job {
        let mut other = |t: &Tensor<f32>| {
            let (pre, post) = (r.below(9), r.below(9));
            let mut v = vec![0.25f32; pre];
            v.extend(t.iter());
            v.extend(vec![f32::NAN; post]);
            let s = t.shape().as_vec();
            match r.below(3) {
                0 => Tensor::from_vec(t.as_slice().to_vec(), shp(&s)),
                1 => { let mut b = Vec::with_capacity(t.size() + 40); b.extend(t.iter()); Tensor::from_vec(b, shp(&s)) }
                _ => Tensor::from(v).subslice_flat(pre, t.size(), shp(&s)),
            }
        };
        Job { a: other(&self.a), b: other(&self.b), bytes: self.bytes.clone(), ..*self }
    }

    pub fn run(&self) -> Digest {
        let mut o = vec![self.kind as u64];
        let (a, b) = (&self.a, &self.b);
        match self.kind {
            0 => dig(&mut o, &rfft_norm(a, ())),
            1 => dig(&mut o, &rfft_norm(a, FftArg::default().fft_length(8 << (self.n % 4)))),
            2 | 3 => {
                // matrices m x k and k x n
                let k = (a.size() / self.m).clamp(1, 6);
                if a.size() >= self.m * k && b.size() >= k * self.n {
                    let x = a.subslice(0, self.m * k).reshape([self.m, k]);
                    let y = b.subslice(0, k * self.n).reshape([k, self.n]);
                    dig(&mut o, &x.matmul(&y));
                    dig(&mut o, &x.matvec(&b.subslice(0, k)));
                }
            }
            4 => dig(&mut o, &a.map2(b, |x, y| x * 2. + y)),
            5 | 6 => { let (h, e) = histogram(a, self.n + 1); dig(&mut o, &h); dig(&mut o, &e) }
            7 => { let (h, x, y) = histogram2d(a, self.n + 1); dig(&mut o, &h); dig(&mut o, &x); dig(&mut o, &y) }
            8 => dig(&mut o, &a.transpose()),
            9 => dig(&mut o, &array::tile(a, vec![self.n % 3 + 1; a.rank().max(1)])),
            10 => for t in a.split_axis(0isize, vec![a.dim(0) / 2]) { dig(&mut o, &t) },
            11 => dig(&mut o, &array::concatenate_axis(-1isize, [a, b, a].as_slice())),
            12 => dig(&mut o, &array::stack_axis(0isize, [a, b].as_slice())),
            13 => {
                dig(&mut o, &a.reduce_sum_axis(0));
                dig(&mut o, &a.reduce_mean_axis(-1));
                dig(&mut o, &a.reduce_variance());
                dig(&mut o, &a.reduce_max());
            }
            14 => dig(&mut o, &a.normalize_unit()),
            15 | 42 => {
                macro_rules! all { ($($f:ident)*) => { $(dig(&mut o, &a.$f());)* } }
                all!(abs sin cos tan exp ln sqrt floor ceil round trunc fract tanh atan);
                dig(&mut o, &-a);
                dig(&mut o, &(a + b)); dig(&mut o, &(a - b)); dig(&mut o, &(a * b)); dig(&mut o, &(a / b)); dig(&mut o, &(a % b));
                dig(&mut o, &(a + 2.5)); dig(&mut o, &(2.5 / a)); dig(&mut o, &(a * 0.1));
            }
            16 => dig(&mut o, &a.map_row::<2, f32>(|v| [v[0], v[v.len() - 1]])),
            17 => dig(&mut o, &a.fold(0f32, |s, v| s * 0.5 + v)),
            18 => {
                dig(&mut o, &init::linspace(0.5, self.n as f32 + 1., self.m + 1));
                dig(&mut o, &init::logspace(0.5, self.m as f32 + 1., self.n + 1));
                dig(&mut o, &init::geomspace(0.5, self.n as f32 + 1., self.m + 1));
                dig(&mut o, &init::arange(0., self.n as f32, 0.25));
            }
            19 => { dig(&mut o, &init::eye::<f32>(self.n)); dig(&mut o, &init::tri::<i32>(self.m)) }
            20 => for t in init::meshgrid([a, b]) { dig(&mut o, &t) },
            21 => {
                let (w, rate) = decode_wav(&self.bytes);
                dig(&mut o, &w);
                o.extend(rate.iter().map(|v| *v as u64));
            }
            22 => o.extend(format!("{:?}", a).bytes().map(|b| b as u64)),
            23 => dig(&mut o, &init::random_normal([self.n, self.m], init::Normal::seed(self.n as u64 + 1))),
            24 => { o.push((a == b) as u64); o.push((a == a) as u64); o.push((a < b) as u64) }
            25 => dig(&mut o, &a.clone().expand_dims(0).squeeze()),
            26 => { dig(&mut o, &a.diagflat()); dig(&mut o, &init::one_hot([self.n, 0, self.m], 10)) }
            27 => {
                let k = a.size() / self.m;
                if k > 0 {
                    let x = a.subslice(0, self.m * k).reshape([self.m, k]);
                    dig(&mut o, &x.tril());
                    dig(&mut o, &x.triu());
                    for t in x.unstack(1isize) { dig(&mut o, &t) }
                }
            }
            28 => { dig(&mut o, &a.powf(b)); dig(&mut o, &a.atan2(b)); dig(&mut o, &a.hypot(b)) }
            29 | 40 | 41 => {
                macro_rules! all { ($($f:ident)*) => { $(dig(&mut o, &a.$f());)* } }
                macro_rules! axes { ($($f:ident)*) => { $(dig(&mut o, &a.$f(if self.twice == 0 { 0isize } else { -1 }));)* } }
                if self.kind != 41 {
                    all!(reduce_sum reduce_product reduce_min reduce_max reduce_mean reduce_variance reduce_std reduce_hypot);
                } else {
                    axes!(reduce_sum_axis reduce_product_axis reduce_min_axis reduce_max_axis reduce_mean_axis reduce_variance_axis reduce_std_axis);
                }
            }
            30 => {
                let mut x = Rand64(self.n as u128 * 77 + 5);
                let mut y = Rand32(self.m as u64 * 77 + 5);
                for _ in 0..8 { o.push(x.next()); o.push(y.next() as u64); o.push(x.next_normal().to_bits() as u64) }
            }
            31 => dig(&mut o, &init::random_uniform([self.n, self.m], init::Uniform::seed(self.m as u64 + 9))),
            32 => {
                // larger products
                let k = (a.size() as f64).sqrt() as usize;
                let x = a.subslice(0, k * k).reshape([k, k]);
                let y = b.subslice(0, k * k).reshape([k, k]);
                dig(&mut o, &x.matmul(&y));
                dig(&mut o, &x.matvec(&y));
            }
            33 => dig(&mut o, &a.map3(b, a, |x, y, z| x * y - z)),
            34 => { let t: Tensor<f32> = a.iter().chain(b.iter()).collect(); dig(&mut o, &t); dig(&mut o, &Tensor::from_merge(&[a.clone(), b.clone()], [2 * a.size()])) }
            35 => {
                let mut seen = vec![];
                let t = Tensor::init_rindexed([self.n, self.m], |i| { seen.extend_from_slice(i); (i[0] * 100 + i[1]) as f32 });
                o.extend(seen.iter().map(|v| *v as u64));
                dig(&mut o, &t);
            }
            36 => {
                dig(&mut o, &a.normalize(Axis::axis(0), 0f32, |s, v| s + v, |s| s + 1., |s, v| s - v));
                dig(&mut o, &a.fold_axis(Axis::axis(-1), 1f32, |s, v| s * 0.25 + v));
            }
            37 => {
                dig(&mut o, &a.fold_row(Axis::axis(0), Ends([0., 0.]), |s: Ends, v| Ends([s.0[0] + v[0], s.0[1] * 0.5 + v[v.len() - 1]])));
                dig(&mut o, &a.map_expand::<3, f32>(|v| [*v, v + 1., 2. * v]));
                dig(&mut o, &a.reduce(|x, y| x * 0.5 + y));
            }
            38 => dig(&mut o, &Tensor::from(&vec![a.clone(), b.clone()])),
            _ => { for v in a.iter_row() { o.extend(v.iter().map(|v| v.bits())) } dig(&mut o, &a.clone().flatten()) }
        }
        o
    }

    /// Approximately: floating point functions are not exact in an interpreter
    /// that adds noise.
    pub fn agrees(&self, x: &Digest, y: &Digest) -> bool {
        if !cfg!(miri) { return x == y; }
        x.len() == y.len() || matches!(self.kind, 21 | 22)
    }
}

/// What happens in between: refused requests, unseeded draws.
fn disturb(r: &mut Rng) {
    let t = Tensor::from(vec![1f32, 2., 3., 4., 5., 6.]);
    let u = t.clone().reshape([2, 3]);
    let _ = catch_unwind(AssertUnwindSafe(|| match r.below(18) {
        0 => { u.matmul(&u); }
        1 => { u.matvec(&t); }
        2 => { let _ = &u + &t; }
        3 => { u.map(|v| { if *v > 3. { panic!("user") } *v }); }
        4 => { u.fold_axis(essay_tensor::tensor::Axis::axis(0), 0f32, |s, v| { if *v > 5. { panic!("user") } s + v }); }
        5 => { Tensor::init([4, 4], || -> f32 { panic!("user") }); }
        6 => { Rand64::new(); Rand32::new(); }
        7 => { decode_wav(vec![1u8; 60]); }
        8 => { array::concatenate([&t, &u].as_slice()); }
        9 => { init::linspace(2., 1., 4); }
        10 => { histogram(&u, 3usize); }
        11 => { let k = r.below(6); let mut i = 0; Tensor::init_rindexed([2, 3], |_| { if i == k { panic!("user") } i += 1; 0f32 }); }
        12 => { u.normalize(None, 0f32, |s, v| s + v, |_| -> f32 { panic!("user") }, |s, v| s * v); }
        13 => { u.map_row::<1, f32>(|v| { if v[0] > 2. { panic!("user") } [v[0]] }); }
        14 => { u.reduce(|x, y| { if y > 3. { panic!("user") } x }); }
        15 => { u.fold_row(Axis::axis(0), Ends([0.; 2]), |s: Ends, v| { if v[0] > 2. { panic!("user") } s }); }
        16 => { rfft_norm(&u.flatten(), FftArg::default().fft_length(1)); }
        _ => { init::random_normal([3], init::Normal::default()); }
    }));
}

/// Runs the operation from inside user code that another operation calls;
/// also returns what the other operation made of it.
fn inside(r: &mut Rng, job: &Job) -> (Digest, bool) {
    let mut got = None;
    let at = r.below(6);
    let mut calls = 0;
    let mut here = || {
        if calls == at { got = Some(job.run()) }
        calls += 1;
    };
    let v = vec![1f32, 2., 3., 4., 5., 6.];
    let t = Tensor::from(v.clone());
    let u = t.clone().reshape([3, 2]);
    let how = r.below(13);
    let fine = match how {
        0 => t.map(|x| { here(); x + 1. }).as_slice() == [2f32, 3., 4., 5., 6., 7.],
        1 => t.map2(&t, |x, y| { here(); x - y }).as_slice() == [0f32; 6],
        2 => t.map3(&t, &t, |x, _, _| { here(); *x }) == t,
        3 => { let mut i = 0; Tensor::init([2, 3], || { here(); i += 1; i as f32 }).as_slice() == v }
        4 => { let mut i = vec![]; Tensor::<u8>::init_rindexed([2, 3], |x| { here(); i.extend_from_slice(x); 0 }); i == [0, 0, 1, 0, 2, 0, 0, 1, 1, 1, 2, 1] }
        5 => u.map_row::<1, f32>(|x| { here(); here(); [x[0] + x[1]] }).as_slice() == [3f32, 7., 11.],
        6 => t.map_expand::<2, f32>(|x| { here(); [*x, 0.] }).size() == 12,
        7 => t.fold(0f32, |s, x| { here(); s + x }).as_slice() == [21f32],
        8 => u.fold_axis(Axis::axis(0), 0f32, |s, x| { here(); s + x }).as_slice() == [9f32, 12.],
        9 => u.fold_row(Axis::axis(0), Ends([0.; 2]), |s: Ends, x| { here(); here(); Ends([s.0[0] + x[0], s.0[1] + x[1]]) }).as_slice() == [9f32, 12.],
        10 => { here(); t.reduce(|x, y| { here(); x + y }).as_slice() == [21f32] }
        11 => t.normalize(None, 0f32, |s, x| s + x, |s| s, |s, x| { here(); s + x }).as_slice() == [22f32, 23., 24., 25., 26., 27.],
        _ => v.iter().map(|x| { here(); *x }).collect::<Tensor<f32>>() == t,
    };
    (got.unwrap_or_default(), fine)
}

/// C24: whatever happened before, in whichever thread, wherever the arguments
/// are stored, an operation has the same result.
pub fn history(cx: &mut Cx) {
    let max = if cx.rng.chance(4) { 3000 } else { *cx.rng.pick(&[8, 24, 48, 48, 100, 300]) };
    let n = 2 * max + 30;
    let specials = cx.rng.chance(15);
    let base: Tensor<f32> = (0..n).map(|_| {
        if specials { crate::model::gen_f32(&mut cx.rng) } else { (cx.rng.unit() * 8. - 4.) as f32 }
    }).collect();
    let kinds: Vec<usize> = (0..cx.rng.range(1, 4)).map(|_| cx.rng.below(KINDS)).collect();
    let jobs: Vec<Job> = (0..cx.rng.range(1, 6)).map(|_| {
        let kind = *cx.rng.pick(&kinds);
        // not meant for values that are not finite
        let kind = if specials && matches!(kind, 5 | 6 | 7) { 4 } else { kind };
        let max = if matches!(kind, 26 | 20) { max.min(60) } else if kind == 9 { max.min(100) } else { max };
        Job::new(&mut cx.rng, &base, kind, max)
    }).collect();
    drop(base);
    cx.op("C24", "operations repeated", (&kinds, jobs.len(), max, specials, cx.index));
    let mut first: Vec<Option<Digest>> = vec![None; jobs.len()];
    for step in 0..cx.rng.range(4, 16) {
        if cx.rng.chance(25) { disturb(&mut cx.rng) }
        let j = cx.rng.below(jobs.len());
        let how = cx.rng.below(5);
        let d = match how {
            0 => { let job = jobs[j].elsewhere(&mut cx.rng); job.run() }
            4 => {
                let (d, fine) = inside(&mut cx.rng, &jobs[j]);
                cx.count("operations inside callbacks", 1);
                if !fine { cx.fail("C24", format!("{}: an operation has another result when operation {} runs in its callback", cx.desc, jobs[j].kind)) }
                d
            }
            1 if cx.rng.chance(30) => { let job = jobs[j].clone(); std::thread::spawn(move || job.run()).join().expect("the operation in a thread") }
            _ => jobs[j].run(),
        };
        cx.count("operation results", 1);
        match &first[j] {
            None => first[j] = Some(d),
            Some(f) => {
                cx.checks += 1;
                if *f != d {
                    let at = (0..f.len().min(d.len())).find(|i| f[*i] != d[*i]).unwrap_or(f.len().min(d.len()));
                    cx.fail("C24", format!("{}: operation {} had another result before ({} and {} words, first difference at {}: {:x?} then {:x?}), step {}, {}",
                        cx.desc, jobs[j].kind, f.len(), d.len(), at, f.get(at), d.get(at), step, ["other storage", "perhaps in a thread", "the same arguments", "the same arguments", "in a callback"][how]));
                }
            }
        }
    }
}
