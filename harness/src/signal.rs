//! C17: spectra; C18: histograms.

use essay_tensor::signal::{rfft_norm, FftArg, FftOpt};
use essay_tensor::stats::{histogram, histogram2d, Hist2Args, HistArgs};
use essay_tensor::tensor::Tensor;

use crate::cx::Cx;
use crate::model::{size, M};
use crate::reduce::{close, stat_values};

const EPS: f64 = f32::EPSILON as f64;

/// Magnitudes of the Fourier transform of each windowed row.
pub fn spectrum(cx: &mut Cx) {
    let len = if cx.small { cx.rng.range(1, 9) } else {
        match cx.rng.below(10) {
            0 => 1,
            1..=4 => cx.rng.range(2, 20),
            5..=6 => *cx.rng.pick(&[31, 32, 33, 37, 64, 97, 100, 101, 127, 128]),
            7..=8 => cx.rng.range(20, 130),
            _ => *cx.rng.pick(&[255, 256, 257, 360, 509, 512]),
        }
    };
    let len = if cx.rarely(300) { *cx.rng.pick(&[800, 1000, 1023, 1024, 1025, 1500, 2048, 2053, 3000, 4096]) } else { len };
    let rank = *cx.rng.pick(&[0, 0, 1, 1, 2, 3]);
    let mut left = (2000 / len).clamp(1, 12);
    let mut shape: Vec<usize> = (0..rank).map(|_| {
        let d = cx.rng.range(1, left.min(4).max(1));
        left /= d;
        d
    }).collect();
    if len < 20 && !shape.is_empty() && cx.rarely(100) {
        // many rows
        shape[rank - 1] = cx.rng.range(20, 300);
    }
    let batch = size(&shape);
    shape.push(len);
    let n = size(&shape);
    let r = &mut cx.rng;
    let mut vals: Vec<f32> = match r.below(5) {
        0 => (0..n).map(|i| (i % len == 1) as u8 as f32).collect(),
        1 => {
            let f = r.unit() * 3.;
            (0..n).map(|i| ((i as f64) * f).cos() as f32).collect()
        }
        2 => (0..n).map(|_| 1.).collect(),
        3 => (0..n).map(|_| (10f64.powf(r.unit() * 6. - 3.)) as f32).collect(),
        _ => (0..n).map(|_| (r.unit() * 2. - 1.) as f32).collect(),
    };
    if r.chance(30) {
        // very quiet and very loud rows side by side
        for row in vals.chunks_mut(len) {
            let f = 10f64.powi(r.below(53) as i32 - 26) as f32;
            row.iter_mut().for_each(|v| *v *= f);
        }
    }
    if batch > 1 && r.chance(30) {
        // silent rows, and rows repeated, among others
        for k in 0..batch {
            match r.below(3) {
                0 => vals[k * len..(k + 1) * len].fill(if r.chance(80) { 0. } else { -0. }),
                1 if k > 0 => vals.copy_within((k - 1) * len..k * len, k * len),
                _ => {}
            }
        }
    } else if r.chance(3) {
        vals.fill(0.);
    }
    let a = cx.tensor_of::<f32>(M::new(shape.clone(), vals.iter().map(|v| v.to_bits()).collect()));
    let full = len / 2 + 1;
    let want = match cx.rng.below(5) {
        0 => Some(cx.rng.range(1, full)),
        1 => Some(full + cx.rng.below(6)),
        2 => Some(*cx.rng.pick(&[1, full, len, 2 * len])),
        _ => None,
    };
    cx.op("C17", "rfft_norm", (&shape, want, a.route));
    let t: Tensor = match (want, cx.rng.below(2)) {
        (None, 0) => rfft_norm(a.t.clone(), ()),
        (None, _) => rfft_norm(&a.t, FftArg::default()),
        (Some(w), 0) => rfft_norm(&a.t, ().fft_length(w)),
        (Some(w), _) => rfft_norm(a.t.clone(), FftArg::default().fft_length(w)),
    };
    let out_len = want.unwrap_or(full);
    let pi = std::f64::consts::PI;
    let win: Vec<f64> = (0..len).map(|i| (pi * i as f64 / len as f64).sin().powi(2)).collect();
    let (mut exp, mut bound) = (Vec::new(), Vec::new());
    for b in 0..batch {
        let x: Vec<f64> = (0..len).map(|i| vals[b * len + i] as f64 * win[i]).collect();
        let abs: f64 = vals[b * len..(b + 1) * len].iter().map(|v| v.abs() as f64).sum();
        for k in 0..out_len {
            if k >= full {
                exp.push(0.);
                bound.push(0.);
                continue;
            }
            let (mut re, mut im) = (0., 0.);
            for (i, v) in x.iter().enumerate() {
                let ph = -2. * pi * ((i * k) % len) as f64 / len as f64;
                re += v * ph.cos();
                im += v * ph.sin();
            }
            exp.push((re * re + im * im).sqrt());
            bound.push(2e-6 * (4. + (len as f64).log2()) * abs);
        }
    }
    let mut out = shape.clone();
    *out.last_mut().unwrap() = out_len;
    close(cx, "C17", &t, &out, &exp, &bound);
    cx.still(&a);
}

fn data(cx: &mut Cx, n: usize) -> (Vec<f32>, &'static str) {
    let (mut v, mut name) = stat_values(cx, n);
    if cx.rng.chance(20) {
        // values exactly at the edges
        let bins = cx.rng.range(1, 12);
        v = (0..n).map(|_| cx.rng.below(bins + 1) as f32).collect();
        name = "edges";
    }
    (v, name)
}

/// Which bins a value may be counted in.
fn bins_of(x: f64, lo: f64, hi: f64, n: usize) -> (usize, usize) {
    if lo == hi {
        return (0, n - 1);
    }
    let delta = (hi - lo) / n as f64;
    let pos = (x - lo) / delta;
    let tol = 8. * EPS * (n as f64 + lo.abs().max(hi.abs()) / delta);
    let f = |p: f64| (p.floor().max(0.) as usize).min(n - 1);
    (f(pos - tol), f(pos + tol))
}

fn edges(cx: &mut Cx, t: &Tensor, lo: f64, hi: f64, n: usize) {
    let exp: Vec<f64> = (0..=n).map(|i| lo + (hi - lo) * i as f64 / n as f64).collect();
    let bound: Vec<f64> = exp.iter().map(|_| 4. * EPS * lo.abs().max(hi.abs())).collect();
    close(cx, "C18", t, &[n + 1], &exp, &bound);
}

fn counts(cx: &mut Cx, got: &[f32], must: &[u64], may: &[u64], total: usize) {
    cx.checks += 1;
    let sum: f64 = got.iter().map(|v| *v as f64).sum();
    if sum != total as f64 {
        cx.fail("C18", format!("{}: {} of {} samples are counted", cx.desc, sum, total));
    }
    for i in 0..got.len() {
        if !(got[i] as f64 >= must[i] as f64 && got[i] as f64 <= may[i] as f64) || got[i].fract() != 0. {
            cx.fail("C18", format!("{}: bin {} has {}, expected {}..={}", cx.desc, i, got[i], must[i], may[i]));
        }
    }
}

fn bin_count(cx: &mut Cx, max: usize, n: usize) -> usize {
    if n < 200 && !cx.small && cx.rng.below(3000) == 0 {
        if max <= 20 { return *cx.rng.pick(&[127, 128, 129, 255, 256, 257, 300]) }
        return *cx.rng.pick(&[255, 256, 257, 4096, 32_768, 65_535, 65_536, 65_537, 70_000, 140_000]);
    }
    match cx.rng.below(6) {
        0 => 1,
        1 => 2,
        2 => 10,
        _ => cx.rng.range(1, max),
    }
}

fn extent(v: impl Iterator<Item = f32>) -> (f64, f64) {
    v.fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(v as f64), h.max(v as f64)))
}

pub fn hist1(cx: &mut Cx) {
    let max = cx.max_size();
    let n = if cx.rarely(4000) { *cx.rng.pick(&[65_536, 70_000, 140_000]) } else { cx.rng.range(1, max.min(9000)) };
    let (v, name) = data(cx, n);
    let bins = bin_count(cx, 60, n);
    let a = cx.tensor_of::<f32>(M::new(vec![n], v.iter().map(|v| v.to_bits()).collect()));
    cx.op("C18", "histogram", (n, bins, name, a.route, v[0].to_bits()));
    let (c, e) = match cx.rng.below(4) {
        0 if bins == 10 => histogram(&a.t, ()),
        1 if bins == 10 => histogram(&a.t, HistArgs::default()),
        2 => histogram(a.t.clone(), HistArgs::new().n_bins(bins)),
        _ => histogram(&a.t, bins),
    };
    let (lo, hi) = extent(v.iter().cloned());
    edges(cx, &e, lo, hi, bins);
    cx.invariant(&c);
    if c.shape().as_vec() != [bins] {
        cx.fail("C18", format!("{}: counts have shape {:?}", cx.desc, c.shape().as_vec()));
    }
    let (mut must, mut may) = (vec![0; bins], vec![0; bins]);
    for x in &v {
        let (p, q) = bins_of(*x as f64, lo, hi, bins);
        if p == q { must[p] += 1 }
        for b in p..=q { may[b] += 1 }
    }
    counts(cx, c.as_slice(), &must, &may, n);
    cx.still(&a);
}

pub fn hist2(cx: &mut Cx) {
    let max = cx.max_size();
    let n = if cx.rarely(4000) { *cx.rng.pick(&[32_768, 65_537, 70_000]) } else { cx.rng.range(1, max.min(3000)) };
    let (x, nx) = data(cx, n);
    let (y, ny) = data(cx, n);
    let bins = bin_count(cx, 20, n);
    let v: Vec<u32> = (0..n).flat_map(|i| [x[i].to_bits(), y[i].to_bits()]).collect();
    let a = cx.tensor_of::<f32>(M::new(vec![n, 2], v));
    cx.op("C18", "histogram2d", (n, bins, nx, ny, a.route, x[0].to_bits()));
    let (c, ex, ey) = match cx.rng.below(4) {
        0 if bins == 10 => histogram2d(&a.t, ()),
        1 if bins == 10 => histogram2d(&a.t, Hist2Args::default()),
        2 => histogram2d(a.t.clone(), Hist2Args::new().n_bins(bins)),
        _ => histogram2d(&a.t, bins),
    };
    let (lx, hx) = extent(x.iter().cloned());
    let (ly, hy) = extent(y.iter().cloned());
    edges(cx, &ex, lx, hx, bins);
    edges(cx, &ey, ly, hy, bins);
    cx.invariant(&c);
    if c.shape().as_vec() != [bins, bins] {
        cx.fail("C18", format!("{}: counts have shape {:?}", cx.desc, c.shape().as_vec()));
    }
    let (mut must, mut may) = (vec![0; bins * bins], vec![0; bins * bins]);
    for i in 0..n {
        let (p, q) = bins_of(x[i] as f64, lx, hx, bins);
        let (r, s) = bins_of(y[i] as f64, ly, hy, bins);
        if p == q && r == s { must[r * bins + p] += 1 }
        for b in r..=s { for d in p..=q { may[b * bins + d] += 1 } }
    }
    counts(cx, c.as_slice(), &must, &may, n);
    cx.still(&a);
}
