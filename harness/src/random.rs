//! C14: seeded random numbers.

use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::random::{Rand32, Rand64};
use essay_tensor::tensor::Tensor;

use crate::cx::Cx;
use crate::model::{shp, size};

// the published recurrences
const A32: u64 = 0x4822581B885237D5;
const C32: u64 = 0x6ED29E641A5F9CE5;
const M32: u32 = 0x8A53002D;
const A64: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
const C64: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
const M64: u64 = 0xA18E4C689403AE2D;

pub struct Ref32(pub u64);
impl Ref32 {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(A32).wrapping_add(C32);
        let r = (self.0 >> 32) as u32;
        (r ^ (r >> 16)).wrapping_mul(M32)
    }
    fn uniform(&mut self) -> f64 { self.next() as f64 / u32::MAX as f64 }
}

pub struct Ref64(pub u128);
impl Ref64 {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(A64).wrapping_add(C64);
        let r = (self.0 >> 32) as u64;
        (r ^ (r >> 32)).wrapping_mul(M64)
    }
    fn uniform(&mut self) -> f64 { self.next() as f64 / u64::MAX as f64 }
}

fn inv64(a: u64) -> u64 {
    let mut x = 1u64;
    for _ in 0..7 { x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))) }
    x
}
fn inv128(a: u128) -> u128 {
    let mut x = 1u128;
    for _ in 0..8 { x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x))) }
    x
}

/// A seed whose k-th output is the given value.
fn seed32(out: u32, low: u32, k: usize) -> u64 {
    let r = out.wrapping_mul(inv64(M32 as u64) as u32);
    let r = r ^ (r >> 16);
    let mut s = ((r as u64) << 32) | low as u64;
    for _ in 0..k { s = s.wrapping_sub(C32).wrapping_mul(inv64(A32)) }
    s
}
fn seed64(out: u64, noise: u64, k: usize) -> u128 {
    let r = out.wrapping_mul(inv64(M64));
    let r = r ^ (r >> 32);
    let mut s = ((r as u128) << 32) | (noise as u32 as u128) | ((noise as u128 >> 32) << 96);
    for _ in 0..k { s = s.wrapping_sub(C64).wrapping_mul(inv128(A64)) }
    s
}

fn any_seed32(cx: &mut Cx) -> u64 {
    let (o, l, k) = (cx.rng.below(6), cx.rng.u32(), cx.rng.range(1, 4));
    match o {
        0 => *cx.rng.pick(&[0, 1, 2, 42, 100, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63, u32::MAX as u64]),
        1 => seed32(0, l, k),
        2 => seed32(u32::MAX, l, k),
        3 => cx.rng.below(1000) as u64,
        _ => cx.rng.u64(),
    }
}

fn any_seed64(cx: &mut Cx) -> u128 {
    let (o, n, k) = (cx.rng.below(6), cx.rng.u64(), cx.rng.range(1, 4));
    match o {
        0 => *cx.rng.pick(&[0, 1, 2, u128::MAX, u64::MAX as u128, 1 << 64, 1 << 127]),
        1 => seed64(0, n, k),
        2 => seed64(u64::MAX, n, k),
        3 => cx.rng.u64() as u128,
        _ => ((cx.rng.u64() as u128) << 64) | n as u128,
    }
}

/// Normal value from two uniform values, in double precision; the bound is that
/// of an evaluation with the given epsilon.
fn box_muller(u1: f64, u2: f64) -> f64 {
    (-2. * u1.ln()).sqrt() * (std::f64::consts::TAU * u2).cos()
}

fn near(got: f64, exp: f64, tol: f64) -> bool {
    (got - exp).abs() <= tol
}

/// Raw streams, uniform and normal values of generators.
pub fn streams(cx: &mut Cx) {
    let n = if cx.small { 12 } else if cx.rarely(300) { cx.rng.range(200, 20_000) } else { cx.rng.range(4, 200) };
    let other_thread = cx.rng.chance(if cx.small { 5 } else { 20 });
    if cx.rng.chance(50) {
        let seed = any_seed32(cx);
        let kinds: Vec<usize> = (0..n).map(|_| cx.rng.below(3)).collect();
        cx.op("C14", "Rand32", (seed, n, other_thread));
        let k2 = kinds.clone();
        let run = move || {
            let mut r = Rand32(seed);
            k2.iter().map(|k| match k {
                0 => r.next() as f64,
                1 => r.next_uniform() as f64,
                _ => r.next_normal() as f64,
            }).collect::<Vec<f64>>()
        };
        let got = if other_thread { std::thread::spawn(run).join().expect("stream in a thread") } else { run() };
        let mut r = Ref32(seed);
        for (i, k) in kinds.iter().enumerate() {
            let (ok, e) = match k {
                0 => { let e = r.next() as f64; (got[i] == e, e) }
                1 => { let e = r.uniform(); (near(got[i], e, 2.4e-7) && (0. ..=1.).contains(&got[i]), e) }
                _ => {
                    let (a, b) = (r.uniform(), r.uniform());
                    let e = box_muller(a.max(f32::MIN_POSITIVE as f64), b);
                    (got[i].is_finite() && (near(got[i], e, 2e-5) || edge32(a) && got[i].abs() < 20.), e)
                }
            };
            cx.checks += 1;
            if !ok {
                cx.fail("C14", format!("{}: draw {} of kind {} is {:?}, expected {:?}", cx.desc, i, k, got[i], e));
            }
        }
    } else {
        let seed = any_seed64(cx);
        let kinds: Vec<usize> = (0..n).map(|_| cx.rng.below(3)).collect();
        cx.op("C14", "Rand64", (seed, n, other_thread));
        let k2 = kinds.clone();
        let run = move || {
            let mut r = Rand64(seed);
            k2.iter().map(|k| match k {
                0 => (r.next(), 0.),
                1 => (0, r.next_uniform()),
                _ => (0, r.next_normal()),
            }).collect::<Vec<(u64, f64)>>()
        };
        let got = if other_thread { std::thread::spawn(run).join().expect("stream in a thread") } else { run() };
        let mut r = Ref64(seed);
        for (i, k) in kinds.iter().enumerate() {
            let (ok, e) = match k {
                0 => { let e = r.next(); (got[i].0 == e, e as f64) }
                1 => { let e = r.uniform(); (near(got[i].1, e, 1e-15) && (0. ..=1.).contains(&got[i].1), e) }
                _ => {
                    let (a, b) = (r.uniform(), r.uniform());
                    let e = box_muller(a.max(f64::MIN_POSITIVE), b);
                    (got[i].1.is_finite() && (near(got[i].1, e, 1e-11) || edge64(a) && got[i].1.abs() < 60.), e)
                }
            };
            cx.checks += 1;
            if !ok {
                cx.fail("C14", format!("{}: draw {} of kind {} is {:?}, expected {:?}", cx.desc, i, k, got[i], e));
            }
        }
    }
}

/// The first uniform value of a normal number is so close to 0 (its logarithm is
/// not defined or very large) or to 1 (its logarithm cancels) that only
/// finiteness is specified.
fn edge32(u: f64) -> bool { u < 1e-9 || u > 1. - 1e-5 }
fn edge64(u: f64) -> bool { u < 1e-18 || u > 1. - 1e-12 }

/// Seeds from strings.
pub fn strings(cx: &mut Cx) {
    let s: String = match cx.rng.below(4) {
        0 => String::new(),
        1 => "seed".into(),
        2 => (0..cx.rng.range(1, 20)).map(|_| char::from(cx.rng.range(32, 126) as u8)).collect(),
        _ => (0..cx.rng.range(1, 8)).map(|_| char::from_u32(cx.rng.range(0xa0, 0x7ff) as u32).unwrap()).collect(),
    };
    cx.op("C14", "string seed", &s);
    let (mut s32, mut s64) = (0u64, 0u128);
    for b in s.bytes() {
        s32 = s32.wrapping_mul(A32).wrapping_add(C32).wrapping_add(b as u64);
        s64 = s64.wrapping_mul(A64).wrapping_add(C64).wrapping_add(b as u128);
    }
    let (mut a, mut b) = (Rand32::from(s.as_str()), Ref32(s32));
    let (mut c, mut d) = (Rand64::from(s.as_str()), Ref64(s64));
    for i in 0..20 {
        cx.checks += 2;
        let (x, y) = (a.next(), b.next());
        let (z, w) = (c.next(), d.next());
        if x != y || z != w {
            cx.fail("C14", format!("{}: draw {} is {} and {}, expected {} and {}", cx.desc, i, x, z, y, w));
        }
    }
}

/// Random options, built in a random way.
fn options(cx: &mut Cx) -> (Normal, Uniform, f32, f32, u64) {
    let mut seed = any_seed32(cx);
    let v = |cx: &mut Cx| match cx.rng.below(4) { 0 => 0., 1 => 1., 2 => cx.rng.below(200) as f32 - 100., _ => (cx.rng.unit() * 10. - 5.) as f32 };
    let (mut p, mut q) = (v(cx), v(cx));
    let (mut n, mut u);
    match cx.rng.below(6) {
        0 => { n = Normal::mean(p).with_std(q).with_seed(seed); u = Uniform::min(p).with_max(q).with_seed(seed); }
        1 => { n = Normal::std(q).with_seed(seed).with_mean(p); u = Uniform::max(q).with_seed(seed).with_min(p); }
        2 => { n = Normal::seed(seed).with_mean(p).with_std(q); u = Uniform::seed(seed).with_min(p).with_max(q); }
        3 => { n = Normal::from((p, q)).with_seed(seed); u = Uniform::from((p, q)).with_seed(seed); }
        4 => { n = Normal::from(Some(seed)); u = Uniform::from(Some(seed)); p = 0.; q = 1.; }
        _ => { n = Normal::default().with_seed(seed); u = Uniform::default().with_seed(seed); p = 0.; q = 1.; }
    }
    // overriding
    for _ in 0..cx.rng.below(3) {
        match cx.rng.below(3) {
            0 => { p = v(cx); n = n.with_mean(p); u = u.with_min(p); }
            1 => { q = v(cx); n = n.with_std(q); u = u.with_max(q); }
            _ => { seed = any_seed32(cx); n = n.with_seed(seed); u = u.with_seed(seed); }
        }
    }
    (n, u, p, q, seed)
}

/// Random tensors are the affine transform of the stream in row-major order.
pub fn tensors(cx: &mut Cx) {
    let shape = cx.any_shape(0, 5);
    let count = size(&shape);
    let (n, u, p, q, seed) = options(cx);
    let uniform = cx.rng.chance(50);
    cx.op("C14", if uniform { "random_uniform" } else { "random_normal" }, (&shape, p.to_bits(), q.to_bits(), seed));
    let way = cx.rng.chance(50);
    let t: Tensor = match (uniform, way) {
        (false, true) => random_normal(shp(&shape), n),
        (false, false) => Tensor::random_normal(shp(&shape), n),
        (true, true) => random_uniform(shp(&shape), u),
        (true, false) => Tensor::random_uniform(shp(&shape), u),
    };
    cx.invariant(&t);
    if t.shape().as_vec() != shape {
        cx.fail("C14", format!("{}: shape {:?}", cx.desc, t.shape().as_vec()));
    }
    let v = t.as_slice();
    let (p, q) = (p as f64, q as f64);
    let normal_like = |mean: f64, std: f64| -> Option<usize> {
        let mut r = Ref32(seed);
        (0..count).find(|i| {
            let (a, b) = (r.uniform(), r.uniform());
            let e = mean + std * box_muller(a.max(f32::MIN_POSITIVE as f64), b);
            let g = v[*i] as f64;
            let tol = 2e-5 * std.abs() + 4e-7 * (mean.abs() + 20. * std.abs());
            !(g.is_finite() && (near(g, e, tol) || edge32(a) && (g - mean).abs() <= 20. * std.abs() + tol))
        })
    };
    cx.checks += 1;
    if !uniform {
        if let Some(i) = normal_like(p, q) {
            cx.fail("C14", format!("{}: element {} is {:?}, not mean + deviation * stream", cx.desc, i, v[i]));
        }
    } else {
        let width = (q - p).max(0.);
        // one uniform number of the stream per element, in range
        let mut r = Ref32(seed);
        let tol = 1e-6 * (p.abs() + width);
        let bad = (0..count).find(|i| !near(v[*i] as f64, p + r.uniform() * width, tol));
        if let Some(i) = bad {
            if normal_like(p, width).is_none() {
                if (0..count).any(|i| (v[i] as f64) < p - tol || v[i] as f64 > p + width + tol) {
                    cx.finding("random_uniform draws normal numbers");
                }
            } else {
                cx.fail("C14", format!("{}: element {} is {:?}, not minimum + width * stream", cx.desc, i, v[i]));
            }
        }
    }
    // the same request again gives the same tensor
    let again: Tensor = if uniform { random_uniform(shp(&shape), u) } else { random_normal(shp(&shape), n) };
    if again.as_slice().iter().zip(v).any(|(a, b)| a.to_bits() != b.to_bits()) && !cfg!(miri) {
        cx.fail("C14", format!("{}: a second request with the same seed differs", cx.desc));
    }
}

/// Mean and spread of large samples.
pub fn moments(cx: &mut Cx) {
    let n = if cx.small { 400 } else { 4000 };
    let seed = cx.rng.u64();
    let (mean, std) = ((cx.rng.unit() * 10. - 5.) as f32, (cx.rng.unit() * 3. + 0.1) as f32);
    cx.op("C14", "moments", (mean.to_bits(), std.to_bits(), seed));
    let t = random_normal([n], Normal::mean(mean).with_std(std).with_seed(seed));
    let v: Vec<f64> = t.as_slice().iter().map(|v| *v as f64).collect();
    let m = v.iter().sum::<f64>() / n as f64;
    let s = (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64).sqrt();
    let se = std as f64 / (n as f64).sqrt();
    if (m - mean as f64).abs() > 7. * se || (s - std as f64).abs() > 7. * se {
        cx.fail("C14", format!("{}: mean {} and deviation {} of {} samples, requested {} and {}", cx.desc, m, s, n, mean, std));
    }
    let mut r = Rand64(seed as u128);
    let u: Vec<f64> = (0..n).map(|_| r.next_uniform()).collect();
    let m = u.iter().sum::<f64>() / n as f64;
    if (m - 0.5).abs() > 7. * 0.2887 / (n as f64).sqrt() {
        cx.fail("C14", format!("{}: uniform mean {}", cx.desc, m));
    }
}
