//! C11: matrix products.

use essay_tensor::linalg::{matmul, Transpose};
use essay_tensor::tensor::Tensor;

use crate::cx::Cx;
use crate::model::{size, spoil, In, M};
use crate::reduce::close;

const EPS: f64 = f32::EPSILON as f64;

fn dim(cx: &mut Cx) -> usize {
    if cx.small {
        return cx.rng.range(1, 5);
    }
    match cx.rng.below(20) {
        0..=3 => 1,
        4..=11 => cx.rng.range(2, 9),
        12..=16 => cx.rng.range(10, 34),
        17..=18 => *cx.rng.pick(&[47, 48, 49, 63, 64, 65]),
        _ => *cx.rng.pick(&[127, 128, 129, 255, 256, 257, 300]),
    }
}

fn dims(cx: &mut Cx) -> (usize, usize, usize) {
    if cx.rarely(100) {
        // one long dimension
        let mut d = [cx.rng.range(1, 5), cx.rng.range(1, 5), cx.rng.range(1, 5)];
        let at = cx.rng.below(3);
        d[at] = match cx.rng.below(10) {
            0 => *cx.rng.pick(&[4095, 4096, 4097, 8191, 8193, 20_000]),
            1 if cx.rng.chance(20) => *cx.rng.pick(&[65_535, 65_537, 70_000]),
            1..=4 => cx.rng.range(300, 3000),
            _ => *cx.rng.pick(&[511, 512, 513, 600, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500]),
        };
        return (d[0], d[1], d[2]);
    }
    loop {
        let (m, k, n) = (dim(cx), dim(cx), dim(cx));
        if m * k * n <= 400_000 {
            return (m, k, n);
        }
    }
}

fn values(cx: &mut Cx, n: usize) -> Vec<f32> {
    let r = &mut cx.rng;
    match r.below(5) {
        0 => (0..n).map(|_| r.below(9) as f32 - 4.).collect(),
        1 => (0..n).map(|_| if r.chance(10) { 1. } else { 0. }).collect(),
        2 => (0..n).map(|_| (10f64.powf(r.unit() * 6. - 3.) * if r.chance(50) { 1. } else { -1. }) as f32).collect(),
        3 => (0..n).map(|i| i as f32 + 1.).collect(),
        _ => (0..n).map(|_| (r.unit() * 2. - 1.) as f32).collect(),
    }
}

fn input(cx: &mut Cx, shape: &[usize]) -> In<f32> {
    let mut v = values(cx, size(shape));
    if cx.rng.chance(6) {
        // a few infinities and not-a-numbers: they reach the products they are part of, and no other
        for _ in 0..cx.rng.range(1, 3) {
            let i = cx.rng.below(v.len());
            v[i] = *cx.rng.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN]);
        }
    }
    cx.tensor_of::<f32>(M::new(shape.to_vec(), v.iter().map(|v| v.to_bits()).collect()))
}

fn batch(cx: &mut Cx, budget: usize) -> Vec<usize> {
    let rank = *cx.rng.pick(&[0, 0, 0, 1, 1, 2, 3]);
    let mut left = budget.max(1);
    (0..rank).map(|_| {
        let d = cx.rng.range(1, left.min(4).max(1));
        left /= d;
        d
    }).collect()
}

fn at(m: &M<f32>, i: usize) -> f64 {
    f32::from_bits(m.data[i]) as f64
}

/// Matrix times matrix for all transpose modes.
pub fn matrix(cx: &mut Cx) {
    let (m, k, n) = dims(cx);
    let b = batch(cx, (400_000 / (m * k * n)).max(1));
    let mode = cx.rng.below(4);
    let (ta, tb) = (mode & 1 == 1, mode & 2 == 2);
    let t = || match mode {
        0 => Transpose::None,
        1 => Transpose::TransposeA,
        2 => Transpose::TransposeB,
        _ => Transpose::TransposeAB,
    };
    let with = |x: usize, y: usize| { let mut s = b.clone(); s.push(x); s.push(y); s };
    let sa = if ta { with(k, m) } else { with(m, k) };
    let sb = if tb { with(n, k) } else { with(k, n) };
    let x = input(cx, &sa);
    // sometimes both operands are the same tensor
    let y = if sa == sb && cx.rng.chance(40) {
        In { t: x.t.clone(), m: x.m.clone(), route: 99 }
    } else {
        input(cx, &sb)
    };
    cx.op("C11", "matmul", (&b, m, k, n, mode, x.route, y.route));
    let r = match (mode, cx.rng.below(3)) {
        (0, 0) => x.t.matmul(&y.t),
        (0, 1) => matmul(&x.t, &y.t),
        _ => x.t.matmul_t(&y.t, t()),
    };
    let (mut exp, mut bound) = (Vec::new(), Vec::new());
    for q in 0..size(&b) {
        for i in 0..m {
            for j in 0..n {
                let (mut s, mut abs) = (0., 0.);
                for l in 0..k {
                    let p = at(&x.m, q * m * k + if ta { l * m + i } else { i * k + l })
                        * at(&y.m, q * k * n + if tb { j * k + l } else { l * n + j });
                    s += p;
                    abs += p.abs();
                }
                exp.push(s);
                bound.push(if s.is_finite() { (k + 2) as f64 * EPS * abs } else { 0. });
            }
        }
    }
    close(cx, "C11", &r, &with(m, n), &exp, &bound);
    cx.still(&x);
    cx.still(&y);
}

/// Matrix times vectors, the matrix may be shared by a batch.
pub fn vector(cx: &mut Cx) {
    let (m, k, rows) = dims(cx);
    let ta = cx.rng.chance(40);
    // x: batch, rows of vectors, k
    let has_rows = cx.rng.chance(60);
    let rows = if has_rows { rows } else { 1 };
    let bx = if has_rows { batch(cx, 400_000 / (m * k * rows)) } else { vec![] };
    // the matrix has all, none or the inner part of the batch
    let ba = match cx.rng.below(3) {
        0 => bx.clone(),
        1 => vec![],
        _ => { let i = cx.rng.below(bx.len() + 1); bx[i..].to_vec() }
    };
    let mut sa = ba.clone();
    if ta { sa.extend([k, m]) } else { sa.extend([m, k]) }
    let mut sx = bx.clone();
    if has_rows { sx.push(rows) }
    sx.push(k);
    let a = input(cx, &sa);
    let x = input(cx, &sx);
    cx.op("C11", "matvec", (&sa, &sx, ta, a.route, x.route));
    let r: Tensor = if ta {
        a.t.matvec_t(&x.t, Transpose::TransposeA)
    } else if cx.rng.chance(50) {
        a.t.matvec(&x.t)
    } else {
        a.t.matvec_t(&x.t, Transpose::None)
    };
    let na = size(&ba);
    let (mut exp, mut bound) = (Vec::new(), Vec::new());
    for q in 0..size(&bx) {
        let ao = (q % na) * m * k;
        for v in 0..rows {
            for i in 0..m {
                let (mut s, mut abs) = (0., 0.);
                for l in 0..k {
                    let p = at(&a.m, ao + if ta { l * m + i } else { i * k + l }) * at(&x.m, (q * rows + v) * k + l);
                    s += p;
                    abs += p.abs();
                }
                exp.push(s);
                bound.push(if s.is_finite() { (k + 2) as f64 * EPS * abs } else { 0. });
            }
        }
    }
    let mut so = sx.clone();
    *so.last_mut().unwrap() = m;
    close(cx, "C11", &r, &so, &exp, &bound);
    cx.still(&a);
    cx.still(&x);
}

/// Operands that do not fit.
pub fn refusals(cx: &mut Cx) {
    let (m, k, n) = (cx.rng.range(1, 5), cx.rng.range(1, 5), cx.rng.range(1, 5));
    let k2 = k + cx.rng.range(1, 3);
    let with = |b: &[usize], x: usize, y: usize| { let mut s = b.to_vec(); s.push(x); s.push(y); s };
    match cx.rng.below(6) {
        4 => {
            // near misses: the batch of the matrix is no inner part of that of the vectors
            let bx = batch(cx, 64);
            let bx = if bx.is_empty() { vec![2, 3] } else { bx };
            let cut = cx.rng.below(bx.len());
            let ba = spoil(&mut cx.rng, &bx[cut..]);
            // outer ones are no batch
            let outer = ba.iter().take_while(|d| **d == 1).count();
            if (0..=outer).any(|i| bx.ends_with(&ba[i..])) || ba.len() > 5 { return; }
            let (sa, sx) = (with(&ba, m, k), with(&bx, n, k));
            let ta = cx.rng.chance(30);
            let sa = if ta { with(&ba, k, m) } else { sa };
            let (a, x) = (input(cx, &sa), input(cx, &sx));
            cx.op("C11", "matvec batch near miss", (&sa, &sx, ta));
            let t = if ta { Transpose::TransposeA } else { Transpose::None };
            cx.refuse("C11", &format!("matvec {:?} {:?} {}", sa, sx, ta), || a.t.matvec_t(&x.t, t));
        }
        5 => {
            let b1 = batch(cx, 64);
            let b1 = if b1.is_empty() { vec![2, 3] } else { b1 };
            let b2 = spoil(&mut cx.rng, &b1);
            if b1 == b2 || b2.len() > 5 { return; }
            let (b1, b2) = if cx.rng.chance(50) { (b1, b2) } else { (b2, b1) };
            let mode = cx.rng.below(4);
            let t = match mode { 0 => Transpose::None, 1 => Transpose::TransposeA, 2 => Transpose::TransposeB, _ => Transpose::TransposeAB };
            let sa = if mode & 1 == 1 { with(&b1, k, m) } else { with(&b1, m, k) };
            let sb = if mode & 2 == 2 { with(&b2, n, k) } else { with(&b2, k, n) };
            let (x, y) = (input(cx, &sa), input(cx, &sb));
            cx.op("C11", "batch near miss", (&sa, &sb, mode));
            cx.refuse("C11", &format!("matmul {:?} {:?} mode {}", sa, sb, mode), || x.t.matmul_t(&y.t, t));
        }
        3 => {
            // the batch of the matrix does not divide into that of the vectors
            let (p, q) = (cx.rng.range(2, 4), cx.rng.range(2, 4));
            if p == q { return; }
            let outer = cx.rng.below(3);
            let (sa, mut sx) = (vec![p, m, k], vec![q, n, k]);
            if outer == 1 { sx.insert(0, 2) }
            if outer == 2 { sx.insert(0, p); }
            let (a, x) = (input(cx, &sa), input(cx, &sx));
            cx.op("C11", "matvec batch mismatch", (&sa, &sx));
            cx.refuse("C11", &format!("matvec {:?} {:?}", sa, sx), || a.t.matvec(&x.t));
        }
        0 => {
            let mode = cx.rng.below(4);
            let t = match mode { 0 => Transpose::None, 1 => Transpose::TransposeA, 2 => Transpose::TransposeB, _ => Transpose::TransposeAB };
            let (k1, k2) = if cx.rng.chance(50) { (k, k2) } else { (k2, k) };
            let b = batch(cx, 8);
            let sa = if mode & 1 == 1 { with(&b, k1, m) } else { with(&b, m, k1) };
            let sb = if mode & 2 == 2 { with(&b, n, k2) } else { with(&b, k2, n) };
            let (x, y) = (input(cx, &sa), input(cx, &sb));
            cx.op("C11", "inner mismatch", (&sa, &sb, mode));
            cx.refuse("C11", &format!("matmul {:?} {:?} mode {}", sa, sb, mode), || x.t.matmul_t(&y.t, t));
        }
        1 => {
            // different batches
            let b1: Vec<usize> = (0..cx.rng.below(4)).map(|_| cx.rng.range(1, 3)).collect();
            let b2: Vec<usize> = (0..cx.rng.below(4)).map(|_| cx.rng.range(1, 3)).collect();
            if size(&b1) == size(&b2) { return; }
            let (sa, sb) = (with(&b1, m, k), with(&b2, k, n));
            let (x, y) = (input(cx, &sa), input(cx, &sb));
            cx.op("C11", "batch mismatch", (&sa, &sb));
            cx.refuse("C11", &format!("matmul {:?} {:?}", sa, sb), || x.t.matmul(&y.t));
        }
        _ => {
            let ta = cx.rng.chance(50);
            let sa = if ta { vec![k, m] } else { vec![m, k] };
            let sx = if cx.rng.chance(50) { vec![k2] } else { vec![n, k2] };
            let (a, x) = (input(cx, &sa), input(cx, &sx));
            cx.op("C11", "matvec mismatch", (&sa, &sx, ta));
            let t = if ta { Transpose::TransposeA } else { Transpose::None };
            cx.refuse("C11", &format!("matvec {:?} {:?} {}", sa, sx, ta), || a.t.matvec_t(&x.t, t));
        }
    }
}
