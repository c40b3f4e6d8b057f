//! C12: initialisers; C13: numeric ranges.

use essay_tensor::init;
use essay_tensor::tensor::Tensor;
use num_traits::{One, Zero};

use crate::any_elem;
use crate::cx::Cx;
use crate::ledger::Tracked;
use crate::model::{shp, size, spoil, Elem, M};
use crate::reduce::close;

/// Zeros, ones, fills and initialiser functions.
pub fn fills(cx: &mut Cx) {
    match cx.rng.below(4) {
        0 => any_elem!(cx, fill_of),
        1 => any_elem!(cx, init_of),
        2 => zero_one(cx),
        _ => indexed(cx),
    }
}

fn fill_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    let v = E::gen(&mut cx.rng);
    cx.op("C12", "fill", (&shape, E::NAME));
    let r = if cx.rng.chance(50) { init::fill(shp(&shape), E::make(&v)) } else { Tensor::fill(shp(&shape), E::make(&v)) };
    let n = size(&shape);
    cx.eq("C12", &r, &M::new(shape, vec![v; n]));
}

fn init_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    let n = size(&shape);
    let reps = cx.reps::<E>(n);
    cx.op("C12", "init", (&shape, E::NAME));
    let mut calls = 0;
    let r = Tensor::init(shp(&shape), || {
        calls += 1;
        // too many calls are reported below
        E::make(&reps[(calls - 1) % n])
    });
    if calls != n {
        cx.fail("C12", format!("{}: the function is called {} times", cx.desc, calls));
    }
    cx.eq("C12", &r, &M::new(shape, reps));
}

fn zero_one(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    let n = size(&shape);
    macro_rules! zo { ($t:ty) => {{
        cx.op("C12", "zeros and ones", (&shape, stringify!($t)));
        let z = <$t>::zero().rep();
        let o = <$t>::one().rep();
        let r: Tensor<$t> = if cx.rng.chance(50) { init::zeros(shp(&shape)) } else { Tensor::zeros(shp(&shape)) };
        cx.eq("C12", &r, &M::new(shape.clone(), vec![z; n]));
        let r = Tensor::<$t>::init_default(shp(&shape));
        cx.eq("C12", &r, &M::new(shape.clone(), vec![<$t>::default().rep(); n]));
        let r: Tensor<$t> = if cx.rng.chance(50) { init::ones(shp(&shape)) } else { Tensor::ones(shp(&shape)) };
        cx.eq("C12", &r, &M::new(shape.clone(), vec![o; n]));
    }} }
    match cx.rng.below(7) {
        0 => zo!(f32),
        1 => zo!(f64),
        2 => zo!(u8),
        3 => zo!(i64),
        4 => zo!(u128),
        5 => zo!(num_complex::Complex<f32>),
        _ => zo!(Tracked),
    }
}

fn indexed(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    cx.op("C12", "init_rindexed", &shape);
    let mut log: Vec<Vec<usize>> = Vec::new();
    let r = Tensor::<Option<String>>::init_rindexed(shp(&shape), |i| {
        log.push(i.to_vec());
        Some(format!("{:?}", i))
    });
    let mut exp = Vec::new();
    let m = M::<Option<String>>::build(&shape, |i| {
        let mut i = i.to_vec();
        i.reverse();
        exp.push(i.clone());
        Some(format!("{:?}", i))
    });
    if log != exp {
        let k = (0..log.len().min(exp.len())).find(|k| log[*k] != exp[*k]);
        cx.fail("C12", format!("{}: {} calls for {} elements, first difference at {:?}", cx.desc, log.len(), exp.len(), k));
    }
    cx.count("logged calls", log.len() as u64);
    cx.eq("C12", &r, &m);
}

fn square(cx: &mut Cx) -> usize {
    if cx.rarely(150) { *cx.rng.pick(&[63, 64, 65, 100, 255, 256, 257, 300]) } else { cx.dim(40) }
}

/// Identity, triangles and diagonals.
pub fn matrices(cx: &mut Cx) {
    macro_rules! go { ($t:ty) => {{
        let zero = <$t>::zero().rep();
        let one = <$t>::one().rep();
        match cx.rng.below(6) {
            5 => {
                // not a vector, not a matrix
                if cx.rng.chance(60) {
                    let shape = if cx.rng.chance(30) { vec![] } else { cx.any_shape(2, 4) };
                    let a = cx.tensor::<$t>(&shape);
                    cx.op("C12", "diagflat of another rank", &shape);
                    cx.refuse("C12", &format!("diagflat of {:?}", shape), || a.t.diagflat());
                    if !shape.is_empty() {
                        let v = cx.tensor::<$t>(&[2]);
                        match cx.rng.below(3) {
                            0 => cx.refuse("C12", &format!("meshgrid of {:?}", shape), || a.t.meshgrid(&v.t)),
                            1 => cx.refuse("C12", &format!("meshgrid of {:?}", shape), || v.t.meshgrid(&a.t)),
                            _ => cx.refuse("C12", &format!("meshgrid_ij of {:?}", shape), || v.t.meshgrid_ij(&a.t)),
                        }
                    }
                    cx.still(&a);
                } else {
                    let shape = cx.any_shape(0, 1);
                    let a = cx.tensor::<$t>(&shape);
                    cx.op("C12", "triangle of a vector", &shape);
                    if cx.rng.chance(50) {
                        cx.refuse("C12", &format!("tril of {:?}", shape), || a.t.tril());
                    } else {
                        cx.refuse("C12", &format!("triu of {:?}", shape), || a.t.triu());
                    }
                    cx.still(&a);
                }
            }
            0 => {
                let n = if cx.rng.chance(10) { 0 } else { square(cx) };
                cx.op("C12", "eye", (n, stringify!($t)));
                let r: Tensor<$t> = match cx.rng.below(4) {
                    0 => init::eye(n),
                    1 => init::identity(n),
                    2 => Tensor::eye(n),
                    _ => Tensor::identity(n),
                };
                let m = if n == 0 { M::new(vec![], vec![zero]) } else {
                    M::<$t>::build(&[n, n], |i| if i[0] == i[1] { one.clone() } else { zero.clone() })
                };
                cx.eq("C12", &r, &m);
            }
            1 => {
                let n = square(cx);
                cx.op("C12", "tri", (n, stringify!($t)));
                let r: Tensor<$t> = if cx.rng.chance(50) { init::tri(n) } else { Tensor::tri(n) };
                cx.eq("C12", &r, &M::<$t>::build(&[n, n], |i| if i[1] <= i[0] { one.clone() } else { zero.clone() }));
            }
            2 => {
                let n = square(cx);
                let a = cx.tensor::<$t>(&[n]);
                cx.op("C12", "diagflat", (n, stringify!($t), a.route));
                let r = a.t.diagflat();
                cx.eq("C12", &r, &M::<$t>::build(&[n, n], |i| if i[0] == i[1] { a.m.data[i[0]].clone() } else { zero.clone() }));
                cx.still(&a);
            }
            k => {
                let shape = cx.any_shape(2, 6);
                let a = cx.tensor::<$t>(&shape);
                let low = k == 3;
                cx.op("C12", if low { "tril" } else { "triu" }, (&shape, stringify!($t), a.route));
                let r = if low { a.t.tril() } else { a.t.triu() };
                let rank = shape.len();
                cx.eq("C12", &r, &M::<$t>::build(&shape, |i| {
                    let (row, col) = (i[rank - 2], i[rank - 1]);
                    if (low && col <= row) || (!low && row <= col) { a.m.at(i).clone() } else { zero.clone() }
                }));
                cx.still(&a);
            }
        }
    }} }
    match cx.rng.below(5) {
        0 => go!(f32),
        1 => go!(f64),
        2 => go!(i32),
        3 => go!(u8),
        _ => go!(Tracked),
    }
}

/// Mesh grids.
pub fn grids(cx: &mut Cx) { any_elem!(cx, grids_of) }

fn grids_of<E: Elem>(cx: &mut Cx) {
    let n = cx.rng.range(1, 3);
    let mut len: Vec<usize> = Vec::new();
    for _ in 0..n {
        let d = if n < 3 && cx.rarely(150) { *cx.rng.pick(&[63, 64, 65, 100, 255, 257]) } else { cx.dim(20) };
        len.push(d);
    }
    let a: Vec<_> = len.iter().map(|l| cx.tensor::<E>(&[*l])).collect();
    let ij = cx.rng.chance(50);
    cx.op("C12", "meshgrid", (&len, ij, E::NAME, a[0].route));
    let owned = cx.rng.chance(50);
    let t: Vec<Tensor<E>> = a.iter().map(|a| a.t.clone()).collect();
    macro_rules! g { ($arr:expr) => { if ij { init::meshgrid_ij($arr).to_vec() } else { init::meshgrid($arr).to_vec() } } }
    let r: Vec<Tensor<E>> = match (n, owned) {
        (1, true) => g!([t[0].clone()]),
        (1, false) => g!([&t[0]]),
        (2, true) => g!([t[0].clone(), t[1].clone()]),
        (2, false) => if cx.rng.chance(50) { g!([&t[0], &t[1]]) }
            else if ij { t[0].meshgrid_ij(&t[1]).to_vec() } else { t[0].meshgrid(&t[1]).to_vec() },
        (_, true) => g!([t[0].clone(), t[1].clone(), t[2].clone()]),
        (_, false) => g!([&t[0], &t[1], &t[2]]),
    };
    let mut shape = len.clone();
    if !ij { shape.reverse() }
    if r.len() != n {
        cx.fail("C12", format!("{}: {} tensors", cx.desc, r.len()));
    }
    for i in 0..n {
        let along = if ij { i } else { n - 1 - i };
        let m = M::<E>::build(&shape, |x| a[i].m.data[x[along]].clone());
        cx.eq("C12", &r[i], &m);
    }
    for a in &a { cx.still(a) }
}

/// Integer grids and one-hot vectors.
pub fn small_grids(cx: &mut Cx) {
    if cx.rng.chance(50) {
        fn grid<const M_: usize, const N_: usize>(cx: &mut Cx) {
            cx.op("C12", "mgrid", (M_, N_));
            let [x, y] = init::mgrid::<M_, N_>();
            // the first varies along the innermost dimension
            cx.eq("C12", &x, &M::<f32>::build(&[N_, M_], |i| (i[1] as f32).to_bits()));
            cx.eq("C12", &y, &M::<f32>::build(&[N_, M_], |i| (i[0] as f32).to_bits()));
        }
        match cx.rng.below(8) {
            0 => grid::<1, 1>(cx),
            1 => grid::<2, 3>(cx),
            2 => grid::<5, 1>(cx),
            3 => grid::<1, 7>(cx),
            4 => grid::<4, 4>(cx),
            5 => grid::<9, 5>(cx),
            6 => grid::<3, 16>(cx),
            _ => grid::<12, 11>(cx),
        }
        return;
    }
    let depth = if cx.rarely(200) { *cx.rng.pick(&[1000, 65_536, 65_537, 70_000]) } else { cx.dim(300) };
    let n = cx.rng.below(5);
    let idx: Vec<usize> = (0..n).map(|_| cx.rng.below(depth)).collect();
    cx.op("C12", "one_hot", (depth, &idx));
    let r = if cx.rng.chance(50) { init::one_hot(&idx, depth) } else { Tensor::one_hot(&idx, depth) };
    let mut e = vec![0f32.to_bits(); depth];
    for i in &idx { e[*i] = 1f32.to_bits() }
    cx.eq("C12", &r, &M::new(vec![depth], e));
    if cx.rng.chance(30) {
        let mut bad = idx.clone();
        bad.push(depth + cx.rng.below(3));
        cx.refuse("C12", &format!("one_hot {:?} of {}", bad, depth), || init::one_hot(&bad, depth));
    }
}

const EPS: f64 = f32::EPSILON as f64;

/// Stepped ranges.
pub fn stepped(cx: &mut Cx) {
    let max = if cx.small { 40. } else if cx.rng.chance(3) { if cx.rng.chance(20) { 140_000. } else { 50_000. } } else { 400. };
    let r = &mut cx.rng;
    // the magnitude of the start can be much larger than the step
    let start = match r.below(7) {
        0 => 0.,
        1 => r.below(200) as f32 - 100.,
        2 => (10f64.powi(r.below(8) as i32) * (r.unit() * 2. - 1.)) as f32,
        3 => 16777216. * if r.chance(50) { 1. } else { -1. },
        4 => 1e8,
        _ => (r.unit() * 20. - 10.) as f32,
    };
    let step = match r.below(6) {
        0 => 1.,
        1 => 0.1,
        2 => r.range(1, 9) as f32,
        3 => 10f64.powf(r.unit() * 8. - 6.) as f32,
        4 => 1.0 / r.range(1, 300) as f32,
        _ => r.unit() as f32 * 2. + 1e-3,
    } * if r.chance(40) { -1. } else { 1. };
    let len = match r.below(5) {
        0 => r.below(5) as f64,
        1 => r.below(max as usize) as f64 + 0.5,
        _ => r.unit() * max,
    };
    let end = (start as f64 + len * step as f64) as f32;
    // rounding of the end may reverse nothing, but can shorten or lengthen
    let count = (end as f64 - start as f64) / step as f64;
    if count < 0. || !(count < 3. * max + 10.) {
        return;
    }
    cx.op("C13", "arange", (start.to_bits(), end.to_bits(), step.to_bits()));
    let t = if cx.rng.chance(50) { init::arange(start, end, step) } else { Tensor::arange(start, end, step) };
    cx.invariant(&t);
    let v = t.as_slice();
    if t.rank() != 1 {
        cx.fail("C13", format!("{}: shape {:?}", cx.desc, t.shape().as_vec()));
    }
    let (s, e, d) = (start as f64, end as f64, step as f64);
    // the exact count, give or take the roundings at the end of the interval
    let scale = s.abs().max(e.abs());
    let slack = (EPS * 2. * scale / d.abs()).max(1e-9) + v.len() as f64 * EPS;
    let (lo, hi) = ((count - slack).ceil().max(0.), (count + slack).ceil());
    if (v.len() as f64) < lo || v.len() as f64 > hi {
        cx.fail("C13", format!("{}: arange({}, {}, {}) has {} elements, expected {}..={}", cx.desc, start, end, step, v.len(), lo, hi));
    }
    if !v.is_empty() && v[0] != start {
        cx.fail("C13", format!("{}: arange({}, {}, {}) starts at {}", cx.desc, start, end, step, v[0]));
    }
    for (i, x) in v.iter().enumerate() {
        let x64 = *x as f64;
        if !(if d > 0. { *x < end } else { *x > end }) {
            cx.fail("C13", format!("{}: arange({}, {}, {}) contains {}", cx.desc, start, end, step, x));
        }
        let exact = s + i as f64 * d;
        // rounding of accumulating by f32 additions is allowed for
        let tol = EPS * (i as f64 + 2.) * scale.max(exact.abs());
        if !((x64 - exact).abs() <= tol) {
            cx.fail("C13", format!("{}: arange({}, {}, {})[{}] = {}, expected {}", cx.desc, start, end, step, i, x, exact));
        }
    }
    // no long slide away from the grid (an accumulated error)
    if let (Some(last), true) = (v.last(), v.len() > 1000) {
        let exact = s + (v.len() - 1) as f64 * d;
        cx.count("long ranges", 1);
        if (*last as f64 - exact).abs() > EPS * (v.len() as f64) * scale {
            cx.fail("C13", format!("{}: the last element {} has moved from {}", cx.desc, last, exact));
        }
    }
}

/// Linear, logarithmic and geometric spaces.
pub fn spaces(cx: &mut Cx) {
    let kind = cx.rng.below(4);
    let shape = match cx.rng.below(4) {
        0 | 1 => vec![],
        2 => vec![cx.rng.range(1, 6)],
        _ => { let m = cx.rng.range(1, 20); cx.shape(1, 4, m) }
    };
    let n = size(&shape);
    let len = match cx.rng.below(12) {
        0 => 1,
        1 => 2,
        2 => 0,
        3 if !cx.small => *cx.rng.pick(&[255, 256, 257, 1000]),
        _ => cx.rng.range(2, 33),
    };
    // an empty range has no shape with a batch
    let len = if len == 0 && !shape.is_empty() { 2 } else { len };
    let len = if kind == 0 && n < 4 && cx.rarely(300) { *cx.rng.pick(&[4096, 10_000, 65_535, 65_536, 65_537, 70_000]) } else { len };
    let mut lo = Vec::new();
    let mut hi = Vec::new();
    for _ in 0..n {
        let r = &mut cx.rng;
        let (a, b) = match kind {
            0 => {
                let a = match r.below(4) { 0 => 0., 1 => r.below(100) as f32 - 50., 2 => (10f64.powi(r.below(7) as i32) * (r.unit() * 2. - 1.)) as f32, _ => (r.unit() * 2. - 1.) as f32 };
                (a, a + match r.below(5) { 0 => 0., 1 => r.below(20) as f32, 2 => 1e-3, 3 => 1e6 * r.unit() as f32, _ => r.unit() as f32 })
            }
            1 | 2 => {
                let a = if r.chance(30) { r.below(7) as f32 - 3. } else { (r.unit() * 8. - 4.) as f32 };
                (a, a + if r.chance(10) { 0. } else { (r.unit() * 4.) as f32 })
            }
            _ => {
                let a = 10f64.powf(r.unit() * 10. - 5.) as f32;
                (a, a * if r.chance(10) { 1. } else { 10f64.powf(r.unit() * 5.) as f32 })
            }
        };
        lo.push(a);
        hi.push(b);
    }
    let base = match (kind, cx.rng.below(5)) { (1, _) => 10f32, (_, 0) => 2., (_, 1) => 1.5, (_, 2) => 10., (_, 3) => std::f32::consts::E, _ => 1.0 + cx.rng.unit() as f32 * 10. };
    let bits = |v: &Vec<f32>| v.iter().map(|v| v.to_bits()).collect::<Vec<u32>>();
    let a = cx.tensor_of::<f32>(M::new(shape.clone(), bits(&lo)));
    let b = cx.tensor_of::<f32>(M::new(shape.clone(), bits(&hi)));
    let name = ["linspace", "logspace", "logspace base", "geomspace"][kind];
    cx.op("C13", name, (&shape, len, bits(&lo), bits(&hi), base.to_bits()));
    let way = cx.rng.below(3);
    let t: Tensor = match kind {
        0 => match way {
            0 if n == 1 && shape.is_empty() => init::linspace(lo[0], hi[0], len),
            1 => a.t.linspace(&b.t, len),
            _ => init::linspace(a.t.clone(), &b.t, len),
        },
        1 => match way {
            0 if n == 1 && shape.is_empty() => init::logspace(lo[0], hi[0], len),
            1 => init::logspace_opt(&a.t, &b.t, len, None),
            _ => init::logspace(&a.t, b.t.clone(), len),
        },
        2 => match way {
            0 => init::logspace_opt(&a.t, &b.t, len, Some(base)),
            _ => init::logspace_opt(&a.t, &b.t, len, base),
        },
        _ => match way {
            0 if n == 1 && shape.is_empty() => init::geomspace(lo[0], hi[0], len),
            1 => a.t.geomspace(&b.t, len),
            _ => init::geomspace(&a.t, &b.t, len),
        },
    };
    let mut out = shape.clone();
    out.insert(0, len);
    if kind == 3 && n == 1 && t.rank() == 1 {
        // one element: the batch shape may be dropped
        out = vec![len];
    }
    let (mut exp, mut bound) = (Vec::new(), Vec::new());
    for k in 0..len {
        for i in 0..n {
            let f = if len > 1 { k as f64 / (len - 1) as f64 } else { 0. };
            let (l, h) = (lo[i] as f64, hi[i] as f64);
            match kind {
                0 => {
                    exp.push(l + (h - l) * f);
                    bound.push(4. * EPS * l.abs().max(h.abs()));
                }
                1 | 2 => {
                    let x = l + (h - l) * f;
                    let v = (base as f64).powf(x);
                    exp.push(v);
                    bound.push(v * EPS * (8. + 6. * l.abs().max(h.abs()) * (base as f64).ln()));
                }
                _ => {
                    let (ll, lh) = (l.ln(), h.ln());
                    let v = (ll + (lh - ll) * f).exp();
                    exp.push(v);
                    bound.push(v * EPS * (8. + 6. * ll.abs().max(lh.abs())));
                }
            }
        }
    }
    close(cx, "C13", &t, &out, &exp, &bound);
    let v = t.as_slice();
    for k in 1..len {
        for i in 0..n {
            let (p, q) = (v[(k - 1) * n + i], v[k * n + i]);
            // powers may be off in the last place
            let tol = if kind == 0 { 0. } else { p * f32::EPSILON * 4. };
            if !(q >= p - tol) {
                cx.fail("C13", format!("{}: decreases from {} to {} at {}", cx.desc, p, q, k));
            }
        }
    }
    cx.still(&a);
    cx.still(&b);
}

/// Requests without a meaning.
pub fn range_refusals(cx: &mut Cx) {
    let a = (cx.rng.unit() * 20. - 10.) as f32;
    let d = (cx.rng.unit() * 5. + 0.1) as f32;
    cx.op("C13", "range refusals", (a.to_bits(), d.to_bits()));
    match cx.rng.below(12) {
        7 | 8 | 9 => {
            // one space of the batch runs backwards
            let shape = cx.shape(1, 4, 40);
            let n = size(&shape);
            let kind = cx.rng.below(4);
            let shift = if kind == 2 || cx.rng.chance(30) { 0. } else { cx.rng.range(1, 4) as f32 };
            let mut lo: Vec<f32> = (0..n).map(|_| (cx.rng.unit() * 3. + 0.5) as f32 - shift).collect();
            let mut hi: Vec<f32> = lo.iter().map(|v| v + cx.rng.range(0, 3) as f32).collect();
            let i = if cx.rng.chance(30) { n - 1 } else { cx.rng.below(n) };
            match cx.rng.below(5) {
                _ if kind == 2 => hi[i] = lo[i] * if cx.rng.chance(50) { 0.5 } else { 0.999 },
                0 => hi[i] = lo[i] - lo[i].abs() * 0.001 - 1e-6,
                1 => { lo[i] = 0.; hi[i] = -(cx.rng.unit() as f32) - 1e-30 }
                2 => { hi[i] = 0.; lo[i] = cx.rng.unit() as f32 + 1e-30 }
                3 => { lo[i] = lo[i].abs() + 0.1; hi[i] = -lo[i] }
                _ => hi[i] = lo[i] - cx.rng.unit() as f32 * 5. - 0.01,
            }
            let x = cx.tensor_of::<f32>(M::new(shape.clone(), lo.iter().map(|v| v.to_bits()).collect()));
            let y = cx.tensor_of::<f32>(M::new(shape.clone(), hi.iter().map(|v| v.to_bits()).collect()));
            let len = cx.rng.range(1, 5);
            let what = format!("of a batch {:?} with {} to {} at {}, {} values", shape, lo[i], hi[i], i, len);
            match kind {
                0 => cx.refuse("C13", &format!("linspace {}", what), || init::linspace(&x.t, &y.t, len)),
                1 => cx.refuse("C13", &format!("logspace {}", what), || init::logspace(&x.t, &y.t, len)),
                2 => cx.refuse("C13", &format!("geomspace {}", what), || init::geomspace(&x.t, &y.t, len)),
                _ => cx.refuse("C13", &format!("logspace 2 {}", what), || init::logspace_opt(&x.t, &y.t, len, 2.)),
            }
        }
        10 | 11 => {
            // shapes that differ, also of the same size
            let shape = cx.shape(1, 4, 40);
            let near = spoil(&mut cx.rng, &shape);
            if near == shape || near.len() > 5 { return; }
            let x = cx.tensor_of::<f32>(M::new(shape.clone(), vec![1f32.to_bits(); size(&shape)]));
            let y = cx.tensor_of::<f32>(M::new(near.clone(), vec![2f32.to_bits(); size(&near)]));
            let what = format!("of shapes {:?} and {:?}", shape, near);
            match cx.rng.below(4) {
                0 => cx.refuse("C13", &format!("linspace {}", what), || init::linspace(&x.t, &y.t, 3)),
                1 => cx.refuse("C13", &format!("logspace {}", what), || init::logspace(&x.t, &y.t, 3)),
                2 => cx.refuse("C13", &format!("linspace reversed {}", what), || init::linspace(&y.t, &x.t, 3)),
                _ => cx.refuse("C13", &format!("geomspace {}", what), || init::geomspace(&x.t, &y.t, 3)),
            }
        }
        0 => cx.refuse("C13", &format!("arange({}, {}, 0)", a, a + d), || init::arange(a, a + d, 0.)),
        1 => cx.refuse("C13", &format!("arange({}, {}, {})", a, a + d, -d), || init::arange(a, a + d, -d)),
        2 => cx.refuse("C13", &format!("arange({}, {}, {})", a, a - d, d), || init::arange(a, a - d, d)),
        3 => cx.refuse("C13", &format!("linspace({}, {})", a, a - d), || init::linspace(a, a - d, 3)),
        4 => cx.refuse("C13", &format!("logspace({}, {})", a, a - d), || init::logspace(a, a - d, 3)),
        5 => {
            let b = a.abs() + 0.1;
            cx.refuse("C13", &format!("geomspace({}, {})", b + d, b), || init::geomspace(b + d, b, 3))
        }
        _ => {
            let (n, m) = (cx.rng.range(1, 4), cx.rng.range(5, 7));
            let (x, y) = (cx.tensor_of::<f32>(M::new(vec![n], vec![0; n])), cx.tensor_of::<f32>(M::new(vec![m], vec![1f32.to_bits(); m])));
            cx.refuse("C13", &format!("linspace of shapes [{}] and [{}]", n, m), || init::linspace(&x.t, &y.t, 3));
        }
    }
}
