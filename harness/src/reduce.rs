//! C07: reductions, folds and normalisation.

use essay_tensor::tensor::{Axis, FoldState, Tensor};

use crate::any_elem;
use crate::arrays::axis_form;
use crate::cx::Cx;
use crate::elementwise::{ids, Seq};
use crate::model::{differs, flat, shp, Elem, In, Odo, M};

/// The slices of a reduction: output shape, and the flat positions of each slice.
pub fn slices(shape: &[usize], axis: Option<usize>) -> (Vec<usize>, Vec<Vec<usize>>) {
    let n: usize = shape.iter().product();
    match axis {
        None => (vec![], vec![(0..n).collect()]),
        Some(axis) => {
            let mut out = shape.to_vec();
            let len = out.remove(axis);
            let mut v = Vec::new();
            let mut odo = Odo::new(&out);
            while let Some(i) = odo.next() {
                v.push((0..len).map(|k| {
                    let mut idx = i.clone();
                    idx.insert(axis, k);
                    flat(shape, &idx)
                }).collect());
            }
            (out, v)
        }
    }
}

/// A random axis of the shape and the argument that names it.
pub fn any_axis(cx: &mut Cx, shape: &[usize]) -> (Option<usize>, Option<isize>) {
    if shape.is_empty() || cx.rng.chance(25) {
        return (None, None);
    }
    let axis = cx.rng.below(shape.len());
    (Some(axis), Some(axis_form(cx, axis, shape.len())))
}

fn to_axis(cx: &mut Cx, arg: Option<isize>) -> Axis {
    match (arg, cx.rng.below(3)) {
        (Some(a), 0) => Axis::axis(a),
        (Some(a), 1) => Axis::from(a),
        (None, 0) => Axis::default(),
        (a, 1) => Axis::axis_opt(a),
        (a, _) => Axis::from(a),
    }
}

#[derive(Clone)]
struct Acc(Vec<u64>);
impl FoldState for Acc {
    type Out = Seq;
    fn into_result(mut self) -> Seq { self.0.push(99); Seq(self.0) }
}

#[derive(Clone)]
struct RowAcc<const N: usize>(Vec<u64>);
impl<const N: usize> FoldState for RowAcc<N> {
    type Out = [Seq; N];
    fn into_result(self) -> [Seq; N] {
        std::array::from_fn(|i| { let mut v = self.0.clone(); v.push(i as u64); Seq(v) })
    }
}

fn fold_row_n<const N: usize>(cx: &mut Cx, a: &In<u64>) {
    let shape = a.m.shape.clone();
    let rank = shape.len();
    let cols = shape[rank - 1];
    let rows = &shape[..rank - 1];
    // the axis counts from the whole shape, and is not the innermost one
    let (axis, arg) = if rank == 1 || cx.rng.chance(20) {
        (None, None)
    } else {
        let x = cx.rng.below(rank - 1);
        (Some(x), Some(axis_form(cx, x, rank)))
    };
    // the only axis of a vector: its single row is folded
    let arg = if rank == 1 && cx.rng.chance(50) { Some(if cx.rng.chance(50) { 0 } else { -1 }) } else { arg };
    let ax = to_axis(cx, arg);
    cx.op("C07", "fold_row", (&shape, N, arg, a.route));
    let r: Tensor<Seq> = a.t.fold_row::<N, _, _, _>(ax, RowAcc::<N>(vec![7]), |mut s, v| {
        s.0.push(1_000_000 + v.len() as u64);
        s.0.extend_from_slice(v);
        s
    });
    let (mut out, sl) = slices(rows, axis);
    let mut data = Vec::new();
    for s in &sl {
        let mut v = vec![7];
        for row in s {
            v.push(1_000_000 + cols as u64);
            v.extend_from_slice(&a.m.data[row * cols..(row + 1) * cols]);
        }
        for i in 0..N {
            let mut w = v.clone();
            w.push(i as u64);
            data.push(w);
        }
    }
    out.push(N);
    cx.eq("C07", &r, &M::new(out, data));
}

/// Positions: which elements reach which output, how often and in which order.
pub fn positions(cx: &mut Cx) {
    let kind = cx.rng.below(8);
    let mut shape = cx.any_shape(if kind == 6 { 1 } else { 0 }, 6);
    if shape.iter().product::<usize>() > 9000 {
        shape = vec![257, 9];
    }
    let (axis, arg) = any_axis(cx, &shape);
    let a = ids(cx, &shape, 1000);
    let (out, sl) = slices(&shape, axis);
    let data = &a.m.data;
    let row = |s: &Vec<usize>, pre: u64, post: &[u64]| -> Vec<u64> {
        let mut v = vec![pre];
        v.extend(s.iter().map(|i| data[*i]));
        v.extend_from_slice(post);
        v
    };
    match kind {
        0 => {
            cx.op("C07", "fold", (&shape, a.route));
            let r: Tensor<Seq> = a.t.fold(Acc(vec![5]), |mut s, v| { s.0.push(*v); s });
            let all: Vec<usize> = (0..a.m.size()).collect();
            cx.eq("C07", &r, &M::new(vec![], vec![row(&all, 5, &[99])]));
        }
        1 => {
            // the state is an element
            cx.op("C07", "fold state element", (&shape, a.route));
            let r: Tensor<Seq> = a.t.fold(Seq(vec![5]), |mut s, v| { s.0.push(*v); s });
            let all: Vec<usize> = (0..a.m.size()).collect();
            cx.eq("C07", &r, &M::new(vec![], vec![row(&all, 5, &[])]));
        }
        2 | 3 => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "fold_axis", (&shape, arg, a.route));
            let r: Tensor<Seq> = a.t.fold_axis(ax, Acc(vec![5]), |mut s, v| { s.0.push(*v); s });
            let e = sl.iter().map(|s| row(s, 5, &[99])).collect();
            cx.eq("C07", &r, &M::new(out, e));
        }
        4 => {
            let e: Vec<Vec<u64>> = sl.iter().map(|s| s.iter().map(|i| data[*i]).collect()).collect();
            let b = a.t.map(|v| Seq(vec![*v]));
            let join = |mut x: Seq, y: Seq| { x.0.extend(y.0); x };
            let ax = to_axis(cx, arg);
            cx.op("C07", "reduce_axis", (&shape, arg, a.route));
            let r = b.reduce_axis(ax, join);
            cx.eq("C07", &r, &M::new(out, e));
        }
        5 => {
            let b = a.t.map(|v| Seq(vec![*v]));
            cx.op("C07", "reduce", (&shape, a.route));
            let r = b.reduce(|mut x: Seq, y: Seq| { x.0.extend(y.0); x });
            cx.eq("C07", &r, &M::new(vec![], vec![data.clone()]));
        }
        6 => match cx.rng.below(4) {
            0 => fold_row_n::<1>(cx, &a),
            1 => fold_row_n::<2>(cx, &a),
            2 => fold_row_n::<3>(cx, &a),
            _ => fold_row_n::<5>(cx, &a),
        },
        _ => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "normalize", (&shape, arg, a.route));
            if a.m.size() > 1500 && axis.map(|x| shape[x]).unwrap_or(usize::MAX) > 300 {
                // long slices: a digest of the slice instead of the list
                let dig = |s: (u64, u64), v: &u64| (s.0.wrapping_mul(31).wrapping_add(*v), s.1 + 1);
                let r: Tensor<Seq> = a.t.normalize(ax, (5u64, 0u64), dig, |s| s, |s, v| Seq(vec![s.0, s.1, *v]));
                let mut e = vec![vec![]; a.m.size()];
                for s in &sl {
                    let d = s.iter().fold((5u64, 0u64), |x, i| dig(x, &data[*i]));
                    for i in s {
                        e[*i] = vec![d.0, d.1, data[*i]];
                    }
                }
                cx.eq("C07", &r, &M::new(shape.clone(), e));
            } else {
                let r: Tensor<Seq> = a.t.normalize(ax, vec![5u64],
                    |mut s, v| { s.push(*v); s },
                    |mut s| { s.push(99); s },
                    |s, v| { let mut s = s.clone(); s.push(*v); Seq(s) });
                let mut e = vec![vec![]; a.m.size()];
                for s in &sl {
                    for i in s {
                        e[*i] = row(s, 5, &[99, data[*i]]);
                    }
                }
                cx.eq("C07", &r, &M::new(shape.clone(), e));
            }
        }
    }
    cx.still(&a);
}

/// Elements of any type pass through reductions.
pub fn any(cx: &mut Cx) { any_elem!(cx, any_of) }

fn any_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(0, 5);
    let a = cx.tensor::<E>(&shape);
    let (axis, arg) = any_axis(cx, &shape);
    let (out, sl) = slices(&shape, axis);
    let d = &a.m.data;
    match cx.rng.below(5) {
        0 => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "reduce to first", (&shape, arg, E::NAME, a.route));
            let r = a.t.reduce_axis(ax, |x, _| x);
            cx.eq("C07", &r, &M::new(out, sl.iter().map(|s| d[s[0]].clone()).collect()));
        }
        1 => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "reduce to last", (&shape, arg, E::NAME, a.route));
            let r = a.t.reduce_axis(ax, |_, x| x);
            cx.eq("C07", &r, &M::new(out, sl.iter().map(|s| d[*s.last().unwrap()].clone()).collect()));
        }
        2 => {
            cx.op("C07", "reduce all", (&shape, E::NAME, a.route));
            let first = cx.rng.chance(50);
            let r = a.t.reduce(|x, y| if first { x } else { y });
            let e = if first { d[0].clone() } else { d[d.len() - 1].clone() };
            cx.eq("C07", &r, &M::new(vec![], vec![e]));
        }
        3 => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "fold to option", (&shape, arg, E::NAME, a.route));
            let r: Tensor<Option<E>> = a.t.fold_axis(ax, None::<E>, |_, x| Some(x.clone()));
            cx.eq("C07", &r, &M::new(out, sl.iter().map(|s| Some(d[*s.last().unwrap()].clone())).collect()));
        }
        _ => {
            let ax = to_axis(cx, arg);
            cx.op("C07", "normalize any", (&shape, arg, E::NAME, a.route));
            let r: Tensor<(E, E)> = a.t.normalize(ax, None::<E>,
                |s, x| if s.is_none() { Some(x.clone()) } else { s },
                |s| s.unwrap(), |s, x| (s.clone(), x.clone()));
            let mut e: Vec<Option<(E::Rep, E::Rep)>> = vec![None; d.len()];
            for s in &sl {
                for i in s {
                    e[*i] = Some((d[s[0]].clone(), d[*i].clone()));
                }
            }
            cx.eq("C07", &r, &M::new(shape.clone(), e.into_iter().map(|v| v.unwrap()).collect()));
        }
    }
    cx.still(&a);
}

/// Result against reference values with a bound per element.
pub fn close(cx: &mut Cx, owner: &'static str, t: &Tensor<f32>, shape: &[usize], exp: &[f64], bound: &[f64]) {
    let v: Vec<f64> = t.as_slice().iter().map(|v| *v as f64).collect();
    cx.invariant(t);
    close64(cx, owner, t.shape().as_vec(), &v, shape, exp, bound);
    if cx.prop == "C03" {
        let m = M::<f32>::new(t.shape().as_vec(), t.as_slice().iter().map(|v| v.to_bits()).collect());
        crate::views::accessors(cx, t, &m);
    }
}

pub fn close64(cx: &mut Cx, owner: &'static str, got_shape: Vec<usize>, got: &[f64], shape: &[usize], exp: &[f64], bound: &[f64]) {
    cx.checks += 1;
    if got_shape != shape || got.len() != exp.len() {
        cx.fail(owner, format!("{}: shape {:?} with {} elements, expected {:?}", cx.desc, got_shape, got.len(), shape));
    }
    for i in 0..exp.len() {
        let ok = (got[i] - exp[i]).abs() <= bound[i] || got[i] == exp[i]
            || got[i].is_nan() && exp[i].is_nan();
        if !ok {
            cx.fail(owner, format!(
                "{}: element {} of shape {:?} is {:e}, expected {:e} within {:e}",
                cx.desc, i, shape, got[i], exp[i], bound[i]
            ));
        }
    }
}

const EPS: f64 = f32::EPSILON as f64;

/// Values for statistics: several distributions, some with a large mean.
pub fn stat_values(cx: &mut Cx, n: usize) -> (Vec<f32>, &'static str) {
    let r = &mut cx.rng;
    match r.below(9) {
        8 => {
            let at = r.below(n + 1);
            ((0..n).map(|i| if i < at { 0. } else { 1. }).collect(), "step")
        }
        0 => {
            let c = (r.unit() * 2e4 - 1e4) as f32;
            (vec![c; n], "constant")
        }
        1 => {
            let mean = 10f64.powi(r.below(5) as i32 + 1) * if r.chance(50) { 1. } else { -1. };
            ((0..n).map(|_| (mean + r.unit()) as f32).collect(), "large mean")
        }
        2 => ((0..n).map(|_| r.below(7) as f32 - 3.).collect(), "small integers"),
        3 => ((0..n).map(|_| if r.chance(8) { 1000. } else { 0. }).collect(), "rare spikes"),
        4 => ((0..n).map(|i| i as f32).collect(), "ramp"),
        5 => ((0..n).map(|i| (n - i) as f32 * 0.5).collect(), "falling ramp"),
        6 => ((0..n).map(|_| 10f64.powf(r.unit() * 8. - 4.) as f32 * if r.chance(50) { 1. } else { -1. }).collect(), "magnitudes"),
        _ => ((0..n).map(|_| (r.unit() * 20. - 10.) as f32).collect(), "uniform"),
    }
}

/// Numeric reductions against a reference computed in double precision.
pub fn numeric(cx: &mut Cx) {
    let shape = if cx.rarely(1500) {
        let n = *cx.rng.pick(&[66_000, 70_000, 131_073, 140_000]);
        cx.rng.pick(&[vec![n], vec![n], vec![2, n / 2], vec![n, 1], vec![1, n], vec![n / 2, 2], vec![2, n]]).clone()
    } else {
        cx.any_shape(0, 5)
    };
    let n: usize = shape.iter().product();
    let (axis, arg) = any_axis(cx, &shape);
    let kind = cx.rng.below(10);
    let whole = cx.rng.chance(25);
    let (axis, arg) = if whole || kind == 6 { (None, None) } else { (axis, arg) };
    let (out, sl) = slices(&shape, axis);
    let name = ["sum", "product", "min", "max", "mean", "variance", "hypot", "std", "sum f64", "unit"][kind];

    let (mut vals, dist) = stat_values(cx, n);
    if kind == 1 {
        // products stay in range
        let r = &mut cx.rng;
        let len = sl[0].len() as f64;
        for v in &mut vals {
            let s = if r.chance(30) { -1. } else { 1. };
            *v = (s * (1. + (r.unit() - 0.5) * (20. / len).min(0.9))) as f32;
        }
    }
    if (kind == 2 || kind == 3) && cx.rng.chance(30) {
        let r = &mut cx.rng;
        for v in &mut vals {
            if r.chance(20) { *v = *r.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 0.0, -0.0, 1e-40]); }
        }
    }
    let mut dist = dist;
    if matches!(kind, 0 | 4 | 8) && cx.rng.chance(30) {
        // zeros, values below the normal range, huge values and infinities
        let r = &mut cx.rng;
        let how = r.below(4);
        dist = ["tiny", "zeros", "huge", "infinite"][how];
        let huge = f32::MAX / (2. * n.max(1) as f32);
        let sign = if r.chance(50) { 1. } else { -1. };
        for v in &mut vals {
            match how {
                0 => *v = f32::from_bits(r.u32() & 0x80ff_ffff),
                1 => if r.chance(60) { *v = if r.chance(50) { 0. } else { -0. } },
                2 => *v = (r.unit() * 2. - 1.) as f32 * huge,
                _ => if r.chance(5) { *v = f32::INFINITY * if r.chance(3) { -sign } else { sign } },
            }
        }
    }
    if matches!(kind, 5 | 6 | 7) && cx.rng.chance(30) {
        // far from one, squares within range
        let f = 10f32.powi(cx.rng.range(0, 26) as i32 - 13);
        if vals.iter().all(|v| *v == 0. || (v.abs() * f > 1e-14 && v.abs() * f < 1e15)) {
            dist = "scaled";
            vals.iter_mut().for_each(|v| *v *= f);
        }
    }
    let a = cx.tensor_of::<f32>(M::new(shape.clone(), vals.iter().map(|v| v.to_bits()).collect()));
    cx.op("C07", name, (&shape, arg, whole, dist, a.route));

    let mut exp = Vec::new();
    let mut bound = Vec::new();
    for s in &sl {
        let x: Vec<f64> = s.iter().map(|i| vals[*i] as f64).collect();
        let n = x.len() as f64;
        let sum: f64 = x.iter().sum();
        let abs: f64 = x.iter().map(|v| v.abs()).sum();
        let mean = sum / n;
        let var = x.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / n;
        let var_bound = if x.len() < 2 { 0. } else {
            8. * n * EPS * var.sqrt() * (var + mean * mean).sqrt() + 8. * (n * EPS).powi(2) * mean * mean
        };
        match kind {
            0 | 8 => { exp.push(sum); bound.push(if sum.is_finite() { n * EPS * abs } else { 0. }); }
            1 => { let p: f64 = x.iter().product(); exp.push(p); bound.push((n + 2.) * EPS * p.abs() + 1e-38); }
            2 => { exp.push(x.iter().cloned().fold(f64::INFINITY, f64::min)); bound.push(0.); }
            3 => { exp.push(x.iter().cloned().fold(f64::NEG_INFINITY, f64::max)); bound.push(0.); }
            // also for a running mean, also where results are not normal numbers
            4 => { exp.push(mean); bound.push(if mean.is_finite() { 2. * (n + 2.) * EPS * abs / n + n * 3e-45 } else { 0. }); }
            5 => { exp.push(if x.len() < 2 { 0. } else { var }); bound.push(var_bound); }
            6 => { let h = x.iter().map(|v| v * v).sum::<f64>().sqrt(); exp.push(h); bound.push((n + 4.) * EPS * h); }
            _ => { exp.push(if x.len() < 2 { 0. } else { var }); bound.push(var_bound + 4. * EPS * var); }
        }
    }

    macro_rules! call { ($f:ident, $g:ident) => {
        if whole { a.t.$f() } else { let ax = to_axis(cx, arg); a.t.$g(ax) }
    } }
    match kind {
        0 => { let r = call!(reduce_sum, reduce_sum_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        1 => { let r = call!(reduce_product, reduce_product_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        2 => { let r = call!(reduce_min, reduce_min_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        3 => { let r = call!(reduce_max, reduce_max_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        4 => { let r = call!(reduce_mean, reduce_mean_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        5 => { let r = call!(reduce_variance, reduce_variance_axis); close(cx, "C07", &r, &out, &exp, &bound) }
        6 => {
            if cx.rng.chance(50) {
                let r = a.t.reduce_hypot();
                close(cx, "C07", &r, &out, &exp, &bound)
            } else {
                let r = a.t.map(|v| *v as f64).reduce_hypot();
                let b: Vec<f64> = bound.iter().map(|b| b * 1e-8).collect();
                close64(cx, "C07", r.shape().as_vec(), r.as_slice(), &out, &exp, &b)
            }
        }
        7 => {
            // compared squared, because the root of a small variance error is large
            let r = call!(reduce_std, reduce_std_axis);
            cx.invariant(&r);
            if let Some(v) = r.as_slice().iter().find(|v| !(**v >= 0.)) {
                cx.fail("C07", format!("{}: standard deviation {}", cx.desc, v));
            }
            let sq: Vec<f64> = r.as_slice().iter().map(|v| *v as f64 * *v as f64).collect();
            close64(cx, "C07", r.shape().as_vec(), &sq, &out, &exp, &bound)
        }
        8 => {
            let b = a.t.map(|v| *v as f64);
            let r = if whole { b.reduce_sum() } else { let ax = to_axis(cx, arg); b.reduce_sum_axis(ax) };
            let bd: Vec<f64> = bound.iter().map(|b| b * 1e-8).collect();
            close64(cx, "C07", r.shape().as_vec(), r.as_slice(), &out, &exp, &bd)
        }
        _ => {
            let (lo, hi) = vals.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), v| (l.min(*v as f64), h.max(*v as f64)));
            if lo < hi {
                let r = a.t.normalize_unit();
                let e: Vec<f64> = vals.iter().map(|v| (*v as f64 - lo) / (hi - lo)).collect();
                let b: Vec<f64> = e.iter().map(|v| 4. * EPS * v).collect();
                close(cx, "C07", &r, &shape, &e, &b);
                if r.as_slice().iter().any(|v| !(0. ..=1.).contains(v)) {
                    cx.fail("C07", format!("{}: a value outside 0..1", cx.desc));
                }
            }
        }
    }
    cx.still(&a);
}

/// Exact sums and products of integers.
pub fn integers(cx: &mut Cx) {
    let shape = cx.any_shape(0, 5);
    let n: usize = shape.iter().product();
    let (axis, arg) = any_axis(cx, &shape);
    let (out, sl) = slices(&shape, axis);
    let prod = cx.rng.chance(30);
    macro_rules! ints { ($t:ty, $small:expr) => {{
        let vals: Vec<$t> = (0..n).map(|_| {
            if prod { if cx.rng.chance(5) { 2 as $t } else { 1 as $t } } else { cx.rng.below($small) as $t }
        }).collect();
        // products of powers of two may only reach the sign bit for long slices
        let a = cx.tensor_of::<$t>(M::new(shape.clone(), vals.clone()));
        let exp: Option<Vec<$t>> = sl.iter().map(|s| s.iter().try_fold(if prod { 1 as $t } else { 0 as $t }, |x, i| {
            if prod { x.checked_mul(vals[*i]) } else { x.checked_add(vals[*i]) }
        })).collect();
        if let Some(exp) = exp {
            cx.op("C07", if prod { "product int" } else { "sum int" }, (&shape, arg, stringify!($t), a.route));
            let ax = to_axis(cx, arg);
            let r = if prod { a.t.reduce_product_axis(ax) } else { a.t.reduce_sum_axis(ax) };
            cx.eq("C07", &r, &M::new(out.clone(), exp));
            if axis.is_none() {
                let r2 = if prod { a.t.reduce_product() } else { a.t.reduce_sum() };
                if r2.shape().as_vec() != r.shape().as_vec() || r2.as_slice() != r.as_slice() {
                    cx.fail("C07", format!("{}: whole reduction differs from axis None", cx.desc));
                }
            }
        }
        cx.still(&a);
    }} }
    match cx.rng.below(5) {
        0 => ints!(i32, 1000),
        1 => ints!(u8, 3),
        2 => ints!(i64, 1 << 30),
        3 => ints!(u128, 1 << 40),
        _ => {
            let a = cx.tensor::<crate::ledger::Tracked>(&shape);
            cx.op("C07", "sum tracked", (&shape, arg, a.route));
            let ax = to_axis(cx, arg);
            let r = a.t.reduce_sum_axis(ax);
            let e = sl.iter().map(|s| s.iter().fold(0i64, |x, i| x.wrapping_add(a.m.data[*i]))).collect();
            let m = M::<crate::ledger::Tracked>::new(out, e);
            if let Some(d) = differs(&r, &m) {
                cx.fail("C07", format!("{}: {}", cx.desc, d));
            }
            cx.still(&a);
        }
    }
}

/// The axis rule itself.
pub fn axes(cx: &mut Cx) {
    let shape = cx.any_shape(1, 6);
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let given = if cx.rng.chance(50) { axis as isize } else { axis as isize - rank as isize };
    cx.op("C07", "axis", (&shape, given));
    let a: Axis = match cx.rng.below(3) {
        0 => Axis::axis(given),
        1 => Axis::from(given),
        _ => Axis::axis_opt(Some(given)),
    };
    if a.get_axis() != Some(given) || Axis::default().get_axis().is_some() || Axis::from(None).get_axis().is_some() {
        cx.fail("C07", format!("{}: get_axis is {:?}", cx.desc, a.get_axis()));
    }
    if a.axis_from_rank(rank) != axis {
        cx.fail("C07", format!("{}: axis_from_rank is {}", cx.desc, a.axis_from_rank(rank)));
    }
    let of = shp(&shape);
    let outer: usize = shape[..axis].iter().product();
    let inner: usize = shape[axis + 1..].iter().product();
    let mut rest = shape.clone();
    rest.remove(axis);
    let r = a.reduce(&of);
    if (r.0.as_vec(), r.1, r.2, r.3) != (rest.clone(), outer, shape[axis], inner) {
        cx.fail("C07", format!("{}: reduce is {:?}", cx.desc, (r.0.as_vec(), r.1, r.2, r.3)));
    }
    let all = Axis::default().reduce(&of);
    if (all.0.as_vec(), all.1, all.2, all.3) != (vec![], 1, of.size(), 1) {
        cx.fail("C07", format!("{}: reduce of all is {:?}", cx.desc, (all.0.as_vec(), all.1, all.2, all.3)));
    }
    if axis + 1 < rank {
        let cols = cx.rng.range(1, 5);
        let r = a.reduce_row(&of, cols);
        *rest.last_mut().unwrap() = cols;
        let inner = inner / shape[rank - 1];
        if (r.0.as_vec(), r.1, r.2, r.3) != (rest, outer, shape[axis], inner) {
            cx.fail("C07", format!("{}: reduce_row is {:?}", cx.desc, (r.0.as_vec(), r.1, r.2, r.3)));
        }
    }
    cx.checks += 5;
}
