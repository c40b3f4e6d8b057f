//! C03: views and accessors.

use essay_tensor::tensor::{Axis, Shape, Tensor};

use crate::any_elem;
use crate::cx::Cx;
use crate::model::*;

fn bad(cx: &Cx, what: String) -> ! {
    cx.fail("C03", format!("{}: {}", cx.desc, what))
}

fn same<E: Elem>(a: &[E], b: &[E::Rep]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.rep() == *b)
}

fn must_panic<T>(cx: &mut Cx, what: String, f: impl FnOnce() -> T) {
    cx.rejections += 1;
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() {
        cx.fail_any(&["C03", "C01"], format!("{}: {} is accepted although it is out of range", cx.desc, what));
    }
}

/// Every way of reading the tensor shows the model.
pub fn accessors<E: Elem>(cx: &mut Cx, t: &Tensor<E>, m: &M<E>) {
    let n = m.size();
    let rank = m.rank();
    cx.count("accessor sweeps", 1);

    if t.size() != n || t.rank() != rank || t.shape().as_vec() != m.shape {
        bad(cx, format!("size {} rank {} shape {:?}, expected {:?}", t.size(), t.rank(), t.shape(), m.shape));
    }
    for i in 0..rank {
        if t.dim(i) != m.shape[i] || t.rdim(i) != m.shape[rank - 1 - i] {
            bad(cx, format!("dim({}) {} rdim {}", i, t.dim(i), t.rdim(i)));
        }
    }
    if rank > 0 && (t.cols() != m.shape[rank - 1] || t.len() != m.shape[0]) {
        bad(cx, format!("cols {} len {}", t.cols(), t.len()));
    }
    if rank > 1 && t.rows() != m.shape[rank - 2] {
        bad(cx, format!("rows {}", t.rows()));
    }

    let by_ref: &[E] = t.as_ref();
    let by_tensor: &Tensor<E> = t.as_ref();
    if !same(t.as_slice(), &m.data) || !same(std::ops::Deref::deref(t), &m.data) || !same(by_ref, &m.data)
        || !same(by_tensor.as_slice(), &m.data)
    {
        bad(cx, "slice, deref or as_ref differ".into());
    }
    // pointer identity: all accessors look at the same storage
    if t.as_slice().as_ptr() != by_ref.as_ptr() {
        bad(cx, "as_ref looks at other storage".into());
    }
    let it: Vec<E::Rep> = t.iter().map(|v| v.rep()).collect();
    let it2: Vec<E::Rep> = t.into_iter().map(|v| v.rep()).collect();
    if it != m.data || it2 != m.data {
        bad(cx, "iteration differs".into());
    }
    let chunk = if rank > 1 { m.shape[rank - 1] } else { 1 };
    if chunk > 0 {
        let rows: Vec<Vec<E::Rep>> = t.iter_row().map(|r| r.iter().map(|v| v.rep()).collect()).collect();
        let exp: Vec<Vec<E::Rep>> = m.data.chunks(chunk).map(|c| c.to_vec()).collect();
        if rows != exp {
            bad(cx, "row iteration differs".into());
        }
    }

    // flat access
    let probes: Vec<usize> = if n <= 24 { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..20).map(|_| cx.rng.below(n)).collect();
        v.push(0);
        v.push(n - 1);
        v
    };
    for &i in &probes {
        match t.get(i) {
            Some(v) if v.rep() == m.data[i] => {}
            v => bad(cx, format!("get({}) is {:?}, expected {:?}", i, v, m.data[i])),
        }
        if t[i].rep() != m.data[i] {
            bad(cx, format!("[{}] is {:?}, expected {:?}", i, t[i], m.data[i]));
        }
    }
    for i in [n, n + 1, n + cx.rng.below(9), usize::MAX, usize::MAX - 1, isize::MAX as usize + 1] {
        if t.get(i).is_some() {
            bad(cx, format!("get({}) of {} elements is some", i, n));
        }
    }
    if cx.rng.chance(30) {
        let i = *cx.rng.pick(&[n, n + 1, usize::MAX]);
        must_panic(cx, format!("[{}] of {} elements", i, n), || t[i].rep());
    }

    // access by index tuples
    if n > 0 && (2..=5).contains(&rank) {
        let read = |i: &[usize]| match i.len() {
            2 => t[(i[0], i[1])].rep(),
            3 => t[(i[0], i[1], i[2])].rep(),
            4 => t[(i[0], i[1], i[2], i[3])].rep(),
            _ => t[(i[0], i[1], i[2], i[3], i[4])].rep(),
        };
        for k in 0..6 {
            let i: Vec<usize> = m.shape.iter().map(|d| match k {
                0 => 0,
                1 => d - 1,
                _ => cx.rng.below(*d),
            }).collect();
            let v = read(&i);
            if v != *m.at(&i) {
                bad(cx, format!("[{:?}] is {:?}, expected {:?}", i, v, m.at(&i)));
            }
        }
        // one coordinate beyond its dimension, although the flat offset may exist
        if cx.rng.chance(40) {
            let at = cx.rng.below(rank);
            let mut i: Vec<usize> = vec![0; rank];
            i[at] = m.shape[at] + if cx.rng.chance(80) { 0 } else { cx.rng.below(1000) };
            must_panic(cx, format!("[{:?}] of shape {:?}", i, m.shape), || read(&i));
        }
    }

    // wrapped slices
    if n > 0 {
        for _ in 0..3 {
            let off = match cx.rng.below(4) {
                0 => n + cx.rng.below(3 * n),
                1 => n,
                _ => cx.rng.below(n),
            };
            let o = off % n;
            if !same(t.as_wrap_slice(off), &m.data[o..]) {
                bad(cx, format!("as_wrap_slice({}) of {} elements differs", off, n));
            }
            let len = cx.rng.below(n - o + 1);
            if !same(t.as_wrap_slice_n(off, len), &m.data[o..o + len]) {
                bad(cx, format!("as_wrap_slice_n({}, {}) of {} elements differs", off, len, n));
            }
            if !same(t.as_wrap_slice_n(off, n - o), &m.data[o..]) {
                bad(cx, format!("as_wrap_slice_n({}, {}) of {} elements differs", off, n - o, n));
            }
            if cx.rng.chance(20) {
                let len = n - o + 1 + cx.rng.below(4);
                must_panic(cx, format!("as_wrap_slice_n({}, {}) of {} elements", off, len, n), || {
                    t.as_wrap_slice_n(off, len).len()
                });
            }
        }
    }

    // debug output shows the elements in order
    if n <= 200 {
        let s = format!("{:?}", t);
        let body = &s[s.find('{').map(|i| i + 1).unwrap_or(0)..];
        let mut at = 0;
        for (i, v) in t.iter().enumerate() {
            let v = format!("{:?}", v);
            match body[at..].find(&v) {
                Some(k) => at += k + v.len(),
                None => bad(cx, format!("debug output lacks element {}: {}", i, s)),
            }
        }
        if matches!(E::NAME, "i32" | "u8" | "i64" | "u128") {
            let tokens: Vec<&str> = body.split(|c: char| !(c.is_ascii_digit() || c == '-'))
                .filter(|v| !v.is_empty()).collect();
            let mut exp: Vec<String> = t.iter().map(|v| format!("{:?}", v)).collect();
            exp.extend(m.shape.iter().map(|v| v.to_string()));
            if tokens != exp {
                bad(cx, format!("debug output shows {:?}, expected elements and shape {:?}", tokens, exp));
            }
        }
    }
}

fn axis_of(cx: &mut Cx, i: usize, rank: usize) -> isize {
    if cx.rng.chance(50) { i as isize } else { i as isize - rank as isize }
}

/// One view of (t, m).
fn view<E: Elem>(cx: &mut Cx, t: &Tensor<E>, m: &M<E>) -> (Tensor<E>, M<E>) {
    let (n, rank) = (m.size(), m.rank());
    match cx.rng.below(12) {
        0..=3 if rank > 0 && m.shape[0] > 0 => {
            let off = cx.rng.below(m.shape[0]);
            let len = cx.rng.range(1, m.shape[0] - off);
            cx.op("C03", "subslice", (&m.shape, off, len, t.offset()));
            let row: usize = m.shape[1..].iter().product();
            let mut shape = m.shape.clone();
            shape[0] = len;
            (t.subslice(off, len), M::new(shape, m.data[off * row..(off + len) * row].to_vec()))
        }
        4..=6 => {
            let off = cx.rng.below(n + 1);
            let len = cx.rng.below(n - off + 1);
            let len = if len == 0 && off < n && cx.rng.chance(90) { 1 } else { len };
            let shape = refactor(&mut cx.rng, len, 6);
            cx.op("C03", "subslice_flat", (&m.shape, off, len, &shape, t.offset()));
            (t.subslice_flat(off, len, shp(&shape)), M::new(shape, m.data[off..off + len].to_vec()))
        }
        7 => {
            let shape = refactor(&mut cx.rng, n, 6);
            cx.op("C03", "reshape", (&m.shape, &shape));
            (t.clone().reshape(shp(&shape)), M::new(shape, m.data.clone()))
        }
        8 => {
            cx.op("C03", "flatten", &m.shape);
            (t.clone().flatten(), M::new(vec![n], m.data.clone()))
        }
        9 if rank > 0 => {
            if cx.rng.chance(50) {
                cx.op("C03", "squeeze", &m.shape);
                let mut shape: Vec<usize> = m.shape.iter().copied().filter(|d| *d != 1).collect();
                if shape.is_empty() { shape.push(1) }
                (t.clone().squeeze(), M::new(shape, m.data.clone()))
            } else {
                let i = cx.rng.below(rank);
                let ax = axis_of(cx, i, rank);
                cx.op("C03", "squeeze_axis", (&m.shape, ax));
                let mut shape = m.shape.clone();
                if shape[i] == 1 { shape.remove(i); }
                if shape.is_empty() { shape.push(1) }
                (t.clone().squeeze_axis(ax), M::new(shape, m.data.clone()))
            }
        }
        10 if rank < 6 && n > 0 => {
            let i = cx.rng.range(0, rank);
            let ax = if cx.rng.chance(50) { i as isize } else { i as isize - rank as isize - 1 };
            cx.op("C03", "expand_dims", (&m.shape, ax));
            let mut shape = m.shape.clone();
            shape.insert(i, 1);
            (t.clone().expand_dims(Axis::axis(ax)), M::new(shape, m.data.clone()))
        }
        _ => {
            cx.op("C03", "clone", &m.shape);
            let c: Tensor<E> = if cx.rng.chance(50) { t.clone() } else { Tensor::from(t) };
            (c, m.clone())
        }
    }
}

pub fn nested(cx: &mut Cx) {
    any_elem!(cx, nested_of)
}

fn nested_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    let v = cx.tensor::<E>(&shape);
    let mut t = v.t.clone();
    let mut m = v.m.clone();
    if cx.rng.chance(50) {
        cx.keep(&v.t, &v.m, "the root of views");
    }
    if cx.rng.chance(50) {
        drop(v);
    }
    accessors(cx, &t, &m);
    for _ in 0..cx.rng.range(1, 6) {
        let (t2, m2) = view(cx, &t, &m);
        cx.eq("C03", &t2, &m2);
        accessors(cx, &t2, &m2);
        // no copy: the view shows the very storage of its parent
        let (p, q) = (t.as_slice().as_ptr_range(), t2.as_slice().as_ptr_range());
        if t2.size() > 0 && std::mem::size_of::<E>() > 0 && (q.start < p.start || q.end > p.end) {
            cx.count("views with storage of their own", 1);
        }
        cx.keep(&t2, &m2, "a view");
        if let Some(d) = differs(&t, &m) {
            bad(cx, format!("the parent changed: {}", d));
        }
        if cx.rng.chance(70) && m2.size() > 0 {
            t = t2;
            m = m2;
        }
    }
}

pub fn refusals(cx: &mut Cx) {
    any_elem!(cx, refusals_of)
}

fn refusals_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(1, 5);
    let v = cx.tensor::<E>(&shape);
    let (n, d) = (v.m.size(), shape[0]);
    let t = &v.t;
    cx.op("C03", "out of range views", &shape);
    match cx.rng.below(8) {
        0 => {
            let off = cx.rng.below(d + 2);
            let len = d + 1 - off.min(d) + cx.rng.below(3);
            cx.refuse("C03", &format!("subslice({}, {}) of {:?}", off, len, shape), || t.subslice(off, len));
        }
        1 => {
            let (off, len) = *cx.rng.pick(&[(usize::MAX, 1), (usize::MAX, 2), (1, usize::MAX), (usize::MAX / 2 + 1, usize::MAX / 2 + 2)]);
            cx.refuse("C03", &format!("subslice({}, {}) of {:?}", off, len, shape), || t.subslice(off, len));
        }
        2 => {
            let off = cx.rng.below(n + 3);
            let len = n + 1 - off.min(n) + cx.rng.below(3);
            cx.refuse("C03", &format!("subslice_flat({}, {}) of {:?}", off, len, shape), || t.subslice_flat(off, len, [len]));
        }
        3 => {
            let (off, len) = *cx.rng.pick(&[(usize::MAX, 1), (usize::MAX, 2), (usize::MAX - 1, 2), (usize::MAX - 1, 3)]);
            cx.refuse("C03", &format!("subslice_flat({}, {}) of {:?}", off, len, shape), || t.subslice_flat(off, len, [len]));
        }
        4 => {
            // the shape asks for more or fewer elements than the range
            let off = cx.rng.below(n);
            let len = cx.rng.range(1, n - off);
            let other = if cx.rng.chance(50) { len + 1 + cx.rng.below(9) } else { len - 1 };
            cx.refuse("C04", &format!("subslice_flat({}, {}) of {:?} as shape [{}]", off, len, shape, other),
                || t.subslice_flat(off, len, [other]));
        }
        5 => {
            let mut s = shape.clone();
            let at = cx.rng.below(s.len());
            s[at] += 1 + cx.rng.below(2);
            cx.refuse("C04", &format!("reshape {:?} to {:?}", shape, s), || t.clone().reshape(shp(&s)));
        }
        6 if n > 1 => {
            let s = n - 1 - cx.rng.below(n - 1);
            cx.refuse("C04", &format!("reshape {:?} to [{}]", shape, s), || t.clone().reshape([s]));
        }
        _ => {
            // a view of a view must not reach the rest of its parent
            let off = cx.rng.below(n);
            let len = cx.rng.range(1, n - off);
            let w = t.subslice_flat(off, len, [len]);
            if off + len < n {
                cx.refuse("C03", &format!("subslice({}, 1) of a view [{}]", len, len), || w.subslice(len, 1));
                cx.refuse("C03", &format!("subslice_flat(0, {}) of a view [{}]", len + 1, len),
                    || w.subslice_flat(0, len + 1, Shape::from([len + 1])));
            }
            let i = len + cx.rng.below(n);
            cx.refuse("C03", &format!("[{}] of a view [{}]", i, len), || w[i].rep());
            if w.get(len).is_some() || w.get(i).is_some() {
                bad(cx, format!("get({}) of a view of {} elements is some", i, len));
            }
        }
    }
    cx.still(&v);
}
