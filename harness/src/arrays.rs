//! C08 joining, C09 splitting, C10 transpose and tile.

use essay_tensor::array;
use essay_tensor::tensor::{Axis, Tensor};

use crate::any_elem;
use crate::cx::Cx;
use crate::model::*;

pub fn m_concat<E: Elem>(ms: &[M<E>], axis: usize) -> M<E> {
    let mut shape = ms[0].shape.clone();
    shape[axis] = ms.iter().map(|m| m.shape[axis]).sum();
    M::build(&shape, |i| {
        let mut i = i.to_vec();
        let mut k = 0;
        while i[axis] >= ms[k].shape[axis] {
            i[axis] -= ms[k].shape[axis];
            k += 1;
        }
        ms[k].at(&i).clone()
    })
}

pub fn m_stack<E: Elem>(ms: &[M<E>], axis: usize) -> M<E> {
    let mut shape = ms[0].shape.clone();
    shape.insert(axis, ms.len());
    M::build(&shape, |i| {
        let mut i = i.to_vec();
        let k = i.remove(axis);
        ms[k].at(&i).clone()
    })
}

pub fn m_split<E: Elem>(m: &M<E>, axis: usize, from: usize, to: usize) -> M<E> {
    let mut shape = m.shape.clone();
    shape[axis] = to - from;
    M::build(&shape, |i| {
        let mut i = i.to_vec();
        i[axis] += from;
        m.at(&i).clone()
    })
}

pub fn m_transpose<E: Elem>(m: &M<E>) -> M<E> {
    let r = m.rank();
    if r == 1 {
        return M::new(vec![m.size(), 1], m.data.clone());
    }
    let mut shape = m.shape.clone();
    shape.swap(r - 1, r - 2);
    M::build(&shape, |i| {
        let mut i = i.to_vec();
        i.swap(r - 1, r - 2);
        m.at(&i).clone()
    })
}

pub fn m_tile<E: Elem>(m: &M<E>, mult: &[usize]) -> M<E> {
    let rank = m.rank().max(mult.len());
    let mut dims = vec![1; rank - m.rank()];
    dims.extend(&m.shape);
    let mut mul = vec![1; rank - mult.len()];
    mul.extend(mult);
    let shape: Vec<usize> = dims.iter().zip(&mul).map(|(a, b)| a * b).collect();
    M::build(&shape, |i| {
        let j: Vec<usize> = (rank - m.rank()..rank).map(|k| i[k] % dims[k]).collect();
        m.at(&j).clone()
    })
}

/// A random way of writing the axis.
pub fn axis_form(cx: &mut Cx, axis: usize, rank: usize) -> isize {
    if cx.rng.chance(60) { axis as isize } else { axis as isize - rank as isize }
}

fn axis_arg(ax: isize, k: usize) -> Axis {
    match k % 3 {
        0 => Axis::axis(ax),
        1 => Axis::from(ax),
        _ => Axis::from(Some(ax)),
    }
}

const MANY: [usize; 12] = [13, 16, 17, 32, 33, 64, 65, 100, 128, 255, 257, 300];

/// Inputs that differ only along the axis.
fn inputs<E: Elem>(cx: &mut Cx, shape: &[usize], axis: Option<usize>, n: usize) -> Vec<In<E>> {
    let mut out: Vec<In<E>> = Vec::new();
    for i in 0..n {
        let mut s = shape.to_vec();
        if let Some(axis) = axis {
            if cx.rng.chance(70) {
                s[axis] = cx.dim(if size(shape) > 500 { shape[axis].max(2) } else { 9 });
            }
        }
        // the same tensor, or one that shares storage, may come again
        if i > 0 && cx.rng.chance(15) {
            let k = cx.rng.below(i);
            let v = &out[k];
            out.push(In { t: v.t.clone(), m: v.m.clone(), route: 99 });
        } else {
            out.push(cx.tensor::<E>(&s));
        }
    }
    out
}

pub fn concat(cx: &mut Cx) { any_elem!(cx, concat_of) }

fn concat_of<E: Elem>(cx: &mut Cx) {
    let many = cx.rarely(150);
    let shape = if many { cx.shape(1, 6, 12) } else { cx.any_shape(1, 6) };
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let n = match cx.rng.below(10) {
        _ if many => *cx.rng.pick(&MANY),
        0 => 1,
        1..=4 => 2,
        5..=7 => 3,
        8 => cx.rng.range(4, 6),
        _ => cx.rng.range(7, 12),
    };
    let v = inputs::<E>(cx, &shape, Some(axis), n);
    let ts: Vec<Tensor<E>> = v.iter().map(|v| v.t.clone()).collect();
    let ms: Vec<M<E>> = v.iter().map(|v| v.m.clone()).collect();
    let lens: Vec<usize> = ms.iter().map(|m| m.shape[axis]).collect();
    let exp = m_concat(&ms, axis);
    let ax = axis_form(cx, axis, rank);
    let k = cx.rng.below(12);
    cx.op("C08", "concatenate", (&shape, ax, &lens, k, E::NAME));
    let a = axis_arg(ax, k);
    let r = match k {
        0 => array::concatenate_axis(a, ts),
        1 => array::concatenate_axis(a, ts.iter().collect::<Vec<&Tensor<E>>>()),
        2 => array::concatenate_axis(a, ts.as_slice()),
        3 => array::concatenate_axis(a, ts.iter().collect::<Vec<&Tensor<E>>>().as_slice()),
        4 => ts[0].concatenate_axis(a, &ts[1..]),
        5 if n == 2 => array::concatenate_axis(a, [&ts[0], &ts[1]]),
        6 if n == 3 => array::concatenate_axis(a, (&ts[0], ts[1].clone(), &ts[2])),
        7 if n == 2 => array::concatenate_axis(a, [ts[0].clone(), ts[1].clone()]),
        8 if axis == 0 => array::concatenate(ts),
        9 if axis == 0 => ts[0].concatenate(&ts[1..]),
        5 | 6 if n == 1 => array::concatenate_axis(a, (&ts[0],)),
        5 | 6 if n == 4 => array::concatenate_axis(a, (&ts[0], &ts[1], ts[2].clone(), &ts[3])),
        5 | 6 if n == 6 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4], &ts[5])),
        5 | 6 if n == 7 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4], &ts[5], &ts[6])),
        5 | 6 if n == 8 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4], &ts[5], &ts[6], &ts[7])),
        5 | 6 if n == 9 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4], &ts[5], &ts[6], &ts[7], &ts[8])),
        5 | 6 if n == 10 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4], &ts[5], &ts[6], &ts[7], &ts[8], &ts[9])),
        5 | 6 if n == 5 => array::concatenate_axis(a, (&ts[0], &ts[1], &ts[2], &ts[3], &ts[4])),
        10 if axis == rank.min(2) - 1 && rank <= 2 => array::hstack(ts),
        11 if axis == 1 => array::hstack(ts.as_slice()),
        _ => array::concatenate_axis(a, ts),
    };
    cx.eq("C08", &r, &exp);
    for v in &v { cx.still(v); }
    cx.keep(&r, &exp, "the result of concatenate");
}

pub fn stack(cx: &mut Cx) { any_elem!(cx, stack_of) }

fn stack_of<E: Elem>(cx: &mut Cx) {
    let many = cx.rarely(150);
    let shape = if many { cx.shape(0, 5, 12) } else { cx.any_shape(0, 5) };
    let rank = shape.len();
    let axis = cx.rng.range(0, rank);
    let n = if many { *cx.rng.pick(&MANY) } else if cx.rng.chance(10) { cx.rng.range(6, 11) } else { cx.rng.range(1, 5) };
    let v = inputs::<E>(cx, &shape, None, n);
    let ts: Vec<Tensor<E>> = v.iter().map(|v| v.t.clone()).collect();
    let ms: Vec<M<E>> = v.iter().map(|v| v.m.clone()).collect();
    let ax = axis_form(cx, axis, rank + 1);
    let k = cx.rng.below(12);
    cx.op("C08", "stack", (&shape, ax, n, k, E::NAME));
    let a = axis_arg(ax, k);
    let (r, exp) = match k {
        0 => (array::stack(ts), m_stack(&ms, 0)),
        1 => (array::stack(ts.as_slice()), m_stack(&ms, 0)),
        2 => (array::vstack(ts), m_stack(&ms, 0)),
        3 => (ts[0].vstack(&ts[1..]), m_stack(&ms, 0)),
        4 => (ts[0].stack(&ts[1..], a), m_stack(&ms, axis)),
        5 if n == 2 => (array::stack_axis(a, [&ts[0], &ts[1]]), m_stack(&ms, axis)),
        6 if n == 3 => (array::stack_axis(a, (&ts[0], &ts[1], &ts[2])), m_stack(&ms, axis)),
        7 | 8 if rank == 1 || rank == 2 => {
            // depth: a vector is a row, elements go to a third dimension
            let two: Vec<M<E>> = ms.iter().map(|m| {
                let mut s = m.shape.clone();
                if rank == 1 { s.insert(0, 1) }
                M::new(s, m.data.clone())
            }).collect();
            let e = m_stack(&two, 2);
            (if k == 7 { array::dstack(ts) } else { ts[0].dstack(&ts[1..]) }, e)
        }
        7 | 8 if rank >= 3 => {
            (if k == 7 { array::dstack(ts) } else { ts[0].dstack(&ts[1..]) }, m_concat(&ms, 2))
        }
        _ => (array::stack_axis(a, ts.iter().collect::<Vec<&Tensor<E>>>()), m_stack(&ms, axis)),
    };
    cx.eq("C08", &r, &exp);
    for v in &v { cx.still(v); }
    cx.keep(&r, &exp, "the result of stack");
}

/// Lists of vectors, appending and merging.
pub fn join_lists(cx: &mut Cx) { any_elem!(cx, join_lists_of) }

fn join_lists_of<E: Elem>(cx: &mut Cx) {
    match cx.rng.below(4) {
        0 => {
            // append along the outermost dimension
            let shape = cx.any_shape(1, 5);
            let v = inputs::<E>(cx, &shape, Some(0), 2);
            cx.op("C08", "append", (&v[0].m.shape, &v[1].m.shape, E::NAME));
            let r = if cx.rng.chance(50) { v[0].t.append(&v[1].t) } else { v[0].t.append(v[1].t.clone()) };
            let exp = m_concat(&[v[0].m.clone(), v[1].m.clone()], 0);
            cx.eq("C08", &r, &exp);
            for v in &v { cx.still(v); }
        }
        1 => {
            // any tensors, merged in order
            let n = cx.rng.range(1, 5);
            let v: Vec<In<E>> = (0..n).map(|_| { let s = cx.shape(0, 4, 30); cx.tensor::<E>(&s) }).collect();
            let data: Vec<E::Rep> = v.iter().flat_map(|v| v.m.data.iter().cloned()).collect();
            let shape = refactor(&mut cx.rng, data.len(), 6);
            cx.op("C08", "from_merge", (v.iter().map(|v| v.m.shape.clone()).collect::<Vec<_>>(), &shape, E::NAME));
            let ts: Vec<Tensor<E>> = v.iter().map(|v| v.t.clone()).collect();
            let r = Tensor::from_merge(&ts, shp(&shape));
            cx.eq("C08", &r, &M::new(shape, data));
            for v in &v { cx.still(v); }
        }
        2 => {
            // vectors as list items
            let n = cx.rng.range(1, 4);
            let reps: Vec<Vec<E::Rep>> = (0..n).map(|_| { let k = cx.rng.range(1, 8); cx.reps::<E>(k) }).collect();
            let vecs: Vec<Vec<E>> = reps.iter().map(|r| r.iter().map(|v| E::make(v)).collect()).collect();
            let data: Vec<E::Rep> = reps.iter().flatten().cloned().collect();
            let k = cx.rng.below(6);
            cx.op("C08", "concatenate vectors", (reps.iter().map(|v| v.len()).collect::<Vec<_>>(), k, E::NAME));
            let r = match k {
                0 => array::concatenate(vecs),
                1 => array::concatenate(vecs.iter().collect::<Vec<_>>()),
                2 => array::concatenate(vecs.as_slice()),
                3 => array::concatenate(vecs.iter().collect::<Vec<_>>().as_slice()),
                4 => Tensor::join_vec(&vecs),
                _ if n == 2 => array::concatenate([&vecs[0], &vecs[1]]),
                _ => array::hstack(vecs),
            };
            let len = data.len();
            cx.eq("C08", &r, &M::new(vec![len], data));
        }
        _ => {
            let (n, len) = (cx.rng.range(1, 4), cx.rng.range(1, 8));
            let reps: Vec<Vec<E::Rep>> = (0..n).map(|_| cx.reps::<E>(len)).collect();
            let vecs: Vec<Vec<E>> = reps.iter().map(|r| r.iter().map(|v| E::make(v)).collect()).collect();
            let data: Vec<E::Rep> = reps.iter().flatten().cloned().collect();
            let k = cx.rng.below(4);
            cx.op("C08", "stack vectors", (n, len, k, E::NAME));
            let r = match k {
                0 => array::stack(vecs),
                1 => array::vstack(vecs.iter().collect::<Vec<_>>()),
                2 => array::stack_axis(0, vecs.as_slice()),
                _ => Tensor::from(&vecs),
            };
            cx.eq("C08", &r, &M::new(vec![n, len], data));
        }
    }
}

pub fn join_pieces(cx: &mut Cx) { any_elem!(cx, join_pieces_of) }

/// Pieces of one tensor joined in any order: next to each other, exchanged,
/// overlapping, repeated, and views of views.
fn join_pieces_of<E: Elem>(cx: &mut Cx) {
    let mut shape = cx.shape(1, 5, 60);
    if shape[0] < 4 { shape[0] = cx.rng.range(3, 9) }
    let v = cx.tensor::<E>(&shape);
    let len = shape[0];
    let equal = cx.rng.chance(40);
    let mut parts: Vec<(usize, usize)> = Vec::new();
    if equal {
        let w = cx.rng.range(1, (len / 2).max(1));
        parts = (0..len / w).map(|i| (i * w, w)).collect();
    } else {
        let mut at = 0;
        while at < len {
            let w = cx.rng.range(1, (len - at).min(3));
            parts.push((at, w));
            at += w;
        }
    }
    let how = cx.rng.below(6);
    let k = parts.len();
    match how {
        0 => {}
        1 => { let (i, j) = (cx.rng.below(k), cx.rng.below(k)); parts.swap(i, j) }
        2 => cx.rng.shuffle(&mut parts),
        3 => { let i = cx.rng.below(k); let p = parts[i]; let j = cx.rng.below(k); parts[j].0 = p.0.min(len - parts[j].1); }
        4 => { if k > 1 { parts.remove(cx.rng.below(k)); } }
        _ => parts.reverse(),
    }
    if parts.len() > 8 { parts.truncate(8) }
    let mut ts = Vec::new();
    let mut ms = Vec::new();
    for (from, w) in &parts {
        let m = m_split(&v.m, 0, *from, from + w);
        let t = if cx.rng.chance(80) { v.t.subslice(*from, *w) } else {
            // the same values in other storage
            Tensor::from_vec(m.vals(), shp(&m.shape))
        };
        ts.push(t);
        ms.push(m);
    }
    let rank = shape.len();
    let form = cx.rng.below(6);
    cx.op("C08", "join pieces", (&shape, &parts, how, form, equal, E::NAME, v.route));
    match form {
        0 if equal && rank < 6 => {
            let axis = cx.rng.range(0, rank);
            let r = array::stack_axis(axis as isize, ts.as_slice());
            cx.eq("C08", &r, &m_stack(&ms, axis));
        }
        1 if equal && rank > 1 => {
            let axis = cx.rng.range(1, rank - 1);
            let r = array::concatenate_axis(axis as isize, ts.as_slice());
            cx.eq("C08", &r, &m_concat(&ms, axis));
        }
        2 => {
            let data: Vec<E::Rep> = ms.iter().flat_map(|m| m.data.iter().cloned()).collect();
            let n = data.len();
            let r = Tensor::from_merge(&ts, shp(&[n]));
            cx.eq("C08", &r, &M::new(vec![n], data));
        }
        3 if ts.len() == 2 => {
            let r = ts[0].append(&ts[1]);
            cx.eq("C08", &r, &m_concat(&ms, 0));
        }
        4 => {
            let r = ts[0].concatenate(&ts[1..]);
            cx.eq("C08", &r, &m_concat(&ms, 0));
        }
        _ => {
            let r = array::concatenate(ts);
            cx.eq("C08", &r, &m_concat(&ms, 0));
        }
    }
    cx.still(&v);
}

pub fn join_refusals(cx: &mut Cx) { any_elem!(cx, join_refusals_of) }

fn join_refusals_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.shape(1, 5, 60);
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let a = cx.tensor::<E>(&shape);
    let mut other = shape.clone();
    let what;
    if rank > 1 && cx.rng.chance(70) {
        // another dimension differs; sometimes with equal size
        let mut at = cx.rng.below(rank);
        if at == axis { at = (at + 1) % rank; }
        other[at] += 1 + cx.rng.below(2);
        if cx.rng.chance(30) && shape[at] != shape[axis] {
            other = shape.clone();
            other.swap(at, axis);
        }
        if cx.rng.chance(50) {
            // the other dimensions exchange factors, the axis is anything
            let mut rest = shape.clone();
            rest.remove(axis);
            let len = rest.len();
            let near = spoil(&mut cx.rng, &rest);
            if near.len() == len && near != rest {
                other = near;
                let d = cx.rng.range(1, 3);
                other.insert(axis, d);
            }
        }
        what = "dimension";
    } else {
        if rank < 6 && cx.rng.chance(50) { other.insert(0, 1) } else { other.insert(rank, 1) }
        what = "rank";
    }
    let b = cx.tensor::<E>(&other);
    let mut list = vec![a.t.clone(), a.t.clone()];
    let at = cx.rng.below(3);
    list.insert(at, b.t.clone());
    // the odd one may come first: then the others are the odd ones
    let desc = format!("{} differs: {:?} with {:?} at {} axis {} {}", what, shape, other, at, axis, E::NAME);
    cx.op("C08", "join refusals", &desc);
    match cx.rng.below(5) {
        0 | 1 if what == "rank" || at > 0 || axis < other.len() => {
            cx.refuse("C08", &format!("concatenate {}", desc), || array::concatenate_axis(axis as isize, list))
        }
        2 if rank < 5 => cx.refuse("C08", &format!("stack {}", desc), || array::stack_axis(axis as isize, list)),
        3 if what == "dimension" && axis == 0 => cx.refuse("C08", &format!("vstack {}", desc), || array::vstack(list)),
        4 => cx.refuse("C08", &format!("dstack {}", desc), || array::dstack(list)),
        _ => cx.refuse("C08", &format!("stack {}", desc), || array::stack(list)),
    }
    cx.still(&a);
    cx.still(&b);
}

pub fn split(cx: &mut Cx) { any_elem!(cx, split_of) }

fn split_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(1, 6);
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let len = shape[axis];
    let v = cx.tensor::<E>(&shape);
    let t = &v.t;

    let (parts, cuts) = if cx.rng.chance(40) {
        // a divisor
        let d: Vec<usize> = (1..=len.min(400)).filter(|k| len % k == 0).collect();
        let n = *cx.rng.pick(&d);
        let step = len / n;
        ((0..n).map(|k| (k * step, (k + 1) * step)).collect::<Vec<_>>(), Err(n))
    } else {
        let mut c: Vec<usize> = (0..if cx.rarely(40) { cx.rng.range(5, 40) } else { cx.rng.below(5) }).map(|_| cx.rng.range(0, len)).collect();
        c.sort();
        let mut parts = Vec::new();
        let mut prev = 0;
        for &k in c.iter().chain([&len]) {
            if k > prev { parts.push((prev, k)); }
            prev = k;
        }
        (parts, Ok(c))
    };
    let ax = axis_form(cx, axis, rank);
    let form = cx.rng.below(6);
    cx.op("C09", "split", (&shape, ax, &cuts, form, E::NAME));
    let pieces = match &cuts {
        Err(n) => match form {
            0 if axis == 0 => t.split(*n),
            1 if axis == 0 => t.vsplit(*n),
            2 if axis == 1 => t.hsplit(*n),
            3 if axis == 2 => t.dsplit(*n),
            _ => t.split_axis(axis_arg(ax, form), *n),
        },
        Ok(c) => match form {
            0 if axis == 0 => t.split(c),
            1 if axis == 0 => t.vsplit(c.as_slice()),
            2 if axis == 1 => t.hsplit(c.clone()),
            3 if axis == 2 => t.dsplit(c),
            4 if c.len() == 2 => t.split_axis(ax, [c[0], c[1]]),
            5 => t.split_axis(ax, c.as_slice()),
            _ => t.split_axis(axis_arg(ax, form), c.clone()),
        },
    };
    // empty pieces of repeated cuts are not part of the statement
    let pieces: Vec<Tensor<E>> = pieces.into_iter().filter(|p| p.size() > 0).collect();
    if pieces.len() != parts.len() {
        cx.fail("C09", format!("{}: {} pieces, expected {}", cx.desc, pieces.len(), parts.len()));
    }
    for (p, (a, b)) in pieces.iter().zip(&parts) {
        let e = m_split(&v.m, axis, *a, *b);
        cx.eq("C09", p, &e);
        if cx.rng.chance(30) { cx.keep(p, &e, "a piece of split"); }
    }
    cx.still(&v);
    if cx.rng.chance(50) {
        let back = array::concatenate_axis(ax, pieces);
        cx.eq("C09", &back, &v.m);
    }
}

pub fn unstack(cx: &mut Cx) { any_elem!(cx, unstack_of) }

fn unstack_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(1, 6);
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let v = cx.tensor::<E>(&shape);
    let ax = axis_form(cx, axis, rank);
    cx.op("C09", "unstack", (&shape, ax, E::NAME));
    let pieces = v.t.unstack(ax);
    if pieces.len() != shape[axis] {
        cx.fail("C09", format!("{}: {} pieces, expected {}", cx.desc, pieces.len(), shape[axis]));
    }
    for (k, p) in pieces.iter().enumerate() {
        let mut e = m_split(&v.m, axis, k, k + 1);
        e.shape.remove(axis);
        cx.eq("C09", p, &e);
    }
    cx.still(&v);
    if cx.rng.chance(50) {
        let back = array::stack_axis(axis as isize, pieces);
        cx.eq("C09", &back, &v.m);
    }
}

pub fn split_refusals(cx: &mut Cx) { any_elem!(cx, split_refusals_of) }

fn split_refusals_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.shape(1, 5, 60);
    let rank = shape.len();
    let axis = cx.rng.below(rank);
    let len = shape[axis];
    let v = cx.tensor::<E>(&shape);
    let mut c: Vec<usize> = (0..cx.rng.below(3)).map(|_| cx.rng.range(0, len)).collect();
    c.sort();
    if cx.rng.chance(50) || len < 2 {
        c.push(len + 1 + if cx.rng.chance(70) { 0 } else { cx.rng.below(1000) });
    } else {
        let hi = cx.rng.range(2, len);
        let lo = cx.rng.range(1, hi - 1);
        c = vec![hi, lo];
        if cx.rng.chance(30) { c.insert(0, 1) }
    }
    let ax = axis_form(cx, axis, rank);
    cx.op("C09", "split refusals", (&shape, ax, &c, E::NAME));
    cx.refuse("C09", &format!("split {:?} axis {} at {:?}", shape, ax, c), || v.t.split_axis(ax, c));
    cx.still(&v);
}

pub fn transpose(cx: &mut Cx) { any_elem!(cx, transpose_of) }

fn transpose_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(1, 6);
    let v = cx.tensor::<E>(&shape);
    let k = cx.rng.below(4);
    cx.op("C10", "transpose", (&shape, k, E::NAME));
    let r = match k {
        0 => v.t.transpose(),
        1 => v.t.t(),
        2 => array::transpose(&v.t),
        _ => array::transpose(v.t.clone()),
    };
    let e = m_transpose(&v.m);
    cx.eq("C10", &r, &e);
    cx.still(&v);
    if shape.len() > 1 {
        cx.eq("C10", &r.transpose(), &v.m);
    }
    cx.keep(&r, &e, "the transpose");
}

pub fn tile(cx: &mut Cx) { any_elem!(cx, tile_of) }

fn tile_of<E: Elem>(cx: &mut Cx) {
    let max = cx.max_size();
    let shape = cx.shape(0, 5, max.min(2000));
    let k = cx.rng.range(1, 6);
    let mut left = if cx.small { 12 } else { 600 };
    let mut mult: Vec<usize> = (0..k).map(|_| {
        let m = cx.rng.range(1, 4).min(left);
        left /= m;
        m.max(1)
    }).collect();
    let shape = if cx.rarely(200) {
        // one long repetition
        mult = vec![1; k];
        mult[0] = *cx.rng.pick(&[63, 64, 65, 255, 256, 257, 1000, 4097]);
        cx.shape(0, 5, 12)
    } else {
        shape
    };
    cx.rng.shuffle(&mut mult);
    let v = cx.tensor::<E>(&shape);
    let form = cx.rng.below(5);
    cx.op("C10", "tile", (&shape, &mult, form, E::NAME));
    let r = match form {
        0 if k == 2 => v.t.tile([mult[0], mult[1]]),
        1 if k == 1 => array::tile(&v.t, mult[0]),
        2 => array::tile(&v.t, &mult),
        3 => {
            // the multiples themselves may be a view
            let mv = cx.tensor_of::<usize>(M::new(vec![k], mult.clone()));
            v.t.tile(&mv.t)
        }
        _ => v.t.tile(mult.clone()),
    };
    let e = m_tile(&v.m, &mult);
    cx.eq("C10", &r, &e);
    cx.still(&v);
    cx.keep(&r, &e, "the tiles");
}
