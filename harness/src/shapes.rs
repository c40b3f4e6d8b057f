//! C04: shapes behave like lists of dimensions.

use essay_tensor::tensor::{Axis, Shape, Tensor};

use crate::any_elem;
use crate::cx::Cx;
use crate::model::*;

fn bad(cx: &Cx, what: String) -> ! {
    cx.fail("C04", format!("{}: {}", cx.desc, what))
}

fn dims(cx: &mut Cx, lo: usize, hi: usize) -> Vec<usize> {
    let rank = cx.rng.range(lo, hi);
    (0..rank).map(|_| match cx.rng.below(12) {
        0 => 1,
        1 => *cx.rng.pick(&[255, 256, 257, 65535, 65536, 65537]),
        2 if rank <= 2 => *cx.rng.pick(&[u32::MAX as usize, u32::MAX as usize - 1, 1 << 31]),
        _ => cx.rng.range(1, 9),
    }).collect()
}

fn product(d: &[usize]) -> Option<usize> {
    d.iter().try_fold(1usize, |a, b| a.checked_mul(*b))
}

/// Every query of the shape agrees with the list.
fn check(cx: &mut Cx, s: &Shape, d: &[usize]) {
    cx.checks += 1;
    let rank = d.len();
    if s.rank() != rank || s.as_vec() != d {
        bad(cx, format!("{:?} (rank {}), expected {:?}", s.as_vec(), s.rank(), d));
    }
    if let Some(n) = product(d) {
        if s.size() != n {
            bad(cx, format!("size of {:?} is {}", d, s.size()));
        }
    }
    for i in 0..rank {
        let (a, b) = (s.dim(i), s.rdim(rank - 1 - i));
        let (c, e) = (s.idim(i as isize), s.idim(i as isize - rank as isize));
        if a != d[i] || b != d[i] || c != d[i] || e != d[i] {
            bad(cx, format!("dimension {} of {:?} reads {} {} {} {}", i, d, a, b, c, e));
        }
    }
    if rank > 0 && (s.cols() != d[rank - 1] || s.len() != d[0]) {
        bad(cx, format!("cols {} len {} of {:?}", s.cols(), s.len(), d));
    }
    if rank > 1 && s.rows() != d[rank - 2] {
        bad(cx, format!("rows {} of {:?}", s.rows(), d));
    }
    // equal to the same list built anew, whatever edits led here
    if *s != Shape::from(d) {
        bad(cx, format!("{:?} is not equal to a new shape of the same dimensions", d));
    }
    let mut other = d.to_vec();
    if rank > 0 {
        let i = cx.rng.below(rank);
        other[i] = if other[i] > 1 { other[i] - 1 } else { 2 };
        if *s == Shape::from(other.as_slice()) {
            bad(cx, format!("{:?} is equal to {:?}", d, other));
        }
    }
    for _ in 0..2 {
        let a = cx.rng.range(0, rank);
        let b = cx.rng.range(a, rank);
        if let Some(n) = product(&d[a..b]) {
            if s.sublen(a, b) != n {
                bad(cx, format!("sublen({}, {}) of {:?} is {}", a, b, d, s.sublen(a, b)));
            }
        }
        let r: Vec<usize> = d.iter().rev().copied().collect();
        if let Some(n) = product(&r[a..b]) {
            if s.rsublen(a, b) != n {
                bad(cx, format!("rsublen({}, {}) of {:?} is {}", a, b, d, s.rsublen(a, b)));
            }
        }
        let base = cx.rng.range(0, rank + 1);
        let n = if base < rank { product(&d[..rank - base]) } else { Some(1) };
        if let Some(n) = n {
            if s.batch_len(base) != n {
                bad(cx, format!("batch_len({}) of {:?} is {}", base, d, s.batch_len(base)));
            }
        }
    }
}

fn make(cx: &mut Cx, d: &[usize]) -> Shape {
    match cx.rng.below(6) {
        0 => Shape::from(d.to_vec()),
        1 if d.len() == 1 => Shape::vector(d[0]),
        2 if d.len() == 1 => Shape::from(d[0]),
        1 | 2 if d.is_empty() => Shape::scalar(),
        3 => match d.len() {
            0 => Shape::from([]),
            1 => Shape::from([d[0]]),
            2 => Shape::from([d[0], d[1]]),
            3 => Shape::from([d[0], d[1], d[2]]),
            4 => Shape::from([d[0], d[1], d[2], d[3]]),
            5 => Shape::from([d[0], d[1], d[2], d[3], d[4]]),
            _ => Shape::from([d[0], d[1], d[2], d[3], d[4], d[5]]),
        },
        4 => {
            let s = Shape::from(d);
            Shape::from(&s)
        }
        _ => Shape::from(d),
    }
}

/// A random sequence of edits.
pub fn edits(cx: &mut Cx) {
    let mut d = dims(cx, 0, 6);
    let mut s = make(cx, &d);
    cx.op("C04", "shape", &d);
    check(cx, &s, &d);

    for _ in 0..cx.rng.range(1, 14) {
        let rank = d.len();
        let len = match cx.rng.below(10) { 0 => 1, 1 => 65536, _ => cx.rng.range(1, 9) };
        match cx.rng.below(16) {
            0 if rank < 6 => {
                let i = cx.rng.range(0, rank);
                cx.op("C04", "insert", (&d, i, len));
                s = s.insert(i, len);
                d.insert(i, len);
            }
            1 if rank < 6 => {
                let i = cx.rng.range(0, rank);
                cx.op("C04", "rinsert", (&d, i, len));
                s = s.rinsert(i, len);
                d.insert(rank - i, len);
            }
            2 if rank > 0 => {
                let i = cx.rng.below(rank);
                cx.op("C04", "remove", (&d, i));
                s = s.remove(i);
                d.remove(i);
            }
            3 if rank > 0 => {
                let i = cx.rng.below(rank);
                cx.op("C04", "rremove", (&d, i));
                s = s.rremove(i);
                d.remove(rank - 1 - i);
            }
            4 if rank > 0 => {
                let i = cx.rng.below(rank);
                cx.op("C04", "replace", (&d, i, len));
                s = if cx.rng.chance(50) { s.replace(i, len) } else { s.with_dim(i, len) };
                d[i] = len;
            }
            5 if rank > 0 => {
                let i = cx.rng.below(rank);
                cx.op("C04", "rreplace", (&d, i, len));
                s = s.rreplace(i, len);
                d[rank - 1 - i] = len;
            }
            6 if rank < 6 => {
                cx.op("C04", "push", (&d, len));
                s = s.push(len);
                d.insert(0, len);
            }
            7 if rank > 0 => {
                cx.op("C04", "pop", &d);
                s = s.pop();
                d.remove(0);
            }
            8 => {
                let n = cx.rng.range(0, 6 - rank);
                let tail: Vec<usize> = (0..n).map(|_| cx.rng.range(1, 9)).collect();
                cx.op("C04", "append", (&d, &tail));
                s = s.append(&tail);
                for v in tail {
                    d.insert(0, v);
                }
            }
            9 if rank > 0 => {
                cx.op("C04", "squeeze", &d);
                s = s.squeeze(None);
                d.retain(|v| *v != 1);
                if d.is_empty() { d.push(1) }
            }
            10 if rank > 0 => {
                let i = cx.rng.below(rank);
                let ax = if cx.rng.chance(50) { i as isize } else { i as isize - rank as isize };
                cx.op("C04", "squeeze axis", (&d, ax));
                s = s.squeeze(Axis::axis(ax));
                if d[i] == 1 { d.remove(i); }
                if d.is_empty() { d.push(1) }
            }
            11 if rank < 6 => {
                let i = cx.rng.range(0, rank);
                let ax = if cx.rng.chance(50) { i as isize } else { i as isize - rank as isize - 1 };
                cx.op("C04", "expand_dims", (&d, ax));
                s = s.expand_dims(ax);
                d.insert(i, 1);
            }
            12 if rank > 0 => {
                cx.op("C04", "reduce", &d);
                s = s.reduce();
                if rank > 1 { d.pop(); } else { d[0] = 1; }
            }
            13 if rank > 0 => {
                cx.op("C04", "with_cols", (&d, len));
                s = s.with_cols(len);
                d[rank - 1] = len;
            }
            14 if rank > 1 => {
                cx.op("C04", "with_rows", (&d, len));
                s = s.with_rows(len);
                d[rank - 2] = len;
            }
            _ => {
                let c = s.clone();
                if c != s || Shape::from(&c) != s {
                    bad(cx, "a clone is not equal".into());
                }
                s = c;
            }
        }
        check(cx, &s, &d);
    }
}

/// Trailing dimensions of one are those of the other.
pub fn broadcasting(cx: &mut Cx) {
    let a: Vec<usize> = { let r = cx.rng.range(0, 6); (0..r).map(|_| cx.rng.range(1, 6)).collect() };
    let mut b: Vec<usize> = a[cx.rng.range(0, a.len())..].to_vec();
    if b.len() == a.len() {
        for _ in 0..cx.rng.range(0, 6 - a.len()) {
            let v = cx.rng.range(1, 6);
            b.insert(0, v);
        }
    }
    let (mut a, mut b) = (a, b);
    if cx.rng.chance(50) {
        std::mem::swap(&mut a, &mut b);
    }
    let bad_at = if a.len().min(b.len()) > 0 && cx.rng.chance(40) {
        let i = cx.rng.below(a.len().min(b.len()));
        let k = a.len() - 1 - i;
        a[k] = if cx.rng.chance(50) && b[b.len() - 1 - i] != 1 { 1 } else { b[b.len() - 1 - i] + 1 };
        true
    } else {
        false
    };
    let (sa, sb) = (Shape::from(a.as_slice()), Shape::from(b.as_slice()));
    cx.op("C04", "broadcast", (&a, &b));
    if bad_at {
        match cx.rng.below(3) {
            0 => cx.refuse("C04", &format!("broadcast_to {:?} {:?}", a, b), || sa.broadcast_to(&sb)),
            1 => cx.refuse("C04", &format!("broadcast {:?} {:?}", a, b), || sa.broadcast(&sb)),
            _ => cx.refuse("C04", &format!("check_broadcast {:?} {:?}", a, b), || sa.check_broadcast(&sb)),
        }
        return;
    }
    let e = if a.len() < b.len() { &b } else { &a };
    sa.check_broadcast(&sb);
    let s = sa.broadcast_to(&sb);
    check(cx, &s, e);
    let n = sa.broadcast(&sb);
    if n != e.iter().product::<usize>() {
        bad(cx, format!("broadcast size is {}", n));
    }
    // batches in front of matrices of any size
    let am: Vec<usize> = a.iter().copied().chain([cx.rng.range(1, 5), cx.rng.range(1, 5)]).collect();
    let k = cx.rng.range(0, 2);
    let bm: Vec<usize> = b.iter().copied().chain((0..k).map(|_| cx.rng.range(1, 5))).collect();
    if am.len() <= 6 && bm.len() <= 6 {
        let n = Shape::from(am.as_slice()).broadcast_min(2, &Shape::from(bm.as_slice()), k);
        if n != e.iter().product::<usize>() {
            bad(cx, format!("broadcast_min of {:?} and {:?} is {}", am, bm, n));
        }
    }
}

/// What cannot be represented is refused.
pub fn refusals(cx: &mut Cx) {
    let full: Vec<usize> = (0..6).map(|_| cx.rng.range(1, 4)).collect();
    let d = dims(cx, 0, 6);
    let s = Shape::from(d.as_slice());
    let rank = d.len();
    let beyond = rank + cx.rng.below(5);
    let huge = *cx.rng.pick(&[1usize << 32, (1 << 32) + 1, (1 << 33) + 5, usize::MAX, (1 << 40) + 3, 1 << 63]);
    let f = Shape::from(full.as_slice());
    cx.op("C04", "refusals", (&d, huge, beyond));
    match cx.rng.below(26) {
        0 => cx.refuse("C04", "7 dimensions (slice)", || Shape::from(&[1usize, 2, 3, 1, 2, 3, 1][..])),
        1 => cx.refuse("C04", "7 dimensions (array)", || Shape::from([1usize, 2, 3, 1, 2, 3, 1])),
        2 => cx.refuse("C04", "7 dimensions (vec)", || Shape::from(vec![1usize, 2, 3, 1, 2, 3, 1])),
        3 => cx.refuse("C04", "push to rank 6", || f.push(3)),
        4 => { let a = cx.rng.range(0, 6); cx.refuse("C04", &format!("insert({}) to rank 6", a), || f.insert(a, 2)) }
        5 => { let a = cx.rng.range(0, 6); cx.refuse("C04", &format!("rinsert({}) to rank 6", a), || f.rinsert(a, 2)) }
        6 => cx.refuse("C04", "expand_dims of rank 6", || f.expand_dims(0)),
        7 => { let tail = vec![2; 7 - rank]; cx.refuse("C04", &format!("append {} to rank {}", 7 - rank, rank), || s.append(&tail)) }
        8 => cx.refuse("C04", &format!("from {}", huge), || Shape::from(huge)),
        9 => cx.refuse("C04", &format!("vector {}", huge), || Shape::vector(huge)),
        10 => cx.refuse("C04", &format!("slice {}", huge), || Shape::from(&[2, huge][..])),
        11 => cx.refuse("C04", &format!("array {}", huge), || Shape::from([huge, 2])),
        12 => cx.refuse("C04", &format!("vec {}", huge), || Shape::from(vec![3, huge])),
        13 if rank < 6 => cx.refuse("C04", &format!("push {}", huge), || s.push(huge)),
        14 if rank > 0 => cx.refuse("C04", &format!("with_cols {}", huge), || s.with_cols(huge)),
        15 if rank > 1 => cx.refuse("C04", &format!("with_rows {}", huge), || s.with_rows(huge)),
        16 if rank > 0 => cx.refuse("C04", &format!("replace {}", huge), || s.replace(0, huge)),
        17 if rank > 0 => cx.refuse("C04", &format!("rreplace {}", huge), || s.rreplace(0, huge)),
        18 if rank < 6 => cx.refuse("C04", &format!("insert {}", huge), || s.insert(0, huge)),
        19 if rank < 6 => cx.refuse("C04", &format!("rinsert {}", huge), || s.rinsert(0, huge)),
        20 => cx.refuse("C04", &format!("remove({}) of {:?}", beyond, d), || s.remove(beyond)),
        21 => cx.refuse("C04", &format!("rremove({}) of {:?}", beyond, d), || s.rremove(beyond)),
        22 => cx.refuse("C04", &format!("replace({}) of {:?}", beyond, d), || s.replace(beyond, 2)),
        23 => cx.refuse("C04", &format!("rreplace({}) of {:?}", beyond, d), || s.rreplace(beyond, 2)),
        24 if rank < 5 => cx.refuse("C04", &format!("insert({}) into {:?}", beyond + 1, d), || s.insert(beyond + 1, 2)),
        25 if rank < 5 => cx.refuse("C04", &format!("rinsert({}) into {:?}", beyond + 1, d), || s.rinsert(beyond + 1, 2)),
        _ => {
            // the size is beyond the address space
            let k = 1usize << 31;
            cx.refuse("C04", "size 2^93", || Shape::from([k, k, k]).size());
            cx.refuse("C04", "size 2^64", || Shape::from([1 << 31, 1 << 31, 4]).size());
        }
    }
}

/// Data that does not fit its shape is refused.
pub fn misfits(cx: &mut Cx) {
    any_elem!(cx, misfits_of)
}

fn misfits_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.any_shape(0, 6);
    let n = size(&shape);
    let k = match cx.rng.below(4) {
        0 => n + 1,
        1 => n - 1,
        2 => n * 2,
        _ => n + cx.rng.range(1, 9),
    };
    let reps = cx.reps::<E>(k);
    let vals: Vec<E> = reps.iter().map(|r| E::make(r)).collect();
    cx.op("C04", "misfits", (&shape, k));
    let s = shp(&shape);
    match cx.rng.below(6) {
        0 => cx.refuse("C04", &format!("{} elements as {:?}", k, shape), || Tensor::from_vec(vals, s)),
        1 => cx.refuse("C04", &format!("boxed {} elements as {:?}", k, shape), || Tensor::from_box(vals.into_boxed_slice(), s)),
        2 => cx.refuse("C04", &format!("reshape {} elements to {:?}", k, shape), || Tensor::from(vals).reshape(s)),
        3 => cx.refuse("C04", &format!("merge {} elements to {:?}", k, shape), || Tensor::from_merge(&[Tensor::from(vals)], s)),
        4 => {
            // the same size modulo 2^32
            let big = shp(&[1 << 16, 1 << 16, 2]);
            cx.refuse("C04", &format!("{} elements as 2^33", k), || Tensor::from_vec(vals, big));
        }
        _ => {
            let t = Tensor::from(vals);
            let big = shp(&[1 << 16, 1 << 16]);
            cx.refuse("C04", &format!("reshape {} elements to 2^32", k), || t.clone().reshape(big));
            cx.refuse("C04", &format!("flat view of {} elements as {:?}", k, shape), || t.subslice_flat(0, k, s));
        }
    }
}
