//! C05: construction.

use essay_tensor::tensor::{scalar, Shape, Tensor};
use essay_tensor::ten;

use crate::any_elem;
use crate::cx::Cx;
use crate::model::*;

struct Feed<'a, E: Elem>(std::slice::Iter<'a, E::Rep>);

impl<'a, E: Elem> Feed<'a, E> {
    fn one(&mut self) -> E { E::make(self.0.next().unwrap()) }
    fn vec(&mut self, n: usize) -> Vec<E> { (0..n).map(|_| self.one()).collect() }
    fn arr<const N: usize>(&mut self) -> [E; N] { std::array::from_fn(|_| self.one()) }
    fn arr2<const M: usize, const N: usize>(&mut self) -> [[E; N]; M] { std::array::from_fn(|_| self.arr()) }
    fn arr3<const L: usize, const M: usize, const N: usize>(&mut self) -> [[[E; N]; M]; L] { std::array::from_fn(|_| self.arr2()) }
    fn arr4<const K: usize, const L: usize, const M: usize, const N: usize>(&mut self) -> [[[[E; N]; M]; L]; K] { std::array::from_fn(|_| self.arr3()) }
    fn v2(&mut self, s: &[usize]) -> Vec<Vec<E>> { (0..s[0]).map(|_| self.vec(s[1])).collect() }
    fn v3(&mut self, s: &[usize]) -> Vec<Vec<Vec<E>>> { (0..s[0]).map(|_| self.v2(&s[1..])).collect() }
    fn v4(&mut self, s: &[usize]) -> Vec<Vec<Vec<Vec<E>>>> { (0..s[0]).map(|_| self.v3(&s[1..])).collect() }
    fn v5(&mut self, s: &[usize]) -> Vec<Vec<Vec<Vec<Vec<E>>>>> { (0..s[0]).map(|_| self.v4(&s[1..])).collect() }
}

fn verify<E: Elem>(cx: &mut Cx, name: &str, shape: &[usize], make: impl FnOnce(&mut Feed<E>) -> Tensor<E>) {
    let data = cx.reps::<E>(size(shape));
    cx.op("C05", name, (shape, E::NAME, &data.len()));
    let t = make(&mut Feed(data.iter()));
    let m = M::new(shape.to_vec(), data);
    cx.eq("C05", &t, &m);
    cx.keep(&t, &m, "a new tensor");
}

/// An iterator that does not know, or is wrong about, its length.
struct Hinted<I>(I, usize);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (n, _) = self.0.size_hint();
        match self.1 {
            0 => (0, None),
            1 => (n / 2, Some(n / 2)),
            2 => (n + 3, Some(n + 7)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

/// Vec<[E; N]> with unused capacity.
fn rows<E: Elem, const N: usize>(f: &mut Feed<E>, n: usize, spare: usize) -> Vec<[E; N]> {
    let mut v = Vec::with_capacity(n + spare);
    for _ in 0..n {
        v.push(f.arr::<N>());
    }
    v
}

pub fn from_nested(cx: &mut Cx) { any_elem!(cx, from_nested_of) }

fn from_nested_of<E: Elem>(cx: &mut Cx) {
    let n = if cx.rarely(300) { *cx.rng.pick(&[1000, 1001, 1025, 4096, 65_535, 65_537, 70_000]) } else { cx.dim(300) };
    let spare = cx.rng.below(4);
    let mut s5: Vec<usize> = (0..5).map(|_| cx.rng.range(1, 4)).collect();
    if cx.rarely(100) {
        let at = cx.rng.below(5);
        s5[at] = *cx.rng.pick(&[31, 64, 65, 100, 255, 257, 1001]);
    }
    match cx.rng.below(36) {
        0 => verify::<E>(cx, "from vec", &[n], |f| { let mut v = f.vec(n); v.reserve(spare); Tensor::from(v) }),
        1 => verify::<E>(cx, "from &vec", &[n], |f| Tensor::from(&f.vec(n))),
        2 => verify::<E>(cx, "from slice", &[n], |f| Tensor::from(f.vec(n).as_slice())),
        3 => verify::<E>(cx, "from_slice", &[n], |f| Tensor::from_slice(f.vec(n))),
        4 => verify::<E>(cx, "collect", &[n], |f| f.vec(n).into_iter().collect()),
        5 => verify::<E>(cx, "collect refs", &[n], |f| f.vec(n).iter().collect()),
        6 => verify::<E>(cx, "scalar", &[], |f| scalar(f.one())),
        7 => verify::<E>(cx, "from_scalar", &[], |f| Tensor::from_scalar(f.one())),
        8 => verify::<E>(cx, "from value", &[], |f| Tensor::from(f.one())),
        9 => verify::<E>(cx, "array 1", &[1], |f| Tensor::from(f.arr::<1>())),
        10 => verify::<E>(cx, "array 5", &[5], |f| Tensor::from(f.arr::<5>())),
        11 => verify::<E>(cx, "array 33", &[33], |f| Tensor::from(f.arr::<33>())),
        12 => verify::<E>(cx, "array 2x3", &[2, 3], |f| Tensor::from(f.arr2::<2, 3>())),
        13 => verify::<E>(cx, "array 3x1", &[3, 1], |f| Tensor::from(f.arr2::<3, 1>())),
        14 => verify::<E>(cx, "array 1x4", &[1, 4], |f| Tensor::from(f.arr2::<1, 4>())),
        15 => verify::<E>(cx, "array 2x3x4", &[2, 3, 4], |f| Tensor::from(f.arr3::<2, 3, 4>())),
        16 => verify::<E>(cx, "array 4x1x2", &[4, 1, 2], |f| Tensor::from(f.arr3::<4, 1, 2>())),
        17 => verify::<E>(cx, "array 2x3x4x5", &[2, 3, 4, 5], |f| Tensor::from(f.arr4::<2, 3, 4, 5>())),
        18 => verify::<E>(cx, "array 3x2x1x2", &[3, 2, 1, 2], |f| Tensor::from(f.arr4::<3, 2, 1, 2>())),
        19 => verify::<E>(cx, "vec of arrays 1", &[n, 1], |f| Tensor::from(rows::<E, 1>(f, n, spare))),
        20 => verify::<E>(cx, "vec of arrays 3", &[n, 3], |f| Tensor::from(rows::<E, 3>(f, n, spare))),
        21 => verify::<E>(cx, "vec of arrays 7", &[n, 7], |f| Tensor::from(rows::<E, 7>(f, n, spare))),
        22 => verify::<E>(cx, "&vec of arrays", &[n, 3], |f| Tensor::from(&rows::<E, 3>(f, n, spare))),
        23 => verify::<E>(cx, "slice of arrays", &[n, 2], |f| Tensor::from(rows::<E, 2>(f, n, spare).as_slice())),
        24 => verify::<E>(cx, "&vec 2", &[n, 3], |f| Tensor::from(&f.v2(&[n, 3]))),
        25 => verify::<E>(cx, "&vec 3", &s5[..3], |f| Tensor::from(&f.v3(&s5[..3]))),
        26 => verify::<E>(cx, "&vec 4", &s5[..4], |f| Tensor::from(&f.v4(&s5[..4]))),
        27 => verify::<E>(cx, "&vec 5", &s5[..5], |f| Tensor::from(&f.v5(&s5[..5]))),
        28 => verify::<E>(cx, "&vec vec array", &[s5[0], s5[1], 3], |f| {
            let v: Vec<Vec<[E; 3]>> = (0..s5[0]).map(|_| rows::<E, 3>(f, s5[1], 0)).collect();
            Tensor::from(&v)
        }),
        29 => verify::<E>(cx, "ten! 1", &[3], |f| { let [a, b, c] = f.arr::<3>(); ten![a, b, c] }),
        30 => verify::<E>(cx, "ten! 2", &[2, 2], |f| { let [a, b, c, d] = f.arr::<4>(); ten![[a, b], [c, d]] }),
        31 => verify::<E>(cx, "ten! 3", &[1, 2, 2], |f| { let [a, b, c, d] = f.arr::<4>(); ten![[[a, b], [c, d]]] }),
        33 => verify::<E>(cx, "collect with a hint", &[n], |f| Hinted(f.vec(n).into_iter(), spare).collect()),
        34 => {
            verify::<E>(cx, "collect refs with a hint", &[n], |f| { let v = f.vec(n); let t = Hinted(v.iter(), spare).collect(); t })
        }
        32 => verify::<E>(cx, "empty", &[0], |f| match spare {
            0 => Tensor::from(f.vec(0)),
            1 => Tensor::from(f.arr::<0>()),
            2 => f.vec(0).into_iter().collect(),
            _ => Tensor::from_slice(f.vec(0)),
        }),
        _ => {
            let shape = cx.any_shape(0, 6);
            let k = cx.rng.below(5);
            verify::<E>(cx, "from_vec or from_box", &shape, |f| {
                let mut v = f.vec(size(&shape));
                v.reserve(spare);
                match k {
                    0 => Tensor::from_vec(v, shape.clone()),
                    1 => Tensor::from_box(v.into_boxed_slice(), shp(&shape)),
                    2 => Tensor::from_vec(v, &shp(&shape)),
                    3 => { let mut it = v.into_iter(); Tensor::init(shp(&shape), || it.next().unwrap()) }
                    _ => Tensor::from_vec(v, shape.as_slice()),
                }
            })
        }
    }
}

/// Options: only for types where the conversion is not ambiguous.
pub fn from_option(cx: &mut Cx) {
    fn go<E: Elem>(cx: &mut Cx) {
        if cx.rng.chance(50) {
            let r = E::gen(&mut cx.rng);
            cx.op("C05", "some", E::NAME);
            let t = Tensor::<E>::from(Some(E::make(&r)));
            cx.eq("C05", &t, &M::new(vec![], vec![r]));
        } else {
            cx.op("C05", "none", E::NAME);
            let t = Tensor::<E>::from(None::<E>);
            if t.size() != 0 || !t.as_slice().is_empty() || t.get(0).is_some() {
                cx.fail("C05", format!("no value gives {} elements", t.size()));
            }
            cx.invariant(&t);
        }
    }
    any_elem!(cx, go)
}

pub fn from_strings(cx: &mut Cx) {
    let n = cx.rng.range(0, 9);
    let v = cx.reps::<String>(n.max(4));
    match cx.rng.below(3) {
        0 => {
            cx.op("C05", "from str", &v[0]);
            let t: Tensor<String> = Tensor::from(v[0].as_str());
            cx.eq("C05", &t, &M::new(vec![], vec![v[0].clone()]));
        }
        1 => {
            cx.op("C05", "from vec of str", &v[..n]);
            let t: Tensor<String> = Tensor::from(v[..n].iter().map(|s| s.as_str()).collect::<Vec<&str>>());
            cx.eq("C05", &t, &M::new(vec![n], v[..n].to_vec()));
        }
        _ => {
            cx.op("C05", "from array of str", &v[..4]);
            let t: Tensor<String> = Tensor::from([v[0].as_str(), v[1].as_str(), v[2].as_str(), v[3].as_str()]);
            cx.eq("C05", &t, &M::new(vec![4], v[..4].to_vec()));
        }
    }
}

/// Lists of tensors.
pub fn from_tensors(cx: &mut Cx) {
    fn go<E: Elem + Copy>(cx: &mut Cx) {
        let max = cx.max_size();
        let shape = cx.shape(0, 5, max.min(500));
        let n = if size(&shape) < 20 && cx.rarely(40) { cx.rng.range(6, 300) } else { cx.rng.range(1, 5) };
        let v: Vec<In<E>> = (0..n).map(|_| cx.tensor::<E>(&shape)).collect();
        let ts: Vec<Tensor<E>> = v.iter().map(|v| v.t.clone()).collect();
        let k = cx.rng.below(4);
        cx.op("C05", "from tensors", (&shape, n, k, E::NAME));
        let r = match k {
            0 => Tensor::from(&ts),
            1 => Tensor::from(ts.as_slice()),
            2 if n == 2 => Tensor::from([ts[0].clone(), ts[1].clone()]),
            3 if n == 3 => Tensor::from([ts[0].clone(), ts[1].clone(), ts[2].clone()]),
            _ => Tensor::from(&ts),
        };
        let mut s = shape.clone();
        s.insert(0, n);
        cx.eq("C05", &r, &M::new(s, v.iter().flat_map(|v| v.m.data.iter().cloned()).collect()));
        for v in &v { cx.still(v); }

        // different shapes, also of the same size
        let mut other = shape.clone();
        if shape.len() >= 2 && shape[0] != shape[1] && cx.rng.chance(50) {
            other.swap(0, 1);
        } else if shape.len() < 5 && cx.rng.chance(50) {
            other.push(1);
        } else if !other.is_empty() {
            other[0] += 1;
        } else {
            return;
        }
        let o = cx.tensor::<E>(&other);
        let mut ts = ts;
        let at = cx.rng.below(ts.len() + 1);
        ts.insert(at, o.t);
        cx.refuse("C05", &format!("tensors of {:?} and {:?} in a list", shape, other), || Tensor::from(&ts));
    }
    match cx.rng.below(6) {
        0 => go::<f32>(cx),
        1 => go::<f64>(cx),
        2 => go::<u8>(cx),
        3 => go::<i64>(cx),
        4 => go::<bool>(cx),
        _ => go::<num_complex::Complex<f32>>(cx),
    }
}

pub fn ragged(cx: &mut Cx) { any_elem!(cx, ragged_of) }

fn ragged_of<E: Elem>(cx: &mut Cx) {
    let s: Vec<usize> = (0..5).map(|_| cx.rng.range(1, 3)).collect();
    let (n, m) = (cx.rng.range(2, 5), cx.rng.range(1, 5));
    let data = cx.reps::<E>(1000);
    let mut f = Feed::<E>(data.iter());
    let grow = cx.rng.chance(50);
    let add = |v: &mut Vec<E>, f: &mut Feed<E>| if grow || v.len() < 2 { let e = f.one(); v.push(e) } else { v.pop(); };
    let depth = cx.rng.below(7);
    let at = |d: usize, cx: &mut Cx| cx.rng.below(d);
    cx.op("C05", "ragged", (depth, &s, n, m, grow, E::NAME));
    match depth {
        0 => {
            let mut v = f.v2(&[n, m]);
            let i = at(n, cx);
            add(&mut v[i], &mut f);
            cx.refuse("C05", &format!("ragged 2 {} {} row {}", n, m, i), || Tensor::from(&v));
        }
        1 => {
            let s = [n, s[1] + 1, s[2]];
            let mut v = f.v3(&s);
            let (i, j) = (at(s[0], cx), at(s[1], cx));
            add(&mut v[i][j], &mut f);
            cx.refuse("C05", &format!("ragged 3 {:?} at {} {}", s, i, j), || Tensor::from(&v));
        }
        2 => {
            // the number of rows differs, the total may be the same
            let mut v = f.v3(&[3, 2, m]);
            let row = v[0].pop().unwrap();
            if cx.rng.chance(50) { v[1].push(row); }
            cx.refuse("C05", "ragged 3 rows", || Tensor::from(&v));
        }
        3 => {
            let s = [n, s[1], s[2] + 1, s[3]];
            let mut v = f.v4(&s);
            let (i, j, k) = (at(s[0], cx), at(s[1], cx), at(s[2], cx));
            match cx.rng.below(3) {
                0 => add(&mut v[i][j][k], &mut f),
                1 => { v[i][j].pop(); }
                _ => { let x = f.v2(&s[2..]); v[i].push(x); }
            }
            cx.refuse("C05", &format!("ragged 4 {:?} at {} {} {}", s, i, j, k), || Tensor::from(&v));
        }
        4 => {
            let s = [n, s[1], s[2], s[3] + 1, s[4]];
            let mut v = f.v5(&s);
            let (i, j, k, l) = (at(s[0], cx), at(s[1], cx), at(s[2], cx), at(s[3], cx));
            match cx.rng.below(4) {
                0 => add(&mut v[i][j][k][l], &mut f),
                1 => { v[i][j][k].pop(); }
                2 => { let x = f.v2(&s[3..]); v[i][j].push(x); }
                _ => { let x = f.v3(&s[2..]); v[i].push(x); }
            }
            cx.refuse("C05", &format!("ragged 5 {:?} at {} {} {} {}", s, i, j, k, l), || Tensor::from(&v));
        }
        5 => {
            let mut v: Vec<Vec<[E; 2]>> = (0..n).map(|_| rows::<E, 2>(&mut f, m + 1, 0)).collect();
            let i = at(n, cx);
            v[i].pop();
            cx.refuse("C05", &format!("ragged rows of arrays {}", i), || Tensor::from(&v));
        }
        _ => {
            // compensating lengths: the total is that of a proper matrix
            let mut v = f.v2(&[2, m + 1]);
            let e = v[1].pop().unwrap();
            v[0].push(e);
            cx.refuse("C05", "ragged 2 with the right total", || Tensor::from(&v));
        }
    }
}

/// A nest as a tree, so that its lists can be moved about at any level.
#[derive(Clone)]
enum Nest<E> { One(E), List(Vec<Nest<E>>) }

impl<E: Elem> Nest<E> {
    fn new(f: &mut Feed<E>, s: &[usize]) -> Self {
        if s.is_empty() { Nest::One(f.one()) } else { Nest::List((0..s[0]).map(|_| Nest::new(f, &s[1..])).collect()) }
    }
    fn list(&self) -> &Vec<Nest<E>> { match self { Nest::List(v) => v, _ => unreachable!() } }
    /// The list reached by `path`, wrapping every index.
    fn at(&mut self, path: &[usize]) -> Option<&mut Vec<Nest<E>>> {
        let Nest::List(v) = self else { unreachable!() };
        if path.is_empty() { return Some(v); }
        if v.is_empty() { return None; }
        let n = v.len();
        v[path[0] % n].at(&path[1..])
    }
    /// The shape of a regular nest of `depth` levels; it ends with a 0 at
    /// empty lists.
    fn shape(&self, depth: usize) -> Option<Vec<usize>> {
        if depth == 0 { return Some(vec![]); }
        let v = self.list();
        let mut shapes = v.iter().map(|n| n.shape(depth - 1));
        let Some(first) = shapes.next() else { return Some(vec![0]) };
        let first = first?;
        if shapes.any(|s| s.as_ref() != Some(&first)) { return None; }
        Some([vec![v.len()], first].concat())
    }
    fn one(&self) -> E { match self { Nest::One(e) => e.clone(), _ => unreachable!() } }
    fn v1(&self) -> Vec<E> { self.list().iter().map(|n| n.one()).collect() }
    fn v2(&self) -> Vec<Vec<E>> { self.list().iter().map(|n| n.v1()).collect() }
    fn v3(&self) -> Vec<Vec<Vec<E>>> { self.list().iter().map(|n| n.v2()).collect() }
    fn v4(&self) -> Vec<Vec<Vec<Vec<E>>>> { self.list().iter().map(|n| n.v3()).collect() }
    fn v5(&self) -> Vec<Vec<Vec<Vec<Vec<E>>>>> { self.list().iter().map(|n| n.v4()).collect() }
}

pub fn ragged_nest(cx: &mut Cx) { any_elem!(cx, ragged_nest_of) }

/// Elements, rows and whole sub-nests moved between siblings (so the total
/// is that of a regular nest), added or removed, at any level.
fn ragged_nest_of<E: Elem>(cx: &mut Cx) {
    let depth = cx.rng.range(2, 6);
    let mut s: Vec<usize> = (0..depth).map(|_| cx.rng.range(1, 3)).collect();
    if cx.rng.chance(70) { for d in s.iter_mut() { if *d == 1 && cx.rng.chance(50) { *d = 2 } } }
    let arrays = depth == 3 && cx.rng.chance(30);
    if arrays { s[2] = 2; }
    if depth == 6 { s.truncate(5); }
    let depth = s.len();
    let data = cx.reps::<E>(size(&s) + 200);
    let mut f = Feed::<E>(data.iter());
    let mut nest = Nest::new(&mut f, &s);
    let mut log = Vec::new();
    for _ in 0..cx.rng.range(1, 2) {
        // the level of the lists that change length
        let k = cx.rng.range(1, depth - 1 - arrays as usize);
        let path: Vec<usize> = (0..k).map(|_| cx.rng.below(3)).collect();
        let mut other: Vec<usize> = (0..k).map(|_| cx.rng.below(3)).collect();
        let j = cx.rng.below(k);
        other[..j].copy_from_slice(&path[..j]);
        let how = cx.rng.below(4);
        let Some(a) = nest.at(&path) else { continue };
        match how {
            0 => { a.pop(); }
            1 => { let x = Nest::new(&mut f, &s[k + 1..]); a.push(x) }
            _ => {
                let Some(x) = (if cx.rng.chance(70) { a.pop() } else if a.is_empty() { None } else { Some(a.remove(0)) }) else { continue };
                if let Some(b) = nest.at(&other) { b.push(x) }
            }
        }
        log.push((how, path, other));
    }
    let what = format!("nest of {:?} {} changed by {:?}", s, if arrays { "with arrays" } else { "" }, log);
    let make = |nest: &Nest<E>| match (depth, arrays) {
        (3, true) => {
            let v: Vec<Vec<[E; 2]>> = nest.v3().into_iter().map(|v| v.into_iter().map(|r| [r[0].clone(), r[1].clone()]).collect()).collect();
            Tensor::from(&v)
        }
        (2, _) => Tensor::from(&nest.v2()),
        (3, _) => Tensor::from(&nest.v3()),
        (4, _) => Tensor::from(&nest.v4()),
        _ => Tensor::from(&nest.v5()),
    };
    match nest.shape(depth) {
        // empty lists everywhere: the shape is not settled
        Some(shape) if shape.contains(&0) => {}
        Some(shape) => {
            cx.op("C05", "regular again", (&what, E::NAME));
            let t = make(&nest);
            fn flat<E: Elem>(n: &Nest<E>, out: &mut Vec<E::Rep>) {
                match n { Nest::One(e) => out.push(e.rep()), Nest::List(v) => v.iter().for_each(|n| flat(n, out)) }
            }
            let mut data = Vec::new();
            flat(&nest, &mut data);
            cx.eq("C05", &t, &M::new(shape, data));
        }
        None => cx.refuse("C05", &what, || make(&nest)),
    }
}

/// The number of elements must match the shape.
pub fn wrong_amount(cx: &mut Cx) { any_elem!(cx, wrong_amount_of) }

fn wrong_amount_of<E: Elem>(cx: &mut Cx) {
    let shape = cx.shape(0, 6, 100);
    let n = size(&shape);
    let k = if cx.rng.chance(50) { n + 1 + cx.rng.below(4) } else { n - 1 };
    let vals: Vec<E> = cx.reps::<E>(k).iter().map(|r| E::make(r)).collect();
    cx.op("C05", "wrong amount", (&shape, k, E::NAME));
    let s: Shape = shp(&shape);
    match cx.rng.below(3) {
        0 => cx.refuse("C05", &format!("from_vec {} as {:?}", k, shape), || Tensor::from_vec(vals, s)),
        1 => cx.refuse("C05", &format!("from_box {} as {:?}", k, shape), || Tensor::from_box(vals.into_boxed_slice(), s)),
        _ => {
            let mut a = Tensor::from(vals);
            if k > 1 && cx.rng.chance(50) { a = a.clone().reshape([1, k]) }
            cx.refuse("C05", &format!("from_merge {} as {:?}", k, shape), || Tensor::from_merge(&[a], s))
        }
    }
}
