//! Elements, the list model of a tensor, and generation of tensors by many
//! routes.

use std::fmt::Debug;

use essay_tensor::tensor::{Shape, Tensor, Type};
use num_complex::Complex;

use crate::cx::Cx;
use crate::ledger::{Tracked, Zst};
use crate::rng::Rng;

pub trait Elem: Type + Clone + Debug + Sized {
    type Rep: Clone + Debug + PartialEq + 'static;
    const NAME: &'static str;

    fn gen(r: &mut Rng) -> Self::Rep;
    fn rep(&self) -> Self::Rep;
    fn make(rep: &Self::Rep) -> Self;

    /// Two representations that are different, and may be equal as values.
    fn alias(_: &mut Rng) -> Option<(Self::Rep, Self::Rep)> { None }
}

macro_rules! int_elem {
    ($($t:ident)*) => { $(
        impl Elem for $t {
            type Rep = $t;
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> $t {
                match r.below(8) {
                    0 => $t::MAX,
                    1 => $t::MIN,
                    2 => 0 as $t,
                    3 => 1 as $t,
                    4 => r.below(16) as $t,
                    _ => (((r.u64() as u128) << 64) | r.u64() as u128) as $t,
                }
            }
            fn rep(&self) -> $t { *self }
            fn make(rep: &$t) -> $t { *rep }
        }
    )* };
}
int_elem!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

pub const F32_SPECIAL: [f32; 14] = [
    0., -0., 1., -1., f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE,
    1.0e-45, f32::MAX, f32::MIN, f32::EPSILON, 16777216., -16777217.,
];

pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => *r.pick(&F32_SPECIAL),
        1 => f32::from_bits(r.u32()),
        2 => r.below(20) as f32 - 10.,
        3 => (r.unit() * 2e6 - 1e6) as f32,
        4 => (r.unit() * 2e-6 - 1e-6) as f32,
        _ => (r.unit() * 20. - 10.) as f32,
    }
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&F32_SPECIAL) as f64,
        1 => f64::from_bits(r.u64()),
        2 => r.below(20) as f64 - 10.,
        3 => r.unit() * 2e6 - 1e6,
        _ => r.unit() * 20. - 10.,
    }
}

impl Elem for f32 {
    type Rep = u32;
    const NAME: &'static str = "f32";
    fn gen(r: &mut Rng) -> u32 { gen_f32(r).to_bits() }
    fn rep(&self) -> u32 { self.to_bits() }
    fn make(rep: &u32) -> f32 { f32::from_bits(*rep) }
    fn alias(r: &mut Rng) -> Option<(u32, u32)> {
        let sign = 1 << 31;
        Some(*r.pick(&[(0, sign), (sign, 0), (0x7fc00000, 0x7fc00000), (0x7fc00000, 0x7fc00001), (1, 0), (1, sign | 1), (0x3f800000, 0x3f800001)]))
    }
}

impl Elem for f64 {
    type Rep = u64;
    const NAME: &'static str = "f64";
    fn gen(r: &mut Rng) -> u64 { gen_f64(r).to_bits() }
    fn rep(&self) -> u64 { self.to_bits() }
    fn make(rep: &u64) -> f64 { f64::from_bits(*rep) }
    fn alias(r: &mut Rng) -> Option<(u64, u64)> {
        let sign = 1 << 63;
        let nan = 0x7ff8 << 48;
        Some(*r.pick(&[(0, sign), (sign, 0), (nan, nan), (nan, nan | 1), (1, 0), (1, sign | 1), (0x3ff0 << 48, (0x3ff0 << 48) | 1)]))
    }
}

impl Elem for bool {
    type Rep = bool;
    const NAME: &'static str = "bool";
    fn gen(r: &mut Rng) -> bool { r.chance(50) }
    fn rep(&self) -> bool { *self }
    fn make(rep: &bool) -> bool { *rep }
}

impl Elem for String {
    type Rep = String;
    const NAME: &'static str = "String";
    fn gen(r: &mut Rng) -> String {
        match r.below(5) {
            0 => String::new(),
            1 => "x".repeat(r.below(60)),
            2 => format!("\u{e4}\u{3b1}{}", r.below(1000)),
            _ => format!("s{}", r.u32()),
        }
    }
    fn rep(&self) -> String { self.clone() }
    fn make(rep: &String) -> String { rep.clone() }
}

impl Elem for Tracked {
    type Rep = i64;
    const NAME: &'static str = "Tracked";
    fn gen(r: &mut Rng) -> i64 { r.u64() as i64 >> 8 }
    fn rep(&self) -> i64 { self.val() }
    fn make(rep: &i64) -> Tracked { Tracked::new(*rep) }
}

impl Elem for Zst {
    type Rep = ();
    const NAME: &'static str = "Zst";
    fn gen(_: &mut Rng) {}
    fn rep(&self) {}
    fn make(_: &()) -> Zst { Zst::new() }
}

/// Over-aligned and large element.
#[derive(Clone, Debug, PartialEq)]
#[repr(align(128))]
pub struct Wide(pub [u32; 5]);
impl Type for Wide {}
impl Elem for Wide {
    type Rep = [u32; 5];
    const NAME: &'static str = "Wide";
    fn gen(r: &mut Rng) -> [u32; 5] { [r.u32(), r.u32(), r.u32(), r.u32(), r.u32()] }
    fn rep(&self) -> [u32; 5] {
        assert!(self as *const Wide as usize % 128 == 0, "misaligned element");
        self.0
    }
    fn make(rep: &[u32; 5]) -> Wide { Wide(*rep) }
}

impl Elem for Complex<f32> {
    type Rep = (u32, u32);
    const NAME: &'static str = "Complex32";
    fn gen(r: &mut Rng) -> (u32, u32) { (f32::gen(r), f32::gen(r)) }
    fn rep(&self) -> (u32, u32) { (self.re.to_bits(), self.im.to_bits()) }
    fn make(rep: &(u32, u32)) -> Self { Complex::new(f32::make(&rep.0), f32::make(&rep.1)) }
}

impl Elem for Complex<f64> {
    type Rep = (u64, u64);
    const NAME: &'static str = "Complex64";
    fn gen(r: &mut Rng) -> (u64, u64) { (f64::gen(r), f64::gen(r)) }
    fn rep(&self) -> (u64, u64) { (self.re.to_bits(), self.im.to_bits()) }
    fn make(rep: &(u64, u64)) -> Self { Complex::new(f64::make(&rep.0), f64::make(&rep.1)) }
}

impl Elem for Complex<i64> {
    type Rep = (i64, i64);
    const NAME: &'static str = "ComplexI";
    fn gen(r: &mut Rng) -> (i64, i64) { (r.below(2000) as i64 - 1000, r.below(2000) as i64 - 1000) }
    fn rep(&self) -> (i64, i64) { (self.re, self.im) }
    fn make(rep: &(i64, i64)) -> Self { Complex::new(rep.0, rep.1) }
}

impl<A: Elem, B: Elem> Elem for (A, B) {
    type Rep = (A::Rep, B::Rep);
    const NAME: &'static str = "pair";
    fn gen(r: &mut Rng) -> Self::Rep { (A::gen(r), B::gen(r)) }
    fn rep(&self) -> Self::Rep { (self.0.rep(), self.1.rep()) }
    fn make(rep: &Self::Rep) -> Self { (A::make(&rep.0), B::make(&rep.1)) }
}

impl<A: Elem> Elem for Option<A> {
    type Rep = Option<A::Rep>;
    const NAME: &'static str = "option";
    fn gen(r: &mut Rng) -> Self::Rep { if r.chance(30) { None } else { Some(A::gen(r)) } }
    fn rep(&self) -> Self::Rep { self.as_ref().map(|v| v.rep()) }
    fn make(rep: &Self::Rep) -> Self { rep.as_ref().map(|v| A::make(v)) }
}

/// The list model of a tensor: dimensions outside-in and row-major elements.
#[derive(Clone, Debug, PartialEq)]
pub struct M<E: Elem> {
    pub shape: Vec<usize>,
    pub data: Vec<E::Rep>,
}

pub fn size(shape: &[usize]) -> usize {
    shape.iter().product()
}

/// Row-major odometer.
pub struct Odo {
    shape: Vec<usize>,
    pub idx: Vec<usize>,
    done: bool,
}

impl Odo {
    pub fn new(shape: &[usize]) -> Self {
        Odo { shape: shape.to_vec(), idx: vec![0; shape.len()], done: size(shape) == 0 }
    }
    pub fn next(&mut self) -> Option<Vec<usize>> {
        if self.done {
            return None;
        }
        let out = self.idx.clone();
        let mut i = self.shape.len();
        loop {
            if i == 0 {
                self.done = true;
                break;
            }
            i -= 1;
            self.idx[i] += 1;
            if self.idx[i] < self.shape[i] {
                break;
            }
            self.idx[i] = 0;
        }
        Some(out)
    }
}

pub fn flat(shape: &[usize], idx: &[usize]) -> usize {
    let mut o = 0;
    for (d, i) in shape.iter().zip(idx) {
        debug_assert!(i < d);
        o = o * d + i;
    }
    o
}

impl<E: Elem> M<E> {
    pub fn new(shape: Vec<usize>, data: Vec<E::Rep>) -> Self {
        assert_eq!(size(&shape), data.len());
        M { shape, data }
    }

    /// Build a tensor model from an index function.
    pub fn build(shape: &[usize], mut f: impl FnMut(&[usize]) -> E::Rep) -> Self {
        let mut data = Vec::with_capacity(size(shape));
        let mut odo = Odo::new(shape);
        while let Some(i) = odo.next() {
            data.push(f(&i));
        }
        M::new(shape.to_vec(), data)
    }

    pub fn at(&self, idx: &[usize]) -> &E::Rep {
        &self.data[flat(&self.shape, idx)]
    }

    pub fn rank(&self) -> usize { self.shape.len() }
    pub fn size(&self) -> usize { self.data.len() }
    pub fn vals(&self) -> Vec<E> { self.data.iter().map(|r| E::make(r)).collect() }
}

/// A generated input: the real tensor and its model.
pub struct In<E: Elem> {
    pub t: Tensor<E>,
    pub m: M<E>,
    pub route: u8,
}

pub trait Keep {
    fn check(&self) -> Option<String>;
}

struct Kept<E: Elem> {
    t: Tensor<E>,
    m: M<E>,
    what: &'static str,
}

impl<E: Elem> Keep for Kept<E> {
    fn check(&self) -> Option<String> {
        differs(&self.t, &self.m).map(|d| format!("{} changed: {}", self.what, d))
    }
}

/// None if the tensor shows exactly the model.
pub fn differs<E: Elem>(t: &Tensor<E>, m: &M<E>) -> Option<String> {
    let shape = t.shape().as_vec();
    if shape != m.shape {
        return Some(format!("shape {:?}, expected {:?}", shape, m.shape));
    }
    let s = t.as_slice();
    if s.len() != m.data.len() {
        return Some(format!("{} elements, expected {} for shape {:?}", s.len(), m.data.len(), shape));
    }
    for (i, (a, b)) in s.iter().zip(&m.data).enumerate() {
        let a = a.rep();
        if a != *b {
            return Some(format!("element {} of shape {:?} is {:?}, expected {:?}", i, shape, a, b));
        }
    }
    None
}

pub fn shp(dims: &[usize]) -> Shape {
    Shape::from(dims)
}

impl Cx {
    /// A dimension: mostly small, with special values around powers of two.
    pub fn dim(&mut self, max: usize) -> usize {
        let r = &mut self.rng;
        let d = match r.below(20) {
            0..=4 => 1,
            5..=13 => r.range(2, 5),
            14..=17 => r.range(6, 17),
            18 => *r.pick(&[31, 32, 33, 63, 64, 65]),
            _ => *r.pick(&[100, 127, 128, 129, 255, 256, 257, 300]),
        };
        d.min(max).max(1)
    }

    pub fn shape(&mut self, lo: usize, hi: usize, max_size: usize) -> Vec<usize> {
        let rank = self.rng.range(lo, hi);
        let mut v = vec![1; rank];
        let mut order: Vec<usize> = (0..rank).collect();
        self.rng.shuffle(&mut order);
        let mut left = max_size.max(1);
        for i in order {
            let d = self.dim(left);
            v[i] = d;
            left /= d;
        }
        v
    }

    /// A bound on the size of tensors for this case: usually small, rarely large.
    pub fn max_size(&mut self) -> usize {
        if self.small {
            return *self.rng.pick(&[1, 4, 8, 12, 24, 40]);
        }
        match self.rng.below(400) {
            0 => 70_000,
            1..=8 => 9_000,
            9..=40 => 1_200,
            41..=200 => 200,
            _ => 48,
        }
    }

    /// Once in `k` cases, never where cases are slow: sizes beyond usual blocks and counters.
    pub fn rarely(&mut self, k: usize) -> bool {
        let yes = !self.small && self.rng.below(k) == 0;
        if yes { self.count("large cases", 1) }
        yes
    }

    pub fn any_shape(&mut self, lo: usize, hi: usize) -> Vec<usize> {
        let max = self.max_size();
        if max >= 5000 && hi >= 1 && self.rng.chance(60) {
            // one long dimension, near a power of two
            let base = *self.rng.pick(&[1 << 10, 1 << 11, 1 << 12, 1 << 13, 1 << 16, 69_999]);
            let long = (base + self.rng.below(3)).saturating_sub(1).min(max);
            let rank = self.rng.range(lo.max(1), hi.min(3).max(lo.max(1)));
            let mut v = vec![1; rank];
            let at = self.rng.below(rank);
            v[at] = long;
            let mut left = max / long;
            for i in 0..rank {
                if i != at && left > 1 {
                    v[i] = self.rng.range(1, left.min(4));
                    left /= v[i];
                }
            }
            return v;
        }
        self.shape(lo, hi, max)
    }

    pub fn reps<E: Elem>(&mut self, n: usize) -> Vec<E::Rep> {
        (0..n).map(|_| E::gen(&mut self.rng)).collect()
    }

    pub fn keep<E: Elem>(&mut self, t: &Tensor<E>, m: &M<E>, what: &'static str) {
        self.keeps.push(Box::new(Kept { t: t.clone(), m: m.clone(), what }));
    }

    /// A tensor with random contents.
    pub fn tensor<E: Elem>(&mut self, shape: &[usize]) -> In<E> {
        let n = size(shape);
        let data = self.reps::<E>(n);
        self.tensor_of(M::new(shape.to_vec(), data))
    }

    /// A tensor with the given contents, made by a random route.
    pub fn tensor_of<E: Elem>(&mut self, m: M<E>) -> In<E> {
        let route = self.rng.below(16) as u8;
        let t = self.route::<E>(route, &m);
        let t = match t {
            Some(t) if differs(&t, &m).is_none() => t,
            _ => {
                // the route itself failed: that is judged where the route is
                // the subject, here a plain tensor is used
                self.route_failed += 1;
                Tensor::from_vec(m.vals(), shp(&m.shape))
            }
        };
        if self.rng.chance(30) {
            self.keep(&t, &m, "a clone of the operand");
        }
        In { t, m, route }
    }

    fn route<E: Elem>(&mut self, route: u8, m: &M<E>) -> Option<Tensor<E>> {
        let n = m.size();
        let shape = m.shape.clone();
        let rank = shape.len();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match route {
            // view of the outermost dimension
            1 | 2 if rank > 0 && n > 0 => {
                let row: usize = shape[1..].iter().product();
                let (pre, post) = (self.rng.range(1, 3), self.rng.below(3));
                let mut data = self.reps::<E>(pre * row);
                data.extend(m.data.iter().cloned());
                data.extend(self.reps::<E>(post * row));
                let mut big = shape.clone();
                big[0] += pre + post;
                let pm = M::<E>::new(big.clone(), data);
                let parent = Tensor::from_vec(pm.vals(), shp(&big));
                let view = parent.subslice(pre, shape[0]);
                if self.rng.chance(50) {
                    self.keep(&parent, &pm, "the parent of a view");
                }
                view
            }
            // flat range with a new shape
            3 | 4 => {
                let (pre, post) = (self.rng.range(1, 9), self.rng.below(9));
                let mut data = self.reps::<E>(pre);
                data.extend(m.data.iter().cloned());
                data.extend(self.reps::<E>(post));
                let pm = M::<E>::new(vec![data.len()], data);
                let parent = Tensor::from(pm.vals());
                let view = parent.subslice_flat(pre, n, shp(&shape));
                if self.rng.chance(50) {
                    self.keep(&parent, &pm, "the parent of a flat view");
                }
                view
            }
            // nested views
            5 | 6 => {
                let (a, b, c) = (self.rng.range(1, 6), self.rng.range(1, 6), self.rng.below(6));
                let mut data = self.reps::<E>(a + b);
                data.extend(m.data.iter().cloned());
                data.extend(self.reps::<E>(c + 1));
                let pm = M::<E>::new(vec![data.len()], data);
                let parent = Tensor::from(pm.vals());
                let v1 = parent.subslice(a, b + n + c);
                let view = v1.subslice_flat(b, n, shp(&shape));
                if self.rng.chance(50) {
                    self.keep(&parent, &pm, "the parent of a nested view");
                }
                view
            }
            7 => Tensor::from(m.vals()).reshape(shp(&shape)),
            8 => Tensor::from_box(m.vals().into_boxed_slice(), shp(&shape)),
            9 => {
                let mut it = m.vals().into_iter();
                Tensor::init(shp(&shape), || it.next().unwrap())
            }
            10 => m.vals().into_iter().collect::<Tensor<E>>().reshape(shp(&shape)),
            11 => Tensor::from_slice(m.vals()).reshape(shp(&shape)),
            12 => Tensor::from_vec(m.vals(), shp(&shape)).map(|v| v.clone()),
            13 if rank > 0 && n > 0 => {
                // first half and second half merged
                let k = self.rng.below(n + 1);
                let vals = m.vals();
                let a = Tensor::from(vals[..k].to_vec());
                let b = Tensor::from(vals[k..].to_vec());
                Tensor::from_merge(&[a, b], shp(&shape))
            }
            14 => {
                let t = Tensor::from_vec(m.vals(), shp(&shape));
                let keep = t.clone();
                drop(t);
                keep
            }
            _ => Tensor::from_vec(m.vals(), shp(&shape)),
        }));
        r.ok()
    }
}

impl Cx {
    /// Element type of this case: values with a destructor where ownership is
    /// the subject.
    pub fn elem_kind(&mut self) -> usize {
        match self.prop {
            "C02" | "C22" => *self.rng.pick(&[8, 8, 8, 8, 8, 9, 7, 11, 12]),
            "C01" => *self.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 8, 8, 9, 10, 11, 12, 13]),
            _ => *self.rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]),
        }
    }
}

/// Calls the generic scenario with a random element type.
#[macro_export]
macro_rules! any_elem {
    ($cx:expr, $f:ident) => {
        match $cx.elem_kind() {
            0 => $f::<f32>($cx),
            #[cfg(feature = "wide")]
            1 => $f::<f64>($cx),
            2 => $f::<i32>($cx),
            3 => $f::<u8>($cx),
            #[cfg(feature = "wide")]
            4 => $f::<i64>($cx),
            #[cfg(feature = "wide")]
            5 => $f::<u128>($cx),
            #[cfg(feature = "wide")]
            6 => $f::<bool>($cx),
            7 => $f::<String>($cx),
            8 => $f::<$crate::ledger::Tracked>($cx),
            9 => $f::<$crate::ledger::Zst>($cx),
            10 => $f::<$crate::model::Wide>($cx),
            #[cfg(feature = "wide")]
            11 => $f::<(u8, String)>($cx),
            12 => $f::<Option<String>>($cx),
            #[cfg(feature = "wide")]
            13 => $f::<num_complex::Complex<f32>>($cx),
            _ => $f::<i32>($cx),
        }
    };
}

/// All factorisations are reachable: a random shape of the given size.
pub fn refactor(r: &mut Rng, n: usize, max_rank: usize) -> Vec<usize> {
    if n == 1 && r.chance(20) {
        return vec![];
    }
    let rank = r.range(1, max_rank);
    let mut v = vec![1; rank];
    if n == 0 {
        v[r.below(rank)] = 0;
        return v;
    }
    let mut left = n;
    let mut p = 2;
    while left > 1 {
        if p * p > left {
            p = left;
        }
        if left % p == 0 {
            v[r.below(rank)] *= p;
            left /= p;
        } else {
            p += 1;
        }
    }
    v
}

/// A shape near the given one: dimensions exchanged, factors moved between
/// dimensions, merged, cut, grown or inserted. Many keep the size or the
/// outer or inner products.
pub fn spoil(r: &mut Rng, shape: &[usize]) -> Vec<usize> {
    let mut s = shape.to_vec();
    if s.is_empty() {
        s.push(r.range(1, 4));
        return s;
    }
    let (i, j) = (r.below(s.len()), r.below(s.len()));
    match r.below(9) {
        0 | 1 => s.swap(i, j),
        2 | 3 => {
            // move a factor
            if let Some(f) = (2..=s[i]).find(|f| s[i] % f == 0) {
                s[i] /= f;
                s[j] *= f;
            }
        }
        4 => s[i] += r.range(1, 2),
        5 => s[i] = 1,
        6 if s.len() < 6 => s.insert(r.range(0, s.len()), 1),
        7 if i + 1 < s.len() => {
            let d = s.remove(i + 1);
            s[i] *= d;
        }
        _ => {
            s.remove(i);
        }
    }
    s
}
