//! C06: element-wise operations and maps; C23: equality and ordering.

use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

use essay_tensor::tensor::{Tensor, Type};
use num_complex::Complex;
use num_traits::{Float, MulAdd, PrimInt, Signed};

use crate::any_elem;
use crate::cx::Cx;
use crate::ledger::Tracked;
use crate::model::*;
use crate::rng::Rng;

/// Model of a binary map with broadcasting by trailing dimensions.
pub fn m_map2<A: Elem, B: Elem, V: Elem>(a: &M<A>, b: &M<B>, mut f: impl FnMut(&A::Rep, &B::Rep) -> V::Rep) -> M<V> {
    let shape = if a.rank() < b.rank() { &b.shape } else { &a.shape };
    M::build(shape, |i| {
        let r = i.len();
        f(a.at(&i[r - a.rank()..]), b.at(&i[r - b.rank()..]))
    })
}

/// Two shapes that broadcast.
pub fn shapes2(cx: &mut Cx) -> (Vec<usize>, Vec<usize>) {
    let a = cx.any_shape(0, 6);
    let b = match cx.rng.below(5) {
        0 | 1 => a.clone(),
        _ => a[cx.rng.range(0, a.len())..].to_vec(),
    };
    if cx.rng.chance(50) { (a, b) } else { (b, a) }
}

pub fn shapes3(cx: &mut Cx) -> [Vec<usize>; 3] {
    let a = cx.any_shape(0, 6);
    let mut v = [a.clone(), a[cx.rng.range(0, a.len())..].to_vec(), a[cx.rng.range(0, a.len())..].to_vec()];
    cx.rng.shuffle(&mut v);
    v
}

/// Second operand: independent, the very same tensor, or a view that shares storage.
pub fn second<E: Elem>(cx: &mut Cx, a: &In<E>, shape: &[usize]) -> In<E> {
    if a.m.shape == shape && cx.rng.chance(30) {
        In { t: a.t.clone(), m: a.m.clone(), route: 90 }
    } else if a.m.shape.ends_with(shape) && a.m.size() > 0 && cx.rng.chance(30) {
        let n = size(shape);
        let off = cx.rng.below(a.m.size() - n + 1);
        In { t: a.t.subslice_flat(off, n, shp(shape)), m: M::new(shape.to_vec(), a.m.data[off..off + n].to_vec()), route: 91 }
    } else {
        cx.tensor::<E>(shape)
    }
}

/// Equal, with all not-a-numbers alike.
trait Alike {
    fn alike(&self, o: &Self) -> bool;
    fn ulps(&self, o: &Self) -> u64;
}

macro_rules! alike_int { ($($t:ty)*) => { $( impl Alike for $t {
    fn alike(&self, o: &Self) -> bool { self == o }
    fn ulps(&self, o: &Self) -> u64 { if self == o { 0 } else { u64::MAX } }
} )* } }
alike_int!(bool i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize Tracked);

impl Alike for f32 {
    fn alike(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    fn ulps(&self, o: &Self) -> u64 {
        if self.is_nan() && o.is_nan() || self == o { return 0; }
        if self.is_nan() || o.is_nan() { return u64::MAX; }
        let k = |v: f32| { let b = v.to_bits() as i32; (if b < 0 { i32::MIN.wrapping_sub(b) } else { b }) as i64 };
        (k(*self) - k(*o)).unsigned_abs()
    }
}
impl Alike for f64 {
    fn alike(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    fn ulps(&self, o: &Self) -> u64 {
        if self.is_nan() && o.is_nan() || self == o { return 0; }
        if self.is_nan() || o.is_nan() { return u64::MAX; }
        let k = |v: f64| { let b = v.to_bits() as i64; (if b < 0 { i64::MIN.wrapping_sub(b) } else { b }) as i128 };
        (k(*self) - k(*o)).unsigned_abs().min(u64::MAX as u128) as u64
    }
}
impl<T: Alike> Alike for Complex<T> {
    fn alike(&self, o: &Self) -> bool { self.re.alike(&o.re) && self.im.alike(&o.im) }
    fn ulps(&self, o: &Self) -> u64 { self.re.ulps(&o.re).max(self.im.ulps(&o.im)) }
}
impl<T: Alike> Alike for (T, T) {
    fn alike(&self, o: &Self) -> bool { self.0.alike(&o.0) && self.1.alike(&o.1) }
    fn ulps(&self, o: &Self) -> u64 { self.0.ulps(&o.0).max(self.1.ulps(&o.1)) }
}

/// Result against expected values; `ulps` of freedom for functions that are
/// not defined to the last bit.
fn verify<V: Elem + Alike>(cx: &mut Cx, t: &Tensor<V>, shape: &[usize], exp: &[V], ulps: u64) {
    cx.checks += 1;
    cx.invariant(t);
    if t.shape().as_vec() != shape {
        cx.fail("C06", format!("{}: shape {:?}, expected {:?}", cx.desc, t.shape(), shape));
    }
    for (i, (a, b)) in t.iter().zip(exp).enumerate() {
        let ok = if ulps == 0 { a.alike(b) } else { a.ulps(b) <= ulps };
        if !ok {
            cx.fail("C06", format!("{}: element {} is {:?}, expected {:?}", cx.desc, i, a, b));
        }
    }
    if t.as_slice().len() != exp.len() {
        cx.fail("C06", format!("{}: {} elements, expected {}", cx.desc, t.as_slice().len(), exp.len()));
    }
    if cx.rng.chance(30) {
        let m = M::<V>::new(shape.to_vec(), t.iter().map(|v| v.rep()).collect());
        cx.keep(t, &m, "the result of an operation");
    }
    if cx.prop == "C03" && t.size() <= 2000 {
        let m = M::<V>::new(shape.to_vec(), t.iter().map(|v| v.rep()).collect());
        crate::views::accessors(cx, t, &m);
    }
}

/// Runs the scalar operation at each position; None if one of them panics.
fn scalar_ref<A: Elem, B: Elem, V>(a: &M<A>, b: &M<B>, f: impl Fn(A, B) -> V) -> Option<(Vec<usize>, Vec<V>)> {
    let shape = if a.rank() < b.rank() { b.shape.clone() } else { a.shape.clone() };
    catch_unwind(AssertUnwindSafe(|| {
        let mut out = Vec::with_capacity(size(&shape));
        let mut odo = Odo::new(&shape);
        while let Some(i) = odo.next() {
            let r = i.len();
            out.push(f(A::make(a.at(&i[r - a.rank()..])), B::make(b.at(&i[r - b.rank()..]))));
        }
        out
    })).ok().map(|v| (shape, v))
}

/// One operator case: operands of every form, against the scalar operation.
/// (Behind function pointers, to keep the build short.)
#[inline(never)]
fn binop_run<T: Elem + Alike>(
    cx: &mut Cx, ty: &str, name: &'static str, ga: fn(&mut Rng) -> T, gb: fn(&mut Rng) -> T,
    scalar: fn(T, T) -> T, apply: fn(usize, Tensor<T>, Tensor<T>, T, T) -> Tensor<T>,
) {
    let (sa, sb) = shapes2(cx);
    let form = cx.rng.below(8);
    let (na, nb) = (size(&sa), size(&sb));
    let da: Vec<_> = (0..na).map(|_| ga(&mut cx.rng).rep()).collect();
    let a = cx.tensor_of::<T>(M::new(sa.clone(), da));
    let b = if cx.rng.chance(25) { second(cx, &a, &sb) } else {
        let db: Vec<_> = (0..nb).map(|_| gb(&mut cx.rng).rep()).collect();
        cx.tensor_of::<T>(M::new(sb.clone(), db))
    };
    let s: T = gb(&mut cx.rng);
    let s1: T = ga(&mut cx.rng);
    cx.op("C06", name, (&sa, &sb, form, ty, a.route, b.route));
    let sm = M::<T>::new(vec![], vec![s.rep()]);
    let s1m = M::<T>::new(vec![], vec![s1.rep()]);
    let exp = match form {
        4 | 5 => scalar_ref(&a.m, &sm, scalar),
        6 | 7 => scalar_ref(&s1m, &b.m, scalar),
        _ => scalar_ref(&a.m, &b.m, scalar),
    };
    let (at, bt) = (a.t.clone(), b.t.clone());
    // operands given away may be the only owners of their storage
    let (at, bt) = if cx.rng.chance(30) {
        (Tensor::from_vec(a.m.vals(), shp(&sa)), Tensor::from_vec(b.m.vals(), shp(&sb)))
    } else { (at, bt) };
    let go = move || apply(form, at, bt, s, s1);
    match exp {
        Some((shape, v)) => {
            let r = go();
            verify(cx, &r, &shape, &v, 0);
        }
        None => cx.refuse("C06", &format!("{} {} whose scalar operation panics", ty, name), go),
    }
    cx.still(&a);
    cx.still(&b);
}

macro_rules! binop {
    ($cx:expr, $t:ty, $name:expr, $op:tt, $gen:expr, $gen2:expr) => {
        binop_run::<$t>($cx, stringify!($t), $name, $gen, $gen2, |x, y| x $op y, |form, at, bt, s, s1| match form {
            0 => at $op bt,
            1 => &at $op bt,
            2 => at $op &bt,
            3 => &at $op &bt,
            4 => at $op s,
            5 => &at $op s,
            6 => s1 $op bt,
            _ => s1 $op &bt,
        })
    };
}

macro_rules! small_int { ($t:ty) => { |r: &mut Rng| (r.range(5, 11)) as $t } }
macro_rules! tiny_int { ($t:ty) => { |r: &mut Rng| (r.range(1, 5)) as $t } }
macro_rules! any_int { ($t:ty) => { |r: &mut Rng| <$t as Elem>::make(&<$t as Elem>::gen(r)) } }
macro_rules! any_val { ($t:ty) => { |r: &mut Rng| <$t as Elem>::make(&<$t as Elem>::gen(r)) } }

macro_rules! int_ops {
    ($cx:expr, $t:ty) => {
        match $cx.rng.below(13) {
            0 => binop!($cx, $t, "add", +, small_int!($t), tiny_int!($t)),
            1 => binop!($cx, $t, "sub", -, small_int!($t), tiny_int!($t)),
            2 => binop!($cx, $t, "mul", *, small_int!($t), tiny_int!($t)),
            3 => binop!($cx, $t, "div", /, any_int!($t), tiny_int!($t)),
            4 => binop!($cx, $t, "rem", %, any_int!($t), tiny_int!($t)),
            5 => binop!($cx, $t, "bitand", &, any_int!($t), any_int!($t)),
            6 => binop!($cx, $t, "bitor", |, any_int!($t), any_int!($t)),
            7 => binop!($cx, $t, "bitxor", ^, any_int!($t), any_int!($t)),
            8 => binop!($cx, $t, "shl", <<, any_int!($t), tiny_int!($t)),
            9 => binop!($cx, $t, "shr", >>, any_int!($t), tiny_int!($t)),
            10 => binop!($cx, $t, "div by any", /, any_int!($t), any_int!($t)),
            11 => binop!($cx, $t, "add any", +, any_int!($t), any_int!($t)),
            _ => binop!($cx, $t, "sub any", -, any_int!($t), any_int!($t)),
        }
    };
}

macro_rules! float_ops {
    ($cx:expr, $t:ty) => {
        match $cx.rng.below(5) {
            0 => binop!($cx, $t, "add", +, any_val!($t), any_val!($t)),
            1 => binop!($cx, $t, "sub", -, any_val!($t), any_val!($t)),
            2 => binop!($cx, $t, "mul", *, any_val!($t), any_val!($t)),
            3 => binop!($cx, $t, "div", /, any_val!($t), any_val!($t)),
            _ => binop!($cx, $t, "rem", %, any_val!($t), any_val!($t)),
        }
    };
}

pub fn operators(cx: &mut Cx) {
    match cx.rng.below(18) {
        0..=2 => float_ops!(cx, f32),
        #[cfg(feature = "wide")]
        3..=4 => float_ops!(cx, f64),
        #[cfg(feature = "wide")]
        5 => int_ops!(cx, i8),
        #[cfg(feature = "wide")]
        6 => int_ops!(cx, i16),
        7 => int_ops!(cx, i32),
        #[cfg(feature = "wide")]
        8 => int_ops!(cx, i64),
        #[cfg(feature = "wide")]
        9 => int_ops!(cx, i128),
        #[cfg(feature = "wide")]
        10 => int_ops!(cx, isize),
        11 => int_ops!(cx, u8),
        #[cfg(feature = "wide")]
        12 => int_ops!(cx, u16),
        #[cfg(feature = "wide")]
        13 => int_ops!(cx, u32),
        #[cfg(feature = "wide")]
        14 => int_ops!(cx, u64),
        #[cfg(feature = "wide")]
        15 => int_ops!(cx, u128),
        #[cfg(feature = "wide")]
        16 => int_ops!(cx, usize),
        _ => match cx.rng.below(3) {
            0 => binop!(cx, bool, "bitand", &, any_val!(bool), any_val!(bool)),
            1 => binop!(cx, bool, "bitor", |, any_val!(bool), any_val!(bool)),
            _ => binop!(cx, bool, "bitxor", ^, any_val!(bool), any_val!(bool)),
        },
    }
}

/// Operators of elements with a destructor, and of complex numbers.
pub fn operators_rich(cx: &mut Cx) {
    fn go<E>(cx: &mut Cx)
    where
        E: Elem + Alike + std::ops::Add<Output = E> + std::ops::Sub<Output = E> + std::ops::Mul<Output = E>
            + std::ops::Neg<Output = E>,
    {
        let (sa, sb) = shapes2(cx);
        let a = cx.tensor::<E>(&sa);
        let b = second(cx, &a, &sb);
        let (op, form) = (cx.rng.below(4), cx.rng.below(6));
        cx.op("C06", ["add", "sub", "mul", "neg"][op], (&sa, &sb, form, E::NAME, a.route, b.route));
        if op == 3 {
            let r = if form < 3 { -a.t.clone() } else { -&a.t };
            let e: Vec<E> = a.m.vals().into_iter().map(|v| -v).collect();
            verify(cx, &r, &sa, &e, 0);
        } else {
            let s = E::gen(&mut cx.rng);
            let sm = M::<E>::new(vec![], vec![s.clone()]);
            let bm = if form >= 4 { &sm } else { &b.m };
            let f = |x: E, y: E| match op { 0 => x + y, 1 => x - y, _ => x * y };
            let (shape, e) = scalar_ref(&a.m, bm, f).unwrap();
            macro_rules! forms { ($o:tt) => { match form {
                0 => a.t.clone() $o b.t.clone(),
                1 => &a.t $o b.t.clone(),
                2 => a.t.clone() $o &b.t,
                3 => &a.t $o &b.t,
                4 => a.t.clone() $o E::make(&s),
                _ => &a.t $o E::make(&s),
            } } }
            let r = match op { 0 => forms!(+), 1 => forms!(-), _ => forms!(*) };
            verify(cx, &r, &shape, &e, 0);
        }
        cx.still(&a);
        cx.still(&b);
    }
    match (cx.prop, cx.rng.below(4)) {
        ("C02", _) | (_, 0) => go::<Tracked>(cx),
        (_, 1) => go::<Complex<f32>>(cx),
        (_, 2) => go::<Complex<f64>>(cx),
        _ => go::<Complex<i64>>(cx),
    }
}

macro_rules! float_fn1 {
    ($cx:expr, $t:ty, $k:expr, $($i:expr => $f:ident : $u:expr),* $(,)?) => {{
        let cx: &mut Cx = $cx;
        let shape = cx.any_shape(0, 6);
        let a = cx.tensor::<$t>(&shape);
        match $k {
            $( $i => {
                cx.op("C06", stringify!($f), (&shape, stringify!($t), a.route));
                let r = a.t.$f();
                let e: Vec<$t> = a.m.vals().into_iter().map(|v| <$t as Float>::$f(v)).collect();
                verify(cx, &r, &shape, &e, $u);
            } )*
            _ => {}
        }
        cx.still(&a);
    }};
}

macro_rules! float_unary {
    ($cx:expr, $t:ty) => {{
        let k = $cx.rng.below(31);
        float_fn1!($cx, $t, k,
            0 => floor: 0, 1 => ceil: 0, 2 => round: 0, 3 => trunc: 0, 4 => fract: 0,
            5 => signum: 0, 6 => recip: 0, 7 => sqrt: 0, 8 => exp: 2, 9 => exp2: 2,
            10 => ln: 2, 11 => log2: 2, 12 => log10: 2, 13 => to_degrees: 1, 14 => to_radians: 1,
            15 => cbrt: 2, 16 => sin: 2, 17 => asin: 2, 18 => sinh: 2, 19 => asinh: 4,
            20 => cos: 2, 21 => acos: 2, 22 => cosh: 2, 23 => acosh: 4, 24 => tan: 2,
            25 => atan: 2, 26 => tanh: 2, 27 => atanh: 4, 28 => exp_m1: 2, 29 => ln_1p: 2,
            30 => floor: 0,
        )
    }};
}

macro_rules! float_binary {
    ($cx:expr, $t:ty) => {{
        let cx: &mut Cx = $cx;
        let k = cx.rng.below(8);
        let (sa, sb) = shapes2(cx);
        let a = cx.tensor::<$t>(&sa);
        let b = second(cx, &a, &sb);
        let names = ["powf", "log", "hypot", "atan2", "copysign", "abs_sub", "powi", "sin_cos"];
        cx.op("C06", names[k], (&sa, &sb, stringify!($t), a.route, b.route));
        match k {
            0 => { let r = a.t.powf(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.powf(y)).unwrap(); verify(cx, &r, &s, &e, 2) }
            1 => { let r = a.t.log(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.log(y)).unwrap(); verify(cx, &r, &s, &e, 4) }
            2 => { let r = a.t.hypot(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.hypot(y)).unwrap(); verify(cx, &r, &s, &e, 2) }
            3 => { let r = a.t.atan2(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.atan2(y)).unwrap(); verify(cx, &r, &s, &e, 2) }
            4 => { let r = a.t.copysign(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.copysign(y)).unwrap(); verify(cx, &r, &s, &e, 0) }
            5 => { let r = a.t.abs_sub(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| Signed::abs_sub(&x, &y)).unwrap(); verify(cx, &r, &s, &e, 0) }
            6 => {
                let n = size(&sb);
                let p: Vec<i32> = (0..n).map(|_| cx.rng.below(21) as i32 - 10).collect();
                let p = cx.tensor_of::<i32>(M::new(sb.clone(), p));
                let r = if cx.rng.chance(50) { a.t.powi(&p.t) } else { a.t.powi(p.t.clone()) };
                let (s, e) = scalar_ref(&a.m, &p.m, |x, y| x.powi(y)).unwrap();
                verify(cx, &r, &s, &e, 16);
            }
            _ => {
                let r = a.t.sin_cos();
                let e: Vec<($t, $t)> = a.m.vals().into_iter().map(|v| v.sin_cos()).collect();
                verify(cx, &r, &sa, &e, 2);
            }
        }
        cx.still(&a);
        cx.still(&b);
    }};
}

macro_rules! signed_fns {
    ($cx:expr, $t:ty, $gen:expr) => {{
        let cx: &mut Cx = $cx;
        let shape = cx.any_shape(0, 6);
        let g: fn(&mut Rng) -> $t = $gen;
        let d: Vec<_> = (0..size(&shape)).map(|_| g(&mut cx.rng).rep()).collect();
        let a = cx.tensor_of::<$t>(M::new(shape.clone(), d));
        let k = cx.rng.below(6);
        cx.op("C06", ["abs", "neg", "is_negative", "is_positive", "square", "-"][k], (&shape, stringify!($t), a.route));
        let v = a.m.vals();
        match k {
            0 => { let r = a.t.abs(); let e: Vec<$t> = v.iter().map(|v| Signed::abs(v)).collect(); verify(cx, &r, &shape, &e, 0) }
            1 => { let r = a.t.neg(); let e: Vec<$t> = v.iter().map(|v| -*v).collect(); verify(cx, &r, &shape, &e, 0) }
            2 => { let r = a.t.is_negative(); let e: Vec<bool> = v.iter().map(|v| Signed::is_negative(v)).collect(); verify(cx, &r, &shape, &e, 0) }
            3 => { let r = a.t.is_positive(); let e: Vec<bool> = v.iter().map(|v| Signed::is_positive(v)).collect(); verify(cx, &r, &shape, &e, 0) }
            4 => { let r = a.t.square(); let e: Vec<$t> = v.iter().map(|v| *v * *v).collect(); verify(cx, &r, &shape, &e, 0) }
            _ => { let r = if cx.rng.chance(50) { -a.t.clone() } else { -&a.t }; let e: Vec<$t> = v.iter().map(|v| -*v).collect(); verify(cx, &r, &shape, &e, 0) }
        }
        cx.still(&a);
    }};
}

macro_rules! int_fns {
    ($cx:expr, $t:ty) => {{
        let cx: &mut Cx = $cx;
        let (sa, sb) = shapes2(cx);
        let a = cx.tensor::<$t>(&sa);
        let k = cx.rng.below(15);
        let names = ["count_ones", "count_zeros", "leading_ones", "leading_zeros", "trailing_ones", "trailing_zeros",
            "swap_bytes", "reverse_bits", "to_be", "to_le", "not", "rotate_left", "rotate_right", "min", "max"];
        cx.op("C06", names[k], (&sa, &sb, stringify!($t), a.route));
        let v = a.m.vals();
        macro_rules! one { ($f:ident, $o:ty) => {{ let r = a.t.$f(); let e: Vec<$o> = v.iter().map(|v| PrimInt::$f(*v)).collect(); verify(cx, &r, &sa, &e, 0) }} }
        match k {
            0 => one!(count_ones, u32),
            1 => one!(count_zeros, u32),
            2 => one!(leading_ones, u32),
            3 => one!(leading_zeros, u32),
            4 => one!(trailing_ones, u32),
            5 => one!(trailing_zeros, u32),
            6 => one!(swap_bytes, $t),
            7 => one!(reverse_bits, $t),
            8 => one!(to_be, $t),
            9 => one!(to_le, $t),
            10 => { let r = if cx.rng.chance(50) { !a.t.clone() } else { !&a.t }; let e: Vec<$t> = v.iter().map(|v| !*v).collect(); verify(cx, &r, &sa, &e, 0) }
            11 | 12 => {
                let n = size(&sb);
                let p: Vec<u32> = (0..n).map(|_| cx.rng.below(200) as u32).collect();
                let p = cx.tensor_of::<u32>(M::new(sb.clone(), p));
                let (r, (s, e)) = if k == 11 {
                    (a.t.rotate_left(&p.t), scalar_ref(&a.m, &p.m, |x, n| x.rotate_left(n)).unwrap())
                } else {
                    (a.t.rotate_right(&p.t), scalar_ref(&a.m, &p.m, |x, n| x.rotate_right(n)).unwrap())
                };
                verify(cx, &r, &s, &e, 0);
            }
            _ => {
                let b = second(cx, &a, &sb);
                let (s, e) = scalar_ref(&a.m, &b.m, |x, y| if k == 13 { x.min(y) } else { x.max(y) }).unwrap();
                let r = match (k, cx.rng.chance(50)) {
                    (13, true) => a.t.min(&b.t),
                    (13, false) => a.t.min(b.t.clone()),
                    (_, true) => a.t.max(&b.t),
                    _ => a.t.max(b.t.clone()),
                };
                verify(cx, &r, &s, &e, 0);
                cx.still(&b);
            }
        }
        cx.still(&a);
    }};
}

pub fn functions(cx: &mut Cx) {
    match cx.rng.below(24) {
        0..=4 => float_unary!(cx, f32),
        #[cfg(feature = "wide")]
        5..=6 => float_unary!(cx, f64),
        7..=8 => float_binary!(cx, f32),
        #[cfg(feature = "wide")]
        9 => float_binary!(cx, f64),
        10 => signed_fns!(cx, f32, |r| f32::make(&f32::gen(r))),
        #[cfg(feature = "wide")]
        11 => signed_fns!(cx, f64, |r| f64::make(&f64::gen(r))),
        #[cfg(feature = "wide")]
        12 => signed_fns!(cx, i8, |r| r.below(21) as i8 - 10),
        13 => signed_fns!(cx, i32, |r| r.below(2001) as i32 - 1000),
        #[cfg(feature = "wide")]
        14 => signed_fns!(cx, i64, |r| r.below(2001) as i64 - 1000),
        #[cfg(feature = "wide")]
        15 => int_fns!(cx, i8),
        16 => int_fns!(cx, i32),
        17 => int_fns!(cx, u8),
        #[cfg(feature = "wide")]
        18 => int_fns!(cx, u16),
        #[cfg(feature = "wide")]
        19 => int_fns!(cx, u64),
        #[cfg(feature = "wide")]
        20 => int_fns!(cx, u128),
        #[cfg(feature = "wide")]
        21 => int_fns!(cx, isize),
        _ => complex(cx),
    }
}

fn complex(cx: &mut Cx) {
    fn go<F>(cx: &mut Cx)
    where
        F: Elem + Float + Alike + Signed,
        Complex<F>: Elem + Alike,
    {
        type C<F> = Complex<F>;
        let (sa, sb) = shapes2(cx);
        let a = cx.tensor::<C<F>>(&sa);
        let k = cx.rng.below(17);
        let names = ["re", "im", "norm_sqr", "scale", "unscale", "powu", "conj", "inv", "l1_norm", "norm", "arg",
            "to_polar", "from_polar", "powc", "expf", "finv", "fdiv"];
        cx.op("C06", names[k], (&sa, &sb, F::NAME, a.route));
        let v = a.m.vals();
        macro_rules! re { ($f:ident, $u:expr) => {{ let r = a.t.$f(); let e: Vec<F> = v.iter().map(|v| v.$f()).collect(); verify(cx, &r, &sa, &e, $u) }} }
        macro_rules! cc { ($f:ident, $u:expr) => {{ let r = a.t.$f(); let e: Vec<C<F>> = v.iter().map(|v| v.$f()).collect(); verify(cx, &r, &sa, &e, $u) }} }
        match k {
            0 => { let r = a.t.re(); let e: Vec<F> = v.iter().map(|v| v.re).collect(); verify(cx, &r, &sa, &e, 0) }
            1 => { let r = a.t.im(); let e: Vec<F> = v.iter().map(|v| v.im).collect(); verify(cx, &r, &sa, &e, 0) }
            2 => re!(norm_sqr, 0),
            3 | 4 | 14 => {
                let b = cx.tensor::<F>(&sb);
                match k {
                    3 => { let r = a.t.scale(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.scale(y)).unwrap(); verify(cx, &r, &s, &e, 0) }
                    4 => { let r = a.t.unscale(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.unscale(y)).unwrap(); verify(cx, &r, &s, &e, 0) }
                    _ => { let r = a.t.expf(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.expf(y)).unwrap(); verify(cx, &r, &s, &e, 8) }
                }
                cx.still(&b);
            }
            5 => {
                let n = size(&sb);
                let p: Vec<u32> = (0..n).map(|_| cx.rng.below(9) as u32).collect();
                let p = cx.tensor_of::<u32>(M::new(sb.clone(), p));
                let r = a.t.powu(&p.t);
                let (s, e) = scalar_ref(&a.m, &p.m, |x, y| x.powu(y)).unwrap();
                verify(cx, &r, &s, &e, 8);
            }
            6 => cc!(conj, 0),
            7 => cc!(inv, 1),
            8 => re!(l1_norm, 0),
            9 => re!(norm, 2),
            10 => re!(arg, 2),
            11 => { let r = a.t.to_polar(); let e: Vec<(F, F)> = v.iter().map(|v| v.to_polar()).collect(); verify(cx, &r, &sa, &e, 4) }
            12 => {
                let p = cx.tensor::<(F, F)>(&sa);
                let r = Tensor::<C<F>>::from_polar(&p.t);
                let e: Vec<C<F>> = p.m.vals().iter().map(|v| C::<F>::from_polar(v.0, v.1)).collect();
                verify(cx, &r, &sa, &e, 4);
                cx.still(&p);
            }
            15 => cc!(finv, 4),
            _ => {
                let b = second(cx, &a, &sb);
                if k == 13 {
                    let r = a.t.powc(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.powc(y)).unwrap(); verify(cx, &r, &s, &e, 16)
                } else {
                    let r = a.t.fdiv(&b.t); let (s, e) = scalar_ref(&a.m, &b.m, |x, y| x.fdiv(y)).unwrap(); verify(cx, &r, &s, &e, 4)
                }
                cx.still(&b);
            }
        }
        cx.still(&a);
    }
    if cx.rng.chance(60) { go::<f32>(cx) } else { go::<f64>(cx) }
}

/// A value with identity for call logs.
#[derive(Clone, Debug, PartialEq)]
pub struct Seq(pub Vec<u64>);
impl Type for Seq {}
impl Elem for Seq {
    type Rep = Vec<u64>;
    const NAME: &'static str = "Seq";
    fn gen(r: &mut Rng) -> Vec<u64> { (0..r.below(4)).map(|_| r.u64()).collect() }
    fn rep(&self) -> Vec<u64> { self.0.clone() }
    fn make(r: &Vec<u64>) -> Seq { Seq(r.clone()) }
}

/// Distinct values: the position is the value.
pub fn ids(cx: &mut Cx, shape: &[usize], base: u64) -> In<u64> {
    let n = size(shape);
    cx.tensor_of::<u64>(M::new(shape.to_vec(), (0..n as u64).map(|i| base + i).collect()))
}

/// The map family: value, position, and number and order of calls.
pub fn maps(cx: &mut Cx) {
    match cx.rng.below(6) {
        0 => {
            let shape = cx.any_shape(0, 6);
            let a = ids(cx, &shape, 1000);
            cx.op("C06", "map", (&shape, a.route));
            let mut log = Vec::new();
            let r = a.t.map(|v| { log.push(*v); Seq(vec![*v, 7]) });
            calls(cx, &log, &a.m.data);
            cx.eq("C06", &r, &M::new(shape, a.m.data.iter().map(|v| vec![*v, 7]).collect()));
            cx.still(&a);
        }
        1 => {
            let (sa, sb) = shapes2(cx);
            let (a, b) = (ids(cx, &sa, 1_000_000), ids(cx, &sb, 5_000_000));
            cx.op("C06", "map2", (&sa, &sb, a.route, b.route));
            let mut log = Vec::new();
            let r = a.t.map2(&b.t, |x, y| { log.push(vec![*x, *y]); Seq(vec![*x, *y]) });
            let e: M<Seq> = m_map2(&a.m, &b.m, |x, y| vec![*x, *y]);
            calls(cx, &log, &e.data);
            cx.eq("C06", &r, &e);
            cx.still(&a);
            cx.still(&b);
        }
        2 => {
            let [sa, sb, sc] = shapes3(cx);
            let (a, b, c) = (ids(cx, &sa, 1_000_000), ids(cx, &sb, 5_000_000), ids(cx, &sc, 9_000_000));
            cx.op("C06", "map3", (&sa, &sb, &sc));
            let mut log = Vec::new();
            let r = a.t.map3(&b.t, &c.t, |x, y, z| { log.push(vec![*x, *y, *z]); Seq(vec![*x, *y, *z]) });
            let mut full = &sa;
            for s in [&sb, &sc] { if s.len() > full.len() { full = s } }
            let e: M<Seq> = M::build(full, |i| {
                let r = i.len();
                vec![*a.m.at(&i[r - sa.len()..]), *b.m.at(&i[r - sb.len()..]), *c.m.at(&i[r - sc.len()..])]
            });
            calls(cx, &log, &e.data);
            cx.eq("C06", &r, &e);
            cx.still(&a);
            cx.still(&b);
            cx.still(&c);
        }
        3 => {
            let shape = cx.any_shape(1, 6);
            let a = ids(cx, &shape, 10);
            match cx.rng.below(4) {
                0 => row::<1>(cx, &a),
                1 => row::<2>(cx, &a),
                2 => row::<3>(cx, &a),
                _ => row::<5>(cx, &a),
            }
            cx.still(&a);
        }
        4 => {
            let shape = cx.any_shape(0, 5);
            let a = ids(cx, &shape, 10);
            match cx.rng.below(4) {
                0 => expand::<1>(cx, &a),
                1 => expand::<2>(cx, &a),
                2 => expand::<3>(cx, &a),
                _ => expand::<5>(cx, &a),
            }
            cx.still(&a);
        }
        _ => {
            let [sa, sb, sc] = shapes3(cx);
            macro_rules! ma { ($t:ty) => {{
                let a = cx.tensor::<$t>(&sa);
                let b = cx.tensor::<$t>(&sb);
                let c = cx.tensor::<$t>(&sc);
                cx.op("C06", "mul_add", (&sa, &sb, &sc, stringify!($t)));
                let r = a.t.clone().mul_add(&b.t, &c.t);
                let mut full = &sa;
                for s in [&sb, &sc] { if s.len() > full.len() { full = s } }
                let e: M<$t> = M::build(full, |i| {
                    let r = i.len();
                    let g = |m: &M<$t>, s: &Vec<usize>| <$t>::make(m.at(&i[r - s.len()..]));
                    MulAdd::mul_add(g(&a.m, &sa), g(&b.m, &sb), g(&c.m, &sc)).rep()
                });
                verify(cx, &r, full, &e.vals(), 0);
                cx.still(&a);
                cx.still(&b);
                cx.still(&c);
            }} }
            if cx.rng.chance(60) { ma!(f32) } else { ma!(f64) }
        }
    }
}

fn calls<T: PartialEq + std::fmt::Debug>(cx: &mut Cx, log: &[T], exp: &[T]) {
    cx.checks += 1;
    cx.count("logged calls", log.len() as u64);
    if log.len() != exp.len() {
        cx.fail("C06", format!("{}: the function is called {} times for {} positions", cx.desc, log.len(), exp.len()));
    }
    if let Some(i) = (0..log.len()).find(|i| log[*i] != exp[*i]) {
        cx.fail("C06", format!("{}: call {} is for {:?}, expected {:?}", cx.desc, i, log[i], exp[i]));
    }
}

fn row<const N: usize>(cx: &mut Cx, a: &In<u64>) {
    let shape = &a.m.shape;
    let cols = *shape.last().unwrap();
    cx.op("C06", "map_row", (shape, N, a.route));
    let mut log = Vec::new();
    let r = a.t.map_row::<N, Seq>(|v| {
        log.push(v.to_vec());
        std::array::from_fn(|j| { let mut s = v.to_vec(); s.push(j as u64); Seq(s) })
    });
    let rows: Vec<Vec<u64>> = a.m.data.chunks(cols).map(|c| c.to_vec()).collect();
    calls(cx, &log, &rows);
    let mut s = shape.clone();
    if N == 1 && s.len() > 1 { s.pop(); } else { *s.last_mut().unwrap() = N; }
    let data = rows.iter().flat_map(|r| (0..N).map(move |j| { let mut s = r.clone(); s.push(j as u64); s })).collect();
    cx.eq("C06", &r, &M::new(s, data));
}

fn expand<const N: usize>(cx: &mut Cx, a: &In<u64>) {
    let shape = &a.m.shape;
    cx.op("C06", "map_expand", (shape, N, a.route));
    let mut log = Vec::new();
    let r = a.t.map_expand::<N, Seq>(|v| {
        log.push(*v);
        std::array::from_fn(|j| Seq(vec![*v, j as u64]))
    });
    calls(cx, &log, &a.m.data);
    let mut s = shape.clone();
    s.push(N);
    let data = a.m.data.iter().flat_map(|v| (0..N).map(move |j| vec![*v, j as u64])).collect();
    cx.eq("C06", &r, &M::new(s, data));
}

/// Maps over elements of any type.
pub fn maps_any(cx: &mut Cx) { any_elem!(cx, maps_any_of) }

fn maps_any_of<E: Elem>(cx: &mut Cx) {
    match cx.rng.below(5) {
        0 => {
            let shape = cx.any_shape(0, 6);
            let a = cx.tensor::<E>(&shape);
            cx.op("C06", "map any", (&shape, E::NAME, a.route));
            let r = a.t.map(|v| (v.clone(), 3u8));
            cx.checks += 1;
            cx.invariant(&a.t);
            let e: M<(E, u8)> = M::new(shape, a.m.data.iter().map(|v| (v.clone(), 3u8)).collect());
            cx.eq("C06", &r, &e);
            cx.still(&a);
        }
        1 => {
            let (sa, sb) = shapes2(cx);
            let a = cx.tensor::<E>(&sa);
            let b = second(cx, &a, &sb);
            cx.op("C06", "map2 any", (&sa, &sb, E::NAME, a.route, b.route));
            let r = a.t.map2(&b.t, |x, y| (x.clone(), y.clone()));
            let e: M<(E, E)> = m_map2(&a.m, &b.m, |x, y| (x.clone(), y.clone()));
            cx.eq("C06", &r, &e);
            cx.still(&a);
            cx.still(&b);
        }
        2 => {
            let shape = cx.any_shape(1, 6);
            let a = cx.tensor::<E>(&shape);
            cx.op("C06", "map_row any", (&shape, E::NAME, a.route));
            let cols = *shape.last().unwrap();
            let r = a.t.map_row::<2, E>(|v| [v[v.len() - 1].clone(), v[0].clone()]);
            let mut s = shape.clone();
            *s.last_mut().unwrap() = 2;
            let e = a.m.data.chunks(cols).flat_map(|c| [c[cols - 1].clone(), c[0].clone()]).collect();
            cx.eq("C06", &r, &M::<E>::new(s, e));
            cx.still(&a);
        }
        3 => {
            let shape = cx.any_shape(0, 5);
            let a = cx.tensor::<E>(&shape);
            cx.op("C06", "map_expand any", (&shape, E::NAME, a.route));
            let r = a.t.map_expand::<3, E>(|v| [v.clone(), v.clone(), v.clone()]);
            let mut s = shape.clone();
            s.push(3);
            let e = a.m.data.iter().flat_map(|v| [v.clone(), v.clone(), v.clone()]).collect();
            cx.eq("C06", &r, &M::<E>::new(s, e));
            cx.still(&a);
        }
        _ => {
            let [sa, sb, sc] = shapes3(cx);
            let a = cx.tensor::<E>(&sa);
            let b = cx.tensor::<E>(&sb);
            let c = cx.tensor::<E>(&sc);
            cx.op("C06", "map3 any", (&sa, &sb, &sc, E::NAME));
            let r = a.t.map3(&b.t, &c.t, |x, y, z| (x.clone(), (y.clone(), z.clone())));
            let mut full = &sa;
            for s in [&sb, &sc] { if s.len() > full.len() { full = s } }
            let e: M<(E, (E, E))> = M::build(full, |i| {
                let r = i.len();
                (a.m.at(&i[r - sa.len()..]).clone(), (b.m.at(&i[r - sb.len()..]).clone(), c.m.at(&i[r - sc.len()..]).clone()))
            });
            cx.eq("C06", &r, &e);
        }
    }
}

/// Operands whose trailing dimensions differ.
pub fn refusals(cx: &mut Cx) {
    let mut sa = cx.shape(1, 6, 100);
    let sb = match cx.rng.below(4) {
        0 if sa.len() >= 2 && sa[sa.len() - 1] != sa[sa.len() - 2] => {
            // the same size, another order
            let mut b = sa.clone();
            let n = b.len();
            b.swap(n - 1, n - 2);
            b
        }
        1 if sa.len() >= 2 && sa[..sa.len() - 1].iter().product::<usize>() > 1 => {
            // flattened: the same size
            vec![size(&sa)]
        }
        2 if sa.iter().any(|d| *d != 1) => {
            // ones do not repeat
            let k = sa.iter().rposition(|d| *d != 1).unwrap();
            let mut b = sa.clone();
            b[k] = 1;
            b[cx.rng.range(0, k)..].to_vec()
        }
        _ => {
            let k = cx.rng.below(sa.len());
            let mut b = sa[cx.rng.range(0, k)..].to_vec();
            let at = b.len() - (sa.len() - k);
            b[at] += cx.rng.range(1, 3) * if cx.rng.chance(30) { b[at] } else { 1 };
            if b.len() == sa.len() && cx.rng.chance(30) && b.len() < 6 { b.insert(0, 2) }
            b
        }
    };
    let mut sb = sb;
    if cx.rng.chance(50) { std::mem::swap(&mut sa, &mut sb) }
    let a = cx.tensor::<f32>(&sa);
    let b = cx.tensor::<f32>(&sb);
    cx.op("C06", "refusals", (&sa, &sb));
    let what = format!("{:?} with {:?}", sa, sb);
    match cx.rng.below(6) {
        0 => cx.refuse("C06", &format!("add {}", what), || &a.t + &b.t),
        1 => cx.refuse("C06", &format!("map2 {}", what), || a.t.map2(&b.t, |x, y| (*x, *y))),
        2 => cx.refuse("C06", &format!("powf {}", what), || a.t.powf(&b.t)),
        3 => cx.refuse("C06", &format!("map3 {}", what), || a.t.map3(&a.t, &b.t, |x, y, z| x + y + z)),
        4 => cx.refuse("C06", &format!("map3 second {}", what), || a.t.map3(&b.t, &a.t, |x, y, z| x + y + z)),
        _ => cx.refuse("C06", &format!("owned mul {}", what), || a.t.clone() * b.t.clone()),
    }
    cx.still(&a);
    cx.still(&b);
}

/// Do the trailing dimensions agree?
fn fits(a: &[usize], b: &[usize]) -> bool {
    a.iter().rev().zip(b.iter().rev()).all(|(x, y)| x == y)
}

/// Three operands of which some pair does not fit.
pub fn refusals3(cx: &mut Cx) {
    let mut s = shapes3(cx);
    for _ in 0..cx.rng.range(1, 2) {
        let i = cx.rng.below(3);
        s[i] = spoil(&mut cx.rng, &s[i]);
        if cx.rng.chance(40) {
            // one operand that fits nearly everything
            let k = (i + cx.rng.range(1, 2)) % 3;
            let n = cx.rng.below(s[k].len().min(1) + 1);
            let l = s[k].len();
            s[k] = s[k][l - n..].to_vec();
        }
    }
    if s.iter().any(|s| size(s) > 100_000 || s.len() > 7) { return; }
    let ok = fits(&s[0], &s[1]) && fits(&s[0], &s[2]) && fits(&s[1], &s[2]);
    let [a, b, c] = [cx.tensor::<f32>(&s[0]), cx.tensor::<f32>(&s[1]), cx.tensor::<f32>(&s[2])];
    let what = format!("{:?} with {:?} and {:?}", s[0], s[1], s[2]);
    if ok {
        cx.op("C06", "map3 near misses that fit", &what);
        let r = a.t.map3(&b.t, &c.t, |x, y, z| (*x, (*y, *z)));
        let mut full = &s[0];
        for s in [&s[1], &s[2]] { if s.len() > full.len() { full = s } }
        let e: M<(f32, (f32, f32))> = M::build(full, |i| {
            let g = |m: &M<f32>| m.at(&i[i.len() - m.rank()..]).clone();
            (g(&a.m), (g(&b.m), g(&c.m)))
        });
        cx.eq("C06", &r, &e);
        return;
    }
    cx.op("C06", "refusals of three", &what);
    if cx.rng.chance(70) {
        cx.refuse("C06", &format!("map3 {}", what), || a.t.map3(&b.t, &c.t, |x, y, z| x + y + z));
    } else {
        cx.refuse("C06", &format!("mul_add {}", what), || a.t.clone().mul_add(&b.t, &c.t));
    }
    if !fits(&s[0], &s[1]) {
        match cx.rng.below(3) {
            0 => cx.refuse("C06", &format!("map2 {}", what), || a.t.map2(&b.t, |x, y| x + y)),
            1 => cx.refuse("C06", &format!("sub {}", what), || &a.t - &b.t),
            _ => cx.refuse("C06", &format!("atan2 {}", what), || a.t.atan2(&b.t)),
        }
    }
    cx.still(&a);
    cx.still(&b);
    cx.still(&c);
}

/// C23
pub fn equality(cx: &mut Cx) {
    fn go<E: Elem + PartialEq + PartialOrd>(cx: &mut Cx, same_val: fn(&E, &E) -> bool) {
        let shape = cx.any_shape(0, 6);
        let n: usize = shape.iter().product();
        let kind = cx.rng.below(7);
        let mut data: Vec<E::Rep> = (0..n).map(|_| E::gen(&mut cx.rng)).collect();
        if cx.rng.chance(70) {
            // every value equal to itself
            for d in &mut data {
                let mut v = E::make(d);
                while !same_val(&v, &v) {
                    *d = E::gen(&mut cx.rng);
                    v = E::make(d);
                }
            }
        }
        let alias = E::alias(&mut cx.rng);
        let spots: Vec<usize> = (0..cx.rng.range(1, 3)).map(|_| cx.rng.below(n.max(1))).collect();
        if let (6, Some((x, _))) = (kind, &alias) {
            for &i in &spots { if i < n { data[i] = x.clone(); } }
        }
        let a = cx.tensor_of::<E>(M::new(shape.clone(), data));
        // another tensor: the same contents by another route, one element
        // changed, another shape of the same contents, or a prefix
        let mut m = a.m.clone();
        match kind {
            6 => {
                // other bits that compare as the element type says
                if let Some((_, y)) = alias {
                    for &i in &spots { if i < n { m.data[i] = y.clone(); } }
                }
            }
            1 | 2 if m.size() > 0 => {
                let i = match cx.rng.below(3) { 0 => 0, 1 => m.size() - 1, _ => cx.rng.below(m.size()) };
                m.data[i] = E::gen(&mut cx.rng);
            }
            3 => m.shape = refactor(&mut cx.rng, m.size(), 6),
            4 if m.rank() < 6 => { let k = cx.rng.range(0, m.rank()); m.shape.insert(k, 1) }
            5 => { let n = m.size(); for _ in 0..2 { let i = cx.rng.below(n); m.data[i] = E::gen(&mut cx.rng); } }
            _ => {}
        }
        let b = if kind == 0 && cx.rng.chance(40) {
            In { t: a.t.clone(), m: m.clone(), route: 90 }
        } else {
            cx.tensor_of::<E>(m)
        };
        cx.op("C23", "equality", (&shape, &b.m.shape, kind, E::NAME, a.route, b.route));
        let (va, vb) = (a.m.vals(), b.m.vals());
        let eq = a.m.shape == b.m.shape && va.iter().zip(&vb).all(|(x, y)| same_val(x, y));
        for (r, l, e) in [(a.t == b.t, "a == b", eq), (b.t == a.t, "b == a", eq), (a.t != b.t, "a != b", !eq)] {
            if r != e {
                cx.fail("C23", format!("{}: {} is {} for {:?} and {:?}", cx.desc, l, r, a.t, b.t));
            }
        }
        let self_eq = va.iter().all(|x| same_val(x, x));
        if (a.t == a.t.clone()) != self_eq {
            cx.fail("C23", format!("{}: equal to itself is {}", cx.desc, !self_eq));
        }
        cx.checks += 5;
        if a.m.shape == b.m.shape {
            let mut e = Some(Ordering::Equal);
            for (x, y) in va.iter().zip(&vb) {
                match x.partial_cmp(y) {
                    Some(Ordering::Equal) => {}
                    o => { e = o; break; }
                }
            }
            let r = a.t.partial_cmp(&b.t);
            if r != e || b.t.partial_cmp(&a.t) != e.map(|o| o.reverse()) {
                cx.fail("C23", format!("{}: order is {:?}, expected {:?}", cx.desc, r, e));
            }
            if (a.t < b.t) != (e == Some(Ordering::Less)) || (a.t > b.t) != (e == Some(Ordering::Greater))
                || (a.t <= b.t) != matches!(e, Some(Ordering::Less | Ordering::Equal))
                || (a.t >= b.t) != matches!(e, Some(Ordering::Greater | Ordering::Equal))
            {
                cx.fail("C23", format!("{}: comparison operators disagree with the order", cx.desc));
            }
        }
        cx.still(&a);
        cx.still(&b);
    }
    match cx.rng.below(7) {
        0 | 1 => go::<f32>(cx, |a, b| a == b),
        2 => go::<f64>(cx, |a, b| a == b),
        3 => go::<i32>(cx, |a, b| a == b),
        4 => go::<u8>(cx, |a, b| a == b),
        5 => go::<String>(cx, |a, b| a == b),
        _ => go::<Tracked>(cx, |a, b| a.val() == b.val()),
    }
}
