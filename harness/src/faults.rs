//! C22: panics injected into user code at every call index.

use std::panic::{catch_unwind, AssertUnwindSafe};

use essay_tensor::array::{concatenate, concatenate_axis, dstack, hstack, stack, stack_axis, tile, transpose, vstack};
use essay_tensor::init;
use essay_tensor::tensor::{scalar, Axis, FoldState, Tensor};

use crate::cx::{last_panic, Cx};
use crate::ledger::{self, user_call, Injected, Tracked};
use crate::model::{differs, shp, size, In};

type T = Tensor<Tracked>;

#[derive(Clone)]
struct State(Tracked);
impl FoldState for State {
    type Out = Tracked;
    fn into_result(self) -> Tracked { user_call(); self.0 }
}
#[derive(Clone)]
struct Rows(Tracked);
impl FoldState for Rows {
    type Out = [Tracked; 2];
    fn into_result(self) -> [Tracked; 2] { user_call(); [self.0.clone(), self.0] }
}

pub const OPS: [&str; 49] = [
    "map", "map2", "map3", "map_row", "map_expand", "fold", "fold_axis", "fold_row", "reduce", "reduce_axis",
    "normalize", "init", "init_rindexed", "fill", "zeros", "ones", "init_default", "add", "sub", "mul",
    "neg", "eq", "cmp", "concatenate", "concatenate_axis", "stack", "stack_axis", "append", "from_merge", "join_vec",
    "split_axis", "unstack", "transpose", "tile", "from_slice", "vec vec", "array", "collect refs", "collect", "diagflat",
    "tril", "triu", "meshgrid", "eye", "reduce_sum", "hstack", "vstack", "dstack", "mul_scalar",
];

/// The operation; a and b have the same shape of rank 2 or 3, c is a row.
fn run(op: &str, a: &T, b: &T, c: &T) {
    let axis = || Axis::axis(1);
    match op {
        "map" => drop(a.map(|v| { user_call(); v.clone() })),
        "map2" => drop(a.map2(c, |x, y| { user_call(); (x.clone(), y.clone()) })),
        "map3" => drop(a.map3(b, c, |x, y, z| { user_call(); (x.clone(), (y.clone(), z.clone())) })),
        "map_row" => drop(a.map_row::<2, Tracked>(|r| { user_call(); [r[0].clone(), r[r.len() - 1].clone()] })),
        "map_expand" => drop(a.map_expand::<3, Tracked>(|r| { user_call(); [r.clone(), r.clone(), r.clone()] })),
        "fold" => drop(a.fold(State(Tracked::new(1)), |_, v| { user_call(); State(v.clone()) })),
        "fold_axis" => drop(a.fold_axis(axis(), State(Tracked::new(1)), |_, v| { user_call(); State(v.clone()) })),
        "fold_row" => drop(a.fold_row::<2, _, _, _>(Axis::axis(0), Rows(Tracked::new(1)), |_, v| { user_call(); Rows(v[0].clone()) })),
        "reduce" => drop(a.reduce(|x, y| { user_call(); x + y })),
        "reduce_axis" => drop(a.reduce_axis(axis(), |x, y| { user_call(); x + y })),
        "normalize" => drop(a.normalize(Axis::axis(0), Tracked::new(0),
            |s, v| { user_call(); s + v.clone() }, |s| { user_call(); s }, |s, v| { user_call(); (s.clone(), v.clone()) })),
        "init" => drop(T::init(a.shape().clone(), || { user_call(); Tracked::new(3) })),
        "init_rindexed" => drop(T::init_rindexed(a.shape().clone(), |i| { user_call(); Tracked::new(i[0] as i64) })),
        "fill" => drop(T::fill(a.shape().clone(), a[0].clone())),
        "zeros" => drop(init::zeros::<Tracked>(a.shape().clone())),
        "ones" => drop(init::ones::<Tracked>(a.shape().clone())),
        "init_default" => drop(T::init_default(a.shape().clone())),
        "add" => drop(a + c),
        "sub" => drop(a - b),
        "mul" => drop(c * a),
        "mul_scalar" => drop(a * scalar(Tracked::new(5))),
        "neg" => drop(-a),
        "eq" => drop(a == b),
        "cmp" => drop(a.partial_cmp(b)),
        "concatenate" => drop(concatenate([a, b].as_slice())),
        "concatenate_axis" => drop(concatenate_axis(axis(), [a, b].as_slice())),
        "stack" => drop(stack([a, b].as_slice())),
        "stack_axis" => drop(stack_axis(axis(), [a, b, a].as_slice())),
        "append" => drop(a.append(b)),
        "from_merge" => drop(T::from_merge([a.clone(), b.clone()].as_slice(), shp(&[2 * a.size()]))),
        "join_vec" => drop(T::join_vec(&vec![a.as_slice().to_vec(), c.as_slice().to_vec()])),
        "split_axis" => drop(a.split_axis(axis(), vec![1])),
        "unstack" => drop(a.unstack(axis())),
        "transpose" => drop(transpose(a)),
        "tile" => drop(tile(a, [2, 1, 2])),
        "from_slice" => drop(T::from_slice(a.as_slice())),
        "vec vec" => {
            let v: Vec<Vec<Tracked>> = (0..3).map(|_| c.as_slice().to_vec()).collect();
            drop(T::from(&v));
        }
        "array" => {
            let v: [[Tracked; 2]; 2] = [[a[0].clone(), b[0].clone()], [c[0].clone(), a[0].clone()]];
            drop(T::from(v));
        }
        "collect refs" => drop(a.iter().collect::<T>()),
        "collect" => drop(a.iter().map(|v| { user_call(); v.clone() }).collect::<T>()),
        "diagflat" => drop(c.diagflat()),
        "tril" => drop(a.tril()),
        "triu" => drop(a.triu()),
        "meshgrid" => drop(init::meshgrid([c, c])),
        "eye" => drop(init::eye::<Tracked>(3)),
        "reduce_sum" => drop(a.reduce_sum_axis(axis())),
        "hstack" => drop(hstack([a, b].as_slice())),
        "vstack" => drop(vstack([a, b].as_slice())),
        "dstack" => drop(dstack([a, b].as_slice())),
        _ => unreachable!(),
    }
}

fn inputs(cx: &mut Cx) -> (In<Tracked>, In<Tracked>, In<Tracked>) {
    let mut shape = vec![cx.rng.range(1, 3), cx.rng.range(2, 4), cx.rng.range(1, 4)];
    if cx.rng.chance(50) { shape.remove(0); }
    let cols = *shape.last().unwrap();
    (cx.tensor::<Tracked>(&shape), cx.tensor::<Tracked>(&shape), cx.tensor::<Tracked>(&[cols]))
}

fn intact(cx: &mut Cx, what: &str, ins: &[&In<Tracked>]) {
    for v in ins {
        cx.checks += 1;
        if let Some(d) = differs(&v.t, &v.m) {
            cx.fail("C22", format!("{}: an operand is damaged: {}", what, d));
        }
    }
    if let Some(p) = ledger::problem() {
        cx.fail("C22", format!("{}: {}", what, p));
    }
}

/// A panic at every call of user code in the operation.
pub fn calls(cx: &mut Cx) {
    let op = OPS[cx.rng.below(OPS.len())];
    let (a, b, mut c) = inputs(cx);
    if op == "eq" || op == "cmp" {
        // equal up to a late element
        c = In { t: a.t.map(|v| v.clone()), m: a.m.clone(), route: 0 };
    }
    let b = if op == "eq" || op == "cmp" { In { t: c.t.clone(), m: c.m.clone(), route: 0 } } else { b };
    ledger::reset_calls();
    cx.op("C22", op, (&a.m.shape, a.route, b.route, c.route));
    run(op, &a.t, &b.t, &c.t);
    let n = ledger::calls() as usize;
    intact(cx, op, &[&a, &b, &c]);
    if n == 0 {
        cx.count("operations without user calls", 1);
        return;
    }
    let all: Vec<usize> = if cx.small { vec![0, cx.rng.below(n), n - 1] } else if n <= 40 { (0..n).collect() } else {
        let mut v: Vec<usize> = (0..36).map(|_| cx.rng.below(n)).collect();
        v.extend([0, 1, n - 2, n - 1]);
        v
    };
    for k in all {
        let what = format!("{} {:?} with a panic at call {} of {}", op, a.m.shape, k, n);
        cx.desc = what.clone();
        let live = ledger::live();
        ledger::arm(k as i64);
        let r = catch_unwind(AssertUnwindSafe(|| run(op, &a.t, &b.t, &c.t)));
        let fired = ledger::disarm();
        cx.panicked = true;
        cx.evals += 1;
        cx.count("injected panics", fired as u64);
        match r {
            Ok(()) if fired => cx.fail("C22", format!("{}: the panic did not propagate", what)),
            Ok(()) => {}
            Err(e) => if !fired || e.downcast_ref::<Injected>().is_none() {
                cx.fail("C22", format!("{}: another panic: {}", what, last_panic()));
            }
        }
        intact(cx, &what, &[&a, &b, &c]);
        let leaked = ledger::live() - live;
        if leaked < 0 {
            cx.fail("C22", format!("{}: {} values that are in use were dropped", what, -leaked));
        }
        cx.count("values leaked by unfinished results", leaked as u64);
        // still usable
        let r = catch_unwind(AssertUnwindSafe(|| run(op, &a.t, &b.t, &c.t)));
        if r.is_err() {
            cx.fail("C22", format!("{}: the next use panics: {}", what, last_panic()));
        }
        intact(cx, &what, &[&a, &b, &c]);
    }
    // the operands go as usual: nothing of them is held by the failed calls
    cx.keeps.clear();
    let own = |v: &In<Tracked>| size(&v.m.shape) as i64;
    let exp = if op == "eq" || op == "cmp" { own(&a) + own(&c) } else { own(&a) + own(&b) + own(&c) };
    let before = ledger::live();
    drop((a.t, b.t, c.t));
    let gone = before - ledger::live();
    cx.checks += 1;
    if gone < exp {
        cx.fail("C22", format!("{}: {} of {} values of the operands are dropped with them", op, gone, exp));
    }
}

/// A panic in the destructor of an element.
pub fn destructors(cx: &mut Cx) {
    match cx.rng.below(3) {
        0 => {
            // the last owner goes
            let shape = cx.any_shape(0, 3);
            let n = size(&shape);
            if n > 300 { return; }
            let k = cx.rng.below(n);
            cx.op("C22", "drop of a tensor", (&shape, k));
            let a = cx.tensor::<Tracked>(&shape);
            cx.keeps.clear();
            let live = ledger::live();
            let (clone, view) = (a.t.clone(), a.t.clone().reshape(shp(&[n])).subslice(0, n));
            drop(a.t);
            drop(clone);
            ledger::arm_drop(k as i64);
            let r = catch_unwind(AssertUnwindSafe(|| drop(view)));
            let fired = ledger::disarm_drop();
            cx.panicked = true;
            cx.count("injected destructor panics", fired as u64);
            cx.checks += 1;
            if fired && r.is_ok() {
                cx.fail("C22", format!("{}: the panic did not propagate", cx.desc));
            }
            let gone = live - ledger::live();
            if fired && gone < n as i64 {
                cx.fail("C22", format!("{}: only {} of {} values of the finished tensor are dropped", cx.desc, gone, n));
            }
            if let Some(p) = ledger::problem() {
                cx.fail("C22", format!("{}: {}", cx.desc, p));
            }
        }
        _ => {
            let op = OPS[cx.rng.below(OPS.len())];
            let (a, b, c) = inputs(cx);
            let d0 = ledger::dropped();
            run(op, &a.t, &b.t, &c.t);
            let n = (ledger::dropped() - d0) as usize;
            if n == 0 { return; }
            let k = cx.rng.below(n);
            let what = format!("{} {:?} with a panic in destructor {} of {}", op, a.m.shape, k, n);
            cx.op("C22", "destructor", (op, &a.m.shape, k));
            cx.desc = what.clone();
            ledger::arm_drop(k as i64);
            let r = catch_unwind(AssertUnwindSafe(|| run(op, &a.t, &b.t, &c.t)));
            let fired = ledger::disarm_drop();
            cx.panicked = true;
            cx.count("injected destructor panics", fired as u64);
            if fired && r.is_ok() {
                cx.fail("C22", format!("{}: the panic did not propagate", what));
            }
            intact(cx, &what, &[&a, &b, &c]);
            if catch_unwind(AssertUnwindSafe(|| run(op, &a.t, &b.t, &c.t))).is_err() {
                cx.fail("C22", format!("{}: the next use panics: {}", what, last_panic()));
            }
            intact(cx, &what, &[&a, &b, &c]);
        }
    }
}
