//! Ledger of element values: every creation, clone and drop is recorded, so
//! that a double drop, a drop or use of a value that was never created, an
//! early drop or a leak is observed. The ledger works under threads.

use std::fmt;
use std::mem::ManuallyDrop;
use std::ops;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;

use essay_tensor::tensor::Type;

#[cfg(not(miri))]
const CAP: usize = 1 << 21;
#[cfg(miri)]
const CAP: usize = 1 << 14;

// 0 unknown, 1 alive, 2 dropped
#[cfg(not(miri))]
mod state {
    use super::*;
    static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(0) }; CAP];
    pub fn clear(n: usize) { for s in STATE.iter().take(n) { s.store(0, SeqCst) } }
    pub fn set(id: usize) { STATE[id].store(1, SeqCst) }
    pub fn get(id: usize) -> u8 { STATE[id].load(SeqCst) }
    pub fn end(id: usize) -> Result<u8, u8> { STATE[id].compare_exchange(1, 2, SeqCst, SeqCst) }
}
// (a large static of atomics is very slow under Miri)
#[cfg(miri)]
mod state {
    use super::*;
    static STATE: Mutex<Vec<u8>> = Mutex::new(Vec::new());
    fn table() -> std::sync::MutexGuard<'static, Vec<u8>> { STATE.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn clear(_: usize) { table().clear() }
    pub fn set(id: usize) { let mut t = table(); if t.len() <= id { t.resize(id + 64, 0) } t[id] = 1 }
    pub fn get(id: usize) -> u8 { table().get(id).copied().unwrap_or(0) }
    pub fn end(id: usize) -> Result<u8, u8> {
        let mut t = table();
        match t.get(id).copied().unwrap_or(0) { 1 => { t[id] = 2; Ok(1) } x => Err(x) }
    }
}
static NEXT: AtomicU64 = AtomicU64::new(1);
static LIVE: AtomicI64 = AtomicI64::new(0);
static CREATED: AtomicU64 = AtomicU64::new(0);
static CLONED: AtomicU64 = AtomicU64::new(0);
static DROPPED: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_EVENTS: AtomicU64 = AtomicU64::new(0);
static PROBLEM: Mutex<Option<String>> = Mutex::new(None);

/// countdown until an injected panic; negative means off
static BOMB: AtomicI64 = AtomicI64::new(-1);
static DROP_BOMB: AtomicI64 = AtomicI64::new(-1);
static CALLS: AtomicU64 = AtomicU64::new(0);

pub struct Injected;

pub fn reset() {
    let n = NEXT.swap(1, SeqCst) as usize;
    state::clear(n.min(CAP));
    LIVE.store(0, SeqCst);
    CREATED.store(0, SeqCst);
    CLONED.store(0, SeqCst);
    DROPPED.store(0, SeqCst);
    CALLS.store(0, SeqCst);
    BOMB.store(-1, SeqCst);
    DROP_BOMB.store(-1, SeqCst);
    *PROBLEM.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

pub fn live() -> i64 { LIVE.load(SeqCst) }
pub fn cloned() -> u64 { CLONED.load(SeqCst) }
pub fn dropped() -> u64 { DROPPED.load(SeqCst) }
pub fn created() -> u64 { CREATED.load(SeqCst) }
pub fn calls() -> u64 { CALLS.load(SeqCst) }
pub fn reset_calls() { CALLS.store(0, SeqCst) }
/// The n-th destructor from now on panics.
pub fn arm_drop(n: i64) { DROP_BOMB.store(n, SeqCst); }
pub fn disarm_drop() -> bool { DROP_BOMB.swap(-1, SeqCst) == -2 }
pub fn arm(n: i64) { BOMB.store(n, SeqCst); }
pub fn disarm() -> bool { BOMB.swap(-1, SeqCst) == -2 }

pub fn problem() -> Option<String> {
    PROBLEM.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn set_problem(msg: String) {
    let mut p = PROBLEM.lock().unwrap_or_else(|e| e.into_inner());
    if p.is_none() {
        *p = Some(msg);
    }
}

/// A call of user code: counted, and the point at which an armed panic fires.
#[inline]
pub fn user_call() {
    CALLS.fetch_add(1, SeqCst);
    if BOMB.load(SeqCst) >= 0 && BOMB.fetch_sub(1, SeqCst) == 0 {
        BOMB.store(-2, SeqCst);
        std::panic::panic_any(Injected);
    }
}

fn register() -> u64 {
    let id = NEXT.fetch_add(1, SeqCst);
    if id as usize >= CAP {
        panic!("ledger is full");
    }
    state::set(id as usize);
    LIVE.fetch_add(1, SeqCst);
    TOTAL_EVENTS.fetch_add(1, SeqCst);
    id
}

const MAGIC: u64 = 0x5AFE_B0C5_1234_ABCD;

/// An element with heap contents and a destructor.
pub struct Tracked {
    magic: u64,
    id: u64,
    val: i64,
    heap: ManuallyDrop<Box<i64>>,
}

impl Type for Tracked {}

impl Tracked {
    pub fn new(val: i64) -> Self {
        CREATED.fetch_add(1, SeqCst);
        Tracked { magic: MAGIC, id: register(), val, heap: ManuallyDrop::new(Box::new(!val)) }
    }

    fn check(&self, what: &str) -> bool {
        if self.magic != MAGIC || self.id as usize >= CAP {
            set_problem(format!("{} of a value that was never created", what));
            return false;
        }
        match state::get(self.id as usize) {
            1 => true,
            2 => { set_problem(format!("{} of a value that is already dropped", what)); false }
            _ => { set_problem(format!("{} of an unknown value", what)); false }
        }
    }

    pub fn val(&self) -> i64 {
        if self.check("use") {
            if **self.heap != !self.val {
                set_problem("element contents are corrupt".to_string());
            }
            self.val
        } else {
            i64::MIN
        }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        user_call();
        let val = self.val();
        CLONED.fetch_add(1, SeqCst);
        Tracked { magic: MAGIC, id: register(), val, heap: ManuallyDrop::new(Box::new(!val)) }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        TOTAL_EVENTS.fetch_add(1, SeqCst);
        if self.magic != MAGIC || self.id as usize >= CAP {
            set_problem("drop of a value that was never created".to_string());
            return;
        }
        match state::end(self.id as usize) {
            Ok(_) => {
                LIVE.fetch_sub(1, SeqCst);
                DROPPED.fetch_add(1, SeqCst);
                unsafe { ManuallyDrop::drop(&mut self.heap) };
                if DROP_BOMB.load(SeqCst) >= 0 && !std::thread::panicking()
                    && DROP_BOMB.fetch_sub(1, SeqCst) == 0
                {
                    DROP_BOMB.store(-2, SeqCst);
                    std::panic::panic_any(Injected);
                }
            }
            Err(2) => set_problem("value dropped twice".to_string()),
            Err(_) => set_problem("drop of an unknown value".to_string()),
        }
    }
}

impl fmt::Debug for Tracked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "K{}", self.val())
    }
}

impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool { user_call(); self.val() == o.val() }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { user_call(); Some(self.val().cmp(&o.val())) }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering { user_call(); self.val().cmp(&o.val()) }
}
impl Default for Tracked {
    fn default() -> Self { user_call(); Tracked::new(0) }
}

macro_rules! op {
    ($tr:ident, $f:ident, $w:ident) => {
        impl ops::$tr for Tracked {
            type Output = Tracked;
            fn $f(self, o: Tracked) -> Tracked {
                user_call();
                Tracked::new(self.val().$w(o.val()))
            }
        }
    };
}
op!(Add, add, wrapping_add);
op!(Sub, sub, wrapping_sub);
op!(Mul, mul, wrapping_mul);

impl ops::Neg for Tracked {
    type Output = Tracked;
    fn neg(self) -> Tracked { user_call(); Tracked::new(self.val().wrapping_neg()) }
}

impl num_traits::Zero for Tracked {
    fn zero() -> Self { user_call(); Tracked::new(0) }
    fn is_zero(&self) -> bool { self.val() == 0 }
}
impl num_traits::One for Tracked {
    fn one() -> Self { user_call(); Tracked::new(1) }
}

/// Zero-size element with a destructor: only the balance can be observed.
pub struct Zst;

static ZST_LIVE: AtomicI64 = AtomicI64::new(0);

impl Zst {
    pub fn new() -> Self {
        ZST_LIVE.fetch_add(1, SeqCst);
        Zst
    }
    pub fn live() -> i64 { ZST_LIVE.load(SeqCst) }
    pub fn reset() { ZST_LIVE.store(0, SeqCst) }
}
impl Type for Zst {}
impl Clone for Zst {
    fn clone(&self) -> Self { user_call(); Zst::new() }
}
impl Drop for Zst {
    fn drop(&mut self) {
        TOTAL_EVENTS.fetch_add(1, SeqCst);
        if ZST_LIVE.fetch_sub(1, SeqCst) <= 0 {
            set_problem("more zero-size values dropped than created".to_string());
        }
    }
}
impl fmt::Debug for Zst {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Z") }
}
impl PartialEq for Zst {
    fn eq(&self, _: &Self) -> bool { true }
}
