//! Instrumented allocator for the native builds: redzones around each block,
//! layout check on free, poison on allocation and on free, and a budget on the
//! live bytes. It never judges by itself: it prints what it saw and leaves with
//! a special exit code, which the driver reads.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

extern "C" {
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

pub const EXIT_MEMORY: i32 = 97;
pub const EXIT_BUDGET: i32 = 98;
pub const EXIT_HANG: i32 = 99;

pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
/// How many allocations succeed before one fails, if not negative.
pub static FAIL_AT: AtomicI64 = AtomicI64::new(-1);

const HEAD: u64 = 0xC0FF_EE11_DEAD_BEEF;
const FREED: u64 = 0xF4EE_D0F4_EED0_F4EE;
const TAIL: u8 = 0xBD;
const TAIL_LEN: usize = 32;
const POISON_NEW: u8 = 0xA7;
const POISON_FREE: u8 = 0xDB;

pub fn die(code: i32, msg: &str) -> ! {
    unsafe {
        write(2, msg.as_ptr(), msg.len());
        write(2, b"\n".as_ptr(), 1);
        _exit(code)
    }
}

pub struct Redzone;

#[repr(C)]
struct Head {
    size: usize,
    align: usize,
    zone: u64,
    magic: u64,
}

fn pad(layout: &Layout) -> usize {
    // room for the head, keeping the alignment
    let need = std::mem::size_of::<Head>() + 16;
    let align = layout.align().max(16);
    (need + align - 1) / align * align
}

unsafe impl GlobalAlloc for Redzone {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() == 0 {
            die(EXIT_MEMORY, "MEMORY: allocation with a zero-size layout");
        }
        if FAIL_AT.load(Ordering::Relaxed) >= 0 && FAIL_AT.fetch_sub(1, Ordering::Relaxed) == 0 {
            return std::ptr::null_mut();
        }
        let live = LIVE_BYTES.fetch_add(layout.size() as i64, Ordering::Relaxed) + layout.size() as i64;
        if live > BUDGET.load(Ordering::Relaxed) {
            die(EXIT_BUDGET, "BUDGET: live memory exceeds the budget of the case");
        }
        ALLOCS.fetch_add(1, Ordering::Relaxed);

        let pad = pad(&layout);
        let Some(total) = layout.size().checked_add(pad + TAIL_LEN) else { return std::ptr::null_mut() };
        let Ok(full) = Layout::from_size_align(total, layout.align().max(16)) else { return std::ptr::null_mut() };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let user = base.add(pad);
        let head = user.sub(std::mem::size_of::<Head>()) as *mut Head;
        head.write(Head { size: layout.size(), align: layout.align(), zone: HEAD, magic: HEAD });
        // poisoning of huge blocks is limited to both ends
        if layout.size() <= 1 << 20 {
            user.write_bytes(POISON_NEW, layout.size());
        } else {
            user.write_bytes(POISON_NEW, 1 << 19);
            user.add(layout.size() - (1 << 19)).write_bytes(POISON_NEW, 1 << 19);
        }
        user.add(layout.size()).write_bytes(TAIL, TAIL_LEN);
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let pad = pad(&layout);
        let head = &mut *(user.sub(std::mem::size_of::<Head>()) as *mut Head);
        if head.magic == FREED {
            die(EXIT_MEMORY, "MEMORY: block freed twice");
        }
        if head.magic != HEAD || head.zone != HEAD {
            die(EXIT_MEMORY, "MEMORY: write before the start of a block, or a foreign pointer freed");
        }
        if head.size != layout.size() || head.align != layout.align() {
            die(EXIT_MEMORY, "MEMORY: block freed with a layout that differs from its allocation");
        }
        for i in 0..TAIL_LEN {
            if *user.add(layout.size() + i) != TAIL {
                die(EXIT_MEMORY, "MEMORY: write past the end of a block");
            }
        }
        LIVE_BYTES.fetch_sub(layout.size() as i64, Ordering::Relaxed);
        FREES.fetch_add(1, Ordering::Relaxed);
        head.magic = FREED;
        if layout.size() <= 1 << 20 {
            user.write_bytes(POISON_FREE, layout.size());
        }
        let full = Layout::from_size_align_unchecked(layout.size() + pad + TAIL_LEN, layout.align().max(16));
        System.dealloc(user.sub(pad), full);
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        new
    }
}
