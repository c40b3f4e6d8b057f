//! C01: allocation failures. The operation runs in a forked child whose k-th
//! allocation fails: it may end by aborting, by a panic or with a result, but
//! never by touching memory it was not given.

use std::sync::atomic::Ordering;

use essay_tensor::tensor::Tensor;

use crate::alloc::{EXIT_MEMORY, FAIL_AT};
use crate::cx::Cx;
use crate::pure::{Job, KINDS};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
}

/// How the child ended.
fn child(job: &Job, at: i64) -> i32 {
    unsafe {
        let pid = fork();
        if pid == 0 {
            alarm(20);
            setrlimit(4, &[0, 0]); // no core files
            let null = open(b"/dev/null\0".as_ptr(), 1);
            dup2(null, 1);
            dup2(null, 2);
            FAIL_AT.store(at, Ordering::SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job.run().len()));
            let left = FAIL_AT.swap(-1, Ordering::SeqCst);
            _exit(if left >= 0 { 10 } else if r.is_ok() { 11 } else { 12 });
        }
        if pid < 0 { return -1 }
        let mut status = 0;
        while waitpid(pid, &mut status, 0) < 0 {}
        status
    }
}

pub fn failures(cx: &mut Cx) {
    let base: Tensor<f32> = (0..200).map(|i| (i as f32 * 0.37).sin()).collect();
    let kind = cx.rng.below(KINDS);
    let job = Job::new(&mut cx.rng, &base, kind, 40);
    let mut at = 0;
    for _ in 0..6 {
        cx.op("C01", "allocation failure", (kind, at, cx.index));
        cx.checks += 1;
        let status = child(&job, at);
        if status < 0 { return }
        let (signal, code) = (status & 0x7f, status >> 8 & 0xff);
        match (signal, code) {
            (0, 10) => { cx.count("allocation failures beyond the last", 1); return }
            (0, 11) => cx.count("allocation failures survived", 1),
            (0, 12) => cx.count("allocation failures ending in a panic", 1),
            (6, _) => cx.count("allocation failures ending in abort", 1),
            (14, _) => cx.count("allocation failures without an answer", 1),
            (9, _) => cx.count("allocation failures without an answer", 1),
            (0, EXIT_MEMORY) => cx.fail("C01", format!("{}: memory is damaged when allocation {} fails", cx.desc, at)),
            _ => cx.fail("C01", format!("{}: signal {} code {} when allocation {} fails", cx.desc, signal, code, at)),
        }
        at += 1 + if cx.rng.chance(40) { cx.rng.below(8) as i64 } else { 0 };
    }
}
