//! C19: WAV decoding; C20: reading files under faults.

use std::io::Write;
use std::path::{Path, PathBuf};

use essay_tensor::io::{decode_wav, read_file};
use essay_tensor::tensor::Tensor;

use crate::cx::Cx;
use crate::model::{differs, M};

fn u16le(v: u16) -> [u8; 2] { v.to_le_bytes() }
fn u32le(v: u32) -> [u8; 4] { v.to_le_bytes() }

/// Writes a 16-bit PCM file.
pub fn wav(samples: &[i16], channels: u16, rate: u32) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend(b"RIFF");
    v.extend(u32le(36 + 2 * samples.len() as u32));
    v.extend(b"WAVE");
    v.extend(b"fmt ");
    v.extend(u32le(16));
    v.extend(u16le(1));
    v.extend(u16le(channels));
    v.extend(u32le(rate));
    v.extend(u32le(rate.wrapping_mul(2 * channels as u32)));
    v.extend(u16le(2 * channels));
    v.extend(u16le(16));
    v.extend(b"data");
    v.extend(u32le(2 * samples.len() as u32));
    for s in samples { v.extend(s.to_le_bytes()) }
    v
}

enum Verdict {
    Ok { samples: Vec<i16>, channels: usize, rate: u32 },
    Refuse(&'static str),
    Unspecified,
}

/// Independent reading of the bytes.
fn judge(b: &[u8]) -> Verdict {
    use Verdict::*;
    if b.len() < 44 { return Refuse("shorter than the header"); }
    let g16 = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]);
    let g32 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    if &b[0..4] != b"RIFF" || &b[8..12] != b"WAVE" || &b[12..16] != b"fmt " || &b[36..40] != b"data" {
        return Refuse("wrong tag");
    }
    if g32(4) as usize != b.len() - 8 { return Refuse("length field"); }
    if g32(16) != 16 { return Refuse("format length"); }
    if g16(20) != 1 { return Refuse("not PCM"); }
    if g16(34) != 16 { return Refuse("not 16 bits"); }
    let channels = g16(22) as usize;
    let size = g32(40) as usize;
    if size > b.len() - 44 { return Refuse("data is truncated"); }
    if channels == 0 { return Refuse("no channels"); }
    if size % 2 != 0 { return Unspecified; }
    let n = size / 2;
    if n % channels != 0 { return Refuse("partial frame"); }
    if n == 0 { return Unspecified; }
    let samples = (0..n).map(|i| i16::from_le_bytes([b[44 + 2 * i], b[45 + 2 * i]])).collect();
    Ok { samples, channels, rate: g32(24) }
}

fn samples(cx: &mut Cx, n: usize) -> Vec<i16> {
    let r = &mut cx.rng;
    match r.below(4) {
        0 => (0..n).map(|_| *r.pick(&[i16::MIN, i16::MAX, 0, -1, 1, 255, 256, -256, -255, 0x7f00, 0x80])).collect(),
        1 => (0..n).map(|i| i as i16).collect(),
        _ => (0..n).map(|_| r.u32() as i16).collect(),
    }
}

fn decode_checked(cx: &mut Cx, bytes: &[u8], what: &str) {
    let form = cx.rng.below(4);
    let verdict = judge(bytes);
    let mk = |form: usize| -> Tensor<u8> {
        match form {
            0 => Tensor::from(bytes.to_vec()),
            1 => {
                // a view inside other bytes
                let mut v = b"RIFFxx".to_vec();
                v.extend(bytes);
                v.extend(b"tail of the parent which is never read");
                Tensor::from(v).subslice(6, bytes.len())
            }
            _ => Tensor::from(bytes),
        }
    };
    if matches!(verdict, Verdict::Unspecified) || bytes.is_empty() {
        return;
    }
    let t = mk(form);
    let call = || match form {
        2 => decode_wav(&t),
        3 => decode_wav(bytes.to_vec()),
        _ => decode_wav(t.clone()),
    };
    match verdict {
        Verdict::Ok { samples, channels, rate } => {
            cx.op("C19", "decode", (what, samples.len(), channels, rate, form));
            let (a, r) = call();
            let m = M::<f32>::new(
                vec![samples.len() / channels, channels],
                samples.iter().map(|s| (*s as f32 / 32768.).to_bits()).collect()
            );
            cx.eq("C19", &a, &m);
            if r.size() != 1 || r.as_slice()[0] != rate as usize {
                cx.fail("C19", format!("{}: rate {:?}", cx.desc, r.as_slice()));
            }
        }
        Verdict::Refuse(why) => {
            cx.op("C19", "refuse", (what, why, bytes.len(), form));
            cx.refuse("C19", &format!("{} ({}, {} bytes) {:?}", what, why, bytes.len(), &bytes[..bytes.len().min(48)]), call);
        }
        Verdict::Unspecified => {}
    }
    cx.checks += 1;
    if let Some(d) = differs(&t, &M::<u8>::new(vec![bytes.len()], bytes.to_vec())) {
        cx.fail("C03", format!("{}: contents changed: {}", cx.desc, d));
    }
}

pub fn wav_good(cx: &mut Cx) {
    let channels = match cx.rng.below(6) { 0..=1 => 1, 2..=3 => 2, 4 => cx.rng.range(3, 8), _ => cx.rng.range(1, 300) };
    let max = cx.max_size();
    let frames = cx.rng.range(1, (max / channels).max(1));
    let s = samples(cx, channels * frames);
    let rate = match cx.rng.below(4) { 0 => 44100, 1 => 16000, 2 => u32::MAX, _ => cx.rng.u32() };
    let mut b = wav(&s, channels as u16, rate);
    if cx.rng.chance(20) {
        // another chunk after the samples
        let n = cx.rng.range(1, 20);
        b.extend((0..n).map(|i| i as u8));
        let len = (b.len() - 8) as u32;
        b[4..8].copy_from_slice(&len.to_le_bytes());
        decode_checked(cx, &b, "trailing chunk");
    } else {
        decode_checked(cx, &b, "plain");
    }
}

pub fn wav_bad(cx: &mut Cx) {
    let channels = cx.rng.range(1, 4);
    let frames = cx.rng.range(1, 12);
    let s = samples(cx, channels * frames);
    let mut b = wav(&s, channels as u16, 8000);
    let set32 = |b: &mut Vec<u8>, at: usize, v: u32| b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let n = b.len();
    match cx.rng.below(12) {
        0 => {
            // truncated anywhere
            let k = cx.rng.range(1, n - 1);
            b.truncate(k);
            decode_checked(cx, &b, "truncated");
        }
        1 => {
            // truncated, with the length field following
            let k = cx.rng.range(44, n - 1).max(44);
            b.truncate(k);
            set32(&mut b, 4, k as u32 - 8);
            decode_checked(cx, &b, "truncated data");
        }
        2 => {
            let at = *cx.rng.pick(&[0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 36, 37, 38, 39]);
            b[at] ^= 1 << cx.rng.below(8);
            decode_checked(cx, &b, "tag");
        }
        3 => {
            let d = *cx.rng.pick(&[-8i64, -2, -1, 1, 2, 8, 100, 65536, 1 << 24]);
            set32(&mut b, 4, ((n as i64 - 8) + d) as u32);
            decode_checked(cx, &b, "length");
        }
        4 => {
            let f = *cx.rng.pick(&[0u16, 2, 3, 6, 7, 0x101, 0x100, 0xfffe]);
            b[20..22].copy_from_slice(&f.to_le_bytes());
            decode_checked(cx, &b, "format");
        }
        5 => {
            let f = *cx.rng.pick(&[0u16, 8, 24, 32, 64, 15, 17, 0x1010, 0x1000]);
            b[34..36].copy_from_slice(&f.to_le_bytes());
            decode_checked(cx, &b, "bits");
        }
        6 => {
            let c = *cx.rng.pick(&[0u16, 5, 7, 11, 13, 256, 257, 0x8001, 0xffff]);
            b[22..24].copy_from_slice(&c.to_le_bytes());
            decode_checked(cx, &b, "channels");
        }
        7 => {
            let v = *cx.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 2, 1 << 30, 1 << 16, n as u32, n as u32 - 42]);
            set32(&mut b, 40, v);
            decode_checked(cx, &b, "data size");
        }
        8 => {
            // a frame is incomplete
            let v = (2 * (channels * frames) - 2) as u32;
            set32(&mut b, 40, v);
            decode_checked(cx, &b, "shorter data size");
        }
        9 => {
            let v = *cx.rng.pick(&[0u32, 14, 15, 17, 18, 40, 0x1000_0010, 0x0010_0010]);
            set32(&mut b, 16, v);
            decode_checked(cx, &b, "format length");
        }
        10 => {
            for _ in 0..cx.rng.range(1, 3) {
                let at = cx.rng.below(n);
                b[at] = cx.rng.u32() as u8;
            }
            decode_checked(cx, &b, "random bytes");
        }
        _ => {
            let n = cx.rng.range(1, 80);
            let v: Vec<u8> = (0..n).map(|_| cx.rng.u32() as u8).collect();
            decode_checked(cx, &v, "noise");
        }
    }
}

// ---- reading files ----

/// Fault plan for the read system call.
#[cfg(not(any(miri, harness_san)))]
pub mod inject {
    use std::cell::RefCell;

    #[derive(Default, Clone)]
    pub struct Plan {
        pub active: bool,
        /// 1..: at most this many bytes
        pub short: usize,
        pub rng: u64,
        pub eintr_percent: u64,
        /// fail the call with this index
        pub fail_at: Option<usize>,
        pub errno: i32,
        pub calls: usize,
        pub bytes: usize,
        pub eintrs: usize,
        pub failed: usize,
        pub shorts: usize,
    }

    thread_local! {
        pub static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    }

    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }

    #[no_mangle]
    pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
        let r = PLAN.try_with(|p| {
            let Ok(mut p) = p.try_borrow_mut() else { return (n, 0) };
            if !p.active || n == 0 { return (n, 0) }
            let k = p.calls;
            p.calls += 1;
            if p.fail_at == Some(k) {
                p.failed += 1;
                return (0, p.errno);
            }
            p.rng = p.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if (p.rng >> 33) % 100 < p.eintr_percent {
                p.eintrs += 1;
                return (0, 4);
            }
            if p.short > 0 {
                let m = 1 + ((p.rng >> 20) as usize) % p.short;
                if m < n { p.shorts += 1; }
                return (n.min(m), 0);
            }
            (n, 0)
        }).unwrap_or((n, 0));
        if r.1 != 0 {
            *__errno_location() = r.1;
            return -1;
        }
        // SYS_read
        let got = syscall(0, fd as i64, buf, r.0) as isize;
        if got > 0 {
            let _ = PLAN.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { p.bytes += got as usize });
        }
        got
    }
}

pub fn scratch() -> PathBuf {
    use std::sync::OnceLock;
    static DIR: OnceLock<PathBuf> = OnceLock::new();
    DIR.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("essay-harness-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    }).clone()
}

pub fn clean_scratch() {
    let d = std::env::temp_dir().join(format!("essay-harness-{}", std::process::id()));
    if d.is_dir() {
        let _ = std::fs::remove_dir_all(d);
    }
}

fn content(cx: &mut Cx) -> Vec<u8> {
    let n = match cx.rng.below(12) {
        0 => 0,
        1 => 1,
        2 => cx.rng.range(2, 40),
        3 => *cx.rng.pick(&[31, 32, 33, 63, 64, 65]),
        4 => *cx.rng.pick(&[4095, 4096, 4097, 8191, 8192, 8193]),
        5 if !cx.small => *cx.rng.pick(&[65535, 65536, 65537, 131072]),
        6 if !cx.small && cx.rng.chance(20) => (1 << 20) + cx.rng.below(3) - 1,
        _ => cx.rng.range(1, 3000),
    };
    let k = cx.rng.u64();
    match cx.rng.below(3) {
        0 => (0..n).map(|i| (i as u64).wrapping_mul(k | 1).wrapping_shr(8) as u8).collect(),
        1 => vec![0; n],
        _ => (0..n).map(|i| b"\r\n\x1a\xff\xfe\0ab"[(i as u64 ^ k) as usize % 8]).collect(),
    }
}

fn call(cx: &mut Cx, path: &Path) -> Result<Tensor<u8>, std::io::Error> {
    let name = path.to_str().unwrap();
    match cx.rng.below(4) {
        0 => read_file(name),
        1 => read_file(name.to_string()),
        2 => read_file(Tensor::from(name)),
        _ => read_file(&Tensor::from(vec![name.to_string()])),
    }
}

fn same(cx: &mut Cx, r: Result<Tensor<u8>, std::io::Error>, data: &[u8]) {
    match r {
        Ok(t) => cx.eq("C20", &t, &M::<u8>::new(vec![data.len()], data.to_vec())),
        Err(e) => cx.fail("C20", format!("{}: error {} although every call can be completed", cx.desc, e)),
    }
}

/// Regular files, with short, interrupted and failing reads.
#[cfg(not(any(miri, harness_san)))]
pub fn files(cx: &mut Cx) {
    use inject::PLAN;
    let data = content(cx);
    let path = scratch().join(format!("f\u{e4} {}", cx.index % 7));
    std::fs::write(&path, &data).unwrap();
    let mut plan = inject::Plan { active: true, rng: cx.rng.u64(), ..Default::default() };
    let mode = cx.rng.below(6);
    let bound = if data.len() > 20000 { 9000 } else { *cx.rng.pick(&[1, 2, 7, 33, 4096]) };
    match mode {
        0 => {}
        1 => plan.short = bound,
        2 => { plan.short = bound; plan.eintr_percent = 30; }
        3 => plan.eintr_percent = 60,
        _ => {
            plan.short = bound;
            plan.eintr_percent = if cx.rng.chance(50) { 20 } else { 0 };
            plan.fail_at = Some(cx.rng.below(6));
            plan.errno = *cx.rng.pick(&[5, 11, 116, 9, 12]); // EIO EAGAIN ESTALE EBADF ENOMEM
        }
    }
    let errno = plan.errno;
    cx.op("C20", "read_file", (data.len(), mode, plan.short, plan.fail_at, errno));
    PLAN.with(|p| *p.borrow_mut() = plan);
    let r = call(cx, &path);
    let plan = PLAN.with(|p| std::mem::take(&mut *p.borrow_mut()));
    cx.count("read calls", plan.calls as u64);
    cx.count("short reads", plan.shorts as u64);
    cx.count("interrupted reads", plan.eintrs as u64);
    cx.count("failed reads", plan.failed as u64);
    if plan.failed > 0 {
        cx.checks += 1;
        match r {
            Ok(t) => cx.fail("C20", format!("{}: a failed read gave {} of {} bytes", cx.desc, t.size(), data.len())),
            Err(e) => if e.raw_os_error() != Some(errno) {
                cx.fail("C20", format!("{}: error {:?} instead of errno {}", cx.desc, e, errno))
            },
        }
    } else {
        same(cx, r, &data);
    }
}

/// Files whose length is not known beforehand, and paths that cannot be read.
#[cfg(not(any(miri, harness_san)))]
pub fn special(cx: &mut Cx) {
    match cx.rng.below(5) {
        0 | 1 => {
            extern "C" { fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32; }
            let path = scratch().join(format!("fifo{}", cx.index));
            let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            if unsafe { mkfifo(c.as_ptr(), 0o600) } != 0 {
                cx.count("no fifo", 1);
                return;
            }
            let data = content(cx);
            let (d2, p2) = (data.clone(), path.clone());
            let mut r2 = cx.rng.clone();
            let pieces = cx.rng.range(1, 5);
            cx.op("C20", "fifo", (data.len(), pieces));
            let w = std::thread::spawn(move || {
                let mut f = std::fs::OpenOptions::new().write(true).open(&p2).unwrap();
                let mut at = 0;
                for i in 0..pieces {
                    let to = if i + 1 == pieces { d2.len() } else { at + r2.below(d2.len() - at + 1) };
                    if f.write_all(&d2[at..to]).is_err() { break; }
                    at = to;
                    if r2.chance(30) { std::thread::sleep(std::time::Duration::from_micros(300)); }
                }
            });
            let r = call(cx, &path);
            let _ = w.join();
            let _ = std::fs::remove_file(&path);
            same(cx, r, &data);
        }
        2 => {
            // reported length 0
            let name = *cx.rng.pick(&["/proc/version", "/proc/filesystems", "/proc/self/limits", "/proc/self/cmdline"]);
            let Ok(data) = std::fs::read(name) else { return };
            cx.op("C20", "proc", (name, data.len()));
            let r = call(cx, Path::new(name));
            same(cx, r, &data);
        }
        3 => {
            let path = scratch().join(format!("missing{}", cx.rng.below(1000)));
            cx.op("C20", "missing", path.to_str());
            let r = call(cx, &path);
            cx.checks += 1;
            if let Ok(t) = r { cx.fail("C20", format!("{}: read {} bytes", cx.desc, t.size())) }
        }
        _ => {
            let path = scratch();
            cx.op("C20", "directory", 0);
            let r = call(cx, &path);
            cx.checks += 1;
            if let Ok(t) = r { cx.fail("C20", format!("{}: read {} bytes of a directory", cx.desc, t.size())) }
        }
    }
}

#[cfg(any(miri, harness_san))]
pub fn files(cx: &mut Cx) {
    let data = content(cx);
    let path = scratch().join(format!("f{}", cx.index % 7));
    std::fs::write(&path, &data).unwrap();
    cx.op("C20", "read_file", data.len());
    let r = call(cx, &path);
    same(cx, r, &data);
}

#[cfg(any(miri, harness_san))]
pub fn special(cx: &mut Cx) {
    let path = scratch().join("missing");
    cx.op("C20", "missing", 0);
    if call(cx, &path).is_ok() { cx.fail("C20", "missing file".to_string()) }
}

