//! Own the two sources of nondeterminism / environment answers the code under test has:
//!  * hash seeds (std asks libc's `getrandom`, which std documents as interposable), and
//!  * `write` (stdout diagnostics are captured per thread; file writes can be given scripted answers).
use std::cell::{Cell, RefCell};
use std::ffi::c_void;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_WRITE: i64 = 1;

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x9E3779B97F4A7C15) };
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
    static CAPTURED: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static PLAN_ON: Cell<bool> = const { Cell::new(false) };
    static PLAN: RefCell<(Vec<WriteAnswer>, usize)> = const { RefCell::new((Vec::new(), 0)) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteAnswer {
    Full,
    /// accept at most this many bytes (at least one)
    Short(usize),
    Eintr,
    Enospc,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Sets the stream from which this thread's hash keys are drawn. Must be called before the thread's first
/// RandomState is made (std caches the keys per thread).
pub fn seed_thread(s: u64) { SEED.with(|c| c.set(s)); }

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let _ = SEED.try_with(|c| {
        let mut s = c.get();
        for ch in out.chunks_mut(8) {
            let v = splitmix(&mut s).to_le_bytes();
            ch.copy_from_slice(&v[..ch.len()]);
        }
        c.set(s);
    });
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const c_void, len: usize) -> isize {
    if (fd == 1 || fd == 2) && CAPTURE.try_with(|c| c.get()).unwrap_or(false) {
        let s = std::slice::from_raw_parts(buf as *const u8, len);
        let _ = CAPTURED.try_with(|c| if let Ok(mut v) = c.try_borrow_mut() { if v.len() < (1 << 20) { v.extend_from_slice(s) } });
        return len as isize;
    }
    if fd > 2 && PLAN_ON.try_with(|c| c.get()).unwrap_or(false) {
        let ans = PLAN.try_with(|p| {
            let mut p = p.borrow_mut();
            let i = p.1;
            p.1 += 1;
            p.0.get(i).copied().unwrap_or(WriteAnswer::Full)
        }).unwrap_or(WriteAnswer::Full);
        match ans {
            WriteAnswer::Full => {}
            WriteAnswer::Short(k) => {
                let k = k.max(1).min(len);
                return syscall(SYS_WRITE, fd as i64, buf, k) as isize;
            }
            WriteAnswer::Eintr => { *__errno_location() = 4; return -1; }
            WriteAnswer::Enospc => { *__errno_location() = 28; return -1; }
        }
    }
    syscall(SYS_WRITE, fd as i64, buf, len) as isize
}

/// Runs `f` with stdout/stderr of this thread captured; returns the bytes printed.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    CAPTURED.with(|c| c.borrow_mut().clear());
    CAPTURE.with(|c| c.set(true));
    let r = f();
    let _ = std::io::stdout().flush();
    CAPTURE.with(|c| c.set(false));
    let v = CAPTURED.with(|c| std::mem::take(&mut *c.borrow_mut()));
    (r, v)
}

/// Runs `f` with file writes (fd > 2) of this thread answered by `plan`; returns number of write calls seen.
pub fn with_write_plan<T>(plan: &[WriteAnswer], f: impl FnOnce() -> T) -> (T, usize) {
    PLAN.with(|p| *p.borrow_mut() = (plan.to_vec(), 0));
    PLAN_ON.with(|c| c.set(true));
    let r = f();
    PLAN_ON.with(|c| c.set(false));
    let n = PLAN.with(|p| p.borrow().1);
    (r, n)
}

/// catch_unwind + capture. Err(message) if the code under test panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> (Result<T, String>, Vec<u8>) {
    captured(|| {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
            if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() }
        })
    })
}
