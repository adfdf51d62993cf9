//! libc entry points used by std, redirected to the simulator while a thread runs inside it.

use crate::{fs, with_ctx, NO_NODE};
use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(k: usize, n: usize) -> *mut c_void;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_CLOCK_GETTIME: c_long = 228;
const SYS_OPENAT: c_long = 257;
const SYS_GETRANDOM: c_long = 318;
const AT_FDCWD: c_int = -100;

/// Simulated clocks start here, so that no program sees time zero.
const EPOCH_S: i64 = 1_700_000_000;

fn fail(e: c_int) -> isize {
    unsafe { *__errno_location() = e };
    -1
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    ns: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    match with_ctx(|s| s.now()) {
        Some(t) => {
            (*ts).s = EPOCH_S + (t / 1_000_000_000) as i64;
            (*ts).ns = (t % 1_000_000_000) as i64;
            0
        }
        None => syscall(SYS_CLOCK_GETTIME, clk as c_long, ts) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    let done = with_ctx(|s| s.fill_entropy(std::slice::from_raw_parts_mut(buf as *mut u8, n)));
    match done {
        Some(()) => n as isize,
        None => syscall(SYS_GETRANDOM, buf, n, flags as c_long) as isize,
    }
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let verdict = with_ctx(|s| fs::on_open(s, CStr::from_ptr(path).to_bytes())).flatten();
    if let Some(Err(e)) = verdict {
        return fail(e) as c_int;
    }
    let fd = syscall(SYS_OPENAT, AT_FDCWD as c_long, path, flags as c_long, mode as c_long) as c_int;
    if fd >= 0 && verdict.is_some() {
        with_ctx(|s| fs::opened(s, fd));
    }
    fd
}

// The mode is a C variadic argument; reading it as a fixed one is the same on this platform.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with_ctx(|s| fs::closed(s, fd));
    syscall(SYS_CLOSE, fd as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let n = match with_ctx(|s| fs::on_read(s, fd, n)).flatten() {
        Some(fs::Io::Up(m)) => m,
        Some(fs::Io::Err(e)) => return fail(e),
        _ => n,
    };
    syscall(SYS_READ, fd as c_long, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 1 || fd == 2 {
        let taken = with_ctx(|s| {
            let node = s.node();
            if node == NO_NODE {
                return false;
            }
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            let now = s.now();
            let mut st = s.lock();
            let n = st.node_mut(node);
            n.stdout.extend_from_slice(b);
            n.marks.push((n.stdout.len(), now));
            true
        });
        if taken == Some(true) {
            return n as isize;
        }
    }
    let n = match with_ctx(|s| fs::on_write(s, fd, n)).flatten() {
        Some(fs::Io::Up(m)) => m,
        Some(fs::Io::Err(e)) => return fail(e),
        Some(fs::Io::Swallow(m)) => return m as isize,
        None => n,
    };
    syscall(SYS_WRITE, fd as c_long, buf, n) as isize
}

#[derive(Clone, Copy)]
struct Malloc {
    /// Smallest size concerned.
    min: usize,
    /// Such allocations since armed.
    seen: u32,
    /// Which of them fails.
    fails: Option<u32>,
    failed: bool,
    /// Called before each of them.
    before: Option<fn(u32)>,
    /// Called with the result of each of them.
    after: Option<fn(u32, *mut u8, usize)>,
}

const IDLE: Malloc = Malloc { min: usize::MAX, seen: 0, fails: None, failed: false, before: None, after: None };

thread_local! {
    static MALLOC: Cell<Malloc> = const { Cell::new(IDLE) };
}

/// Counts this thread's allocations of at least `min` bytes from here on; the `fails`-th fails,
/// and the two functions are called before and after each.
pub fn arm_malloc(min: usize, fails: Option<u32>, before: Option<fn(u32)>, after: Option<fn(u32, *mut u8, usize)>) {
    MALLOC.with(|m| m.set(Malloc { min, fails, before, after, ..IDLE }));
}

/// Disarms; whether the failure was delivered, and the number of allocations.
pub fn disarm_malloc() -> (bool, u32) {
    MALLOC.with(|m| {
        let old = m.replace(IDLE);
        (old.failed, old.seen)
    })
}

fn on_malloc(n: usize, real: impl FnOnce() -> *mut c_void) -> *mut c_void {
    let armed = MALLOC
        .try_with(|m| {
            let s = m.get();
            // The functions called may themselves allocate.
            (n >= s.min).then(|| m.replace(IDLE))
        })
        .ok()
        .flatten();
    let Some(mut s) = armed else { return real() };
    if let Some(f) = s.before {
        f(s.seen);
    }
    let hit = s.fails == Some(s.seen);
    let p = if hit { std::ptr::null_mut() } else { real() };
    if let (Some(f), false) = (s.after, p.is_null()) {
        f(s.seen, p as *mut u8, n);
    }
    s.failed |= hit;
    s.seen += 1;
    let _ = MALLOC.try_with(|m| m.set(s));
    if hit {
        fail(12);
    }
    p
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    on_malloc(n, || __libc_malloc(n))
}

#[no_mangle]
pub unsafe extern "C" fn calloc(k: usize, n: usize) -> *mut c_void {
    on_malloc(k.saturating_mul(n), || __libc_calloc(k, n))
}
