//! The environment of the code under test, interposed: random numbers, clock, /etc/hostname.
//! The functions below take precedence over the C library's for the whole executable.
//! Not available under sanitizers (which interpose themselves) and Miri.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)] // `open` is variadic; the ABI is the same

use std::cell::{Cell, RefCell};

thread_local! {
    static STUMBLE: Cell<bool> = const { Cell::new(false) };
    /// 0: pass through; otherwise state of the scripted generator
    static RNG: Cell<u64> = const { Cell::new(0) };
    static RNG_LOG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static RNG_CALLS: Cell<u64> = const { Cell::new(0) };
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static HOSTNAME: RefCell<Option<Result<String, i32>>> = const { RefCell::new(None) };
    static HOSTNAME_OPENS: Cell<u64> = const { Cell::new(0) };
}

pub const INTERPOSED: bool = cfg!(not(any(miri, no_interpose)));

/// From now on this thread's operating system generator delivers a recorded stream
pub fn script_rng(seed: u64) {
    RNG.with(|r| r.set(seed | 1));
    RNG_LOG.with(|l| l.borrow_mut().clear());
    RNG_CALLS.with(|c| c.set(0));
}
pub fn unscript_rng() {
    RNG.with(|r| r.set(0));
}
/// Everything the scripted generator delivered since the last call
pub fn take_rng_log() -> Vec<u8> {
    RNG_LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Lets other threads run whenever this one asks the operating system for something
pub fn set_stumble(on: bool) {
    STUMBLE.with(|s| s.set(on));
}

/// Sets this thread's wall clock
pub fn set_clock(t: Option<(i64, i64)>) {
    CLOCK.with(|c| c.set(t));
}

/// What opening /etc/hostname does in this thread: another file, or an errno
pub fn set_hostname(h: Option<Result<String, i32>>) {
    HOSTNAME.with(|c| *c.borrow_mut() = h);
}
pub fn hostname_opens() -> u64 {
    HOSTNAME_OPENS.with(|c| c.get())
}

#[cfg(not(any(miri, no_interpose)))]
mod interpose {
    use super::*;
    use std::arch::asm;
    use std::ffi::{c_char, c_int, c_long, c_void, CStr, CString};

    extern "C" {
        fn __errno_location() -> *mut c_int;
    }

    unsafe fn raw(n: c_long, a: [c_long; 6]) -> c_long {
        let ret: c_long;
        asm!("syscall", inlateout("rax") n => ret, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
        ret
    }
    unsafe fn cook(ret: c_long) -> c_long {
        if (-4095..0).contains(&ret) {
            *__errno_location() = -ret as c_int;
            -1
        } else {
            ret
        }
    }

    const SYS_CLOCK_GETTIME: c_long = 228;
    const SYS_OPENAT: c_long = 257;
    const SYS_GETRANDOM: c_long = 318;

    unsafe fn stumble() {
        if STUMBLE.try_with(|s| s.get()).unwrap_or(false) {
            raw(24, [0; 6]); // sched_yield
        }
    }

    unsafe fn random(buf: *mut u8, len: usize, flags: c_long) -> c_long {
        stumble();
        let scripted = RNG.try_with(|r| r.get()).unwrap_or(0);
        if scripted == 0 {
            return cook(raw(SYS_GETRANDOM, [buf as c_long, len as c_long, flags, 0, 0, 0]));
        }
        let mut state = scripted;
        // now and then, as the kernel may, a short read
        let calls = RNG_CALLS.with(|c| c.replace(c.get() + 1));
        let len = if len > 1 && crate::util::mix(state ^ calls) % 16 == 0 { 1 + len / 2 } else { len };
        let out = std::slice::from_raw_parts_mut(buf, len);
        for b in out.iter_mut() {
            state = state.wrapping_add(0x9e3779b97f4a7c15) | 1;
            *b = (crate::util::mix(state) >> 24) as u8;
        }
        RNG.with(|r| r.set(state));
        RNG_LOG.with(|l| l.borrow_mut().extend_from_slice(out));
        len as c_long
    }

    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
        if n == SYS_GETRANDOM && b > 0 {
            return random(a as *mut u8, b as usize, c);
        }
        cook(raw(n, [a, b, c, d, e, f]))
    }

    #[no_mangle]
    pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
        if len == 0 {
            return 0;
        }
        random(buf.cast(), len, flags as c_long) as isize
    }

    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut Timespec) -> c_int {
        if clock == 0 {
            stumble();
            if let Ok(Some((sec, nsec))) = CLOCK.try_with(|c| c.get()) {
                *ts = Timespec { sec, nsec };
                return 0;
            }
        }
        cook(raw(SYS_CLOCK_GETTIME, [clock as c_long, ts as c_long, 0, 0, 0, 0])) as c_int
    }

    unsafe fn open_(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        let mut other = None;
        if CStr::from_ptr(path).to_bytes() == b"/etc/hostname" {
            let _ = HOSTNAME_OPENS.try_with(|c| c.set(c.get() + 1));
            match HOSTNAME.try_with(|h| h.borrow().clone()) {
                Ok(Some(Err(errno))) => {
                    *__errno_location() = errno;
                    return -1;
                }
                Ok(Some(Ok(p))) => other = CString::new(p).ok(),
                _ => (),
            }
        }
        let path = other.as_ref().map_or(path, |p| p.as_ptr());
        cook(raw(SYS_OPENAT, [dir as c_long, path as c_long, flags as c_long, mode as c_long, 0, 0])) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(-100, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(-100, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(dir, path, flags, mode)
    }
    #[no_mangle]
    pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        open_(dir, path, flags, mode)
    }
}

// ------------------------------------------------------------------------- allocation monitor

/// Counts what the current thread allocates
pub struct Meter;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn account(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    if delta > 0 {
        let _ = TOTAL.try_with(|t| t.set(t.get() + delta as u64));
    }
}

unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        // both blocks live while the contents move
        account(n as isize);
        account(-(l.size() as isize));
        std::alloc::System.realloc(p, l, n)
    }
}

/// Peak and total number of bytes allocated by `f` in this thread
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let total = TOTAL.with(|t| t.get());
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as u64, TOTAL.with(|t| t.get()) - total)
}

/// Number of bytes this thread has allocated and not freed
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
