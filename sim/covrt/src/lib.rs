//! The run-time side of the finely instrumented build (see tools/fine-rustc): `subtile` and the
//! simulator (which instantiates the library's generic code) call these functions at every
//! branch, load and store. This crate itself is never instrumented.
//!
//! In the ordinary build nothing calls them.

use std::cell::Cell;

thread_local! {
    /// >0 while this thread runs library code, 0 while it runs simulator code.
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// Points left before the hook is called (u32::MAX: never).
    static LEFT: Cell<u32> = const { Cell::new(u32::MAX) };
}
pub static mut HOOK: Option<fn(usize)> = None;
static mut RANGE: (usize, usize) = (0, 0);
static mut STATICS: bool = false;
static mut EDGES: (*mut u8, usize) = (std::ptr::null_mut(), 0);
static mut NGUARD: u32 = 0;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(never)]
pub fn depth() -> u32 {
    DEPTH.try_with(Cell::get).unwrap_or(0)
}
#[inline(never)]
pub fn set_depth(n: u32) -> u32 {
    DEPTH.try_with(|d| d.replace(n)).unwrap_or(0)
}
/// How many points may pass before the hook runs.
#[inline(never)]
pub fn set_left(n: u32) {
    let _ = LEFT.try_with(|l| l.set(n));
}
/// Starts calling `hook(0)` when the countdown of a thread ends and, if `statics`,
/// `hook(offset)` at every access to a static variable.
#[inline(never)]
pub fn start(hook: fn(usize), statics: bool) {
    unsafe {
        RANGE = (&raw const __data_start as usize, &raw const _end as usize);
        STATICS = statics;
        HOOK = Some(hook);
    }
}
#[inline(never)]
pub fn stop() {
    unsafe { HOOK = None }
}
/// Where reached branches are marked: one byte each.
#[inline(never)]
pub fn mark_edges(p: *mut u8, n: usize) {
    unsafe { EDGES = (p, n) }
}
pub fn guards() -> u32 {
    unsafe { NGUARD }
}
/// Whether this binary is the finely instrumented one.
pub fn fine() -> bool {
    guards() > 0
}

#[cold]
#[inline(never)]
fn call(at: usize) {
    if let Some(h) = unsafe { HOOK } {
        let d = set_depth(0);
        h(at);
        set_depth(d);
    }
}
#[inline(always)]
fn point(addr: usize) {
    unsafe {
        if (*(&raw const HOOK)).is_none() {
            return;
        }
        if depth() == 0 {
            return;
        }
        if STATICS && addr >= RANGE.0 && addr < RANGE.1 {
            call(addr - RANGE.0 + 1);
            return;
        }
    }
    let l = LEFT.try_with(Cell::get).unwrap_or(u32::MAX);
    if l == 0 {
        call(0);
    } else if l != u32::MAX {
        let _ = LEFT.try_with(|c| c.set(l - 1));
    }
}

macro_rules! access {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(p: usize) { point(p) }
    )* };
}
access! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let (p, n) = EDGES;
        let i = *g as usize;
        if i < n && depth() > 0 {
            *p.add(i) = 1;
        }
    }
    point(0);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut g = start;
        if g == stop || *g != 0 {
            return;
        }
        while g < stop {
            NGUARD += 1;
            *g = NGUARD;
            g = g.add(1);
        }
    }
}

static mut PCS: (*const usize, usize) = (std::ptr::null(), 0);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, stop: *const usize) {
    unsafe { PCS = (start, (stop as usize - start as usize) / 16) }
}
/// The code addresses of the guards, in order, relative to this executable's `base`.
pub fn pcs(base: usize) -> Vec<usize> {
    unsafe { (0..PCS.1).map(|i| (*PCS.0.add(2 * i)).wrapping_sub(base)).collect() }
}
