//! Native fault injection into the real allocator, and allocation accounting,
//! per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// Allocations that still succeed; `usize::MAX` when not armed.
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
    static MADE: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
/// Largest single request granted while armed.
const CAP: usize = 1 << 24;

pub struct Failing;
#[global_allocator]
static GLOBAL: Failing = Failing;

fn granted(size: usize) -> bool {
    let _ = MADE.try_with(|m| m.set(m.get().wrapping_add(1)));
    LEFT.try_with(|l| match l.get() {
        usize::MAX => true,
        0 => false,
        n => {
            if size > CAP {
                return false;
            }
            l.set(n - 1);
            true
        }
    })
    .unwrap_or(true)
}
fn live(d: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}
unsafe impl GlobalAlloc for Failing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !granted(l.size()) {
            return core::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            live(1)
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !granted(n) {
            return core::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f` with only `n` further allocations granted on this thread.
pub fn limited<R>(n: usize, f: impl FnOnce() -> R) -> R {
    LEFT.with(|l| l.set(n));
    let r = f();
    LEFT.with(|l| l.set(usize::MAX));
    r
}
/// Allocations (and growing reallocations) asked for on this thread so far.
pub fn made() -> usize {
    MADE.with(Cell::get)
}
/// Live heap blocks allocated minus freed on this thread.
pub fn blocks() -> isize {
    LIVE.with(Cell::get)
}
