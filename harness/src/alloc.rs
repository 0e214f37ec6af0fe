//! A global allocator that can be told, per thread, to refuse memory beyond a limit.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static DENIED: Cell<u64> = const { Cell::new(0) };
}

pub struct Capped;

/// Accounts for `n` more bytes; false if they are refused.
fn take(n: usize) -> bool {
    let limit = LIMIT.with(Cell::get);
    if limit == 0 { return true; }
    let live = LIVE.with(Cell::get).saturating_add(n.min(isize::MAX as usize) as isize);
    if live > limit as isize {
        DENIED.with(|d| d.set(d.get() + 1));
        return false;
    }
    LIVE.with(|l| l.set(live));
    PEAK.with(|p| p.set(p.get().max(live)));
    true
}

fn give(n: usize) {
    if LIMIT.with(Cell::get) != 0 { LIVE.with(|l| l.set(l.get() - n as isize)); }
}

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) { return std::ptr::null_mut(); }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !take(l.size()) { return std::ptr::null_mut(); }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !take(n - l.size()) { return std::ptr::null_mut(); }
        } else {
            give(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage { pub peak: usize, pub denied: u64 }

/// Runs `f` with at most `limit` bytes (more than before) of memory available to this thread.
pub fn limited<R>(limit: usize, f: impl FnOnce() -> R) -> (R, Usage) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { LIMIT.with(|l| l.set(0)); } }
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    DENIED.with(|x| x.set(0));
    LIMIT.with(|l| l.set(limit));
    let off = Off;
    let r = f();
    drop(off);
    (r, Usage { peak: PEAK.with(Cell::get).max(0) as usize, denied: DENIED.with(Cell::get) })
}
