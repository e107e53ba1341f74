//! The process's allocator, with a per-thread record of the largest single request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn note(n: usize) {
    let _ = LARGEST.try_with(|l| {
        if n > l.get() {
            l.set(n);
        }
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}
fn live(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

// SAFETY: every request is handed to the system allocator unchanged.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Forget what this thread allocated so far.
pub fn reset() {
    LARGEST.with(|l| l.set(0));
    TOTAL.with(|l| l.set(0));
}
/// The largest single request of this thread since then.
pub fn largest() -> usize {
    LARGEST.with(Cell::get)
}
/// All requests of this thread since then.
pub fn total() -> u64 {
    TOTAL.with(Cell::get)
}
/// What this thread requested and did not give back (meaningful where everything happens on one thread).
pub fn live_bytes() -> i64 {
    LIVE.with(Cell::get)
}
