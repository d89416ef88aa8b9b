//! Counts the heap memory the current thread holds, for the property on memory growth,
//! and refuses memory to code that asks for it without end (a crash of that case
//! instead of the machine running out of memory).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

struct Counting;

fn note(d: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}

/// Allocations of at least a megabyte, all threads together.
static LARGE: AtomicIsize = AtomicIsize::new(0);
const LIMIT: isize = 20 << 30;

fn large(n: usize) -> isize {
    if n >= 1 << 20 { n as isize } else { 0 }
}

/// Accounts for a change from one size to another; false: refused.
fn grant(from: usize, to: usize) -> bool {
    let d = large(to) - large(from);
    if d == 0 {
        return true;
    }
    if LARGE.fetch_add(d, Relaxed) + d > LIMIT && d > 0 {
        LARGE.fetch_sub(d, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grant(0, l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grant(0, l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as isize);
        }
        p
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grant(l.size(), n) {
            return std::ptr::null_mut();
        }
        let p = System.realloc(q, l, n);
        if !p.is_null() {
            note(n as isize - l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        grant(l.size(), 0);
        note(-(l.size() as isize));
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Bytes allocated on this thread and not given back on it.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
