//! A counting allocator: the largest single request and the live total.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// The live total at which a worker gives up (exit code 98).
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

#[inline]
fn note(size: usize) {
    if ACTIVE.load(Relaxed) {
        LARGEST.fetch_max(size, Relaxed);
        // A huge request that is never touched costs nothing; do not count it.
    }
    if size < 1 << 30 && LIVE.fetch_add(size, Relaxed) > LIMIT.load(Relaxed) {
        unsafe { libc::_exit(98) };
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        if layout.size() < 1 << 30 {
            LIVE.fetch_sub(layout.size(), Relaxed);
        }
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        note(size);
        if size >= 1 << 30 && layout.size() >= 1 << 28 && LIMIT.load(Relaxed) != usize::MAX {
            // What grows has been filled.
            libc::_exit(98);
        }
        if layout.size() < 1 << 30 {
            LIVE.fetch_sub(layout.size(), Relaxed);
        }
        System.realloc(pointer, layout, size)
    }
}

/// Run and return the largest single request made meanwhile.
pub fn largest<T>(body: impl FnOnce() -> T) -> (T, usize) {
    LARGEST.store(0, Relaxed);
    ACTIVE.store(true, Relaxed);
    let result = body();
    ACTIVE.store(false, Relaxed);
    (result, LARGEST.load(Relaxed))
}
