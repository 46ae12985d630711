//! Counting global allocator (per thread), for the leak oracle.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static REFUSE: Cell<i64> = const { Cell::new(-1) };
}

fn refusing() -> bool {
    let refused = REFUSE.try_with(|r| {
        let n = r.get();
        if n >= 0 {
            r.set(n - 1);
        }
        n == 0
    });
    refused == Ok(true)
}

fn grow(by: i64) {
    let _ = BYTES.try_with(|b| {
        b.set(b.get() + by);
        let _ = PEAK.try_with(|p| p.set(p.get().max(b.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refusing() {
            return std::ptr::null_mut();
        }
        grow(l.size() as i64);
        let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BYTES.try_with(|b| b.set(b.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        System.dealloc(p, l)
    }
    // counted as growing where it is
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if refusing() {
            return std::ptr::null_mut();
        }
        grow(size as i64 - l.size() as i64);
        System.realloc(p, l, size)
    }
}

/// the most bytes `f` had allocated at a time, above what there was before it
/// and above what there is after it
pub fn scratch(f: &mut dyn FnMut()) -> usize {
    let before = BYTES.with(|b| b.get());
    PEAK.with(|p| p.set(before));
    f();
    let after = BYTES.with(|b| b.get());
    (PEAK.with(|p| p.get()) - before.max(after)).max(0) as usize
}

/// (bytes, blocks) currently allocated by this thread
pub fn usage() -> (i64, i64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}

/// Refuse one allocation of this thread, after n more that succeed
pub fn refuse_after(n: usize) {
    REFUSE.with(|r| r.set(n as i64));
}

/// Stop refusing; true if the allocation was refused already
pub fn refused() -> bool {
    REFUSE.with(|r| r.replace(-1)) == -1
}
