//! An allocator that knows how much memory is live.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            BYTES.fetch_add(layout.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        BYTES.fetch_sub(layout.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() {
            BYTES.fetch_add(size as i64 - layout.size() as i64, Relaxed);
        }
        q
    }
}

/// Live bytes and blocks of this process.
pub fn live() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}
