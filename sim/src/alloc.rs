//! Global allocator seam: live accounting, and allocation failure at a chosen point.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
pub struct SimAlloc;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static FROM: AtomicU64 = AtomicU64::new(0);
pub static TO: AtomicU64 = AtomicU64::new(0);
pub static MIN_SIZE: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static RETURNED: AtomicU64 = AtomicU64::new(0);

#[inline]
fn refuse(size: usize) -> bool {
    if !ARMED.load(Relaxed) || (size as u64) < MIN_SIZE.load(Relaxed) {
        return false;
    }
    let n = COUNT.fetch_add(1, Relaxed);
    if n >= FROM.load(Relaxed) && n < TO.load(Relaxed) {
        FAILED.fetch_add(1, Relaxed);
        crate::shm::mark_alloc_failed();
        return true;
    }
    false
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refuse(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE_BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        q
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;

/// fail allocations number from..to (counting those of at least `min` bytes) until disarmed
pub fn arm(from: u64, to: u64, min: u64) {
    COUNT.store(0, Relaxed);
    FROM.store(from, Relaxed);
    TO.store(to, Relaxed);
    MIN_SIZE.store(min, Relaxed);
    ARMED.store(true, Relaxed);
}
pub fn disarm() -> (u64, u64) {
    ARMED.store(false, Relaxed);
    (COUNT.load(Relaxed), FAILED.load(Relaxed))
}
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
