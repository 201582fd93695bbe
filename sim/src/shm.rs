//! Memory shared between the server and the episode processes it forks. The server never allocates
//! between episodes, so every episode starts from the same memory image.
use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering::Relaxed};
pub const PLAN: usize = 24 << 20;
pub const RES: usize = 24 << 20;
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
#[repr(C)]
pub struct Hdr {
    pub plan_len: AtomicU32,
    pub res_len: AtomicU32,
    pub alloc_failed: AtomicU32, // an injected allocation failure happened in this episode
    pub phase: AtomicU32,
}
pub fn init() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096 + PLAN + RES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        BASE.store(p as *mut u8, Relaxed);
    }
}
pub fn hdr() -> &'static Hdr {
    unsafe { &*(BASE.load(Relaxed) as *const Hdr) }
}
pub fn plan_buf() -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(BASE.load(Relaxed).add(4096), PLAN) }
}
pub fn res_buf() -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(BASE.load(Relaxed).add(4096 + PLAN), RES) }
}
pub fn mark_alloc_failed() {
    if !BASE.load(Relaxed).is_null() {
        hdr().alloc_failed.fetch_add(1, Relaxed);
    }
}
pub fn put_result(s: &[u8]) {
    let n = s.len().min(RES);
    res_buf()[..n].copy_from_slice(&s[..n]);
    hdr().res_len.store(n as u32, Relaxed);
}
