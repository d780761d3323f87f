//! Allocator seam: while armed on a thread, every request of that thread is refused and counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
pub struct Gate;
thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }
static COUNT: AtomicU64 = AtomicU64::new(0);
pub fn arm(on: bool) {
    ARMED.with(|a| a.set(on));
}
pub fn count() -> u64 {
    COUNT.load(SeqCst)
}
fn refused() -> bool {
    let r = ARMED.with(|a| a.get());
    if r {
        COUNT.fetch_add(1, SeqCst);
        crate::shm::set_flag(crate::shm::F_ALLOC);
    }
    r
}
unsafe impl GlobalAlloc for Gate {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused() { std::ptr::null_mut() } else { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused() { std::ptr::null_mut() } else { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused() { std::ptr::null_mut() } else { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
