//! Memory handed to the library: every array ends (or starts) at an inaccessible page, so a read
//! or write outside it kills the run and is reported. Addresses are deterministic (no ASLR).
use std::ops::{Deref, DerefMut};

pub const GUARD: usize = 1 << 20;
const PAGE: usize = 4096;

pub struct GBuf<T: 'static> {
    map: *mut u8,
    maplen: usize,
    data: *mut T,
    len: usize,
}
unsafe impl<T> Send for GBuf<T> {}
unsafe impl<T> Sync for GBuf<T> {}

impl<T: Copy> GBuf<T> {
    /// `high`: the array ends at the guard page (else it starts right after one).
    pub fn new(src: &[T], high: bool) -> Self {
        let bytes = std::mem::size_of_val(src);
        let body = bytes.div_ceil(PAGE).max(1) * PAGE;
        let maplen = body + 2 * GUARD;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), maplen, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED, "mmap");
            let map = p as *mut u8;
            assert!(libc::mprotect(map.add(GUARD) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE) == 0);
            let off = if high { GUARD + body - bytes } else { GUARD };
            let data = map.add(off) as *mut T;
            std::ptr::copy_nonoverlapping(src.as_ptr(), data, src.len());
            GBuf { map, maplen, data, len: src.len() }
        }
    }
    pub fn stat(&self) -> &'static [T] {
        unsafe { std::slice::from_raw_parts(self.data, self.len) }
    }
    /// Are the accessible bytes around the array untouched?
    pub fn clean(&self) -> bool {
        unsafe {
            let a = self.map.add(GUARD);
            let b = self.map.add(self.maplen - GUARD);
            let d = self.data as *mut u8;
            let e = self.data.add(self.len) as *mut u8;
            let z = |p: *mut u8, q: *mut u8| std::slice::from_raw_parts(p, q.offset_from(p) as usize).iter().all(|x| *x == 0);
            z(a, d) && z(e, b)
        }
    }
    /// Overwrite one element behind the library's back (fault injection).
    pub fn poke(&self, i: usize, v: T) {
        assert!(i < self.len);
        unsafe { std::ptr::write_volatile(self.data.add(i), v) }
    }
}
impl<T> Deref for GBuf<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.data, self.len) }
    }
}
impl<T> DerefMut for GBuf<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.data, self.len) }
    }
}
impl<T> Drop for GBuf<T> {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.maplen);
        }
    }
}
