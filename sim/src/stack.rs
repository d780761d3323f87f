//! Runs a closure on a thread whose stack is ours, painted beforehand, with an inaccessible page
//! below it; reports how many bytes were used.
pub const SIZE: usize = 1 << 20;
const PAINT: u64 = 0xA5C3_96E1_5A3C_691E;
extern "C" fn tramp<F: FnMut()>(p: *mut libc::c_void) -> *mut libc::c_void {
    let f = unsafe { &mut *(p as *mut F) };
    f();
    std::ptr::null_mut()
}
pub fn measure<F: FnMut()>(mut f: F) -> usize {
    unsafe {
        let guard = 1 << 16;
        let m = libc::mmap(std::ptr::null_mut(), SIZE + guard, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        let base = (m as *mut u8).add(guard);
        assert!(libc::mprotect(base as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE) == 0);
        let words = std::slice::from_raw_parts_mut(base as *mut u64, SIZE / 8);
        words.fill(PAINT);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        assert!(libc::pthread_attr_setstack(&mut at, base as *mut _, SIZE) == 0);
        let mut th: libc::pthread_t = 0;
        assert!(libc::pthread_create(&mut th, &at, tramp::<F>, &mut f as *mut F as *mut libc::c_void) == 0);
        libc::pthread_join(th, std::ptr::null_mut());
        let words = std::slice::from_raw_parts(base as *const u64, SIZE / 8);
        let low = words.iter().position(|w| *w != PAINT).unwrap_or(SIZE / 8);
        libc::munmap(m, SIZE + guard);
        SIZE - low * 8
    }
}
