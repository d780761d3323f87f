//! Shared memory through which the forked process of a run reports to its parent.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
pub const WORDS: usize = 1 << 20;
pub const F_FINISHED: u64 = 1;
pub const F_OVERRUN: u64 = 2;
pub const F_ALLOC: u64 = 4;
static BASE: AtomicU64 = AtomicU64::new(0);
pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            WORDS * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        BASE.store(p as u64, SeqCst);
    }
}
fn at(i: usize) -> &'static AtomicU64 {
    assert!(i < WORDS);
    unsafe { &*((BASE.load(SeqCst) + 8 * i as u64) as *const AtomicU64) }
}
// word 0: flags, word 1: length, words 2..: data
pub fn reset() {
    at(0).store(0, SeqCst);
    at(1).store(0, SeqCst);
}
pub fn set_flag(f: u64) {
    if BASE.load(SeqCst) == 0 {
        return;
    }
    at(0).fetch_or(f, SeqCst);
}
pub fn flags() -> u64 {
    at(0).load(SeqCst)
}
pub fn push(v: u64) {
    let n = at(1).load(SeqCst) as usize;
    if n + 2 < WORDS {
        at(2 + n).store(v, SeqCst);
        at(1).store(n as u64 + 1, SeqCst);
    }
}
/// Reserve `k` words and return their index.
pub fn reserve(k: usize) -> usize {
    let n = at(1).load(SeqCst) as usize;
    assert!(n + 2 + k < WORDS, "shared memory exhausted");
    at(1).store((n + k) as u64, SeqCst);
    for i in 0..k {
        at(2 + n + i).store(0, SeqCst);
    }
    n
}
pub fn put(i: usize, v: u64) {
    at(2 + i).store(v, SeqCst);
}
pub fn get(i: usize) -> u64 {
    at(2 + i).load(SeqCst)
}
pub fn len() -> usize {
    at(1).load(SeqCst) as usize
}

pub enum Exit {
    Finished,
    Overrun,
    Signal(i32),
    Code(i32),
    Timeout,
}
/// Run `f` in a forked child; wait for it with a wall-clock limit that only guards against hangs.
pub fn in_child(limit_ms: u64, f: impl FnOnce()) -> Exit {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::setpgid(0, 0);
            f();
            set_flag(F_FINISHED);
            libc::_exit(0);
        }
        // wait, with timeout, through a pidfd
        let fd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
        let mut timed_out = false;
        if fd >= 0 {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            loop {
                let r = libc::poll(&mut p, 1, limit_ms as i32);
                if r < 0 {
                    continue;
                }
                if r == 0 {
                    timed_out = true;
                    libc::kill(pid, libc::SIGKILL);
                }
                break;
            }
            libc::close(fd);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if timed_out {
            return Exit::Timeout;
        }
        if libc::WIFSIGNALED(st) {
            return Exit::Signal(libc::WTERMSIG(st));
        }
        let fl = flags();
        if fl & F_OVERRUN != 0 {
            Exit::Overrun
        } else if fl & F_FINISHED != 0 && libc::WEXITSTATUS(st) == 0 {
            Exit::Finished
        } else {
            Exit::Code(libc::WEXITSTATUS(st))
        }
    }
}
