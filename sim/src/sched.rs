//! The simulator's scheduler: real OS threads, exactly one of which runs at any moment. Control can
//! change hands at every instruction (trap mode: the CPU's single-step flag raises SIGTRAP after
//! each instruction of the code under test) or at every arithmetic operation (op mode: `SimF64`).
//! Who runs next is decided only by the explicit switch list of the scenario.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 32;
pub const MAXSW: usize = 4096;
pub const OFF: u8 = 0;
pub const OPS: u8 = 1;
pub const TRAP: u8 = 2;
pub const COUNT: u8 = 3; // op counting without scheduling (fault runs on one thread)
pub const BP: u8 = 4; // calls run at full speed; hand-overs at breakpoints planted on single instructions
pub const ENDOP: u64 = u64::MAX;
/// (thread, operation, instruction address or ENDOP, which execution of it, who runs next)
pub type Pause = (u8, u64, u64, u32, u8);

const READY: u8 = 0;
const STALLED: u8 = 1;
const BLOCKED: u8 = 2;
const DONE: u8 = 3;
const ABSENT: u8 = 4;

const NEVER: u64 = u64::MAX;

pub static MODE: AtomicU8 = AtomicU8::new(OFF);
/// Before the start.
const NOBODY: u32 = u32::MAX - 1;
static TURN: AtomicU32 = AtomicU32::new(u32::MAX);
static STEP: AtomicU64 = AtomicU64::new(0);
static MAXSTEP: AtomicU64 = AtomicU64::new(NEVER);
static FAIR: AtomicU64 = AtomicU64::new(NEVER);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static NSW: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const Z64: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const N64: AtomicU64 = AtomicU64::new(NEVER);
#[allow(clippy::declare_interior_mutable_const)]
const Z8: AtomicU8 = AtomicU8::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const ZB: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const Z32: AtomicU32 = AtomicU32::new(0);
static SW_AT: [AtomicU64; MAXSW] = [N64; MAXSW];
static SW_TO: [AtomicU8; MAXSW] = [Z8; MAXSW];
static STATE: [AtomicU8; MAXT] = [Z8; MAXT];
static LOCAL: [AtomicU64; MAXT] = [Z64; MAXT];
static OPIDX: [AtomicU64; MAXT] = [Z64; MAXT];
static STALL_OP: [AtomicU64; MAXT] = [N64; MAXT];
static STALL_AT: [AtomicU64; MAXT] = [N64; MAXT];
static PANIC_OP: [AtomicU64; MAXT] = [N64; MAXT];
static PANIC_AT: [AtomicU64; MAXT] = [N64; MAXT];
static CAST_OP: [AtomicU64; MAXT] = [N64; MAXT];
static CAST_AT: [AtomicU64; MAXT] = [N64; MAXT];
static CASTS: [AtomicU64; MAXT] = [Z64; MAXT];
static PARKED: [AtomicBool; MAXT] = [ZB; MAXT];
static OSTID: [AtomicU32; MAXT] = [Z32; MAXT];
static TRAPPING: [AtomicBool; MAXT] = [ZB; MAXT];
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static FIRED_PANIC: AtomicU64 = AtomicU64::new(0);
static FIRED_CAST: AtomicU64 = AtomicU64::new(0);
static FIRED_STALL: AtomicU64 = AtomicU64::new(0);
static FIRED_BLOCK: AtomicU64 = AtomicU64::new(0);
/// Rolling hash of (thread, op, local step) at every hand-over: identifies the interleaving.
static TRACE: AtomicU64 = AtomicU64::new(0);
/// Potentially blocking system calls executed by the code under test (counted when asked for).
static SYSCALLS: AtomicU64 = AtomicU64::new(0);
static WATCH_SYS: AtomicBool = AtomicBool::new(false);
static DONE_CNT: AtomicU32 = AtomicU32::new(0);
/// All remaining threads are blocked behind a stalled one (or on each other).
static DEADLOCK: AtomicBool = AtomicBool::new(false);

thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

/// Payload of an injected panic.
pub struct Injected;

fn futex_wait(w: &AtomicU32, v: u32, ms: i64) {
    unsafe {
        let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
        let p = if ms < 0 { std::ptr::null() } else { &ts as *const _ };
        libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, p);
    }
}
fn futex_wake(w: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX);
    }
}

pub struct Plan<'a> {
    pub mode: u8,
    pub threads: usize,
    pub switches: &'a [(u64, u8)],
    pub stalls: &'a [(u8, u64, u64)],
    pub panics: &'a [(u8, u64, u64)],
    pub casts: &'a [(u8, u64, u64)],
    pub max_steps: u64,
    pub fair_after: u64,
    pub syscalls: bool,
    pub pauses: &'a [Pause],
    /// makes a handler's call (pauses with the bit `NEST` in their last field)
    pub nested: Option<fn(usize)>,
}
pub const NEST: u8 = 0x80;
static mut NESTED: Option<fn(usize)> = None;
/// Whose list of pauses is in force: the thread's, or that of the handler it is running.
static LIST: AtomicUsize = AtomicUsize::new(0);
static DEPTH: AtomicUsize = AtomicUsize::new(0);

static mut PAUSES: Vec<Vec<Pause>> = Vec::new();
/// (thread, call, step) of the panics and of the failing conversions, loaded as each call begins.
static mut FAULTS: [Vec<(u8, u64, u64)>; 2] = [const { Vec::new() }; 2];
fn fault_of(kind: usize, me: usize, op: u64) -> Option<u64> {
    let v = unsafe { &(*std::ptr::addr_of!(FAULTS))[kind] };
    v.iter().find(|f| f.0 as usize == me && f.1 == op).map(|f| f.2)
}
static PNEXT: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
/// Inside the code under test (breakpoint mode).
static INOP: [AtomicBool; MAXT] = [ZB; MAXT];
static SPINS: AtomicU64 = AtomicU64::new(0);
static PAUSED: AtomicU64 = AtomicU64::new(0);
static BP_ADDR: AtomicU64 = AtomicU64::new(0); // 0: none planted
static BP_BYTE: AtomicU8 = AtomicU8::new(0);
static BP_LEFT: AtomicU32 = AtomicU32::new(0);
static BP_OWNER: AtomicUsize = AtomicUsize::new(usize::MAX);
static BP_TO: AtomicU8 = AtomicU8::new(0);
static BP_STEPPING: AtomicBool = AtomicBool::new(false);

fn poke_text(addr: u64, b: u8) {
    unsafe { (*(addr as *const AtomicU8)).store(b, SeqCst) }
}
fn unplant() {
    let a = BP_ADDR.swap(0, SeqCst);
    if a != 0 {
        poke_text(a, BP_BYTE.load(SeqCst));
    }
    BP_STEPPING.store(false, SeqCst);
}
fn plant(a: u64) {
    BP_BYTE.store(unsafe { (*(a as *const AtomicU8)).load(SeqCst) }, SeqCst);
    BP_ADDR.store(a, SeqCst);
    poke_text(a, 0xcc);
}
/// The next pause of this thread in this operation, if any.
fn next_pause(me: usize, end: bool) -> Option<Pause> {
    let all: &Vec<Vec<Pause>> = unsafe { &*std::ptr::addr_of!(PAUSES) };
    let list = &all[me];
    let op = OPIDX[me].load(SeqCst);
    loop {
        let i = PNEXT[me].load(SeqCst);
        let p = list.get(i)?;
        if p.1 > op {
            return None;
        }
        if p.1 == op && (p.2 == ENDOP) == end {
            PNEXT[me].store(i + 1, SeqCst);
            return Some(*p);
        }
        if p.1 == op && !end {
            return None; // only the end of this operation is left
        }
        PNEXT[me].store(i + 1, SeqCst);
    }
}
pub fn text_range() -> (u64, u64) {
    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    unsafe { (std::ptr::addr_of!(__executable_start) as u64, std::ptr::addr_of!(etext) as u64) }
}
/// Make the program's code writable in this (forked) process.
pub fn unlock_text() -> bool {
    let (a, b) = text_range();
    let a = a & !4095;
    unsafe { libc::mprotect(a as *mut _, (b - a + 4095) as usize & !4095, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) == 0 }
}

// Recording of the instructions a lone call executes.
const MAXREC: usize = 1 << 18;
static RECORDING: AtomicBool = AtomicBool::new(false);
static mut REC: [u64; MAXREC] = [0; MAXREC];
static NREC: AtomicUsize = AtomicUsize::new(0);
static RECLIMIT: AtomicUsize = AtomicUsize::new(MAXREC);
/// Record the first `limit` instructions; the rest of the call runs at full speed.
pub fn record(limit: usize) {
    NREC.store(0, SeqCst);
    RECLIMIT.store(limit.min(MAXREC), SeqCst);
    RECORDING.store(true, SeqCst);
}
pub fn recorded() -> &'static [u64] {
    unsafe { std::slice::from_raw_parts(std::ptr::addr_of!(REC) as *const u64, NREC.load(SeqCst)) }
}

pub fn install(p: &Plan) {
    STEP.store(0, SeqCst);
    NEXT.store(0, SeqCst);
    SWITCHES.store(0, SeqCst);
    TRACE.store(0, SeqCst);
    DONE_CNT.store(0, SeqCst);
    DEADLOCK.store(false, SeqCst);
    for f in [&FIRED_PANIC, &FIRED_CAST, &FIRED_STALL, &FIRED_BLOCK] {
        f.store(0, SeqCst);
    }
    SYSCALLS.store(0, SeqCst);
    WATCH_SYS.store(p.syscalls, SeqCst);
    MAXSTEP.store(p.max_steps, SeqCst);
    FAIR.store(p.fair_after, SeqCst);
    let n = p.switches.len().min(MAXSW);
    for (i, (s, t)) in p.switches.iter().take(n).enumerate() {
        SW_AT[i].store(*s, SeqCst);
        SW_TO[i].store(*t, SeqCst);
    }
    NSW.store(n, SeqCst);
    for t in 0..MAXT {
        STATE[t].store(if t < p.threads { READY } else { ABSENT }, SeqCst);
        LOCAL[t].store(0, SeqCst);
        OPIDX[t].store(0, SeqCst);
        CASTS[t].store(0, SeqCst);
        PARKED[t].store(false, SeqCst);
        TRAPPING[t].store(false, SeqCst);
        for a in [&STALL_OP, &STALL_AT, &PANIC_OP, &PANIC_AT, &CAST_OP, &CAST_AT] {
            a[t].store(NEVER, SeqCst);
        }
    }
    for (t, o, s) in p.stalls {
        STALL_OP[*t as usize].store(*o, SeqCst);
        STALL_AT[*t as usize].store(*s, SeqCst);
    }
    unsafe { *std::ptr::addr_of_mut!(FAULTS) = [p.panics.to_vec(), p.casts.to_vec()] };
    SPINS.store(0, SeqCst);
    PAUSED.store(0, SeqCst);
    BP_ADDR.store(0, SeqCst);
    let mut per: Vec<Vec<Pause>> = vec![vec![]; MAXT];
    for x in p.pauses {
        if (x.0 as usize) < MAXT {
            per[x.0 as usize].push(*x);
        }
    }
    for t in 0..MAXT {
        per[t].sort_by_key(|x| (x.1, x.2 == ENDOP));
        PNEXT[t].store(0, SeqCst);
        INOP[t].store(false, SeqCst);
    }
    unsafe {
        *std::ptr::addr_of_mut!(PAUSES) = per;
        *std::ptr::addr_of_mut!(NESTED) = p.nested;
    }
    LIST.store(0, SeqCst);
    DEPTH.store(0, SeqCst);
    TURN.store(NOBODY, SeqCst);
    MODE.store(p.mode, SeqCst);
    if p.mode == TRAP || p.mode == BP {
        install_trap(p.nested.is_some());
    }
}

pub struct Stats {
    pub syscalls: u64,
    pub steps: u64,
    pub switches: u64,
    pub trace: u64,
    pub panics: u64,
    pub casts: u64,
    pub stalls: u64,
    pub blocks: u64,
    pub deadlock: bool,
    pub spins: u64,
    pub pauses: u64,
}
pub fn stats() -> Stats {
    Stats {
        syscalls: SYSCALLS.load(SeqCst),
        steps: STEP.load(SeqCst),
        switches: SWITCHES.load(SeqCst),
        trace: TRACE.load(SeqCst),
        panics: FIRED_PANIC.load(SeqCst),
        casts: FIRED_CAST.load(SeqCst),
        stalls: FIRED_STALL.load(SeqCst),
        blocks: FIRED_BLOCK.load(SeqCst),
        deadlock: DEADLOCK.load(SeqCst),
        spins: SPINS.load(SeqCst),
        pauses: PAUSED.load(SeqCst),
    }
}
pub fn local_steps(t: usize) -> u64 {
    LOCAL[t].load(SeqCst)
}
pub fn cast_count(t: usize) -> u64 {
    CASTS[t].load(SeqCst)
}

fn pick_after(me: usize) -> Option<usize> {
    (1..=MAXT).map(|k| (me + k) % MAXT).find(|&t| t != me && STATE[t].load(SeqCst) == READY)
}

fn hand_over(me: usize, to: usize) {
    SWITCHES.fetch_add(1, SeqCst);
    let h = TRACE.load(SeqCst);
    TRACE.store(
        crate::rng::mix(h, (me as u64) << 60 ^ (to as u64) << 56 ^ OPIDX[me].load(SeqCst) << 40 ^ LOCAL[me].load(SeqCst)),
        SeqCst,
    );
    TURN.store(to as u32, SeqCst);
    futex_wake(&TURN);
}

fn wait_turn(me: usize) {
    PARKED[me].store(true, SeqCst);
    loop {
        let t = TURN.load(SeqCst);
        if t == me as u32 {
            break;
        }
        futex_wait(&TURN, t, -1);
    }
    PARKED[me].store(false, SeqCst);
}

/// One scheduling point of thread `me`.
fn yield_point(me: usize) {
    if TURN.load(SeqCst) != me as u32 {
        // We were blocked outside the simulator and have been released: queue up again.
        STATE[me].store(READY, SeqCst);
        wait_turn(me);
    }
    let l = LOCAL[me].load(SeqCst) + 1;
    LOCAL[me].store(l, SeqCst);
    let s = STEP.load(SeqCst) + 1;
    STEP.store(s, SeqCst);
    if s > MAXSTEP.load(SeqCst) {
        crate::shm::set_flag(crate::shm::F_OVERRUN);
        unsafe { libc::_exit(0) }
    }
    if l == STALL_AT[me].load(SeqCst) && OPIDX[me].load(SeqCst) == STALL_OP[me].load(SeqCst) {
        FIRED_STALL.fetch_add(1, SeqCst);
        STATE[me].store(STALLED, SeqCst);
        DONE_CNT.fetch_add(1, SeqCst);
        futex_wake(&DONE_CNT);
        match pick_after(me) {
            Some(t) => hand_over(me, t),
            None => {
                TURN.store(u32::MAX, SeqCst);
                futex_wake(&TURN);
            }
        }
        PARKED[me].store(true, SeqCst);
        loop {
            futex_wait(&STALL_WORD, 0, -1); // for ever: the process ends with the run
        }
    }
    let mut target = None;
    loop {
        let i = NEXT.load(SeqCst);
        if i < NSW.load(SeqCst) && s >= SW_AT[i].load(SeqCst) {
            NEXT.store(i + 1, SeqCst);
            target = Some(SW_TO[i].load(SeqCst) as usize);
        } else {
            break;
        }
    }
    if target.is_none() && l > FAIR.load(SeqCst) && l % 512 == 0 {
        target = pick_after(me); // a caller that spins lets the others run
    }
    if let Some(t) = target {
        if t != me && t < MAXT && STATE[t].load(SeqCst) == READY {
            hand_over(me, t);
            wait_turn(me);
        }
    }
}
static STALL_WORD: AtomicU32 = AtomicU32::new(0);

/// Called by `SimF64` for every arithmetic operation.
#[inline]
pub fn arith_op() {
    let m = MODE.load(std::sync::atomic::Ordering::Relaxed);
    if m == OPS || m == COUNT {
        slow_op(m)
    }
}
#[cold]
#[inline(never)]
fn slow_op(m: u8) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    if m == OPS {
        yield_point(me);
    } else {
        LOCAL[me].store(LOCAL[me].load(SeqCst) + 1, SeqCst);
        STEP.store(STEP.load(SeqCst) + 1, SeqCst);
    }
    if LOCAL[me].load(SeqCst) == PANIC_AT[me].load(SeqCst) && OPIDX[me].load(SeqCst) == PANIC_OP[me].load(SeqCst) {
        FIRED_PANIC.fetch_add(1, SeqCst);
        std::panic::resume_unwind(Box::new(Injected));
    }
}
/// Called by `SimF64` when a value is converted to an integer: does this conversion fail?
pub fn cast_fault() -> bool {
    let m = MODE.load(SeqCst);
    if m != OPS && m != COUNT {
        return false;
    }
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return false;
    }
    let c = CASTS[me].load(SeqCst) + 1;
    CASTS[me].store(c, SeqCst);
    if c == CAST_AT[me].load(SeqCst) && OPIDX[me].load(SeqCst) == CAST_OP[me].load(SeqCst) {
        FIRED_CAST.fetch_add(1, SeqCst);
        return true;
    }
    false
}

extern "C" fn on_trap(_s: libc::c_int, i: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let me = TID.with(|t| t.get());
    let uc = unsafe { &mut *(uc as *mut libc::ucontext_t) };
    if MODE.load(SeqCst) == BP {
        return on_breakpoint(me, uc, unsafe { (*i).si_code });
    }
    let fl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
    if me == usize::MAX || !TRAPPING[me].load(SeqCst) {
        *fl &= !0x100;
        return;
    }
    if RECORDING.load(SeqCst) {
        let n = NREC.load(SeqCst);
        if n >= RECLIMIT.load(SeqCst) {
            TRAPPING[me].store(false, SeqCst);
            *fl &= !0x100;
            return;
        }
        unsafe { *(std::ptr::addr_of_mut!(REC) as *mut u64).add(n) = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64 };
        NREC.store(n + 1, SeqCst);
    }
    if WATCH_SYS.load(SeqCst) {
        let g = &uc.uc_mcontext.gregs;
        let ip = g[libc::REG_RIP as usize] as *const u8;
        if unsafe { *ip == 0x0f && *ip.add(1) == 0x05 } && blocking(g[libc::REG_RAX as usize], g[libc::REG_RSI as usize]) {
            SYSCALLS.fetch_add(1, SeqCst);
        }
    }
    yield_point(me);
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
}
fn tick(me: usize) {
    LOCAL[me].store(LOCAL[me].load(SeqCst) + 1, SeqCst);
    STEP.store(STEP.load(SeqCst) + 1, SeqCst);
}
/// Plant the next pause of this list's current operation, if there is one.
fn start_pause(me: usize, list: usize) {
    if let Some(p) = next_pause(list, false) {
        BP_OWNER.store(me, SeqCst);
        BP_LEFT.store(p.3.max(1), SeqCst);
        BP_TO.store(p.4, SeqCst);
        BP_STEPPING.store(false, SeqCst);
        plant(p.2);
    }
}
/// A handler's call, made inside another call of the same thread.
pub fn nested(h: usize, count: u64, f: impl FnOnce()) {
    let me = TID.with(|t| t.get());
    let outer = LIST.swap(h, SeqCst);
    OPIDX[h].store(count, SeqCst);
    tick(me);
    start_pause(me, h);
    f();
    unplant();
    tick(me);
    LIST.store(outer, SeqCst);
}
/// Breakpoint mode: the planted instruction, the step over it, or a nudge from the controller.
fn on_breakpoint(me: usize, uc: &mut libc::ucontext_t, code: i32) {
    let g = &mut uc.uc_mcontext.gregs;
    if code == libc::SI_TKILL {
        // the controller: this call uses up the processor without getting anywhere
        if me != usize::MAX && INOP[me].load(SeqCst) && TURN.load(SeqCst) == me as u32 {
            if DEPTH.load(SeqCst) > 0 {
                unsafe { libc::_exit(78) } // a handler's call waits for the call it interrupted
            }
            SPINS.fetch_add(1, SeqCst);
            unplant();
            if let Some(t) = pick_after(me) {
                hand_over(me, t);
                wait_turn(me);
            }
        }
        return;
    }
    if g[libc::REG_EFL as usize] & 0x100 != 0 {
        // stepped over the planted instruction: plant it again
        g[libc::REG_EFL as usize] &= !0x100;
        if BP_STEPPING.swap(false, SeqCst) {
            let a = BP_ADDR.load(SeqCst);
            if a != 0 {
                plant(a);
            }
        }
        return;
    }
    let at = g[libc::REG_RIP as usize] as u64 - 1;
    g[libc::REG_RIP as usize] = at as i64;
    if BP_ADDR.load(SeqCst) != at {
        return; // removed in the meantime
    }
    if me != BP_OWNER.load(SeqCst) {
        unplant();
        return;
    }
    if BP_LEFT.load(SeqCst) > 1 {
        BP_LEFT.fetch_sub(1, SeqCst);
        poke_text(at, BP_BYTE.load(SeqCst));
        BP_STEPPING.store(true, SeqCst);
        g[libc::REG_EFL as usize] |= 0x100;
        return;
    }
    unplant();
    tick(me);
    LOCAL[me].store(at & 0xff_ffff, SeqCst);
    PAUSED.fetch_add(1, SeqCst);
    let to = BP_TO.load(SeqCst);
    if let (true, Some(f)) = (to & NEST != 0, unsafe { *std::ptr::addr_of!(NESTED) }) {
        DEPTH.fetch_add(1, SeqCst);
        f((to & !NEST) as usize);
        DEPTH.fetch_sub(1, SeqCst);
        start_pause(me, LIST.load(SeqCst)); // the call may be interrupted again
        return;
    }
    let t = to as usize;
    if t != me && t < MAXT && STATE[t].load(SeqCst) == READY {
        hand_over(me, t);
        wait_turn(me);
    }
}
/// Could this system call make the caller wait for somebody else or for time to pass?
fn blocking(nr: i64, arg2: i64) -> bool {
    match nr {
        libc::SYS_futex => matches!(arg2 & 0x7f, 0 | 6 | 9 | 11 | 13), // waits and priority-inheritance locks
        libc::SYS_read | libc::SYS_write | libc::SYS_poll | libc::SYS_ppoll | libc::SYS_select | libc::SYS_pselect6
        | libc::SYS_nanosleep | libc::SYS_clock_nanosleep | libc::SYS_pause | libc::SYS_epoll_wait | libc::SYS_wait4
        | libc::SYS_waitid | libc::SYS_flock | libc::SYS_fsync | libc::SYS_msync | libc::SYS_sendto | libc::SYS_recvfrom => true,
        _ => false,
    }
}
fn install_trap(nested: bool) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | if nested { libc::SA_NODEFER } else { 0 };
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

/// Does single-stepping work here? (checked once; otherwise only op mode is used)
pub fn trap_works() -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            install(&Plan { mode: TRAP, threads: 1, switches: &[], stalls: &[], panics: &[], casts: &[], max_steps: 100_000, fair_after: NEVER, syscalls: false, pauses: &[], nested: None });
            go(0);
            enter(0, 0);
            op_begin(0, 0);
            let mut x = 0u64;
            for i in 0..100 {
                x = std::hint::black_box(x + i);
            }
            op_end(0);
            libc::_exit(if local_steps(0) > 100 { 42 } else { 1 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 42
    }
}

/// Wait until thread `t` has reached the starting line.
pub fn wait_parked(t: usize) {
    while !PARKED[t].load(SeqCst) {
        std::thread::yield_now();
    }
}
pub fn go(first: u8) {
    TURN.store(first as u32, SeqCst);
    futex_wake(&TURN);
}

/// First thing a simulated thread does.
pub fn enter(me: usize, _n: usize) {
    TID.with(|t| t.set(me));
    OSTID[me].store(unsafe { libc::syscall(libc::SYS_gettid) as u32 }, SeqCst);
    if MODE.load(SeqCst) != COUNT {
        wait_turn(me);
    }
}
pub fn op_begin(me: usize, op: usize) {
    LOCAL[me].store(0, SeqCst);
    CASTS[me].store(0, SeqCst);
    OPIDX[me].store(op as u64, SeqCst);
    for (kind, o, at) in [(0, &PANIC_OP, &PANIC_AT), (1, &CAST_OP, &CAST_AT)] {
        if let Some(s) = fault_of(kind, me, op as u64) {
            o[me].store(op as u64, SeqCst);
            at[me].store(s, SeqCst);
        }
    }
    if MODE.load(SeqCst) == TRAP {
        TRAPPING[me].store(true, SeqCst);
        unsafe { std::arch::asm!("int3") };
    }
    if MODE.load(SeqCst) == BP {
        tick(me);
        start_pause(me, me);
        INOP[me].store(true, SeqCst);
    }
}
/// Returns the number of steps of the operation.
pub fn op_end(me: usize) -> u64 {
    INOP[me].store(false, SeqCst);
    if TRAPPING[me].load(SeqCst) {
        TRAPPING[me].store(false, SeqCst);
    }
    let l = LOCAL[me].load(SeqCst);
    if MODE.load(SeqCst) != COUNT && TURN.load(SeqCst) != me as u32 {
        STATE[me].store(READY, SeqCst);
        wait_turn(me);
    }
    if MODE.load(SeqCst) == BP {
        tick(me);
        if BP_OWNER.load(SeqCst) == me {
            unplant();
        }
        if let Some(p) = next_pause(me, true) {
            let t = p.4 as usize;
            if t != me && t < MAXT && STATE[t].load(SeqCst) == READY {
                hand_over(me, t);
                wait_turn(me);
            }
        }
    }
    l
}
/// Last thing a simulated thread does.
pub fn leave(me: usize) {
    TID.with(|t| t.set(usize::MAX));
    if MODE.load(SeqCst) == COUNT {
        return;
    }
    STATE[me].store(DONE, SeqCst);
    match pick_after(me) {
        Some(t) => hand_over(me, t),
        None => {
            TURN.store(u32::MAX, SeqCst);
            futex_wake(&TURN);
        }
    }
    DONE_CNT.fetch_add(1, SeqCst);
    futex_wake(&DONE_CNT);
}

/// Processor time used by the thread, in clock ticks (10 ms).
fn cpu_ticks(t: usize) -> u64 {
    let tid = OSTID[t].load(SeqCst);
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
fn asleep(t: usize) -> bool {
    let tid = OSTID[t].load(SeqCst);
    if tid == 0 {
        return false;
    }
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')).unwrap_or(false),
        Err(_) => false,
    }
}

/// The controller: waits until every thread is done or stalled. A thread that holds the turn but
/// sleeps outside the simulator waits for something another caller holds: it is marked blocked and
/// the next one runs. Returns false if nobody can run any more (deadlock behind a stalled caller).
pub fn supervise(n: usize) -> bool {
    let mut last = (u32::MAX, 0u64);
    let mut same = 0;
    let mut ticks = 0;
    loop {
        let d = DONE_CNT.load(SeqCst);
        if d as usize >= n {
            return true;
        }
        futex_wait(&DONE_CNT, d, 20);
        let t = TURN.load(SeqCst);
        let s = STEP.load(SeqCst);
        if t == u32::MAX {
            // nobody has the turn: blocked threads may just have been released
            if let Some(r) = (0..MAXT).find(|&r| STATE[r].load(SeqCst) == READY) {
                TURN.store(r as u32, SeqCst);
                futex_wake(&TURN);
                continue;
            }
            if (0..MAXT).all(|r| matches!(STATE[r].load(SeqCst), DONE | STALLED | ABSENT)) {
                continue;
            }
            same += 1;
            if same > 10 {
                DEADLOCK.store(true, SeqCst);
                return false;
            }
            continue;
        }
        if (t, s) == last && !PARKED[t as usize].load(SeqCst) && asleep(t as usize) {
            same += 1;
            if same >= 2 {
                same = 0;
                FIRED_BLOCK.fetch_add(1, SeqCst);
                STATE[t as usize].store(BLOCKED, SeqCst);
                match pick_after(t as usize) {
                    Some(r) => hand_over(t as usize, r),
                    None => {
                        TURN.store(u32::MAX, SeqCst);
                        futex_wake(&TURN);
                    }
                }
            }
        } else if MODE.load(SeqCst) == BP && (t, s) == last && INOP[t as usize].load(SeqCst) && !PARKED[t as usize].load(SeqCst) {
            // awake, no progress: 0.5 s of processor time inside one call
            let c = cpu_ticks(t as usize);
            if ticks == 0 {
                ticks = c + 1;
            } else if c > ticks + 50 {
                ticks = 0;
                unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), OSTID[t as usize].load(SeqCst), libc::SIGTRAP) };
            }
        } else {
            same = 0;
            ticks = 0;
        }
        last = (t, s);
    }
}
