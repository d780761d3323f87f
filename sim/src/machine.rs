//! A scenario (everything about one run, explicit) and the process that executes it.
use crate::gbuf::GBuf;
use crate::num::{Num, SimF64};
use crate::rng::{mix, Rng};
use crate::sched;
use crate::shm;
use crate::world::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Obs {
    List(Vec<Vec<B>>),
    /// generated from the world with this seed
    Gen { world: usize, seed: u64, count: usize },
}
impl Obs {
    pub fn cols(&self, worlds: &[World]) -> Vec<Vec<B>> {
        match self {
            Obs::List(v) => v.clone(),
            Obs::Gen { world, seed, count } => crate::gen::points(&mut Rng::new(*seed), &worlds[*world], *count),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Area {
    Val,
    Start,
    Step,
    Grid(usize),
}
fn one() -> u32 {
    1
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Eval {
        slot: usize,
        entry: Entry,
        obs: Obs,
        atol: B,
        #[serde(default = "one")]
        rep: u32,
        #[serde(default)]
        worker: bool,
    },
    /// Replace the slot's table by another world (in place when the shapes agree) and rebuild.
    Update { slot: usize, world: usize },
    /// Build the slot's interpolators again from the current memory.
    Rebuild { slot: usize },
    /// Overwrite one stored element behind the library's back.
    Poke { slot: usize, area: Area, i: usize, v: B },
}

pub const ALLOC_FAIL: u32 = 1;
pub const STACK: u32 = 2;
pub const SYSCALLS: u32 = 4;
/// Threads after the first are interrupt handlers: their calls are made inside those of the first.
pub const HANDLERS: u32 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Direct,
    Ops,
    Trap,
    /// full speed, hand-overs at breakpoints
    Break,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub worlds: Vec<World>,
    /// initial world of each slot
    pub slots: Vec<usize>,
    pub threads: Vec<Vec<Op>>,
    pub mode: Mode,
    pub first: u8,
    pub switches: Vec<(u64, u8)>,
    /// (thread, op, step)
    pub stalls: Vec<(u8, u64, u64)>,
    pub panics: Vec<(u8, u64, u64)>,
    pub casts: Vec<(u8, u64, u64)>,
    pub max_steps: u64,
    pub flags: u32,
    /// breakpoint mode: (thread, operation, instruction offset or u64::MAX for the end, which execution, next thread)
    #[serde(default)]
    pub pauses: Vec<sched::Pause>,
    /// how often every thread goes through its list of operations (0: once)
    #[serde(default)]
    pub rounds: u64,
    #[serde(default)]
    pub aux: serde_json::Value,
}
impl Scenario {
    pub fn new(worlds: Vec<World>, mode: Mode) -> Self {
        let slots = (0..worlds.len()).collect();
        Scenario { worlds, slots, threads: vec![], mode, first: 0, switches: vec![], stalls: vec![], panics: vec![], casts: vec![], max_steps: 0, flags: 0, pauses: vec![], rounds: 0, aux: serde_json::Value::Null }
    }
}

pub const OK: u64 = 0;
pub const ERR: u64 = 1;
pub const INJECTED: u64 = 2;
pub const PANIC: u64 = 3;
pub const UNFINISHED: u64 = 4;
pub const NOINTERP: u64 = 5;
pub const NOTEVAL: u64 = 6;

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub status: u64,
    pub err: u64,
    pub steps: u64,
    pub extra: u64,
    pub out: Vec<u64>,
    pub flags: Vec<u64>,
}
impl Res {
    pub fn what(&self) -> String {
        match self.status {
            OK => "ok".into(),
            ERR => format!("error {:x}", self.err & 0xffff),
            INJECTED => "injected panic".into(),
            PANIC => "PANIC".into(),
            UNFINISHED => "unfinished".into(),
            NOINTERP => "construction refused".into(),
            _ => "-".into(),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub changed: u64, // bit 0: table, 1: observations, 2: bytes around an array
    pub steps: u64,
    pub switches: u64,
    pub trace: u64,
    pub panics: u64,
    pub casts: u64,
    pub stalls: u64,
    pub blocks: u64,
    pub deadlock: u64,
    pub syscalls: u64,
    pub allocs: u64,
    pub spins: u64,
    pub pauses: u64,
}
const META: usize = 13;
pub enum Outcome {
    Done(Meta, Vec<Vec<Res>>),
    Dead(String),
}

struct S<T: Num> {
    w: World,
    tab: Tab<T>,
    flat: Option<Any<T>>,
    rec: Option<Any<T>>,
    err: u64,
    panicked: bool,
    hash: u64,
}
struct P<T: 'static> {
    cols: Vec<GBuf<T>>,
    refs: GBuf<&'static [T]>,
    out: GBuf<T>,
    flags: GBuf<bool>,
    hash: u64,
}
enum Slot {
    F64(S<f64>),
    F32(S<f32>),
    Sim(S<SimF64>),
}
enum Prep {
    F64(P<f64>),
    F32(P<f32>),
    Sim(P<SimF64>),
    None,
}

pub fn strhash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn sentinel(i: usize) -> f64 {
    -(700001.0 + (i % 900000) as f64)
}
/// Sentinel bits in the number type of the world.
pub fn sentinel_bits(ty: Ty, i: usize) -> u64 {
    if ty == Ty::F32 { (sentinel(i) as f32).to_bits() as u64 } else { sentinel(i).to_bits() }
}

impl<T: Num> S<T> {
    fn new(w: &World) -> Self {
        let tab = Tab::new(w);
        let mut s = S { w: w.clone(), tab, flat: None, rec: None, err: 0, panicked: false, hash: 0 };
        s.rebuild(false);
        s
    }
    fn rebuild(&mut self, armed: bool) {
        let p = self.tab.parts();
        let w = &self.w;
        self.err = 0;
        self.flat = None;
        self.rec = None;
        for rec in [false, true] {
            if rec && !matches!(w.method, Method::Linear | Method::Cubic) {
                continue;
            }
            if armed {
                crate::alloc::arm(true);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build::<T>(w.method, w.regular, w.linearize, rec, &p)));
            crate::alloc::arm(false);
            match r {
                Ok(Ok(a)) => {
                    if rec {
                        self.rec = Some(a)
                    } else {
                        self.flat = Some(a)
                    }
                }
                Ok(Err(e)) => self.err = mix(self.err, strhash(e)),
                Err(_) => self.panicked = true,
            }
        }
        self.hash = self.tab.hash();
    }
    fn poke(&mut self, a: Area, i: usize, v: f64) {
        let v = T::from64(v);
        match a {
            Area::Val => self.tab.vals.poke(i, v),
            Area::Start => self.tab.starts.poke(i, v),
            Area::Step => self.tab.steps.poke(i, v),
            Area::Grid(d) => self.tab.grids[d].poke(i, v),
        }
        self.hash = self.tab.hash();
    }
    fn update(&mut self, w: &World) {
        if self.tab.same_shape(w) {
            self.flat = None;
            self.rec = None;
            self.tab.overwrite(w);
        } else {
            self.flat = None;
            self.rec = None;
            unsafe {
                // free first, so that the new table may land at the old addresses
                std::ptr::drop_in_place(&mut self.tab);
                std::ptr::write(&mut self.tab, Tab::new(w));
            }
        }
        self.w = w.clone();
        self.rebuild(false);
    }
    fn prep(&self, obs: &Obs, worlds: &[World]) -> P<T> {
        let c = obs.cols(worlds);
        let m = c.first().map_or(0, |x| x.len());
        let h = m % 3 != 1;
        let cols: Vec<GBuf<T>> = c.iter().map(|v| GBuf::new(&v.iter().map(|b| T::from64(b.0)).collect::<Vec<_>>(), h)).collect();
        let refs: Vec<&'static [T]> = cols.iter().map(|g| g.stat()).collect();
        let out: Vec<T> = (0..m).map(|i| T::from64(sentinel(i))).collect();
        let flags = vec![false; c.len()];
        let mut p = P { cols, refs: GBuf::new(&refs, h), out: GBuf::new(&out, h), flags: GBuf::new(&flags, h), hash: 0 };
        p.hash = p.obs_hash();
        p
    }
    /// The call under test, nothing else.
    #[inline(never)]
    fn go(&self, entry: Entry, atol: T, p: &P<T>) -> (u64, u64) {
        let out = unsafe { std::slice::from_raw_parts_mut(p.out.as_ptr() as *mut T, p.out.len()) };
        let flags = unsafe { std::slice::from_raw_parts_mut(p.flags.as_ptr() as *mut bool, p.flags.len()) };
        let need = match entry {
            Entry::Batch | Entry::Each => self.flat.is_some(),
            Entry::RecBatch | Entry::RecEach => self.rec.is_some(),
            Entry::Alloc if self.w.method.one_dim() => self.flat.is_some(),
            _ => true,
        };
        if !need {
            return (NOINTERP, self.err);
        }
        let parts = self.tab.parts();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            call(self.w.method, self.w.regular, self.w.linearize, entry, &parts, self.flat.as_ref(), self.rec.as_ref(), p.refs.stat(), atol, out, flags)
        }));
        match r {
            Ok(Ok(())) => (OK, 0),
            Ok(Err(e)) => (ERR, strhash(e)),
            Err(b) if b.is::<sched::Injected>() => (INJECTED, 0),
            Err(_) => (PANIC, 0),
        }
    }
}
impl<T: Num> P<T> {
    fn obs_hash(&self) -> u64 {
        let mut h = 1;
        for c in &self.cols {
            for x in c.iter() {
                h = mix(h, x.bits());
            }
        }
        h
    }
    fn clear(&self) {
        let out = unsafe { std::slice::from_raw_parts_mut(self.out.as_ptr() as *mut T, self.out.len()) };
        for (i, x) in out.iter_mut().enumerate() {
            *x = T::from64(sentinel(i));
        }
        unsafe { std::slice::from_raw_parts_mut(self.flags.as_ptr() as *mut bool, self.flags.len()) }.fill(false);
    }
    fn out_hash(&self) -> u64 {
        let mut h = 3;
        for x in self.out.iter() {
            h = mix(h, x.bits());
        }
        for x in self.flags.iter() {
            h = mix(h, *x as u64);
        }
        h
    }
}

struct Ctx {
    sc: Scenario,
    slots: Vec<Slot>,
    preps: Vec<Vec<Prep>>,
    /// (status, err, steps, extra)
    res: Vec<Vec<[u64; 4]>>,
    /// hash of the first round's output
    first: Vec<Vec<u64>>,
    /// how often each handler was entered, and whether it is running
    entered: Vec<(u64, bool)>,
}
static mut CTX: *mut Ctx = std::ptr::null_mut();
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

macro_rules! with {
    ($slot:expr, $prep:expr, |$s:ident, $p:ident| $b:expr) => {
        match ($slot, $prep) {
            (Slot::F64($s), Prep::F64($p)) => $b,
            (Slot::F32($s), Prep::F32($p)) => $b,
            (Slot::Sim($s), Prep::Sim($p)) => $b,
            _ => unreachable!(),
        }
    };
}
macro_rules! each {
    ($slot:expr, |$s:ident| $b:expr) => {
        match $slot {
            Slot::F64($s) => $b,
            Slot::F32($s) => $b,
            Slot::Sim($s) => $b,
        }
    };
}

/// Operation `i` of thread `t`; `i` runs on over the rounds.
fn run_op(t: usize, i: usize, hooks: bool) {
    let c = ctx();
    let len = c.sc.threads[t].len();
    let k = i % len;
    let op = &c.sc.threads[t][k];
    if i >= len {
        return again(t, k, i);
    }
    let flags = c.sc.flags;
    match op {
        Op::Eval { slot, entry, atol, rep, .. } => {
            let r = with!(&c.slots[*slot], &c.preps[t][k], |s, p| {
                if s.panicked {
                    [PANIC, 0, 0, 0]
                } else if flags & STACK != 0 {
                    let a = Num::from64(atol.0);
                    let mut res = (0, 0);
                    let peak = crate::stack::measure(|| res = s.go(*entry, a, p));
                    [res.0, res.1, 0, peak as u64]
                } else {
                    let a = Num::from64(atol.0);
                    if hooks {
                        sched::op_begin(t, i);
                    }
                    if flags & ALLOC_FAIL != 0 {
                        crate::alloc::arm(true);
                    }
                    let r = s.go(*entry, a, p);
                    crate::alloc::arm(false);
                    let steps = if hooks { sched::op_end(t) } else { 0 };
                    let mut extra = 0;
                    if *rep > 1 {
                        let h = p.out_hash();
                        for i in 1..*rep {
                            let r2 = s.go(*entry, a, p);
                            if (r2 != r || p.out_hash() != h) && extra == 0 {
                                extra = i as u64;
                                break;
                            }
                        }
                    }
                    [r.0, r.1, steps, extra]
                }
            });
            c.res[t][k] = r;
        }
        Op::Update { slot, world } => {
            let w = &c.sc.worlds[*world];
            each!(&mut c.slots[*slot], |s| s.update(w));
        }
        Op::Rebuild { slot } => {
            let armed = flags & ALLOC_FAIL != 0;
            each!(&mut c.slots[*slot], |s| s.rebuild(armed));
        }
        Op::Poke { slot, area, i, v } => each!(&mut c.slots[*slot], |s| s.poke(*area, *i, v.0)),
    }
}

/// A later round: the same call into the same output, cleared. Stops at the first difference.
fn again(t: usize, k: usize, i: usize) {
    let c = ctx();
    let Op::Eval { slot, entry, atol, .. } = &c.sc.threads[t][k] else { return };
    let r = &mut c.res[t][k];
    if r[3] != 0 || r[0] == PANIC {
        return;
    }
    let first = &mut c.first[t][k];
    with!(&c.slots[*slot], &c.preps[t][k], |s, p| {
        if *first == 0 {
            *first = p.out_hash();
        }
        p.clear();
        let a = Num::from64(atol.0);
        sched::op_begin(t, i);
        let x = s.go(*entry, a, p);
        r[2] = r[2].max(sched::op_end(t));
        if x != (r[0], r[1]) || p.out_hash() != *first {
            (r[0], r[1], r[3]) = (x.0, x.1, i as u64);
        }
    });
}

/// The next call of handler `h`, in the middle of another call of this thread.
fn handler(h: usize) {
    let c = ctx();
    if h >= c.entered.len() || c.entered[h].1 {
        return;
    }
    let i = c.entered[h].0;
    c.entered[h] = (i + 1, true);
    let k = i as usize % c.sc.threads[h].len();
    let Op::Eval { slot, entry, atol, .. } = &c.sc.threads[h][k] else { return };
    let r = &mut c.res[h][k];
    let first = &mut c.first[h][k];
    if r[3] == 0 && r[0] != PANIC {
        with!(&c.slots[*slot], &c.preps[h][k], |s, p| {
            let a = Num::from64(atol.0);
            let again = i as usize >= c.sc.threads[h].len();
            if again {
                p.clear();
            }
            let mut x = (PANIC, 0);
            if !s.panicked {
                sched::nested(h, i, || x = s.go(*entry, a, p));
            }
            if !again {
                *first = p.out_hash();
                *r = [x.0, x.1, 0, 0];
            } else if x != (r[0], r[1]) || p.out_hash() != *first {
                (r[0], r[1], r[3]) = (x.0, x.1, i);
            }
        });
    }
    c.entered[h].1 = false;
}

/// Executes the scenario (in the forked child).
fn execute(sc: &Scenario) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut slots = vec![];
    for w in &sc.slots {
        let w = &sc.worlds[*w];
        slots.push(match w.ty {
            Ty::F64 => Slot::F64(S::new(w)),
            Ty::F32 => Slot::F32(S::new(w)),
            Ty::Sim => Slot::Sim(S::new(w)),
        });
    }
    let mut preps = vec![];
    let mut res = vec![];
    for th in &sc.threads {
        let mut v = vec![];
        for op in th {
            v.push(match op {
                Op::Eval { slot, obs, .. } => match &slots[*slot] {
                    Slot::F64(s) => Prep::F64(s.prep(obs, &sc.worlds)),
                    Slot::F32(s) => Prep::F32(s.prep(obs, &sc.worlds)),
                    Slot::Sim(s) => Prep::Sim(s.prep(obs, &sc.worlds)),
                },
                _ => Prep::None,
            });
        }
        preps.push(v);
        res.push(th.iter().map(|o| if matches!(o, Op::Eval { .. }) { [UNFINISHED, 0, 0, 0] } else { [NOTEVAL, 0, 0, 0] }).collect());
    }
    let first = sc.threads.iter().map(|t| vec![0; t.len()]).collect();
    unsafe { CTX = Box::leak(Box::new(Ctx { sc: sc.clone(), slots, preps, res, first, entered: vec![(0, false); sc.threads.len()] })) };
    let handlers = sc.flags & HANDLERS != 0;
    let n = if handlers { 1 } else { sc.threads.len() };
    let mut m = Meta::default();
    if sc.mode == Mode::Direct {
        for t in 0..n {
            for k in 0..sc.threads[t].len() {
                if matches!(sc.threads[t][k], Op::Eval { worker: true, .. }) {
                    std::thread::spawn(move || run_op(t, k, false)).join().ok();
                } else {
                    run_op(t, k, false);
                }
            }
        }
    } else {
        let base = sched::text_range().0;
        let pauses: Vec<sched::Pause> = sc.pauses.iter().map(|p| (p.0, p.1, if p.2 == sched::ENDOP { p.2 } else { p.2 + base }, p.3, p.4)).collect();
        if sc.mode == Mode::Break && !sched::unlock_text() {
            unsafe { libc::_exit(77) }
        }
        sched::install(&sched::Plan {
            pauses: &pauses,
            nested: handlers.then_some(handler as fn(usize)),
            mode: match sc.mode {
                Mode::Trap => sched::TRAP,
                Mode::Break => sched::BP,
                _ => sched::OPS,
            },
            threads: n,
            switches: &sc.switches,
            stalls: &sc.stalls,
            panics: &sc.panics,
            casts: &sc.casts,
            max_steps: if sc.max_steps == 0 { 200_000_000 } else { sc.max_steps },
            fair_after: 20_000,
            syscalls: sc.flags & SYSCALLS != 0,
        });
        let rounds = sc.rounds.max(1) as usize;
        for t in 0..n {
            let k = sc.threads[t].len();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    sched::enter(t, n);
                    for i in 0..k * rounds {
                        run_op(t, i, true);
                    }
                    sched::leave(t);
                })
                .unwrap();
            sched::wait_parked(t); // threads start one after another
        }
        sched::go(sc.first.min(n as u8 - 1));
        let alive = sched::supervise(n);
        let st = sched::stats();
        m.steps = st.steps;
        m.switches = st.switches;
        m.trace = st.trace;
        m.panics = st.panics;
        m.casts = st.casts;
        m.stalls = st.stalls;
        m.blocks = st.blocks;
        m.syscalls = st.syscalls;
        m.spins = st.spins;
        m.pauses = st.pauses;
        m.deadlock = (st.deadlock || !alive) as u64;
        sched::MODE.store(sched::OFF, std::sync::atomic::Ordering::SeqCst);
    }
    m.allocs = crate::alloc::count();
    let c = ctx();
    for s in &c.slots {
        each!(s, |s| {
            if s.tab.hash() != s.hash {
                m.changed |= 1;
            }
        });
    }
    for th in &c.preps {
        for p in th {
            macro_rules! chk {
                ($p:ident) => {{
                    if $p.obs_hash() != $p.hash {
                        m.changed |= 2;
                    }
                    if !$p.out.clean() || !$p.flags.clean() {
                        m.changed |= 4;
                    }
                }};
            }
            match p {
                Prep::F64(p) => chk!(p),
                Prep::F32(p) => chk!(p),
                Prep::Sim(p) => chk!(p),
                Prep::None => {}
            }
        }
    }
    push_meta(&m);
    for (t, th) in c.preps.iter().enumerate() {
        for (k, p) in th.iter().enumerate() {
            for v in c.res[t][k] {
                shm::push(v);
            }
            macro_rules! dump {
                ($p:ident) => {{
                    shm::push($p.out.len() as u64);
                    for x in $p.out.iter() {
                        shm::push(x.bits());
                    }
                    shm::push($p.flags.len() as u64);
                    for x in $p.flags.iter() {
                        shm::push(*x as u64);
                    }
                }};
            }
            match p {
                Prep::F64(p) => dump!(p),
                Prep::F32(p) => dump!(p),
                Prep::Sim(p) => dump!(p),
                Prep::None => {
                    shm::push(0);
                    shm::push(0);
                }
            }
        }
    }
}

static CHILDREN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn children() -> u64 {
    CHILDREN.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn run(sc: &Scenario) -> Outcome {
    let counts: Vec<usize> = sc.threads.iter().map(|t| t.len()).collect();
    run_with(&counts, || execute(sc))
}
/// Report one result record (in the child).
pub fn push_res(head: [u64; 4], out: &[u64], flags: &[u64]) {
    for v in head {
        shm::push(v);
    }
    for list in [out, flags] {
        shm::push(list.len() as u64);
        for x in list {
            shm::push(*x);
        }
    }
}
pub fn push_meta(m: &Meta) {
    for v in [m.changed, m.steps, m.switches, m.trace, m.panics, m.casts, m.stalls, m.blocks, m.deadlock, m.syscalls, m.allocs, m.spins, m.pauses] {
        shm::push(v);
    }
}
/// Run `f` in a forked child and read back its records.
pub fn run_with(counts: &[usize], f: impl FnOnce()) -> Outcome {
    CHILDREN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    shm::reset();
    match shm::in_child(30_000, f) {
        shm::Exit::Finished => {}
        shm::Exit::Overrun => return Outcome::Dead("a call did not finish within its step bound".into()),
        shm::Exit::Signal(s) => return Outcome::Dead(format!("process killed by signal {s}")),
        shm::Exit::Code(78) => return Outcome::Dead("a call made by an interrupt handler waits for ever for the call it interrupted".into()),
        shm::Exit::Code(c) => return Outcome::Dead(format!("process exited with code {c}")),
        shm::Exit::Timeout => return Outcome::Dead("process hung".into()),
    }
    let mut i = 0;
    let mut next = || {
        i += 1;
        shm::get(i - 1)
    };
    let h: Vec<u64> = (0..META).map(|_| next()).collect();
    let m = Meta { changed: h[0], steps: h[1], switches: h[2], trace: h[3], panics: h[4], casts: h[5], stalls: h[6], blocks: h[7], deadlock: h[8], syscalls: h[9], allocs: h[10], spins: h[11], pauses: h[12] };
    let mut all = vec![];
    for th in counts {
        let mut v = vec![];
        for _ in 0..*th {
            let (status, err, steps, extra) = (next(), next(), next(), next());
            let k = next();
            let out = (0..k).map(|_| next()).collect();
            let k = next();
            let flags = (0..k).map(|_| next()).collect();
            v.push(Res { status, err, steps, extra, out, flags });
        }
        all.push(v);
    }
    Outcome::Done(m, all)
}

/// The same call as the first and only call of a pristine process.
pub fn solo(w: &World, entry: Entry, obs: Vec<Vec<B>>, atol: B, mode: Mode) -> Result<Res, String> {
    let mut sc = Scenario::new(vec![w.clone()], mode);
    sc.threads = vec![vec![Op::Eval { slot: 0, entry, obs: Obs::List(obs), atol, rep: 1, worker: false }]];
    match run(&sc) {
        Outcome::Done(_, mut r) => Ok(r.remove(0).remove(0)),
        Outcome::Dead(e) => Err(e),
    }
}

/// The instructions (offsets into the program) that the call executes when made alone, in order of
/// first execution, with how often each is executed.
pub fn trace(w: &World, entry: Entry, obs: Vec<Vec<B>>, atol: B, limit: usize) -> Vec<(u64, u32)> {
    let mut sc = Scenario::new(vec![w.clone()], Mode::Trap);
    sc.threads = vec![vec![Op::Eval { slot: 0, entry, obs: Obs::List(obs), atol, rep: 1, worker: false }]];
    let r = run_with(&[], || {
        sched::record(limit);
        execute(&sc);
        let (lo, hi) = sched::text_range();
        let mut n: Vec<(u64, u64)> = vec![];
        let mut seen: std::collections::HashMap<u64, usize> = Default::default();
        // the last instructions belong to the simulator
        for a in sched::recorded() {
            if *a < lo || *a >= hi {
                continue;
            }
            let k = *seen.entry(*a - lo).or_insert_with(|| {
                n.push((*a - lo, 0));
                n.len() - 1
            });
            n[k].1 += 1;
        }
        shm::reset();
        for (a, c) in n {
            shm::push(a);
            shm::push(c);
        }
    });
    match r {
        Outcome::Done(..) => (0..shm::len() / 2).map(|i| (shm::get(2 * i), shm::get(2 * i + 1) as u32)).collect(),
        Outcome::Dead(_) => vec![],
    }
}
