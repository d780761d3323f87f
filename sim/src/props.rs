//! Per property: how runs are generated and what is checked on each. Shared helpers first.
use crate::gen;
use crate::machine::*;
use crate::refm;
use crate::rng::{mix, Rng};
use crate::sched;
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Default)]
pub struct Cov {
    pub n: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub states: HashSet<u64>,
    pub runs: u64,
    pub samples: Vec<serde_json::Value>,
}
impl Cov {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_default() += v;
        }
    }
}

#[derive(Default)]
pub struct Lab {
    cache: HashMap<u64, Result<Res, String>>,
    pub cov: Cov,
    pub trap: bool,
    pub thorough: bool,
}
impl Lab {
    pub fn new(trap: bool, thorough: bool) -> Self {
        Lab { trap, thorough, ..Default::default() }
    }
    pub fn clear(&mut self) {
        self.cache.clear();
    }
    /// Result of the call made alone, in a pristine process.
    pub fn solo(&mut self, w: &World, entry: Entry, obs: &[Vec<B>], atol: B, mode: Mode) -> Result<Res, String> {
        let key = strhash(&serde_json::to_string(&(w, entry, obs, atol, mode)).unwrap());
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        self.cov.add("lone reference executions", 1);
        let r = solo(w, entry, obs.to_vec(), atol, mode);
        self.cache.insert(key, r.clone());
        r
    }
}

pub struct Verdict {
    pub violation: Option<String>,
    pub nontrivial: bool,
    pub sig: u64,
}
fn bad(s: impl Into<String>) -> Verdict {
    Verdict { violation: Some(s.into()), nontrivial: true, sig: 0 }
}

pub fn obs_of(op: &Op, worlds: &[World]) -> Vec<Vec<B>> {
    match op {
        Op::Eval { obs, .. } => obs.cols(worlds),
        _ => vec![],
    }
}
fn point(cols: &[Vec<B>], k: usize) -> Vec<Vec<B>> {
    cols.iter().map(|c| vec![c[k]]).collect()
}
fn even(cols: &[Vec<B>]) -> bool {
    cols.iter().all(|c| c.len() == cols[0].len())
}
pub fn show_point(cols: &[Vec<B>], k: usize) -> String {
    format!("{:?}", cols.iter().map(|c| c.get(k).map_or(f64::NAN, |b| b.0)).collect::<Vec<_>>())
}
fn val(ty: Ty, bits: u64) -> f64 {
    if ty == Ty::F32 { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) }
}
/// The two results differ in anything observable.
pub fn differ(a: &Res, b: &Res, ty: Ty) -> Option<String> {
    if (a.status, a.err) != (b.status, b.err) {
        return Some(format!("outcome {} instead of {}", a.what(), b.what()));
    }
    if a.flags != b.flags {
        return Some(format!("bounds flags {:?} instead of {:?}", a.flags, b.flags));
    }
    if a.out.len() != b.out.len() {
        return Some("different output lengths".into());
    }
    for (k, (x, y)) in a.out.iter().zip(&b.out).enumerate() {
        if x != y {
            return Some(format!("output[{k}] = {:e} ({x:x}) instead of {:e} ({y:x})", val(ty, *x), val(ty, *y)));
        }
    }
    None
}
fn describe(w: &World, op: &Op) -> String {
    match op {
        Op::Eval { entry, .. } => format!("{:?} {} {:?} dims {:?} {:?}", w.method, if w.regular { "regular" } else { "rectilinear" }, w.ty, w.dims, entry),
        _ => String::new(),
    }
}
fn universal(m: &Meta) -> Option<String> {
    if m.changed & 1 != 0 {
        return Some("a call changed the grid or the values".into());
    }
    if m.changed & 2 != 0 {
        return Some("a call changed observation points".into());
    }
    if m.changed & 4 != 0 {
        return Some("a call wrote outside its output".into());
    }
    None
}
fn all_entries(m: Method, n: usize, alloc: bool) -> Vec<Entry> {
    let mut e = entries(m, n);
    if alloc {
        e.push(Entry::Alloc);
        if matches!(m, Method::Linear | Method::Cubic) {
            e.push(Entry::RecAlloc);
        }
    }
    e
}
pub fn entries_of(w: &World) -> Vec<Entry> {
    all_entries(w.method, w.n(), true)
}
fn eval(r: &mut Rng, w: &World, slot: usize, m: usize, alloc: bool) -> Op {
    let es = all_entries(w.method, w.n(), alloc);
    let mut entry = *r.pick(&es);
    if matches!(entry, Entry::Bounds | Entry::RecBounds) && r.chance(1, 2) {
        entry = *r.pick(&es);
    }
    Op::Eval { slot, entry, obs: Obs::List(gen::points(r, w, m)), atol: atol(r), rep: 1, worker: false }
}
fn atol(r: &mut Rng) -> B {
    B(*r.pick(&[0.0, 1e-8, 0.5]))
}
fn cost(w: &World) -> usize {
    let fp: usize = match w.method {
        Method::Cubic => 4,
        Method::Linear => 2,
        _ => 1,
    };
    fp.pow(w.n() as u32)
}

pub fn generate(prop: &str, seed: u64, index: u64, lab: &mut Lab) -> Scenario {
    let mut r = Rng::new(mix(mix(seed, strhash(prop)), index));
    match prop {
        "C01" => gen_c01(&mut r, lab),
        "C02" => gen_c02(&mut r, lab),
        "C03" => gen_c03(&mut r, lab),
        "C04" => gen_c04(&mut r, lab),
        "C05" => gen_c05(&mut r, lab),
        "C06" => gen_c06(&mut r, lab),
        "C07" => gen_c07(&mut r, lab),
        "C08" => gen_c08(&mut r, lab),
        "C09" => crate::storage::generate(&mut r),
        "C10" => crate::requests::generate(&mut r),
        "C19" => gen_c19(&mut r, lab),
        _ => panic!("unknown property {prop}"),
    }
}
pub fn check(prop: &str, sc: &Scenario, lab: &mut Lab) -> Verdict {
    match prop {
        "C01" => check_concurrent(sc, lab, false),
        "C02" => check_c02(sc, lab),
        "C03" => check_c03(sc, lab),
        "C04" => check_concurrent(sc, lab, true),
        "C05" => check_c05(sc, lab),
        "C06" => check_c06(sc, lab),
        "C07" => check_c07(sc, lab),
        "C08" => check_c08(sc, lab),
        "C09" => crate::storage::check(sc, lab),
        "C10" => crate::requests::check(sc, lab),
        "C19" => check_c19(sc, lab),
        _ => panic!("unknown property {prop}"),
    }
}

// ---------------------------------------------------------------- C01 and C04: concurrency

/// Worlds and threads for a concurrent run; returns the scenario without a schedule.
fn concurrent(r: &mut Rng, lab: &mut Lab, max_ops: usize, crowds: u64) -> Scenario {
    let trap = lab.trap && r.chance(65, 100);
    let mode = if trap { Mode::Trap } else { Mode::Ops };
    // now and then a crowd: more callers at once than any pool of slots is likely to have
    let crowd = r.chance(1, crowds);
    // often all of it in the same place, where what there is of a shared resource runs out
    let alike = crowd && r.chance(3, 4);
    let nt = if crowd { *r.pick(&[5, 6, 8, 9, 12, 17, 24, 31]) } else { 2 + r.us(3) };
    let max_ops = if crowd { 1 } else { max_ops };
    let nw = 1 + r.us(2);
    let mut worlds = vec![];
    for k in 0..nw {
        if k > 0 && r.chance(1, 2) {
            // a second table of the same shape over different data
            let mut w: World = World::clone(&worlds[0]);
            if r.chance(1, 2) {
                gen::fill_grid(r, &mut w, true);
            }
            gen::fill_vals(r, &mut w, true);
            worlds.push(w);
            continue;
        }
        let cfg = if trap {
            gen::Cfg { tys: &[Ty::F64, Ty::F64, Ty::F32], methods: gen::ALL, max_n: if r.chance(1, 10) { 8 } else { 3 }, max_nodes: 300, plain: true }
        } else {
            gen::Cfg { tys: &[Ty::Sim], methods: gen::ALL, max_n: if r.chance(1, 6) { 6 } else { 4 }, max_nodes: 700, plain: true }
        };
        let w = gen::world(r, &cfg);
        worlds.push(w);
    }
    let mut sc = Scenario::new(worlds, mode);
    if r.chance(1, 4) {
        sc.slots.push(0); // another interpolator over a copy of the same data
    }
    for t in 0..nt {
        if alike && t > 0 {
            let ops = sc.threads[0].clone();
            sc.threads.push(ops);
            continue;
        }
        let mut ops = vec![];
        for _ in 0..1 + r.us(max_ops) {
            let slot = if r.chance(7, 10) { 0 } else { r.us(sc.slots.len()) };
            let w = sc.worlds[sc.slots[slot]].clone();
            let c = cost(&w);
            let m = if crowd { 1 + r.us(2) } else if r.chance(1, 150) { gen::batch(r, 2000 / c) } else if r.chance(1, 10) { 1 + r.us((300 / c).clamp(1, 70)) } else { 1 + r.us(if c > 64 { 1 } else if c > 15 { 3 } else { 5 }) };
            let mut op = eval(r, &w, slot, m, true);
            if r.chance(1, 15) {
                // a failing call among the others
                if let Op::Eval { obs: Obs::List(c), .. } = &mut op {
                    let (d, k) = (r.us(c.len()), r.us(m));
                    c[d][k] = B(gen::bad_coord(r, w.ty));
                }
            }
            ops.push(op);
        }
        sc.threads.push(ops);
    }
    sc
}
fn solo_of(sc: &Scenario, op: &Op, lab: &mut Lab) -> Result<Res, String> {
    match op {
        Op::Eval { slot, entry, atol, .. } => {
            let mode = if sc.mode == Mode::Break { Mode::Direct } else { sc.mode };
            lab.solo(&sc.worlds[sc.slots[*slot]], *entry, &obs_of(op, &sc.worlds), *atol, mode)
        }
        _ => unreachable!(),
    }
}
fn total_steps(sc: &Scenario, lab: &mut Lab) -> u64 {
    sc.threads.iter().flatten().map(|op| solo_of(sc, op, lab).map_or(1000, |r| r.steps)).sum()
}
/// A storm: the first thread makes the same calls over and over; in every round it is stopped at one
/// instruction of its call while another thread makes a whole call (or is stopped in it itself).
fn storm(r: &mut Rng, lab: &mut Lab) -> Scenario {
    let nt = if r.chance(1, 4) { 3 } else { 2 };
    let cfg = gen::Cfg {
        tys: &[Ty::F64, Ty::F64, Ty::F32],
        methods: gen::ALL,
        max_n: if r.chance(1, 8) { 8 } else { 4 },
        max_nodes: 1500,
        plain: true,
    };
    let w = gen::world(r, &cfg);
    let mut worlds = vec![w.clone()];
    if r.chance(1, 4) {
        let mut x = w.clone();
        if r.chance(1, 2) {
            gen::fill_grid(r, &mut x, true);
        }
        gen::fill_vals(r, &mut x, true);
        worlds.push(x);
    }
    let mut sc = Scenario::new(worlds, Mode::Break);
    if r.chance(1, 8) {
        sc.slots.push(0);
    }
    let c = cost(&w);
    let big = r.chance(1, 8); // callers of large batches; mostly only their beginnings are recorded
    let limit = if big && r.chance(3, 4) { 1 << 14 } else { usize::MAX };
    let size = gen::batch(r, 3000 / c);
    let same_entry = r.chance(if big { 3 } else { 2 }, 4);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..1 + r.us(2) {
            let slot = if r.chance(3, 4) { 0 } else { r.us(sc.slots.len()) };
            let most = (2000 / c).clamp(1, 80);
            let m = if big && r.chance(3, 4) { if r.chance(1, 2) { size } else { gen::batch(r, 3000 / c) } } else if r.chance(1, 4) { 1 + r.us(most) } else { 1 + r.us(most.min(5)) };
            let mut op = eval(r, &w, slot, m, true);
            if same_entry {
                if let (Some(Op::Eval { entry: e0, .. }), Op::Eval { entry, .. }) = (sc.threads.first().and_then(|t: &Vec<Op>| t.first()), &mut op) {
                    *entry = *e0;
                }
            }
            if r.chance(1, 25) {
                if let Op::Eval { obs: Obs::List(c), .. } = &mut op {
                    let (d, k) = (r.us(c.len()), r.us(m));
                    c[d][k] = B(gen::bad_coord(r, w.ty));
                }
            }
            ops.push(op);
        }
        sc.threads.push(ops);
    }
    // the instructions of every call
    let traces: Vec<Vec<Vec<(u64, u32)>>> = sc
        .threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|op| match op {
                    Op::Eval { slot, entry, atol, .. } => trace(&sc.worlds[sc.slots[*slot]], *entry, obs_of(op, &sc.worlds), *atol, limit),
                    _ => vec![],
                })
                .collect()
        })
        .collect();
    lab.cov.add("instructions at which storms can stop a call", traces.iter().flatten().map(|t| t.len() as u64).sum());
    let len = traces[0].iter().map(|t| t.len()).sum::<usize>().max(1);
    sc.rounds = (len * (1 + r.us(3))).clamp(50, if lab.thorough { 3000 } else { 1200 }) as u64;
    let sweep = r.chance(1, 2);
    let deep = r.chance(1, 4); // both callers are stopped
    let off = r.us(len);
    let mut done = vec![0u64; nt];
    let mut sw = 0;
    for i in 0..sc.rounds * sc.threads[0].len() as u64 {
        let ta = &traces[0][i as usize % sc.threads[0].len()];
        if ta.is_empty() {
            continue;
        }
        let b = 1 + (i as usize) % (nt - 1);
        let ib = done[b];
        if ib >= sc.rounds * sc.threads[b].len() as u64 {
            break;
        }
        done[b] += 1;
        let pick = |r: &mut Rng, t: &[(u64, u32)], sw: Option<usize>| {
            let (a, n) = t[sw.unwrap_or(r.us(t.len())) % t.len()];
            let occ = if n > 1 && r.chance(1, 3) { 1 + r.us(n.min(6) as usize) as u32 } else { 1 };
            (a, occ)
        };
        let (a, occ) = pick(r, ta, if sweep { Some(off + sw) } else { None });
        sw += 1;
        sc.pauses.push((0, i, a, occ, b as u8));
        let tb = &traces[b][ib as usize % sc.threads[b].len()];
        if deep && !tb.is_empty() {
            let (a, occ) = pick(r, tb, None);
            sc.pauses.push((b as u8, ib, a, occ, 0));
            sc.pauses.push((0, i, sched::ENDOP, 1, b as u8));
        }
        sc.pauses.push((b as u8, ib, sched::ENDOP, 1, 0));
    }
    sc
}
fn gen_c01(r: &mut Rng, lab: &mut Lab) -> Scenario {
    if lab.trap && r.chance(1, 3) {
        return storm(r, lab);
    }
    let mut sc = concurrent(r, lab, 3, 16);
    let total = total_steps(&sc, lab);
    sc.first = r.us(sc.threads.len()) as u8;
    sc.switches = gen::switches(r, sc.threads.len(), total);
    sc.max_steps = total * 20 + 100_000;
    sc
}
fn gen_c04(r: &mut Rng, lab: &mut Lab) -> Scenario {
    if lab.trap && r.chance(1, 3) {
        return storm(r, lab);
    }
    let mut sc = concurrent(r, lab, 3, 8);
    let total = total_steps(&sc, lab);
    let nt = sc.threads.len();
    sc.first = r.us(nt) as u8;
    sc.switches = gen::switches(r, nt, total);
    let dead = if nt > 4 && r.chance(1, 2) { nt - 1 } else { 1 + r.us(nt - 1) };
    let mut ts: Vec<usize> = (0..nt).collect();
    for i in 0..dead {
        let j = i + r.us(nt - i);
        ts.swap(i, j);
        let t = ts[i];
        let k = r.us(sc.threads[t].len());
        let s = solo_of(&sc, &sc.threads[t][k].clone(), lab).map_or(10, |x| x.steps).max(1);
        sc.stalls.push((t as u8, k as u64, 1 + r.below(s)));
    }
    sc.flags |= SYSCALLS;
    sc.max_steps = total * 20 + 100_000;
    sc
}

fn check_concurrent(sc: &Scenario, lab: &mut Lab, stalls: bool) -> Verdict {
    let mut base = vec![];
    for (t, th) in sc.threads.iter().enumerate() {
        for (k, op) in th.iter().enumerate() {
            match solo_of(sc, op, lab) {
                Ok(b) if b.status == PANIC => return bad(format!("thread {t} call {k}: panics even alone ({})", describe(&sc.worlds[0], op))),
                Ok(b) => base.push(b),
                Err(e) => return bad(format!("thread {t} call {k} made alone: {e}")),
            }
        }
    }
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} while {} callers ran interleaved", sc.threads.len())),
    };
    lab.cov.add("steps (simulated time)", m.steps);
    lab.cov.add("forced hand-overs", m.switches);
    lab.cov.add("callers stalled for ever", m.stalls);
    lab.cov.add("callers stopped at one instruction while another made a whole call", m.pauses);
    lab.cov.add(
        match sc.mode {
            Mode::Trap => "runs scheduled per machine instruction",
            Mode::Break => "storms (hand-overs at breakpoints)",
            _ => "runs scheduled per arithmetic operation",
        },
        1,
    );
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    if m.deadlock != 0 {
        return bad("callers wait for ever behind a stalled or descheduled one");
    }
    if m.blocks != 0 {
        return bad("a call slept waiting for another caller");
    }
    if stalls && m.spins != 0 {
        return bad("a call never gets on while another caller is stopped inside a call");
    }
    if m.syscalls != 0 {
        return bad("a call made a blocking system call");
    }
    let mut b = base.iter();
    for (t, th) in sc.threads.iter().enumerate() {
        let stalled = sc.stalls.iter().find(|s| s.0 as usize == t).map(|s| s.1 as usize);
        for (k, op) in th.iter().enumerate() {
            let base = b.next().unwrap();
            let got = &res[t][k];
            let w = match op {
                Op::Eval { slot, .. } => &sc.worlds[sc.slots[*slot]],
                _ => unreachable!(),
            };
            if let Some(s) = stalled {
                if m.stalls > 0 && k >= s && got.status == UNFINISHED {
                    continue;
                }
            }
            if let Some(d) = differ(got, base, w.ty) {
                return bad(format!("thread {t} call {k} ({}): {d} when made alone", describe(w, op)));
            }
            if got.extra != 0 {
                return bad(format!("thread {t} call {k} ({}), round {}: another result than in the rounds before", describe(w, op), got.extra / th.len() as u64));
            }
            if stalls && sc.mode != Mode::Break && got.steps > 8 * base.steps + 2000 {
                return bad(format!("thread {t} call {k} ({}): {} steps instead of {} alone", describe(w, op), got.steps, base.steps));
            }
            lab.cov.add("calls compared bit for bit", sc.rounds.max(1));
        }
    }
    lab.cov.states.insert(m.trace);
    let nt = if sc.mode == Mode::Break { m.pauses > 1 } else if stalls { m.stalls > 0 && m.switches > 0 } else { m.switches > 1 };
    Verdict { violation: None, nontrivial: nt, sig: mix(m.trace, m.steps) }
}

// ---------------------------------------------------------------- C19: calls inside calls

/// The first thread makes the same calls over and over and is interrupted at chosen instructions, where
/// a handler makes a call of its own on the same stack; handlers may be interrupted by others.
fn gen_c19(r: &mut Rng, lab: &mut Lab) -> Scenario {
    let cfg = gen::Cfg {
        tys: &[Ty::F64, Ty::F64, Ty::F32],
        methods: gen::ALL,
        max_n: if r.chance(1, 8) { 8 } else { 4 },
        max_nodes: 1500,
        plain: true,
    };
    let w = gen::world(r, &cfg);
    let mut worlds = vec![w.clone()];
    if r.chance(1, 3) {
        let mut x = w.clone();
        if r.chance(1, 2) {
            gen::fill_grid(r, &mut x, true);
        }
        gen::fill_vals(r, &mut x, true);
        worlds.push(x);
    }
    if r.chance(1, 6) {
        worlds.push(gen::world(r, &cfg));
    }
    let mut sc = Scenario::new(worlds, Mode::Break);
    sc.flags |= HANDLERS;
    if r.chance(1, 6) {
        sc.slots.push(0);
    }
    let nh = *r.pick(&[1, 1, 1, 2, 3]);
    let big = r.chance(1, 8);
    let limit = if big && r.chance(3, 4) { 1 << 14 } else { usize::MAX };
    let size = gen::batch(r, 3000 / cost(&sc.worlds[0]));
    let same_entry = r.chance(if big { 3 } else { 2 }, 4);
    for t in 0..1 + nh {
        let mut ops = vec![];
        for _ in 0..1 + r.us(2) {
            let slot = if r.chance(3, 4) { 0 } else { r.us(sc.slots.len()) };
            let w = sc.worlds[sc.slots[slot]].clone();
            let c = cost(&w);
            let most = (2000 / c).clamp(1, 80);
            let m = if big && r.chance(3, 4) { if r.chance(1, 2) { size } else { gen::batch(r, 3000 / c) } } else if r.chance(1, 4) { 1 + r.us(most) } else { 1 + r.us(most.min(5)) };
            // handlers do not allocate
            let mut op = eval(r, &w, slot, m, t == 0);
            let first = sc.threads.first().and_then(|t: &Vec<Op>| t.first()).cloned();
            if let (true, Some(Op::Eval { entry: e0, slot: s0, .. }), Op::Eval { entry, .. }) = (same_entry && t > 0, first, &mut op) {
                if sc.worlds[sc.slots[s0]].method == w.method && sc.worlds[sc.slots[s0]].n() == w.n() && !matches!(e0, Entry::Alloc | Entry::RecAlloc) {
                    *entry = e0;
                }
            }
            if r.chance(1, 20) {
                if let Op::Eval { obs: Obs::List(c), .. } = &mut op {
                    let (d, k) = (r.us(c.len()), r.us(m));
                    c[d][k] = B(gen::bad_coord(r, w.ty));
                }
            }
            ops.push(op);
        }
        sc.threads.push(ops);
    }
    let traces: Vec<Vec<Vec<(u64, u32)>>> = sc
        .threads
        .iter()
        .map(|t| {
            t.iter()
                .map(|op| match op {
                    Op::Eval { slot, entry, atol, .. } => trace(&sc.worlds[sc.slots[*slot]], *entry, obs_of(op, &sc.worlds), *atol, limit),
                    _ => vec![],
                })
                .collect()
        })
        .collect();
    lab.cov.add("instructions at which calls can be interrupted", traces[0].iter().map(|t| t.len() as u64).sum());
    let len = traces[0].iter().map(|t| t.len()).sum::<usize>().max(1);
    sc.rounds = (len * (1 + r.us(3))).clamp(50, if lab.thorough { 3000 } else { 1200 }) as u64;
    let sweep = r.chance(1, 2);
    let deep = nh > 1 && r.chance(1, 2);
    let off = r.us(len);
    let mut entered = vec![0u64; 1 + nh];
    let pick = |r: &mut Rng, t: &[(u64, u32)], sw: Option<usize>| {
        let (a, n) = t[sw.unwrap_or(r.us(t.len())) % t.len()];
        let occ = if n > 1 && r.chance(1, 3) { 1 + r.us(n.min(6) as usize) as u32 } else { 1 };
        (a, occ)
    };
    for i in 0..sc.rounds * sc.threads[0].len() as u64 {
        let ta = &traces[0][i as usize % sc.threads[0].len()];
        if ta.is_empty() {
            continue;
        }
        for again in 0..if r.chance(1, 5) { 2 } else { 1 } {
            let h = 1 + r.us(if deep { nh - 1 } else { nh });
            let (a, occ) = pick(r, ta, if sweep && again == 0 { Some(off + i as usize) } else { None });
            sc.pauses.push((0, i, a, occ, sched::NEST | h as u8));
            let k = entered[h];
            entered[h] += 1;
            let th = &traces[h][k as usize % sc.threads[h].len()];
            if deep && !th.is_empty() && r.chance(1, 2) {
                let h2 = h + 1 + r.us(nh - h);
                let (a, occ) = pick(r, th, None);
                sc.pauses.push((h as u8, k, a, occ, sched::NEST | h2 as u8));
                entered[h2] += 1;
            }
        }
    }
    sc
}
fn check_c19(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let mut base = vec![];
    for (t, th) in sc.threads.iter().enumerate() {
        for (k, op) in th.iter().enumerate() {
            match solo_of(sc, op, lab) {
                Ok(b) if b.status == PANIC => return bad(format!("call {k} of {}: panics even alone", if t == 0 { "the program".into() } else { format!("handler {t}") })),
                Ok(b) => base.push(b),
                Err(e) => return bad(format!("call {k} made alone: {e}")),
            }
        }
    }
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} (calls made inside an interrupted call)")),
    };
    lab.cov.add("steps (simulated time)", m.steps);
    lab.cov.add("calls made inside an interrupted call", m.pauses);
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    if m.deadlock != 0 || m.blocks != 0 {
        return bad("a call made inside an interrupted call waits for it");
    }
    let mut b = base.iter();
    let mut inside = 0;
    for (t, th) in sc.threads.iter().enumerate() {
        for (k, op) in th.iter().enumerate() {
            let base = b.next().unwrap();
            let got = &res[t][k];
            let Op::Eval { slot, .. } = op else { continue };
            let w = &sc.worlds[sc.slots[*slot]];
            if t > 0 && got.status == UNFINISHED {
                continue; // never entered
            }
            inside += (t > 0) as u64;
            let who = format!("{} call {k} ({})", if t == 0 { "interrupted".into() } else { format!("handler {t}") }, describe(w, op));
            if let Some(d) = differ(got, base, w.ty) {
                return bad(format!("{who}: {d} when made alone"));
            }
            if got.extra != 0 {
                return bad(format!("{who}, repetition {}: another result than before", got.extra / th.len() as u64));
            }
            lab.cov.add("calls compared bit for bit", if t == 0 { sc.rounds.max(1) } else { 1 });
        }
    }
    lab.cov.states.insert(m.trace);
    let h = sc.pauses.iter().take(64).fold(m.trace, |h, p| mix(h, p.2 ^ p.1));
    Verdict { violation: None, nontrivial: inside > 0 && m.pauses > 1, sig: mix(h, m.steps) }
}

// ---------------------------------------------------------------- C02: histories

fn gen_c02(r: &mut Rng, lab: &mut Lab) -> Scenario {
    let ns = 1 + r.us(3);
    let big = r.chance(1, 20);
    let cfg = gen::Cfg {
        tys: &[Ty::F64, Ty::F64, Ty::F32],
        methods: gen::ALL,
        max_n: if r.chance(1, 5) { 8 } else { 4 },
        max_nodes: if big { 60_000 } else { 3000 },
        plain: r.chance(3, 4),
    };
    let mut worlds: Vec<World> = (0..ns).map(|_| gen::world(r, &cfg)).collect();
    let mut slots: Vec<usize> = (0..ns).collect();
    if r.chance(1, 5) {
        slots.push(0);
    }
    let mut cur = slots.clone();
    let mut ops: Vec<Op> = vec![];
    let most = if r.chance(1, 3) { 28 } else { 8 };
    let nops = 3 + r.us(most);
    // at most one long batch or repetition per run
    let mut long = r.chance(1, 8);
    let mut many = r.chance(1, 15);
    for _ in 0..nops {
        let slot = r.us(slots.len());
        let w = worlds[cur[slot]].clone();
        let c = cost(&w);
        match r.us(20) {
            0..=2 => {
                // the table is updated or replaced
                let nw = match r.us(6) {
                    5 => {
                        // something the library refuses, often where an accepted table just was
                        let mut x = w.clone();
                        gen::spoil(r, &mut x);
                        x
                    }
                    0 | 1 => {
                        let mut x = w.clone();
                        gen::fill_vals(r, &mut x, cfg.plain);
                        x
                    }
                    2 => {
                        let mut x = w.clone();
                        gen::fill_grid(r, &mut x, cfg.plain);
                        x
                    }
                    3 => {
                        let mut x = w.clone();
                        for _ in 0..1 + r.us(3) {
                            let i = r.us(x.vals.len());
                            x.vals[i] = B(refm::round(x.ty, x.vals[i].0 + 1.0 + r.f()));
                        }
                        if !x.method.one_dim() && r.chance(1, 3) {
                            x.linearize = !x.linearize;
                        }
                        x
                    }
                    _ => {
                        let tys = [w.ty];
                        gen::world(r, &gen::Cfg { tys: &tys, methods: gen::ALL, max_n: 3, max_nodes: 300, plain: true })
                    }
                };
                worlds.push(nw);
                cur[slot] = worlds.len() - 1;
                ops.push(Op::Update { slot, world: worlds.len() - 1 });
            }
            3 if !ops.is_empty() => {
                // the same call again
                let k = r.us(ops.len());
                if let Op::Eval { slot: s, obs: Obs::List(c), .. } = &ops[k] {
                    if c.len() == worlds[cur[*s]].n() {
                        let o = ops[k].clone();
                        let ok = match &o {
                            Op::Eval { entry, .. } => all_entries(worlds[cur[*s]].method, worlds[cur[*s]].n(), true).contains(entry),
                            _ => false,
                        };
                        if ok {
                            ops.push(o);
                        }
                    }
                }
            }
            4 => {
                // a call that fails, alone or in the middle of a batch
                let m = 1 + r.us(5);
                let mut op = eval(r, &w, slot, m, true);
                if let Op::Eval { obs: Obs::List(c), .. } = &mut op {
                    let d = r.us(c.len());
                    if r.chance(1, 3) {
                        c[d].pop();
                    } else {
                        let k = r.us(m);
                        c[d][k] = B(gen::bad_coord(r, w.ty));
                    }
                }
                ops.push(op);
            }
            _ => {
                let mut op;
                if long && c <= 256 {
                    long = false;
                    let count = *r.pick(&[257, 300, 513, 1025, 1500, 4097, 5000, 70_000usize]);
                    let count = count.min(300_000 / c);
                    op = eval(r, &w, slot, 1, true);
                    if let Op::Eval { obs, .. } = &mut op {
                        *obs = Obs::Gen { world: cur[slot], seed: r.u64() >> 12, count };
                    }
                } else {
                    let m = if c > 1000 { 1 + r.us(3) } else if r.chance(1, 8) { 20 + r.us(60) } else { 1 + r.us(8) };
                    op = eval(r, &w, slot, m, true);
                    if many && c <= 64 && m < 4 {
                        many = false;
                        if let Op::Eval { rep, .. } = &mut op {
                            *rep = *r.pick(&[100, 300, 1100, 5000, 70_000]);
                            *rep = (*rep).min(400_000 / c as u32);
                        }
                    }
                }
                if let Op::Eval { worker, .. } = &mut op {
                    *worker = r.chance(1, 7);
                }
                ops.push(op);
            }
        }
    }
    let mut sc = Scenario::new(worlds, Mode::Direct);
    sc.slots = slots;
    sc.threads = vec![ops];
    let _ = lab;
    sc
}

/// Points at which the result of this evaluation is compared with the reference model.
fn refcheck(w: &World, cols: &[Vec<B>], out: &[u64], lab: &mut Lab) -> Option<String> {
    let md = refm::Model::new(w)?;
    let budget = (400_000 / cost(w)).max(1);
    let stride = out.len().div_ceil(budget).max(1);
    for k in (0..out.len()).step_by(stride) {
        let x: Vec<f64> = cols.iter().map(|c| refm::round(w.ty, c[k].0)).collect();
        if let Some(rf) = refm::reference(&md, &x) {
            lab.cov.add("points compared with the reference model", 1);
            let got = val(w.ty, out[k]);
            if !rf.accepts(got) && !refm::accepts_neighbour(&md, &x, got) {
                return Some(format!("point {k} {x:?}: got {got:e}, the documented method gives {}", rf.show()));
            }
        }
    }
    None
}

fn check_c02(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(e),
    };
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    let mut cur = sc.slots.clone();
    let mut evals = 0;
    let mut sig = 1;
    for (k, op) in sc.threads[0].iter().enumerate() {
        match op {
            Op::Update { slot, world } => {
                cur[*slot] = *world;
                lab.cov.add("tables replaced or updated between calls", 1);
            }
            Op::Eval { slot, entry, atol, rep, worker, .. } => {
                evals += 1;
                let w = &sc.worlds[cur[*slot]];
                let cols = obs_of(op, &sc.worlds);
                let got = &res[0][k];
                lab.cov.add("points evaluated (simulated time)", got.out.len() as u64 * *rep as u64);
                lab.cov.add("calls on worker threads", *worker as u64);
                lab.cov.add("failing calls in histories", (got.status == ERR) as u64);
                let who = format!("call {k} ({})", describe(w, op));
                if got.status == PANIC {
                    return bad(format!("{who}: panic"));
                }
                let base = match lab.solo(w, *entry, &cols, *atol, Mode::Direct) {
                    Ok(b) => b,
                    Err(e) => return bad(format!("{who} made first: {e}")),
                };
                if let Some(d) = differ(got, &base, w.ty) {
                    return bad(format!("{who}: {d} as the first call of a process"));
                }
                if got.extra != 0 {
                    return bad(format!("{who}: repetition {} of the same call gives another result", got.extra));
                }
                sig = mix(sig, got.out.iter().fold(got.status, |h, x| mix(h, *x)));
                if matches!(entry, Entry::Bounds | Entry::RecBounds) || !even(&cols) || got.out.is_empty() {
                    continue;
                }
                // single points, each the first and only one of a pristine process
                let n = got.out.len();
                let mut rr = Rng::new(mix(n as u64, k as u64 + 77));
                let ks: Vec<usize> = if n <= 4 { (0..n).collect() } else { (0..4).map(|i| if i == 0 { n - 1 } else { rr.us(n) }).collect() };
                for j in ks {
                    let one = match lab.solo(w, *entry, &point(&cols, j), *atol, Mode::Direct) {
                        Ok(b) => b,
                        Err(e) => return bad(format!("{who} point {j} alone: {e}")),
                    };
                    if got.status == OK && (one.status != OK || one.out[0] != got.out[j]) {
                        return bad(format!(
                            "{who} point {j} {}: {:e} in the batch, {} {:e} as the only point",
                            show_point(&cols, j), val(w.ty, got.out[j]), one.what(), val(w.ty, one.out[0])
                        ));
                    }
                }
                if got.status == OK {
                    if let Some(e) = refcheck(w, &cols, &got.out, lab) {
                        return bad(format!("{who}: {e}"));
                    }
                }
            }
            _ => {}
        }
    }
    lab.cov.states.insert(sig);
    Verdict { violation: None, nontrivial: evals >= 2, sig }
}

// ---------------------------------------------------------------- C03: interrupted evaluations

fn gen_c03(r: &mut Rng, lab: &mut Lab) -> Scenario {
    let kind = if lab.trap { r.us(8) } else { 3 + r.us(5) };
    let (mode, tys): (Mode, &[Ty]) = match kind {
        0..=2 => (Mode::Trap, &[Ty::F64, Ty::F64, Ty::F32]),
        3..=6 => (Mode::Ops, &[Ty::Sim]),
        _ => (Mode::Direct, &[Ty::F64, Ty::F32, Ty::Sim]),
    };
    let cfg = gen::Cfg { tys, methods: gen::ALL, max_n: if r.chance(1, 8) { 5 } else { 3 }, max_nodes: 400, plain: true };
    let w = gen::world(r, &cfg);
    let c = cost(&w);
    let m = if r.chance(1, 40) {
        gen::batch(r, if mode == Mode::Trap { 2000 } else { 8000 } / c)
    } else if c > 200 {
        1 + r.us(2)
    } else {
        2 + r.us(6)
    };
    let mut sc = Scenario::new(vec![w.clone()], mode);
    let victim = eval(r, &w, 0, m, true);
    let other = |r: &mut Rng| {
        let m = 1 + r.us(if c > 64 { 1 } else { 4 });
        eval(r, &w, 0, m, true)
    };
    let steps = |op: &Op, sc: &Scenario, lab: &mut Lab| solo_of(sc, op, lab).map_or(10, |x| x.steps).max(1);
    match kind {
        0..=2 => {
            let mut b = vec![];
            for _ in 0..r.us(2) {
                b.push(other(r));
            }
            b.push(victim.clone());
            b.push(other(r));
            let s = steps(&victim, &sc, lab);
            // usually one caller stops for ever, now and then a crowd of them one after another
            let dead = if r.chance(1, 10) { *r.pick(&[2, 3, 5, 8, 9, 16, 17, 30]) } else { 1 };
            for t in 0..dead {
                sc.stalls.push((t as u8, 0, 1 + r.below(s)));
                sc.threads.push(vec![victim.clone()]);
            }
            sc.threads.push(b);
        }
        3..=6 => {
            let nt = 1 + r.us(2);
            for t in 0..nt {
                let mut v = vec![];
                let at = r.us(2);
                if at == 1 {
                    v.push(other(r));
                }
                v.push(victim.clone());
                v.push(other(r));
                v.push(victim.clone());
                let s = steps(&victim, &sc, lab);
                if nt == 1 && r.chance(1, 6) {
                    // one failure after another before the undisturbed retries
                    let many = *r.pick(&[2, 3, 5, 9, 17, 33, 65]);
                    for k in 0..many {
                        v.insert(at, victim.clone());
                        let k = (at + k) as u64;
                        if r.chance(3, 4) {
                            sc.panics.push((t as u8, k, 1 + r.below(s)));
                        } else {
                            sc.casts.push((t as u8, k, 1 + r.below((m * w.n()) as u64)));
                        }
                    }
                } else if r.chance(3, 4) {
                    sc.panics.push((t as u8, at as u64, 1 + r.below(s)));
                } else {
                    sc.casts.push((t as u8, at as u64, 1 + r.below((m * w.n()) as u64)));
                }
                sc.threads.push(v);
            }
            if nt > 1 {
                let total = total_steps(&sc, lab);
                sc.switches = gen::switches(r, nt, total);
            }
        }
        _ => {
            // a point that cannot be evaluated in the middle of the batch
            let mut v = vec![];
            for _ in 0..1 + r.us(3) {
                let mut op = victim.clone();
                if let Op::Eval { obs: Obs::List(c), entry, .. } = &mut op {
                    *entry = *r.pick(&all_entries(w.method, w.n(), true));
                    let (d, k) = (r.us(c.len()), r.us(m));
                    c[d][k] = B(gen::bad_coord(r, w.ty));
                }
                v.push(op);
                v.push(other(r));
            }
            v.push(victim);
            sc.threads = vec![v];
        }
    }
    sc
}
/// The value of every point of a large batch that can be evaluated, from lone evaluations of parts
/// of it that succeed as a whole.
fn lone_points(w: &World, entry: Entry, cols: &[Vec<B>], atol: B, lab: &mut Lab) -> Result<Vec<Option<u64>>, String> {
    let m = cols.first().map_or(0, |c| c.len());
    let mut v = vec![None; m];
    let mut todo = vec![(0, m)];
    while let Some((a, b)) = todo.pop() {
        let part: Vec<Vec<B>> = cols.iter().map(|c| c[a..b].to_vec()).collect();
        let res = lab.solo(w, entry, &part, atol, Mode::Direct)?;
        if res.status == OK {
            for (j, x) in res.out.iter().enumerate() {
                v[a + j] = Some(*x);
            }
        } else if b - a > 1 {
            todo.extend([(a, (a + b) / 2), ((a + b) / 2, b)]);
        }
    }
    Ok(v)
}
fn check_c03(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let w = &sc.worlds[0];
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} after an interrupted evaluation")),
    };
    lab.cov.add("steps (simulated time)", m.steps);
    lab.cov.add("threads stopped inside a call", m.stalls);
    lab.cov.add("panics injected into the arithmetic", m.panics);
    lab.cov.add("failed conversions injected", m.casts);
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    if m.deadlock != 0 || m.blocks != 0 {
        return bad("a later caller waits for the interrupted one");
    }
    let mut partial = 0;
    let mut fired = m.stalls + m.panics + m.casts;
    for (t, th) in sc.threads.iter().enumerate() {
        for (k, op) in th.iter().enumerate() {
            let Op::Eval { entry, atol, .. } = op else { continue };
            let got = &res[t][k];
            let who = format!("thread {t} call {k} ({})", describe(w, op));
            let cols = obs_of(op, &sc.worlds);
            let faulted = sc.stalls.iter().chain(&sc.panics).chain(&sc.casts).any(|f| f.0 as usize == t && f.1 as usize == k);
            if got.status == PANIC {
                return bad(format!("{who}: panic of its own"));
            }
            let base = match lab.solo(w, *entry, &cols, *atol, Mode::Direct) {
                Ok(b) => b,
                Err(e) => return bad(format!("{who} alone: {e}")),
            };
            if !faulted {
                if let Some(d) = differ(got, &base, w.ty) {
                    return bad(format!("{who}: {d} without the earlier interruption"));
                }
            }
            if !faulted && got.status == OK {
                continue;
            }
            if got.status == ERR {
                fired += 1;
            }
            // every element: previous contents or the right value for its own point
            if matches!(entry, Entry::Bounds | Entry::RecBounds) {
                for (d, f) in got.flags.iter().enumerate() {
                    if *f != 0 && base.status == OK && *f != base.flags[d] {
                        return bad(format!("{who}: flag {d} is wrong after the call stopped early"));
                    }
                }
                continue;
            }
            let large = got.out.len() > 12;
            let lone = if large && got.out.iter().enumerate().any(|(j, x)| *x != sentinel_bits(w.ty, j)) {
                match lone_points(w, *entry, &cols, *atol, lab) {
                    Ok(v) => v,
                    Err(e) => return bad(format!("{who} in parts: {e}")),
                }
            } else {
                vec![]
            };
            let mut torn = false;
            for j in 0..got.out.len() {
                let old = sentinel_bits(w.ty, j);
                if got.out[j] == old {
                    if got.status == OK {
                        return bad(format!("{who}: reported success without writing element {j}"));
                    }
                    continue;
                }
                let one = if large {
                    lone[j]
                } else {
                    match lab.solo(w, *entry, &point(&cols, j), *atol, Mode::Direct) {
                        Ok(b) => (b.status == OK).then(|| b.out[0]),
                        Err(e) => return bad(format!("{who} point {j} alone: {e}")),
                    }
                };
                partial += 1;
                if got.status == UNFINISHED && sc.mode == Mode::Trap && one != Some(got.out[j]) {
                    // a thread stopped in the middle of a bytewise copy may leave one element half copied
                    let bytes = if w.ty == Ty::F32 { 4 } else { 8 };
                    let half = one.is_some_and(|x| (0..bytes).all(|b| [x, old].iter().any(|y| (y ^ got.out[j]) >> (8 * b) & 255 == 0)));
                    if half && !torn {
                        torn = true;
                        continue;
                    }
                }
                if one != Some(got.out[j]) {
                    return bad(format!(
                        "{who}: stopped early ({}), element {j} holds {:e} ({:x}), neither its old contents nor the right value {}",
                        got.what(), val(w.ty, got.out[j]), got.out[j],
                        if let Some(x) = one { format!("{:e}", val(w.ty, x)) } else { "(that point cannot be evaluated)".into() }
                    ));
                }
            }
        }
    }
    lab.cov.add("elements already written at the interruption, verified", partial);
    let sig = res.iter().flatten().fold(m.trace, |h, x| x.out.iter().fold(mix(h, x.status), |h, y| mix(h, *y)));
    lab.cov.states.insert(sig);
    Verdict { violation: None, nontrivial: fired > 0, sig }
}

// ---------------------------------------------------------------- C05: corruption

fn random_poke(r: &mut Rng, w: &World, slot: usize, values_only: bool) -> (Op, Op) {
    let area = if values_only || r.chance(2, 5) {
        Area::Val
    } else if w.regular {
        if r.chance(1, 2) { Area::Start } else { Area::Step }
    } else {
        Area::Grid(r.us(w.n()))
    };
    let v: &[B] = match area {
        Area::Val => &w.vals,
        Area::Start => &w.starts,
        Area::Step => &w.steps,
        Area::Grid(d) => &w.grids[d],
    };
    let mut i = r.us(v.len());
    if r.chance(1, 4) {
        i = *r.pick(&[0, v.len() - 1]);
    }
    let old = v[i];
    let new = match r.us(4) {
        0 => B(refm::round(w.ty, v[r.us(v.len())].0)), // another element's bits
        1 => {
            // one flipped bit
            if w.ty == Ty::F32 {
                B(f32::from_bits((old.0 as f32).to_bits() ^ (1 << r.us(32))) as f64)
            } else {
                B(f64::from_bits(old.0.to_bits() ^ (1 << r.us(64))))
            }
        }
        _ => B(gen::any_bits(r, w.ty)),
    };
    (Op::Poke { slot, area, i, v: new }, Op::Poke { slot, area, i, v: old })
}
fn gen_c05(r: &mut Rng, _lab: &mut Lab) -> Scenario {
    let ops_mode = r.chance(1, 2);
    let cfg = gen::Cfg {
        tys: if ops_mode { &[Ty::Sim] } else { &[Ty::F64, Ty::F32] },
        methods: gen::ALL,
        max_n: if r.chance(1, 6) { 6 } else { 3 },
        max_nodes: if r.chance(1, 10) { 5000 } else { 500 },
        plain: r.chance(1, 2),
    };
    let w = gen::world(r, &cfg);
    let mut sc = Scenario::new(vec![w.clone()], if ops_mode { Mode::Ops } else { Mode::Direct });
    let c = cost(&w);
    let pts = |r: &mut Rng| if r.chance(1, 120) { gen::batch(r, 3000 / c) } else { 1 + r.us(if c > 200 { 2 } else { 5 }) };
    let mut v = vec![];
    if r.chance(1, 2) {
        let m = pts(r);
        v.push(eval(r, &w, 0, m, true));
    }
    for _ in 0..1 + r.us(3) {
        let mut undo = vec![];
        for _ in 0..r.us(4) {
            let (a, b) = random_poke(r, &w, 0, false);
            v.push(a);
            undo.push(b);
        }
        if r.chance(1, 2) {
            v.push(Op::Rebuild { slot: 0 });
        }
        for _ in 0..1 + r.us(3) {
            let m = pts(r);
            let mut op = eval(r, &w, 0, m, true);
            if let Op::Eval { obs: Obs::List(c), atol, .. } = &mut op {
                for _ in 0..r.us(3) {
                    let (d, k) = (r.us(c.len()), r.us(m));
                    c[d][k] = B(gen::any_bits(r, w.ty));
                }
                if r.chance(1, 10) {
                    *atol = B(gen::any_bits(r, w.ty));
                }
            }
            v.push(op);
        }
        undo.reverse();
        v.extend(undo);
        if r.chance(1, 2) {
            v.push(Op::Rebuild { slot: 0 });
        }
        let m = pts(r);
        v.push(eval(r, &w, 0, m, true));
    }
    v.push(Op::Rebuild { slot: 0 });
    let m = pts(r);
    v.push(eval(r, &w, 0, m, true));
    sc.threads = vec![v];
    sc
}
fn apply(w: &mut World, area: Area, i: usize, v: B) {
    match area {
        Area::Val => w.vals[i] = v,
        Area::Start => w.starts[i] = v,
        Area::Step => w.steps[i] = v,
        Area::Grid(d) => w.grids[d][i] = v,
    }
}
fn same_bits(a: &World, b: &World) -> bool {
    let h = |w: &World| serde_json::to_string(w).unwrap();
    h(a) == h(b)
}
fn check_c05(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let clean = &sc.worlds[0];
    // step bound per evaluation, from an undamaged evaluation of the same size
    let mut bounds = HashMap::new();
    let mut total = 100_000u64;
    if sc.mode == Mode::Ops {
        for (k, op) in sc.threads[0].iter().enumerate() {
            if let Op::Eval { entry, atol, .. } = op {
                let cols = obs_of(op, &sc.worlds);
                let m = cols.first().map_or(0, |c| c.len());
                let cc = gen::points(&mut Rng::new(9), clean, m);
                let s = lab.solo(clean, *entry, &cc, *atol, Mode::Ops).map_or(0, |r| r.steps);
                let b = 8 * s + 2000 + m as u64 * 64 * clean.dims.iter().sum::<usize>() as u64;
                bounds.insert(k, b);
                total += b;
            }
        }
    }
    let mut sc2 = sc.clone();
    sc2.max_steps = total * 4;
    let (m, res) = match run(&sc2) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} on corrupted data")),
    };
    lab.cov.add("steps (simulated time)", m.steps);
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    let mut now = clean.clone();
    let mut built = clean.clone();
    let mut pokes = 0;
    for (k, op) in sc.threads[0].iter().enumerate() {
        match op {
            Op::Poke { area, i, v, .. } => {
                apply(&mut now, *area, *i, *v);
                pokes += 1;
                lab.cov.add(&format!("stored elements corrupted: {}", match area { Area::Val => "values", Area::Grid(_) => "grid coordinates", Area::Start => "starts", Area::Step => "steps" }), 1);
            }
            Op::Rebuild { .. } => built = now.clone(),
            Op::Eval { entry, atol, .. } => {
                let got = &res[0][k];
                let who = format!("call {k} ({})", describe(clean, op));
                if got.status == PANIC {
                    return bad(format!("{who}: panic on corrupted data"));
                }
                if let Some(b) = bounds.get(&k) {
                    if got.steps > *b {
                        return bad(format!("{who}: {} steps on corrupted data (bound {b})", got.steps));
                    }
                }
                let cols = obs_of(op, &sc.worlds);
                lab.cov.add("corrupted coordinates in requests", cols.iter().flatten().filter(|b| !b.0.is_finite() || b.0.abs() > 1e15).count() as u64);
                if same_bits(&now, clean) && same_bits(&built, clean) {
                    let base = match lab.solo(clean, *entry, &cols, *atol, Mode::Direct) {
                        Ok(b) => b,
                        Err(e) => return bad(format!("{who} alone: {e}")),
                    };
                    if let Some(d) = differ(got, &base, clean.ty) {
                        return bad(format!("{who}, data restored: {d} without the corruption"));
                    }
                    lab.cov.add("results compared after restoration", 1);
                }
            }
            _ => {}
        }
    }
    let sig = res.iter().flatten().fold(m.steps, |h, x| x.out.iter().fold(mix(h, x.status), |h, y| mix(h, *y)));
    lab.cov.states.insert(sig);
    Verdict { violation: None, nontrivial: pokes > 0, sig }
}

// ---------------------------------------------------------------- C06: locality of damage

fn gen_c06(r: &mut Rng, _lab: &mut Lab) -> Scenario {
    let cfg = gen::Cfg { tys: &[Ty::F64, Ty::F64, Ty::F32], methods: gen::ALL, max_n: if r.chance(1, 5) { 6 } else { 3 }, max_nodes: 4000, plain: true };
    let mut w = gen::world(r, &cfg);
    if w.n() <= 3 && r.chance(1, 2) {
        // room for nodes outside the stencil
        for d in 0..w.n() {
            w.dims[d] = gen::min_dim(w.method) + 2 + r.us(6);
        }
        gen::fill_grid(r, &mut w, true);
        gen::fill_vals(r, &mut w, true);
    }
    let c = cost(&w);
    let mut sc = Scenario::new(vec![w.clone()], Mode::Direct);
    let mut v = vec![];
    for _ in 0..1 + r.us(3) {
        let m = if r.chance(1, 60) { gen::batch(r, 10_000 / c) } else { 1 + r.us(if c > 300 { 3 } else { 10 }) };
        let base = eval(r, &w, 0, m, true);
        if r.chance(1, 3) {
            v.push(base.clone());
        }
        let mut undo = vec![];
        if r.chance(4, 5) {
            let dense = r.chance(1, 4);
            for _ in 0..(if dense { w.vals.len().min(200) } else { 1 + r.us(6) }) {
                let (a, b) = random_poke(r, &w, 0, true);
                v.push(a);
                undo.push(b);
            }
            if r.chance(1, 3) {
                v.push(Op::Rebuild { slot: 0 });
            }
        }
        for _ in 0..1 + r.us(2) {
            let mut op = base.clone();
            if r.chance(1, 2) {
                if let Op::Eval { obs: Obs::List(c), .. } = &mut op {
                    for _ in 0..1 + r.us(2) {
                        let (d, k) = (r.us(c.len()), r.us(m));
                        c[d][k] = B(gen::any_bits(r, w.ty));
                    }
                }
            }
            v.push(op);
        }
        v.extend(undo.into_iter().rev());
        if r.chance(1, 2) {
            v.push(base);
        }
    }
    sc.threads = vec![v];
    sc
}
fn check_c06(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let clean = &sc.worlds[0];
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} on damaged values")),
    };
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    let Some(md) = refm::Model::new(clean) else { return Verdict { violation: None, nontrivial: false, sig: 0 } };
    let n = clean.n();
    let mut now = clean.clone();
    // nodes that differ from the clean table now or at the last construction
    let mut ever: HashSet<usize> = HashSet::new();
    let mut nontrivial = false;
    let mut sig = 3;
    for (k, op) in sc.threads[0].iter().enumerate() {
        match op {
            Op::Poke { area: Area::Val, i, v, .. } => {
                apply(&mut now, Area::Val, *i, *v);
                lab.cov.add("stored values damaged or restored", 1);
            }
            Op::Rebuild { .. } => {
                ever = (0..now.vals.len()).filter(|i| now.vals[*i].0.to_bits() != clean.vals[*i].0.to_bits()).collect();
            }
            Op::Eval { entry, atol, .. } => {
                let got = &res[0][k];
                let who = format!("call {k} ({})", describe(clean, op));
                if got.status == PANIC {
                    return bad(format!("{who}: panic on damaged data"));
                }
                let cols = obs_of(op, &sc.worlds);
                if matches!(entry, Entry::Bounds | Entry::RecBounds) || got.status == NOINTERP {
                    continue;
                }
                let mut damaged: Vec<usize> = (0..now.vals.len()).filter(|i| now.vals[*i].0.to_bits() != clean.vals[*i].0.to_bits()).collect();
                damaged.extend(ever.iter());
                let coords: Vec<Vec<usize>> = damaged
                    .iter()
                    .map(|i| {
                        let mut rest = *i;
                        let mut c = vec![0; n];
                        for d in (0..n).rev() {
                            c[d] = rest % clean.dims[d];
                            rest /= clean.dims[d];
                        }
                        c
                    })
                    .collect();
                let len = got.out.len();
                for j in 0..len {
                    // of a large batch: both ends, and points all over it
                    if len > 40 && j >= 8 && j + 8 < len && mix(j as u64, k as u64) % (len as u64 / 24) != 0 {
                        continue;
                    }
                    let x: Vec<f64> = cols.iter().map(|c| refm::round(clean.ty, c[j].0)).collect();
                    let Some(st) = refm::stencil(&md, &x) else { continue };
                    let hit = coords.iter().any(|c| (0..n).all(|d| st[d].contains(&c[d])));
                    if hit {
                        lab.cov.add("points inside the damage (not compared)", 1);
                        continue;
                    }
                    let one = match lab.solo(clean, *entry, &point(&cols, j), *atol, Mode::Direct) {
                        Ok(b) => b,
                        Err(e) => return bad(format!("{who} point {j} alone: {e}")),
                    };
                    let old = got.out[j] == sentinel_bits(clean.ty, j);
                    if old && got.status == ERR {
                        continue;
                    }
                    if one.status == OK && one.out[0] != got.out[j] {
                        return bad(format!(
                            "{who} point {j} {x:?}: {:e} instead of {:e}, although no node it depends on is damaged",
                            val(clean.ty, got.out[j]), val(clean.ty, one.out[0])
                        ));
                    }
                    if one.status == OK && got.status != OK && !even_or_bad(clean, &cols, lab, *entry, *atol) {
                        return bad(format!("{who}: fails although every point can be evaluated"));
                    }
                    if !damaged.is_empty() || cols.iter().flatten().any(|b| !b.0.is_finite()) {
                        nontrivial = true;
                        lab.cov.add("points outside the damage compared bit for bit", 1);
                    }
                    sig = mix(sig, got.out[j] ^ k as u64);
                }
            }
            _ => {}
        }
    }
    lab.cov.states.insert(sig);
    Verdict { violation: None, nontrivial, sig }
}
/// Does some point of the request fail on its own (on clean data)?
fn even_or_bad(w: &World, cols: &[Vec<B>], lab: &mut Lab, entry: Entry, atol: B) -> bool {
    (0..cols[0].len()).any(|j| lab.solo(w, entry, &point(cols, j), atol, Mode::Direct).map_or(true, |r| r.status != OK))
}

// ---------------------------------------------------------------- C07: failing allocator

fn gen_c07(r: &mut Rng, _lab: &mut Lab) -> Scenario {
    let cfg = gen::Cfg { tys: &[Ty::F64, Ty::F32, Ty::Sim], methods: gen::ALL, max_n: if r.chance(1, 4) { 8 } else { 4 }, max_nodes: 3000, plain: r.chance(1, 2) };
    let nw = 1 + r.us(2);
    let worlds: Vec<World> = (0..nw).map(|_| gen::world(r, &cfg)).collect();
    let mut sc = Scenario::new(worlds, Mode::Direct);
    let mut v = vec![];
    for _ in 0..3 + r.us(8) {
        let slot = r.us(nw);
        let w = sc.worlds[slot].clone();
        if r.chance(1, 4) {
            v.push(Op::Rebuild { slot });
            continue;
        }
        let c = cost(&w);
        let m = if c > 1000 { 1 } else if r.chance(1, 10) { (30_000 / c).min(2000) } else { r.us(8) };
        let mut op = eval(r, &w, slot, m, false);
        if let Op::Eval { obs, .. } = &mut op {
            if m > 50 {
                *obs = Obs::Gen { world: slot, seed: r.u64() >> 12, count: m };
            } else if let Obs::List(cc) = obs {
                let d = r.us(cc.len());
                if m > 0 && r.chance(1, 5) {
                    let k = r.us(m);
                    cc[d][k] = B(gen::bad_coord(r, w.ty));
                } else if m > 0 && r.chance(1, 6) {
                    cc[d].pop();
                }
            }
        }
        v.push(op);
    }
    sc.threads = vec![v];
    sc.flags = ALLOC_FAIL;
    sc
}
fn check_c07(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => {
            let a = crate::shm::flags() & crate::shm::F_ALLOC != 0;
            return bad(if a { format!("a call asked for heap memory; refused, it failed: {e}") } else { e });
        }
    };
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    if m.allocs != 0 {
        return bad(format!("{} heap requests during construction or evaluation", m.allocs));
    }
    let mut sig = 5;
    for (k, op) in sc.threads[0].iter().enumerate() {
        lab.cov.add("constructions with every allocation refused", matches!(op, Op::Rebuild { .. }) as u64);
        let Op::Eval { slot, entry, atol, .. } = op else { continue };
        let w = &sc.worlds[sc.slots[*slot]];
        let cols = obs_of(op, &sc.worlds);
        let got = &res[0][k];
        let base = match lab.solo(w, *entry, &cols, *atol, Mode::Direct) {
            Ok(b) => b,
            Err(e) => return bad(format!("call {k} ({}) alone: {e}", describe(w, op))),
        };
        if got.status == PANIC {
            return bad(format!("call {k} ({}): panic", describe(w, op)));
        }
        if let Some(d) = differ(got, &base, w.ty) {
            return bad(format!("call {k} ({}): {d} with a working allocator", describe(w, op)));
        }
        lab.cov.add("calls made with every allocation refused", 1);
        lab.cov.add("of those, refused requests and failing points", (got.status == ERR) as u64);
        lab.cov.add("points evaluated (simulated time)", got.out.len() as u64);
        lab.cov.states.insert(mix(strhash(&format!("{:?}{:?}{:?}{}{}{:?}", w.method, w.ty, entry, w.n(), w.regular, w.linearize)), got.status));
        sig = got.out.iter().fold(mix(sig, got.status), |h, x| mix(h, *x));
    }
    Verdict { violation: None, nontrivial: true, sig }
}

// ---------------------------------------------------------------- C08: stack

fn gen_c08(r: &mut Rng, _lab: &mut Lab) -> Scenario {
    let cfg = gen::Cfg {
        tys: &[Ty::F64, Ty::F32, Ty::Sim],
        methods: gen::ALL,
        max_n: if r.chance(1, 3) { 8 } else { 4 },
        max_nodes: *r.pick(&[500, 5000, 100_000]),
        plain: r.chance(1, 2),
    };
    let mut big = gen::world(r, &cfg);
    if big.n() <= 2 && r.chance(1, 2) {
        // really large along one dimension
        big.dims = vec![gen::min_dim(big.method); big.n()];
        let d = r.us(big.n());
        big.dims[d] = *r.pick(&[100, 1000, 20_000]);
        gen::fill_grid(r, &mut big, true);
        gen::fill_vals(r, &mut big, true);
    }
    let mut small = big.clone();
    small.dims = vec![gen::min_dim(big.method) + if big.method == Method::Cubic { 1 } else { 0 }; big.n()];
    if small.dims.iter().product::<usize>() > 20_000 {
        small.dims = vec![gen::min_dim(big.method); big.n()];
    }
    gen::fill_grid(r, &mut small, true);
    gen::fill_vals(r, &mut small, true);
    let es = all_entries(big.method, big.n(), false);
    let entry = *r.pick(&es);
    let c = cost(&big);
    let mk = |slot, obs| Op::Eval { slot, entry, obs, atol: B(0.0), rep: 1, worker: false };
    let mut v = vec![];
    // calibration: smallest grid, points in every zone, failing points, refused shapes
    let n = big.n();
    for k in 0..12 {
        let m = if c > 1000 { 6 } else { 40 };
        let mut p = gen::points(r, &small, m);
        if k >= 9 {
            let (d, j) = (r.us(n), m - 1);
            p[d][j] = B(*[f64::NAN, f64::INFINITY, 1e300].get(k - 9).unwrap());
        }
        v.push(mk(0, Obs::List(p)));
    }
    let mut p = gen::points(r, &small, 2);
    p[n - 1].pop();
    v.push(mk(0, Obs::List(p)));
    let calib = v.len();
    for _ in 0..3 {
        let m = match r.us(3) {
            0 => 1 + r.us(4),
            1 => (100_000 / c).clamp(2, 20_000),
            _ => (3000 / c).clamp(2, 3000),
        };
        v.push(mk(1, Obs::Gen { world: 1, seed: r.u64() >> 12, count: m }));
    }
    let m = (3000 / c).clamp(2, 100);
    let mut p = gen::points(r, &big, m);
    let (d, k) = (r.us(n), r.us(m));
    p[d][k] = B(gen::bad_coord(r, big.ty));
    v.push(mk(1, Obs::List(p)));
    let mut sc = Scenario::new(vec![small, big], Mode::Direct);
    sc.threads = vec![v];
    sc.flags = STACK;
    sc.aux = serde_json::json!({ "calibration": calib });
    sc
}
fn check_c08(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let calib = sc.aux["calibration"].as_u64().unwrap_or(0) as usize;
    let (m, res) = match run(sc) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return bad(format!("{e} (stack of {} bytes)", crate::stack::SIZE)),
    };
    if let Some(e) = universal(&m) {
        return bad(e);
    }
    let evals: Vec<(usize, &Res)> = res[0].iter().enumerate().collect();
    let need = evals.iter().filter(|(k, _)| *k < calib).map(|(_, r)| r.extra).max().unwrap_or(0);
    let mut sig = need;
    for (k, r) in &evals {
        if r.status == PANIC {
            return bad(format!("call {k}: panic"));
        }
        if *k < calib {
            continue;
        }
        let w = &sc.worlds[1];
        lab.cov.add("stack measurements", 1);
        lab.cov.add("points evaluated (simulated time)", r.out.len() as u64);
        if calib > 0 && r.extra > need + 512 {
            return bad(format!(
                "call {k} ({}, {} points): {} bytes of stack; the smallest grid needs {need}",
                describe(w, &sc.threads[0][*k]), r.out.len(), r.extra
            ));
        }
        sig = mix(sig, mix(r.extra, r.out.len() as u64 ^ w.vals.len() as u64));
    }
    let w = &sc.worlds[1];
    lab.cov.states.insert(strhash(&format!("{:?}{:?}{}{}{}", w.method, w.ty, w.n(), w.regular, need)));
    let e = lab.cov.n.entry("peak stack of a call, bytes (maximum)".into()).or_default();
    *e = (*e).max(need);
    Verdict { violation: None, nontrivial: calib > 0, sig }
}
