//! Minimising a violating run: every part is deleted if the run still violates without it.
use crate::machine::*;
use crate::props::{check, entries_of, Lab};
use serde_json::{json, Value};
use std::time::Instant;

pub fn size(sc: &Scenario) -> Value {
    json!({
        "threads": sc.threads.len(), "operations": sc.threads.iter().map(|t| t.len()).sum::<usize>(), "switches": sc.switches.len() + sc.pauses.len(), "rounds": sc.rounds,
        "faults": sc.stalls.len() + sc.panics.len() + sc.casts.len() + sc.aux.get("faults").and_then(|f| f.as_array()).map_or(0, |f| f.len()),
        "requests": sc.aux.get("reqs").and_then(|f| f.as_array()).map_or(0, |f| f.len()),
        "points": sc.threads.iter().flatten().map(|o| match o { Op::Eval { obs, .. } => count(obs), _ => 0 }).sum::<usize>(),
    })
}
fn count(o: &Obs) -> usize {
    match o {
        Obs::List(c) => c.first().map_or(0, |x| x.len()),
        Obs::Gen { count, .. } => *count,
    }
}

fn drop_thread(sc: &Scenario, t: usize) -> Scenario {
    let mut s = sc.clone();
    s.threads.remove(t);
    let fix = |v: &mut Vec<(u8, u64, u64)>| {
        v.retain(|f| f.0 as usize != t);
        for f in v.iter_mut() {
            if f.0 as usize > t {
                f.0 -= 1;
            }
        }
    };
    fix(&mut s.stalls);
    fix(&mut s.panics);
    fix(&mut s.casts);
    let target = |p: &crate::sched::Pause| (p.4 & !crate::sched::NEST) as usize;
    s.pauses.retain(|p| p.0 as usize != t && target(p) != t);
    for p in s.pauses.iter_mut() {
        p.0 -= (p.0 as usize > t) as u8;
        p.4 -= (target(p) > t) as u8;
    }
    s.switches.retain(|x| x.1 as usize != t);
    for x in s.switches.iter_mut() {
        if x.1 as usize > t {
            x.1 -= 1;
        }
    }
    if s.first as usize >= t && s.first > 0 {
        s.first -= 1;
    }
    s
}
fn drop_op(sc: &Scenario, t: usize, k: usize) -> Option<Scenario> {
    let mut s = sc.clone();
    if let Some(c) = s.aux.get("calibration").and_then(|c| c.as_u64()) {
        if (k as u64) < c {
            return None; // the yardstick stays
        }
    }
    let len = s.threads[t].len() as u64;
    s.threads[t].remove(k);
    s.pauses.retain(|p| !(p.0 as usize == t && p.1 % len == k as u64));
    for p in s.pauses.iter_mut().filter(|p| p.0 as usize == t) {
        p.1 = p.1 / len * (len - 1) + p.1 % len - (p.1 % len > k as u64) as u64;
    }
    for v in [&mut s.stalls, &mut s.panics, &mut s.casts] {
        v.retain(|f| !(f.0 as usize == t && f.1 as usize == k));
        for f in v.iter_mut() {
            if f.0 as usize == t && f.1 as usize > k {
                f.1 -= 1;
            }
        }
    }
    if let Some(fs) = s.aux.get_mut("faults").and_then(|f| f.as_array_mut()) {
        for f in fs.iter_mut() {
            let (a, b) = (f["first"].as_u64()? as usize, f["last"].as_u64()? as usize);
            f["first"] = json!(if a > k { a - 1 } else { a });
            if b >= k {
                if b == 0 || (a == k && b == k) {
                    f["first"] = json!(1_000_000);
                    f["last"] = json!(1_000_000);
                } else {
                    f["last"] = json!(b - 1);
                }
            }
        }
    }
    Some(s)
}
/// Does every evaluation still fit the table it will meet?
fn fits(sc: &Scenario) -> bool {
    let mut cur = sc.slots.clone();
    for th in &sc.threads {
        for op in th {
            match op {
                Op::Update { slot, world } => cur[*slot] = *world,
                Op::Eval { slot, entry, obs, .. } => {
                    let w = &sc.worlds[cur[*slot]];
                    let n = match obs {
                        Obs::List(c) => c.len(),
                        Obs::Gen { world, .. } => sc.worlds[*world].n(),
                    };
                    if n != w.n() || !entries_of(w).contains(entry) {
                        return false;
                    }
                }
                Op::Poke { slot, area, i, .. } => {
                    let w = &sc.worlds[cur[*slot]];
                    let l = match area {
                        Area::Val => w.vals.len(),
                        Area::Start => w.starts.len(),
                        Area::Step => w.steps.len(),
                        Area::Grid(d) => w.grids.get(*d).map_or(0, |g| g.len()),
                    };
                    if *i >= l {
                        return false;
                    }
                }
                _ => {}
            }
        }
    }
    true
}

pub fn minimise(prop: &str, sc: &Scenario, text: &str, lab: &mut Lab, secs: f64) -> (Scenario, String, u64) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut text = text.to_string();
    let mut tries = 0;
    let mut attempt = |best: &mut Scenario, cand: Option<Scenario>| -> bool {
        let Some(c) = cand else { return false };
        if t0.elapsed().as_secs_f64() > secs || c == *best || !fits(&c) {
            return false;
        }
        tries += 1;
        lab.clear();
        if let Some(e) = check(prop, &c, lab).violation {
            *best = c;
            text = e;
            return true;
        }
        false
    };
    loop {
        let before = best.clone();
        let mut t = 0;
        while best.threads.len() > 1 && t < best.threads.len() {
            let c = drop_thread(&best, t);
            if !attempt(&mut best, Some(c)) {
                t += 1;
            }
        }
        for t in 0..best.threads.len() {
            let mut k = best.threads[t].len();
            while k > 0 {
                k -= 1;
                if best.threads[t].len() > 1 || best.threads.len() > 1 {
                    let c = drop_op(&best, t, k);
                    attempt(&mut best, c);
                }
            }
        }
        // lists: halves, then quarters, ... then single elements
        macro_rules! list {
            ($get:expr) => {{
                #[allow(clippy::redundant_closure_call)]
                let mut chunk = ($get)(&mut best).map_or(0, |v| v.len());
                while chunk > 0 {
                    let mut i = 0;
                    loop {
                        let mut c = best.clone();
                        let Some(v) = ($get)(&mut c) else { break };
                        if i >= v.len() {
                            break;
                        }
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                        if !attempt(&mut best, Some(c)) {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }};
        }
        while best.rounds > 1 {
            let mut c = best.clone();
            c.rounds /= 2;
            if !attempt(&mut best, Some(c)) {
                let mut c = best.clone();
                c.rounds -= c.rounds.div_ceil(8);
                if !attempt(&mut best, Some(c)) {
                    break;
                }
            }
        }
        let (lens, rounds) = (best.threads.iter().map(|t| t.len() as u64).collect::<Vec<_>>(), best.rounds.max(1));
        best.pauses.retain(|p| p.1 < rounds * lens[p.0 as usize]);
        for keep in 0..3 {
            // earlier rounds
            let mut c = best.clone();
            let first = c.pauses.iter().map(|p| p.1 / lens[p.0 as usize]).min().unwrap_or(0);
            if first > keep {
                for p in c.pauses.iter_mut() {
                    p.1 -= (first - keep) * lens[p.0 as usize];
                }
                c.rounds = rounds - (first - keep);
                if attempt(&mut best, Some(c)) {
                    break;
                }
            }
        }
        list!(|s: &mut Scenario| Some(unsafe { &mut *(&mut s.pauses as *mut Vec<crate::sched::Pause>) }));
        list!(|s: &mut Scenario| Some(unsafe { &mut *(&mut s.switches as *mut Vec<(u64, u8)>) }));
        list!(|s: &mut Scenario| Some(unsafe { &mut *(&mut s.stalls as *mut Vec<(u8, u64, u64)>) }));
        list!(|s: &mut Scenario| Some(unsafe { &mut *(&mut s.panics as *mut Vec<(u8, u64, u64)>) }));
        list!(|s: &mut Scenario| Some(unsafe { &mut *(&mut s.casts as *mut Vec<(u8, u64, u64)>) }));
        for key in ["reqs", "faults"] {
            list!(|s: &mut Scenario| s.aux.get_mut(key).and_then(|v| v.as_array_mut()).map(|v| unsafe { &mut *(v as *mut Vec<Value>) }));
        }
        for t in 0..best.threads.len() {
            for k in 0..best.threads[t].len() {
                if best.aux.get("calibration").and_then(|c| c.as_u64()).is_some_and(|c| (k as u64) < c) {
                    continue;
                }
                for what in 0..2 {
                    let mut c = best.clone();
                    if let Op::Eval { rep, worker, .. } = &mut c.threads[t][k] {
                        if what == 0 {
                            *rep = 1
                        } else {
                            *worker = false
                        }
                    }
                    attempt(&mut best, Some(c));
                }
                loop {
                    let mut c = best.clone();
                    if let Op::Eval { obs: Obs::Gen { count, .. }, .. } = &mut c.threads[t][k] {
                        *count /= 2;
                    }
                    if !attempt(&mut best, Some(c)) {
                        break;
                    }
                }
                let pts = |s: &Scenario| match &s.threads[t][k] {
                    Op::Eval { obs: Obs::List(c), .. } => c.iter().map(|x| x.len()).min().unwrap_or(0),
                    _ => 0,
                };
                let mut chunk = pts(&best) / 2;
                while chunk > 0 {
                    let mut i = 0;
                    while i + chunk <= pts(&best) {
                        let mut c = best.clone();
                        if let Op::Eval { obs: Obs::List(cols), .. } = &mut c.threads[t][k] {
                            for col in cols.iter_mut() {
                                col.drain(i..i + chunk);
                            }
                        }
                        if !attempt(&mut best, Some(c)) {
                            i += chunk;
                        }
                    }
                    chunk /= 2;
                }
            }
        }
        if best == before || t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    // worlds nobody uses
    (best, text, tries)
}
