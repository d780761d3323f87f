//! C09: one-dimensional interpolators over storage whose reads fail on a seeded plan.
use crate::gbuf::GBuf;
use crate::gen;
use crate::machine::*;
use crate::num::{Num, SimF64};
use crate::props::{obs_of, show_point, Lab, Verdict};
use crate::rng::{mix, Rng};
use crate::world::*;
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Extrap, Grid1D, GridSample, Interp1D, RectilinearGrid1D, RegularGrid1D};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    /// ops first..=last are affected
    first: usize,
    last: usize,
    /// fail the nth read of the operation (1-based), or every read of a location in [lo, hi]
    nth: Option<u64>,
    lo: B,
    hi: B,
    panic: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    faults: Vec<Fault>,
    /// a storage of our own instead of the library's grids underneath
    custom: bool,
}

static OPNOW: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);

struct Flaky<G> {
    inner: G,
    plan: Plan,
}
impl<T: Num, G: Grid1D<'static, T>> Grid1D<'static, T> for Flaky<G> {
    fn at(&self, loc: T) -> Result<GridSample<T>, &'static str> {
        let k = READS.fetch_add(1, SeqCst) + 1;
        let op = OPNOW.load(SeqCst) as usize;
        let x = loc.to64();
        for f in &self.plan.faults {
            if op < f.first || op > f.last {
                continue;
            }
            let hit = match f.nth {
                Some(n) => n == k,
                None => x >= f.lo.0 && x <= f.hi.0,
            };
            if hit {
                FIRED.fetch_add(1, SeqCst);
                if f.panic {
                    std::panic::resume_unwind(Box::new(crate::sched::Injected));
                }
                return Err("storage failure");
            }
        }
        self.inner.at(loc)
    }
}
/// A user's own storage: values computed on the fly on a half-unit grid over [-8, 8].
struct Own;
impl<T: Num> Grid1D<'static, T> for Own {
    fn at(&self, loc: T) -> Result<GridSample<T>, &'static str> {
        let x = loc.to64();
        if x.is_nan() {
            return Err("not a number");
        }
        let i = (x * 2.0).floor().clamp(-16.0, 15.0);
        let y = |i: f64| T::from64((i * 7.0 + 3.0) % 11.0);
        let extrap = if x < -8.0 {
            Extrap::OutsideLow
        } else if x > 8.0 {
            Extrap::OutsideHigh
        } else {
            Extrap::Inside
        };
        Ok(GridSample { x0: T::from64(i / 2.0), y0: y(i), x1: T::from64((i + 1.0) / 2.0), y1: y(i + 1.0), extrap })
    }
}

fn run_ops<T: Num, G: Grid1D<'static, T>, I: Interp1D<'static, T, G>>(i: &I, sc: &Scenario) {
    push_meta(&Meta::default());
    for (k, op) in sc.threads[0].iter().enumerate() {
        let Op::Eval { entry, .. } = op else {
            push_res([NOTEVAL, 0, 0, 0], &[], &[]);
            continue;
        };
        let cols = obs_of(op, &sc.worlds);
        let x = GBuf::new(&cols[0].iter().map(|b| T::from64(b.0)).collect::<Vec<T>>(), true);
        let out0: Vec<T> = (0..x.len()).map(|i| T::from64(sentinel(i))).collect();
        let mut out = GBuf::new(&out0, true);
        OPNOW.store(k as u64, SeqCst);
        READS.store(0, SeqCst);
        FIRED.store(0, SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), &'static str> {
            match entry {
                Entry::Each => {
                    for j in 0..x.len() {
                        out[j] = i.eval_one(x[j])?;
                    }
                    Ok(())
                }
                Entry::Alloc => {
                    let v = i.eval_alloc(&x)?;
                    if v.len() != out.len() {
                        return Err("SIM: wrong length");
                    }
                    out.copy_from_slice(&v);
                    Ok(())
                }
                _ => i.eval(&x, &mut out),
            }
        }));
        let (s, e) = match r {
            Ok(Ok(())) => (OK, 0),
            Ok(Err(e)) => (ERR, strhash(e)),
            Err(b) if b.is::<crate::sched::Injected>() => (INJECTED, 0),
            Err(_) => (PANIC, 0),
        };
        let bits: Vec<u64> = out.iter().map(|v| v.bits()).collect();
        push_res([s, e, READS.load(SeqCst), FIRED.load(SeqCst)], &bits, &[]);
    }
}
fn with_grid<T: Num, G: Grid1D<'static, T>>(g: G, sc: &Scenario, plan: Plan) {
    let f = Flaky { inner: g, plan };
    match sc.worlds[0].method {
        Method::D1HoldLast => run_ops(&LinearHoldLast1D::new(f), sc),
        Method::D1Left => run_ops(&Left1D::new(f), sc),
        Method::D1Right => run_ops(&Right1D::new(f), sc),
        Method::D1Nearest => run_ops(&Nearest1D::new(f), sc),
        _ => run_ops(&Linear1D::new(f), sc),
    }
}
fn with_type<T: Num>(sc: &Scenario, plan: Plan) {
    let t: &'static Tab<T> = Box::leak(Box::new(Tab::new(&sc.worlds[0])));
    let p = t.parts();
    if plan.custom {
        with_grid::<T, _>(Own, sc, plan)
    } else if sc.worlds[0].regular {
        with_grid(RegularGrid1D::new(p.starts[0], p.steps[0], p.vals).unwrap(), sc, plan)
    } else {
        with_grid(RectilinearGrid1D::new(p.grids[0], p.vals).unwrap(), sc, plan)
    }
}
fn exec(sc: &Scenario, plan: Plan) -> Outcome {
    run_with(&[sc.threads[0].len()], || {
        std::panic::set_hook(Box::new(|_| {}));
        match sc.worlds[0].ty {
            Ty::F64 => with_type::<f64>(sc, plan),
            Ty::F32 => with_type::<f32>(sc, plan),
            Ty::Sim => with_type::<SimF64>(sc, plan),
        }
    })
}

pub fn generate(r: &mut Rng) -> Scenario {
    let d1 = &gen::ALL[gen::ALL.len() - 5..];
    let w = gen::world(r, &gen::Cfg { tys: &[Ty::F64, Ty::F32, Ty::Sim], methods: d1, max_n: 1, max_nodes: 200, plain: true });
    let custom = r.chance(1, 3);
    let mut ops = vec![];
    for _ in 0..2 + r.us(6) {
        let m = if r.chance(1, 80) { gen::batch(r, 1500) } else { r.us(9) };
        let mut cols = gen::points(r, &w, m);
        if custom {
            for x in cols[0].iter_mut() {
                *x = B(crate::refm::round(w.ty, r.fr(-10.0, 10.0)));
            }
        }
        if !ops.is_empty() && r.chance(1, 3) {
            let k = r.us(ops.len());
            let o: Op = Op::clone(&ops[k]);
            ops.push(o);
            continue;
        }
        ops.push(Op::Eval { slot: 0, entry: *r.pick(&[Entry::Batch, Entry::Batch, Entry::Each, Entry::Alloc]), obs: Obs::List(cols), atol: B(0.0), rep: 1, worker: false });
    }
    let mut faults = vec![];
    let mut all: Vec<f64> = vec![];
    for o in &ops {
        if let Op::Eval { obs: Obs::List(c), .. } = o {
            all.extend(c[0].iter().map(|b| b.0));
        }
    }
    all.sort_by(|a, b| a.total_cmp(b));
    for _ in 0..1 + r.us(3) {
        let first = r.us(ops.len());
        let last = if r.chance(1, 2) { first } else { first + r.us(ops.len() - first) };
        let panic = r.chance(1, 6);
        if all.is_empty() || r.chance(3, 5) {
            let len = match &ops[first] {
                Op::Eval { obs: Obs::List(c), .. } => c[0].len(),
                _ => 1,
            };
            faults.push(Fault { first, last, nth: Some(1 + r.us(len.max(1)) as u64), lo: B(0.0), hi: B(0.0), panic });
        } else {
            let (a, b) = (all[r.us(all.len())], all[r.us(all.len())]);
            faults.push(Fault { first, last, nth: None, lo: B(a.min(b)), hi: B(if r.chance(1, 2) { a.min(b) } else { a.max(b) }), panic });
        }
    }
    let mut sc = Scenario::new(vec![w], Mode::Direct);
    sc.threads = vec![ops];
    sc.aux = serde_json::to_value(Plan { faults, custom }).unwrap();
    sc
}

pub fn check(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let v = |s: String| Verdict { violation: Some(s), nontrivial: true, sig: 0 };
    let plan: Plan = serde_json::from_value(sc.aux.clone()).unwrap();
    let (_, res) = match exec(sc, plan.clone()) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => return v(format!("{e} over failing storage")),
    };
    let none = Plan { faults: vec![], custom: plan.custom };
    let w = &sc.worlds[0];
    let mut sig = 11;
    let mut total = 0;
    for (k, op) in sc.threads[0].iter().enumerate() {
        let Op::Eval { entry, .. } = op else { continue };
        let got = &res[0][k];
        let cols = obs_of(op, &sc.worlds);
        let who = format!("call {k} ({:?} {} {:?} {:?})", w.method, if plan.custom { "own storage" } else if w.regular { "regular" } else { "rectilinear" }, w.ty, entry);
        total += got.extra;
        lab.cov.add("storage reads (simulated time)", got.steps);
        lab.cov.add("storage reads failed", got.extra);
        if got.status == PANIC {
            return v(format!("{who}: panic"));
        }
        // the same call, first in a pristine process, over healthy storage
        let mut one = sc.clone();
        one.threads = vec![vec![op.clone()]];
        let base = match exec(&one, none.clone()) {
            Outcome::Done(_, mut r) => r.remove(0).remove(0),
            Outcome::Dead(e) => return v(format!("{who} over healthy storage: {e}")),
        };
        if got.extra == 0 {
            if (got.status, got.err, &got.out) != (base.status, base.err, &base.out) {
                return v(format!("{who}: no read failed, yet {} {:?} instead of {} {:?}", got.what(), got.out, base.what(), base.out));
            }
        } else if got.status == OK {
            return v(format!("{who}: a storage read failed, yet the call reports success"));
        }
        for j in 0..got.out.len() {
            if got.out[j] == sentinel_bits(w.ty, j) {
                if got.status == OK {
                    return v(format!("{who}: reported success without writing element {j}"));
                }
                continue;
            }
            // the point's own value over healthy storage
            let mut p = op.clone();
            if let Op::Eval { obs, .. } = &mut p {
                *obs = Obs::List(vec![vec![cols[0][j]]]);
            }
            one.threads = vec![vec![p]];
            let b = match exec(&one, none.clone()) {
                Outcome::Done(_, mut r) => r.remove(0).remove(0),
                Outcome::Dead(e) => return v(format!("{who} point {j}: {e}")),
            };
            if b.status != OK || b.out[0] != got.out[j] {
                return v(format!("{who} point {j} {}: holds {:x}, right is {:x}", show_point(&cols, j), got.out[j], b.out[0]));
            }
            let dead = plan.faults.iter().any(|f| f.nth.is_none() && k >= f.first && k <= f.last && cols[0][j].0 >= f.lo.0 && cols[0][j].0 <= f.hi.0);
            if dead {
                return v(format!("{who} point {j}: a value although every read for it fails"));
            }
        }
        sig = got.out.iter().fold(mix(mix(sig, got.status), got.extra), |h, x| mix(h, *x));
    }
    lab.cov.states.insert(sig);
    Verdict { violation: None, nontrivial: total > 0, sig }
}
