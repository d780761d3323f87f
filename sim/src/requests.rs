//! C10: requests whose parts were lost, duplicated, truncated, padded or given impossible sizes.
use crate::gbuf::GBuf;
use crate::gen;
use crate::machine::*;
use crate::num::{Num, SimF64};
use crate::props::{differ, Lab, Verdict};
use crate::rng::{mix, Rng};
use crate::world::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Req {
    method: Method,
    ty: Ty,
    regular: bool,
    lin: bool,
    entry: Entry,
    dims: Vec<usize>,
    starts: Vec<B>,
    steps: Vec<B>,
    grids: Vec<Vec<B>>,
    vals: Vec<B>,
    obs: Vec<Vec<B>>,
    out: usize,
    flags: usize,
    /// the undamaged request
    intact: bool,
    damage: Vec<String>,
}
impl Req {
    fn of(w: &World, entry: Entry, obs: Vec<Vec<B>>) -> Req {
        Req {
            method: w.method, ty: w.ty, regular: w.regular, lin: w.linearize, entry,
            dims: w.dims.clone(), starts: w.starts.clone(), steps: w.steps.clone(), grids: w.grids.clone(), vals: w.vals.clone(),
            out: obs.first().map_or(0, |c| c.len()), flags: w.n(), obs, intact: true, damage: vec![],
        }
    }
    fn n(&self) -> usize {
        if self.regular { self.dims.len() } else { self.grids.len() }
    }
    fn sizes(&self) -> Vec<usize> {
        if self.regular { self.dims.clone() } else { self.grids.iter().map(|g| g.len()).collect() }
    }
    fn bounds(&self) -> bool {
        matches!(self.entry, Entry::Bounds | Entry::RecBounds)
    }
    /// Must the request be refused?
    fn wrong(&self) -> bool {
        let n = self.n();
        let s = self.sizes();
        if self.method.one_dim() {
            let len_ok = if self.regular { true } else { self.grids[0].len() == self.vals.len() };
            return !(len_ok && self.vals.len() >= 2 && self.out_ok());
        }
        let parts = !self.regular || (self.starts.len() == n && self.steps.len() == n);
        if self.bounds() {
            return !(parts && self.obs.len() == n && self.flags == n && s.iter().all(|x| *x > 0));
        }
        let min = gen::min_dim(self.method);
        let max = if self.method == Method::Nearest { 6 } else { 8 };
        let prod = s.iter().try_fold(1usize, |a, x| a.checked_mul(*x));
        !(parts && n >= 1 && n <= max && s.iter().all(|x| *x >= min) && prod == Some(self.vals.len()) && self.coords() == n && self.out_ok())
    }
    /// Coordinates per point: single points are made of the columns that have a first element.
    fn coords(&self) -> usize {
        match self.entry {
            Entry::Each | Entry::RecEach => self.obs.iter().filter(|c| !c.is_empty()).count(),
            _ => self.obs.len(),
        }
    }
    fn out_ok(&self) -> bool {
        match self.entry {
            Entry::Alloc | Entry::RecAlloc => self.obs.iter().all(|c| c.len() == self.obs[0].len()),
            Entry::Each | Entry::RecEach => !self.method.one_dim() || !self.obs[0].is_empty(),
            _ => self.obs.iter().all(|c| c.len() == self.out),
        }
    }
    /// Entry points whose types cannot even express the damage are replaced by ones that can.
    fn normalise(&mut self) {
        if self.method.one_dim() || matches!(self.entry, Entry::Free | Entry::RecFree | Entry::Alloc | Entry::RecAlloc | Entry::Bounds | Entry::RecBounds) {
            return;
        }
        let n = self.n();
        let max = if self.method == Method::Cubic { 4 } else { 6 };
        let fits = n >= 1 && n <= max && self.obs.len() == n && (!self.regular || (self.starts.len() == n && self.steps.len() == n));
        let flat = matches!(self.entry, Entry::Batch | Entry::Each);
        if flat && !fits {
            self.entry = if self.method == Method::Nearest {
                Entry::Free
            } else if self.entry == Entry::Batch {
                Entry::RecBatch
            } else {
                Entry::RecEach
            };
        }
        if self.entry == Entry::Each && self.obs.iter().any(|c| c.is_empty()) {
            self.entry = if self.method == Method::Nearest { Entry::Free } else { Entry::RecEach };
        }
    }
}

fn fire<T: Num>(q: &Req) -> ([u64; 4], Vec<u64>, Vec<u64>, bool) {
    let h = q.out % 2 == 0;
    let c = |v: &[B]| GBuf::new(&v.iter().map(|b| T::from64(b.0)).collect::<Vec<T>>(), h);
    let dims = GBuf::new(&q.dims, h);
    let (starts, steps, vals) = (c(&q.starts), c(&q.steps), c(&q.vals));
    let grids: Vec<GBuf<T>> = q.grids.iter().map(|g| c(g)).collect();
    let gref: Vec<&'static [T]> = grids.iter().map(|g| g.stat()).collect();
    let gref = GBuf::new(&gref, h);
    let obs: Vec<GBuf<T>> = q.obs.iter().map(|g| c(g)).collect();
    let oref: Vec<&'static [T]> = obs.iter().map(|g| g.stat()).collect();
    let oref = GBuf::new(&oref, h);
    let mut out = GBuf::new(&(0..q.out).map(|i| T::from64(sentinel(i))).collect::<Vec<T>>(), h);
    // distinct pattern, so that any write shows
    let mut flags = GBuf::new(&vec![true; q.flags], h);
    let p = Parts { dims: dims.stat(), starts: starts.stat(), steps: steps.stat(), grids: gref.stat(), vals: vals.stat() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> R<()> {
        let (mut flat, mut rec) = (None, None);
        match q.entry {
            Entry::Batch | Entry::Each => flat = Some(build(q.method, q.regular, q.lin, false, &p)?),
            Entry::RecBatch | Entry::RecEach => rec = Some(build(q.method, q.regular, q.lin, true, &p)?),
            Entry::Alloc if q.method.one_dim() => flat = Some(build(q.method, q.regular, q.lin, false, &p)?),
            _ => {}
        }
        match q.entry {
            Entry::Each | Entry::RecEach => {
                let x: Vec<T> = oref.iter().filter_map(|c| c.first().copied()).collect();
                if q.method.one_dim() && x.is_empty() {
                    return Err("SIM: there is no point");
                }
                let v = flat.as_ref().or(rec.as_ref()).unwrap().one_any(&x)?;
                if let Some(o) = out.first_mut() {
                    *o = v;
                }
                Ok(())
            }
            Entry::Alloc | Entry::RecAlloc => {
                let l = oref.first().map_or(0, |c| c.len());
                let mut tmp = vec![T::zero(); l];
                call(q.method, q.regular, q.lin, q.entry, &p, flat.as_ref(), rec.as_ref(), oref.stat(), T::zero(), &mut tmp, &mut flags)?;
                if out.len() == l {
                    out.copy_from_slice(&tmp);
                }
                Ok(())
            }
            _ => call(q.method, q.regular, q.lin, q.entry, &p, flat.as_ref(), rec.as_ref(), oref.stat(), T::zero(), &mut out, &mut flags),
        }
    }));
    let (s, e) = match r {
        Ok(Ok(())) => (OK, 0),
        Ok(Err(e)) => (ERR, strhash(e)),
        Err(_) => (PANIC, 0),
    };
    let clean = out.clean() && flags.clean();
    let o: Vec<u64> = out.iter().map(|v| v.bits()).collect();
    let f: Vec<u64> = flags.iter().map(|v| *v as u64).collect();
    ([s, e, 0, 0], o, f, clean)
}
fn exec(reqs: &[Req]) -> Outcome {
    run_with(&[reqs.len()], || {
        std::panic::set_hook(Box::new(|_| {}));
        let all: Vec<_> = reqs
            .iter()
            .map(|q| match q.ty {
                Ty::F64 => fire::<f64>(q),
                Ty::F32 => fire::<f32>(q),
                Ty::Sim => fire::<SimF64>(q),
            })
            .collect();
        push_meta(&Meta { changed: if all.iter().all(|a| a.3) { 0 } else { 4 }, ..Default::default() });
        for a in &all {
            push_res(a.0, &a.1, &a.2);
        }
    })
}

fn inverse(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}
fn resize<X: Clone>(r: &mut Rng, v: &mut Vec<X>, fill: X) -> String {
    match r.us(6) {
        0 => {
            v.pop();
            "truncated by one".into()
        }
        1 => {
            let x = v.last().cloned().unwrap_or(fill);
            v.push(x);
            "padded by one".into()
        }
        2 => {
            v.clear();
            "lost".into()
        }
        3 => {
            let c = v.clone();
            v.extend(c);
            "duplicated".into()
        }
        4 => {
            let k = r.us(v.len() + 1);
            v.truncate(k);
            format!("truncated to {k}")
        }
        _ => {
            for _ in 0..1 + r.us(8) {
                v.push(fill.clone());
            }
            "padded".into()
        }
    }
}
fn damage(r: &mut Rng, q: &mut Req, other: &Req) {
    q.intact = false;
    let one = q.method.one_dim();
    for _ in 0..1 + r.us(2) {
        let what = match r.us(if one { 5 } else { 12 }) {
            0 => format!("values {}", resize(r, &mut q.vals, B(1.0))),
            1 => {
                if let Some(c) = q.obs.first().map(|_| r.us(q.obs.len())) {
                    format!("observation column {c} {}", resize(r, &mut q.obs[c], B(0.5)))
                } else {
                    continue;
                }
            }
            2 => {
                q.out = *r.pick(&[0, q.out + 1, q.out.saturating_sub(1), q.out * 2, q.out + 7]);
                format!("output of {}", q.out)
            }
            3 => {
                q.vals = other.vals.clone();
                "values of another request".into()
            }
            4 => {
                if q.grids.is_empty() {
                    continue;
                }
                let d = r.us(q.grids.len());
                let l = B(q.grids[d].last().map_or(0.0, |b| b.0) + 1.0);
                format!("grid {d} {}", resize(r, &mut q.grids[d], l))
            }
            5 => format!("observation columns {}", { let c = q.obs.first().cloned().unwrap_or_default(); resize(r, &mut q.obs, c) }),
            6 => {
                q.flags = *r.pick(&[0, 1, q.flags + 1, q.flags.saturating_sub(1), q.flags * 2, 9]);
                format!("flags of {}", q.flags)
            }
            7 if q.regular => {
                if r.chance(1, 2) {
                    format!("starts {}", resize(r, &mut q.starts, B(0.0)))
                } else {
                    format!("steps {}", resize(r, &mut q.steps, B(1.0)))
                }
            }
            8 if q.regular => format!("dims {}", resize(r, &mut q.dims, 2)),
            7 | 8 => {
                let g = q.grids.first().cloned().unwrap_or_default();
                format!("grids {}", resize(r, &mut q.grids, g))
            }
            9 if q.regular && !q.dims.is_empty() => {
                // impossible or wrapping sizes
                let d = r.us(q.dims.len());
                match r.us(5) {
                    0 => q.dims[d] = 0,
                    1 => q.dims[d] = 1,
                    2 => q.dims[d] = *r.pick(&[usize::MAX, usize::MAX / 2 + 1, 1 << 32, 1 << 62, isize::MAX as usize]),
                    3 if q.dims.len() >= 2 => {
                        // product wraps round to the number of values
                        let a = (r.u64() | 1).max(5);
                        let rest: u64 = q.dims.iter().enumerate().filter(|(i, _)| *i != d && *i != (d + 1) % q.dims.len()).fold(1u64, |p, (_, x)| p.wrapping_mul(*x as u64));
                        let e = (d + 1) % q.dims.len();
                        let (_, odd) = (0, rest % 2 == 1);
                        if odd {
                            q.dims[d] = a as usize;
                            q.dims[e] = (q.vals.len() as u64).wrapping_mul(inverse(a.wrapping_mul(rest))) as usize;
                        } else {
                            q.dims[d] = 1 << 63;
                            q.dims[e] = 4;
                            q.vals.clear();
                        }
                    }
                    _ => {
                        for x in q.dims.iter_mut() {
                            *x = 1 << 32;
                        }
                        q.vals.clear();
                    }
                }
                format!("dims {:?}", q.dims)
            }
            10 => {
                // more dimensions than supported, consistently
                let k = if r.chance(1, 2) { 9 } else { 7 + r.us(4) };
                let min = gen::min_dim(q.method);
                if q.regular {
                    q.dims = vec![min; k];
                    q.starts = vec![B(0.0); k];
                    q.steps = vec![B(1.0); k];
                } else {
                    q.grids = vec![(0..min).map(|i| B(i as f64)).collect(); k];
                }
                let total = min.pow(k as u32);
                q.vals = vec![B(0.0); if total <= 300_000 { total } else { 16 }];
                let c = q.obs.first().cloned().unwrap_or_else(|| vec![B(0.5)]);
                q.obs = vec![c; k];
                q.flags = k;
                format!("{k} dimensions")
            }
            11 => {
                // no dimensions at all, or one grid shorter than allowed, consistently
                if r.chance(1, 2) {
                    q.dims.clear();
                    q.starts.clear();
                    q.steps.clear();
                    q.grids.clear();
                    q.obs.clear();
                    q.vals.truncate(if r.chance(1, 2) { 1 } else { 0 });
                    q.flags = 0;
                    "no dimensions".to_string()
                } else {
                    let n = q.n();
                    if n == 0 {
                        continue;
                    }
                    let d = r.us(n);
                    let k = r.us(gen::min_dim(q.method));
                    if q.regular {
                        q.dims[d] = k;
                    } else {
                        q.grids[d].truncate(k);
                    }
                    let total = q.sizes().iter().try_fold(1usize, |a, x| a.checked_mul(*x)).unwrap_or(3);
                    q.vals = vec![B(1.0); total.min(100_000)];
                    format!("dimension {d} of size {k}")
                }
            }
            _ => continue,
        };
        q.damage.push(what);
    }
    q.normalise();
}

pub fn generate(r: &mut Rng) -> Scenario {
    let cfg = gen::Cfg { tys: &[Ty::F64, Ty::F64, Ty::F32, Ty::Sim], methods: gen::ALL, max_n: if r.chance(1, 5) { 8 } else { 3 }, max_nodes: 1000, plain: true };
    let w = gen::world(r, &cfg);
    let w2 = gen::world(r, &cfg);
    let mk = |r: &mut Rng, w: &World| {
        let mut es = entries(w.method, w.n());
        es.push(Entry::Alloc);
        if matches!(w.method, Method::Linear | Method::Cubic) {
            es.push(Entry::RecAlloc);
        }
        let e = *r.pick(&es);
        let c = if w.n() > 4 { 4096 } else { 4usize.pow(w.n() as u32) };
        let m = if r.chance(1, 25) { crate::gen::batch(r, 8000 / c) } else { 1 + r.us(4) };
        Req::of(w, e, gen::points(r, w, if matches!(e, Entry::Each | Entry::RecEach) { 1 } else { m }))
    };
    let other = mk(r, &w2);
    let mut reqs = vec![];
    for _ in 0..3 + r.us(5) {
        let base = mk(r, &w);
        if r.chance(1, 4) {
            reqs.push(base.clone());
        }
        for _ in 0..1 + r.us(3) {
            let mut q = base.clone();
            damage(r, &mut q, &other);
            reqs.push(q);
        }
        reqs.push(base);
    }
    let mut sc = Scenario::new(vec![], Mode::Direct);
    sc.aux = serde_json::json!({ "reqs": reqs });
    sc
}

pub fn check(sc: &Scenario, lab: &mut Lab) -> Verdict {
    let v = |s: String| Verdict { violation: Some(s), nontrivial: true, sig: 0 };
    let reqs: Vec<Req> = serde_json::from_value(sc.aux["reqs"].clone()).unwrap();
    let (m, res) = match exec(&reqs) {
        Outcome::Done(m, r) => (m, r),
        Outcome::Dead(e) => {
            // which one?
            for q in &reqs {
                if let Outcome::Dead(e) = exec(std::slice::from_ref(q)) {
                    return v(format!("{} {:?}: {e} on a request with {:?}", if q.regular { "regular" } else { "rectilinear" }, q.entry, q.damage));
                }
            }
            return v(format!("{e} on damaged requests"));
        }
    };
    if m.changed != 0 {
        return v("a call wrote outside its output".into());
    }
    let mut sig = 13;
    let mut refused = 0;
    for (k, q) in reqs.iter().enumerate() {
        let got = &res[0][k];
        let who = format!("request {k} ({:?} {} {:?} {:?}, {})", q.method, if q.regular { "regular" } else { "rectilinear" }, q.ty, q.entry, if q.intact { "intact".into() } else { q.damage.join(", ") });
        if got.status == PANIC {
            return v(format!("{who}: panic"));
        }
        lab.cov.add("requests sent", 1);
        if q.intact {
            let base = match exec(std::slice::from_ref(q)) {
                Outcome::Done(_, mut r) => r.remove(0).remove(0),
                Outcome::Dead(e) => return v(format!("{who} sent first: {e}")),
            };
            if base.status != OK {
                return v(format!("{who}: refused although nothing is wrong with it"));
            }
            if let Some(d) = differ(got, &base, q.ty) {
                return v(format!("{who}: {d} without the damaged requests before it"));
            }
            lab.cov.add("intact requests compared", 1);
        } else if q.wrong() {
            if got.status == OK {
                return v(format!("{who}: accepted"));
            }
            if !q.bounds() && got.out.iter().enumerate().any(|(i, x)| *x != sentinel_bits(q.ty, i)) {
                return v(format!("{who}: refused, but it wrote to the output"));
            }
            if q.bounds() && got.flags.iter().any(|f| *f != 1) {
                return v(format!("{who}: refused, but it wrote to the flags"));
            }
            refused += 1;
            lab.cov.add("damaged requests refused", 1);
            for d in &q.damage {
                let kind: String = d.split_whitespace().filter(|w| !w.chars().any(|c| c.is_ascii_digit() || c == '[' || c == ']')).collect::<Vec<_>>().join(" ");
                lab.cov.add(&format!("damage: {kind}"), 1);
            }
        }
        sig = mix(sig, mix(got.status, got.err));
        lab.cov.states.insert(mix(strhash(&format!("{:?}{:?}{:?}{}", q.method, q.entry, q.regular, q.wrong())), got.err));
    }
    Verdict { violation: None, nontrivial: refused > 0, sig: mix(sig, strhash(&sc.aux.to_string())) }
}
