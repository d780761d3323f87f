//! Generators: worlds, observation points, schedules.
use crate::refm::round;
use crate::rng::Rng;
use crate::world::*;

pub struct Cfg<'a> {
    pub tys: &'a [Ty],
    pub methods: &'a [Method],
    pub max_n: usize,
    pub max_nodes: usize,
    pub plain: bool, // moderate magnitudes only
}
pub const ALL: &[Method] = &[
    Method::Linear, Method::Linear, Method::Linear, Method::Cubic, Method::Cubic, Method::Cubic, Method::Nearest, Method::Nearest,
    Method::D1Linear, Method::D1HoldLast, Method::D1Left, Method::D1Right, Method::D1Nearest,
];

pub fn min_dim(m: Method) -> usize {
    if m == Method::Cubic { 4 } else { 2 }
}

pub fn world(r: &mut Rng, c: &Cfg) -> World {
    let method = *r.pick(c.methods);
    let ty = *r.pick(c.tys);
    let regular = r.chance(1, 2);
    let cap = match method {
        Method::Nearest => 6,
        Method::Linear | Method::Cubic => 8,
        _ => 1,
    }
    .min(c.max_n);
    let md = min_dim(method);
    let mut n = match r.us(10) {
        0..=2 => 1,
        3..=5 => 2,
        6..=7 => 3,
        _ => 1 + r.us(cap),
    }
    .min(cap);
    while md.pow(n as u32) > c.max_nodes {
        n -= 1;
    }
    let mut dims = vec![md; n];
    let size_style = r.us(4);
    for d in 0..n {
        let others: usize = dims.iter().enumerate().filter(|(k, _)| *k != d).map(|(_, v)| *v).product();
        let room = (c.max_nodes / others).max(md);
        let want = match size_style {
            0 => md,
            1 => md + r.us(3),
            2 => md + r.us(8),
            _ => if r.chance(1, 3) { md + r.us(40) } else { md + r.us(4) },
        };
        dims[d] = want.min(room);
    }
    if n <= 2 && r.chance(1, 12) {
        let d = r.us(n);
        let others: usize = dims.iter().enumerate().filter(|(k, _)| *k != d).map(|(_, v)| *v).product();
        dims[d] = (c.max_nodes / others).max(md);
    }
    let mut w = World { method, ty, regular, linearize: r.chance(1, 2), dims, starts: vec![], steps: vec![], grids: vec![], vals: vec![] };
    fill_grid(r, &mut w, c.plain);
    fill_vals(r, &mut w, c.plain);
    w
}

pub fn fill_grid(r: &mut Rng, w: &mut World, plain: bool) {
    let ty = w.ty;
    w.starts.clear();
    w.steps.clear();
    w.grids.clear();
    let scale = if !plain && r.chance(1, 8) {
        10f64.powi(r.range(-12, 12) as i32)
    } else {
        1.0
    };
    for d in 0..w.n() {
        let n = w.dims[d];
        let style = r.us(5);
        if w.regular {
            let (s, h) = match style {
                0 => (0.0, 1.0),
                1 => (r.range(-20, 20) as f64, *r.pick(&[0.25, 0.5, 1.0, 2.0, 4.0])),
                2 => (r.fr(-5.0, 5.0), r.fr(0.05, 3.0)),
                3 => (r.fr(-1000.0, 1000.0), r.fr(0.5, 50.0)),
                _ => (r.fr(-1.0, 1.0), 1.0 / (n as f64)),
            };
            w.starts.push(B(round(ty, s * scale)));
            w.steps.push(B(round(ty, h * scale).max(1e-30)));
        } else {
            let mut x = match style {
                0 => 0.0,
                1 => r.range(-20, 20) as f64,
                _ => r.fr(-10.0, 10.0),
            };
            let mut g = vec![];
            for i in 0..n {
                let mut v = round(ty, x * scale);
                if let Some(B(p)) = g.last() {
                    if v <= *p {
                        // keep strictly increasing after rounding
                        v = if ty == Ty::F32 { next32(*p as f32) as f64 } else { next64(*p) };
                    }
                }
                g.push(B(v));
                x = x.max(v / scale)
                    + match style {
                        0 => 1.0,
                        1 => *r.pick(&[0.5, 1.0, 2.0, 3.0]),
                        2 => r.fr(0.1, 2.0),
                        3 => 10f64.powf(r.fr(-3.0, 1.0)),
                        _ => if i % 2 == 0 { 0.01 } else { 3.0 },
                    };
            }
            w.grids.push(g);
        }
    }
}
/// Make one axis unacceptable: not increasing, not moving, or not a number.
pub fn spoil(r: &mut Rng, w: &mut World) {
    let d = r.us(w.n());
    if w.regular {
        let h = w.steps[d].0;
        w.steps[d] = B(*r.pick(&[-h, 0.0, f64::NAN]));
        return;
    }
    let g = &mut w.grids[d];
    match r.us(4) {
        0 => g.reverse(),
        1 => g.swap(0, 1),
        2 => g[1] = g[0],
        _ => {
            let i = r.us(g.len());
            g[i] = B(f64::NAN);
        }
    }
}
pub fn next64(x: f64) -> f64 {
    x.next_up()
}
pub fn next32(x: f32) -> f32 {
    x.next_up()
}

pub fn fill_vals(r: &mut Rng, w: &mut World, plain: bool) {
    let total: usize = w.dims.iter().product();
    let ty = w.ty;
    let style = r.us(6);
    let big = if plain { 1e3 } else { 10f64.powi(r.range(-9, 9) as i32) };
    let spike = r.us(total);
    w.vals = (0..total)
        .map(|i| {
            B(round(
                ty,
                match style {
                    0 => r.range(-9, 9) as f64,
                    1 => r.fr(-1.0, 1.0),
                    2 => i as f64 + 0.5,
                    3 => r.fr(-1.0, 1.0) * big,
                    4 => if i == spike { 100.0 } else { 1.0 },
                    _ => (i as f64 * 0.7).sin() + 0.01 * i as f64,
                },
            ))
        })
        .collect();
}

fn node(w: &World, d: usize, i: usize) -> f64 {
    if w.regular {
        round(w.ty, round(w.ty, w.starts[d].0) + round(w.ty, w.steps[d].0) * i as f64)
    } else {
        round(w.ty, w.grids[d][i].0)
    }
}
fn bump(ty: Ty, x: f64, k: i64) -> f64 {
    let mut x = x;
    for _ in 0..k.abs() {
        x = match (ty, k > 0) {
            (Ty::F32, true) => (x as f32).next_up() as f64,
            (Ty::F32, false) => (x as f32).next_down() as f64,
            (_, true) => x.next_up(),
            (_, false) => x.next_down(),
        };
    }
    x
}

/// One coordinate along dimension d.
pub fn coord(r: &mut Rng, w: &World, d: usize) -> f64 {
    let n = w.dims[d];
    let (lo, hi) = (node(w, d, 0), node(w, d, n - 1));
    let span = hi - lo;
    let x = match r.us(14) {
        0..=3 => r.fr(lo, hi),
        4 => node(w, d, r.us(n)),
        5 => {
            let i = r.us(n);
            let k = r.range(-2, 2);
            bump(w.ty, node(w, d, i), k)
        }
        6 => {
            let i = r.us(n - 1);
            let (a, b) = (node(w, d, i), node(w, d, i + 1));
            a + (b - a) * *r.pick(&[0.5, 0.25, 0.75, 0.125])
        }
        7 => {
            // first or last cells
            let i = *r.pick(&[0, 1.min(n - 2), n - 2, n.saturating_sub(3)]);
            r.fr(node(w, d, i), node(w, d, i + 1))
        }
        8 => lo - r.fr(0.0, 0.3) * span,
        9 => hi + r.fr(0.0, 0.3) * span,
        10 => if r.chance(1, 2) { lo - r.fr(1.0, 30.0) * span } else { hi + r.fr(1.0, 30.0) * span },
        11 => *r.pick(&[lo, hi]),
        12 => if r.chance(1, 4) { lo + r.fr(-1.0, 1.0) * 1e4 * span } else { r.fr(lo, hi) },
        _ => {
            let i = r.us(n - 1);
            r.fr(node(w, d, i), node(w, d, i + 1))
        }
    };
    round(w.ty, x)
}

/// Observation columns for `m` points.
/// The size of a large batch: about the powers of two (chunk sizes of block-wise implementations),
/// round numbers, or anything, up to `cap`.
pub fn batch(r: &mut Rng, cap: usize) -> usize {
    let cap = cap.max(1);
    let m = match r.us(3) {
        0 => *r.pick(&[100, 200, 300, 400, 500, 700, 1000, 1500, 2000, 3000, 5000, 10000]),
        1 => 1 + r.us(cap),
        _ => (1usize << (4 + r.us(10))) + r.us(3) - 1,
    };
    if m > cap { cap - r.us(cap.min(4)) } else { m }
}
pub fn points(r: &mut Rng, w: &World, m: usize) -> Vec<Vec<B>> {
    let n = w.n();
    let mut cols: Vec<Vec<B>> = vec![Vec::with_capacity(m); n];
    if m == 0 {
        return cols;
    }
    let style = r.us(7);
    let pool: Vec<Vec<f64>> = (0..n).map(|d| (0..3).map(|_| coord(r, w, d)).collect()).collect();
    let sweep = r.us(n);
    let (lo, hi) = (node(w, sweep, 0), node(w, sweep, w.dims[sweep] - 1));
    let pad = (hi - lo) * r.fr(0.0, 0.4);
    let down = r.chance(1, 2);
    for k in 0..m {
        for d in 0..n {
            let x = match style {
                0 | 1 => coord(r, w, d),
                2 => *r.pick(&pool[d]),
                3 => {
                    if d == sweep {
                        let mut f = (k as f64 + 0.5) / m as f64;
                        if down {
                            f = 1.0 - f;
                        }
                        round(w.ty, lo - pad + (hi - lo + 2.0 * pad) * f)
                    } else {
                        pool[d][0]
                    }
                }
                4 => pool[d][k % 2],
                5 => if k > 0 && r.chance(1, 2) { cols[d][k - 1].0 } else { coord(r, w, d) },
                _ => {
                    let j = r.range(-2, 2);
                    bump(w.ty, pool[d][r.us(2)], j)
                }
            };
            cols[d].push(B(x));
        }
    }
    cols
}

/// A coordinate that makes evaluation fail or is otherwise poisonous.
pub fn bad_coord(r: &mut Rng, ty: Ty) -> f64 {
    let v = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e19, -1e19, 1e38, f64::MIN_POSITIVE, -0.0, 5e-324, f64::MAX, f64::MIN]);
    round(ty, v)
}
/// Any bit pattern at all.
pub fn any_bits(r: &mut Rng, ty: Ty) -> f64 {
    if r.chance(1, 2) {
        return bad_coord(r, ty);
    }
    if ty == Ty::F32 {
        f32::from_bits(r.u64() as u32) as f64
    } else {
        f64::from_bits(r.u64())
    }
}

/// Preemption points over `total` steps for `threads` threads.
pub fn switches(r: &mut Rng, threads: usize, total: u64) -> Vec<(u64, u8)> {
    let total = total.max(2);
    let mut v: Vec<(u64, u8)> = vec![];
    let t = |r: &mut Rng| r.us(threads) as u8;
    match r.us(6) {
        0 => {
            for _ in 0..1 + r.us(6) {
                let s = 1 + r.below(total);
                let to = t(r);
                v.push((s, to));
            }
        }
        1 => {
            // dense: hand over after short random bursts
            let burst = 1 + r.below(60);
            let mut s = 1 + r.below(burst);
            while s < total * 2 && v.len() < crate::sched::MAXSW {
                v.push((s, t(r)));
                s += 1 + r.below(burst);
            }
        }
        2 => {
            // lockstep with a small stride
            let k = 1 + r.below(4);
            let mut s = k;
            let mut who = 0;
            while s < total * 2 && v.len() < crate::sched::MAXSW {
                who = (who + 1) % threads;
                v.push((s, who as u8));
                s += k;
            }
        }
        3 => {
            // one caller is paused at a point while another runs for a long time
            let s = 1 + r.below(total);
            let to = t(r);
            v.push((s, to));
            if r.chance(1, 2) {
                let s2 = s + 1 + r.below(total);
                let to = t(r);
                v.push((s2, to));
            }
        }
        4 => {
            // dense window somewhere
            let mut s = 1 + r.below(total);
            for _ in 0..10 + r.us(200) {
                v.push((s, t(r)));
                s += 1 + r.below(8);
            }
        }
        _ => {
            for _ in 0..10 + r.us(60) {
                let s = 1 + r.below(total);
                let to = t(r);
                v.push((s, to));
            }
        }
    }
    v.sort();
    v.truncate(crate::sched::MAXSW);
    v
}
