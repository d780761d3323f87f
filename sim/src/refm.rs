//! Reference model: the documented methods written independently of the library, over the world
//! itself, with a running error bound so that any arithmetic order of the same method is accepted.
use crate::world::{Method, Ty, World};

#[derive(Clone, Copy)]
struct Er {
    v: f64,
    e: f64,
    u: f64,
}
impl Er {
    fn x(v: f64, u: f64) -> Er {
        Er { v, e: 0.0, u }
    }
    fn add(self, o: Er) -> Er {
        Er { v: self.v + o.v, e: self.e + o.e + self.u * (self.v.abs() + o.v.abs()), u: self.u }
    }
    fn sub(self, o: Er) -> Er {
        self.add(Er { v: -o.v, ..o })
    }
    fn mul(self, o: Er) -> Er {
        let v = self.v * o.v;
        Er { v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + self.u * v.abs(), u: self.u }
    }
    fn div(self, o: Er) -> Er {
        let v = self.v / o.v;
        let d = o.v.abs() - o.e;
        if d <= 0.0 {
            return Er { v, e: f64::INFINITY, u: self.u };
        }
        Er { v, e: (self.e + v.abs() * o.e) / d + self.u * v.abs(), u: self.u }
    }
    fn neg(self) -> Er {
        Er { v: -self.v, ..self }
    }
}

pub enum Ref {
    Approx(f64, f64),
    OneOf(Vec<f64>),
}
impl Ref {
    pub fn accepts(&self, got: f64) -> bool {
        match self {
            Ref::Approx(v, t) => (got - v).abs() <= *t,
            Ref::OneOf(c) => c.iter().any(|x| x.to_bits() == got.to_bits() || *x == got),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Ref::Approx(v, t) => format!("{v:e} +/- {t:e}"),
            Ref::OneOf(c) => format!("one of {c:?}"),
        }
    }
}

pub fn round(ty: Ty, v: f64) -> f64 {
    if ty == Ty::F32 {
        v as f32 as f64
    } else {
        v
    }
}
fn unit(ty: Ty) -> f64 {
    if ty == Ty::F32 {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}

/// One dimension's grid.
struct Dim {
    n: usize,
    nodes: Vec<f64>, // nominal
    step: Option<(f64, f64)>,
    u: f64,
}
impl Dim {
    fn of(w: &World, d: usize) -> Option<Dim> {
        let u = unit(w.ty);
        let dim = if w.regular {
            let (s, h) = (round(w.ty, w.starts[d].0), round(w.ty, w.steps[d].0));
            if !(s.is_finite() && h.is_finite() && h > 0.0) {
                return None;
            }
            Dim { n: w.dims[d], nodes: (0..w.dims[d]).map(|i| s + h * i as f64).collect(), step: Some((s, h)), u }
        } else {
            Dim { n: w.dims[d], nodes: w.grids[d].iter().map(|b| round(w.ty, b.0)).collect(), step: None, u }
        };
        if dim.nodes.iter().all(|x| x.is_finite()) && dim.nodes.windows(2).all(|p| p[0] < p[1]) {
            Some(dim)
        } else {
            None
        }
    }
    fn node(&self, i: usize) -> Er {
        match self.step {
            Some((s, h)) => Er::x(s, self.u).add(Er::x(h, self.u).mul(Er::x(i as f64, self.u))),
            None => Er::x(self.nodes[i], self.u),
        }
    }
    /// Containing cell 0..n-2 (clamped) by nominal position.
    fn cell(&self, x: f64) -> usize {
        let p = self.nodes.partition_point(|v| *v < x) as isize - 1;
        p.max(0).min(self.n as isize - 2) as usize
    }
    /// Slack around a node within which either side is accepted.
    fn slack(&self, x: f64) -> f64 {
        let m = x.abs().max(self.nodes[0].abs()).max(self.nodes[self.n - 1].abs());
        8.0 * self.u * m
    }
    fn t(&self, x: f64, i: usize) -> Er {
        // normalised coordinate relative to cell i
        let x = Er::x(x, self.u);
        match self.step {
            Some((_, h)) => x.sub(self.node(i)).div(Er::x(h, self.u)),
            None => x.sub(self.node(i)).div(self.node(i + 1).sub(self.node(i))),
        }
    }
    fn h(&self, i: usize) -> Er {
        match self.step {
            Some((_, h)) => Er::x(h, self.u),
            None => self.node(i + 1).sub(self.node(i)),
        }
    }
    /// Does every quantity of the position computation come out exactly (small dyadic numbers)?
    fn exact(&self, x: f64, i: usize) -> bool {
        let ok = |v: f64| (v * 8.0).fract() == 0.0 && v.abs() < 4096.0;
        ok(x) && ok(self.nodes[i]) && ok(self.nodes[i + 1]) && self.step.is_none_or(|(s, h)| ok(s) && ok(h))
    }
}

fn lerp(y: &[Er], t: Er) -> Er {
    y[0].add(t.mul(y[1].sub(y[0])))
}

/// One-dimensional cubic: Hermite with central (distance weighted) slopes, natural ends.
fn cubic(d: &Dim, x: f64, c: usize, o: usize, lin: bool, y: &[Er]) -> Er {
    let u = d.u;
    let two = Er::x(2.0, u);
    let one = Er::x(1.0, u);
    // slope at interior node i (of the four), in units of value per coordinate
    let slope = |i: usize| -> Er {
        let (h0, h1) = (d.h(o + i - 1), d.h(o + i));
        let a = h0.div(h0.add(h1));
        let b = h1.div(h0.add(h1));
        a.mul(y[i + 1].sub(y[i]).div(h1)).add(b.mul(y[i].sub(y[i - 1]).div(h0)))
    };
    let herm = |t: Er, y0: Er, dy: Er, k0: Er, k1: Er| -> Er {
        let a = k0.sub(dy);
        let b = dy.sub(k1);
        let c2 = b.sub(a.add(a));
        let c3 = a.sub(b);
        y0.add(t.mul(k0.add(t.mul(c2.add(t.mul(c3))))))
    };
    let h = d.h(c);
    let first = d.nodes[0];
    let last = d.nodes[d.n - 1];
    if c == 0 {
        let t = d.t(x, 0).sub(one).neg(); // from node 1 towards node 0
        let dy = y[0].sub(y[1]);
        let k0 = slope(1).mul(h).neg();
        let k1 = two.mul(dy).sub(k0);
        if x < first && lin {
            return y[0].add(k1.mul(t.sub(one)));
        }
        herm(t, y[1], dy, k0, k1)
    } else if c == d.n - 2 {
        let t = d.t(x, c);
        let dy = y[3].sub(y[2]);
        let k0 = slope(2).mul(h);
        let k1 = two.mul(dy).sub(k0);
        if x > last && lin {
            return y[3].add(k1.mul(t.sub(one)));
        }
        herm(t, y[2], dy, k0, k1)
    } else {
        let t = d.t(x, c);
        herm(t, y[1], y[2].sub(y[1]), slope(1).mul(h), slope(2).mul(h))
    }
}

pub struct Model<'a> {
    w: &'a World,
    dims: Vec<Dim>,
}
impl<'a> Model<'a> {
    /// None when the grid itself is damaged (non-finite, unsorted): nothing is asserted then.
    pub fn new(w: &'a World) -> Option<Self> {
        Some(Model { w, dims: (0..w.n()).map(|d| Dim::of(w, d)).collect::<Option<_>>()? })
    }
}
/// The value the documented method gives at `x`, or None when nothing is asserted.
pub fn reference(md: &Model, x: &[f64]) -> Option<Ref> {
    let cells: Vec<usize> = md.dims.iter().zip(x).map(|(d, x)| d.cell(*x)).collect();
    in_cell(md, x, &cells)
}
/// On a node, within rounding, the formula of either neighbouring cell is right.
pub fn accepts_neighbour(md: &Model, x: &[f64], got: f64) -> bool {
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for (d, x) in md.dims.iter().zip(x) {
        let s = d.slack(*x);
        let mut c = vec![d.cell(*x), d.cell(*x - s), d.cell(*x + s)];
        c.sort();
        c.dedup();
        combos = combos.iter().flat_map(|v| c.iter().map(move |k| v.iter().copied().chain([*k]).collect())).collect();
    }
    combos.iter().any(|c| in_cell(md, x, c).is_none_or(|r| r.accepts(got)))
}
fn in_cell(md: &Model, x: &[f64], cells: &[usize]) -> Option<Ref> {
    let w = md.w;
    let dims = &md.dims;
    let n = w.n();
    let u = unit(w.ty);
    let lim = if w.ty == Ty::F32 { 1e30 } else { 1e250 };
    if x.iter().any(|v| !v.is_finite() || v.abs() > lim) {
        return None;
    }
    let mut stride = vec![1usize; n];
    for d in (0..n.saturating_sub(1)).rev() {
        stride[d] = stride[d + 1] * w.dims[d + 1];
    }
    let val = |i: usize| round(w.ty, w.vals[i].0);
    match w.method {
        Method::Linear | Method::Cubic => {
            let fp = if w.method == Method::Linear { 2 } else { 4 };
            let o: Vec<usize> = (0..n)
                .map(|d| {
                    let c = cells[d];
                    if fp == 2 { c } else { c.saturating_sub(1).min(w.dims[d] - 4) }
                })
                .collect();
            #[allow(clippy::too_many_arguments)]
            fn go(w: &World, dims: &[Dim], stride: &[usize], cells: &[usize], o: &[usize], x: &[f64], fp: usize, d: usize, off: usize, u: f64, val: &dyn Fn(usize) -> f64) -> Er {
                if d == dims.len() {
                    return Er::x(val(off), u);
                }
                let mut y = [Er::x(0.0, u); 4];
                for k in 0..fp {
                    y[k] = go(w, dims, stride, cells, o, x, fp, d + 1, off + (o[d] + k) * stride[d], u, val);
                }
                if fp == 2 {
                    lerp(&y, dims[d].t(x[d], o[d]))
                } else {
                    cubic(&dims[d], x[d], cells[d], o[d], w.linearize, &y)
                }
            }
            let r = go(w, dims, &stride, cells, &o, x, fp, 0, 0, u, &val);
            approx(w.ty, r)
        }
        Method::Nearest => {
            let mut c: Vec<usize> = vec![0];
            for d in 0..n {
                let i = cells[d];
                let t = dims[d].t(x[d], i);
                let ks: Vec<usize> = if dims[d].exact(x[d], i) {
                    vec![if t.v <= 0.5 { 0 } else { 1 }]
                } else if (t.v - 0.5).abs() <= 8.0 * t.e {
                    vec![0, 1]
                } else {
                    vec![if t.v < 0.5 { 0 } else { 1 }]
                };
                c = c.iter().flat_map(|b| ks.iter().map(move |k| (b, k))).map(|(b, k)| b + (i + k) * stride[d]).collect();
            }
            Some(Ref::OneOf(c.into_iter().map(val).collect()))
        }
        m => {
            let d = &dims[0];
            let x = x[0];
            let i = cells[0];
            let s = d.slack(x);
            let first = d.nodes[0];
            let last = d.nodes[d.n - 1];
            let (y0, y1) = (Er::x(val(i), u), Er::x(val(i + 1), u));
            let line = || {
                let x0 = d.node(i);
                let x1 = if d.step.is_some() { x0.add(d.h(i)) } else { d.node(i + 1) };
                let sl = y1.sub(y0).div(x1.sub(x0));
                (y0.add(sl.mul(Er::x(x, u).sub(x0))), sl)
            };
            match m {
                Method::D1Linear => approx(w.ty, line().0),
                Method::D1HoldLast => {
                    let (mut l, sl) = line();
                    if x < first || x > last {
                        let y = if x < first { val(0) } else { val(d.n - 1) };
                        l = Er { v: y, e: if x < first - s || x > last + s { 0.0 } else { s * sl.v.abs() + l.u * y.abs() }, u };
                    }
                    approx(w.ty, l)
                }
                Method::D1Nearest => {
                    let m0 = (x - d.nodes[i]).abs();
                    let m1 = (x - d.nodes[i + 1]).abs();
                    if d.exact(x, i) {
                        return Some(Ref::OneOf(vec![if m1 >= m0 { val(i) } else { val(i + 1) }]));
                    }
                    if (m1 - m0).abs() <= 4.0 * s {
                        return Some(Ref::OneOf(vec![val(i), val(i + 1)]));
                    }
                    Some(Ref::OneOf(vec![if m1 > m0 { val(i) } else { val(i + 1) }]))
                }
                _ => {
                    // hold-last / hold-next; on a node (within rounding) either neighbour's rule holds
                    let left = m == Method::D1Left;
                    let mut c = vec![];
                    for j in i.saturating_sub(1)..=(i + 1).min(d.n - 2) {
                        let in_cell = x >= d.nodes[j] - s && x <= d.nodes[j + 1] + s;
                        if in_cell || (j == i && x >= first && x <= last) {
                            c.push(if left { val(j) } else { val(j + 1) });
                        }
                    }
                    if x < first + s {
                        c.push(val(0));
                    }
                    if x > last - s {
                        c.push(val(d.n - 1));
                    }
                    Some(Ref::OneOf(c))
                }
            }
        }
    }
}
fn approx(ty: Ty, r: Er) -> Option<Ref> {
    let lim = if ty == Ty::F32 { 1e33 } else { 1e280 };
    let tiny = if ty == Ty::F32 { 1e-32 } else { 1e-280 };
    if !(r.v.is_finite() && r.e.is_finite() && r.v.abs() < lim && r.e < lim) {
        return None;
    }
    Some(Ref::Approx(r.v, 8.0 * r.e + tiny))
}

/// Per dimension, the node indices the value at `x` may depend on (None: not decidable).
pub fn stencil(md: &Model, x: &[f64]) -> Option<Vec<Vec<usize>>> {
    let w = md.w;
    if x.iter().any(|v| !v.is_finite()) {
        return None;
    }
    let mut out = vec![];
    for d in 0..w.n() {
        let dim = &md.dims[d];
        let s = dim.slack(x[d]);
        let mut cells = vec![dim.cell(x[d] - s), dim.cell(x[d]), dim.cell(x[d] + s)];
        cells.sort();
        cells.dedup();
        let mut ix = vec![];
        for c in cells {
            match w.method {
                Method::Cubic => {
                    let o = c.saturating_sub(1).min(w.dims[d] - 4);
                    ix.extend(o..o + 4);
                }
                Method::Nearest => {
                    let t = dim.t(x[d], c);
                    if t.v <= 0.5 + 8.0 * t.e {
                        ix.push(c);
                    }
                    if t.v >= 0.5 - 8.0 * t.e {
                        ix.push(c + 1);
                    }
                }
                _ => ix.extend([c, c + 1]),
            }
        }
        ix.sort();
        ix.dedup();
        out.push(ix);
    }
    Some(out)
}
