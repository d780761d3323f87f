//! Tables ("worlds"), interpolators of every kind built over them, and the calls a client can make.
use crate::gbuf::GBuf;
use crate::num::Num;
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{multicubic, multilinear, nearest};
use serde::{Deserialize, Serialize};

/// f64 bit patterns, as hex, so that replay files are exact.
#[derive(Clone, Copy, Debug)]
pub struct B(pub f64);
impl PartialEq for B {
    fn eq(&self, o: &B) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // readable when exact
        if self.0.is_finite() && self.0.abs() < 1e15 && self.0 == self.0.trunc() && !(self.0 == 0.0 && self.0.is_sign_negative()) {
            s.serialize_i64(self.0 as i64)
        } else {
            s.serialize_str(&format!("{:016x}", self.0.to_bits()))
        }
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'d> serde::de::Visitor<'d> for V {
            type Value = B;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("number or hex bits")
            }
            fn visit_i64<E>(self, v: i64) -> Result<B, E> {
                Ok(B(v as f64))
            }
            fn visit_u64<E>(self, v: u64) -> Result<B, E> {
                Ok(B(v as f64))
            }
            fn visit_f64<E>(self, v: f64) -> Result<B, E> {
                Ok(B(v))
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<B, E> {
                u64::from_str_radix(v, 16).map(|b| B(f64::from_bits(b))).map_err(E::custom)
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Method {
    Linear,
    Cubic,
    Nearest,
    // one-dimensional interpolators
    D1Linear,
    D1HoldLast,
    D1Left,
    D1Right,
    D1Nearest,
}
impl Method {
    pub fn one_dim(self) -> bool {
        !matches!(self, Method::Linear | Method::Cubic | Method::Nearest)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Ty {
    F64,
    F32,
    Sim,
}
/// Which public entry point evaluates.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Entry {
    /// struct method over a batch (`interp` / `eval`); flattened struct where one exists
    Batch,
    /// struct method for single points (`interp_one` / `eval_one`), called in a loop
    Each,
    /// the recursive struct, batch
    RecBatch,
    /// the recursive struct, single points
    RecEach,
    /// module-level function `interpn`
    Free,
    /// module-level function of the recursive module
    RecFree,
    /// allocating convenience functions
    Alloc,
    RecAlloc,
    /// bounds check (output: one flag per dimension)
    Bounds,
    RecBounds,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct World {
    pub method: Method,
    pub ty: Ty,
    pub regular: bool,
    pub linearize: bool,
    pub dims: Vec<usize>,
    pub starts: Vec<B>,
    pub steps: Vec<B>,
    pub grids: Vec<Vec<B>>,
    pub vals: Vec<B>,
}
impl World {
    pub fn n(&self) -> usize {
        self.dims.len()
    }
}

/// A world materialised for number type `T`, in guarded memory whose addresses never move.
pub struct Tab<T: 'static> {
    pub dims: GBuf<usize>,
    pub starts: GBuf<T>,
    pub steps: GBuf<T>,
    pub grids: Vec<GBuf<T>>,
    pub gref: GBuf<&'static [T]>,
    pub vals: GBuf<T>,
}
impl<T: Num> Tab<T> {
    pub fn new(w: &World) -> Tab<T> {
        let h = w.vals.len() % 3 != 1;
        let c = |v: &Vec<B>| GBuf::new(&v.iter().map(|x| T::from64(x.0)).collect::<Vec<T>>(), h);
        let grids: Vec<GBuf<T>> = w.grids.iter().map(c).collect();
        let refs: Vec<&'static [T]> = grids.iter().map(|g| g.stat()).collect();
        Tab { dims: GBuf::new(&w.dims, h), starts: c(&w.starts), steps: c(&w.steps), grids, gref: GBuf::new(&refs, h), vals: c(&w.vals) }
    }
    /// Same shape: can be overwritten in place by the other world.
    pub fn same_shape(&self, w: &World) -> bool {
        self.vals.len() == w.vals.len()
            && self.dims.len() == w.dims.len()
            && self.starts.len() == w.starts.len()
            && self.steps.len() == w.steps.len()
            && self.grids.len() == w.grids.len()
            && self.grids.iter().zip(&w.grids).all(|(a, b)| a.len() == b.len())
    }
    /// Overwrite the table in place (same addresses) with another world of the same shape.
    pub fn overwrite(&mut self, w: &World) {
        self.dims.copy_from_slice(&w.dims);
        for (d, s) in [(&mut self.starts, &w.starts), (&mut self.steps, &w.steps), (&mut self.vals, &w.vals)] {
            for (x, b) in d.iter_mut().zip(s.iter()) {
                *x = T::from64(b.0);
            }
        }
        for (g, s) in self.grids.iter_mut().zip(w.grids.iter()) {
            for (x, b) in g.iter_mut().zip(s.iter()) {
                *x = T::from64(b.0);
            }
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for d in self.dims.iter() {
            h = crate::rng::mix(h, *d as u64);
        }
        for v in [&self.starts, &self.steps, &self.vals].into_iter().chain(self.grids.iter()) {
            for x in v.iter() {
                h = crate::rng::mix(h, x.bits());
            }
        }
        h
    }
}

pub type R<T> = Result<T, &'static str>;

macro_rules! interps {
    (reg: $( $rn:ident = $rs:ident / $n:literal $lin:ident ),* ; rect: $( $cn:ident = $cs:ident / $m:literal $clin:ident ),* ) => {
        /// Any interpolator struct of the library, by value (building one needs no allocation).
        #[allow(clippy::large_enum_variant)]
        pub enum Any<T: Num> {
            $( $rn($rs<'static, T, $n>), )*
            $( $cn($cs<'static, T, $m>), )*
            LRr(multilinear::MultilinearRegularRecursive<'static, T, 8>),
            LCr(multilinear::MultilinearRectilinearRecursive<'static, T, 8>),
            CRr(multicubic::MulticubicRegularRecursive<'static, T, 8>),
            CCr(multicubic::MulticubicRectilinearRecursive<'static, T, 8>),
            D1LinR(Linear1D<RegularGrid1D<'static, T>>), D1LinC(Linear1D<RectilinearGrid1D<'static, T>>),
            D1HolR(LinearHoldLast1D<RegularGrid1D<'static, T>>), D1HolC(LinearHoldLast1D<RectilinearGrid1D<'static, T>>),
            D1LefR(Left1D<RegularGrid1D<'static, T>>), D1LefC(Left1D<RectilinearGrid1D<'static, T>>),
            D1RigR(Right1D<RegularGrid1D<'static, T>>), D1RigC(Right1D<RectilinearGrid1D<'static, T>>),
            D1NeaR(Nearest1D<RegularGrid1D<'static, T>>), D1NeaC(Nearest1D<RectilinearGrid1D<'static, T>>),
        }
        impl<T: Num> Any<T> {
            #[inline(never)]
            fn batch(&self, x: &[&[T]], out: &mut [T]) -> R<()> {
                match self {
                    $( Any::$rn(i) => i.interp(x.try_into().unwrap(), out), )*
                    $( Any::$cn(i) => i.interp(x.try_into().unwrap(), out), )*
                    Any::LRr(i) => i.interp(x, out),
                    Any::LCr(i) => i.interp(x, out),
                    Any::CRr(i) => i.interp(x, out),
                    Any::CCr(i) => i.interp(x, out),
                    Any::D1LinR(i) => i.eval(x[0], out), Any::D1LinC(i) => i.eval(x[0], out),
                    Any::D1HolR(i) => i.eval(x[0], out), Any::D1HolC(i) => i.eval(x[0], out),
                    Any::D1LefR(i) => i.eval(x[0], out), Any::D1LefC(i) => i.eval(x[0], out),
                    Any::D1RigR(i) => i.eval(x[0], out), Any::D1RigC(i) => i.eval(x[0], out),
                    Any::D1NeaR(i) => i.eval(x[0], out), Any::D1NeaC(i) => i.eval(x[0], out),
                }
            }
            #[inline(never)]
            fn one(&self, x: &[T]) -> R<T> {
                match self {
                    $( Any::$rn(i) => i.interp_one(x.try_into().unwrap()), )*
                    $( Any::$cn(i) => i.interp_one(x.try_into().unwrap()), )*
                    Any::LRr(i) => i.interp_one(x),
                    Any::LCr(i) => i.interp_one(x),
                    Any::CRr(i) => i.interp_one(x),
                    Any::CCr(i) => i.interp_one(x),
                    Any::D1LinR(i) => i.eval_one(x[0]), Any::D1LinC(i) => i.eval_one(x[0]),
                    Any::D1HolR(i) => i.eval_one(x[0]), Any::D1HolC(i) => i.eval_one(x[0]),
                    Any::D1LefR(i) => i.eval_one(x[0]), Any::D1LefC(i) => i.eval_one(x[0]),
                    Any::D1RigR(i) => i.eval_one(x[0]), Any::D1RigC(i) => i.eval_one(x[0]),
                    Any::D1NeaR(i) => i.eval_one(x[0]), Any::D1NeaC(i) => i.eval_one(x[0]),
                }
            }
            /// A single point given as a slice of whatever length (flattened structs: exactly N).
            pub fn one_any(&self, x: &[T]) -> R<T> {
                self.one(x)
            }
            #[cold]
            fn alloc1(&self, x: &[&[T]]) -> R<Vec<T>> {
                match self {
                    Any::D1LinR(i) => i.eval_alloc(x[0]), Any::D1LinC(i) => i.eval_alloc(x[0]),
                    Any::D1HolR(i) => i.eval_alloc(x[0]), Any::D1HolC(i) => i.eval_alloc(x[0]),
                    Any::D1LefR(i) => i.eval_alloc(x[0]), Any::D1LefC(i) => i.eval_alloc(x[0]),
                    Any::D1RigR(i) => i.eval_alloc(x[0]), Any::D1RigC(i) => i.eval_alloc(x[0]),
                    Any::D1NeaR(i) => i.eval_alloc(x[0]), Any::D1NeaC(i) => i.eval_alloc(x[0]),
                    _ => unreachable!(),
                }
            }
        }
    };
}
use multicubic::{MulticubicRectilinear as CC, MulticubicRegular as CR};
use multilinear::{MultilinearRectilinear as LC, MultilinearRegular as LR};
use nearest::{NearestRectilinear as NC, NearestRegular as NR};
interps!(reg: LR1 = LR/1 n, LR2 = LR/2 n, LR3 = LR/3 n, LR4 = LR/4 n, LR5 = LR/5 n, LR6 = LR/6 n,
              CR1 = CR/1 y, CR2 = CR/2 y, CR3 = CR/3 y, CR4 = CR/4 y,
              NR1 = NR/1 n, NR2 = NR/2 n, NR3 = NR/3 n, NR4 = NR/4 n, NR5 = NR/5 n, NR6 = NR/6 n;
         rect: LC1 = LC/1 n, LC2 = LC/2 n, LC3 = LC/3 n, LC4 = LC/4 n, LC5 = LC/5 n, LC6 = LC/6 n,
              CC1 = CC/1 y, CC2 = CC/2 y, CC3 = CC/3 y, CC4 = CC/4 y,
              NC1 = NC/1 n, NC2 = NC/2 n, NC3 = NC/3 n, NC4 = NC/4 n, NC5 = NC/5 n, NC6 = NC/6 n);

/// Raw slices of a request: everything a slice-taking entry point is given.
pub struct Parts<'a, T: 'static> {
    pub dims: &'a [usize],
    pub starts: &'a [T],
    pub steps: &'a [T],
    pub grids: &'a [&'static [T]],
    pub vals: &'a [T],
}
impl<T: Num> Tab<T> {
    pub fn parts(&self) -> Parts<'static, T> {
        Parts { dims: self.dims.stat(), starts: self.starts.stat(), steps: self.steps.stat(), grids: self.gref.stat(), vals: self.vals.stat() }
    }
}

/// Constructor of the interpolator struct for (method, regular, N); `rec` asks for the recursive one.
#[inline(never)]
pub fn build<T: Num>(method: Method, regular: bool, lin: bool, rec: bool, p: &Parts<'static, T>) -> R<Any<T>> {
    macro_rules! reg {
        ($v:ident, $s:ident $(, $l:expr)?) => {
            Ok(Any::$v($s::new(p.dims.try_into().unwrap(), p.starts.try_into().unwrap(), p.steps.try_into().unwrap(), p.vals $(, $l)?)?))
        };
    }
    // The cubic regular struct takes slices or arrays depending on the variant: both convert.
    macro_rules! rect {
        ($v:ident, $s:ident $(, $l:expr)?) => { Ok(Any::$v($s::new(p.grids.try_into().unwrap(), p.vals $(, $l)?)?)) };
    }
    let n = if regular || method.one_dim() { if regular { p.dims.len() } else { p.grids.len() } } else { p.grids.len() };
    use Method::*;
    match (method, regular) {
        (Linear, true) if rec || n > 6 || n == 0 => Ok(Any::LRr(multilinear::MultilinearRegularRecursive::new(p.dims, p.starts, p.steps, p.vals)?)),
        (Linear, false) if rec || n > 6 || n == 0 => Ok(Any::LCr(multilinear::MultilinearRectilinearRecursive::new(p.grids, p.vals)?)),
        (Cubic, true) if rec || n > 4 || n == 0 => Ok(Any::CRr(multicubic::MulticubicRegularRecursive::new(p.dims, p.starts, p.steps, p.vals, lin)?)),
        (Cubic, false) if rec || n > 4 || n == 0 => Ok(Any::CCr(multicubic::MulticubicRectilinearRecursive::new(p.grids, p.vals, lin)?)),
        (Linear, true) => match n { 1 => reg!(LR1, LR), 2 => reg!(LR2, LR), 3 => reg!(LR3, LR), 4 => reg!(LR4, LR), 5 => reg!(LR5, LR), _ => reg!(LR6, LR) },
        (Linear, false) => match n { 1 => rect!(LC1, LC), 2 => rect!(LC2, LC), 3 => rect!(LC3, LC), 4 => rect!(LC4, LC), 5 => rect!(LC5, LC), _ => rect!(LC6, LC) },
        (Cubic, true) => match n { 1 => reg!(CR1, CR, lin), 2 => reg!(CR2, CR, lin), 3 => reg!(CR3, CR, lin), _ => reg!(CR4, CR, lin) },
        (Cubic, false) => match n { 1 => rect!(CC1, CC, lin), 2 => rect!(CC2, CC, lin), 3 => rect!(CC3, CC, lin), _ => rect!(CC4, CC, lin) },
        (Nearest, true) => match n { 1 => reg!(NR1, NR), 2 => reg!(NR2, NR), 3 => reg!(NR3, NR), 4 => reg!(NR4, NR), 5 => reg!(NR5, NR), _ => reg!(NR6, NR) },
        (Nearest, false) => match n { 1 => rect!(NC1, NC), 2 => rect!(NC2, NC), 3 => rect!(NC3, NC), 4 => rect!(NC4, NC), 5 => rect!(NC5, NC), _ => rect!(NC6, NC) },
        (m, true) => {
            let g = RegularGrid1D::new(p.starts[0], p.steps[0], p.vals)?;
            Ok(match m {
                D1Linear => Any::D1LinR(Linear1D::new(g)),
                D1HoldLast => Any::D1HolR(LinearHoldLast1D::new(g)),
                D1Left => Any::D1LefR(Left1D::new(g)),
                D1Right => Any::D1RigR(Right1D::new(g)),
                _ => Any::D1NeaR(Nearest1D::new(g)),
            })
        }
        (m, false) => {
            let g = RectilinearGrid1D::new(p.grids[0], p.vals)?;
            Ok(match m {
                D1Linear => Any::D1LinC(Linear1D::new(g)),
                D1HoldLast => Any::D1HolC(LinearHoldLast1D::new(g)),
                D1Left => Any::D1LefC(Left1D::new(g)),
                D1Right => Any::D1RigC(Right1D::new(g)),
                _ => Any::D1NeaC(Nearest1D::new(g)),
            })
        }
    }
}

/// Entry points that exist for a method and dimension count.
pub fn entries(m: Method, n: usize) -> Vec<Entry> {
    use Entry::*;
    match m {
        Method::Nearest => vec![Batch, Each, Free, Bounds],
        Method::Linear => vec![Batch, Each, Free, Bounds, RecBatch, RecEach, RecFree, RecBounds],
        Method::Cubic if n <= 4 => vec![Batch, Each, Free, Bounds, RecBatch, RecEach, RecFree, RecBounds],
        Method::Cubic => vec![Batch, Each, Free, RecFree, Bounds],
        _ => vec![Batch, Each],
    }
}

/// One call. `slot` is the prebuilt interpolator for struct entries (flattened, recursive).
/// `out` receives values; for bounds checks `flags` does.
#[inline(never)]
pub fn call<T: Num>(
    method: Method,
    regular: bool,
    lin: bool,
    entry: Entry,
    p: &Parts<'static, T>,
    flat: Option<&Any<T>>,
    rec: Option<&Any<T>>,
    obs: &[&[T]],
    atol: T,
    out: &mut [T],
    flags: &mut [bool],
) -> R<()> {
    use Entry::*;
    use Method::*;
    match entry {
        Batch => flat.unwrap().batch(obs, out),
        RecBatch => rec.unwrap().batch(obs, out),
        Each | RecEach => {
            let i = if entry == Each { flat.unwrap() } else { rec.unwrap() };
            let mut x = [T::zero(); 16];
            let n = obs.len().min(16);
            if obs.iter().any(|o| o.len() != out.len()) {
                return Err("SIM: the points cannot be taken one by one");
            }
            for k in 0..out.len() {
                for (j, o) in obs.iter().take(n).enumerate() {
                    x[j] = o[k];
                }
                out[k] = i.one(&x[..n])?;
            }
            Ok(())
        }
        Free => match (method, regular) {
            (Linear, true) => multilinear::regular::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
            (Linear, false) => multilinear::rectilinear::interpn(p.grids, p.vals, obs, out),
            (Cubic, true) => multicubic::regular::interpn(p.dims, p.starts, p.steps, p.vals, lin, obs, out),
            (Cubic, false) => multicubic::rectilinear::interpn(p.grids, p.vals, lin, obs, out),
            (Nearest, true) => nearest::regular::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
            (Nearest, false) => nearest::rectilinear::interpn(p.grids, p.vals, obs, out),
            _ => unreachable!(),
        },
        RecFree => match (method, regular) {
            (Linear, true) => multilinear::regular_recursive::interpn(p.dims, p.starts, p.steps, p.vals, obs, out),
            (Linear, false) => multilinear::rectilinear_recursive::interpn(p.grids, p.vals, obs, out),
            (Cubic, true) => multicubic::regular_recursive::interpn(p.dims, p.starts, p.steps, p.vals, lin, obs, out),
            (Cubic, false) => multicubic::rectilinear_recursive::interpn(p.grids, p.vals, lin, obs, out),
            _ => unreachable!(),
        },
        Alloc | RecAlloc => {
            let v = match (method, regular, entry == RecAlloc) {
                (Linear, true, false) => multilinear::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs)?,
                (Linear, false, false) => multilinear::rectilinear::interpn_alloc(p.grids, p.vals, obs)?,
                (Cubic, true, false) => multicubic::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, lin, obs)?,
                (Cubic, false, false) => multicubic::rectilinear::interpn_alloc(p.grids, p.vals, lin, obs)?,
                (Nearest, true, _) => nearest::regular::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs)?,
                (Nearest, false, _) => nearest::rectilinear::interpn_alloc(p.grids, p.vals, obs)?,
                (Linear, true, true) => multilinear::regular_recursive::interpn_alloc(p.dims, p.starts, p.steps, p.vals, obs)?,
                (Linear, false, true) => multilinear::rectilinear_recursive::interpn_alloc(p.grids, p.vals, obs)?,
                (Cubic, true, true) => multicubic::regular_recursive::interpn_alloc(p.dims, p.starts, p.steps, p.vals, lin, obs)?,
                (Cubic, false, true) => multicubic::rectilinear_recursive::interpn_alloc(p.grids, p.vals, lin, obs)?,
                _ => flat.unwrap().alloc1(obs)?,
            };
            if v.len() != out.len() {
                return Err("SIM: allocated output has the wrong length");
            }
            out.copy_from_slice(&v);
            Ok(())
        }
        Bounds => match (method, regular) {
            (Linear, true) => multilinear::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, flags),
            (Linear, false) => multilinear::rectilinear::check_bounds(p.grids, obs, atol, flags),
            (Cubic, true) => multicubic::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, flags),
            (Cubic, false) => multicubic::rectilinear::check_bounds(p.grids, obs, atol, flags),
            (Nearest, true) => nearest::regular::check_bounds(p.dims, p.starts, p.steps, obs, atol, flags),
            (Nearest, false) => nearest::rectilinear::check_bounds(p.grids, obs, atol, flags),
            _ => unreachable!(),
        },
        RecBounds => match (method, regular) {
            (Linear, true) => multilinear::regular_recursive::check_bounds(p.dims, p.starts, p.steps, obs, atol, flags),
            (Linear, false) => multilinear::rectilinear_recursive::check_bounds(p.grids, obs, atol, flags),
            (Cubic, true) => multicubic::regular_recursive::check_bounds(p.dims, p.starts, p.steps, obs, atol, flags),
            (Cubic, false) => multicubic::rectilinear_recursive::check_bounds(p.grids, obs, atol, flags),
            _ => unreachable!(),
        },
    }
}

// Thread-safety probe. `probe!(X)` is true iff X: Send + Sync, decided without a compile error.
pub struct Probe<X>(std::marker::PhantomData<X>);
impl<X> Probe<X> {
    pub fn new() -> Self {
        Probe(std::marker::PhantomData)
    }
}
pub trait Fallback {
    fn ok(&self) -> bool {
        false
    }
}
impl<X> Fallback for &Probe<X> {}
pub trait Good {
    fn ok(&self) -> bool {
        true
    }
}
impl<X: Send + Sync> Good for Probe<X> {}
pub fn not_thread_safe() -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! chk { ($($t:ty),* $(,)?) => { $( if !(&Probe::<$t>::new()).ok() { v.push(stringify!($t)); } )* } }
    use multicubic as mc;
    use multilinear as ml;
    chk!(LR<'static, f64, 1>, LR<'static, f32, 6>, LC<'static, f64, 1>, LC<'static, f32, 6>,
         CR<'static, f64, 1>, CR<'static, f32, 4>, CC<'static, f64, 1>, CC<'static, f32, 4>,
         NR<'static, f64, 1>, NR<'static, f32, 6>, NC<'static, f64, 1>, NC<'static, f32, 6>,
         ml::MultilinearRegularRecursive<'static, f64, 8>, ml::MultilinearRectilinearRecursive<'static, f64, 8>,
         mc::MulticubicRegularRecursive<'static, f64, 8>, mc::MulticubicRectilinearRecursive<'static, f64, 8>,
         RegularGrid1D<'static, f64>, RectilinearGrid1D<'static, f64>,
         Linear1D<RegularGrid1D<'static, f64>>, Linear1D<RectilinearGrid1D<'static, f64>>,
         LinearHoldLast1D<RegularGrid1D<'static, f64>>, LinearHoldLast1D<RectilinearGrid1D<'static, f64>>,
         Left1D<RegularGrid1D<'static, f64>>, Left1D<RectilinearGrid1D<'static, f64>>,
         Right1D<RegularGrid1D<'static, f64>>, Right1D<RectilinearGrid1D<'static, f64>>,
         Nearest1D<RegularGrid1D<'static, f64>>, Nearest1D<RectilinearGrid1D<'static, f64>>);
    v
}
