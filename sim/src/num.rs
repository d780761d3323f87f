//! Number types the library is instantiated with. `SimF64` is the seam for arithmetic: every
//! operation is a scheduling point and a place where a fault (panic, failed conversion) can fire.
use crate::sched;
use num_traits::*;
use std::num::FpCategory;
use std::ops::*;

pub trait Num: Float + std::fmt::Debug + Send + Sync + 'static {
    const EPS: f64;
    fn from64(x: f64) -> Self;
    fn to64(self) -> f64;
    /// Bits, widened; equal iff the values are bit-identical (all NaNs are one value).
    fn bits(self) -> u64;
}
impl Num for f64 {
    const EPS: f64 = f64::EPSILON;
    fn from64(x: f64) -> Self {
        x
    }
    fn to64(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        if self.is_nan() { 0x7ff8_0000_0000_0000 } else { self.to_bits() }
    }
}
impl Num for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn from64(x: f64) -> Self {
        x as f32
    }
    fn to64(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() as u64 }
    }
}
impl Num for SimF64 {
    const EPS: f64 = f64::EPSILON;
    fn from64(x: f64) -> Self {
        SimF64(x)
    }
    fn to64(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        Num::bits(self.0)
    }
}

#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct SimF64(pub f64);

#[inline(always)]
fn op() {
    sched::arith_op();
}

impl std::fmt::Debug for SimF64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::fmt::Display for SimF64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl PartialEq for SimF64 {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        op();
        self.0 == o.0
    }
}
impl PartialOrd for SimF64 {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        op();
        self.0.partial_cmp(&o.0)
    }
    #[inline]
    fn lt(&self, o: &Self) -> bool {
        op();
        self.0 < o.0
    }
    #[inline]
    fn le(&self, o: &Self) -> bool {
        op();
        self.0 <= o.0
    }
    #[inline]
    fn gt(&self, o: &Self) -> bool {
        op();
        self.0 > o.0
    }
    #[inline]
    fn ge(&self, o: &Self) -> bool {
        op();
        self.0 >= o.0
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $o:tt) => {
        impl $tr for SimF64 { type Output = SimF64; #[inline] fn $f(self, o: SimF64) -> SimF64 { op(); SimF64(self.0 $o o.0) } }
        impl<'a> $tr<&'a SimF64> for SimF64 { type Output = SimF64; #[inline] fn $f(self, o: &SimF64) -> SimF64 { op(); SimF64(self.0 $o o.0) } }
        impl $atr for SimF64 { #[inline] fn $af(&mut self, o: SimF64) { op(); self.0 = self.0 $o o.0; } }
        impl<'a> $atr<&'a SimF64> for SimF64 { #[inline] fn $af(&mut self, o: &SimF64) { op(); self.0 = self.0 $o o.0; } }
    };
}
bin!(Add, add, AddAssign, add_assign, +);
bin!(Sub, sub, SubAssign, sub_assign, -);
bin!(Mul, mul, MulAssign, mul_assign, *);
bin!(Div, div, DivAssign, div_assign, /);
bin!(Rem, rem, RemAssign, rem_assign, %);
impl Neg for SimF64 {
    type Output = SimF64;
    #[inline]
    fn neg(self) -> SimF64 {
        op();
        SimF64(-self.0)
    }
}
impl std::iter::Sum for SimF64 {
    fn sum<I: Iterator<Item = SimF64>>(it: I) -> SimF64 {
        it.fold(SimF64(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a SimF64> for SimF64 {
    fn sum<I: Iterator<Item = &'a SimF64>>(it: I) -> SimF64 {
        it.fold(SimF64(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Product<&'a SimF64> for SimF64 {
    fn product<I: Iterator<Item = &'a SimF64>>(it: I) -> SimF64 {
        it.fold(SimF64(1.0), |a, b| a * b)
    }
}
impl std::iter::Product for SimF64 {
    fn product<I: Iterator<Item = SimF64>>(it: I) -> SimF64 {
        it.fold(SimF64(1.0), |a, b| a * b)
    }
}
impl Zero for SimF64 {
    #[inline]
    fn zero() -> Self {
        SimF64(0.0)
    }
    #[inline]
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for SimF64 {
    #[inline]
    fn one() -> Self {
        SimF64(1.0)
    }
}
impl Num_ for SimF64 {
    type FromStrRadixErr = ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ParseFloatError> {
        <f64 as Num_>::from_str_radix(s, r).map(SimF64)
    }
}
use num_traits::Num as Num_;
macro_rules! toprim { ($($f:ident -> $t:ty),*) => { impl ToPrimitive for SimF64 { $(
    #[inline] fn $f(&self) -> Option<$t> { op(); if sched::cast_fault() { return None; } self.0.$f() } )*
    #[inline] fn to_f64(&self) -> Option<f64> { op(); Some(self.0) }
    #[inline] fn to_f32(&self) -> Option<f32> { op(); Some(self.0 as f32) }
} } }
toprim!(to_isize -> isize, to_i8 -> i8, to_i16 -> i16, to_i32 -> i32, to_i64 -> i64, to_i128 -> i128,
        to_usize -> usize, to_u8 -> u8, to_u16 -> u16, to_u32 -> u32, to_u64 -> u64, to_u128 -> u128);
impl NumCast for SimF64 {
    #[inline]
    fn from<U: ToPrimitive>(n: U) -> Option<Self> {
        op();
        n.to_f64().map(SimF64)
    }
}
impl FromPrimitive for SimF64 {
    fn from_i64(n: i64) -> Option<Self> {
        Some(SimF64(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(SimF64(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(SimF64(n))
    }
}
impl Bounded for SimF64 {
    fn min_value() -> Self {
        SimF64(f64::MIN)
    }
    fn max_value() -> Self {
        SimF64(f64::MAX)
    }
}
macro_rules! fwd { ($($f:ident),*) => { $( #[inline] fn $f(self) -> Self { op(); SimF64(Float::$f(self.0)) } )* } }
impl Float for SimF64 {
    fwd!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan,
         asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn nan() -> Self { SimF64(f64::NAN) }
    fn infinity() -> Self { SimF64(f64::INFINITY) }
    fn neg_infinity() -> Self { SimF64(f64::NEG_INFINITY) }
    fn neg_zero() -> Self { SimF64(-0.0) }
    fn min_value() -> Self { SimF64(f64::MIN) }
    fn min_positive_value() -> Self { SimF64(f64::MIN_POSITIVE) }
    fn epsilon() -> Self { SimF64(f64::EPSILON) }
    fn max_value() -> Self { SimF64(f64::MAX) }
    fn is_nan(self) -> bool { self.0.is_nan() }
    fn is_infinite(self) -> bool { self.0.is_infinite() }
    fn is_finite(self) -> bool { self.0.is_finite() }
    fn is_normal(self) -> bool { self.0.is_normal() }
    fn classify(self) -> FpCategory { self.0.classify() }
    fn is_sign_positive(self) -> bool { self.0.is_sign_positive() }
    fn is_sign_negative(self) -> bool { self.0.is_sign_negative() }
    #[inline]
    fn mul_add(self, a: Self, b: Self) -> Self { op(); SimF64(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> Self { op(); SimF64(self.0.powi(n)) }
    fn powf(self, n: Self) -> Self { op(); SimF64(self.0.powf(n.0)) }
    fn log(self, b: Self) -> Self { op(); SimF64(self.0.log(b.0)) }
    #[inline]
    fn max(self, o: Self) -> Self { op(); SimF64(self.0.max(o.0)) }
    #[inline]
    fn min(self, o: Self) -> Self { op(); SimF64(self.0.min(o.0)) }
    fn abs_sub(self, o: Self) -> Self { op(); SimF64(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 }) }
    fn hypot(self, o: Self) -> Self { op(); SimF64(self.0.hypot(o.0)) }
    fn atan2(self, o: Self) -> Self { op(); SimF64(self.0.atan2(o.0)) }
    fn sin_cos(self) -> (Self, Self) { op(); (SimF64(self.0.sin()), SimF64(self.0.cos())) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
impl MulAdd for SimF64 {
    type Output = SimF64;
    #[inline]
    fn mul_add(self, a: Self, b: Self) -> Self { op(); SimF64(self.0.mul_add(a.0, b.0)) }
}
impl Signed for SimF64 {
    fn abs(&self) -> Self { op(); SimF64(self.0.abs()) }
    fn abs_sub(&self, o: &Self) -> Self { Float::abs_sub(*self, *o) }
    fn signum(&self) -> Self { op(); SimF64(self.0.signum()) }
    fn is_positive(&self) -> bool { self.0.is_sign_positive() }
    fn is_negative(&self) -> bool { self.0.is_sign_negative() }
}
