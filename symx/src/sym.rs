//! `Sym`: the symbolic scalar. It implements the scalar traits the code under test is generic
//! over; arithmetic builds terms, a comparison asks the path engine (and forks when both
//! outcomes are possible).
use crate::eng::{stop, with, Mode, Stop, TRUE};
use crate::rat::Rat;
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use num_traits::{Bounded, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf};
use simba::simd::{PrimitiveSimdValue, SimdValue};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub(crate) u32);

impl Sym {
    pub fn lit(x: f64) -> Sym {
        Sym(with(|e| e.lit(x)))
    }
    pub fn rat(n: i128, d: i128) -> Sym {
        Sym(with(|e| e.rat(Rat::new(n, d).expect("rational"))))
    }
    pub fn konst(self) -> Option<f64> {
        with(|e| e.const_f64(self.0))
    }
    pub fn id(self) -> u32 {
        self.0
    }
    fn fun1(self, f: &'static str) -> Sym {
        Sym(with(|e| e.fun(f, vec![self.0])))
    }
    fn fun2(self, f: &'static str, o: Sym) -> Sym {
        Sym(with(|e| e.fun(f, vec![self.0, o.0])))
    }
    fn is_fp() -> bool {
        with(|e| e.mode == Mode::Fp)
    }
    pub fn s_abs(self) -> Sym {
        Sym(with(|e| e.abs(self.0)))
    }
    pub fn s_sqrt(self) -> Sym {
        Sym(with(|e| e.sqrt(self.0)))
    }
    pub fn s_max(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let c = e.b_lt(self.0, o.0);
            let r = e.ite(c, o.0, self.0);
            if e.mode == Mode::Fp {
                // f64::max returns the other operand when one is NaN
                let (na, nb) = (e.b_nan(self.0), e.b_nan(o.0));
                let r = e.ite(nb, self.0, r);
                e.ite(na, o.0, r)
            } else {
                r
            }
        }))
    }
    pub fn s_min(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let c = e.b_lt(o.0, self.0);
            let r = e.ite(c, o.0, self.0);
            if e.mode == Mode::Fp {
                let (na, nb) = (e.b_nan(self.0), e.b_nan(o.0));
                let r = e.ite(nb, self.0, r);
                e.ite(na, o.0, r)
            } else {
                r
            }
        }))
    }
    pub fn s_signum(self) -> Sym {
        Sym(with(|e| {
            let z = e.rat(Rat::ZERO);
            let (p, m) = (e.rat(Rat::ONE), e.rat(Rat::ONE.neg()));
            let c = e.b_lt(self.0, z);
            let r = e.ite(c, m, p);
            if e.mode == Mode::Fp {
                let n = e.b_nan(self.0);
                e.ite(n, self.0, r)
            } else {
                r
            }
        }))
    }
    pub fn s_recip(self) -> Sym {
        Sym::one() / self
    }
    pub fn s_powi(self, n: i32) -> Sym {
        if n == 0 {
            return Sym::one();
        }
        let mut r: Option<Sym> = None;
        let mut b = self;
        let mut k = n.unsigned_abs();
        while k > 0 {
            if k & 1 == 1 {
                r = Some(match r {
                    None => b,
                    Some(r) => r * b,
                });
            }
            k >>= 1;
            if k > 0 {
                b = b * b;
            }
        }
        let r = r.unwrap();
        if n < 0 {
            r.s_recip()
        } else {
            r
        }
    }
    pub fn s_powf(self, y: Sym) -> Sym {
        if !Self::is_fp() {
            if let Some(r) = with(|e| e.get_rat(y.0)) {
                if r.d == 1 && r.n.abs() <= 64 {
                    return self.s_powi(r.n as i32);
                }
                if r.d <= 12 && r.n.abs() <= 24 {
                    return Sym(with(|e| e.root(self.0, r.n as i64, r.d as i64)));
                }
            }
        }
        self.fun2("powf", y)
    }
    pub fn s_floor(self) -> Sym {
        Sym(with(|e| e.floor(self.0)))
    }
    fn eqb(self, o: Sym) -> bool {
        with(|e| {
            let c = e.b_eq(self.0, o.0);
            e.decide(c)
        })
    }
    fn ltb(self, o: Sym) -> bool {
        with(|e| {
            let c = e.b_lt(self.0, o.0);
            e.decide(c)
        })
    }
    fn leb(self, o: Sym) -> bool {
        with(|e| {
            let c = e.b_le(self.0, o.0);
            e.decide(c)
        })
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $m:ident) => {
        impl $tr<Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                Sym(with(|e| e.$m(self.0, o.0)))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                Sym(with(|e| e.$m(self.0, o.0)))
            }
        }
        impl<'a> $tr<Sym> for &'a Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                Sym(with(|e| e.$m(self.0, o.0)))
            }
        }
        impl<'a, 'b> $tr<&'a Sym> for &'b Sym {
            type Output = Sym;
            fn $f(self, o: &'a Sym) -> Sym {
                Sym(with(|e| e.$m(self.0, o.0)))
            }
        }
        impl $atr<Sym> for Sym {
            fn $af(&mut self, o: Sym) {
                *self = Sym(with(|e| e.$m(self.0, o.0)));
            }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $af(&mut self, o: &'a Sym) {
                *self = Sym(with(|e| e.$m(self.0, o.0)));
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add);
binop!(Sub, sub, SubAssign, sub_assign, sub);
binop!(Mul, mul, MulAssign, mul_assign, mul);
binop!(Div, div, DivAssign, div_assign, div);
impl crate::eng::Eng {
    pub fn rem(&mut self, a: u32, b: u32) -> u32 {
        self.fun("rem", vec![a, b])
    }
}
binop!(Rem, rem, RemAssign, rem_assign, rem);
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|e| e.neg(self.0)))
    }
}
impl<'a> Neg for &'a Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        -*self
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.eqb(*o)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.ltb(*o) {
            Some(Ordering::Less)
        } else if self.eqb(*o) {
            Some(Ordering::Equal)
        } else if !Sym::is_fp() || o.ltb(*self) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        self.ltb(*o)
    }
    fn le(&self, o: &Sym) -> bool {
        self.leb(*o)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.ltb(*self)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.leb(*self)
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.konst() {
            Some(x) => write!(f, "{x}"),
            None => write!(f, "<{}>", self.0),
        }
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::zero()
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::lit(0.0)
    }
    fn is_zero(&self) -> bool {
        self.eqb(Sym::zero())
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::lit(1.0)
    }
}
impl Num for Sym {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, Self::FromStrRadixErr> {
        <f64 as Num>::from_str_radix(s, r).map(Sym::lit)
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        self.s_abs()
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        (*self - *o).s_max(Sym::zero())
    }
    fn signum(&self) -> Sym {
        self.s_signum()
    }
    fn is_positive(&self) -> bool {
        Sym::zero().ltb(*self)
    }
    fn is_negative(&self) -> bool {
        self.ltb(Sym::zero())
    }
}
impl Bounded for Sym {
    fn min_value() -> Sym {
        Sym::lit(f64::MIN)
    }
    fn max_value() -> Sym {
        Sym::lit(f64::MAX)
    }
}
fn concrete(s: &Sym, what: &str) -> f64 {
    match s.konst() {
        Some(x) => x,
        None => stop(Stop::Unsupported(format!("concretising a symbolic value ({what})"))),
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        concrete(self, "to_i64").to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        concrete(self, "to_u64").to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        match self.konst() {
            // for messages only: the opaque value must not come back as a scalar
            None if OPAQUE_OK.load(std::sync::atomic::Ordering::Relaxed) => Some(f64::from_bits(OPAQUE)),
            _ => Some(concrete(self, "to_f64")),
        }
    }
}
/// what a symbolic value looks like after a conversion to f64: a NaN with a payload of its own
pub static OPAQUE_OK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const OPAQUE: u64 = 0x7ff8_5359_4d42_4f4c;
fn from_opaque(x: f64) -> Sym {
    if x.to_bits() & !(1 << 63) == OPAQUE {
        stop(Stop::Unsupported("a symbolic value went through f64 and came back".into()))
    }
    Sym::lit(x)
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(if Sym::is_fp() { Sym::lit(n as f64) } else { Sym::rat(n as i128, 1) })
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(if Sym::is_fp() { Sym::lit(n as f64) } else { Sym::rat(n as i128, 1) })
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Some(from_opaque(n))
    }
    fn from_f32(n: f32) -> Option<Sym> {
        Some(Sym::lit(n as f64))
    }
}
impl NumCast for Sym {
    fn from<P: ToPrimitive>(n: P) -> Option<Sym> {
        // integers convert exactly; Sym itself only when constant
        n.to_f64().map(from_opaque)
    }
}
macro_rules! from_prim {
    ($($t:ty),*) => {$(
        impl From<$t> for Sym { fn from(x: $t) -> Sym { Sym::lit(x as f64) } }
    )*};
}
from_prim!(u8, u16, u32, i8, i16, i32, f32, f64);
impl Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        // as core does for floats: fold from -0.0 (0.0 in the reals)
        let z = if Sym::is_fp() { Sym::lit(-0.0) } else { Sym::zero() };
        it.fold(z, |a, b| a + b)
    }
}
impl<'a> Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.copied().sum()
    }
}
impl Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * b)
    }
}
impl<'a> Product<&'a Sym> for Sym {
    fn product<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.copied().product()
    }
}
impl AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym::lit(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Sym, eps: Sym) -> bool {
        (*self - *o).s_abs() <= eps
    }
}
impl RelativeEq for Sym {
    fn default_max_relative() -> Sym {
        Sym::lit(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Sym, eps: Sym, max_rel: Sym) -> bool {
        if *self == *o {
            return true;
        }
        let d = (*self - *o).s_abs();
        if d <= eps {
            return true;
        }
        d <= self.s_abs().s_max(o.s_abs()) * max_rel
    }
}
impl UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, eps: Sym, ulps: u32) -> bool {
        let d = (*self - *o).s_abs();
        d <= eps || d <= self.s_abs().s_max(o.s_abs()) * Sym::lit(f64::EPSILON * ulps as f64)
    }
}
impl SimdValue for Sym {
    type Element = Sym;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Sym) -> Sym {
        v
    }
    fn extract(&self, _: usize) -> Sym {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sym {
        *self
    }
    fn replace(&mut self, _: usize, v: Sym) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sym) {
        *self = v
    }
    fn select(self, c: bool, o: Sym) -> Sym {
        if c {
            self
        } else {
            o
        }
    }
}
impl PrimitiveSimdValue for Sym {}
impl Field for Sym {}
impl SubsetOf<Sym> for Sym {
    fn to_superset(&self) -> Sym {
        *self
    }
    fn from_superset_unchecked(e: &Sym) -> Sym {
        *e
    }
    fn is_in_subset(_: &Sym) -> bool {
        true
    }
}
macro_rules! subset {
    ($($t:ty),*) => {$(
        impl SubsetOf<Sym> for $t {
            fn to_superset(&self) -> Sym { Sym::lit(*self as f64) }
            fn from_superset_unchecked(e: &Sym) -> $t { concrete(e, "from_superset") as $t }
            fn is_in_subset(e: &Sym) -> bool { e.konst().is_some() }
        }
    )*};
}
subset!(f64, f32, i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);

/// floor/ceil/... and everything the num-traits and simba traits share, written once
macro_rules! shared {
    ($self_t:ty) => {
        fn floor(self) -> Sym {
            self.s_floor()
        }
        fn ceil(self) -> Sym {
            -((-self).s_floor())
        }
        fn round(self) -> Sym {
            if self.ltb(Sym::zero()) {
                -((-self + Sym::lit(0.5)).s_floor())
            } else {
                (self + Sym::lit(0.5)).s_floor()
            }
        }
        fn trunc(self) -> Sym {
            if self.ltb(Sym::zero()) {
                -((-self).s_floor())
            } else {
                self.s_floor()
            }
        }
        fn fract(self) -> Sym {
            if self.ltb(Sym::zero()) {
                self + (-self).s_floor()
            } else {
                self - self.s_floor()
            }
        }
        fn mul_add(self, a: Sym, b: Sym) -> Sym {
            if Sym::is_fp() {
                Sym(with(|e| e.fun("fma", vec![self.0, a.0, b.0])))
            } else {
                self * a + b
            }
        }
        fn recip(self) -> Sym {
            self.s_recip()
        }
        fn powi(self, n: i32) -> Sym {
            self.s_powi(n)
        }
        fn powf(self, n: Sym) -> Sym {
            self.s_powf(n)
        }
        fn sqrt(self) -> Sym {
            self.s_sqrt()
        }
        fn exp(self) -> Sym {
            self.fun1("exp")
        }
        fn exp2(self) -> Sym {
            self.fun1("exp2")
        }
        fn exp_m1(self) -> Sym {
            self.fun1("exp_m1")
        }
        fn ln(self) -> Sym {
            self.fun1("ln")
        }
        fn ln_1p(self) -> Sym {
            self.fun1("ln_1p")
        }
        fn log2(self) -> Sym {
            self.fun1("log2")
        }
        fn log10(self) -> Sym {
            self.fun1("log10")
        }
        fn cbrt(self) -> Sym {
            self.fun1("cbrt")
        }
        fn hypot(self, o: Sym) -> Sym {
            (self * self + o * o).s_sqrt()
        }
        fn sin(self) -> Sym {
            self.fun1("sin")
        }
        fn cos(self) -> Sym {
            self.fun1("cos")
        }
        fn tan(self) -> Sym {
            self.fun1("tan")
        }
        fn asin(self) -> Sym {
            self.fun1("asin")
        }
        fn acos(self) -> Sym {
            self.fun1("acos")
        }
        fn atan(self) -> Sym {
            self.fun1("atan")
        }
        fn sin_cos(self) -> (Sym, Sym) {
            (self.fun1("sin"), self.fun1("cos"))
        }
        fn sinh(self) -> Sym {
            self.fun1("sinh")
        }
        fn cosh(self) -> Sym {
            self.fun1("cosh")
        }
        fn tanh(self) -> Sym {
            self.fun1("tanh")
        }
        fn asinh(self) -> Sym {
            self.fun1("asinh")
        }
        fn acosh(self) -> Sym {
            self.fun1("acosh")
        }
        fn atanh(self) -> Sym {
            self.fun1("atanh")
        }
        fn log(self, b: Sym) -> Sym {
            self.fun1("ln") / b.fun1("ln")
        }
        fn abs(self) -> Sym {
            self.s_abs()
        }
        fn signum(self) -> Sym {
            self.s_signum()
        }
    };
}
impl ComplexField for Sym {
    type RealField = Sym;
    shared!(Sym);
    fn from_real(re: Sym) -> Sym {
        re
    }
    fn real(self) -> Sym {
        self
    }
    fn imaginary(self) -> Sym {
        Sym::zero()
    }
    fn modulus(self) -> Sym {
        self.s_abs()
    }
    fn modulus_squared(self) -> Sym {
        self * self
    }
    fn argument(self) -> Sym {
        if self.ltb(Sym::zero()) {
            Sym::lit(std::f64::consts::PI)
        } else {
            Sym::zero()
        }
    }
    fn norm1(self) -> Sym {
        self.s_abs()
    }
    fn scale(self, f: Sym) -> Sym {
        self * f
    }
    fn unscale(self, f: Sym) -> Sym {
        self / f
    }
    fn conjugate(self) -> Sym {
        self
    }
    fn powc(self, n: Sym) -> Sym {
        self.s_powf(n)
    }
    fn is_finite(&self) -> bool {
        if !Sym::is_fp() {
            return true;
        }
        with(|e| {
            let m = e.lit(f64::MAX);
            let a = e.abs(self.0);
            let c = e.b_le(a, m);
            e.decide(c)
        })
    }
    fn try_sqrt(self) -> Option<Sym> {
        if Sym::zero().leb(self) {
            Some(self.s_sqrt())
        } else {
            None
        }
    }
}
impl RealField for Sym {
    fn is_sign_positive(&self) -> bool {
        if Sym::is_fp() {
            stop(Stop::Unsupported("sign bit".into()))
        }
        Sym::zero().leb(*self)
    }
    fn is_sign_negative(&self) -> bool {
        !self.is_sign_positive_()
    }
    fn copysign(self, s: Sym) -> Sym {
        self.s_abs() * s.s_signum()
    }
    fn max(self, o: Sym) -> Sym {
        self.s_max(o)
    }
    fn min(self, o: Sym) -> Sym {
        self.s_min(o)
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        self.s_max(lo).s_min(hi)
    }
    fn atan2(self, o: Sym) -> Sym {
        self.fun2("atan2", o)
    }
    fn min_value() -> Option<Sym> {
        Some(Sym::lit(f64::MIN))
    }
    fn max_value() -> Option<Sym> {
        Some(Sym::lit(f64::MAX))
    }
    fn pi() -> Sym {
        Sym::lit(std::f64::consts::PI)
    }
    fn two_pi() -> Sym {
        Sym::lit(2.0 * std::f64::consts::PI)
    }
    fn frac_pi_2() -> Sym {
        Sym::lit(std::f64::consts::FRAC_PI_2)
    }
    fn frac_pi_3() -> Sym {
        Sym::lit(std::f64::consts::FRAC_PI_3)
    }
    fn frac_pi_4() -> Sym {
        Sym::lit(std::f64::consts::FRAC_PI_4)
    }
    fn frac_pi_6() -> Sym {
        Sym::lit(std::f64::consts::FRAC_PI_6)
    }
    fn frac_pi_8() -> Sym {
        Sym::lit(std::f64::consts::FRAC_PI_8)
    }
    fn frac_1_pi() -> Sym {
        Sym::lit(std::f64::consts::FRAC_1_PI)
    }
    fn frac_2_pi() -> Sym {
        Sym::lit(std::f64::consts::FRAC_2_PI)
    }
    fn frac_2_sqrt_pi() -> Sym {
        Sym::lit(std::f64::consts::FRAC_2_SQRT_PI)
    }
    fn e() -> Sym {
        Sym::lit(std::f64::consts::E)
    }
    fn log2_e() -> Sym {
        Sym::lit(std::f64::consts::LOG2_E)
    }
    fn log10_e() -> Sym {
        Sym::lit(std::f64::consts::LOG10_E)
    }
    fn ln_2() -> Sym {
        Sym::lit(std::f64::consts::LN_2)
    }
    fn ln_10() -> Sym {
        Sym::lit(std::f64::consts::LN_10)
    }
}
impl Sym {
    fn is_sign_positive_(&self) -> bool {
        RealField::is_sign_positive(self)
    }
}
impl num_traits::Float for Sym {
    shared!(Sym);
    fn nan() -> Sym {
        if !Sym::is_fp() {
            stop(Stop::Unsupported("NaN constant in real arithmetic".into()))
        }
        Sym::lit(f64::NAN)
    }
    fn infinity() -> Sym {
        Sym::lit(f64::INFINITY)
    }
    fn neg_infinity() -> Sym {
        Sym::lit(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Sym {
        Sym::lit(-0.0)
    }
    fn min_value() -> Sym {
        Sym::lit(f64::MIN)
    }
    fn min_positive_value() -> Sym {
        Sym::lit(f64::MIN_POSITIVE)
    }
    fn max_value() -> Sym {
        Sym::lit(f64::MAX)
    }
    fn epsilon() -> Sym {
        Sym::lit(f64::EPSILON)
    }
    fn is_nan(self) -> bool {
        with(|e| {
            let c = e.b_nan(self.0);
            e.decide(c)
        })
    }
    fn is_infinite(self) -> bool {
        Sym::is_fp() && !num_traits::Float::is_nan(self) && !ComplexField::is_finite(&self)
    }
    fn is_finite(self) -> bool {
        ComplexField::is_finite(&self)
    }
    fn is_normal(self) -> bool {
        !self.eqb(Sym::zero()) && ComplexField::is_finite(&self)
    }
    fn classify(self) -> std::num::FpCategory {
        if self.eqb(Sym::zero()) {
            std::num::FpCategory::Zero
        } else {
            std::num::FpCategory::Normal
        }
    }
    fn is_sign_positive(self) -> bool {
        self.is_sign_positive_()
    }
    fn is_sign_negative(self) -> bool {
        !self.is_sign_positive_()
    }
    fn max(self, o: Sym) -> Sym {
        self.s_max(o)
    }
    fn min(self, o: Sym) -> Sym {
        self.s_min(o)
    }
    fn abs_sub(self, o: Sym) -> Sym {
        (self - o).s_max(Sym::zero())
    }
    fn atan2(self, o: Sym) -> Sym {
        self.fun2("atan2", o)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        num_traits::Float::integer_decode(concrete(&self, "integer_decode"))
    }
}
impl num_traits::FloatConst for Sym {
    fn E() -> Sym { Sym::lit(std::f64::consts::E) }
    fn FRAC_1_PI() -> Sym { Sym::lit(std::f64::consts::FRAC_1_PI) }
    fn FRAC_1_SQRT_2() -> Sym { Sym::lit(std::f64::consts::FRAC_1_SQRT_2) }
    fn FRAC_2_PI() -> Sym { Sym::lit(std::f64::consts::FRAC_2_PI) }
    fn FRAC_2_SQRT_PI() -> Sym { Sym::lit(std::f64::consts::FRAC_2_SQRT_PI) }
    fn FRAC_PI_2() -> Sym { Sym::lit(std::f64::consts::FRAC_PI_2) }
    fn FRAC_PI_3() -> Sym { Sym::lit(std::f64::consts::FRAC_PI_3) }
    fn FRAC_PI_4() -> Sym { Sym::lit(std::f64::consts::FRAC_PI_4) }
    fn FRAC_PI_6() -> Sym { Sym::lit(std::f64::consts::FRAC_PI_6) }
    fn FRAC_PI_8() -> Sym { Sym::lit(std::f64::consts::FRAC_PI_8) }
    fn LN_10() -> Sym { Sym::lit(std::f64::consts::LN_10) }
    fn LN_2() -> Sym { Sym::lit(std::f64::consts::LN_2) }
    fn LOG10_E() -> Sym { Sym::lit(std::f64::consts::LOG10_E) }
    fn LOG2_E() -> Sym { Sym::lit(std::f64::consts::LOG2_E) }
    fn PI() -> Sym { Sym::lit(std::f64::consts::PI) }
    fn SQRT_2() -> Sym { Sym::lit(std::f64::consts::SQRT_2) }
}
#[allow(dead_code)]
fn _unused() -> u32 {
    TRUE
}
