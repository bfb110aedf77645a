//! `Sym` as a scalar of the library, `f64` as its native counterpart, and the harness interface.
use crate::engine::*;
use crate::poly::Rat;
use cglinalg_numeric::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::ops::*;

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sym({})", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sym({})", self.0)
    }
}
macro_rules! bin {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $m:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                eng(|e| e.$m(self, o))
            }
        }
        impl $atr for Sym {
            fn $af(&mut self, o: Sym) {
                *self = eng(|e| e.$m(*self, o));
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, sadd);
bin!(Sub, sub, SubAssign, sub_assign, ssub);
bin!(Mul, mul, MulAssign, mul_assign, smul);
bin!(Div, div, DivAssign, div_assign, sdiv);
fn srem(x: Sym, y: Sym) -> Sym {
    // x - y * trunc(x / y)
    eng(|e| {
        let q = e.sdiv(x, y);
        let t = e.trunc(q);
        let p = e.smul(y, t);
        e.ssub(x, p)
    })
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        srem(self, o)
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, o: Sym) {
        *self = srem(*self, o);
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        eng(|e| e.sneg(self))
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        eng(|e| e.branch(*self, *o, ZERO))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        eng(|e| e.three(*self, *o)).map(|x| x.cmp(&0))
    }
    fn lt(&self, o: &Sym) -> bool {
        eng(|e| e.branch(*self, *o, NEG))
    }
    fn le(&self, o: &Sym) -> bool {
        eng(|e| e.branch(*self, *o, NEG | ZERO))
    }
    fn gt(&self, o: &Sym) -> bool {
        eng(|e| e.branch(*self, *o, POS))
    }
    fn ge(&self, o: &Sym) -> bool {
        eng(|e| e.branch(*self, *o, POS | ZERO))
    }
}
fn k(x: f64) -> Sym {
    eng(|e| e.constant(x))
}
pub fn rational(n: i128, d: i128) -> Sym {
    eng(|e| e.rat(Rat::new(n, d).unwrap()))
}
impl num_traits::Zero for Sym {
    fn zero() -> Sym {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym(0)
    }
}
impl num_traits::One for Sym {
    fn one() -> Sym {
        Sym(1)
    }
}
impl num_traits::Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl num_traits::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        eng(|e| e.const_f64(*self)).map(|x| x as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        eng(|e| e.const_f64(*self)).and_then(|x| if x < 0.0 { None } else { Some(x as u64) })
    }
    fn to_f64(&self) -> Option<f64> {
        eng(|e| e.const_f64(*self))
    }
    /// carries the term itself to `Cst`
    fn to_u128(&self) -> Option<u128> {
        Some(self.0 as u128)
    }
}
/// Target of casts from `Sym`: accepts exactly the numbers that truncate to an `i16`.
#[derive(Clone, Copy)]
pub struct Cst(pub Sym);
impl num_traits::ToPrimitive for Cst {
    fn to_i64(&self) -> Option<i64> {
        None
    }
    fn to_u64(&self) -> Option<u64> {
        None
    }
}
impl num_traits::NumCast for Cst {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Cst> {
        let s = Sym(n.to_u128()? as u32);
        if <Sym as Scal>::castable(s) { Some(Cst(s)) } else { None }
    }
}
impl num_traits::NumCast for Sym {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(k)
    }
}
impl num_traits::Signed for Sym {
    fn abs(&self) -> Sym {
        eng(|e| e.abs(*self))
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o { Sym(0) } else { *self - *o }
    }
    fn signum(&self) -> Sym {
        sgn(*self)
    }
    fn is_positive(&self) -> bool {
        *self > Sym(0)
    }
    fn is_negative(&self) -> bool {
        *self < Sym(0)
    }
}
/// IEEE signum/sign bit with +0 for zero.
fn sgn(x: Sym) -> Sym {
    if x < Sym(0) { -Sym(1) } else { Sym(1) }
}
impl SimdScalarSigned for Sym {
    fn is_sign_positive(self) -> bool {
        !(self < Sym(0))
    }
    fn is_sign_negative(self) -> bool {
        self < Sym(0)
    }
    fn copysign(self, s: Sym) -> Sym {
        let a = eng(|e| e.abs(self));
        if s < Sym(0) { -a } else { a }
    }
    fn signum(self) -> Sym {
        sgn(self)
    }
    fn abs(self) -> Sym {
        eng(|e| e.abs(self))
    }
}
impl SimdScalarOrd for Sym {
    fn max(self, o: Sym) -> Sym {
        if self < o { o } else { self }
    }
    fn min(self, o: Sym) -> Sym {
        if self > o { o } else { self }
    }
    fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
}
impl SimdScalarBounded for Sym {
    fn min_value() -> Sym {
        k(f64::MIN)
    }
    fn max_value() -> Sym {
        k(f64::MAX)
    }
}
fn sdiff(a: &Sym, b: &Sym) -> Sym {
    let d = *a - *b;
    eng(|e| e.abs(d))
}
impl approx_cmp::AbsDiffEq for Sym {
    type Tolerance = Sym;
    fn abs_diff_eq(&self, o: &Sym, t: &Sym) -> bool {
        sdiff(self, o) <= *t
    }
}
impl approx_cmp::AbsDiffAllEq for Sym {
    type AllTolerance = Sym;
    fn abs_diff_all_eq(&self, o: &Sym, t: &Sym) -> bool {
        sdiff(self, o) <= *t
    }
}
impl approx_cmp::AssertAbsDiffEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugTolerance = Sym;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        // symmetric, zero exactly for equal operands, without branches
        (*self - *o) * (*self - *o)
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
impl approx_cmp::AssertAbsDiffAllEq for Sym {
    type AllDebugTolerance = Sym;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
}
fn srel(a: &Sym, b: &Sym, t: &Sym, r: &Sym) -> bool {
    let d = sdiff(a, b);
    if d <= *t {
        return true;
    }
    let m = SimdScalarOrd::max(SimdScalarSigned::abs(*a), SimdScalarSigned::abs(*b));
    d <= m * *r
}
impl approx_cmp::RelativeEq for Sym {
    type Tolerance = Sym;
    fn relative_eq(&self, o: &Sym, t: &Sym, r: &Sym) -> bool {
        srel(self, o, t, r)
    }
}
impl approx_cmp::RelativeAllEq for Sym {
    type AllTolerance = Sym;
    fn relative_all_eq(&self, o: &Sym, t: &Sym, r: &Sym) -> bool {
        srel(self, o, t, r)
    }
}
impl approx_cmp::AssertRelativeEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugTolerance = Sym;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        // symmetric, zero exactly for equal operands, without branches
        (*self - *o) * (*self - *o)
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    // a symmetric function of both operands and the tolerance, without branches
    fn debug_relative_tolerance(&self, o: &Sym, t: &Sym) -> Sym {
        *t * (*self * *self + *o * *o)
    }
}
impl approx_cmp::AssertRelativeAllEq for Sym {
    type AllDebugTolerance = Sym;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_relative_all_tolerance(&self, o: &Sym, t: &Sym) -> Sym {
        *t * (*self * *self + *o * *o)
    }
}
// ULPs have no meaning over the reals: the distance in ULPs is modelled as the distance itself, an
// arbitrary metric as far as the composite comparisons are concerned, in the harnesses that ask for it
// (S::ulps); for the library's own uses only the absolute tolerance counts.
fn sulps(a: &Sym, b: &Sym, t: &Sym, u: &u64) -> bool {
    let d = sdiff(a, b);
    d <= *t || (eng(|e| e.ulps_unit) && d <= rational(*u as i128, 1))
}
impl approx_cmp::UlpsEq for Sym {
    type Tolerance = Sym;
    type UlpsTolerance = u64;
    fn ulps_eq(&self, o: &Sym, t: &Sym, u: &u64) -> bool {
        sulps(self, o, t, u)
    }
}
impl approx_cmp::UlpsAllEq for Sym {
    type AllTolerance = Sym;
    type AllUlpsTolerance = u64;
    fn ulps_all_eq(&self, o: &Sym, t: &Sym, u: &u64) -> bool {
        sulps(self, o, t, u)
    }
}
impl approx_cmp::AssertUlpsEq for Sym {
    type DebugAbsDiff = Sym;
    type DebugUlpsDiff = Option<u64>;
    type DebugTolerance = Sym;
    type DebugUlpsTolerance = u64;
    fn debug_abs_diff(&self, o: &Sym) -> Sym {
        // symmetric, zero exactly for equal operands, without branches
        (*self - *o) * (*self - *o)
    }
    fn debug_ulps_diff(&self, o: &Sym) -> Option<u64> {
        // a symmetric function that tells any two pairs of operands apart
        let (a, b) = (self.0.min(o.0) as u64, self.0.max(o.0) as u64);
        Some(if a == b { 0 } else { a << 32 | b })
    }
    fn debug_abs_diff_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_ulps_tolerance(&self, _: &Sym, u: &u64) -> u64 {
        *u
    }
}
impl approx_cmp::AssertUlpsAllEq for Sym {
    type AllDebugTolerance = Sym;
    type AllDebugUlpsTolerance = u64;
    fn debug_abs_diff_all_tolerance(&self, _: &Sym, t: &Sym) -> Sym {
        *t
    }
    fn debug_ulps_all_tolerance(&self, _: &Sym, u: &u64) -> u64 {
        *u
    }
}
impl SimdScalarCmp for Sym {
    type IntegerRepr = u64;
    fn default_epsilon() -> Sym {
        k(f64::EPSILON)
    }
    fn default_max_ulps() -> u64 {
        4
    }
}
fn half() -> Sym {
    rational(1, 2)
}
fn expo(x: Sym) -> Sym {
    eng(|e| e.exp(x))
}
fn lnn(x: Sym) -> Sym {
    eng(|e| e.ln(x))
}
fn sq(x: Sym) -> Sym {
    eng(|e| e.sqrt(x))
}
fn sfloor(x: Sym) -> Sym {
    eng(|e| e.floor(x))
}
fn pif(n: i128, d: i128) -> Sym {
    eng(|e| e.pi()) * rational(n, d)
}
impl SimdScalarFloat for Sym {
    fn floor(self) -> Sym {
        sfloor(self)
    }
    fn ceil(self) -> Sym {
        -sfloor(-self)
    }
    fn round(self) -> Sym {
        if self < Sym(0) { -sfloor(half() - self) } else { sfloor(self + half()) }
    }
    fn trunc(self) -> Sym {
        eng(|e| e.trunc(self))
    }
    fn fract(self) -> Sym {
        self - eng(|e| e.trunc(self))
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn hypot(self, o: Sym) -> Sym {
        sq(self * self + o * o)
    }
    fn recip(self) -> Sym {
        Sym(1) / self
    }
    fn atan2(self, o: Sym) -> Sym {
        eng(|e| e.atan2(self, o))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        let (c, s) = eng(|e| e.cos_sin(self));
        (s, c)
    }
    fn sin(self) -> Sym {
        eng(|e| e.cos_sin(self)).1
    }
    fn cos(self) -> Sym {
        eng(|e| e.cos_sin(self)).0
    }
    fn tan(self) -> Sym {
        let (c, s) = eng(|e| e.cos_sin(self));
        s / c
    }
    fn asin(self) -> Sym {
        eng(|e| e.asin(self))
    }
    fn acos(self) -> Sym {
        eng(|e| e.acos(self))
    }
    fn atan(self) -> Sym {
        eng(|e| e.atan(self))
    }
    fn sinh(self) -> Sym {
        let x = expo(self);
        (x - Sym(1) / x) * half()
    }
    fn cosh(self) -> Sym {
        let x = expo(self);
        (x + Sym(1) / x) * half()
    }
    fn tanh(self) -> Sym {
        let x = expo(self);
        let y = x * x;
        (y - Sym(1)) / (y + Sym(1))
    }
    fn asinh(self) -> Sym {
        lnn(self + sq(self * self + Sym(1)))
    }
    fn acosh(self) -> Sym {
        lnn(self + sq(self * self - Sym(1)))
    }
    fn atanh(self) -> Sym {
        half() * lnn((Sym(1) + self) / (Sym(1) - self))
    }
    fn log(self, base: Sym) -> Sym {
        lnn(self) / lnn(base)
    }
    fn log2(self) -> Sym {
        lnn(self) / lnn(rational(2, 1))
    }
    fn log10(self) -> Sym {
        lnn(self) / lnn(rational(10, 1))
    }
    fn ln(self) -> Sym {
        lnn(self)
    }
    fn ln_1p(self) -> Sym {
        lnn(Sym(1) + self)
    }
    fn sqrt(self) -> Sym {
        sq(self)
    }
    fn cbrt(self) -> Sym {
        eng(|e| e.cbrt(self))
    }
    fn exp(self) -> Sym {
        expo(self)
    }
    fn exp2(self) -> Sym {
        expo(self * lnn(rational(2, 1)))
    }
    fn exp_m1(self) -> Sym {
        expo(self) - Sym(1)
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { Sym(1) / r } else { r }
    }
    fn powf(self, n: Sym) -> Sym {
        if let Some(c) = eng(|e| e.const_f64(n)) {
            if c == 0.5 {
                return sq(self);
            }
            let inv = (1.0 / c).round();
            if (1.0..=16.0).contains(&inv) && (1.0 / inv - c).abs() < 1e-15 {
                return eng(|e| e.root(self, inv as u32));
            }
            if c.fract() == 0.0 && c.abs() < 64.0 {
                return SimdScalarFloat::powi(self, c as i32);
            }
        }
        expo(n * lnn(self))
    }
    fn is_finite(self) -> bool {
        !eng(|e| e.is_bad(self))
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_nan(self) -> bool {
        eng(|e| e.is_bad(self))
    }
    fn is_normal(self) -> bool {
        !eng(|e| e.is_bad(self)) && self != Sym(0)
    }
    fn is_subnormal(self) -> bool {
        false
    }
    fn min_positive_value() -> Sym {
        k(f64::MIN_POSITIVE)
    }
    fn pi() -> Sym {
        pif(1, 1)
    }
    fn two_pi() -> Sym {
        pif(2, 1)
    }
    fn frac_pi_2() -> Sym {
        pif(1, 2)
    }
    fn frac_pi_3() -> Sym {
        pif(1, 3)
    }
    fn frac_pi_4() -> Sym {
        pif(1, 4)
    }
    fn frac_pi_6() -> Sym {
        pif(1, 6)
    }
    fn frac_pi_8() -> Sym {
        pif(1, 8)
    }
    fn frac_1_pi() -> Sym {
        Sym(1) / pif(1, 1)
    }
    fn frac_2_pi() -> Sym {
        rational(2, 1) / pif(1, 1)
    }
    fn frac_2_sqrt_pi() -> Sym {
        rational(2, 1) / sq(pif(1, 1))
    }
    fn e() -> Sym {
        expo(Sym(1))
    }
    fn log2_e() -> Sym {
        Sym(1) / lnn(rational(2, 1))
    }
    fn log10_e() -> Sym {
        Sym(1) / lnn(rational(10, 1))
    }
    fn ln_2() -> Sym {
        lnn(rational(2, 1))
    }
    fn ln_10() -> Sym {
        lnn(rational(10, 1))
    }
    fn sqrt_2() -> Sym {
        sq(rational(2, 1))
    }
    fn frac_1_sqrt_2() -> Sym {
        sq(rational(2, 1)) * half()
    }
    fn nan() -> Sym {
        eng(|e| e.bad())
    }
    fn infinity() -> Sym {
        eng(|e| e.bad())
    }
    fn neg_infinity() -> Sym {
        eng(|e| e.bad())
    }
    fn neg_zero() -> Sym {
        Sym(0)
    }
    fn machine_epsilon() -> Sym {
        k(f64::EPSILON)
    }
}

// ------------------------------------------------------------------------------------ harness side
pub trait Scal: SimdScalarFloat + approx_cmp::AssertUlpsAllEq<AllDebugUlpsTolerance = u64> + 'static {
    const SYMBOLIC: bool;
    /// another number type, and whether / to what a number casts to it
    type Target: num_traits::NumCast + Copy;
    fn castable(x: Self) -> bool;
    fn h_cast(name: &str, t: Self::Target, x: Self);
    fn var(name: &str) -> Self;
    fn rat(n: i64, d: i64) -> Self;
    fn assume(c: bool);
    fn h_eq(name: &str, a: Self, b: Self);
    fn h_eq_known(name: &str, a: Self, b: Self, known: Self);
    fn h_le(name: &str, a: Self, b: Self);
    fn h_lt(name: &str, a: Self, b: Self);
    fn h_true(name: &str, c: bool);
    fn h_int(name: &str, x: Self);
    /// input with square rhs >= 0 (sign free)
    fn var_sq(name: &str, rhs: Self) -> Self;
    fn assume_eq(a: Self, b: Self);
    /// from here on, equality tests of the code under test may fail although the operands are equal over the reals
    fn loose(on: bool);
    fn ulps(n: u64) -> Self::IntegerRepr;
    /// the number n representable numbers further from zero (over the reals one unit in the last place is the unit)
    fn ulp_step(x: Self, n: i64) -> Self;
    /// the number a leaf of a printed value stands for
    fn parse(leaf: &str) -> Option<Self>;
}

fn gname(name: &str) -> String {
    name.to_string()
}

impl Scal for Sym {
    const SYMBOLIC: bool = true;
    fn parse(leaf: &str) -> Option<Sym> {
        Some(Sym(leaf.strip_prefix("Sym(")?.strip_suffix(')')?.parse().ok()?))
    }
    type Target = Cst;
    fn castable(x: Sym) -> bool {
        x > rational(-32769, 1) && x < rational(32768, 1)
    }
    fn h_cast(name: &str, t: Cst, x: Sym) {
        Self::h_eq(name, t.0, x)
    }
    fn var(name: &str) -> Sym {
        eng(|e| e.input(name))
    }
    fn rat(n: i64, d: i64) -> Sym {
        rational(n as i128, d as i128)
    }
    fn assume(c: bool) {
        if !c {
            std::panic::panic_any(PathAbort("assume"));
        }
    }
    fn h_eq(name: &str, a: Sym, b: Sym) {
        eng(|e| e.goal_eq(&gname(name), a, b))
    }
    fn h_eq_known(name: &str, a: Sym, b: Sym, known: Sym) {
        eng(|e| e.goal_eq_known(&gname(name), a, b, known))
    }
    fn h_le(name: &str, a: Sym, b: Sym) {
        eng(|e| e.goal_cmp(&gname(name), a, b, NEG | ZERO))
    }
    fn h_lt(name: &str, a: Sym, b: Sym) {
        eng(|e| e.goal_cmp(&gname(name), a, b, NEG))
    }
    fn h_true(name: &str, c: bool) {
        eng(|e| {
            if c {
                e.record(&gname(name), Verdict::Proved, vec![], "", "control flow of this path")
            } else {
                e.goal_false(&gname(name), "condition false on this path")
            }
        })
    }
    fn h_int(name: &str, x: Sym) {
        eng(|e| e.goal_int(&gname(name), x))
    }
    fn var_sq(name: &str, rhs: Sym) -> Sym {
        let z = Sym(0);
        Self::assume(rhs >= z);
        let v = eng(|e| e.input(name));
        eng(|e| e.assume_square(v, rhs));
        v
    }
    fn assume_eq(a: Sym, b: Sym) {
        eng(|e| e.assume_eq(a, b))
    }
    fn loose(on: bool) {
        eng(|e| e.loose = on)
    }
    fn ulps(n: u64) -> u64 {
        eng(|e| e.ulps_unit = true);
        n
    }
    fn ulp_step(x: Sym, n: i64) -> Sym {
        x + rational(n as i128, 1)
    }
}

#[derive(Default)]
pub struct Nat {
    pub inputs: HashMap<String, f64>,
    pub failed: Vec<(String, String)>,
    pub trace: Vec<String>,
    pub asked: Vec<String>,
    pub checked: u64,
}
thread_local! { pub static NAT: RefCell<Nat> = RefCell::new(Nat::default()); }
pub struct NatSkip;

fn nat_fail(name: &str, msg: String) {
    NAT.with(|n| n.borrow_mut().failed.push((name.to_string(), msg)));
}
fn nat_checked() {
    NAT.with(|n| n.borrow_mut().checked += 1);
}
pub const TOL: f64 = 1e-6;
/// relative up to a million, and what rounding can amount to beyond
fn nat_tol(a: f64, b: f64) -> f64 {
    let m = a.abs().max(b.abs());
    TOL * (1.0 + m.min(1e6)) + 1e-11 * m.min(1e300)
}
impl Scal for f64 {
    const SYMBOLIC: bool = false;
    fn parse(leaf: &str) -> Option<f64> {
        leaf.parse().ok()
    }
    type Target = i16;
    fn castable(x: f64) -> bool {
        x > -32769.0 && x < 32768.0
    }
    fn h_cast(name: &str, t: i16, x: f64) {
        Self::h_true(name, t == x.trunc() as i16)
    }
    fn var(name: &str) -> f64 {
        NAT.with(|n| n.borrow_mut().asked.push(name.to_string()));
        NAT.with(|n| *n.borrow().inputs.get(name).unwrap_or(&0.75))
    }
    fn rat(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn assume(c: bool) {
        if !c {
            std::panic::panic_any(NatSkip);
        }
    }
    fn h_eq(name: &str, a: f64, b: f64) {
        nat_checked();
        let tol = nat_tol(a, b);
        if !((a - b).abs() <= tol) {
            nat_fail(name, format!("got {:e}, expected {:e}", a, b));
        }
    }
    fn h_eq_known(name: &str, a: f64, b: f64, known: f64) {
        nat_checked();
        let tol = nat_tol(a, b);
        if (a - known).abs() <= tol {
            return;
        }
        if !((a - b).abs() <= tol) {
            nat_fail(name, format!("got {:e}, expected {:e}", a, b));
        }
    }
    fn h_le(name: &str, a: f64, b: f64) {
        nat_checked();
        let tol = nat_tol(a, b);
        if !(a <= b + tol) {
            nat_fail(name, format!("{:e} <= {:e} does not hold", a, b));
        }
    }
    fn h_lt(name: &str, a: f64, b: f64) {
        nat_checked();
        let tol = nat_tol(a, b);
        if !(a < b + tol) {
            nat_fail(name, format!("{:e} < {:e} does not hold", a, b));
        } else if !(a < b) {
            // within rounding: counts only for the goal the solver refuted
            nat_fail(name, format!("~ {:e} < {:e} does not hold", a, b));
        }
    }
    fn h_true(name: &str, c: bool) {
        nat_checked();
        if !c {
            nat_fail(name, "condition is false".to_string());
        }
    }
    fn h_int(name: &str, x: f64) {
        nat_checked();
        if !((x - x.round()).abs() <= 1e-6 * (1.0 + x.abs())) {
            nat_fail(name, format!("{:e} is not an integer", x));
        }
    }
    fn var_sq(name: &str, rhs: f64) -> f64 {
        Self::assume(rhs >= 0.0);
        let v = Self::var(name);
        if v < 0.0 { -rhs.sqrt() } else { rhs.sqrt() }
    }
    fn assume_eq(a: f64, b: f64) {
        let tol = 1e-9 * (1.0 + a.abs().max(b.abs()));
        Self::assume((a - b).abs() <= tol);
    }
    fn loose(_on: bool) {}
    fn ulps(n: u64) -> u64 {
        n
    }
    fn ulp_step(x: f64, n: i64) -> f64 {
        f64::from_bits(x.to_bits() + n as u64)
    }
}
