//! C17 angles.
use super::*;
use crate::h;

macro_rules! angle_ops {
    ($f:ident, $T:ident, $full:expr) => {
        fn $f<S: Scal>() {
            let x = S::var("x");
            let y = S::var("y");
            let k = S::var("k");
            let (a, b) = ($T(x), $T(y));
            let e = |n: &str, g: $T<S>, w: S| S::h_eq(n, g.0, w);
            let z = S::zero();
            e("add vv", a + b, x + y);
            e("add vr", a + &b, x + y);
            e("add rv", &a + b, x + y);
            e("add rr", &a + &b, x + y);
            e("sub vv", a - b, x - y);
            e("sub vr", a - &b, x - y);
            e("sub rv", &a - b, x - y);
            e("sub rr", &a - &b, x - y);
            e("neg", -a, z - x);
            e("neg ref", -&a, z - x);
            e("mul", a * k, x * k);
            e("mul ref", &a * k, x * k);
            let mut m = a;
            m += b;
            e("add_assign", m, x + y);
            let mut m = a;
            m -= b;
            e("sub_assign", m, x - y);
            let mut m = a;
            m *= k;
            e("mul_assign", m, x * k);
            e("zero", $T::zero(), z);
            e("angle zero", <$T<S> as Angle>::zero(), z);
            e("default", $T::<S>::default(), z);
            S::h_true("is_zero", a.is_zero() == (x == z));
            S::h_true("inherent is_zero", $T::is_zero(&a) == (x == z));
            S::h_true("angle is_zero", <$T<S> as Angle>::is_zero(a) == (x == z));
            S::h_true("eq", (a == b) == (x == y));
            S::h_true("lt", (a < b) == (x < y));
            S::h_true("le", (a <= b) == (x <= y));
            S::assume(k != z);
            e("div", a / k, x / k);
            e("div ref", &a / k, x / k);
            let mut m = a;
            m /= k;
            e("div_assign", m, x / k);
            S::assume(y != z);
            S::h_eq("ratio vv", a / b, x / y);
            S::h_eq("ratio vr", a / &b, x / y);
            S::h_eq("ratio rv", &a / b, x / y);
            S::h_eq("ratio rr", &a / &b, x / y);
        }
    };
}
angle_ops!(ops_rad, Radians, two::<S>() * S::pi());
angle_ops!(ops_deg, Degrees, S::rat(360, 1));

macro_rules! angle_rem {
    ($f:ident, $T:ident) => {
        fn $f<S: Scal>() {
            let x = S::var("x");
            let y = S::var("y");
            S::assume(y != S::zero());
            let (a, b) = ($T(x), $T(y));
            let mut m = a;
            m %= b;
            for (n, r) in [("vv", a % b), ("vr", a % &b), ("rv", &a % b), ("rr", &a % &b), ("assign", m)] {
                S::h_int(&format!("{n}: x = q*y + r"), (x - r.0) / y);
                S::h_lt(&format!("{n}: |r| < |y|"), r.0 * r.0, y * y);
                S::h_le(&format!("{n}: r has the sign of x"), S::zero(), r.0 * x);
            }
        }
    };
}
angle_rem!(rem_rad, Radians);
angle_rem!(rem_deg, Degrees);

macro_rules! angle_norm {
    ($f:ident, $T:ident, $full:expr) => {
        fn $f<S: Scal>() {
            let x = S::var("x");
            let z = S::zero();
            let full: S = $full;
            let half = full / two();
            let a = $T(x);
            let n = a.normalize().0;
            S::h_le("0 <= normalize", z, n);
            S::h_lt("normalize < full turn", n, full);
            S::h_int("normalize differs by whole turns", (n - x) / full);
            let s = a.normalize_signed().0;
            S::h_lt("-half < normalize_signed", z - half, s);
            S::h_le("normalize_signed <= half", s, half);
            S::h_int("normalize_signed differs by whole turns", (s - x) / full);
        }
    };
}
angle_norm!(norm_rad, Radians, two::<S>() * S::pi());
angle_norm!(norm_deg, Degrees, S::rat(360, 1));

macro_rules! angle_opp {
    ($f:ident, $T:ident, $full:expr) => {
        fn $f<S: Scal>() {
            let x = S::var("x");
            let z = S::zero();
            let full: S = $full;
            let half = full / two();
            let o = $T(x).opposite().0;
            S::h_le("0 <= opposite", z, o);
            S::h_lt("opposite < full turn", o, full);
            S::h_int("opposite is half a turn away", (o - x - half) / full);
        }
    };
}
angle_opp!(opp_rad, Radians, two::<S>() * S::pi());
angle_opp!(opp_deg, Degrees, S::rat(360, 1));

macro_rules! angle_bis {
    ($f:ident, $T:ident, $full:expr) => {
        fn $f<S: Scal>() {
            let x = S::var("x");
            let y = S::var("y");
            let z = S::zero();
            let full: S = $full;
            let o = $T(x).bisect($T(y)).0;
            S::h_le("0 <= bisect", z, o);
            S::h_lt("bisect < full turn", o, full);
            S::h_int("bisect is the midpoint up to whole turns", (o - (x + y) / two()) / full);
        }
    };
}
angle_bis!(bis_rad, Radians, two::<S>() * S::pi());
angle_bis!(bis_deg, Degrees, S::rat(360, 1));

fn consts<S: Scal>() {
    let p = S::pi();
    let r = |n| S::rat(n, 1);
    S::h_eq("full turn", Radians::<S>::full_turn().0, r(2) * p);
    S::h_eq("1/2 turn", Radians::<S>::full_turn_div_2().0, p);
    S::h_eq("1/4 turn", Radians::<S>::full_turn_div_4().0, p / r(2));
    S::h_eq("1/6 turn", Radians::<S>::full_turn_div_6().0, p / r(3));
    S::h_eq("1/8 turn", Radians::<S>::full_turn_div_8().0, p / r(4));
    S::h_eq("full turn deg", Degrees::<S>::full_turn().0, r(360));
    S::h_eq("1/2 turn deg", Degrees::<S>::full_turn_div_2().0, r(180));
    S::h_eq("1/4 turn deg", Degrees::<S>::full_turn_div_4().0, r(90));
    S::h_eq("1/6 turn deg", Degrees::<S>::full_turn_div_6().0, r(60));
    S::h_eq("1/8 turn deg", Degrees::<S>::full_turn_div_8().0, r(45));
}
fn convert<S: Scal>() {
    let x = S::var("x");
    let k = S::var("k");
    let d: Degrees<S> = Radians(x).into();
    S::h_eq("radians to degrees", d.0 * S::pi(), x * S::rat(180, 1));
    let r: Radians<S> = Degrees(x).into();
    S::h_eq("degrees to radians", r.0 * S::rat(180, 1), x * S::pi());
    let back: Radians<S> = Degrees::from(Radians(x)).into();
    S::h_eq("radians round trip", back.0, x);
    let back: Degrees<S> = Radians::from(Degrees(x)).into();
    S::h_eq("degrees round trip", back.0, x);
    let _ = k;
}
fn trig_rad<S: Scal>() {
    let x = S::var("x");
    let a = Radians(x);
    let (s, c) = (x.sin(), x.cos());
    S::h_eq("sin", a.sin(), s);
    S::h_eq("cos", a.cos(), c);
    let (s2, c2) = a.sin_cos();
    S::h_eq("sin_cos sin", s2, s);
    S::h_eq("sin_cos cos", c2, c);
    if c != S::zero() {
        S::h_eq("tan", a.tan() * c, s);
        S::h_eq("sec", a.sec() * c, S::one());
    }
    if s != S::zero() {
        S::h_eq("csc", a.csc() * s, S::one());
        if c != S::zero() {
            S::h_eq("cot", a.cot() * s, c);
        }
    }
}
fn trig_deg<S: Scal>() {
    let x = S::var("x");
    let a = Degrees(x);
    let r = Radians(x * S::pi() / S::rat(180, 1));
    let (s, c) = (r.0.sin(), r.0.cos());
    S::h_eq("sin", a.sin(), s);
    S::h_eq("cos", a.cos(), c);
    let (s2, c2) = a.sin_cos();
    S::h_eq("sin_cos sin", s2, s);
    S::h_eq("sin_cos cos", c2, c);
    if c != S::zero() {
        S::h_eq("tan", a.tan() * c, s);
        S::h_eq("sec", a.sec() * c, S::one());
    }
    if s != S::zero() {
        S::h_eq("csc", a.csc() * s, S::one());
        if c != S::zero() {
            S::h_eq("cot", a.cot() * s, c);
        }
    }
}
fn inverse_trig<S: Scal>() {
    let x = S::var("x");
    let y = S::var("y");
    let k = S::rat(180, 1) / S::pi();
    S::h_eq("atan", Radians::atan(x).0, x.atan());
    S::h_eq("atan deg", Degrees::atan(x).0, x.atan() * k);
    S::assume(x != S::zero() || y != S::zero());
    S::h_eq("atan2", Radians::atan2(y, x).0, y.atan2(x));
    S::h_eq("atan2 deg", Degrees::atan2(y, x).0, y.atan2(x) * k);
    let a = Radians::atan2(y, x);
    let n = (x * x + y * y).sqrt();
    S::h_eq("atan2 cos", a.cos() * n, x);
    S::h_eq("atan2 sin", a.sin() * n, y);
    let a = Degrees::atan2(y, x);
    S::h_eq("atan2 deg cos", a.cos() * n, x);
    S::h_eq("atan2 deg sin", a.sin() * n, y);
}
fn inverse_trig_unit<S: Scal>() {
    let x = S::var("x");
    let k = S::rat(180, 1) / S::pi();
    S::assume(x * x <= S::one());
    S::h_eq("asin", Radians::asin(x).0, x.asin());
    S::h_eq("acos", Radians::acos(x).0, x.acos());
    S::h_eq("asin deg", Degrees::asin(x).0, x.asin() * k);
    S::h_eq("acos deg", Degrees::acos(x).0, x.acos() * k);
    S::h_eq("sin asin", Radians::asin(x).sin(), x);
    S::h_eq("cos acos", Radians::acos(x).cos(), x);
    S::h_eq("sin asin deg", Degrees::asin(x).sin(), x);
    S::h_eq("cos acos deg", Degrees::acos(x).cos(), x);
}

pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C17", "angle_ops_radians", ops_rad; "Radians: + - * / neg, assigning forms, order, zero");
    h!(v, "C17", "angle_ops_degrees", ops_deg; "Degrees: + - * / neg, assigning forms, order, zero");
    h!(v, "C17", "angle_rem_radians", rem_rad; "Radians: % %=");
    h!(v, "C17", "angle_rem_degrees", rem_deg; "Degrees: % %=");
    h!(v, "C17", "angle_normalize_radians", norm_rad; "Radians::normalize, normalize_signed");
    h!(v, "C17", "angle_normalize_degrees", norm_deg; "Degrees::normalize, normalize_signed");
    h!(v, "C17", "angle_opposite_radians", opp_rad; "Radians::opposite");
    h!(v, "C17", "angle_opposite_degrees", opp_deg; "Degrees::opposite");
    h!(v, "C17", "angle_bisect_radians", bis_rad; "Radians::bisect");
    h!(v, "C17", "angle_bisect_degrees", bis_deg; "Degrees::bisect");
    h!(v, "C17", "angle_constants", consts; "full_turn, full_turn_div_2/4/6/8");
    h!(v, "C17", "angle_convert", convert; "From<Degrees> for Radians, From<Radians> for Degrees");
    h!(v, "C17", "angle_trig_radians", trig_rad; "Radians: sin cos tan sin_cos csc sec cot");
    h!(v, "C17", "angle_trig_degrees", trig_deg; "Degrees: sin cos tan sin_cos csc sec cot");
    h!(v, "C17", "angle_inverse_trig", inverse_trig; "atan, atan2 of both angle types");
    h!(v, "C17", "angle_inverse_trig_unit", inverse_trig_unit; "asin, acos of both angle types");
}
