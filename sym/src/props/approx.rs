//! C23: approximate comparison of composite values is the conjunction of the scalar comparisons.
use super::*;
use crate::h;
use approx_cmp::*;

/// Which component differs: a free choice of the path.
fn which<S: Scal>(n: usize) -> usize {
    let w = S::var("which");
    for i in 0..n - 1 {
        if w < S::rat(i as i64, 1) {
            return i;
        }
    }
    n - 1
}
fn comps<S: Scal>(n: &str, k: usize) -> Vec<S> {
    (0..k).map(|i| S::var(&format!("{n}{i}"))).collect()
}
fn tols<S: Scal>(n: &str, k: usize) -> Vec<S> {
    let t: Vec<S> = comps(n, k);
    for x in &t {
        S::assume(*x >= S::zero());
    }
    t
}
/// Components of two values that differ in one component only, which one is free.
fn pair<S: Scal>(k: usize) -> (usize, Vec<S>, Vec<S>) {
    let a: Vec<S> = comps("a", k);
    let w = which::<S>(k);
    let mut b = a.clone();
    b[w] = S::var("b");
    (w, a, b)
}
pub trait All<S: Scal>:
    AbsDiffAllEq<AllTolerance = S> + RelativeAllEq<AllTolerance = S> + UlpsAllEq<AllTolerance = S, AllUlpsTolerance = S::IntegerRepr>
{
}
impl<S: Scal, T> All<S> for T where
    T: AbsDiffAllEq<AllTolerance = S> + RelativeAllEq<AllTolerance = S> + UlpsAllEq<AllTolerance = S, AllUlpsTolerance = S::IntegerRepr>
{
}
/// One tolerance for all components. `x`, `y` are the components of `a`, `b`.
fn all_eq_mode<S: Scal, T: All<S>>(a: &T, b: &T, x: &[S], y: &[S], t: S) {
    let m = S::var("kind");
    if m < S::zero() {
        let got = a.abs_diff_all_eq(b, &t);
        let want = (0..x.len()).all(|i| AbsDiffAllEq::abs_diff_all_eq(&x[i], &y[i], &t));
        S::h_true("abs_diff_all_eq = every component within the tolerance", got == want);
        let got = a.abs_diff_all_ne(b, &t);
        S::h_true("abs_diff_all_ne = negation", got != want);
    } else if m < S::one() {
        let r = S::var("rel");
        S::assume(r >= S::zero());
        let got = a.relative_all_eq(b, &t, &r);
        let want = (0..x.len()).all(|i| RelativeAllEq::relative_all_eq(&x[i], &y[i], &t, &r));
        S::h_true("relative_all_eq = every component within the tolerances", got == want);
    } else {
        let u = S::ulps(3);
        let got = a.ulps_all_eq(b, &t, &u);
        let want = (0..x.len()).all(|i| UlpsAllEq::ulps_all_eq(&x[i], &y[i], &t, &u));
        S::h_true("ulps_all_eq = every component within the tolerances", got == want);
    }
}
/// One tolerance per component. Only component `w` differs.
fn each_eq<S: Scal, T, U>(w: usize, a: &T, b: &T, x: &[S], y: &[S], tol: impl Fn(&[S]) -> U)
where
    T: AbsDiffEq<Tolerance = U> + RelativeEq<Tolerance = U>,
{
    let t: Vec<S> = tols("t", x.len());
    if S::var("kind") < S::zero() {
        let got = a.abs_diff_eq(b, &tol(&t));
        let want = AbsDiffEq::abs_diff_eq(&x[w], &y[w], &t[w]);
        S::h_true("abs_diff_eq = every component within its tolerance", got == want);
    } else {
        let r: Vec<S> = tols("r", x.len());
        let got = a.relative_eq(b, &tol(&t), &tol(&r));
        let want = RelativeEq::relative_eq(&x[w], &y[w], &t[w], &r[w]);
        S::h_true("relative_eq = every component within its tolerances", got == want);
    }
}
/// Tolerances in units in the last place: component `w` of `b` is `step` representable numbers away.
fn ulps_each<S: Scal, T, U, V>(k: usize, build: impl Fn(&[S]) -> T, tol: impl Fn(&[S]) -> U, utol: impl Fn(&[S::IntegerRepr]) -> V)
where
    T: UlpsEq<Tolerance = U, UlpsTolerance = V> + UlpsAllEq<AllTolerance = S, AllUlpsTolerance = S::IntegerRepr>,
{
    let a: Vec<S> = comps("a", k);
    let w = which::<S>(k);
    let step = [0, 1, 3, 4, 2 * w + 1, 2 * w + 2][which2::<S>(5)];
    let mut b = a.clone();
    b[w] = S::ulp_step(a[w], step as i64);
    let z = vec![S::zero(); k];
    // every component has its own tolerance: 1, 3, 5, ... so that no two can be confused
    let us: Vec<S::IntegerRepr> = (0..k).map(|i| S::ulps(2 * i as u64 + 1)).collect();
    let want = step <= 2 * w + 1;
    S::h_true("ulps_eq = every component within its tolerance", build(&a).ulps_eq(&build(&b), &tol(&z), &utol(&us)) == want);
    S::h_true("ulps_all_eq = every component within the tolerance", build(&a).ulps_all_eq(&build(&b), &S::zero(), &S::ulps(3)) == (step <= 3));
    // absolute tolerance alone
    let t: Vec<S> = tols("t", k);
    let us0: Vec<S::IntegerRepr> = (0..k).map(|_| S::ulps(0)).collect();
    let mut c = a.clone();
    c[w] = S::var("c");
    let got = build(&a).ulps_eq(&build(&c), &tol(&t), &utol(&us0));
    let want = UlpsEq::ulps_eq(&a[w], &c[w], &t[w], &us0[w]);
    S::h_true("ulps_eq: absolute tolerance per component", got == want);
}
fn which2<S: Scal>(n: usize) -> usize {
    let w = S::var("step");
    for i in 0..n {
        if w < S::rat(i as i64, 1) {
            return i;
        }
    }
    n
}
fn to_vec<T: Copy, const N: usize>(c: &[T]) -> Vector<T, N> {
    let a: [T; N] = core::array::from_fn(|i| c[i]);
    Vector::from(a)
}
fn to_pnt<T: Copy, const N: usize>(c: &[T]) -> Point<T, N> {
    let a: [T; N] = core::array::from_fn(|i| c[i]);
    Point::from(a)
}
fn to_mat<T: Copy, const R: usize, const C: usize>(x: &[T]) -> Matrix<T, R, C> {
    let a: [[T; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| x[c * R + r]));
    Matrix::from(a)
}
/// The values reported for a failed assertion are the componentwise differences and tolerances.
macro_rules! debugs {
    ($k:expr, $build:expr, $tol:expr, $utol:expr, $at:expr) => {{
        let a: Vec<S> = comps("a", $k);
        let b: Vec<S> = comps("b", $k);
        let t: Vec<S> = comps("t", $k);
        let s = S::var("s");
        let (x, y) = ($build(&a), $build(&b));
        let w = which::<S>($k);
        S::h_eq("AbsDiff debug difference", $at(&AssertAbsDiffEq::debug_abs_diff(&x, &y), w), AssertAbsDiffEq::debug_abs_diff(&a[w], &b[w]));
        S::h_eq("Relative debug difference", $at(&AssertRelativeEq::debug_abs_diff(&x, &y), w), AssertAbsDiffEq::debug_abs_diff(&a[w], &b[w]));
        S::h_eq("Ulps debug difference", $at(&AssertUlpsEq::debug_abs_diff(&x, &y), w), AssertAbsDiffEq::debug_abs_diff(&a[w], &b[w]));
        let tol = $tol(&t);
        S::h_eq("AbsDiff debug tolerance", $at(&AssertAbsDiffEq::debug_abs_diff_tolerance(&x, &y, &tol), w), t[w]);
        S::h_eq("Relative debug tolerance", $at(&AssertRelativeEq::debug_abs_diff_tolerance(&x, &y, &tol), w), t[w]);
        S::h_eq("Relative debug relative tolerance", $at(&AssertRelativeEq::debug_relative_tolerance(&x, &y, &tol), w), AssertRelativeEq::debug_relative_tolerance(&a[w], &b[w], &t[w]));
        S::h_eq("Ulps debug tolerance", $at(&AssertUlpsEq::debug_abs_diff_tolerance(&x, &y, &tol), w), t[w]);
        S::h_eq("AbsDiff all debug tolerance", $at(&AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&x, &y, &s), w), s);
        S::h_eq("Relative all debug tolerance", $at(&AssertRelativeAllEq::debug_abs_diff_all_tolerance(&x, &y, &s), w), s);
        S::h_eq("Relative all debug relative tolerance", $at(&AssertRelativeAllEq::debug_relative_all_tolerance(&x, &y, &s), w), AssertRelativeAllEq::debug_relative_all_tolerance(&a[w], &b[w], &s));
        S::h_eq("Ulps all debug tolerance", $at(&AssertUlpsAllEq::debug_abs_diff_all_tolerance(&x, &y, &s), w), s);
        let us: Vec<S::IntegerRepr> = (0..$k).map(|i| S::ulps(2 * i as u64 + 1)).collect();
        let l = |s: String| super::text::leaves(&s);
        let want: Vec<String> = us.iter().map(|u| format!("{u:?}")).collect();
        S::h_true("Ulps debug ulps tolerance", l(format!("{:?}", AssertUlpsEq::debug_ulps_tolerance(&x, &y, &$utol(&us)))) == want);
        let u = S::ulps(7);
        S::h_true("Ulps all debug ulps tolerance", l(format!("{:?}", AssertUlpsAllEq::debug_ulps_all_tolerance(&x, &y, &u))) == vec![format!("{u:?}"); $k]);
        let want: Vec<String> = (0..$k).map(|i| format!("{:?}", AssertUlpsEq::debug_ulps_diff(&a[i], &b[i]))).collect();
        S::h_true("Ulps debug distance", l(format!("{:?}", AssertUlpsEq::debug_ulps_diff(&x, &y))) == want);
    }};
}
macro_rules! suite {
    ($all:ident, $each:ident, $ulps:ident, $dbg:ident [$(const $n:ident),*], $k:expr, $build:expr, $tol:expr, $utol:expr, $at:expr) => {
        fn $all<S: Scal $(, const $n: usize)*>() {
            let (_, a, b) = pair::<S>($k);
            all_eq_one(&$build(&a), &$build(&b), &a, &b);
        }
        fn $each<S: Scal $(, const $n: usize)*>() {
            let (w, a, b) = pair::<S>($k);
            each_eq(w, &$build(&a), &$build(&b), &a, &b, $tol);
        }
        fn $ulps<S: Scal $(, const $n: usize)*>() {
            ulps_each::<S, _, _, _>($k, $build, $tol, $utol);
        }
        fn $dbg<S: Scal $(, const $n: usize)*>() {
            debugs!($k, $build, $tol, $utol, $at)
        }
    };
}
fn all_eq_one<S: Scal, T: All<S>>(a: &T, b: &T, x: &[S], y: &[S]) {
    let t = S::var("tol");
    S::assume(t >= S::zero());
    all_eq_mode(a, b, x, y, t)
}
fn id_at<S: Copy, const N: usize>(v: &Vector<S, N>, i: usize) -> S {
    v[i]
}
suite!(v_all, v_each, v_ulps, v_dbg [const N], N, to_vec::<S, N>, to_vec::<S, N>, to_vec::<S::IntegerRepr, N>, id_at::<S, N>);
suite!(p_all, p_each, p_ulps, p_dbg [const N], N, to_pnt::<S, N>, to_vec::<S, N>, to_vec::<S::IntegerRepr, N>, id_at::<S, N>);
suite!(m_all, m_each, m_ulps, m_dbg [const R, const C], R * C, to_mat::<S, R, C>, to_mat::<S, R, C>, to_mat::<S::IntegerRepr, R, C>,
    |m: &Matrix<S, R, C>, i: usize| m[i / R][i % R]);
fn q_of<T: Copy>(c: &[T]) -> Quaternion<T> {
    Quaternion::new(c[0], c[1], c[2], c[3])
}
suite!(q_all, q_each, q_ulps, q_dbg [], 4, q_of::<S>, to_vec::<S, 4>, to_vec::<S::IntegerRepr, 4>, id_at::<S, 4>);
fn z_of<T: Copy>(c: &[T]) -> Complex<T> {
    Complex::new(c[0], c[1])
}
suite!(z_all, z_each, z_ulps, z_dbg [], 2, z_of::<S>, z_of::<S>, z_of::<S::IntegerRepr>, |z: &Complex<S>, i: usize| if i == 0 { z.real() } else { z.imaginary() });
suite!(u_all, u_each, u_ulps, u_dbg [], 3, |c: &[S]| Unit::from_value_unchecked(to_vec::<S, 3>(c)), to_vec::<S, 3>, to_vec::<S::IntegerRepr, 3>, id_at::<S, 3>);
fn e_of<T: Copy>(c: &[T]) -> Euler<T> {
    Euler::new(c[0], c[1], c[2])
}
suite!(e_all, e_each, e_ulps, e_dbg [], 3, |c: &[S]| Euler::new(Radians(c[0]), Radians(c[1]), Radians(c[2])), e_of::<S>, e_of::<S::IntegerRepr>,
    |e: &Euler<S>, i: usize| [e.x, e.y, e.z][i]);
suite!(r_all, r_each, r_ulps, r_dbg [], 1, |c: &[S]| Radians(c[0]), |c: &[S]| c[0], |c: &[S::IntegerRepr]| c[0], |x: &S, _| *x);
suite!(d_all, d_each, d_ulps, d_dbg [], 1, |c: &[S]| Degrees(c[0]), |c: &[S]| c[0], |c: &[S::IntegerRepr]| c[0], |x: &S, _| *x);

macro_rules! reg {
    ($v:ident, $what:expr, $all:ident, $each:ident, $ulps:ident, $dbg:ident $(, $n:literal)*) => {
        h!($v, "C23", concat!($what, "_all"), $all $(, $n)*; concat!($what, ": AbsDiffAllEq, RelativeAllEq, UlpsAllEq"));
        h!($v, "C23", concat!($what, "_each"), $each $(, $n)*; concat!($what, ": AbsDiffEq, RelativeEq"));
        h!($v, "C23", concat!($what, "_ulps"), $ulps $(, $n)*; concat!($what, ": UlpsEq, UlpsAllEq"));
        h!($v, "C23", concat!($what, "_debug"), $dbg $(, $n)*; concat!($what, ": Assert{AbsDiff,Relative,Ulps}{,All}Eq"));
    };
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "vector1", v_all, v_each, v_ulps, v_dbg, 1);
    reg!(v, "vector2", v_all, v_each, v_ulps, v_dbg, 2);
    reg!(v, "vector3", v_all, v_each, v_ulps, v_dbg, 3);
    reg!(v, "vector4", v_all, v_each, v_ulps, v_dbg, 4);
    reg!(v, "point1", p_all, p_each, p_ulps, p_dbg, 1);
    reg!(v, "point2", p_all, p_each, p_ulps, p_dbg, 2);
    reg!(v, "point3", p_all, p_each, p_ulps, p_dbg, 3);
    reg!(v, "vector5", v_all, v_each, v_ulps, v_dbg, 5);
    reg!(v, "vector9", v_all, v_each, v_ulps, v_dbg, 9);
    reg!(v, "point4", p_all, p_each, p_ulps, p_dbg, 4);
    reg!(v, "point5", p_all, p_each, p_ulps, p_dbg, 5);
    reg!(v, "matrix5x3", m_all, m_each, m_ulps, m_dbg, 5, 3);
    reg!(v, "matrix3x5", m_all, m_each, m_ulps, m_dbg, 3, 5);
    reg!(v, "matrix1x1", m_all, m_each, m_ulps, m_dbg, 1, 1);
    reg!(v, "matrix2x2", m_all, m_each, m_ulps, m_dbg, 2, 2);
    reg!(v, "matrix3x3", m_all, m_each, m_ulps, m_dbg, 3, 3);
    reg!(v, "matrix4x4", m_all, m_each, m_ulps, m_dbg, 4, 4);
    reg!(v, "matrix2x3", m_all, m_each, m_ulps, m_dbg, 2, 3);
    reg!(v, "matrix3x2", m_all, m_each, m_ulps, m_dbg, 3, 2);
    reg!(v, "matrix4x2", m_all, m_each, m_ulps, m_dbg, 4, 2);
    reg!(v, "quaternion", q_all, q_each, q_ulps, q_dbg);
    reg!(v, "complex", z_all, z_each, z_ulps, z_dbg);
    reg!(v, "unit_vector", u_all, u_each, u_ulps, u_dbg);
    reg!(v, "euler", e_all, e_each, e_ulps, e_dbg);
    reg!(v, "radians", r_all, r_each, r_ulps, r_dbg);
    reg!(v, "degrees", d_all, d_each, d_ulps, d_dbg);
    #[cfg(feature = "transform")]
    tr::register(v);
}

#[cfg(feature = "transform")]
mod tr {
    use super::*;
    use cglinalg_transform::*;

    macro_rules! suite3 {
        ($all:ident, $each:ident, $ulps:ident [$(const $n:ident),*], $k:expr, $build:expr, $tol:expr, $utol:expr) => {
            fn $all<S: Scal $(, const $n: usize)*>() {
                let (_, a, b) = pair::<S>($k);
                all_eq_one(&$build(&a), &$build(&b), &a, &b);
            }
            fn $each<S: Scal $(, const $n: usize)*>() {
                let (w, a, b) = pair::<S>($k);
                each_eq(w, &$build(&a), &$build(&b), &a, &b, $tol);
            }
            fn $ulps<S: Scal $(, const $n: usize)*>() {
                ulps_each::<S, _, _, _>($k, $build, $tol, $utol);
            }
        };
    }
    macro_rules! reg3 {
        ($v:ident, $what:expr, $all:ident, $each:ident, $ulps:ident $(, $n:literal)*) => {
            h!($v, "C23", concat!($what, "_all"), $all $(, $n)*; concat!($what, ": AbsDiffAllEq, RelativeAllEq, UlpsAllEq"));
            h!($v, "C23", concat!($what, "_each"), $each $(, $n)*; concat!($what, ": AbsDiffEq, RelativeEq"));
            h!($v, "C23", concat!($what, "_ulps"), $ulps $(, $n)*; concat!($what, ": UlpsEq, UlpsAllEq"));
        };
    }
    fn unit_of<S: Scal, const N: usize>(c: &[S]) -> Unit<Vector<S, N>> {
        Unit::from_value_unchecked(to_vec::<S, N>(c))
    }
    suite3!(t_all, t_each, t_ulps [const N], N, |c: &[S]| Translation::<S, N>::from_vector(&to_vec::<S, N>(c)),
        |c: &[S]| TranslationTol::from(to_vec::<S, N>(c)), |c: &[S::IntegerRepr]| TranslationTol::from(to_vec::<S::IntegerRepr, N>(c)));
    suite3!(s_all, s_each, s_ulps [const N], N, |c: &[S]| Scale::<S, N>::from_nonuniform_scale(&to_vec::<S, N>(c)),
        |c: &[S]| ScaleTol::from(to_vec::<S, N>(c)), |c: &[S::IntegerRepr]| ScaleTol::from(to_vec::<S::IntegerRepr, N>(c)));
    suite3!(f_all, f_each, f_ulps [const N], 2 * N, |c: &[S]| Reflection::<S, N>::from_normal_bias(&unit_of::<S, N>(c), &to_pnt::<S, N>(&c[N..])),
        |c: &[S]| ReflectionTol::from_parts(to_vec::<S, N>(c), to_vec::<S, N>(&c[N..])),
        |c: &[S::IntegerRepr]| ReflectionTol::from_parts(to_vec::<S::IntegerRepr, N>(c), to_vec::<S::IntegerRepr, N>(&c[N..])));
    suite3!(h_all, h_each, h_ulps [const N], 3 * N + 1,
        |c: &[S]| Shear::<S, N>::from_affine_shear(c[0], &to_pnt::<S, N>(&c[1..]), &unit_of::<S, N>(&c[1 + N..]), &unit_of::<S, N>(&c[1 + 2 * N..])),
        |c: &[S]| ShearTol::from_parts(c[0], to_vec::<S, N>(&c[1..]), to_vec::<S, N>(&c[1 + N..]), to_vec::<S, N>(&c[1 + 2 * N..])),
        |c: &[S::IntegerRepr]| ShearTol::from_parts(c[0], to_vec::<S::IntegerRepr, N>(&c[1..]), to_vec::<S::IntegerRepr, N>(&c[1 + N..]), to_vec::<S::IntegerRepr, N>(&c[1 + 2 * N..])));
    macro_rules! transform {
        ($all:ident, $each:ident, $ulps:ident, $n:literal, $m:literal) => {
            suite3!($all, $each, $ulps [], $m * $m, |c: &[S]| Transform::<S, $n, $m>::from_matrix_unchecked(to_mat::<S, $m, $m>(c)),
                |c: &[S]| TransformTol::<S, $n, $m>::from(to_mat::<S, $m, $m>(c)), |c: &[S::IntegerRepr]| TransformTol::<S::IntegerRepr, $n, $m>::from(to_mat::<S::IntegerRepr, $m, $m>(c)));
        };
    }
    transform!(g2_all, g2_each, g2_ulps, 2, 3);
    transform!(g3_all, g3_each, g3_ulps, 3, 4);
    fn flat<S: Scal, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
        (0..R * C).map(|i| m[i / R][i % R]).collect()
    }
    fn each_all<S: Scal, T, U>(a: &T, b: &T, x: &[S], y: &[S], tol: impl Fn(&[S]) -> U)
    where
        T: AbsDiffEq<Tolerance = U> + RelativeEq<Tolerance = U>,
    {
        let t: Vec<S> = tols("t", x.len());
        if S::var("kind") < S::zero() {
            let got = a.abs_diff_eq(b, &tol(&t));
            let want = (0..x.len()).all(|i| AbsDiffEq::abs_diff_eq(&x[i], &y[i], &t[i]));
            S::h_true("abs_diff_eq = every component within its tolerance", got == want);
        } else {
            let r: Vec<S> = tols("r", x.len());
            let got = a.relative_eq(b, &tol(&t), &tol(&r));
            let want = (0..x.len()).all(|i| RelativeEq::relative_eq(&x[i], &y[i], &t[i], &r[i]));
            S::h_true("relative_eq = every component within its tolerances", got == want);
        }
    }
    macro_rules! rigid {
        ($rot:ident, $rot_each:ident, $iso:ident, $iso_each:ident, $isor:ident, $sim:ident, $sim_each:ident, $simr:ident, $n:literal, $mk:expr) => {
            fn $rot<S: Scal>() {
                let (a, b): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), $mk(S::var("h")));
                all_eq_one(&a, &b, &flat(a.matrix()), &flat(b.matrix()));
            }
            fn $rot_each<S: Scal>() {
                let (a, b): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), Rotation::identity());
                each_all(&a, &b, &flat(a.matrix()), &flat(b.matrix()), |c: &[S]| RotationTol::from(to_mat::<S, $n, $n>(c)));
            }
            fn $iso<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                let (_, a, b) = pair::<S>($n);
                let mk = |c: &[S]| Isometry::from_parts(&Translation::from_vector(&to_vec::<S, $n>(c)), &r);
                all_eq_one(&mk(&a), &mk(&b), &a, &b);
            }
            fn $iso_each<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                let (w, a, b) = pair::<S>($n);
                let ext = |c: &[S]| [c.to_vec(), flat(r.matrix())].concat();
                let mk = |c: &[S]| Isometry::from_parts(&Translation::from_vector(&to_vec::<S, $n>(c)), &r);
                each_eq(w, &mk(&a), &mk(&b), &ext(&a), &ext(&b), |c: &[S]| IsometryTol::from_parts(to_vec::<S, $n>(c), to_mat::<S, $n, $n>(&c[$n..])));
            }
            fn $isor<S: Scal>() {
                let (p, q): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), Rotation::identity());
                let t = Translation::from_vector(&vec::<S, $n>("t"));
                all_eq_one(&Isometry::from_parts(&t, &p), &Isometry::from_parts(&t, &q), &flat(p.matrix()), &flat(q.matrix()));
            }
            fn $sim<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                let (_, a, b) = pair::<S>($n + 1);
                let mk = |c: &[S]| Similarity::from_parts(&Translation::from_vector(&to_vec::<S, $n>(c)), &r, c[$n]);
                all_eq_one(&mk(&a), &mk(&b), &a, &b);
            }
            fn $sim_each<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                let (w, a, b) = pair::<S>($n + 1);
                let ext = |c: &[S]| [c.to_vec(), flat(r.matrix())].concat();
                let mk = |c: &[S]| Similarity::from_parts(&Translation::from_vector(&to_vec::<S, $n>(c)), &r, c[$n]);
                each_eq(w, &mk(&a), &mk(&b), &ext(&a), &ext(&b), |c: &[S]| SimilarityTol::from_parts(to_vec::<S, $n>(c), to_mat::<S, $n, $n>(&c[$n + 1..]), c[$n]));
            }
            fn $simr<S: Scal>() {
                let (p, q): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), Rotation::identity());
                let t = Translation::from_vector(&vec::<S, $n>("t"));
                let k = S::var("k");
                all_eq_one(&Similarity::from_parts(&t, &p, k), &Similarity::from_parts(&t, &q, k), &flat(p.matrix()), &flat(q.matrix()));
            }
        };
    }
    rigid!(rot2, rot2_each, iso2, iso2_each, iso2r, sim2, sim2_each, sim2r, 2, |g: S| Rotation2::from_angle(Radians(g)));
    rigid!(rot3, rot3_each, iso3, iso3_each, iso3r, sim3, sim3_each, sim3r, 3, |g: S| Rotation3::from_angle_y(Radians(g)));
    /// Two view volumes that differ in one parameter.
    fn volumes<S: Scal>() -> ([S; 6], [S; 6]) {
        let a: [S; 6] = core::array::from_fn(|i| S::var(["l", "r", "b", "t", "n", "f"][i]));
        for x in a {
            S::assume(x > S::zero());
        }
        S::assume(a[4] < a[5]);
        let mut b = a;
        let w = which::<S>(6);
        let x = S::var("x");
        S::assume(x > S::zero());
        b[w] = x;
        S::assume(b[4] < b[5]);
        (a, b)
    }
    fn persp<S: Scal>() {
        let (a, b) = volumes::<S>();
        let (p, q) = (Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[5]), Perspective3::new(b[0], b[1], b[2], b[3], b[4], b[5]));
        all_eq_one(&p, &q, &flat(p.matrix()), &flat(q.matrix()));
    }
    fn persp_each<S: Scal>() {
        let (a, b) = volumes::<S>();
        let (p, q) = (Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[5]), Perspective3::new(b[0], b[1], b[2], b[3], b[4], b[5]));
        each_all(&p, &q, &flat(p.matrix()), &flat(q.matrix()), |c: &[S]| Perspective3Tol::from(to_mat::<S, 4, 4>(c)));
    }
    fn ortho<S: Scal>() {
        let (a, b) = volumes::<S>();
        let (p, q) = (Orthographic3::new(a[0], a[1], a[2], a[3], a[4], a[5]), Orthographic3::new(b[0], b[1], b[2], b[3], b[4], b[5]));
        all_eq_one(&p, &q, &flat(p.matrix()), &flat(q.matrix()));
    }
    fn ortho_each<S: Scal>() {
        let (a, b) = volumes::<S>();
        let (p, q) = (Orthographic3::new(a[0], a[1], a[2], a[3], a[4], a[5]), Orthographic3::new(b[0], b[1], b[2], b[3], b[4], b[5]));
        each_all(&p, &q, &flat(p.matrix()), &flat(q.matrix()), |c: &[S]| Orthographic3Tol::from(to_mat::<S, 4, 4>(c)));
    }
    pub fn register(v: &mut Vec<Harness>) {
        reg3!(v, "translation2", t_all, t_each, t_ulps, 2);
        reg3!(v, "translation3", t_all, t_each, t_ulps, 3);
        reg3!(v, "scale2", s_all, s_each, s_ulps, 2);
        reg3!(v, "scale3", s_all, s_each, s_ulps, 3);
        reg3!(v, "reflection2", f_all, f_each, f_ulps, 2);
        reg3!(v, "reflection3", f_all, f_each, f_ulps, 3);
        reg3!(v, "shear2", h_all, h_each, h_ulps, 2);
        reg3!(v, "shear3", h_all, h_each, h_ulps, 3);
        reg3!(v, "transform2", g2_all, g2_each, g2_ulps);
        reg3!(v, "transform3", g3_all, g3_each, g3_ulps);
        let k = "AbsDiffAllEq, RelativeAllEq, UlpsAllEq";
        let e = "AbsDiffEq, RelativeEq";
        h!(v, "C23", "rotation2_all", rot2; k);
        h!(v, "C23", "rotation3_all", rot3; k);
        h!(v, "C23", "rotation2_each", rot2_each; e);
        h!(v, "C23", "rotation3_each", rot3_each; e);
        h!(v, "C23", "isometry2_all", iso2; k);
        h!(v, "C23", "isometry3_all", iso3; k);
        h!(v, "C23", "isometry2_each", iso2_each; e);
        h!(v, "C23", "isometry3_each", iso3_each; e);
        h!(v, "C23", "isometry2_rotation", iso2r; k);
        h!(v, "C23", "isometry3_rotation", iso3r; k);
        h!(v, "C23", "similarity2_all", sim2; k);
        h!(v, "C23", "similarity3_all", sim3; k);
        h!(v, "C23", "similarity2_each", sim2_each; e);
        h!(v, "C23", "similarity3_each", sim3_each; e);
        h!(v, "C23", "similarity2_rotation", sim2r; k);
        h!(v, "C23", "similarity3_rotation", sim3r; k);
        h!(v, "C23", "perspective_all", persp; k);
        h!(v, "C23", "perspective_each", persp_each; e);
        h!(v, "C23", "orthographic_all", ortho; k);
        h!(v, "C23", "orthographic_each", ortho_each; e);
    }
}
