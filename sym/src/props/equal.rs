//! C29: two values are equal exactly when every pair of corresponding components is.
use super::*;
use crate::h;

fn comps<S: Scal>(n: &str, k: usize) -> Vec<S> {
    (0..k).map(|i| S::var(&format!("{n}{i}"))).collect()
}
/// `x`, `y`: the components of `a`, `b`.
fn judge<S: Scal, T: PartialEq>(a: &T, b: &T, x: &[S], y: &[S]) {
    let want = x.len() == y.len() && (0..x.len()).all(|i| x[i] == y[i]);
    let got = *a == *b;
    S::h_true("equal exactly when every component is", got == want);
    S::h_true("unequal exactly when some component is", (*a != *b) != want);
    S::h_true("equality is symmetric", (*b == *a) == want);
    S::h_true("a value equals itself", *a == *a);
}
/// Values that differ in one component at most, each in turn, and values that may differ in all.
fn each<S: Scal, T: PartialEq>(k: usize, build: impl Fn(&[S]) -> T) {
    let a: Vec<S> = comps("a", k);
    let d = S::var("b");
    let w = S::var("which");
    for i in 0..k {
        if i + 1 == k || w < S::rat(i as i64, 1) {
            let mut b = a.clone();
            b[i] = d;
            judge(&build(&a), &build(&b), &a[i..i + 1], &b[i..i + 1]);
            return;
        }
    }
}
fn all<S: Scal, T: PartialEq>(k: usize, build: impl Fn(&[S]) -> T) {
    let (a, b): (Vec<S>, Vec<S>) = (comps("a", k), comps("b", k));
    judge(&build(&a), &build(&b), &a, &b);
}
fn v_of<T: Copy, const N: usize>(c: &[T]) -> Vector<T, N> {
    let a: [T; N] = core::array::from_fn(|i| c[i]);
    Vector::from(a)
}
fn p_of<T: Copy, const N: usize>(c: &[T]) -> Point<T, N> {
    let a: [T; N] = core::array::from_fn(|i| c[i]);
    Point::from(a)
}
fn m_of<T: Copy, const R: usize, const C: usize>(x: &[T]) -> Matrix<T, R, C> {
    let a: [[T; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| x[c * R + r]));
    Matrix::from(a)
}
macro_rules! eqs {
    ($each:ident, $all:ident [$(const $n:ident),*], $k:expr, $build:expr) => {
        fn $each<S: Scal $(, const $n: usize)*>() {
            each::<S, _>($k, $build);
        }
        fn $all<S: Scal $(, const $n: usize)*>() {
            all::<S, _>($k, $build);
        }
    };
}
macro_rules! reg {
    ($v:ident, $what:expr, $each:ident, $all:ident $(, $n:literal)*) => {
        h!($v, "C29", concat!($what, "_each"), $each $(, $n)*; concat!($what, ": PartialEq, one component differs"));
        h!($v, "C29", concat!($what, "_all"), $all $(, $n)*; concat!($what, ": PartialEq, any components differ"));
    };
}
eqs!(v_each, v_all [const N], N, v_of::<S, N>);
eqs!(p_each, p_all [const N], N, p_of::<S, N>);
eqs!(m_each, m_all [const R, const C], R * C, m_of::<S, R, C>);
eqs!(q_each, q_all [], 4, |c: &[S]| Quaternion::new(c[0], c[1], c[2], c[3]));
eqs!(z_each, z_all [], 2, |c: &[S]| Complex::new(c[0], c[1]));
eqs!(r_each, r_all [], 1, |c: &[S]| Radians(c[0]));
eqs!(d_each, d_all [], 1, |c: &[S]| Degrees(c[0]));
eqs!(er_each, er_all [], 3, |c: &[S]| Euler::new(Radians(c[0]), Radians(c[1]), Radians(c[2])));
eqs!(ed_each, ed_all [], 3, |c: &[S]| Euler::new(Degrees(c[0]), Degrees(c[1]), Degrees(c[2])));
eqs!(u_each, u_all [const N], N, |c: &[S]| Unit::from_value_unchecked(v_of::<S, N>(c)));
eqs!(uq_each, uq_all [], 4, |c: &[S]| Unit::from_value_unchecked(Quaternion::new(c[0], c[1], c[2], c[3])));
fn order<S: Scal>() {
    let (x, y) = (S::var("x"), S::var("y"));
    S::h_true("Radians <", (Radians(x) < Radians(y)) == (x < y));
    S::h_true("Radians <=", (Radians(x) <= Radians(y)) == (x <= y));
    S::h_true("Degrees >", (Degrees(x) > Degrees(y)) == (x > y));
    S::h_true("Degrees >=", (Degrees(x) >= Degrees(y)) == (x >= y));
}
pub fn register(v: &mut Vec<Harness>) {
    reg!(v, "vector1", v_each, v_all, 1);
    reg!(v, "vector2", v_each, v_all, 2);
    reg!(v, "vector3", v_each, v_all, 3);
    reg!(v, "vector4", v_each, v_all, 4);
    reg!(v, "vector5", v_each, v_all, 5);
    reg!(v, "vector8", v_each, v_all, 8);
    reg!(v, "vector9", v_each, v_all, 9);
    reg!(v, "point1", p_each, p_all, 1);
    reg!(v, "point2", p_each, p_all, 2);
    reg!(v, "point3", p_each, p_all, 3);
    reg!(v, "point4", p_each, p_all, 4);
    reg!(v, "point5", p_each, p_all, 5);
    reg!(v, "matrix1x1", m_each, m_all, 1, 1);
    reg!(v, "matrix1x2", m_each, m_all, 1, 2);
    reg!(v, "matrix1x3", m_each, m_all, 1, 3);
    reg!(v, "matrix1x4", m_each, m_all, 1, 4);
    reg!(v, "matrix2x1", m_each, m_all, 2, 1);
    reg!(v, "matrix2x2", m_each, m_all, 2, 2);
    reg!(v, "matrix2x3", m_each, m_all, 2, 3);
    reg!(v, "matrix2x4", m_each, m_all, 2, 4);
    reg!(v, "matrix3x1", m_each, m_all, 3, 1);
    reg!(v, "matrix3x2", m_each, m_all, 3, 2);
    reg!(v, "matrix3x3", m_each, m_all, 3, 3);
    reg!(v, "matrix3x4", m_each, m_all, 3, 4);
    reg!(v, "matrix4x1", m_each, m_all, 4, 1);
    reg!(v, "matrix4x2", m_each, m_all, 4, 2);
    reg!(v, "matrix4x3", m_each, m_all, 4, 3);
    reg!(v, "matrix4x4", m_each, m_all, 4, 4);
    reg!(v, "matrix5x3", m_each, m_all, 5, 3);
    reg!(v, "matrix3x5", m_each, m_all, 3, 5);
    reg!(v, "quaternion", q_each, q_all);
    reg!(v, "complex", z_each, z_all);
    reg!(v, "radians", r_each, r_all);
    reg!(v, "degrees", d_each, d_all);
    reg!(v, "euler_radians", er_each, er_all);
    reg!(v, "euler_degrees", ed_each, ed_all);
    reg!(v, "unit_vector2", u_each, u_all, 2);
    reg!(v, "unit_vector3", u_each, u_all, 3);
    reg!(v, "unit_quaternion", uq_each, uq_all);
    h!(v, "C29", "angle_order", order; "Radians, Degrees: PartialOrd");
    #[cfg(feature = "transform")]
    tr::register(v);
}

#[cfg(feature = "transform")]
mod tr {
    use super::*;
    use cglinalg_transform::*;

    fn unit_of<S: Scal, const N: usize>(c: &[S]) -> Unit<Vector<S, N>> {
        Unit::from_value_unchecked(v_of::<S, N>(c))
    }
    fn flat<S: Scal, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
        (0..R * C).map(|i| m[i / R][i % R]).collect()
    }
    eqs!(t_each, t_all [const N], N, |c: &[S]| Translation::<S, N>::from_vector(&v_of::<S, N>(c)));
    eqs!(s_each, s_all [const N], N, |c: &[S]| Scale::<S, N>::from_nonuniform_scale(&v_of::<S, N>(c)));
    eqs!(f_each, f_all [const N], 2 * N, |c: &[S]| Reflection::<S, N>::from_normal_bias(&unit_of::<S, N>(c), &p_of::<S, N>(&c[N..])));
    eqs!(h_each, h_all [const N], 3 * N + 1, |c: &[S]| Shear::<S, N>::from_affine_shear(c[0], &p_of::<S, N>(&c[1..]), &unit_of::<S, N>(&c[1 + N..]), &unit_of::<S, N>(&c[1 + 2 * N..])));
    eqs!(g2_each, g2_all [], 9, |c: &[S]| Transform::<S, 2, 3>::from_matrix_unchecked(m_of::<S, 3, 3>(c)));
    eqs!(g3_each, g3_all [], 16, |c: &[S]| Transform::<S, 3, 4>::from_matrix_unchecked(m_of::<S, 4, 4>(c)));
    macro_rules! rigid {
        ($rot:ident, $iso:ident, $sim:ident, $isor:ident, $n:literal, $mk:expr) => {
            fn $rot<S: Scal>() {
                let (a, b): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), $mk(S::var("h")));
                judge(&a, &b, &flat(a.matrix()), &flat(b.matrix()));
            }
            fn $iso<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                all::<S, _>($n, |c: &[S]| Isometry::from_parts(&Translation::from_vector(&v_of::<S, $n>(c)), &r));
            }
            fn $sim<S: Scal>() {
                let r: Rotation<S, $n> = $mk(S::var("g"));
                all::<S, _>($n + 1, |c: &[S]| Similarity::from_parts(&Translation::from_vector(&v_of::<S, $n>(c)), &r, c[$n]));
            }
            fn $isor<S: Scal>() {
                let (a, b): (Rotation<S, $n>, Rotation<S, $n>) = ($mk(S::var("g")), $mk(S::var("h")));
                let t = Translation::from_vector(&vec::<S, $n>("t"));
                let k = S::var("k");
                judge(&Isometry::from_parts(&t, &a), &Isometry::from_parts(&t, &b), &flat(a.matrix()), &flat(b.matrix()));
                judge(&Similarity::from_parts(&t, &a, k), &Similarity::from_parts(&t, &b, k), &flat(a.matrix()), &flat(b.matrix()));
            }
        };
    }
    rigid!(rot2, iso2, sim2, iso2r, 2, |g: S| Rotation2::from_angle(Radians(g)));
    rigid!(rot3, iso3, sim3, iso3r, 3, |g: S| Rotation3::from_angle_y(Radians(g)));
    fn volume<S: Scal>() -> [S; 6] {
        let a: [S; 6] = core::array::from_fn(|i| S::var(["l", "r", "b", "t", "n", "f"][i]));
        for x in a {
            S::assume(x > S::zero());
        }
        S::assume(a[4] < a[5]);
        a
    }
    /// Two view volumes that differ in one plane.
    macro_rules! projections {
        ($f:ident, $T:ident) => {
            fn $f<S: Scal>() {
                let a = volume::<S>();
                let mk = |a: &[S; 6]| $T::new(a[0], a[1], a[2], a[3], a[4], a[5]);
                let w = S::var("which");
                for i in 0..6 {
                    if i == 5 || w < S::rat(i as i64, 1) {
                        let mut b = a;
                        b[i] = S::var("x");
                        S::assume(b[i] > S::zero() && b[4] < b[5]);
                        let (p, q) = (mk(&a), mk(&b));
                        judge(&p, &q, &flat(p.matrix()), &flat(q.matrix()));
                        return;
                    }
                }
            }
        };
    }
    projections!(persp, Perspective3);
    projections!(ortho, Orthographic3);
    pub fn register(v: &mut Vec<Harness>) {
        reg!(v, "translation2", t_each, t_all, 2);
        reg!(v, "translation3", t_each, t_all, 3);
        reg!(v, "scale2", s_each, s_all, 2);
        reg!(v, "scale3", s_each, s_all, 3);
        reg!(v, "reflection2", f_each, f_all, 2);
        reg!(v, "reflection3", f_each, f_all, 3);
        reg!(v, "shear2", h_each, h_all, 2);
        reg!(v, "shear3", h_each, h_all, 3);
        reg!(v, "transform2", g2_each, g2_all);
        reg!(v, "transform3", g3_each, g3_all);
        let api = "Rotation, Isometry, Similarity: PartialEq";
        h!(v, "C29", "rotation2", rot2; api);
        h!(v, "C29", "rotation3", rot3; api);
        h!(v, "C29", "isometry2", iso2; api);
        h!(v, "C29", "isometry3", iso3; api);
        h!(v, "C29", "similarity2", sim2; api);
        h!(v, "C29", "similarity3", sim3; api);
        h!(v, "C29", "rigid2_rotation", iso2r; api);
        h!(v, "C29", "rigid3_rotation", iso3r; api);
        h!(v, "C29", "perspective", persp; "Perspective3: PartialEq");
        h!(v, "C29", "orthographic", ortho; "Orthographic3: PartialEq");
    }
}
