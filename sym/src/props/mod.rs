pub use crate::sym::*;
pub use crate::Harness;
pub use cglinalg_core::*;
pub use cglinalg_numeric::*;
pub use cglinalg_trigonometry::*;

/// h!(list, property, "harness name", function[, const params...]; "functions encoded" [, thorough])
#[macro_export]
macro_rules! h {
    ($v:ident, $prop:expr, $name:expr, $f:ident $(, $n:literal)* ; $api:expr) => {
        $v.push($crate::Harness { prop: $prop, name: $name, api: $api, sym: $f::<$crate::engine::Sym $(, $n)*>, nat: $f::<f64 $(, $n)*>, thorough: false })
    };
    ($v:ident, $prop:expr, $name:expr, $f:ident $(, $n:literal)* ; $api:expr, thorough) => {
        $v.push($crate::Harness { prop: $prop, name: $name, api: $api, sym: $f::<$crate::engine::Sym $(, $n)*>, nat: $f::<f64 $(, $n)*>, thorough: true })
    };
}

/// Every by-value / by-reference combination of a binary operator gives `$want`.
#[macro_export]
macro_rules! forms {
    ($eq:ident, $name:expr, $a:expr, $op:tt, $b:expr, $want:expr) => {{
        let (a, b) = ($a, $b);
        let want = $want;
        $eq(&format!("{} (value op value)", $name), &(a $op b), &want);
        $eq(&format!("{} (value op ref)", $name), &(a $op &b), &want);
        $eq(&format!("{} (ref op value)", $name), &(&a $op b), &want);
        $eq(&format!("{} (ref op ref)", $name), &(&a $op &b), &want);
    }};
}

pub fn vec<S: Scal, const N: usize>(n: &str) -> Vector<S, N> {
    let mut v = Vector::from_fill(S::zero());
    for i in 0..N {
        v[i] = S::var(&format!("{n}{i}"));
    }
    v
}
pub fn pnt<S: Scal, const N: usize>(n: &str) -> Point<S, N> {
    let mut v = Point::from_fill(S::zero());
    for i in 0..N {
        v[i] = S::var(&format!("{n}{i}"));
    }
    v
}
pub fn mat<S: Scal, const R: usize, const C: usize>(n: &str) -> Matrix<S, R, C> {
    let mut m = Matrix::zero();
    for c in 0..C {
        for r in 0..R {
            m[c][r] = S::var(&format!("{n}{c}{r}"));
        }
    }
    m
}
pub fn quat<S: Scal>(n: &str) -> Quaternion<S> {
    Quaternion::new(S::var(&format!("{n}w")), S::var(&format!("{n}x")), S::var(&format!("{n}y")), S::var(&format!("{n}z")))
}
pub fn cplx<S: Scal>(n: &str) -> Complex<S> {
    Complex::new(S::var(&format!("{n}re")), S::var(&format!("{n}im")))
}
/// arbitrary unit vector
pub fn unit3<S: Scal>(n: &str) -> Unit<Vector3<S>> {
    let x = S::var(&format!("{n}x"));
    let y = S::var(&format!("{n}y"));
    let z = S::var_sq(&format!("{n}z"), S::one() - x * x - y * y);
    Unit::from_value_unchecked(Vector3::new(x, y, z))
}
pub fn unit2<S: Scal>(n: &str) -> Unit<Vector2<S>> {
    let x = S::var(&format!("{n}x"));
    let y = S::var_sq(&format!("{n}y"), S::one() - x * x);
    Unit::from_value_unchecked(Vector2::new(x, y))
}
pub fn unitq<S: Scal>(n: &str) -> Unit<Quaternion<S>> {
    Unit::from_value_unchecked(unitq_raw(n))
}
pub fn unitq_raw<S: Scal>(n: &str) -> Quaternion<S> {
    let x = S::var(&format!("{n}x"));
    let y = S::var(&format!("{n}y"));
    let z = S::var(&format!("{n}z"));
    let s = S::var_sq(&format!("{n}w"), S::one() - x * x - y * y - z * z);
    Quaternion::new(s, x, y, z)
}
pub fn ang<S: Scal>(n: &str) -> Radians<S> {
    Radians(S::var(n))
}
pub fn seq<S: Scal>(n: &str, a: &S, b: &S) {
    S::h_eq(n, *a, *b);
}
pub fn veq<S: Scal, const N: usize>(n: &str, a: &Vector<S, N>, b: &Vector<S, N>) {
    for i in 0..N {
        S::h_eq(&format!("{n}[{i}]"), a[i], b[i]);
    }
}
pub fn peq<S: Scal, const N: usize>(n: &str, a: &Point<S, N>, b: &Point<S, N>) {
    for i in 0..N {
        S::h_eq(&format!("{n}[{i}]"), a[i], b[i]);
    }
}
pub fn meq<S: Scal, const R: usize, const C: usize>(n: &str, a: &Matrix<S, R, C>, b: &Matrix<S, R, C>) {
    for c in 0..C {
        for r in 0..R {
            S::h_eq(&format!("{n}[{c}][{r}]"), a[c][r], b[c][r]);
        }
    }
}
pub fn qeq<S: Scal>(n: &str, a: &Quaternion<S>, b: &Quaternion<S>) {
    for i in 0..4 {
        S::h_eq(&format!("{n}[{i}]"), a[i], b[i]);
    }
}
pub fn ceq<S: Scal>(n: &str, a: &Complex<S>, b: &Complex<S>) {
    S::h_eq(&format!("{n}.re"), a.real(), b.real());
    S::h_eq(&format!("{n}.im"), a.imaginary(), b.imaginary());
}
pub fn two<S: Scal>() -> S {
    S::one() + S::one()
}
/// Reference matrix-vector product, written out by index.
pub fn ref_mv<S: Scal, const R: usize, const C: usize>(m: &Matrix<S, R, C>, v: &Vector<S, C>) -> Vector<S, R> {
    let mut o = Vector::from_fill(S::zero());
    for r in 0..R {
        let mut s = S::zero();
        for c in 0..C {
            s = s + m[c][r] * v[c];
        }
        o[r] = s;
    }
    o
}
pub fn ref_mm<S: Scal, const R: usize, const K: usize, const C: usize>(a: &Matrix<S, R, K>, b: &Matrix<S, K, C>) -> Matrix<S, R, C> {
    let mut o = Matrix::zero();
    for r in 0..R {
        for c in 0..C {
            let mut s = S::zero();
            for k in 0..K {
                s = s + a[k][r] * b[c][k];
            }
            o[c][r] = s;
        }
    }
    o
}
pub fn ref_dot<S: Scal, const N: usize>(a: &Vector<S, N>, b: &Vector<S, N>) -> S {
    let mut s = S::zero();
    for i in 0..N {
        s = s + a[i] * b[i];
    }
    s
}
/// The matrix is orthogonal with determinant +1 (3x3).
pub fn rotation3_goal<S: Scal>(n: &str, m: &Matrix3x3<S>) {
    for i in 0..3 {
        for j in i..3 {
            let d = m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2];
            S::h_eq(&format!("{n}: columns {i},{j} orthonormal"), d, if i == j { S::one() } else { S::zero() });
        }
    }
    // third column = first x second  <=>  determinant +1 given orthonormal columns
    let c = [
        m[0][1] * m[1][2] - m[0][2] * m[1][1],
        m[0][2] * m[1][0] - m[0][0] * m[1][2],
        m[0][0] * m[1][1] - m[0][1] * m[1][0],
    ];
    let det = c[0] * m[2][0] + c[1] * m[2][1] + c[2] * m[2][2];
    S::h_eq(&format!("{n}: determinant +1"), det, S::one());
}
pub fn rotation2_goal<S: Scal>(n: &str, m: &Matrix2x2<S>) {
    S::h_eq(&format!("{n}: unit column"), m[0][0] * m[0][0] + m[0][1] * m[0][1], S::one());
    S::h_eq(&format!("{n}: cos"), m[0][0], m[1][1]);
    S::h_eq(&format!("{n}: sin"), m[0][1], -m[1][0]);
}

mod angles;
mod approx;
mod casts;
mod equal;
mod layout;
mod orient;
mod swizzles;
mod text;
#[cfg(feature = "transform")]
mod transforms;
mod complexes;
mod matrices;
mod quats;
mod vectors;
pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    angles::register(&mut v);
    approx::register(&mut v);
    casts::register(&mut v);
    equal::register(&mut v);
    layout::register(&mut v);
    orient::register(&mut v);
    swizzles::register(&mut v);
    text::register(&mut v);
    #[cfg(feature = "transform")]
    transforms::register(&mut v);
    vectors::register(&mut v);
    quats::register(&mut v);
    complexes::register(&mut v);
    matrices::register(&mut v);
    for (from, prefix, to) in ALSO {
        for i in 0..v.len() {
            if v[i].prop == *from && v[i].name.starts_with(prefix) {
                let h = Harness { prop: to, ..v[i] };
                v.push(h);
            }
        }
    }
    v
}

/// Harnesses whose goals belong to more than one property: (registered under, name prefix, also decided under).
const ALSO: &[(&str, &str, &str)] = &[
    ("C04", "norms", "C02"),
    ("C04", "lnorms", "C02"),
    ("C10", "quaternion_normalize", "C02"),
    ("C10", "quaternion_l1", "C02"),
    ("C15", "complex_normalize", "C02"),
    ("C15", "complex_l1", "C02"),
    ("C06", "cross_matrix", "C03"),
    ("C04", "square", "C06"),
    ("C06", "views", "C07"),
    ("C11", "axis_angle", "C18"),
    ("C11", "coordinate_axes", "C18"),
    ("C18", "rotation_matrices", "C11"),
    ("C18", "euler_matrices", "C11"),
    ("C15", "complex_integer_powers", "C16"),
];
