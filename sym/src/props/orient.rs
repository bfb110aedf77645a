//! C14 rotations between directions, viewing transformations; C18 affine matrix constructors.
use super::*;
use crate::h;

fn nrm3<S: Scal>(v: &Vector3<S>) -> S {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
fn crs<S: Scal>(a: &Vector3<S>, b: &Vector3<S>) -> Vector3<S> {
    Vector3::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
}
fn scl<S: Scal>(a: &Vector3<S>, k: S) -> Vector3<S> {
    Vector3::new(a[0] * k, a[1] * k, a[2] * k)
}
/// 10^-6: away from the thresholds of the implementation
fn gap<S: Scal>() -> S {
    S::rat(1, 1_000_000)
}
fn rot2_unit<S: Scal>() {
    let a = unit2::<S>("a");
    let b = unit2::<S>("b");
    let m = Matrix2x2::rotation_between_axis(&a, &b);
    rotation2_goal("rotation_between_axis", &m);
    veq("maps the first onto the second", &ref_mv(&m, a.as_ref()), b.as_ref());
}
fn rot2<S: Scal>() {
    let a = vec::<S, 2>("a");
    let b = vec::<S, 2>("b");
    let m = Matrix2x2::rotation_between(&a, &b);
    let (na, nb) = ((a[0] * a[0] + a[1] * a[1]).sqrt(), (b[0] * b[0] + b[1] * b[1]).sqrt());
    let z = S::zero();
    if na != z && nb != z {
        rotation2_goal("rotation_between", &m);
        let ma = ref_mv(&m, &a);
        for i in 0..2 {
            S::h_eq("first direction goes to the second", ma[i] * nb, b[i] * na);
        }
    } else {
        meq("zero vector gives identity", &m, &Matrix2x2::identity());
    }
}
fn rot3_unit<S: Scal>() {
    let a = unit3::<S>("a");
    let b = unit3::<S>("b");
    let c = crs(a.as_ref(), b.as_ref());
    S::assume(ref_dot(&c, &c) > gap());
    match Matrix3x3::rotation_between_axis(&a, &b) {
        None => S::h_true("defined for directions that are not opposite", false),
        Some(m) => {
            veq("maps the first onto the second", &ref_mv(&m, a.as_ref()), b.as_ref());
            veq("fixes the common normal", &ref_mv(&m, &c), &c);
            // b goes to 2(a.b)b - a, so the map is a rotation
            let d = ref_dot(a.as_ref(), b.as_ref());
            let w = scl(b.as_ref(), two::<S>() * d) - a.into_inner();
            veq("turns by the angle between them", &ref_mv(&m, b.as_ref()), &w);
        }
    }
}
fn rot3_quat_unit<S: Scal>() {
    let a = unit3::<S>("a");
    let b = unit3::<S>("b");
    let c = crs(a.as_ref(), b.as_ref());
    S::assume(ref_dot(&c, &c) > gap());
    let d = ref_dot(a.as_ref(), b.as_ref());
    S::h_lt("lemma: |a.b| < 1", d * d, S::one());
    S::assume(d * d < S::one());
    match Quaternion::rotation_between_axis(&a, &b) {
        None => S::h_true("defined for directions that are not opposite", false),
        Some(q) => {
            let m = q.to_matrix();
            veq("maps the first onto the second", &ref_mv(&m, a.as_ref()), b.as_ref());
            veq("fixes the common normal", &ref_mv(&m, &c), &c);
        }
    }
}
fn rot3<S: Scal>() {
    let a = vec::<S, 3>("a");
    let b = vec::<S, 3>("b");
    let (na, nb) = (nrm3(&a), nrm3(&b));
    let c = crs(&a, &b);
    S::assume(na > S::zero() && nb > S::zero());
    S::assume(ref_dot(&c, &c) > gap::<S>() * na * na * nb * nb);
    match Matrix3x3::rotation_between(&a, &b) {
        None => S::h_true("defined for directions that are not opposite", false),
        Some(m) => {
            let ma = ref_mv(&m, &a);
            for i in 0..3 {
                S::h_eq("first direction goes to the second", ma[i] * nb, b[i] * na);
            }
            veq("fixes the common normal", &ref_mv(&m, &c), &c);
        }
    }
}
fn rot3_quat<S: Scal>() {
    let a = vec::<S, 3>("a");
    let b = vec::<S, 3>("b");
    let (na, nb) = (nrm3(&a), nrm3(&b));
    let c = crs(&a, &b);
    S::assume(na > S::zero() && nb > S::zero());
    S::assume(ref_dot(&c, &c) > gap::<S>() * na * na * nb * nb);
    match Quaternion::rotation_between(&a, &b) {
        None => S::h_true("defined for directions that are not opposite", false),
        Some(q) => {
            let m = q.to_matrix();
            let ma = ref_mv(&m, &a);
            for i in 0..3 {
                S::h_eq("first direction goes to the second", ma[i] * nb, b[i] * na);
            }
            veq("fixes the common normal", &ref_mv(&m, &c), &c);
        }
    }
}
fn rot3_parallel<S: Scal>() {
    let a = unit3::<S>("a");
    let b = Unit::from_value_unchecked(scl(a.as_ref(), -S::one()));
    match Matrix3x3::rotation_between_axis(&a, &a) {
        None => S::h_true("same direction is rotated by the identity", false),
        Some(m) => meq("same direction", &m, &Matrix3x3::identity()),
    }
    match Quaternion::rotation_between_axis(&a, &a) {
        None => S::h_true("same direction is rotated by the identity (quaternion)", false),
        Some(m) => qeq("same direction (quaternion)", &m, &Quaternion::identity()),
    }
    S::h_true("opposite directions have no preferred rotation", Matrix3x3::rotation_between_axis(&a, &b).is_none());
    S::h_true("opposite directions have no preferred rotation (quaternion)", Quaternion::rotation_between_axis(&a, &b).is_none());
    let v = vec::<S, 3>("v");
    let k = S::var("k");
    S::assume(k > S::zero());
    let n = nrm3(&v);
    if n > S::zero() {
        let w = scl(&v, k);
        let o = scl(&v, -k);
        match Matrix3x3::rotation_between(&v, &w) {
            None => S::h_true("parallel vectors", false),
            Some(m) => meq("parallel vectors", &m, &Matrix3x3::identity()),
        }
        match Quaternion::rotation_between(&v, &w) {
            None => S::h_true("parallel vectors (quaternion)", false),
            Some(m) => qeq("parallel vectors (quaternion)", &m, &Quaternion::identity()),
        }
        S::h_true("opposite vectors", Matrix3x3::rotation_between(&v, &o).is_none());
        S::h_true("opposite vectors (quaternion)", Quaternion::rotation_between(&v, &o).is_none());
    }
    let z = Vector3::<S>::zero();
    for (p, q) in [(z, v), (v, z), (z, z)] {
        match Matrix3x3::rotation_between(&p, &q) {
            None => S::h_true("zero vector", false),
            Some(m) => meq("zero vector", &m, &Matrix3x3::identity()),
        }
        match Quaternion::rotation_between(&p, &q) {
            None => S::h_true("zero vector (quaternion)", false),
            Some(m) => qeq("zero vector (quaternion)", &m, &Quaternion::identity()),
        }
    }
}
/// Viewing matrix for `dir`, `up`: sends dir to +-z, up to the upper yz half-plane, preserves lengths and orientation.
fn view_goals<S: Scal>(n: &str, m: &Matrix3x3<S>, dir: &Vector3<S>, up: &Vector3<S>, sign: S) {
    let d = ref_mv(m, dir);
    let u = ref_mv(m, up);
    let z = S::zero();
    let len = nrm3(dir);
    S::h_eq(&format!("{n}: direction has no x"), d[0], z);
    S::h_eq(&format!("{n}: direction has no y"), d[1], z);
    S::h_eq(&format!("{n}: direction is on the z axis"), d[2] * sign, len);
    S::h_eq(&format!("{n}: up has no x"), u[0], z);
    S::h_lt(&format!("{n}: up is up"), z, u[1]);
    rotation3_goal(n, m);
}
fn dir_up<S: Scal>() -> (Vector3<S>, Vector3<S>) {
    let d = vec::<S, 3>("d");
    let u = vec::<S, 3>("u");
    let c = crs(&u, &d);
    S::assume(ref_dot(&d, &d) > S::zero());
    S::assume(ref_dot(&c, &c) > S::zero());
    (d, u)
}
fn look3_lh<S: Scal>() {
    let (d, u) = dir_up::<S>();
    let m = Matrix3x3::look_to_lh(&d, &u);
    view_goals("look_to_lh", &m, &d, &u, S::one());
    meq("look_to_lh_inv is the transpose", &Matrix3x3::look_to_lh_inv(&d, &u), &tr(&m));
}
fn tr<S: Scal>(m: &Matrix3x3<S>) -> Matrix3x3<S> {
    Matrix3x3::new(m[0][0], m[1][0], m[2][0], m[0][1], m[1][1], m[2][1], m[0][2], m[1][2], m[2][2])
}
fn look3_rh<S: Scal>() {
    let (d, u) = dir_up::<S>();
    let m = Matrix3x3::look_to_rh(&d, &u);
    view_goals("look_to_rh", &m, &d, &u, -S::one());
    meq("look_to_rh_inv is the transpose", &Matrix3x3::look_to_rh_inv(&d, &u), &tr(&m));
}
fn eye_target<S: Scal>() -> (Point3<S>, Point3<S>, Vector3<S>, Vector3<S>) {
    let (d, u) = dir_up::<S>();
    let e = pnt::<S, 3>("e");
    let t = Point3::new(e[0] + d[0], e[1] + d[1], e[2] + d[2]);
    (e, t, d, u)
}
fn look3_at<S: Scal>() {
    let (e, t, d, u) = eye_target::<S>();
    meq("look_at_lh", &Matrix3x3::look_at_lh(&e, &t, &u), &Matrix3x3::look_to_lh(&d, &u));
    meq("look_at_rh", &Matrix3x3::look_at_rh(&e, &t, &u), &Matrix3x3::look_to_rh(&d, &u));
    meq("look_at_lh_inv", &Matrix3x3::look_at_lh_inv(&e, &t, &u), &Matrix3x3::look_to_lh_inv(&d, &u));
    meq("look_at_rh_inv", &Matrix3x3::look_at_rh_inv(&e, &t, &u), &Matrix3x3::look_to_rh_inv(&d, &u));
}
/// affine matrix = linear part r, and sends the point e to the origin
fn rigid<S: Scal>(n: &str, m: &Matrix4x4<S>, r: &Matrix3x3<S>, e: &Point3<S>) {
    let z = S::zero();
    for c in 0..3 {
        for w in 0..3 {
            S::h_eq(&format!("{n}: linear part [{c}][{w}]"), m[c][w], r[c][w]);
        }
        S::h_eq(&format!("{n}: bottom row"), m[c][3], z);
    }
    S::h_eq(&format!("{n}: bottom right"), m[3][3], S::one());
    for w in 0..3 {
        S::h_eq(&format!("{n}: eye goes to the origin [{w}]"), m[0][w] * e[0] + m[1][w] * e[1] + m[2][w] * e[2] + m[3][w], z);
    }
}
fn look4<S: Scal>() {
    let (e, t, d, u) = eye_target::<S>();
    rigid("look_to_lh", &Matrix4x4::look_to_lh(&e, &d, &u), &Matrix3x3::look_to_lh(&d, &u), &e);
    rigid("look_to_rh", &Matrix4x4::look_to_rh(&e, &d, &u), &Matrix3x3::look_to_rh(&d, &u), &e);
    rigid("look_at_lh", &Matrix4x4::look_at_lh(&e, &t, &u), &Matrix3x3::look_to_lh(&d, &u), &e);
    rigid("look_at_rh", &Matrix4x4::look_at_rh(&e, &t, &u), &Matrix3x3::look_to_rh(&d, &u), &e);
}
/// The inverse viewing matrices: transposed linear part, origin goes to the eye. The present code returns the
/// eye's coordinates in the view frame instead of the eye (pinned by the repository's tests): recorded finding.
fn look4_inv<S: Scal>() {
    let (e, t, d, u) = eye_target::<S>();
    let z = S::zero();
    let l = Matrix3x3::look_to_lh(&d, &u);
    let r = Matrix3x3::look_to_rh(&d, &u);
    for (n, m, b) in [
        ("look_to_lh_inv", Matrix4x4::look_to_lh_inv(&e, &d, &u), l),
        ("look_to_rh_inv", Matrix4x4::look_to_rh_inv(&e, &d, &u), r),
        ("look_at_lh_inv", Matrix4x4::look_at_lh_inv(&e, &t, &u), l),
        ("look_at_rh_inv", Matrix4x4::look_at_rh_inv(&e, &t, &u), r),
    ] {
        for c in 0..3 {
            for w in 0..3 {
                S::h_eq(&format!("{n}: linear part [{c}][{w}]"), m[c][w], b[w][c]);
            }
            S::h_eq(&format!("{n}: bottom row"), m[c][3], z);
        }
        S::h_eq(&format!("{n}: bottom right"), m[3][3], S::one());
        for w in 0..3 {
            let known = b[0][w] * e[0] + b[1][w] * e[1] + b[2][w] * e[2];
            S::h_eq_known(&format!("{n}: origin goes to the eye"), m[3][w], e[w], known);
        }
    }
}
fn qsame<S: Scal>(n: &str, p: &Quaternion<S>, q: &Quaternion<S>) {
    for i in 0..4 {
        for j in i..4 {
            S::h_eq(&format!("{n}: same rotation"), p[i] * p[j], q[i] * q[j]);
        }
    }
}
fn lookq<S: Scal>() {
    let (d, u) = dir_up::<S>();
    let l = Matrix3x3::look_to_lh(&d, &u);
    qsame("look_to_lh", &Quaternion::look_to_lh(&d, &u), &Quaternion::from_matrix(&l));
    qsame("look_to_lh_inv", &Quaternion::look_to_lh_inv(&d, &u), &Quaternion::from_matrix(&tr(&l)));
}
fn lookq_rh<S: Scal>() {
    let (d, u) = dir_up::<S>();
    let l = Matrix3x3::look_to_rh(&d, &u);
    qsame("look_to_rh", &Quaternion::look_to_rh(&d, &u), &Quaternion::from_matrix(&l));
    qsame("look_to_rh_inv", &Quaternion::look_to_rh_inv(&d, &u), &Quaternion::from_matrix(&tr(&l)));
}
fn lookq_at<S: Scal>() {
    let (e, t, d, u) = eye_target::<S>();
    qsame("look_at_lh", &Quaternion::look_at_lh(&e, &t, &u), &Quaternion::look_to_lh(&d, &u));
    qsame("look_at_lh_inv", &Quaternion::look_at_lh_inv(&e, &t, &u), &Quaternion::look_to_lh_inv(&d, &u));
}
fn lookq_at_rh<S: Scal>() {
    let (e, t, d, u) = eye_target::<S>();
    qsame("look_at_rh", &Quaternion::look_at_rh(&e, &t, &u), &Quaternion::look_to_rh(&d, &u));
    qsame("look_at_rh_inv", &Quaternion::look_at_rh_inv(&e, &t, &u), &Quaternion::look_to_rh_inv(&d, &u));
}

// ------------------------------------------------------------------------- C18
fn scales<S: Scal, const N: usize>() {
    let k = S::var("k");
    let s = vec::<S, N>("s");
    let x = vec::<S, N>("x");
    let mut w = x;
    let mut wn = x;
    let mut wa = x;
    for i in 0..N {
        w[i] = k * x[i];
        wn[i] = s[i] * x[i];
        if i + 1 < N {
            wa[i] = k * x[i];
        }
    }
    veq("from_scale", &ref_mv(&Matrix::<S, N, N>::from_scale(k), &x), &w);
    veq("from_nonuniform_scale", &ref_mv(&Matrix::<S, N, N>::from_nonuniform_scale(&s), &x), &wn);
    veq("from_affine_scale", &ref_mv(&Matrix::<S, N, N>::from_affine_scale(k), &x), &wa);
}
macro_rules! affine_st {
    ($f:ident, $n:literal, $m:literal) => {
        fn $f<S: Scal>() {
            let t = vec::<S, $m>("t");
            let x = vec::<S, $n>("x");
            let mut ws = x;
            let mut wt = x;
            for i in 0..$m {
                ws[i] = t[i] * x[i];
                wt[i] = x[i] + t[i] * x[$m];
            }
            veq("from_affine_nonuniform_scale", &ref_mv(&Matrix::<S, $n, $n>::from_affine_nonuniform_scale(&t), &x), &ws);
            veq("from_affine_translation", &ref_mv(&Matrix::<S, $n, $n>::from_affine_translation(&t), &x), &wt);
        }
    };
}
affine_st!(affine_st2, 2, 1);
affine_st!(affine_st3, 3, 2);
affine_st!(affine_st4, 4, 3);
fn coord_shears<S: Scal>() {
    let k = S::var("k");
    let v = vec::<S, 2>("v");
    let x = vec::<S, 3>("x");
    let y = vec::<S, 4>("y");
    // from_shear_ab: coordinate a moves by k times coordinate b
    for (n, m, a, b) in [("xy", Matrix2x2::from_shear_xy(k), 0, 1), ("yx", Matrix2x2::from_shear_yx(k), 1, 0)] {
        let mut w = v;
        w[a] = v[a] + k * v[b];
        veq(&format!("2x2 from_shear_{n}"), &ref_mv(&m, &v), &w);
    }
    for (n, m, a, b) in [("xy", Matrix3x3::from_affine_shear_xy(k), 0, 1), ("yx", Matrix3x3::from_affine_shear_yx(k), 1, 0)] {
        let mut w = x;
        w[a] = x[a] + k * x[b];
        veq(&format!("3x3 from_affine_shear_{n}"), &ref_mv(&m, &x), &w);
    }
    for (n, m, a, b) in [
        ("xy", Matrix3x3::from_shear_xy(k), 0, 1), ("xz", Matrix3x3::from_shear_xz(k), 0, 2), ("yx", Matrix3x3::from_shear_yx(k), 1, 0),
        ("yz", Matrix3x3::from_shear_yz(k), 1, 2), ("zx", Matrix3x3::from_shear_zx(k), 2, 0), ("zy", Matrix3x3::from_shear_zy(k), 2, 1),
    ] {
        let mut w = x;
        w[a] = x[a] + k * x[b];
        veq(&format!("3x3 from_shear_{n}"), &ref_mv(&m, &x), &w);
    }
    for (n, m, a, b) in [
        ("xy", Matrix4x4::from_affine_shear_xy(k), 0, 1), ("xz", Matrix4x4::from_affine_shear_xz(k), 0, 2), ("yx", Matrix4x4::from_affine_shear_yx(k), 1, 0),
        ("yz", Matrix4x4::from_affine_shear_yz(k), 1, 2), ("zx", Matrix4x4::from_affine_shear_zx(k), 2, 0), ("zy", Matrix4x4::from_affine_shear_zy(k), 2, 1),
    ] {
        let mut w = y;
        w[a] = y[a] + k * y[b];
        veq(&format!("4x4 from_affine_shear_{n}"), &ref_mv(&m, &y), &w);
    }
}
fn shears2<S: Scal>() {
    let k = S::var("k");
    let d = unit2::<S>("d");
    let n = Unit::from_value_unchecked(Vector2::new(-d[1], d[0]));
    let x = vec::<S, 2>("x");
    let h = x[0] * n[0] + x[1] * n[1];
    let m = Matrix2x2::from_shear(k, &d, &n);
    veq("from_shear", &ref_mv(&m, &x), &Vector2::new(x[0] + k * h * d[0], x[1] + k * h * d[1]));
    S::h_eq("area preserved", m[0][0] * m[1][1] - m[0][1] * m[1][0], S::one());
    let o = pnt::<S, 2>("o");
    let h = (x[0] - o[0]) * n[0] + (x[1] - o[1]) * n[1];
    let m = Matrix3x3::from_affine_shear(k, &o, &d, &n);
    let y = Vector3::new(x[0], x[1], S::one());
    veq("from_affine_shear", &ref_mv(&m, &y), &Vector3::new(x[0] + k * h * d[0], x[1] + k * h * d[1], S::one()));
    let v = ref_mv(&m, &Vector3::new(x[0], x[1], S::zero()));
    let h = x[0] * n[0] + x[1] * n[1];
    veq("from_affine_shear on a vector", &v, &Vector3::new(x[0] + k * h * d[0], x[1] + k * h * d[1], S::zero()));
}
fn shears3<S: Scal>() {
    let k = S::var("k");
    // direction and normal are general here: the action is x + k (n.x) d
    let d = Unit::from_value_unchecked(vec::<S, 3>("d"));
    let n = Unit::from_value_unchecked(vec::<S, 3>("n"));
    let x = vec::<S, 3>("x");
    let h = ref_dot(&x, n.as_ref());
    let m = Matrix3x3::from_shear(k, &d, &n);
    veq("from_shear", &ref_mv(&m, &x), &(x + scl(d.as_ref(), k * h)));
    let o = pnt::<S, 3>("o");
    let h = (x[0] - o[0]) * n[0] + (x[1] - o[1]) * n[1] + (x[2] - o[2]) * n[2];
    let m = Matrix4x4::from_affine_shear(k, &o, &d, &n);
    let w = x + scl(d.as_ref(), k * h);
    veq("from_affine_shear", &ref_mv(&m, &Vector4::new(x[0], x[1], x[2], S::one())), &Vector4::new(w[0], w[1], w[2], S::one()));
    let h = ref_dot(&x, n.as_ref());
    let w = x + scl(d.as_ref(), k * h);
    veq("from_affine_shear on a vector", &ref_mv(&m, &Vector4::new(x[0], x[1], x[2], S::zero())), &Vector4::new(w[0], w[1], w[2], S::zero()));
}
fn reflect2<S: Scal>() {
    let n = unit2::<S>("n");
    let x = vec::<S, 2>("x");
    let b = pnt::<S, 2>("b");
    let h = two::<S>() * (x[0] * n[0] + x[1] * n[1]);
    let m = Matrix2x2::from_reflection(&n);
    veq("from_reflection", &ref_mv(&m, &x), &Vector2::new(x[0] - h * n[0], x[1] - h * n[1]));
    meq("involution", &ref_mm(&m, &m), &Matrix2x2::identity());
    S::h_eq("determinant -1", m[0][0] * m[1][1] - m[0][1] * m[1][0], -S::one());
    let a = Matrix3x3::from_affine_reflection(&n, &b);
    let h = two::<S>() * ((x[0] - b[0]) * n[0] + (x[1] - b[1]) * n[1]);
    veq("from_affine_reflection", &ref_mv(&a, &Vector3::new(x[0], x[1], S::one())), &Vector3::new(x[0] - h * n[0], x[1] - h * n[1], S::one()));
    meq("affine involution", &ref_mm(&a, &a), &Matrix3x3::identity());
    for c in 0..2 {
        S::h_eq("bottom row", a[c][2], S::zero());
    }
}
fn reflect3<S: Scal>() {
    let n = unit3::<S>("n");
    let x = vec::<S, 3>("x");
    let b = pnt::<S, 3>("b");
    let h = two::<S>() * ref_dot(&x, n.as_ref());
    let m = Matrix3x3::from_reflection(&n);
    veq("from_reflection", &ref_mv(&m, &x), &(x - scl(n.as_ref(), h)));
    meq("involution", &ref_mm(&m, &m), &Matrix3x3::identity());
    let a = Matrix4x4::from_affine_reflection(&n, &b);
    let h = two::<S>() * ((x[0] - b[0]) * n[0] + (x[1] - b[1]) * n[1] + (x[2] - b[2]) * n[2]);
    let w = x - scl(n.as_ref(), h);
    veq("from_affine_reflection", &ref_mv(&a, &Vector4::new(x[0], x[1], x[2], S::one())), &Vector4::new(w[0], w[1], w[2], S::one()));
    meq("affine involution", &ref_mm(&a, &a), &Matrix4x4::identity());
    for c in 0..3 {
        S::h_eq("bottom row", a[c][3], S::zero());
    }
}
fn affine_rot<S: Scal>() {
    let t = S::var("t");
    let (s, c) = (t.sin(), t.cos());
    let (o, z) = (S::one(), S::zero());
    let a = Radians(t);
    let m2 = Matrix2x2::new(c, s, -s, c);
    meq("2x2 from_angle", &Matrix2x2::from_angle(a), &m2);
    meq("3x3 from_affine_angle", &Matrix3x3::from_affine_angle(a), &Matrix3x3::new(c, s, z, -s, c, z, z, z, o));
    let rx = Matrix4x4::new(o, z, z, z, z, c, s, z, z, -s, c, z, z, z, z, o);
    let ry = Matrix4x4::new(c, z, -s, z, z, o, z, z, s, z, c, z, z, z, z, o);
    let rz = Matrix4x4::new(c, s, z, z, -s, c, z, z, z, z, o, z, z, z, z, o);
    meq("from_affine_angle_x", &Matrix4x4::from_affine_angle_x(a), &rx);
    meq("from_affine_angle_y", &Matrix4x4::from_affine_angle_y(a), &ry);
    meq("from_affine_angle_z", &Matrix4x4::from_affine_angle_z(a), &rz);
    let d = Degrees::from(a);
    meq("degrees", &Matrix4x4::from_affine_angle_x(d), &rx);
    meq("2x2 degrees", &Matrix2x2::from_angle(d), &m2);
    let u = unit3::<S>("u");
    meq("from_affine_axis_angle", &Matrix4x4::from_affine_axis_angle(&u, a), &emb(&Matrix3x3::from_axis_angle(&u, a)));
}
fn emb<S: Scal>(m: &Matrix3x3<S>) -> Matrix4x4<S> {
    let (o, z) = (S::one(), S::zero());
    Matrix4x4::new(m[0][0], m[0][1], m[0][2], z, m[1][0], m[1][1], m[1][2], z, m[2][0], m[2][1], m[2][2], z, z, z, z, o)
}
fn euler_matrix<S: Scal>() {
    let e = Euler::new(ang::<S>("x"), ang::<S>("y"), ang::<S>("z"));
    let d: Euler<Degrees<S>> = Euler::new(e.x.into(), e.y.into(), e.z.into());
    let m = e.to_matrix();
    meq("3x3 from_euler_angles", &Matrix3x3::from_euler_angles(&e), &m);
    meq("3x3 from_euler_angles degrees", &Matrix3x3::from_euler_angles(&d), &m);
    meq("4x4 from_euler_angles", &Matrix4x4::from_euler_angles(&e), &emb(&m));
    meq("4x4 from_euler_angles degrees", &Matrix4x4::from_euler_angles(&d), &emb(&m));
}

pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C14", "rotation_between_2d_unit", rot2_unit; "Matrix2x2::rotation_between_axis");
    h!(v, "C14", "rotation_between_2d", rot2; "Matrix2x2::rotation_between");
    h!(v, "C14", "rotation_between_unit", rot3_unit; "Matrix3x3::rotation_between_axis (directions more than 1e-3 rad from parallel)");
    h!(v, "C14", "rotation_between_unit_quaternion", rot3_quat_unit; "Quaternion::rotation_between_axis (directions more than 1e-3 rad from parallel)");
    h!(v, "C14", "rotation_between", rot3; "Matrix3x3::rotation_between");
    h!(v, "C14", "rotation_between_quaternion", rot3_quat; "Quaternion::rotation_between");
    h!(v, "C14", "rotation_between_parallel", rot3_parallel; "rotation_between(_axis) of parallel, opposite and zero operands, matrix and quaternion");
    h!(v, "C14", "look_to_lh", look3_lh; "Matrix3x3::look_to_lh, look_to_lh_inv");
    h!(v, "C14", "look_to_rh", look3_rh; "Matrix3x3::look_to_rh, look_to_rh_inv");
    h!(v, "C14", "look_at", look3_at; "Matrix3x3::look_at_{lh,rh}(_inv)");
    h!(v, "C14", "look_affine", look4; "Matrix4x4::look_{to,at}_{lh,rh}");
    h!(v, "C14", "look_affine_inv", look4_inv; "Matrix4x4::look_{to,at}_{lh,rh}_inv");
    h!(v, "C14", "look_quaternion_lh", lookq; "Quaternion::look_to_lh(_inv)");
    h!(v, "C14", "look_quaternion_rh", lookq_rh; "Quaternion::look_to_rh(_inv)");
    h!(v, "C14", "look_quaternion_at_lh", lookq_at; "Quaternion::look_at_lh(_inv)");
    h!(v, "C14", "look_quaternion_at_rh", lookq_at_rh; "Quaternion::look_at_rh(_inv)");
    h!(v, "C18", "scale_matrices_2", scales, 2; "Matrix2x2 from_scale, from_nonuniform_scale, from_affine_scale");
    h!(v, "C18", "scale_matrices_3", scales, 3; "Matrix3x3 from_scale, from_nonuniform_scale, from_affine_scale");
    h!(v, "C18", "scale_matrices_4", scales, 4; "Matrix4x4 from_scale, from_nonuniform_scale, from_affine_scale");
    h!(v, "C18", "affine_scale_translation_2", affine_st2; "Matrix2x2 from_affine_nonuniform_scale, from_affine_translation");
    h!(v, "C18", "affine_scale_translation_3", affine_st3; "Matrix3x3 from_affine_nonuniform_scale, from_affine_translation");
    h!(v, "C18", "affine_scale_translation_4", affine_st4; "Matrix4x4 from_affine_nonuniform_scale, from_affine_translation");
    h!(v, "C18", "coordinate_shears", coord_shears; "from_shear_ab, from_affine_shear_ab for every coordinate pair and order");
    h!(v, "C18", "shears_2", shears2; "Matrix2x2::from_shear, Matrix3x3::from_affine_shear");
    h!(v, "C18", "shears_3", shears3; "Matrix3x3::from_shear, Matrix4x4::from_affine_shear");
    h!(v, "C18", "reflections_2", reflect2; "Matrix2x2::from_reflection, Matrix3x3::from_affine_reflection");
    h!(v, "C18", "reflections_3", reflect3; "Matrix3x3::from_reflection, Matrix4x4::from_affine_reflection");
    h!(v, "C18", "rotation_matrices", affine_rot; "from_angle, from_affine_angle(_x,_y,_z), from_affine_axis_angle");
    h!(v, "C18", "euler_matrices", euler_matrix; "Matrix3x3/4x4::from_euler_angles");
}
