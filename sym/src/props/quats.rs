//! C10 quaternion algebra, C11 rotation representations agree, C12 quaternion functions, C13 interpolation.
use super::*;
use crate::{forms, h};

fn ham<S: Scal>(a: &Quaternion<S>, b: &Quaternion<S>) -> Quaternion<S> {
    Quaternion::new(
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    )
}
fn qdot<S: Scal>(a: &Quaternion<S>, b: &Quaternion<S>) -> S {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
fn vdot<S: Scal>(a: &Quaternion<S>) -> S {
    a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
}
fn tiny<S: Scal>() -> S {
    S::rat(1, 10_000_000_000)
}

// ------------------------------------------------------------------------- C10
fn algebra<S: Scal>() {
    let a = quat::<S>("a");
    let b = quat::<S>("b");
    let c = quat::<S>("c");
    let k = S::var("k");
    let two = two::<S>();
    let q = |f: &dyn Fn(usize) -> S| Quaternion::new(f(0), f(1), f(2), f(3));
    forms!(qeq, "add", a, +, b, q(&|i| a[i] + b[i]));
    forms!(qeq, "sub", a, -, b, q(&|i| a[i] - b[i]));
    forms!(qeq, "mul", a, *, b, ham(&a, &b));
    let sc = q(&|i| a[i] * k);
    qeq("scale", &(a * k), &sc);
    qeq("scale ref", &(&a * k), &sc);
    qeq("scale by ref", &(a * &k), &sc);
    qeq("scale ref by ref", &(&a * &k), &sc);
    let ng = q(&|i| S::zero() - a[i]);
    qeq("neg", &(-a), &ng);
    qeq("neg ref", &(-&a), &ng);
    let mut m = a;
    m += b;
    qeq("add_assign", &m, &(a + b));
    let mut m = a;
    m += &b;
    qeq("add_assign ref", &m, &(a + b));
    let mut m = a;
    m -= b;
    qeq("sub_assign", &m, &(a - b));
    let mut m = a;
    m -= &b;
    qeq("sub_assign ref", &m, &(a - b));
    let mut m = a;
    m *= k;
    qeq("mul_assign", &m, &sc);
    qeq("associative", &((a * b) * c), &(a * (b * c)));
    qeq("left distributive", &(a * (b + c)), &(a * b + a * c));
    qeq("right distributive", &((a + b) * c), &(a * c + b * c));
    qeq("one", &(a * Quaternion::identity()), &a);
    qeq("one left", &(Quaternion::one() * a), &a);
    qeq("zero", &(a + Quaternion::zero()), &a);
    let cj = Quaternion::new(a[0], -a[1], -a[2], -a[3]);
    qeq("conjugate", &a.conjugate(), &cj);
    let mut m = a;
    m.conjugate_mut();
    qeq("conjugate_mut", &m, &cj);
    qeq("conjugate reverses products", &(a * b).conjugate(), &(b.conjugate() * a.conjugate()));
    S::h_eq("norm is multiplicative", (a * b).norm_squared(), a.norm_squared() * b.norm_squared());
    qeq("q conj(q) = |q|^2", &(a * a.conjugate()), &Quaternion::from_real(qdot(&a, &a)));
    qeq("squared", &a.squared(), &ham(&a, &a));
    qeq("half", &(a.half() * two), &a);
    S::h_eq("dot", a.dot(&b), qdot(&a, &b));
    S::h_eq("norm_squared", a.norm_squared(), qdot(&a, &a));
    S::h_eq("modulus_squared", a.modulus_squared(), qdot(&a, &a));
    S::h_eq("magnitude_squared", a.magnitude_squared(), qdot(&a, &a));
    let d = a - b;
    S::h_eq("metric_distance_squared", a.metric_distance_squared(&b), qdot(&d, &d));
    S::h_eq("distance_squared", a.distance_squared(&b), qdot(&d, &d));
    for (n, x, y) in [
        ("norm", a.norm(), qdot(&a, &a)),
        ("modulus", a.modulus(), qdot(&a, &a)),
        ("magnitude", a.magnitude(), qdot(&a, &a)),
        ("l2_norm", a.l2_norm(), qdot(&a, &a)),
        ("Normed::norm", Normed::norm(&a), qdot(&a, &a)),
        ("metric_distance", a.metric_distance(&b), qdot(&d, &d)),
        ("distance", a.distance(&b), qdot(&d, &d)),
    ] {
        S::h_le(&format!("{n} >= 0"), S::zero(), x);
        S::h_eq(&format!("{n}^2"), x * x, y);
    }
    qeq("inner", &(a.inner(&b) * two), &(ham(&a, &b) + ham(&b, &a)));
    qeq("outer", &(a.outer(&b) * two), &(ham(&a, &b) - ham(&b, &a)));
    qeq("unit_s", &Quaternion::<S>::unit_s(), &Quaternion::new(S::one(), S::zero(), S::zero(), S::zero()));
    let (i, j, l) = (Quaternion::<S>::unit_x(), Quaternion::unit_y(), Quaternion::unit_z());
    qeq("ij = k", &(i * j), &l);
    qeq("jk = i", &(j * l), &i);
    qeq("ki = j", &(l * i), &j);
    qeq("i^2 = -1", &(i * i), &(-Quaternion::one()));
    qeq("ijk = -1", &(i * j * l), &(-Quaternion::one()));
    // parts
    let v = vec::<S, 3>("v");
    let p = Quaternion::from_parts(k, v);
    S::h_eq("scalar", p.scalar(), k);
    veq("vector", &p.vector(), &v);
    qeq("from_pure", &Quaternion::from_pure(v), &Quaternion::new(S::zero(), v[0], v[1], v[2]));
    qeq("from_real", &Quaternion::from_real(k), &Quaternion::new(k, S::zero(), S::zero(), S::zero()));
    qeq("from_fill", &Quaternion::from_fill(k), &Quaternion::new(k, k, k, k));
    qeq("map", &a.map(|x| x + k), &q(&|i| a[i] + k));
    qeq("default", &Quaternion::<S>::default(), &Quaternion::new(S::zero(), S::zero(), S::zero(), S::zero()));
    let w = vec::<S, 3>("w");
    // product of pure quaternions = -v.w + v x w
    let pw = Quaternion::from_pure(v) * Quaternion::from_pure(w);
    S::h_eq("pure product scalar", pw.scalar(), -ref_dot(&v, &w));
    veq("pure product vector", &pw.vector(), &v.cross(&w));
    qeq("lerp", &a.lerp(&b, k), &q(&|i| a[i] + (b[i] - a[i]) * k));
    qeq("scale()", &a.scale(k), &sc);
    let mut m = a;
    m.scale_mut(k);
    qeq("scale_mut", &m, &sc);
    S::assume(k != S::zero());
    let dv = q(&|i| a[i] / k);
    qeq("div", &(a / k), &dv);
    qeq("div ref", &(&a / k), &dv);
    qeq("div by ref", &(a / &k), &dv);
    qeq("div ref by ref", &(&a / &k), &dv);
    let mut m = a;
    m /= k;
    qeq("div_assign", &m, &dv);
    qeq("unscale", &a.unscale(k), &dv);
    let mut m = a;
    m.unscale_mut(k);
    qeq("unscale_mut", &m, &dv);
    S::assume(qdot(&b, &b) > S::zero());
    let pr = a.project(&b);
    for i in 0..4 {
        for j in (i + 1)..4 {
            S::h_eq("projection is parallel", pr[i] * b[j], pr[j] * b[i]);
        }
    }
    S::h_eq("rejection is orthogonal", qdot(&a.reject(&b), &b), S::zero());
    qeq("project + reject", &(pr + a.reject(&b)), &a);
}
fn qrem<S: Scal>() {
    let a = quat::<S>("a");
    let k = S::var("k");
    S::assume(k != S::zero());
    let want = Quaternion::new(a[0] % k, a[1] % k, a[2] % k, a[3] % k);
    let mut r3 = a;
    r3 %= k;
    for (n, r) in [("rem", a % k), ("rem ref", &a % k), ("rem by ref", a % &k), ("rem ref by ref", &a % &k), ("rem_assign", r3)] {
        qeq(n, &r, &want);
    }
}
fn preds<S: Scal>() {
    let x = S::var("x");
    for i in 0..4 {
        let mut q = Quaternion::<S>::zero();
        q[i] = x;
        let z = x == S::zero();
        S::h_true("is_zero", q.is_zero() == z);
        S::h_true("is_pure", q.is_pure() == (i != 0 || z));
        S::h_true("is_real", q.is_real() == (i == 0 || z));
        let mut q = Quaternion::<S>::identity();
        q[i] = x;
        S::h_true("is_identity", q.is_identity() == if i == 0 { x == S::one() } else { z });
        S::h_true("== compares every component", (q == Quaternion::identity()) == if i == 0 { x == S::one() } else { z });
        S::h_true("is_finite", q.is_finite());
    }
}
fn l1<S: Scal>() {
    let a = quat::<S>("a");
    let mut s = S::zero();
    for i in 0..4 {
        s = s + if a[i] < S::zero() { -a[i] } else { a[i] };
    }
    S::h_eq("l1_norm", a.l1_norm(), s);
}
fn inverse<S: Scal>() {
    let a = quat::<S>("a");
    let b = quat::<S>("b");
    let n2 = qdot(&a, &a);
    match a.try_inverse() {
        Some(i) => {
            S::h_lt("only non-zero quaternions are inverted", S::zero(), n2);
            qeq("q^-1 q = 1", &(i * a), &Quaternion::identity());
            qeq("q q^-1 = 1", &(a * i), &Quaternion::identity());
            qeq("inverse()", &a.inverse(), &i);
            S::h_true("is_invertible agrees", a.is_invertible());
            let l = b.div_left(&a);
            let r = b.div_right(&a);
            S::h_true("quotients exist", l.is_some() && r.is_some());
            qeq("a * (a \\ b) = b", &(a * l.unwrap()), &b);
            qeq("(b / a) * a = b", &(r.unwrap() * a), &b);
        }
        None => {
            S::h_le("refused only near zero", n2, tiny());
            S::h_true("is_invertible agrees", !a.is_invertible());
            S::h_true("no quotient", b.div_left(&a).is_none() && b.div_right(&a).is_none());
        }
    }
}
fn normalize<S: Scal>() {
    let a = quat::<S>("a");
    let t = S::var("t");
    let n2 = qdot(&a, &a);
    S::assume(n2 > S::zero());
    let u = a.normalize();
    S::h_eq("unit", qdot(&u, &u), S::one());
    qeq("q = |q| u", &(u * a.norm()), &a);
    let mut m = a;
    let n = m.normalize_mut();
    qeq("normalize_mut", &m, &u);
    S::h_eq("normalize_mut norm", n, a.norm());
    qeq("Unit::from_value", Unit::from_value(a).as_ref(), &u);
    qeq("neg unit", (-Unit::from_value(a)).as_ref(), &(-u));
    qeq("neg unit ref", (-&Unit::from_value(a)).as_ref(), &(-u));
    S::assume(t >= S::zero());
    let over = a.norm() > t;
    match a.try_normalize(t) {
        Some(x) => {
            S::h_true("above the threshold", over);
            qeq("try_normalize", &x, &u);
        }
        None => S::h_true("at or below the threshold", !over),
    }
    let mut m = a;
    match m.try_normalize_mut(t) {
        Some(x) => {
            S::h_true("above the threshold", over);
            qeq("try_normalize_mut", &m, &u);
            S::h_eq("try_normalize_mut norm", x, a.norm());
        }
        None => {
            S::h_true("at or below the threshold", !over);
            qeq("unchanged", &m, &a);
        }
    }
}

// ------------------------------------------------------------------------- C11
/// Rodrigues: rotation of v by angle about unit axis n.
fn rodrigues<S: Scal>(n: &Vector3<S>, c: S, s: S, v: &Vector3<S>) -> Vector3<S> {
    let d = n[0] * v[0] + n[1] * v[1] + n[2] * v[2];
    let x = [n[1] * v[2] - n[2] * v[1], n[2] * v[0] - n[0] * v[2], n[0] * v[1] - n[1] * v[0]];
    let mut o = Vector3::zero();
    for i in 0..3 {
        o[i] = v[i] * c + x[i] * s + n[i] * d * (S::one() - c);
    }
    o
}
fn axis_angle<S: Scal>() {
    let n = unit3::<S>("n");
    let t = ang::<S>("t");
    let v = vec::<S, 3>("v");
    let (c, s) = (t.0.cos(), t.0.sin());
    let want = rodrigues(n.as_ref(), c, s, &v);
    let m = Matrix3x3::from_axis_angle(&n, t);
    veq("Matrix3x3::from_axis_angle rotates by Rodrigues' formula", &(m * v), &want);
    let a = Matrix4x4::from_affine_axis_angle(&n, t);
    meq("affine matrix embeds the linear one", &a, &Matrix4x4::from(m));
    let q = Quaternion::from_axis_angle(&n, t);
    S::h_eq("unit quaternion", qdot(&q, &q), S::one());
    veq("quaternion conjugation", &(q * Quaternion::from_pure(v) * q.conjugate()).vector(), &want);
    meq("quaternion to_matrix", &q.to_matrix(), &m);
    rotation3_goal("axis-angle matrix", &m);
    // the degree form of the same angle
    let d: Degrees<S> = t.into();
    meq("degrees", &Matrix3x3::from_axis_angle(&n, d), &m);
    qeq("degrees quaternion", &Quaternion::from_axis_angle(&n, d), &q);
}
fn axes<S: Scal>() {
    let t = ang::<S>("t");
    let v = vec::<S, 3>("v");
    let (c, s) = (t.0.cos(), t.0.sin());
    let ex = Vector3::<S>::unit_x();
    let ey = Vector3::<S>::unit_y();
    let ez = Vector3::<S>::unit_z();
    veq("from_angle_x", &(Matrix3x3::from_angle_x(t) * v), &rodrigues(&ex, c, s, &v));
    veq("from_angle_y", &(Matrix3x3::from_angle_y(t) * v), &rodrigues(&ey, c, s, &v));
    veq("from_angle_z", &(Matrix3x3::from_angle_z(t) * v), &rodrigues(&ez, c, s, &v));
    meq("affine x", &Matrix4x4::from_affine_angle_x(t), &Matrix4x4::from(Matrix3x3::from_angle_x(t)));
    meq("affine y", &Matrix4x4::from_affine_angle_y(t), &Matrix4x4::from(Matrix3x3::from_angle_y(t)));
    meq("affine z", &Matrix4x4::from_affine_angle_z(t), &Matrix4x4::from(Matrix3x3::from_angle_z(t)));
    let w = vec::<S, 2>("w");
    veq("from_angle 2", &(Matrix2x2::from_angle(t) * w), &Vector2::new(c * w[0] - s * w[1], s * w[0] + c * w[1]));
    meq("affine 2", &Matrix3x3::from_affine_angle(t), &Matrix3x3::from(Matrix2x2::from_angle(t)));
    // additivity
    let u = ang::<S>("u");
    meq("angles add (2D)", &(Matrix2x2::from_angle(t) * Matrix2x2::from_angle(u)), &Matrix2x2::from_angle(t + u));
    meq("angles add (x)", &(Matrix3x3::from_angle_x(t) * Matrix3x3::from_angle_x(u)), &Matrix3x3::from_angle_x(t + u));
    meq("angles add (y)", &(Matrix3x3::from_angle_y(t) * Matrix3x3::from_angle_y(u)), &Matrix3x3::from_angle_y(t + u));
    meq("angles add (z)", &(Matrix3x3::from_angle_z(t) * Matrix3x3::from_angle_z(u)), &Matrix3x3::from_angle_z(t + u));
}
fn axis_angle_add<S: Scal>() {
    let n = unit3::<S>("n");
    let t = ang::<S>("t");
    let u = ang::<S>("u");
    qeq("quaternion angles add", &(Quaternion::from_axis_angle(&n, t) * Quaternion::from_axis_angle(&n, u)), &Quaternion::from_axis_angle(&n, t + u));
    meq("matrix angles add", &(Matrix3x3::from_axis_angle(&n, t) * Matrix3x3::from_axis_angle(&n, u)), &Matrix3x3::from_axis_angle(&n, t + u));
}
fn to_matrix<S: Scal>() {
    let q = quat::<S>("q");
    let v = vec::<S, 3>("v");
    S::assume(qdot(&q, &q) > S::zero());
    let m = q.to_matrix();
    // for a quaternion of any non-zero length: v -> q v q^-1
    let n2 = qdot(&q, &q);
    let r = ham(&ham(&q, &Quaternion::from_pure(v)), &q.conjugate());
    for i in 0..3 {
        S::h_eq("to_matrix is conjugation", (m * v)[i] * n2, r[i + 1]);
    }
    let mut a = Matrix3x3::zero();
    q.to_matrix_mut(&mut a);
    meq("to_matrix_mut", &a, &m);
    let f = Matrix4x4::from(m);
    meq("to_affine_matrix", &q.to_affine_matrix(), &f);
    let mut a = Matrix4x4::zero();
    q.to_affine_matrix_mut(&mut a);
    meq("to_affine_matrix_mut", &a, &f);
    meq("Matrix3x3::from", &Matrix3x3::from(q), &m);
    meq("Matrix3x3::from ref", &Matrix3x3::from(&q), &m);
    meq("Matrix4x4::from", &Matrix4x4::from(q), &f);
    meq("Matrix4x4::from ref", &Matrix4x4::from(&q), &f);
    rotation3_goal("to_matrix", &m);
}
fn to_matrix_mul<S: Scal>() {
    let p = unitq_raw::<S>("p");
    let q = unitq_raw::<S>("q");
    meq("product of quaternions = product of matrices", &(p * q).to_matrix(), &(p.to_matrix() * q.to_matrix()));
    meq("conjugate = transpose", &p.conjugate().to_matrix(), &p.to_matrix().transpose());
    meq("q and -q are the same rotation", &(-p).to_matrix(), &p.to_matrix());
}
fn from_matrix<S: Scal>() {
    // every rotation matrix is the matrix of a unit quaternion
    let q = unitq_raw::<S>("q");
    let m = Matrix3x3::new(
        S::one() - two::<S>() * (q[2] * q[2] + q[3] * q[3]), two::<S>() * (q[1] * q[2] + q[0] * q[3]), two::<S>() * (q[1] * q[3] - q[0] * q[2]),
        two::<S>() * (q[1] * q[2] - q[0] * q[3]), S::one() - two::<S>() * (q[1] * q[1] + q[3] * q[3]), two::<S>() * (q[2] * q[3] + q[0] * q[1]),
        two::<S>() * (q[1] * q[3] + q[0] * q[2]), two::<S>() * (q[2] * q[3] - q[0] * q[1]), S::one() - two::<S>() * (q[1] * q[1] + q[2] * q[2]),
    );
    for (n, p) in [("from_matrix", Quaternion::from_matrix(&m)), ("From", Quaternion::from(m)), ("From ref", Quaternion::from(&m))] {
        // p = q or p = -q: all 2x2 minors vanish and the lengths agree
        for i in 0..4 {
            for j in (i + 1)..4 {
                S::h_eq(&format!("{n}: same or opposite quaternion"), p[i] * q[j], p[j] * q[i]);
            }
        }
        S::h_eq(&format!("{n}: unit"), qdot(&p, &p), S::one());
    }
}
fn euler_to<S: Scal>() {
    let e = Euler::new(ang::<S>("x"), ang::<S>("y"), ang::<S>("z"));
    let m = Matrix3x3::from_angle_x(e.x) * Matrix3x3::from_angle_y(e.y) * Matrix3x3::from_angle_z(e.z);
    meq("to_matrix = Rx Ry Rz", &e.to_matrix(), &m);
    meq("From<Euler>", &Matrix3x3::from(e), &m);
    meq("From<&Euler>", &Matrix3x3::from(&e), &m);
    meq("to_affine_matrix", &e.to_affine_matrix(), &Matrix4x4::from(m));
    meq("From<Euler> affine", &Matrix4x4::from(e), &Matrix4x4::from(m));
    meq("From<&Euler> affine", &Matrix4x4::from(&e), &Matrix4x4::from(m));
    let z = Euler::<Radians<S>>::zero();
    meq("zero angles", &z.to_matrix(), &Matrix3x3::identity());
    S::h_true("zero is zero", z.is_zero());
    for i in 0..3 {
        let mut w = Euler::<Radians<S>>::zero();
        match i {
            0 => w.x = e.x,
            1 => w.y = e.y,
            _ => w.z = e.z,
        }
        let v = [e.x, e.y, e.z][i].0;
        S::h_true("is_zero iff all angles are zero", w.is_zero() == (v == S::zero()));
    }
}
fn euler_from<S: Scal>() {
    let q = unitq_raw::<S>("q");
    let m20 = two::<S>() * (q[1] * q[3] + q[0] * q[2]);
    S::assume(m20 < S::one() && m20 > -S::one());
    let e: Euler<Radians<S>> = Euler::from(q);
    meq("Euler of a quaternion gives the same rotation", &e.to_matrix(), &q.to_matrix());
    let f: Euler<Radians<S>> = Euler::from(&q);
    S::h_eq("by reference x", f.x.0, e.x.0);
    S::h_eq("by reference y", f.y.0, e.y.0);
    S::h_eq("by reference z", f.z.0, e.z.0);
}
/// The gimbal-locked rotations: sin(yaw) = g = +-1.
fn euler_gimbal<S: Scal>() {
    let x = S::var("x");
    euler_gimbal_at(x)
}
fn euler_gimbal_half<S: Scal>() {
    euler_gimbal_at::<S>(S::var_sq("x", S::rat(1, 4)))
}
fn euler_gimbal_at<S: Scal>(x: S) {
    let g = S::var_sq("g", S::one());
    let y = S::var_sq("y", S::rat(1, 2) - x * x);
    let q = Quaternion::new(y * g, x, y, x * g);
    S::h_eq("unit", qdot(&q, &q), S::one());
    // cos(asin(1)) is not zero in floating point, so no exact test may decide what happens here
    S::loose(true);
    let e: Euler<Radians<S>> = Euler::from(q);
    S::loose(false);
    meq("Euler of a gimbal-locked quaternion gives the same rotation", &e.to_matrix(), &q.to_matrix());
}
/// Every unit quaternion with sin(yaw) = +-1 has the shape used in `euler_gimbal`.
fn euler_gimbal_shape<S: Scal>() {
    let q = quat::<S>("q");
    let g = S::one();
    for g in [g, -g] {
        // |q|^2 - g m20 = (w - g y)^2 + (z - g x)^2
        let (a, b) = (q[0] - g * q[2], q[3] - g * q[1]);
        S::h_eq("lemma", qdot(&q, &q) - g * two::<S>() * (q[1] * q[3] + q[0] * q[2]), a * a + b * b);
    }
}

// ------------------------------------------------------------------------- C12
/// The components of f(q) for the extension of a complex function: scalar part and coefficient of v/|v|.
fn big_vec<S: Scal>(q: &Quaternion<S>) -> S {
    // vector part away from the thresholds of the implementation
    let v2 = vdot(q);
    S::assume(v2 > tiny());
    v2.sqrt()
}
fn exp_ln<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let e = q.exp();
    let es = q[0].exp();
    S::h_eq("exp scalar part", e[0], es * n.cos());
    for i in 1..4 {
        S::h_eq("exp vector part", e[i] * n, es * n.sin() * q[i]);
    }
    S::h_eq("|exp q| = e^s", qdot(&e, &e), es * es);
}
fn exp_real<S: Scal>() {
    let s = S::var("s");
    qeq("exp of a real", &Quaternion::from_real(s).exp(), &Quaternion::from_real(s.exp()));
    let p = S::var("p");
    S::assume(p > tiny());
    qeq("ln of a positive real", &Quaternion::from_real(p).ln(), &Quaternion::from_real(p.ln()));
    // on the negative real axis the direction of the imaginary part is undefined; the real part is not
    S::h_eq("Re ln of a negative real = ln of its norm", Quaternion::from_real(-p).ln().scalar(), p.ln());
    qeq("sqrt of a positive real squares back", &Quaternion::from_real(p).sqrt().squared(), &Quaternion::from_real(p));
    qeq("sqrt of a negative real squares back", &Quaternion::from_real(-p).sqrt().squared(), &Quaternion::from_real(-p));
    qeq("sqrt 0", &Quaternion::<S>::zero().sqrt(), &Quaternion::zero());
}
fn ln<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let l = q.ln();
    let r = qdot(&q, &q).sqrt();
    S::h_eq("ln scalar part is ln |q|", l[0].exp(), r);
    // the vector part is a multiple of v with angle in [0, pi] whose cosine is s/|q|
    let a = (l[1] * q[1] + l[2] * q[2] + l[3] * q[3]) / n;
    for i in 1..4 {
        S::h_eq("ln vector part is parallel", l[i] * n, a * q[i]);
    }
    S::h_eq("ln angle cosine", a.cos() * r, q[0]);
    S::h_eq("ln angle sine", a.sin() * r, n);
    S::h_le("ln angle >= 0", S::zero(), a);
    S::h_le("ln angle <= pi", a, S::pi());
}
fn exp_of_ln<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let l = q.ln();
    let v2 = vdot(&l);
    S::assume(v2 > tiny());
    qeq("exp(ln q) = q", &l.exp(), &q);
}
fn sqrt<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let r = q.sqrt();
    qeq("sqrt squares back", &ham(&r, &r), &q);
    S::h_le("principal root", S::zero(), r[0]);
}
fn powf<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let l = q.ln();
    S::assume(vdot(&l) > tiny());
    let two = two::<S>();
    qeq("q^1 = q", &q.powf(S::one()), &q);
    qeq("q^2 = q q", &q.powf(two), &ham(&q, &q));
    qeq("q^3 = q q q", &q.powf(two + S::one()), &ham(&ham(&q, &q), &q));
    qeq("q^-1", &ham(&q.powf(-S::one()), &q), &Quaternion::identity());
    qeq("q^0", &q.powf(S::zero()), &Quaternion::identity());
}
/// q^k for any real k: |q|^k turned by k times the angle, about the axis of q.
fn powf_general<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let k = S::var("k");
    let r = qdot(&q, &q).sqrt();
    let th = S::acos(q[0] / r);
    S::assume(th * th * k * k > tiny());
    let e = (r.ln() * k).exp();
    let p = q.powf(k);
    S::h_eq("scalar part of q^k", p[0], e * (th * k).cos());
    for i in 1..4 {
        S::h_eq("vector part of q^k", p[i] * n, q[i] * e * (th * k).sin());
    }
}
fn powf_negative<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let l = q.ln();
    S::assume(vdot(&l) > tiny());
    qeq("q^-2", &ham(&q.powf(-two::<S>()), &ham(&q, &q)), &Quaternion::identity());
}
fn arg<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    S::assume(q[0] * q[0] > tiny() || q[0] == S::zero());
    let a = q.arg();
    let r = qdot(&q, &q).sqrt();
    S::h_eq("cos(arg) |q| = s", a.cos() * r, q[0]);
    S::h_eq("sin(arg) |q| = |v|", a.sin() * r, n);
    S::h_le("arg >= 0", S::zero(), a);
    S::h_le("arg <= pi", a, S::pi());
}
fn polar<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let (r, a, axis) = q.polar_decomposition();
    S::h_le("scale >= 0", S::zero(), r);
    S::h_eq("scale = |q|", r * r, qdot(&q, &q));
    S::h_true("axis exists", axis.is_some());
    let u = axis.unwrap().into_inner();
    for i in 0..3 {
        S::h_eq("axis = v/|v|", u[i] * n, q[i + 1]);
    }
    S::h_eq("cos", r * a.0.cos(), q[0]);
    S::h_eq("sin", r * a.0.sin(), n);
    S::h_le("angle >= 0", S::zero(), a.0);
    S::h_le("angle <= pi", a.0, S::pi());
    qeq("recomposed", &Quaternion::from_polar_decomposition(r, a * two::<S>(), &axis.unwrap()), &q);
}
fn from_polar<S: Scal>() {
    let n = unit3::<S>("n");
    let r = S::var("r");
    let t = ang::<S>("t");
    let q = Quaternion::from_polar_decomposition(r, t, &n);
    qeq("from_polar is a scaled axis-angle rotation", &q, &(Quaternion::from_axis_angle(&n, t) * r));
}
fn polar_special<S: Scal>() {
    let p = S::var("p");
    S::assume(p > S::zero());
    let (r, a, axis) = Quaternion::from_real(p).polar_decomposition();
    S::h_eq("scale", r, p);
    S::h_eq("angle", a.0, S::zero());
    S::h_true("no axis", axis.is_none());
    let (r, a, axis) = Quaternion::<S>::zero().polar_decomposition();
    S::h_eq("scale of zero", r, S::zero());
    S::h_eq("angle of zero", a.0, S::zero());
    S::h_true("no axis of zero", axis.is_none());
}
fn trig<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let s = q[0];
    for (nm, f, re, im) in [
        ("cos", q.cos(), s.cos() * n.cosh(), -s.sin() * n.sinh()),
        ("sin", q.sin(), s.sin() * n.cosh(), s.cos() * n.sinh()),
        ("cosh", q.cosh(), s.cosh() * n.cos(), s.sinh() * n.sin()),
        ("sinh", q.sinh(), s.sinh() * n.cos(), s.cosh() * n.sin()),
    ] {
        S::h_eq(&format!("{nm} scalar"), f[0], re);
        for i in 1..4 {
            S::h_eq(&format!("{nm} vector"), f[i] * n, im * q[i]);
        }
    }
    qeq("sin^2 + cos^2 = 1", &(q.sin().squared() + q.cos().squared()), &Quaternion::identity());
    qeq("cosh^2 - sinh^2 = 1", &(q.cosh().squared() - q.sinh().squared()), &Quaternion::identity());
}
fn tans<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let (t, s, c) = (q.tan(), q.sin(), q.cos());
    S::assume(qdot(&c, &c) > S::zero());
    qeq("tan cos = sin", &ham(&t, &c), &s);
    let (t, s, c) = (q.tanh(), q.sinh(), q.cosh());
    S::assume(qdot(&c, &c) > S::zero());
    qeq("tanh cosh = sinh", &ham(&t, &c), &s);
}
fn trig_real<S: Scal>() {
    let s = S::var("s");
    let q = Quaternion::from_real(s);
    qeq("cos of a real", &q.cos(), &Quaternion::from_real(s.cos()));
    qeq("sin of a real", &q.sin(), &Quaternion::from_real(s.sin()));
    qeq("cosh of a real", &q.cosh(), &Quaternion::from_real(s.cosh()));
    qeq("sinh of a real", &q.sinh(), &Quaternion::from_real(s.sinh()));
    qeq("tanh of a real", &q.tanh(), &Quaternion::from_real(s.tanh()));
    S::assume(s.cos() != S::zero());
    qeq("tan of a real", &q.tan(), &Quaternion::from_real(s.tan()));
}

/// The inverse functions at real quaternions, where the vector part has no direction.
fn inverse_circular_real<S: Scal>() {
    let s = S::var("s");
    S::assume(s * s < S::rat(99, 100) && s * s > S::rat(1, 10_000));
    let q = Quaternion::from_real(s);
    let (w, a) = (q.asin(), q.acos());
    S::h_eq("sin(asin) of a real", w[0].sin(), s);
    S::h_le("principal value of asin of a real", S::zero(), w[0].cos());
    S::h_le("asin of a real <= pi", w[0], S::pi());
    S::h_le("asin of a real >= -pi", -S::pi(), w[0]);
    S::h_eq("acos of a real", a[0], s.acos());
    for i in 1..4 {
        S::h_eq("asin of a real is real", w[i], S::zero());
        S::h_eq("acos of a real is real", a[i], S::zero());
    }
}
fn inverse_atan_real<S: Scal>() {
    let s = S::var("s");
    // beyond that the argument of the logarithm is too close to the negative real axis to tell
    S::assume(s * s > S::rat(1, 10_000) && s * s < S::rat(1_000_000, 1));
    let w = Quaternion::from_real(s).atan();
    // tan(w) = s with w in the principal strip
    S::h_eq("tan(atan) of a real", w[0].cos() * s, w[0].sin());
    S::h_lt("principal value of atan of a real", S::zero(), w[0].cos());
    for i in 1..4 {
        S::h_eq("atan of a real is real", w[i], S::zero());
    }
}
fn inverse_real_zero<S: Scal>() {
    let z = Quaternion::<S>::zero();
    qeq("asin 0", &z.asin(), &z);
    qeq("atan 0", &z.atan(), &z);
    qeq("acos 0", &z.acos(), &Quaternion::from_real(S::frac_pi_2()));
    qeq("asinh 0", &z.asinh(), &z);
    qeq("atanh 0", &z.atanh(), &z);
    qeq("acosh 1", &Quaternion::<S>::identity().acosh(), &z);
}
fn inverse_hyperbolic_real<S: Scal>() {
    let s = S::var("s");
    let r = (s * s + S::one()).sqrt();
    S::assume(s + r > tiny());
    qeq("asinh of a real", &Quaternion::from_real(s).asinh(), &Quaternion::from_real((s + r).ln()));
    let p = S::var("p");
    S::assume(p > S::rat(101, 100));
    let e = p + (p + S::one()).sqrt() * (p - S::one()).sqrt();
    qeq("acosh of a real", &Quaternion::from_real(p).acosh(), &Quaternion::from_real(e.ln()));
    let x = S::var("x");
    S::assume(x * x < S::rat(99, 100));
    let w = Quaternion::from_real(x).atanh();
    S::h_eq("atanh of a real", w[0] + w[0], (S::one() + x).ln() - (S::one() - x).ln());
    for i in 1..4 {
        S::h_eq("atanh of a real is real", w[i], S::zero());
    }
}
fn powf_real<S: Scal>() {
    let p = S::var("p");
    let k = S::var("k");
    S::assume(p > tiny());
    qeq("power of a positive real", &Quaternion::from_real(p).powf(k), &Quaternion::from_real((p.ln() * k).exp()));
}

// ------------------------------------------------------------------------- C13
/// Keeps the vector part above the thresholds; the bound on the scalar part is a fact about norms.
fn tame<S: Scal>(q: &Quaternion<S>) {
    let _ = big_vec(q);
    let n = q.norm();
    S::assume(n > S::zero());
    S::assume(q[0] / n <= S::one() && q[0] / n >= -S::one());
}
/// Inverse functions through the logarithm and the square root (decided by their own harnesses), with the
/// axis of the vector part in the role of the imaginary unit.
fn inverse_h<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let one = Quaternion::identity();
    let s = (ham(&q, &q) + one).sqrt();
    tame(&(q + s));
    qeq("asinh q = ln(q + sqrt(q^2 + 1))", &q.asinh(), &(q + s).ln());
}
fn inverse_acosh<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let one = Quaternion::identity();
    let (a, b) = ((q + one).sqrt(), (q - one).sqrt());
    tame(&(q + a * b));
    qeq("acosh q = ln(q + sqrt(q + 1) sqrt(q - 1))", &q.acosh(), &(q + a * b).ln());
}
fn inverse_atanh<S: Scal>() {
    let q = quat::<S>("q");
    let _ = big_vec(&q);
    let one = Quaternion::identity();
    let (a, b) = ((one + q).ln(), (one - q).ln());
    let w = q.atanh();
    qeq("2 atanh q = ln(1 + q) - ln(1 - q)", &(w + w), &(a - b));
}
fn inverse_t<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let one = Quaternion::identity();
    let u = Quaternion::new(S::zero(), q[1] / n, q[2] / n, q[3] / n);
    let s = (ham(&q, &q) - one).sqrt();
    tame(&(q + s));
    qeq("u acos q = ln(q + sqrt(q^2 - 1))", &ham(&u, &q.acos()), &(q + s).ln());
}
fn inverse_asin<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let one = Quaternion::identity();
    let u = Quaternion::new(S::zero(), q[1] / n, q[2] / n, q[3] / n);
    let s = (one - ham(&q, &q)).sqrt();
    tame(&(ham(&u, &q) + s));
    qeq("u asin q = ln(u q + sqrt(1 - q^2))", &ham(&u, &q.asin()), &(ham(&u, &q) + s).ln());
}
fn inverse_atan<S: Scal>() {
    let q = quat::<S>("q");
    let n = big_vec(&q);
    let u = Quaternion::new(S::zero(), q[1] / n, q[2] / n, q[3] / n);
    // away from the poles +u and -u
    S::assume(q[0] * q[0] > tiny());
    let w = q.atan();
    let r = (u - q).try_inverse().unwrap();
    qeq("-2u atan q = ln((u + q)/(u - q))", &-ham(&u, &(w + w)), &ham(&(u + q), &r).ln());
}
/// The algebra behind the identities sinh(asinh q) = q, cosh(acosh q) = q and their circular forms: for
/// any root s of q^2 + 1 (of q^2 - 1) in the plane of q, the argument of the logarithm and its inverse
/// differ by (add up to) 2q.
fn inverse_algebra<S: Scal>() {
    let (x, y, a, b) = (S::var("x"), S::var("y"), S::var("a"), S::var("b"));
    let q = Quaternion::new(x, y, S::zero(), S::zero());
    let s = Quaternion::new(a, b, S::zero(), S::zero());
    let one = Quaternion::<S>::identity();
    let d = ham(&s, &s) - ham(&q, &q);
    S::assume_eq(d[1], S::zero());
    S::assume_eq(d[0], S::one());
    qeq("(q + s)^-1 = s - q", &ham(&(q + s), &(s - q)), &one);
}
fn nlerp<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let b = unitq_raw::<S>("b");
    let t = S::var("t");
    let l = Quaternion::new(
        a[0] * (S::one() - t) + b[0] * t,
        a[1] * (S::one() - t) + b[1] * t,
        a[2] * (S::one() - t) + b[2] * t,
        a[3] * (S::one() - t) + b[3] * t,
    );
    S::assume(qdot(&l, &l) > S::zero());
    let n = a.nlerp(&b, t);
    S::h_eq("nlerp is a unit quaternion", qdot(&n, &n), S::one());
    for i in 0..4 {
        for j in (i + 1)..4 {
            S::h_eq("nlerp is parallel to lerp", n[i] * l[j], n[j] * l[i]);
        }
    }
    S::h_lt("nlerp has the direction of lerp", S::zero(), qdot(&n, &l));
    qeq("nlerp at 0", &a.nlerp(&b, S::zero()), &a);
    qeq("nlerp at 1", &a.nlerp(&b, S::one()), &b);
}
fn vector_lerp<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let b = vec::<S, N>("b");
    let t = S::var("t");
    veq("lerp at 0", &a.lerp(&b, S::zero()), &a);
    veq("lerp at 1", &a.lerp(&b, S::one()), &b);
    veq("lerp is affine", &a.lerp(&b, t), &(a * (S::one() - t) + b * t));
}
/// slerp of unit quaternions: constant-speed great-circle interpolation along the short way.
fn slerp<S: Scal>() {
    // the weights only depend on the dot product: lengths are left arbitrary
    let a = quat::<S>("a");
    let b = quat::<S>("b");
    let t = S::var("t");
    let d = qdot(&a, &b);
    // away from the nearly-parallel fallback (sine below 1e-3) and its mirror image
    S::assume(S::one() - d * d > S::rat(1, 1_000_000));
    let (a2, d2) = if d < S::zero() { (-a, -d) } else { (a, d) };
    let th = Radians::acos(d2).0;
    let sn = th.sin();
    let r = a.slerp(&b, t);
    let (wa, wb) = (((S::one() - t) * th).sin(), (t * th).sin());
    for i in 0..4 {
        S::h_eq("slerp weights", r[i] * sn, a2[i] * wa + b[i] * wb);
    }
}
/// With those weights the result of two unit quaternions is a unit quaternion.
fn slerp_unit<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let b = unitq_raw::<S>("b");
    let t = S::var("t");
    let d = qdot(&a, &b);
    S::assume(S::one() - d * d > S::rat(1, 1_000_000));
    let r = a.slerp(&b, t);
    S::h_eq("slerp is a unit quaternion", qdot(&r, &r), S::one());
}
fn slerp_ends<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let b = unitq_raw::<S>("b");
    let d = qdot(&a, &b);
    S::assume(S::one() - d * d > S::rat(1, 1_000_000));
    let s0 = a.slerp(&b, S::zero());
    let s1 = a.slerp(&b, S::one());
    let sg = if d < S::zero() { -S::one() } else { S::one() };
    qeq("slerp at 0 is the start up to sign", &s0, &(a * sg));
    qeq("slerp at 1 is the end", &s1, &b);
}
fn slerp_half<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let b = unitq_raw::<S>("b");
    let d = qdot(&a, &b);
    S::assume(S::one() - d * d > S::rat(1, 1_000_000));
    let sg = if d < S::zero() { -S::one() } else { S::one() };
    // halfway: equidistant
    let h = a.slerp(&b, S::rat(1, 2));
    S::h_eq("halfway is equidistant", qdot(&h, &a) * sg, qdot(&h, &b));
}
/// Within the nearly-parallel fallback the result still is a unit quaternion in the plane of the operands.
fn slerp_near<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let b = unitq_raw::<S>("b");
    let t = S::var("t");
    let d = qdot(&a, &b);
    S::assume(S::one() - d * d < S::rat(1, 5_000_000) && d * d < S::one());
    let sg = if d < S::zero() { -S::one() } else { S::one() };
    let w = S::one() - t;
    S::assume(w * w + t * t + two::<S>() * w * t * d * sg > S::zero());
    let r = a.slerp(&b, t);
    S::h_eq("slerp of near operands is a unit quaternion", qdot(&r, &r), S::one());
    qeq("slerp of near operands at 0 is the start up to sign", &a.slerp(&b, S::zero()), &(a * sg));
    qeq("slerp of near operands at 1 is the end", &a.slerp(&b, S::one()), &b);
}
/// The same from the identity to a slight turn, short of and past the end of the arc too.
fn slerp_slight<S: Scal>() {
    let u = S::var("u");
    let t = S::var("t");
    S::assume(u > S::zero() && u < S::rat(1, 5_000));
    let k = S::one() + u * u;
    let a = Quaternion::new(S::one(), S::zero(), S::zero(), S::zero());
    let b = Quaternion::new((S::one() - u * u) / k, S::zero(), two::<S>() * u / k, S::zero());
    let r = a.slerp(&b, t);
    S::h_eq("a slight turn stays unit", qdot(&r, &r), S::one());
    if u > S::rat(1, 10_000) {
        // far beyond the end of the arc a departure from the sphere is plain
        let f = a.slerp(&b, S::rat(1_000, 1));
        S::h_eq("far along a slight turn stays unit", qdot(&f, &f), S::one());
    }
    S::h_eq("a slight turn keeps its axis (x)", r[1], S::zero());
    S::h_eq("a slight turn keeps its axis (z)", r[3], S::zero());
    S::assume(t >= S::zero() && t <= S::one());
    S::h_le("not before the start", S::zero(), r[2]);
    S::h_le("not past the end", r[2], b[2]);
}
fn slerp_opposite<S: Scal>() {
    let a = unitq_raw::<S>("a");
    qeq("slerp from a quaternion to its negative at 1 is the end", &a.slerp(&-a, S::one()), &-a);
}
fn slerp_same<S: Scal>() {
    let a = unitq_raw::<S>("a");
    let t = S::var("t");
    let r = a.slerp(&a, t);
    for i in 0..4 {
        for j in (i + 1)..4 {
            S::h_eq("slerp of a quaternion with itself", r[i] * a[j], r[j] * a[i]);
        }
    }
    S::h_eq("unit", qdot(&r, &r), S::one());
}

pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C10", "quaternion_algebra", algebra; "Quaternion: Add, Sub, Mul, Div, Neg (all reference and assign forms), conjugate(_mut), squared, half, inner, outer, dot, norms, project, reject, from_parts/from_real/from_pure/from_fill, map, lerp, unit_*");
    h!(v, "C10", "quaternion_rem", qrem; "Quaternion: Rem (all reference and assign forms)");
    h!(v, "C10", "quaternion_predicates", preds; "Quaternion: is_zero, is_pure, is_real, is_identity, PartialEq, is_finite");
    h!(v, "C10", "quaternion_l1", l1; "Quaternion::l1_norm");
    h!(v, "C10", "quaternion_inverse", inverse; "Quaternion: try_inverse, inverse, is_invertible, div_left, div_right");
    h!(v, "C10", "quaternion_normalize", normalize; "Quaternion: normalize(_mut), try_normalize(_mut), Unit::from_value, Neg for Unit");
    h!(v, "C11", "axis_angle", axis_angle; "Matrix3x3::from_axis_angle, Matrix4x4::from_affine_axis_angle, Quaternion::from_axis_angle, to_matrix, Degrees::from(Radians)");
    h!(v, "C11", "axis_angle_additive", axis_angle_add; "Quaternion::from_axis_angle, Matrix3x3::from_axis_angle");
    h!(v, "C11", "coordinate_axes", axes; "Matrix2x2::from_angle, Matrix3x3::from_angle_{x,y,z}, from_affine_angle, Matrix4x4::from_affine_angle_{x,y,z}");
    h!(v, "C11", "quaternion_to_matrix", to_matrix; "Quaternion: to_matrix(_mut), to_affine_matrix(_mut); Matrix3x3/Matrix4x4::from(Quaternion)");
    h!(v, "C11", "quaternion_to_matrix_homomorphism", to_matrix_mul; "Quaternion: Mul, conjugate, Neg, to_matrix");
    h!(v, "C11", "quaternion_from_matrix", from_matrix; "Quaternion::from_matrix, From<Matrix3x3>");
    h!(v, "C11", "euler_to_matrix", euler_to; "Euler: to_matrix, to_affine_matrix, From<Euler> for Matrix3x3/Matrix4x4, zero, is_zero");
    h!(v, "C11", "euler_from_quaternion", euler_from; "Euler::from(Quaternion)");
    h!(v, "C11", "euler_gimbal_shape", euler_gimbal_shape; "(lemma for euler_gimbal)");
    h!(v, "C11", "euler_gimbal", euler_gimbal; "Euler::from(&Quaternion)");
    h!(v, "C11", "euler_gimbal_half", euler_gimbal_half; "Euler::from(&Quaternion)");
    h!(v, "C12", "exp", exp_ln; "Quaternion::exp");
    h!(v, "C12", "exp_ln_sqrt_real", exp_real; "Quaternion: exp, ln, sqrt of real quaternions");
    h!(v, "C12", "ln", ln; "Quaternion::ln");
    h!(v, "C12", "exp_of_ln", exp_of_ln; "Quaternion: exp, ln");
    h!(v, "C12", "sqrt", sqrt; "Quaternion::sqrt");
    h!(v, "C12", "powf", powf; "Quaternion::powf");
    h!(v, "C12", "powf_negative", powf_negative; "Quaternion::powf");
    h!(v, "C12", "powf_general", powf_general; "Quaternion::powf");
    h!(v, "C12", "arg", arg; "Quaternion::arg");
    h!(v, "C12", "polar", polar; "Quaternion: polar_decomposition, from_polar_decomposition");
    h!(v, "C12", "from_polar", from_polar; "Quaternion: from_polar_decomposition, from_axis_angle");
    h!(v, "C12", "polar_special", polar_special; "Quaternion: polar_decomposition of real and zero quaternions");
    h!(v, "C12", "trig", trig; "Quaternion: cos, sin, cosh, sinh");
    h!(v, "C12", "tan", tans; "Quaternion: tan, tanh");
    h!(v, "C12", "inverse_sinh", inverse_h; "Quaternion::asinh");
    h!(v, "C12", "inverse_cosh", inverse_acosh; "Quaternion::acosh");
    h!(v, "C12", "inverse_tanh", inverse_atanh; "Quaternion::atanh");
    h!(v, "C12", "inverse_cos", inverse_t; "Quaternion::acos");
    h!(v, "C12", "inverse_sin", inverse_asin; "Quaternion::asin");
    h!(v, "C12", "inverse_atan", inverse_atan; "Quaternion::atan");
    h!(v, "C12", "inverse_algebra", inverse_algebra; "Quaternion: Mul, Add, Sub");
    h!(v, "C12", "inverse_circular_real", inverse_circular_real; "Quaternion: asin, acos of real quaternions");
    h!(v, "C12", "inverse_atan_real", inverse_atan_real; "Quaternion::atan of real quaternions");
    h!(v, "C12", "inverse_real_zero", inverse_real_zero; "Quaternion: inverse functions at 0 and 1");
    h!(v, "C12", "inverse_hyperbolic_real", inverse_hyperbolic_real; "Quaternion: asinh, acosh, atanh of real quaternions");
    h!(v, "C12", "powf_real", powf_real; "Quaternion::powf of real quaternions");
    h!(v, "C12", "trig_real", trig_real; "Quaternion: cos, sin, cosh, sinh, tan, tanh of real quaternions");
    h!(v, "C13", "quaternion_nlerp", nlerp; "Quaternion::nlerp");
    h!(v, "C13", "vector_lerp_2", vector_lerp, 2; "Vector::lerp");
    h!(v, "C13", "vector_lerp_3", vector_lerp, 3; "Vector::lerp");
    h!(v, "C13", "vector_lerp_4", vector_lerp, 4; "Vector::lerp");
    h!(v, "C13", "slerp", slerp; "Quaternion::slerp");
    h!(v, "C13", "slerp_unit", slerp_unit; "Quaternion::slerp");
    h!(v, "C13", "slerp_half", slerp_half; "Quaternion::slerp");
    h!(v, "C13", "slerp_ends", slerp_ends; "Quaternion::slerp");
    h!(v, "C13", "slerp_near", slerp_near; "Quaternion: slerp, nlerp");
    h!(v, "C13", "slerp_slight", slerp_slight; "Quaternion: slerp, nlerp");
    h!(v, "C13", "slerp_opposite", slerp_opposite; "Quaternion::slerp");
    h!(v, "C13", "slerp_same", slerp_same; "Quaternion::slerp");
}
