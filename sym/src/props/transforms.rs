//! C19 what each transformation type does to points and vectors, C20 inverses and composition, C21 products of different types.
use super::*;
use crate::h;
use cglinalg_transform::*;

/// homogeneous matrix with linear part l and translation column t
fn hom<S: Scal, const N: usize, const M: usize>(l: &Matrix<S, N, N>, t: &Vector<S, N>) -> Matrix<S, M, M> {
    let mut o = Matrix::zero();
    for c in 0..N {
        for r in 0..N {
            o[c][r] = l[c][r];
        }
        o[N][c] = t[c];
    }
    o[N][N] = S::one();
    o
}
fn diag<S: Scal, const N: usize>(v: &Vector<S, N>) -> Matrix<S, N, N> {
    let mut o = Matrix::zero();
    for c in 0..N {
        o[c][c] = v[c];
    }
    o
}
fn eye<S: Scal, const N: usize>() -> Matrix<S, N, N> {
    diag(&Vector::from_fill(S::one()))
}
fn act_p<S: Scal, const N: usize, const M: usize>(m: &Matrix<S, M, M>, p: &Point<S, N>) -> Point<S, N> {
    let mut o = *p;
    for r in 0..N {
        let mut s = m[N][r];
        for c in 0..N {
            s = s + m[c][r] * p[c];
        }
        o[r] = s;
    }
    o
}
fn act_v<S: Scal, const N: usize, const M: usize>(m: &Matrix<S, M, M>, p: &Vector<S, N>) -> Vector<S, N> {
    let mut o = *p;
    for r in 0..N {
        let mut s = S::zero();
        for c in 0..N {
            s = s + m[c][r] * p[c];
        }
        o[r] = s;
    }
    o
}
fn tp<S: Scal, const N: usize>(m: &Matrix<S, N, N>) -> Matrix<S, N, N> {
    let mut o = Matrix::zero();
    for c in 0..N {
        for r in 0..N {
            o[c][r] = m[r][c];
        }
    }
    o
}
fn outer<S: Scal, const N: usize>(a: &Vector<S, N>, b: &Vector<S, N>) -> Matrix<S, N, N> {
    let mut o = Matrix::zero();
    for c in 0..N {
        for r in 0..N {
            o[c][r] = a[r] * b[c];
        }
    }
    o
}
fn p2v<S: Scal, const N: usize>(p: &Point<S, N>) -> Vector<S, N> {
    let mut o = Vector::from_fill(S::zero());
    for c in 0..N {
        o[c] = p[c];
    }
    o
}

/// The transformation `$t` acts on points and vectors as the homogeneous matrix `$m`, in every form, and exports that matrix.
macro_rules! acts {
    ($name:expr, $n:literal, $t:expr, $m:expr) => {{
        let t = $t;
        let m = $m;
        let p = pnt::<S, $n>("p");
        let v = vec::<S, $n>("v");
        let wp = act_p(&m, &p);
        let wv = act_v(&m, &v);
        peq(&format!("{}: apply_point", $name), &t.apply_point(&p), &wp);
        forms!(peq, format!("{}: point", $name), t, *, p, wp);
        veq(&format!("{}: apply_vector", $name), &t.apply_vector(&v), &wv);
        forms!(veq, format!("{}: vector", $name), t, *, v, wv);
        exports!($name, t, m);
    }};
}
macro_rules! exports {
    ($name:expr, $t:expr, $m:expr) => {{
        let t = $t;
        let m = $m;
        meq(&format!("{}: to_affine_matrix", $name), &t.to_affine_matrix(), &m);
        meq(&format!("{}: From", $name), &Matrix::from(t), &m);
        meq(&format!("{}: From ref", $name), &Matrix::from(&t), &m);
        meq(&format!("{}: to_transform", $name), t.to_transform().matrix(), &m);
    }};
}
/// inverse(), inverse_apply_*: undo the transformation from both sides
macro_rules! undoes {
    ($name:expr, $n:literal, $t:expr) => {{
        let t = $t;
        let i = t.inverse();
        let p = pnt::<S, $n>("p");
        let v = vec::<S, $n>("v");
        peq(&format!("{}: inverse after (point)", $name), &i.apply_point(&t.apply_point(&p)), &p);
        peq(&format!("{}: inverse before (point)", $name), &t.apply_point(&i.apply_point(&p)), &p);
        veq(&format!("{}: inverse after (vector)", $name), &i.apply_vector(&t.apply_vector(&v)), &v);
        veq(&format!("{}: inverse before (vector)", $name), &t.apply_vector(&i.apply_vector(&v)), &v);
        peq(&format!("{}: inverse_apply_point", $name), &t.inverse_apply_point(&t.apply_point(&p)), &p);
        peq(&format!("{}: inverse_apply_point before", $name), &t.apply_point(&t.inverse_apply_point(&p)), &p);
        veq(&format!("{}: inverse_apply_vector", $name), &t.inverse_apply_vector(&t.apply_vector(&v)), &v);
        veq(&format!("{}: inverse_apply_vector before", $name), &t.apply_vector(&t.inverse_apply_vector(&v)), &v);
    }};
}
/// `a * b` in every form is "b, then a"
macro_rules! composes {
    ($name:expr, $n:literal, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let p = pnt::<S, $n>("p");
        let v = vec::<S, $n>("v");
        let wp = a.apply_point(&b.apply_point(&p));
        let wv = a.apply_vector(&b.apply_vector(&v));
        for (f, c) in [("value value", a * b), ("value ref", a * &b), ("ref value", &a * b), ("ref ref", &a * &b)] {
            peq(&format!("{}: point ({f})", $name), &c.apply_point(&p), &wp);
            veq(&format!("{}: vector ({f})", $name), &c.apply_vector(&v), &wv);
        }
    }};
}
/// inverse_mut agrees with inverse
macro_rules! inv_mut {
    ($name:expr, $t:expr) => {{
        let t = $t;
        let mut u = t;
        u.inverse_mut();
        meq(&format!("{}: inverse_mut", $name), &u.to_affine_matrix(), &t.inverse().to_affine_matrix());
    }};
}

/// an arbitrary rotation, with its matrix computed independently
fn rot2<S: Scal>(n: &str) -> (Rotation2<S>, Matrix2x2<S>) {
    let a = ang::<S>(n);
    let (s, c) = (a.0.sin(), a.0.cos());
    (Rotation2::from_angle(a), Matrix2x2::new(c, s, -s, c))
}
fn qm<S: Scal>(q: &Quaternion<S>) -> Matrix3x3<S> {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let o = S::one();
    let t = two::<S>();
    Matrix3x3::new(
        o - t * (y * y + z * z),
        t * (x * y + w * z),
        t * (x * z - w * y),
        t * (x * y - w * z),
        o - t * (x * x + z * z),
        t * (y * z + w * x),
        t * (x * z + w * y),
        t * (y * z - w * x),
        o - t * (x * x + y * y),
    )
}
fn rot3<S: Scal>(n: &str) -> (Rotation3<S>, Matrix3x3<S>) {
    let q = unitq_raw::<S>(n);
    (Rotation3::from_quaternion(&q), qm(&q))
}
fn nz<S: Scal>(n: &str) -> S {
    let k = S::var(n);
    S::assume(k != S::zero());
    k
}
fn sim2<S: Scal>(n: &str) -> Similarity2<S> {
    let (r, _) = rot2::<S>(&format!("{n}a"));
    Similarity2::from_parts(&Translation2::from_vector(&vec::<S, 2>(&format!("{n}t"))), &r, nz(&format!("{n}s")))
}
fn sim3<S: Scal>(n: &str) -> Similarity3<S> {
    let (r, _) = rot3::<S>(&format!("{n}q"));
    Similarity3::from_parts(&Translation3::from_vector(&vec::<S, 3>(&format!("{n}t"))), &r, nz(&format!("{n}s")))
}
fn iso2<S: Scal>(n: &str) -> Isometry2<S> {
    let (r, _) = rot2::<S>(&format!("{n}a"));
    Isometry2::from_parts(&Translation2::from_vector(&vec::<S, 2>(&format!("{n}t"))), &r)
}
fn iso3<S: Scal>(n: &str) -> Isometry3<S> {
    let (r, _) = rot3::<S>(&format!("{n}q"));
    Isometry3::from_parts(&Translation3::from_vector(&vec::<S, 3>(&format!("{n}t"))), &r)
}

macro_rules! simple_kinds {
    ($tr:ident, $sc:ident, $tri:ident, $sci:ident, $n:literal, $m:literal) => {
        fn $tr<S: Scal>() {
            let d = vec::<S, $n>("t");
            let l = eye::<S, $n>();
            let t = Translation::from_vector(&d);
            acts!("translation", $n, t, hom::<S, $n, $m>(&l, &d));
            veq("vector()", t.vector(), &d);
            veq("to_vector", &t.to_vector(), &d);
            veq("as_ref", t.as_ref(), &d);
            exports!("identity", Translation::<S, $n>::identity(), hom::<S, $n, $m>(&l, &Vector::from_fill(S::zero())));
            let (a, b) = (pnt::<S, $n>("a"), pnt::<S, $n>("b"));
            peq("between_points", &Translation::between_points(&a, &b).apply_point(&a), &b);
            let (va, vb) = (p2v(&a), p2v(&b));
            veq("between_vectors", &(va + Translation::between_vectors(&va, &vb).to_vector()), &vb);
        }
        fn $sc<S: Scal>() {
            let d = vec::<S, $n>("t");
            let z = Vector::from_fill(S::zero());
            let t = Scale::from_nonuniform_scale(&d);
            acts!("scale", $n, t, hom::<S, $n, $m>(&diag(&d), &z));
            veq("to_vector", &t.to_vector(), &d);
            meq("to_matrix", &t.to_matrix(), &diag(&d));
            let k = S::var("k");
            exports!("uniform", Scale::<S, $n>::from_scale(k), hom::<S, $n, $m>(&diag(&Vector::from_fill(k)), &z));
            exports!("identity", Scale::<S, $n>::identity(), hom::<S, $n, $m>(&eye(), &z));
        }
        fn $tri<S: Scal>() {
            let t = Translation::from_vector(&vec::<S, $n>("t"));
            undoes!("translation", $n, t);
            inv_mut!("translation", t);
            composes!("translation", $n, t, Translation::from_vector(&vec::<S, $n>("u")));
        }
        fn $sci<S: Scal>() {
            let mut s = vec::<S, $n>("s");
            for i in 0..$n {
                s[i] = nz(&format!("s{i}"));
            }
            let t = Scale::from_nonuniform_scale(&s);
            undoes!("scale", $n, t);
            composes!("scale", $n, t, Scale::from_nonuniform_scale(&vec::<S, $n>("u")));
        }
    };
}
simple_kinds!(tr2, sc2, tr2i, sc2i, 2, 3);
simple_kinds!(tr3, sc3, tr3i, sc3i, 3, 4);
simple_kinds!(tr1, sc1, tr1i, sc1i, 1, 2);
/// arbitrary unit vector of any dimension
fn unitn<S: Scal, const N: usize>(n: &str) -> Unit<Vector<S, N>> {
    let mut v = Vector::from_fill(S::zero());
    let mut r = S::one();
    for i in 1..N {
        v[i] = S::var(&format!("{n}{i}"));
        r = r - v[i] * v[i];
    }
    v[0] = S::var_sq(&format!("{n}0"), r);
    Unit::from_value_unchecked(v)
}
/// the types that exist in every dimension, in dimensions without an exported matrix
macro_rules! any_dim {
    ($f:ident, $fi:ident, $n:literal) => {
        fn $f<S: Scal>() {
            let (p, v, d) = (pnt::<S, $n>("p"), vec::<S, $n>("v"), vec::<S, $n>("t"));
            let k = S::var("k");
            let map = |f: &dyn Fn(usize) -> S| {
                let mut o = Vector::<S, $n>::from_fill(S::zero());
                for i in 0..$n {
                    o[i] = f(i);
                }
                o
            };
            let mapp = |f: &dyn Fn(usize) -> S| Point::<S, $n>::from_vector(&map(f));
            let t = Translation::from_vector(&d);
            forms!(peq, "translation: point", t, *, p, mapp(&|i| p[i] + d[i]));
            forms!(veq, "translation: vector", t, *, v, v);
            peq("translation: apply_point", &t.apply_point(&p), &mapp(&|i| p[i] + d[i]));
            veq("translation: apply_vector", &t.apply_vector(&v), &v);
            veq("translation: to_vector", &t.to_vector(), &d);
            peq("identity translation", &Translation::<S, $n>::identity().apply_point(&p), &p);
            let t = Scale::from_nonuniform_scale(&d);
            forms!(peq, "scale: point", t, *, p, mapp(&|i| p[i] * d[i]));
            forms!(veq, "scale: vector", t, *, v, map(&|i| v[i] * d[i]));
            peq("scale: apply_point", &t.apply_point(&p), &mapp(&|i| p[i] * d[i]));
            veq("scale: apply_vector", &t.apply_vector(&v), &map(&|i| v[i] * d[i]));
            veq("scale: to_vector", &t.to_vector(), &d);
            meq("scale: to_matrix", &t.to_matrix(), &diag(&d));
            veq("uniform scale", &Scale::<S, $n>::from_scale(k).apply_vector(&v), &map(&|i| v[i] * k));
            peq("identity scale", &Scale::<S, $n>::identity().apply_point(&p), &p);
            let (u, b) = (unitn::<S, $n>("n"), pnt::<S, $n>("b"));
            let t = Reflection::from_normal_bias(&u, &b);
            let two = two::<S>();
            let n = u.into_inner();
            let hp = ref_dot(&n, &map(&|i| p[i] - b[i]));
            let hv = ref_dot(&n, &v);
            forms!(peq, "reflection: point", t, *, p, mapp(&|i| p[i] - two * hp * n[i]));
            forms!(veq, "reflection: vector", t, *, v, map(&|i| v[i] - two * hv * n[i]));
            peq("reflection: apply_point", &t.apply_point(&p), &mapp(&|i| p[i] - two * hp * n[i]));
            veq("reflection: apply_vector", &t.apply_vector(&v), &map(&|i| v[i] - two * hv * n[i]));
            let e = unitn::<S, $n>("e");
            let t = Shear::from_affine_shear(k, &b, &e, &u);
            forms!(peq, "shear: point", t, *, p, mapp(&|i| p[i] + k * hp * e[i]));
            peq("shear: apply_point", &t.apply_point(&p), &mapp(&|i| p[i] + k * hp * e[i]));
            let t = Shear::from_shear(k, &e, &u);
            forms!(veq, "shear about the origin: vector", t, *, v, map(&|i| v[i] + k * hv * e[i]));
            veq("shear about the origin: apply_vector", &t.apply_vector(&v), &map(&|i| v[i] + k * hv * e[i]));
        }
        fn $fi<S: Scal>() {
            let t = Translation::from_vector(&vec::<S, $n>("t"));
            undoes!("translation", $n, t);
            composes!("translation", $n, t, Translation::from_vector(&vec::<S, $n>("u")));
            let mut m = t;
            m.inverse_mut();
            veq("translation: inverse_mut", &m.to_vector(), &t.inverse().to_vector());
            undoes!("reflection", $n, Reflection::from_normal_bias(&unitn::<S, $n>("n"), &pnt::<S, $n>("b")));
            let mut s = vec::<S, $n>("s");
            for i in 0..$n {
                s[i] = nz(&format!("s{i}"));
            }
            let t = Scale::from_nonuniform_scale(&s);
            undoes!("scale", $n, t);
            composes!("scale", $n, t, Scale::from_nonuniform_scale(&vec::<S, $n>("u")));
        }
    };
}
any_dim!(any1, any1i, 1);
any_dim!(any4, any4i, 4);
any_dim!(any5, any5i, 5);
any_dim!(any7, any7i, 7);
fn new_forms<S: Scal>() {
    let v = vec::<S, 3>("v");
    let w = Vector2::new(v[0], v[1]);
    veq("Translation2::new", &Translation2::new(v[0], v[1]).to_vector(), &w);
    veq("Translation3::new", &Translation3::new(v[0], v[1], v[2]).to_vector(), &v);
    veq("Scale2::new", &Scale2::new(v[0], v[1]).to_vector(), &w);
    veq("Scale3::new", &Scale3::new(v[0], v[1], v[2]).to_vector(), &v);
}
macro_rules! mirror_kinds {
    ($f:ident, $fi:ident, $sh:ident, $shi:ident, $shv:ident, $n:literal, $m:literal, $unit:ident) => {
        fn $f<S: Scal>() {
            let u = $unit::<S>("n");
            let b = pnt::<S, $n>("b");
            let t = Reflection::from_normal_bias(&u, &b);
            let nn = outer(u.as_ref(), u.as_ref());
            let two = two::<S>();
            let mut l = eye::<S, $n>();
            for c in 0..$n {
                for r in 0..$n {
                    l[c][r] = l[c][r] - two * nn[c][r];
                }
            }
            let s = two * ref_dot(u.as_ref(), &p2v(&b));
            let mut d = u.into_inner();
            for c in 0..$n {
                d[c] = d[c] * s;
            }
            acts!("reflection", $n, t, hom::<S, $n, $m>(&l, &d));
            peq("plane point is fixed", &t.apply_point(&b), &b);
            veq("normal flips", &t.apply_vector(u.as_ref()), &(-u.into_inner()));
            peq("bias", &t.bias(), &b);
            veq("normal", &t.normal(), u.as_ref());
        }
        fn $fi<S: Scal>() {
            let t = Reflection::from_normal_bias(&$unit::<S>("n"), &pnt::<S, $n>("b"));
            undoes!("reflection", $n, t);
        }
        fn $sh<S: Scal>() {
            let d = $unit::<S>("d");
            let u = $unit::<S>("n");
            let b = pnt::<S, $n>("b");
            let k = S::var("k");
            let t = Shear::from_affine_shear(k, &b, &d, &u);
            let nn = outer(d.as_ref(), u.as_ref());
            let mut l = eye::<S, $n>();
            for c in 0..$n {
                for r in 0..$n {
                    l[c][r] = l[c][r] + k * nn[c][r];
                }
            }
            let s = -k * ref_dot(u.as_ref(), &p2v(&b));
            let mut w = d.into_inner();
            for c in 0..$n {
                w[c] = w[c] * s;
            }
            let m = hom::<S, $n, $m>(&l, &w);
            let p = pnt::<S, $n>("p");
            let wp = act_p(&m, &p);
            peq("shear: apply_point", &t.apply_point(&p), &wp);
            forms!(peq, "shear: point", t, *, p, wp);
            exports!("shear", t, m);
            let o = Shear::from_shear(k, &d, &u);
            acts!("shear about the origin", $n, o, hom::<S, $n, $m>(&l, &Vector::from_fill(S::zero())));
            S::h_eq("shear_factor", t.shear_factor(), k);
            peq("origin", &t.origin(), &b);
            veq("direction", &t.direction(), d.as_ref());
            veq("normal", &t.normal(), u.as_ref());
            peq("default origin", &o.origin(), &Point::origin());
            exports!("identity", Shear::<S, $n>::identity(), eye::<S, $m>());
        }
        /// a vector has no position: the shear acts on it by its linear part (the present code shears it as if it were a position)
        fn $shv<S: Scal>() {
            let d = $unit::<S>("d");
            let u = $unit::<S>("n");
            let b = pnt::<S, $n>("b");
            let k = S::var("k");
            let t = Shear::from_affine_shear(k, &b, &d, &u);
            let v = vec::<S, $n>("v");
            let off = ref_dot(u.as_ref(), &p2v(&b));
            let h = ref_dot(u.as_ref(), &v);
            let x = [t.apply_vector(&v), t * v, t * &v, &t * v, &t * &v];
            let y = t.inverse_apply_vector(&v);
            let d = d.into_inner();
            for i in 0..$n {
                for (j, a) in x.iter().enumerate() {
                    S::h_eq_known(&format!("apply_vector: form {j}"), a[i], v[i] + k * h * d[i], v[i] + k * (h - off) * d[i]);
                }
                S::h_eq_known("inverse_apply_vector", y[i], v[i] - k * h * d[i], v[i] - k * (h - off) * d[i]);
            }
        }
        fn $shi<S: Scal>() {
            let d = $unit::<S>("d");
            let u = $unit::<S>("n");
            S::assume_eq(ref_dot(d.as_ref(), u.as_ref()), S::zero());
            let t = Shear::from_affine_shear(S::var("k"), &pnt::<S, $n>("b"), &d, &u);
            undoes!("shear", $n, t);
        }
    };
}
mirror_kinds!(refl2, refl2i, sh2, sh2i, sh2v, 2, 3, unit2);
mirror_kinds!(refl3, refl3i, sh3, sh3i, sh3v, 3, 4, unit3);
fn shear_mul2<S: Scal>() {
    let a = Shear2::from_affine_shear(S::var("k"), &pnt::<S, 2>("b"), &unit2::<S>("d"), &unit2::<S>("n"));
    let b = Shear2::from_affine_shear(S::var("l"), &pnt::<S, 2>("c"), &unit2::<S>("e"), &unit2::<S>("m"));
    let w = ref_mm(&a.to_affine_matrix(), &b.to_affine_matrix());
    for (f, c) in [("value value", a * b), ("value ref", a * &b), ("ref value", &a * b), ("ref ref", &a * &b)] {
        meq(&format!("shear product ({f})"), c.matrix(), &w);
    }
}
fn shear_mul3<S: Scal>() {
    let a = Shear3::from_affine_shear(S::var("k"), &pnt::<S, 3>("b"), &unit3::<S>("d"), &unit3::<S>("n"));
    let b = Shear3::from_affine_shear(S::var("l"), &pnt::<S, 3>("c"), &unit3::<S>("e"), &unit3::<S>("m"));
    let w = ref_mm(&a.to_affine_matrix(), &b.to_affine_matrix());
    for (f, c) in [("value value", a * b), ("value ref", a * &b), ("ref value", &a * b), ("ref ref", &a * &b)] {
        meq(&format!("shear product ({f})"), c.matrix(), &w);
    }
}
fn coord_shear<S: Scal>() {
    let k = S::var("k");
    let v = vec::<S, 2>("v");
    let p = Point2::new(v[0], v[1]);
    for (n, t, a, b) in [("xy", Shear2::from_shear_xy(k), 0, 1), ("yx", Shear2::from_shear_yx(k), 1, 0)] {
        let mut w = v;
        w[a] = v[a] + k * v[b];
        veq(&format!("Shear2::from_shear_{n}"), &t.apply_vector(&v), &w);
        peq(&format!("Shear2::from_shear_{n} point"), &t.apply_point(&p), &Point2::from_vector(&w));
    }
    let v = vec::<S, 3>("x");
    let p = Point3::new(v[0], v[1], v[2]);
    for (n, t, a, b) in [
        ("xy", Shear3::from_shear_xy(k), 0, 1),
        ("xz", Shear3::from_shear_xz(k), 0, 2),
        ("yx", Shear3::from_shear_yx(k), 1, 0),
        ("yz", Shear3::from_shear_yz(k), 1, 2),
        ("zx", Shear3::from_shear_zx(k), 2, 0),
        ("zy", Shear3::from_shear_zy(k), 2, 1),
    ] {
        let mut w = v;
        w[a] = v[a] + k * v[b];
        veq(&format!("Shear3::from_shear_{n}"), &t.apply_vector(&v), &w);
        peq(&format!("Shear3::from_shear_{n} point"), &t.apply_point(&p), &Point3::from_vector(&w));
    }
}
macro_rules! rigid_kinds {
    ($ro:ident, $is:ident, $si:ident, $roi:ident, $isi:ident, $sii:ident, $iscomp:ident, $sicomp:ident, $mix:ident, $mix2:ident, $n:literal, $m:literal, $rot:ident, $iso:ident, $sim:ident) => {
        fn $ro<S: Scal>() {
            let (t, l) = $rot::<S>("r");
            acts!("rotation", $n, t, hom::<S, $n, $m>(&l, &Vector::from_fill(S::zero())));
            meq("matrix()", t.matrix(), &l);
            meq("to_matrix", &t.to_matrix(), &l);
            meq("as_ref", t.as_ref(), &l);
            exports!("identity", Rotation::<S, $n>::identity(), eye::<S, $m>());
        }
        fn $is<S: Scal>() {
            let (r, l) = $rot::<S>("r");
            let d = vec::<S, $n>("t");
            let z = Vector::from_fill(S::zero());
            let tr = Translation::from_vector(&d);
            let t = Isometry::from_parts(&tr, &r);
            acts!("isometry", $n, t, hom::<S, $n, $m>(&l, &d));
            exports!("from_translation", Isometry::from_translation(&tr), hom::<S, $n, $m>(&eye(), &d));
            exports!("from_rotation", Isometry::from_rotation(&r), hom::<S, $n, $m>(&l, &z));
            exports!("identity", Isometry::<S, $n>::identity(), eye::<S, $m>());
            meq("rotation()", t.rotation().matrix(), &l);
            veq("translation()", t.translation().vector(), &d);
        }
        fn $si<S: Scal>() {
            let (r, l) = $rot::<S>("r");
            let d = vec::<S, $n>("t");
            let k = S::var("k");
            let z = Vector::from_fill(S::zero());
            let tr = Translation::from_vector(&d);
            let mut sl = l;
            for c in 0..$n {
                for w in 0..$n {
                    sl[c][w] = l[c][w] * k;
                }
            }
            let t = Similarity::from_parts(&tr, &r, k);
            acts!("similarity", $n, t, hom::<S, $n, $m>(&sl, &d));
            exports!("from_translation", Similarity::from_translation(&tr), hom::<S, $n, $m>(&eye(), &d));
            exports!("from_rotation", Similarity::from_rotation(&r), hom::<S, $n, $m>(&l, &z));
            exports!("from_scale", Similarity::<S, $n>::from_scale(k), hom::<S, $n, $m>(&diag(&Vector::from_fill(k)), &z));
            exports!("from_isometry", Similarity::from_isometry(&Isometry::from_parts(&tr, &r)), hom::<S, $n, $m>(&l, &d));
            exports!("identity", Similarity::<S, $n>::identity(), eye::<S, $m>());
            meq("rotation()", t.rotation().matrix(), &l);
            veq("translation()", t.translation().vector(), &d);
            S::h_eq("scale()", t.scale(), k);
        }
        fn $roi<S: Scal>() {
            let (t, l) = $rot::<S>("r");
            undoes!("rotation", $n, t);
            inv_mut!("rotation", t);
            meq("inverse is the transpose", t.inverse().matrix(), &tp(&l));
            composes!("rotation", $n, t, $rot::<S>("u").0);
        }
        fn $isi<S: Scal>() {
            let t = $iso::<S>("i");
            undoes!("isometry", $n, t);
            inv_mut!("isometry", t);
        }
        fn $sii<S: Scal>() {
            let t = $sim::<S>("i");
            undoes!("similarity", $n, t);
            inv_mut!("similarity", t);
        }
        fn $iscomp<S: Scal>() {
            composes!("isometry", $n, $iso::<S>("i"), $iso::<S>("j"));
        }
        fn $sicomp<S: Scal>() {
            composes!("similarity", $n, $sim::<S>("i"), $sim::<S>("j"));
        }
        fn $mix<S: Scal>() {
            let (r, _) = $rot::<S>("r");
            let t = Translation::from_vector(&vec::<S, $n>("t"));
            composes!("rotation * translation", $n, r, t);
            composes!("translation * rotation", $n, t, r);
            let i = $iso::<S>("i");
            composes!("isometry * translation", $n, i, t);
            composes!("translation * isometry", $n, t, i);
        }
        fn $mix2<S: Scal>() {
            let (r, _) = $rot::<S>("r");
            let i = $iso::<S>("i");
            composes!("isometry * rotation", $n, i, r);
            composes!("rotation * isometry", $n, r, i);
            composes!("similarity * isometry", $n, $sim::<S>("s"), i);
        }
    };
}
rigid_kinds!(ro2, is2, si2, ro2i, is2i, si2i, is2c, si2c, mix2a, mix2b, 2, 3, rot2, iso2, sim2);
rigid_kinds!(ro3, is3, si3, ro3i, is3i, si3i, is3c, si3c, mix3a, mix3b, 3, 4, rot3, iso3, sim3);

macro_rules! general {
    ($f:ident, $fi:ident, $fs:ident, $n:literal, $m:literal) => {
        fn $f<S: Scal>() {
            // an affine matrix: bottom row 0 .. 0 1
            let l = mat::<S, $n, $n>("l");
            let d = vec::<S, $n>("t");
            let m = hom::<S, $n, $m>(&l, &d);
            let t = Transform::<S, $n, $m>::from_matrix_unchecked(m);
            let p = pnt::<S, $n>("p");
            let v = vec::<S, $n>("v");
            let wp = act_p(&m, &p);
            let wv = act_v(&m, &v);
            peq("apply_point", &t.apply_point(&p), &wp);
            forms!(peq, "point", t, *, p, wp);
            veq("apply_vector", &t.apply_vector(&v), &wv);
            forms!(veq, "vector", t, *, v, wv);
            let any = mat::<S, $m, $m>("g");
            let mut g = Transform::<S, $n, $m>::from_matrix_unchecked(any);
            meq("matrix()", g.matrix(), &any);
            meq("to_matrix", &g.to_matrix(), &any);
            meq("as_ref", g.as_ref(), &any);
            meq("From", &Matrix::from(g), &any);
            meq("From ref", &Matrix::from(&g), &any);
            *g.matrix_mut() = m;
            meq("matrix_mut", g.matrix(), &m);
            meq("identity", Transform::<S, $n, $m>::identity().matrix(), &eye());
            let b = Transform::<S, $n, $m>::from_matrix_unchecked(any);
            let w = ref_mm(&m, &any);
            for (f, c) in [("value value", t * b), ("value ref", t * &b), ("ref value", &t * b), ("ref ref", &t * &b)] {
                meq(&format!("product ({f})"), c.matrix(), &w);
            }
        }
        fn $fi<S: Scal>() {
            let l = mat::<S, $n, $n>("l");
            let d = vec::<S, $n>("t");
            let m = hom::<S, $n, $m>(&l, &d);
            let t = Transform::<S, $n, $m>::from_matrix_unchecked(m);
            let p = pnt::<S, $n>("p");
            let v = vec::<S, $n>("v");
            if let Some(i) = t.try_inverse() {
                meq("two-sided inverse", &ref_mm(i.matrix(), &m), &eye());
                meq("inverse", t.inverse().matrix(), i.matrix());
                match t.inverse_apply_point(&act_p(&m, &p)) {
                    Some(x) => peq("inverse_apply_point", &x, &p),
                    None => S::h_true("inverse_apply_point answers", false),
                }
                match t.inverse_apply_vector(&act_v(&m, &v)) {
                    Some(x) => veq("inverse_apply_vector", &x, &v),
                    None => S::h_true("inverse_apply_vector answers", false),
                }
            } else {
                S::h_eq("no inverse only when the volume is zero", det::<S, $n>(&l), S::zero());
                S::h_true("no inverse_apply_point", t.inverse_apply_point(&p).is_none());
                S::h_true("no inverse_apply_vector", t.inverse_apply_vector(&v).is_none());
            }
        }
        /// projective matrices: a point goes to the dehomogenized image
        fn $fs<S: Scal>() {
            let m = mat::<S, $m, $m>("g");
            let t = Transform::<S, $n, $m>::from_matrix_unchecked(m);
            let p = pnt::<S, $n>("p");
            let mut w = m[$n][$n];
            for c in 0..$n {
                w = w + m[c][$n] * p[c];
            }
            S::assume(w != S::zero());
            let x = act_p(&m, &p);
            for q in [t.apply_point(&p), t * p, t * &p, &t * p, &t * &p] {
                for i in 0..$n {
                    S::h_eq(&format!("dehomogenized image [{i}]"), q[i] * w, x[i]);
                }
            }
        }
    };
}
general!(gen2, gen2i, gen2p, 2, 3);
general!(gen3, gen3i, gen3p, 3, 4);
fn det<S: Scal, const N: usize>(m: &Matrix<S, N, N>) -> S {
    if N == 2 {
        m[0][0] * m[1][1] - m[1][0] * m[0][1]
    } else {
        m[0][0] * (m[1][1] * m[2][2] - m[2][1] * m[1][2]) - m[1][0] * (m[0][1] * m[2][2] - m[2][1] * m[0][2])
            + m[2][0] * (m[0][1] * m[1][2] - m[1][1] * m[0][2])
    }
}

// ---- constructors of rotations, isometries and similarities
fn rot_ctor2<S: Scal>() {
    let a = ang::<S>("a");
    let (s, c) = (a.0.sin(), a.0.cos());
    let l = Matrix2x2::new(c, s, -s, c);
    let d = vec::<S, 2>("t");
    let z = Vector::from_fill(S::zero());
    meq("Rotation2::from_angle", Rotation2::from_angle(a).matrix(), &l);
    meq("Isometry2::from_angle", &Isometry2::from_angle(a).to_affine_matrix(), &hom(&l, &z));
    meq("Isometry2::from_angle_translation", &Isometry2::from_angle_translation(a, &d).to_affine_matrix(), &hom(&l, &d));
    meq("Similarity2::from_angle", &Similarity2::from_angle(a).to_affine_matrix(), &hom(&l, &z));
    let r = Rotation2::from_angle(a).angle();
    S::h_eq("angle: cosine", r.0.cos(), c);
    S::h_eq("angle: sine", r.0.sin(), s);
}
fn rot_between2<S: Scal>() {
    let a = unit2::<S>("a");
    let b = unit2::<S>("b");
    let m = Rotation2::rotation_between_axis(&a, &b);
    rotation2_goal("Rotation2", m.matrix());
    veq("Rotation2 maps the first onto the second", &ref_mv(m.matrix(), a.as_ref()), b.as_ref());
    let i = Isometry2::rotation_between_axis(&a, &b);
    rotation2_goal("Isometry2", i.rotation().matrix());
    veq("Isometry2 maps the first onto the second", &ref_mv(i.rotation().matrix(), a.as_ref()), b.as_ref());
    veq("Isometry2 does not translate", i.translation().vector(), &Vector::from_fill(S::zero()));
}
fn rot_between2v<S: Scal>() {
    let a = vec::<S, 2>("a");
    let b = vec::<S, 2>("b");
    let (na, nb) = ((a[0] * a[0] + a[1] * a[1]).sqrt(), (b[0] * b[0] + b[1] * b[1]).sqrt());
    let z = S::zero();
    let m = Rotation2::rotation_between(&a, &b);
    let i = Isometry2::rotation_between(&a, &b);
    veq("Isometry2 does not translate", i.translation().vector(), &Vector::from_fill(z));
    for (n, m) in [("Rotation2", m.matrix()), ("Isometry2", i.rotation().matrix())] {
        if na != z && nb != z {
            rotation2_goal(n, m);
            let ma = ref_mv(m, &a);
            for k in 0..2 {
                S::h_eq(&format!("{n}: first direction goes to the second"), ma[k] * nb, b[k] * na);
            }
        } else {
            meq(&format!("{n}: zero vector gives identity"), m, &eye());
        }
    }
}
/// Rodrigues' formula
fn rodrigues<S: Scal>(u: &Vector3<S>, a: S) -> Matrix3x3<S> {
    let (s, c) = (a.sin(), a.cos());
    let k = S::one() - c;
    let (x, y, z) = (u[0], u[1], u[2]);
    Matrix3x3::new(
        k * x * x + c,
        k * x * y + s * z,
        k * x * z - s * y,
        k * x * y - s * z,
        k * y * y + c,
        k * y * z + s * x,
        k * x * z + s * y,
        k * y * z - s * x,
        k * z * z + c,
    )
}
fn rot_ctor3<S: Scal>() {
    let a = ang::<S>("a");
    let u = unit3::<S>("u");
    let l = rodrigues(u.as_ref(), a.0);
    let d = vec::<S, 3>("t");
    let z = Vector::from_fill(S::zero());
    let r = Rotation3::from_axis_angle(&u, a);
    meq("Rotation3::from_axis_angle", r.matrix(), &l);
    meq("Isometry3::from_axis_angle", &Isometry3::from_axis_angle(&u, a).to_affine_matrix(), &hom(&l, &z));
    meq("Isometry3::from_axis_angle_translation", &Isometry3::from_axis_angle_translation(&u, a, &d).to_affine_matrix(), &hom(&l, &d));
    meq("Similarity3::from_axis_angle", &Similarity3::from_axis_angle(&u, a).to_affine_matrix(), &hom(&l, &z));
    let axes = [Vector3::unit_x(), Vector3::unit_y(), Vector3::unit_z()];
    let rs = [Rotation3::from_angle_x(a), Rotation3::from_angle_y(a), Rotation3::from_angle_z(a)];
    let is = [Isometry3::from_angle_x(a), Isometry3::from_angle_y(a), Isometry3::from_angle_z(a)];
    for i in 0..3 {
        let l = rodrigues(&axes[i], a.0);
        meq(&format!("Rotation3::from_angle about axis {i}"), rs[i].matrix(), &l);
        meq(&format!("Isometry3::from_angle about axis {i}"), &is[i].to_affine_matrix(), &hom(&l, &z));
    }
}
fn rot_angle3<S: Scal>() {
    let a = ang::<S>("a");
    let u = unit3::<S>("u");
    let r = Rotation3::from_axis_angle(&u, a);
    let g = r.angle();
    S::h_eq("angle: cosine", g.0.cos(), a.0.cos());
    S::h_le("angle is not negative", S::zero(), g.0);
    // away from 0 and 180 degrees the axis is recovered (reversed for negative sines)
    let s = a.0.sin();
    S::assume(s > S::rat(1, 1000) || s < S::rat(-1, 1000));
    let (v, h) = match r.axis_angle() {
        None => {
            S::h_true("axis_angle answers", false);
            return;
        }
        Some(x) => x,
    };
    match r.axis() {
        None => S::h_true("axis answers", false),
        Some(w) => veq("axis agrees with axis_angle", w.as_ref(), v.as_ref()),
    }
    S::h_eq("axis_angle: cosine", h.0.cos(), a.0.cos());
    for i in 0..3 {
        S::h_eq(&format!("axis [{i}]"), v.as_ref()[i] * h.0.sin(), u.as_ref()[i] * s);
    }
}
fn rot_quat3<S: Scal>() {
    let q = unitq_raw::<S>("q");
    let m = qm(&q);
    meq("from_quaternion", Rotation3::from_quaternion(&q).matrix(), &m);
    meq("From quaternion", Rotation3::from(q).matrix(), &m);
    meq("From quaternion ref", Rotation3::from(&q).matrix(), &m);
    let r = Rotation3::from_quaternion(&q);
    for (n, p) in [("value", Quaternion::from(r)), ("ref", Quaternion::from(&r))] {
        for i in 0..4 {
            for j in i..4 {
                S::h_eq(&format!("to quaternion ({n}): same up to sign"), p[i] * p[j], q[i] * q[j]);
            }
        }
    }
}
fn rot_euler3<S: Scal>() {
    let e = Euler::new(ang::<S>("x"), ang::<S>("y"), ang::<S>("z"));
    let m = ref_mm(
        &ref_mm(&rodrigues(&Vector3::unit_x(), e.x.0), &rodrigues(&Vector3::unit_y(), e.y.0)),
        &rodrigues(&Vector3::unit_z(), e.z.0),
    );
    meq("from_euler_angles", Rotation3::from_euler_angles(&e).matrix(), &m);
    meq("From Euler", Rotation3::<S>::from(e).matrix(), &m);
    meq("From Euler ref", Rotation3::<S>::from(&e).matrix(), &m);
    let f = Euler::new(Degrees(S::var("dx")), Degrees(S::var("dy")), Degrees(S::var("dz")));
    let g = Euler::new(Radians::from(f.x), Radians::from(f.y), Radians::from(f.z));
    meq("degrees", Rotation3::from_euler_angles(&f).matrix(), Rotation3::from_euler_angles(&g).matrix());
}
fn rot_euler3_back<S: Scal>() {
    let e = Euler::new(ang::<S>("x"), ang::<S>("y"), ang::<S>("z"));
    let r = Rotation3::from_euler_angles(&e);
    let b = r.euler_angles();
    // compare through the trigonometric functions of the recovered angles
    let m = ref_mm(
        &ref_mm(&rodrigues(&Vector3::unit_x(), b.x.0), &rodrigues(&Vector3::unit_y(), b.y.0)),
        &rodrigues(&Vector3::unit_z(), b.z.0),
    );
    meq("euler_angles round trip", &m, r.matrix());
}
/// The gimbal-locked rotations, from a quaternion with sin(yaw) = g = +-1.
fn rot_euler3_gimbal<S: Scal>() {
    rot_euler3_gimbal_at::<S>(S::var("x"))
}
fn rot_euler3_gimbal_half<S: Scal>() {
    rot_euler3_gimbal_at::<S>(S::var_sq("x", S::rat(1, 4)))
}
fn rot_euler3_gimbal_at<S: Scal>(x: S) {
    let g = S::var_sq("g", S::one());
    let y = S::var_sq("y", S::rat(1, 2) - x * x);
    let r = Rotation3::from_quaternion(&Quaternion::new(y * g, x, y, x * g));
    // cos(asin(1)) is not zero in floating point, so no exact test may decide what happens here
    S::loose(true);
    let b = r.euler_angles();
    S::loose(false);
    let m = ref_mm(
        &ref_mm(&rodrigues(&Vector3::unit_x(), b.x.0), &rodrigues(&Vector3::unit_y(), b.y.0)),
        &rodrigues(&Vector3::unit_z(), b.z.0),
    );
    meq("euler_angles of a gimbal-locked rotation", &m, r.matrix());
}
fn crs<S: Scal>(a: &Vector3<S>, b: &Vector3<S>) -> Vector3<S> {
    Vector3::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
}
fn rot_between3<S: Scal>() {
    let a = unit3::<S>("a");
    let b = unit3::<S>("b");
    let c = crs(a.as_ref(), b.as_ref());
    S::assume(ref_dot(&c, &c) > S::rat(1, 1_000_000));
    let d = ref_dot(a.as_ref(), b.as_ref());
    S::h_lt("lemma: |a.b| < 1", d * d, S::one());
    S::assume(d * d < S::one());
    match Rotation3::rotation_between_axis(&a, &b) {
        None => S::h_true("Rotation3::rotation_between_axis defined", false),
        Some(m) => {
            veq("Rotation3: maps the first onto the second", &ref_mv(m.matrix(), a.as_ref()), b.as_ref());
            veq("Rotation3: fixes the common normal", &ref_mv(m.matrix(), &c), &c);
        }
    }
    match Isometry3::rotation_between_axis(&a, &b) {
        None => S::h_true("Isometry3::rotation_between_axis defined", false),
        Some(m) => {
            veq("Isometry3: maps the first onto the second", &ref_mv(m.rotation().matrix(), a.as_ref()), b.as_ref());
            veq("Isometry3: fixes the common normal", &ref_mv(m.rotation().matrix(), &c), &c);
            veq("Isometry3: does not translate", m.translation().vector(), &Vector::from_fill(S::zero()));
        }
    }
}
fn between3v<S: Scal>(lo: S, f: fn(&Vector3<S>, &Vector3<S>) -> Option<Matrix3x3<S>>) {
    let a = vec::<S, 3>("a");
    let b = vec::<S, 3>("b");
    let (na, nb) = (ref_dot(&a, &a).sqrt(), ref_dot(&b, &b).sqrt());
    let c = crs(&a, &b);
    S::assume(na > lo && nb > lo);
    S::assume(ref_dot(&c, &c) > S::rat(1, 1_000_000) * na * na * nb * nb);
    let (ua, ub) = (a / na, b / nb);
    let (uc, ud) = (crs(&ua, &ub), ref_dot(&ua, &ub));
    S::h_lt("lemma: the unit directions are not parallel", S::rat(1, 1_000_000), ref_dot(&uc, &uc));
    S::assume(ref_dot(&uc, &uc) > S::rat(1, 1_000_000));
    S::h_lt("lemma: |a.b| < 1", ud * ud, S::one());
    S::assume(ud * ud < S::one());
    match f(&a, &b) {
        None => S::h_true("defined for directions that are not opposite", false),
        Some(m) => {
            let ma = ref_mv(&m, &a);
            for i in 0..3 {
                S::h_eq("first direction goes to the second", ma[i] * nb, b[i] * na);
            }
            veq("fixes the common normal", &ref_mv(&m, &c), &c);
        }
    }
}
fn rot_between3v<S: Scal>() {
    between3v::<S>(S::zero(), |a, b| Rotation3::rotation_between(a, b).map(|m| *m.matrix()));
}
fn iso_between3v<S: Scal>() {
    between3v::<S>(S::default_epsilon(), |a, b| {
        Isometry3::rotation_between(a, b).map(|m| {
            veq("does not translate", m.translation().vector(), &Vector::from_fill(S::zero()));
            *m.rotation().matrix()
        })
    });
}
fn dir_up<S: Scal>() -> (Point3<S>, Point3<S>, Vector3<S>, Vector3<S>) {
    let d = vec::<S, 3>("d");
    let u = vec::<S, 3>("u");
    let c = crs(&u, &d);
    S::assume(ref_dot(&d, &d) > S::zero());
    S::assume(ref_dot(&c, &c) > S::zero());
    let e = pnt::<S, 3>("e");
    let t = Point3::new(e[0] + d[0], e[1] + d[1], e[2] + d[2]);
    (e, t, d, u)
}
fn look_rot<S: Scal>() {
    let (e, t, d, u) = dir_up::<S>();
    let l = Matrix3x3::look_to_lh(&d, &u);
    let r = Matrix3x3::look_to_rh(&d, &u);
    meq("look_to_lh", Rotation3::look_to_lh(&d, &u).matrix(), &l);
    meq("look_to_rh", Rotation3::look_to_rh(&d, &u).matrix(), &r);
    meq("look_at_lh", Rotation3::look_at_lh(&e, &t, &u).matrix(), &l);
    meq("look_at_rh", Rotation3::look_at_rh(&e, &t, &u).matrix(), &r);
    meq("look_to_lh_inv", Rotation3::look_to_lh_inv(&d, &u).matrix(), &tp(&l));
    meq("look_to_rh_inv", Rotation3::look_to_rh_inv(&d, &u).matrix(), &tp(&r));
    meq("look_at_lh_inv", Rotation3::look_at_lh_inv(&e, &t, &u).matrix(), &tp(&l));
    meq("look_at_rh_inv", Rotation3::look_at_rh_inv(&e, &t, &u).matrix(), &tp(&r));
}
macro_rules! look_rigid {
    ($f:ident, $ty:ident) => {
        fn $f<S: Scal>() {
            let (e, t, d, u) = dir_up::<S>();
            let l = Matrix3x3::look_to_lh(&d, &u);
            let r = Matrix3x3::look_to_rh(&d, &u);
            for (n, i, m) in [
                ("look_to_lh", $ty::look_to_lh(&e, &d, &u), &l),
                ("look_to_rh", $ty::look_to_rh(&e, &d, &u), &r),
                ("look_at_lh", $ty::look_at_lh(&e, &t, &u), &l),
                ("look_at_rh", $ty::look_at_rh(&e, &t, &u), &r),
            ] {
                meq(&format!("{n}: rotation"), i.rotation().matrix(), m);
                peq(&format!("{n}: eye goes to the origin"), &i.apply_point(&e), &Point3::origin());
            }
            for (n, i, m) in [
                ("look_to_lh_inv", $ty::look_to_lh_inv(&e, &d, &u), tp(&l)),
                ("look_to_rh_inv", $ty::look_to_rh_inv(&e, &d, &u), tp(&r)),
                ("look_at_lh_inv", $ty::look_at_lh_inv(&e, &t, &u), tp(&l)),
                ("look_at_rh_inv", $ty::look_at_rh_inv(&e, &t, &u), tp(&r)),
            ] {
                meq(&format!("{n}: rotation"), i.rotation().matrix(), &m);
                peq(&format!("{n}: origin goes to the eye"), &i.apply_point(&Point3::origin()), &e);
            }
        }
    };
}
look_rigid!(look_iso, Isometry3);
look_rigid!(look_sim, Similarity3);

// ------------------------------------------------------------------------- C22 projections
struct Frustum<S> {
    l: S,
    r: S,
    b: S,
    t: S,
    n: S,
    f: S,
}
/// left, right, bottom, top are distances from the axis; 0 < near < far
fn frustum<S: Scal>() -> Frustum<S> {
    let z = S::zero();
    let l = S::var("l");
    let r = S::var("r");
    let b = S::var("b");
    let t = S::var("t");
    let n = S::var("n");
    let f = S::var("f");
    S::assume(l > z && r > z && b > z && t > z && n > z && f > n);
    Frustum { l, r, b, t, n, f }
}
fn persp_corners<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let o = S::one();
    for (x, wx) in [(-k.l, -o), (k.r, o)] {
        for (y, wy) in [(-k.b, -o), (k.t, o)] {
            for (s, z, wz) in [(o, -k.n, -o), (k.f / k.n, -k.f, o)] {
                let q = Point3::new(x * s, y * s, z);
                let w = Point3::new(wx, wy, wz);
                peq("corner goes to the clip cube corner", &p.project_point(&q), &w);
            }
        }
    }
}
fn persp_act<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let q = pnt::<S, 3>("q");
    S::assume(q[2] != S::zero());
    let m = *p.matrix();
    let h = ref_mv(&m, &Vector4::new(q[0], q[1], q[2], S::one()));
    S::h_eq("w is minus depth", h[3], -q[2]);
    let w = Point3::new(h[0] / h[3], h[1] / h[3], h[2] / h[3]);
    let v = p2v(&q);
    let wv = p2v(&w);
    peq("project_point", &p.project_point(&q), &w);
    forms!(peq, "point", p, *, q, w);
    veq("project_vector", &p.project_vector(&v), &wv);
    forms!(veq, "vector", p, *, v, wv);
    meq("to_projective_matrix", &p.to_projective_matrix(), &m);
    meq("as_ref", p.as_ref(), &m);
    meq("From", &Matrix4x4::from(p), &m);
    meq("to_transform", p.to_transform().matrix(), &m);
    meq("from_perspective", &Matrix4x4::from_perspective(k.l, k.r, k.b, k.t, k.n, k.f), &m);
}
fn persp_get<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    S::h_eq("left", p.left(), k.l);
    S::h_eq("right", p.right(), k.r);
    S::h_eq("bottom", p.bottom(), k.b);
    S::h_eq("top", p.top(), k.t);
    S::h_eq("near", p.near(), k.n);
    S::h_eq("far", p.far(), k.f);
    S::h_eq("aspect_ratio", p.aspect_ratio() * (k.t + k.b), k.r + k.l);
}
fn persp_unproject<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let q = pnt::<S, 3>("q");
    S::assume(q[2] != S::zero());
    peq("unproject_point", &p.unproject_point(&p.project_point(&q)), &q);
    let v = p2v(&q);
    veq("unproject_vector", &p.unproject_vector(&p.project_vector(&v)), &v);
}
fn persp_vfov<S: Scal>() {
    let a = ang::<S>("a");
    let z = S::zero();
    let two = two::<S>();
    let h = Radians(a.0 / two);
    // 0 < vfov < 180 degrees
    S::assume(h.0.cos() > z && h.0.sin() > z);
    let r = S::var("r");
    let n = S::var("n");
    let f = S::var("f");
    S::assume(r > z && n > z && f > n);
    let p = Perspective3::from_vfov(a, r, n, f);
    meq("from_perspective_vfov", &Matrix4x4::from_perspective_vfov(a, r, n, f), p.matrix());
    let t = n * h.0.sin() / h.0.cos();
    meq("same as the frustum with that opening", p.matrix(), Perspective3::new(t * r, t * r, t, t, n, f).matrix());
}
fn persp_vfov_get<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    // the opening angle between the bottom and the top plane
    let v = p.vfov();
    let hyp_t = (k.t * k.t + k.n * k.n).sqrt();
    let hyp_b = (k.b * k.b + k.n * k.n).sqrt();
    S::h_eq("cosine", v.0.cos() * hyp_t * hyp_b, k.n * k.n - k.t * k.b);
    S::h_eq("sine", v.0.sin() * hyp_t * hyp_b, k.n * (k.t + k.b));
}
fn ortho_corners<S: Scal>() {
    let k = frustum::<S>();
    let p = Orthographic3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let o = S::one();
    for (x, wx) in [(-k.l, -o), (k.r, o)] {
        for (y, wy) in [(-k.b, -o), (k.t, o)] {
            for (z, wz) in [(-k.n, -o), (-k.f, o)] {
                peq("corner goes to the clip cube corner", &p.project_point(&Point3::new(x, y, z)), &Point3::new(wx, wy, wz));
            }
        }
    }
    S::h_eq("left", p.left(), k.l);
    S::h_eq("right", p.right(), k.r);
    S::h_eq("bottom", p.bottom(), k.b);
    S::h_eq("top", p.top(), k.t);
    S::h_eq("near", p.near(), k.n);
    S::h_eq("far", p.far(), k.f);
}
fn ortho_act<S: Scal>() {
    let k = frustum::<S>();
    let p = Orthographic3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let m = *p.matrix();
    let q = pnt::<S, 3>("q");
    let v = p2v(&q);
    let w = act_p(&m, &q);
    let wv = act_v(&m, &v);
    for c in 0..4 {
        S::h_eq("affine", m[c][3], if c == 3 { S::one() } else { S::zero() });
    }
    peq("project_point", &p.project_point(&q), &w);
    forms!(peq, "point", p, *, q, w);
    veq("project_vector", &p.project_vector(&v), &wv);
    forms!(veq, "vector", p, *, v, wv);
    peq("unproject_point", &p.unproject_point(&w), &q);
    veq("unproject_vector", &p.unproject_vector(&wv), &v);
    meq("to_projective_matrix", &p.to_projective_matrix(), &m);
    meq("as_ref", p.as_ref(), &m);
    meq("From", &Matrix4x4::from(p), &m);
    meq("to_transform", p.to_transform().matrix(), &m);
    meq("from_orthographic", &Matrix4x4::from_orthographic(k.l, k.r, k.b, k.t, k.n, k.f), &m);
}
fn frames<S: Scal>() {
    let k = frustum::<S>();
    let p = Perspective3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let o = Orthographic3::new(k.l, k.r, k.b, k.t, k.n, k.f);
    let one = S::one();
    let (x, y, z) = (Vector3::unit_x(), Vector3::unit_y(), Vector3::unit_z());
    for (n, g) in [
        ("perspective", [p.view_unit_right(), p.view_unit_up(), p.view_unit_depth(), p.view_unit_gaze(), p.clip_unit_right(), p.clip_unit_up(), p.clip_unit_depth(), p.clip_unit_gaze()]),
        ("orthographic", [o.view_unit_right(), o.view_unit_up(), o.view_unit_depth(), o.view_unit_gaze(), o.clip_unit_right(), o.clip_unit_up(), o.clip_unit_depth(), o.clip_unit_gaze()]),
    ] {
        for (i, w) in [x, y, z, Vector3::new(S::zero(), S::zero(), -one), x, y, z, z].iter().enumerate() {
            veq(&format!("{n}: frame vector {i}"), g[i].as_ref(), w);
        }
    }
    for (n, b) in [("perspective", p.clip_ndc_bounds()), ("orthographic", o.clip_ndc_bounds())] {
        for (lo, hi) in [b.0, b.1, b.2] {
            S::h_eq(&format!("{n}: lower bound"), lo, -one);
            S::h_eq(&format!("{n}: upper bound"), hi, one);
        }
    }
}

pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C19", "translation2", tr2; "Translation2::{apply_*, *, to_affine_matrix, to_transform, between_*}");
    h!(v, "C19", "translation3", tr3; "Translation3::{apply_*, *, to_affine_matrix, to_transform, between_*}");
    h!(v, "C19", "scale2", sc2; "Scale2::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "scale3", sc3; "Scale3::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "translation1", tr1; "Translation<1>::{apply_*, *, to_affine_matrix, to_transform, between_*}");
    h!(v, "C19", "scale1", sc1; "Scale<1>::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C20", "translation1_inverse", tr1i; "Translation<1>::{inverse, inverse_mut, inverse_apply_*, *}");
    h!(v, "C20", "scale1_inverse", sc1i; "Scale<1>::{inverse, inverse_apply_*, *}");
    h!(v, "C19", "any1", any1; "Translation, Scale, Reflection, Shear in dimension 1");
    h!(v, "C19", "any4", any4; "Translation, Scale, Reflection, Shear in dimension 4");
    h!(v, "C19", "any5", any5; "Translation, Scale, Reflection, Shear in dimension 5");
    h!(v, "C19", "any7", any7; "Translation, Scale, Reflection, Shear in dimension 7");
    h!(v, "C20", "any1_inverse", any1i; "Translation, Scale, Reflection: inverses and products in dimension 1");
    h!(v, "C20", "any4_inverse", any4i; "Translation, Scale, Reflection: inverses and products in dimension 4");
    h!(v, "C20", "any5_inverse", any5i; "Translation, Scale, Reflection: inverses and products in dimension 5");
    h!(v, "C20", "any7_inverse", any7i; "Translation, Scale, Reflection: inverses and products in dimension 7");
    h!(v, "C19", "new", new_forms; "Translation/Scale::new");
    h!(v, "C19", "reflection2", refl2; "Reflection2::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "reflection3", refl3; "Reflection3::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "shear2", sh2; "Shear2::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "shear3", sh3; "Shear3::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "shear2_vector", sh2v; "Shear2::apply_vector about an arbitrary origin");
    h!(v, "C19", "shear3_vector", sh3v; "Shear3::apply_vector about an arbitrary origin");
    h!(v, "C19", "shear_coordinates", coord_shear; "Shear2/Shear3::from_shear_*");
    h!(v, "C19", "rotation2", ro2; "Rotation2::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "rotation3", ro3; "Rotation3::{apply_*, *, to_affine_matrix, to_transform}");
    h!(v, "C19", "isometry2", is2; "Isometry2::{apply_*, *, to_affine_matrix, to_transform, from_*}");
    h!(v, "C19", "isometry3", is3; "Isometry3::{apply_*, *, to_affine_matrix, to_transform, from_*}");
    h!(v, "C19", "similarity2", si2; "Similarity2::{apply_*, *, to_affine_matrix, to_transform, from_*}");
    h!(v, "C19", "similarity3", si3; "Similarity3::{apply_*, *, to_affine_matrix, to_transform, from_*}");
    h!(v, "C19", "transform2", gen2; "Transform2::{apply_*, *, matrix}");
    h!(v, "C19", "transform3", gen3; "Transform3::{apply_*, *, matrix}");
    h!(v, "C19", "transform2_projective", gen2p; "Transform2::apply_point with any bottom row");
    h!(v, "C19", "transform3_projective", gen3p; "Transform3::apply_point with any bottom row");
    h!(v, "C20", "translation2_inverse", tr2i; "Translation2::{inverse, inverse_mut, inverse_apply_*, *}");
    h!(v, "C20", "translation3_inverse", tr3i; "Translation3::{inverse, inverse_mut, inverse_apply_*, *}");
    h!(v, "C20", "scale2_inverse", sc2i; "Scale2::{inverse, inverse_apply_*, *}");
    h!(v, "C20", "scale3_inverse", sc3i; "Scale3::{inverse, inverse_apply_*, *}");
    h!(v, "C20", "reflection2_inverse", refl2i; "Reflection2::{inverse, inverse_apply_*}");
    h!(v, "C20", "reflection3_inverse", refl3i; "Reflection3::{inverse, inverse_apply_*}");
    h!(v, "C20", "shear2_inverse", sh2i; "Shear2::{inverse, inverse_apply_*}");
    h!(v, "C20", "shear3_inverse", sh3i; "Shear3::{inverse, inverse_apply_*}");
    h!(v, "C20", "shear2_product", shear_mul2; "Shear2 * Shear2");
    h!(v, "C20", "shear3_product", shear_mul3; "Shear3 * Shear3");
    h!(v, "C20", "rotation2_inverse", ro2i; "Rotation2::{inverse, inverse_mut, inverse_apply_*, *}");
    h!(v, "C20", "rotation3_inverse", ro3i; "Rotation3::{inverse, inverse_mut, inverse_apply_*, *}");
    h!(v, "C20", "isometry2_inverse", is2i; "Isometry2::{inverse, inverse_mut, inverse_apply_*}");
    h!(v, "C20", "isometry3_inverse", is3i; "Isometry3::{inverse, inverse_mut, inverse_apply_*}");
    h!(v, "C20", "similarity2_inverse", si2i; "Similarity2::{inverse, inverse_mut, inverse_apply_*}");
    h!(v, "C20", "similarity3_inverse", si3i; "Similarity3::{inverse, inverse_mut, inverse_apply_*}");
    h!(v, "C20", "isometry2_product", is2c; "Isometry2 * Isometry2");
    h!(v, "C20", "isometry3_product", is3c; "Isometry3 * Isometry3");
    h!(v, "C20", "similarity2_product", si2c; "Similarity2 * Similarity2");
    h!(v, "C20", "similarity3_product", si3c; "Similarity3 * Similarity3");
    h!(v, "C20", "transform2_inverse", gen2i; "Transform2::{try_inverse, inverse, inverse_apply_*}");
    h!(v, "C20", "transform3_inverse", gen3i; "Transform3::{try_inverse, inverse, inverse_apply_*}");
    h!(v, "C21", "mixed2_translation", mix2a; "Rotation2*Translation2, Translation2*Rotation2, Isometry2*Translation2, Translation2*Isometry2");
    h!(v, "C21", "mixed3_translation", mix3a; "Rotation3*Translation3, Translation3*Rotation3, Isometry3*Translation3, Translation3*Isometry3");
    h!(v, "C21", "mixed2_rotation", mix2b; "Isometry2*Rotation2, Rotation2*Isometry2, Similarity2*Isometry2");
    h!(v, "C21", "mixed3_rotation", mix3b; "Isometry3*Rotation3, Rotation3*Isometry3, Similarity3*Isometry3");
    h!(v, "C26", "rotation2_constructors", rot_ctor2; "Rotation2/Isometry2/Similarity2::from_angle*, Rotation2::angle");
    h!(v, "C26", "rotation2_between_axes", rot_between2; "Rotation2/Isometry2::rotation_between_axis");
    h!(v, "C26", "rotation2_between", rot_between2v; "Rotation2/Isometry2::rotation_between");
    h!(v, "C26", "rotation3_constructors", rot_ctor3; "Rotation3/Isometry3/Similarity3::from_axis_angle*, from_angle_*");
    h!(v, "C26", "rotation3_angle_axis", rot_angle3; "Rotation3::{angle, axis, axis_angle}");
    h!(v, "C26", "rotation3_quaternion", rot_quat3; "Rotation3 <-> Quaternion");
    h!(v, "C26", "rotation3_euler", rot_euler3; "Rotation3::from_euler_angles, From<Euler>");
    h!(v, "C26", "rotation3_euler_back", rot_euler3_back; "Rotation3::euler_angles");
    h!(v, "C26", "rotation3_euler_gimbal", rot_euler3_gimbal; "Rotation3::euler_angles at gimbal lock");
    h!(v, "C26", "rotation3_euler_gimbal_half", rot_euler3_gimbal_half; "Rotation3::euler_angles at gimbal lock");
    h!(v, "C26", "rotation3_between_axes", rot_between3; "Rotation3/Isometry3::rotation_between_axis");
    h!(v, "C26", "rotation3_between", rot_between3v; "Rotation3::rotation_between");
    h!(v, "C26", "isometry3_between", iso_between3v; "Isometry3::rotation_between");
    h!(v, "C26", "look_rotation", look_rot; "Rotation3::look_*");
    h!(v, "C26", "look_isometry", look_iso; "Isometry3::look_*");
    h!(v, "C26", "look_similarity", look_sim; "Similarity3::look_*");
    h!(v, "C22", "perspective_corners", persp_corners; "Perspective3::{new, project_point}");
    h!(v, "C22", "perspective_projection", persp_act; "Perspective3::{project_point, project_vector, *, matrix exports}");
    h!(v, "C22", "perspective_getters", persp_get; "Perspective3::{left, right, bottom, top, near, far, aspect_ratio}");
    h!(v, "C22", "perspective_unproject", persp_unproject; "Perspective3::{unproject_point, unproject_vector}");
    h!(v, "C22", "perspective_from_vfov", persp_vfov; "Perspective3::from_vfov, Matrix4x4::from_perspective_vfov");
    h!(v, "C22", "perspective_vfov", persp_vfov_get; "Perspective3::vfov");
    h!(v, "C22", "orthographic_corners", ortho_corners; "Orthographic3::{new, project_point, getters}");
    h!(v, "C22", "orthographic_projection", ortho_act; "Orthographic3::{project_*, unproject_*, *, matrix exports}");
    h!(v, "C22", "projection_frames", frames; "view_unit_*, clip_unit_*, clip_ndc_bounds");
}
