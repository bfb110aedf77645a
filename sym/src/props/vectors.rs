//! C01 vector/point algebra, C02 inner product / norms / normalisation, C03 cross product.
use super::*;
use crate::{forms, h};

fn ew<S: Scal, const N: usize>(f: impl Fn(usize) -> S) -> Vector<S, N> {
    let mut v = Vector::from_fill(S::zero());
    for i in 0..N {
        v[i] = f(i);
    }
    v
}
fn ewp<S: Scal, const N: usize>(f: impl Fn(usize) -> S) -> Point<S, N> {
    let mut v = Point::from_fill(S::zero());
    for i in 0..N {
        v[i] = f(i);
    }
    v
}

fn vector_ops<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let b = vec::<S, N>("b");
    let k = S::var("k");
    forms!(veq, "add", a, +, b, ew::<S, N>(|i| a[i] + b[i]));
    forms!(veq, "sub", a, -, b, ew::<S, N>(|i| a[i] - b[i]));
    let sc = ew::<S, N>(|i| a[i] * k);
    veq("scale", &(a * k), &sc);
    veq("scale ref", &(&a * k), &sc);
    let ng = ew::<S, N>(|i| S::zero() - a[i]);
    veq("neg", &(-a), &ng);
    veq("neg ref", &(-&a), &ng);
    let mut m = a;
    m.neg_mut();
    veq("neg_mut", &m, &ng);
    let mut m = a;
    m += b;
    veq("add_assign", &m, &(a + b));
    let mut m = a;
    m += &b;
    veq("add_assign ref", &m, &(a + b));
    let mut m = a;
    m -= b;
    veq("sub_assign", &m, &(a - b));
    let mut m = a;
    m -= &b;
    veq("sub_assign ref", &m, &(a - b));
    let mut m = a;
    m *= k;
    veq("mul_assign", &m, &sc);
    let cm = ew::<S, N>(|i| a[i] * b[i]);
    veq("component_mul", &a.component_mul(&b), &cm);
    let mut m = a;
    m.component_mul_assign(&b);
    veq("component_mul_assign", &m, &cm);
    let z = Vector::<S, N>::zero();
    for i in 0..N {
        S::h_eq("zero", z[i], S::zero());
    }
    veq("default is zero", &Vector::<S, N>::default(), &z);
    veq("a + 0", &(a + z), &a);
    veq("from_fill", &Vector::<S, N>::from_fill(k), &ew::<S, N>(|_| k));
    veq("map", &a.map(|x| x + k), &ew::<S, N>(|i| a[i] + k));
    veq("lerp", &a.lerp(&b, k), &ew::<S, N>(|i| a[i] + (b[i] - a[i]) * k));
    // laws, stated on results
    let c = vec::<S, N>("c");
    veq("associative", &((a + b) + c), &(a + (b + c)));
    veq("commutative", &(a + b), &(b + a));
    let j = S::var("j");
    veq("distributive", &((a + b) * k), &(a * k + b * k));
    veq("scalar distributive", &(a * (k + j)), &(a * k + a * j));
    veq("compatible", &((a * k) * j), &(a * (k * j)));
    veq("cancel", &((a + b) - b), &a);
    S::assume(k != S::zero());
    let dv = ew::<S, N>(|i| a[i] / k);
    veq("div", &(a / k), &dv);
    veq("div ref", &(&a / k), &dv);
    let mut m = a;
    m /= k;
    veq("div_assign", &m, &dv);
    veq("div undoes mul", &((a * k) / k), &a);
}
fn vector_is_zero<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let mut all = true;
    for i in 0..N {
        all = all && a[i] == S::zero();
    }
    S::h_true("is_zero iff all components are zero", a.is_zero() == all);
    let b = vec::<S, N>("b");
    let mut same = true;
    for i in 0..N {
        same = same && a[i] == b[i];
    }
    S::h_true("== iff all components are equal", (a == b) == same);
}
/// any dimension: one arbitrary component of an otherwise known vector
fn one_component<S: Scal, const N: usize>() {
    let x = S::var("x");
    for i in 0..N {
        let mut v = Vector::<S, N>::zero();
        v[i] = x;
        S::h_true("is_zero looks at every component", v.is_zero() == (x == S::zero()));
        let mut v = ew::<S, N>(|j| if j % 2 == 0 { S::one() } else { S::zero() });
        let w = v;
        v[i] = x;
        S::h_true("== looks at every component", (v == w) == (x == w[i]));
        S::h_true("== of points looks at every component", (Point::from_vector(&v) == Point::from_vector(&w)) == (x == w[i]));
        S::h_true("is_finite", v.is_finite());
        let (lo, hi) = if x < w[i] { (x, w[i]) } else { (w[i], x) };
        veq("component_min", &v.component_min(&w), &ew::<S, N>(|j| if j == i { lo } else { w[j] }));
        veq("component_max", &v.component_max(&w), &ew::<S, N>(|j| if j == i { hi } else { w[j] }));
        veq("component_min", &w.component_min(&v), &ew::<S, N>(|j| if j == i { lo } else { w[j] }));
        veq("component_max", &w.component_max(&v), &ew::<S, N>(|j| if j == i { hi } else { w[j] }));
    }
}
/// any dimension: arrays, slices, pointers and ranges agree with the components
macro_rules! array_views {
    ($f:ident, $T:ident, $mk:ident, $eq:ident, $fill:ident) => {
        fn $f<S: Scal, const N: usize>() {
            let mut arr = [S::zero(); N];
            for i in 0..N {
                arr[i] = S::var(&format!("a{i}"));
            }
            let x = S::var("x");
            let v = $T::<S, N>::from(arr);
            S::h_true("len, shape", v.len() == N && v.is_empty() == (N == 0) && v.shape() == (N, 1));
            $eq("from &array", &$T::<S, N>::from(&arr), &v);
            $eq("&array as &value", <&$T<S, N>>::from(&arr), &v);
            let r: &[S; N] = v.as_ref();
            let s = v.as_slice();
            S::h_true("slice length", s.len() == N && v[..].len() == N);
            let mut seen = vec![];
            let m = v.map(|y| {
                seen.push(y);
                y + x
            });
            for i in 0..N {
                S::h_eq("from array", v[i], arr[i]);
                S::h_eq("as_ref", r[i], arr[i]);
                S::h_eq("as_slice", s[i], arr[i]);
                S::h_eq("as_ptr", unsafe { *v.as_ptr().add(i) }, arr[i]);
                S::h_eq("map", m[i], arr[i] + x);
                S::h_eq("map visits in order", seen[i], arr[i]);
                S::h_eq("full range", v[..][i], arr[i]);
                S::h_eq("range from", v[i..][0], arr[i]);
                S::h_eq("range to", v[..i + 1][i], arr[i]);
                S::h_eq("range", v[i..i + 1][0], arr[i]);
                S::h_true("range lengths", v[i..].len() == N - i && v[..i].len() == i && v[i..N].len() == N - i);
                let mut by = [v; 6];
                by[0][i] = x;
                by[1][..][i] = x;
                by[2][i..][0] = x;
                AsMut::<[S; N]>::as_mut(&mut by[3])[i] = x;
                unsafe { *by[4].as_mut_ptr().add(i) = x };
                by[5][..i + 1][i] = x;
                for w in by {
                    for j in 0..N {
                        S::h_eq("a write changes exactly one component", w[j], if i == j { x } else { arr[j] });
                    }
                }
            }
        }
    };
}
array_views!(vector_arrays, Vector, vec, veq, from_fill);
array_views!(point_arrays, Point, pnt, peq, from_fill);
fn vector_rem<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let k = S::var("k");
    S::assume(k != S::zero());
    let r = a % k;
    let r2 = &a % k;
    let mut r3 = a;
    r3 %= k;
    let want = ew::<S, N>(|i| a[i] % k);
    veq("rem", &r, &want);
    veq("rem ref", &r2, &want);
    veq("rem_assign", &r3, &want);
    // what the scalar remainder means
    let x = want[0];
    S::h_int("the remainder differs from the dividend by a multiple of the divisor", (a[0] - x) / k);
    S::h_le("remainder smaller than the modulus", x * x, k * k);
    S::h_le("remainder has the sign of the dividend", S::zero(), x * a[0]);
}
fn point_ops<S: Scal, const N: usize>() {
    let p = pnt::<S, N>("p");
    let q = pnt::<S, N>("q");
    let v = vec::<S, N>("v");
    let w = vec::<S, N>("w");
    let k = S::var("k");
    forms!(peq, "point+vector", p, +, v, ewp::<S, N>(|i| p[i] + v[i]));
    forms!(peq, "point-vector", p, -, v, ewp::<S, N>(|i| p[i] - v[i]));
    forms!(veq, "point-point", p, -, q, ew::<S, N>(|i| p[i] - q[i]));
    peq("p + (q - p) = q", &(p + (q - p)), &q);
    veq("(p + v) - p = v", &((p + v) - p), &v);
    peq("(p + v) + w = p + (v + w)", &((p + v) + w), &(p + (v + w)));
    let mut m = p;
    m += v;
    peq("add_assign", &m, &(p + v));
    let mut m = p;
    m += &v;
    peq("add_assign ref", &m, &(p + v));
    let mut m = p;
    m -= v;
    peq("sub_assign", &m, &(p - v));
    let mut m = p;
    m -= &v;
    peq("sub_assign ref", &m, &(p - v));
    let sc = ewp::<S, N>(|i| p[i] * k);
    peq("scale", &(p * k), &sc);
    peq("scale ref", &(&p * k), &sc);
    let mut m = p;
    m *= k;
    peq("mul_assign", &m, &sc);
    peq("neg", &(-p), &ewp::<S, N>(|i| S::zero() - p[i]));
    peq("neg ref", &(-&p), &ewp::<S, N>(|i| S::zero() - p[i]));
    veq("to_vector", &p.to_vector(), &ew::<S, N>(|i| p[i]));
    peq("from_vector", &Point::from_vector(&v), &ewp::<S, N>(|i| v[i]));
    peq("origin", &Point::<S, N>::origin(), &ewp::<S, N>(|_| S::zero()));
    peq("default", &Point::<S, N>::default(), &ewp::<S, N>(|_| S::zero()));
    peq("map", &p.map(|x| x * x + k), &ewp::<S, N>(|i| p[i] * p[i] + k));
    peq("from_fill", &Point::<S, N>::from_fill(k), &ewp::<S, N>(|_| k));
    S::h_eq("dot", p.dot(&q), ref_dot(&p.to_vector(), &q.to_vector()));
    S::assume(k != S::zero());
    let dv = ewp::<S, N>(|i| p[i] / k);
    peq("div", &(p / k), &dv);
    peq("div ref", &(&p / k), &dv);
    let mut m = p;
    m /= k;
    peq("div_assign", &m, &dv);
    let r = p % k;
    let r2 = &p % k;
    let mut r3 = p;
    r3 %= k;
    let want = ewp::<S, N>(|i| p[i] % k);
    peq("rem", &r, &want);
    peq("rem ref", &r2, &want);
    peq("rem_assign", &r3, &want);
}
fn homogeneous3<S: Scal>() {
    let v = vec::<S, 3>("v");
    let p = pnt::<S, 3>("p");
    let w = S::var("w");
    let z = S::zero();
    let o = S::one();
    veq("vector extend", &v.extend(w), &Vector4::new(v[0], v[1], v[2], w));
    veq("vector homogeneous", &v.to_homogeneous(), &Vector4::new(v[0], v[1], v[2], z));
    veq("point homogeneous", &p.to_homogeneous(), &Vector4::new(p[0], p[1], p[2], o));
    let q = vec::<S, 4>("q");
    veq("contract", &q.contract(), &Vector3::new(q[0], q[1], q[2]));
    veq("from vector4", &Vector3::from(q), &Vector3::new(q[0], q[1], q[2]));
    veq("from vector4 ref", &Vector3::from(&q), &Vector3::new(q[0], q[1], q[2]));
    S::h_true("vector round trip", v.to_homogeneous().from_homogeneous().is_some());
    veq("vector round trip", &v.to_homogeneous().from_homogeneous().unwrap(), &v);
    peq("point round trip", &Point3::from_homogeneous(&p.to_homogeneous()).unwrap(), &p);
    match q.from_homogeneous() {
        Some(u) => {
            S::h_eq("vector from_homogeneous only at w = 0", q[3], z);
            veq("vector from_homogeneous", &u, &Vector3::new(q[0], q[1], q[2]));
            S::h_true("no point at infinity", Point3::from_homogeneous(&q).is_none());
        }
        None => {
            S::h_true("point exists at w /= 0", q[3] != z);
            let u = Point3::from_homogeneous(&q);
            S::h_true("point exists", u.is_some());
            let u = u.unwrap();
            for i in 0..3 {
                S::h_eq("perspective divide", u[i] * q[3], q[i]);
            }
            S::assume(w != z);
            let u2 = Point3::from_homogeneous(&(q * w)).unwrap();
            peq("homogeneous scale invariance", &u2, &u);
        }
    }
    let p2 = pnt::<S, 2>("r");
    peq("point extend", &p2.extend(w), &Point3::new(p2[0], p2[1], w));
    peq("point contract", &p.contract(), &Point2::new(p[0], p[1]));
}
fn homogeneous2<S: Scal>() {
    let v = vec::<S, 2>("v");
    let p = pnt::<S, 2>("p");
    let w = S::var("w");
    veq("vector extend", &v.extend(w), &Vector3::new(v[0], v[1], w));
    veq("vector homogeneous", &v.to_homogeneous(), &Vector3::new(v[0], v[1], S::zero()));
    veq("point homogeneous", &p.to_homogeneous(), &Vector3::new(p[0], p[1], S::one()));
    veq("vector round trip", &v.to_homogeneous().from_homogeneous().unwrap(), &v);
    peq("point round trip", &Point2::from_homogeneous(&p.to_homogeneous()).unwrap(), &p);
    let q = vec::<S, 3>("q");
    veq("contract", &q.contract(), &Vector2::new(q[0], q[1]));
    match q.from_homogeneous() {
        Some(u) => {
            S::h_eq("w = 0", q[2], S::zero());
            veq("vector", &u, &Vector2::new(q[0], q[1]));
            S::h_true("no point at infinity", Point2::from_homogeneous(&q).is_none());
        }
        None => {
            let u = Point2::from_homogeneous(&q).unwrap();
            for i in 0..2 {
                S::h_eq("perspective divide", u[i] * q[2], q[i]);
            }
        }
    }
    let a = vec::<S, 1>("a");
    veq("extend 1", &a.extend(w), &Vector2::new(a[0], w));
    veq("contract 2", &v.contract(), &Vector1::new(v[0]));
    let c4 = pnt::<S, 4>("g");
    let c3 = pnt::<S, 3>("h");
    peq("point extend 3", &c3.extend(w), &ewp::<S, 4>(|i| if i < 3 { c3[i] } else { w }));
    peq("point contract 4", &c4.contract(), &ewp::<S, 3>(|i| c4[i]));
    veq("homogeneous 1", &a.to_homogeneous(), &Vector2::new(a[0], S::zero()));
    veq("homogeneous 1 back", &a.to_homogeneous().from_homogeneous().unwrap(), &a);
    let p1 = pnt::<S, 1>("s");
    veq("point homogeneous 1", &p1.to_homogeneous(), &Vector2::new(p1[0], S::one()));
    peq("point homogeneous 1 back", &Point1::from_homogeneous(&p1.to_homogeneous()).unwrap(), &p1);
    peq("point extend 1", &p1.extend(w), &Point2::new(p1[0], w));
    peq("point contract 2", &p.contract(), &Point1::new(p[0]));
    S::h_eq("to_scalar", a.to_scalar(), a[0]);
}
fn basis<S: Scal>() {
    let (z, o) = (S::zero(), S::one());
    veq("unit_x 1", &Vector1::<S>::unit_x(), &Vector1::new(o));
    veq("unit_x 2", &Vector2::<S>::unit_x(), &Vector2::new(o, z));
    veq("unit_y 2", &Vector2::<S>::unit_y(), &Vector2::new(z, o));
    veq("unit_x 3", &Vector3::<S>::unit_x(), &Vector3::new(o, z, z));
    veq("unit_y 3", &Vector3::<S>::unit_y(), &Vector3::new(z, o, z));
    veq("unit_z 3", &Vector3::<S>::unit_z(), &Vector3::new(z, z, o));
    veq("unit_x 4", &Vector4::<S>::unit_x(), &Vector4::new(o, z, z, z));
    veq("unit_y 4", &Vector4::<S>::unit_y(), &Vector4::new(z, o, z, z));
    veq("unit_z 4", &Vector4::<S>::unit_z(), &Vector4::new(z, z, o, z));
    veq("unit_w 4", &Vector4::<S>::unit_w(), &Vector4::new(z, z, z, o));
}

// ------------------------------------------------------------------------- C02
fn inner<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let b = vec::<S, N>("b");
    let c = vec::<S, N>("c");
    let k = S::var("k");
    S::h_eq("dot", a.dot(&b), ref_dot(&a, &b));
    S::h_eq("symmetric", a.dot(&b), b.dot(&a));
    S::h_eq("bilinear", (a * k + c).dot(&b), k * a.dot(&b) + c.dot(&b));
    S::h_eq("norm_squared", a.norm_squared(), ref_dot(&a, &a));
    S::h_eq("magnitude_squared", a.magnitude_squared(), ref_dot(&a, &a));
    S::h_eq("metric_distance_squared", a.metric_distance_squared(&b), ref_dot(&(a - b), &(a - b)));
    S::h_eq("distance_squared", a.distance_squared(&b), ref_dot(&(a - b), &(a - b)));
    S::h_le("positive", S::zero(), a.norm_squared());
    let n2 = ref_dot(&a, &a);
    for (nm, n) in [("norm", a.norm()), ("magnitude", a.magnitude()), ("l2_norm", a.l2_norm()), ("L2Norm", a.apply_norm(&L2Norm::new())), ("Normed::norm", Normed::norm(&a))] {
        S::h_le(&format!("{nm} >= 0"), S::zero(), n);
        S::h_eq(&format!("{nm}^2"), n * n, n2);
    }
    let d2 = ref_dot(&(a - b), &(a - b));
    for (nm, n) in [("metric_distance", a.metric_distance(&b)), ("distance", a.distance(&b)), ("L2 metric", a.apply_metric_distance(&b, &L2Norm::new()))] {
        S::h_le(&format!("{nm} >= 0"), S::zero(), n);
        S::h_eq(&format!("{nm}^2"), n * n, d2);
    }
    veq("scale", &a.scale(k), &(a * k));
    let mut m = a;
    m.scale_mut(k);
    veq("scale_mut", &m, &(a * k));
    S::assume(k != S::zero());
    veq("unscale", &a.unscale(k), &(a / k));
    let mut m = a;
    m.unscale_mut(k);
    veq("unscale_mut", &m, &(a / k));
}
fn triangle<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let b = vec::<S, N>("b");
    // Cauchy-Schwarz and the triangle inequality in squared form
    let d = a.dot(&b);
    S::h_le("Cauchy-Schwarz", d * d, a.norm_squared() * b.norm_squared());
}
fn lnorms<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let mut l1 = S::zero();
    let mut li = S::zero();
    for i in 0..N {
        let x = if a[i] < S::zero() { -a[i] } else { a[i] };
        l1 = l1 + x;
        if x > li {
            li = x;
        }
    }
    S::h_eq("l1_norm", a.l1_norm(), l1);
    S::h_eq("L1Norm", a.apply_norm(&L1Norm::new()), l1);
    S::h_eq("linf_norm", a.linf_norm(), li);
    S::h_eq("LinfNorm", a.apply_norm(&LinfNorm::new()), li);
    S::h_eq("lp_norm 1", a.lp_norm(1), l1);
    let l2 = a.lp_norm(2);
    S::h_le("lp_norm 2 >= 0", S::zero(), l2);
    S::h_eq("lp_norm 2", l2 * l2, ref_dot(&a, &a));
    let l3 = a.lp_norm(3);
    let l3b = a.apply_norm(&LpNorm::new(3));
    let mut c = S::zero();
    for i in 0..N {
        let x = if a[i] < S::zero() { -a[i] } else { a[i] };
        c = c + x * x * x;
    }
    S::h_eq("lp_norm 3", l3 * l3 * l3, c);
    S::h_eq("LpNorm 3", l3b * l3b * l3b, c);
    let b = vec::<S, N>("b");
    let d = a - b;
    let mut l1 = S::zero();
    let mut li = S::zero();
    for i in 0..N {
        let x = if d[i] < S::zero() { -d[i] } else { d[i] };
        l1 = l1 + x;
        if x > li {
            li = x;
        }
    }
    S::h_eq("L1 metric", a.apply_metric_distance(&b, &L1Norm::new()), l1);
    S::h_eq("Linf metric", a.apply_metric_distance(&b, &LinfNorm::new()), li);
    let l2 = a.apply_metric_distance(&b, &LpNorm::new(2));
    S::h_eq("Lp metric 2", l2 * l2, ref_dot(&d, &d));
}
/// larger dimensions: one pattern of signs, component J the largest in absolute value
fn lnorms_wide<S: Scal, const N: usize, const J: usize>() {
    let mut b = Vector::<S, N>::from_fill(S::zero());
    let mut l1 = S::zero();
    let mut cubes = S::zero();
    let mut m = [S::zero(); N];
    for i in 0..N {
        m[i] = S::var(&format!("m{i}"));
        S::assume(m[i] > S::zero());
        if i > 0 {
            // the largest is J; the others decrease away from it
            let o = if i <= J { i - 1 } else { i };
            let n = if i <= J { i } else { i - 1 };
            S::assume(m[n] > m[o]);
        }
        l1 = l1 + m[i];
        cubes = cubes + m[i] * m[i] * m[i];
        b[i] = S::var(&format!("b{i}"));
    }
    // every component is negative in some and positive in other patterns
    for pattern in 0..4 {
        let mut a = Vector::<S, N>::from_fill(S::zero());
        for i in 0..N {
            let odd = if pattern < 2 { i % 3 == 1 } else { i % 2 == 1 };
            a[i] = if odd == (pattern % 2 == 0) { -m[i] } else { m[i] };
        }
        let c = b + a;
    S::h_eq("l1_norm", a.l1_norm(), l1);
    S::h_eq("linf_norm", a.linf_norm(), m[J]);
    S::h_eq("L1Norm", a.apply_norm(&L1Norm::new()), l1);
    S::h_eq("LinfNorm", a.apply_norm(&LinfNorm::new()), m[J]);
    S::h_eq("lp_norm 1", a.lp_norm(1), l1);
    S::h_eq("L1 metric", c.apply_metric_distance(&b, &L1Norm::new()), l1);
    S::h_eq("Linf metric", c.apply_metric_distance(&b, &LinfNorm::new()), m[J]);
    let l2 = a.lp_norm(2);
    S::h_le("lp_norm 2 >= 0", S::zero(), l2);
    S::h_eq("lp_norm 2", l2 * l2, ref_dot(&a, &a));
    let l3 = a.apply_norm(&LpNorm::new(3));
    S::h_eq("LpNorm 3", l3 * l3 * l3, cubes);
    }
}
fn minmax<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let b = vec::<S, N>("b");
    let lo = a.component_min(&b);
    let hi = a.component_max(&b);
    for i in 0..N {
        let (l, u) = if a[i] < b[i] { (a[i], b[i]) } else { (b[i], a[i]) };
        S::h_eq("component_min", lo[i], l);
        S::h_eq("component_max", hi[i], u);
    }
}
fn unit_goal<S: Scal, const N: usize>(n: &str, u: &Vector<S, N>, v: &Vector<S, N>) {
    S::h_eq(&format!("{n}: unit length"), ref_dot(u, u), S::one());
    for i in 0..N {
        for j in (i + 1)..N {
            S::h_eq(&format!("{n}: parallel"), u[i] * v[j], u[j] * v[i]);
        }
    }
    S::h_lt(&format!("{n}: same direction"), S::zero(), ref_dot(u, v));
}
fn normalize<S: Scal, const N: usize>() {
    let v = vec::<S, N>("v");
    let t = S::var("t");
    S::assume(v.norm_squared() > S::zero());
    unit_goal("normalize", &v.normalize(), &v);
    let mut m = v;
    let n = m.normalize_mut();
    unit_goal("normalize_mut", &m, &v);
    S::h_eq("normalize_mut returns the old norm", n * n, ref_dot(&v, &v));
    S::h_lt("positive norm", S::zero(), n);
    veq("norm * direction", &(m * n), &v);
    unit_goal("Unit::from_value", Unit::from_value(v).as_ref(), &v);
    let (u, n) = Unit::from_value_with_norm(v);
    unit_goal("Unit::from_value_with_norm", &u.into_inner(), &v);
    S::h_eq("with_norm", n * n, ref_dot(&v, &v));
    let w = v.normalize() * v.norm();
    veq("v = norm * normalize", &w, &v);
    veq("neg unit", (-Unit::from_value(v)).as_ref(), &(-v.normalize()));
    veq("neg unit ref", (-&Unit::from_value(v)).as_ref(), &(-v.normalize()));
    veq("deref", &*Unit::from_value(v), &v.normalize());
    S::assume(t >= S::zero());
    let over = v.norm() > t;
    match v.try_normalize(t) {
        Some(u) => {
            S::h_true("try_normalize only above the threshold", over);
            unit_goal("try_normalize", &u, &v);
        }
        None => S::h_true("try_normalize refuses only at or below the threshold", !over),
    }
    let mut m = v;
    match m.try_normalize_mut(t) {
        Some(n) => {
            S::h_true("try_normalize_mut only above the threshold", over);
            unit_goal("try_normalize_mut", &m, &v);
            S::h_eq("old norm", n * n, ref_dot(&v, &v));
        }
        None => {
            S::h_true("try_normalize_mut refuses only at or below the threshold", !over);
            veq("refusal leaves the vector alone", &m, &v);
        }
    }
    match Unit::try_from_value(v, t) {
        Some(u) => {
            S::h_true("try_from_value only above the threshold", over);
            unit_goal("try_from_value", u.as_ref(), &v);
        }
        None => S::h_true("try_from_value refuses only at or below the threshold", !over),
    }
    match Unit::try_from_value_with_norm(v, t) {
        Some((u, n)) => {
            unit_goal("try_from_value_with_norm", u.as_ref(), &v);
            S::h_eq("reported norm", n * n, ref_dot(&v, &v));
            S::h_lt("reported norm positive", S::zero(), n);
        }
        None => S::h_true("refusal", !over),
    }
}
fn point_norms<S: Scal, const N: usize>() {
    let p = pnt::<S, N>("p");
    let q = pnt::<S, N>("q");
    let k = S::var("k");
    let n2 = ref_dot(&p.to_vector(), &p.to_vector());
    let d = p - q;
    let d2 = ref_dot(&d, &d);
    S::h_eq("norm_squared", p.norm_squared(), n2);
    S::h_eq("Normed::norm_squared", Normed::norm_squared(&p), n2);
    S::h_eq("magnitude_squared", p.magnitude_squared(), n2);
    S::h_eq("metric_distance_squared", p.metric_distance_squared(&q), d2);
    S::h_eq("distance_squared", p.distance_squared(&q), d2);
    for (nm, n) in [("norm", p.norm()), ("magnitude", p.magnitude()), ("l2_norm", p.l2_norm()), ("Normed::norm", Normed::norm(&p))] {
        S::h_le(&format!("{nm} >= 0"), S::zero(), n);
        S::h_eq(nm, n * n, n2);
    }
    for (nm, n) in [("metric_distance", p.metric_distance(&q)), ("distance", p.distance(&q))] {
        S::h_le(&format!("{nm} >= 0"), S::zero(), n);
        S::h_eq(nm, n * n, d2);
    }
    peq("scale", &p.scale(k), &(p * k));
    let mut m = p;
    m.scale_mut(k);
    peq("scale_mut", &m, &(p * k));
    S::assume(n2 > S::zero());
    unit_goal("normalize", &p.normalize().to_vector(), &p.to_vector());
    let mut m = p;
    let n = m.normalize_mut();
    unit_goal("normalize_mut", &m.to_vector(), &p.to_vector());
    S::h_eq("normalize_mut norm", n * n, n2);
    let t = S::var("t");
    S::assume(t >= S::zero());
    let over = p.norm() > t;
    match p.try_normalize(t) {
        Some(u) => {
            S::h_true("try_normalize only above the threshold", over);
            unit_goal("try_normalize", &u.to_vector(), &p.to_vector())
        }
        None => S::h_true("try_normalize refuses only at or below the threshold", !over),
    }
    let mut m = p;
    match m.try_normalize_mut(t) {
        Some(n) => {
            S::h_true("try_normalize_mut only above the threshold", over);
            S::h_eq("try_normalize_mut norm", n * n, n2);
            unit_goal("try_normalize_mut", &m.to_vector(), &p.to_vector())
        }
        None => {
            S::h_true("try_normalize_mut refuses only at or below the threshold", !over);
            peq("refusal leaves the point alone", &m, &p);
        }
    }
    peq("neg unit", (-Unit::from_value(p)).as_ref(), &(-p.normalize()));
    peq("neg unit ref", (-&Unit::from_value(p)).as_ref(), &(-p.normalize()));
    S::assume(k != S::zero());
    peq("unscale", &p.unscale(k), &(p / k));
    let mut m = p;
    m.unscale_mut(k);
    peq("unscale_mut", &m, &(p / k));
}
fn project_reflect<S: Scal, const N: usize>() {
    let a = vec::<S, N>("a");
    let n = vec::<S, N>("n");
    S::assume(n.norm_squared() > S::zero());
    let p = a.project(&n);
    for i in 0..N {
        for j in (i + 1)..N {
            S::h_eq("projection is parallel", p[i] * n[j], p[j] * n[i]);
        }
    }
    S::h_eq("residual is orthogonal", ref_dot(&(a - p), &n), S::zero());
    veq("idempotent", &p.project(&n), &p);
    let r = a.reflect(&n);
    S::h_eq("reflection flips the normal component", ref_dot(&r, &n), -ref_dot(&a, &n));
    veq("reflection keeps the tangential part", &(r - a), &(p * (-two::<S>())));
    S::h_eq("reflection is an isometry", ref_dot(&r, &r), ref_dot(&a, &a));
    veq("involution", &r.reflect(&n), &a);
}

// ------------------------------------------------------------------------- C03
fn cross<S: Scal>() {
    let a = vec::<S, 3>("a");
    let b = vec::<S, 3>("b");
    let c = vec::<S, 3>("c");
    let k = S::var("k");
    let x = a.cross(&b);
    veq("definition", &x, &Vector3::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]));
    S::h_eq("orthogonal to a", x.dot(&a), S::zero());
    S::h_eq("orthogonal to b", x.dot(&b), S::zero());
    veq("anticommutative", &b.cross(&a), &(-x));
    veq("bilinear", &(a * k + c).cross(&b), &(x * k + c.cross(&b)));
    let d = a.dot(&b);
    S::h_eq("Lagrange", x.norm_squared(), a.norm_squared() * b.norm_squared() - d * d);
    veq("Jacobi", &(a.cross(&b.cross(&c)) + b.cross(&c.cross(&a)) + c.cross(&a.cross(&b))), &Vector3::zero());
    veq("triple expansion", &a.cross(&b.cross(&c)), &(b * a.dot(&c) - c * a.dot(&b)));
    let t = a.triple(&b, &c);
    S::h_eq("triple product", t, a.dot(&b.cross(&c)));
    S::h_eq("cyclic", t, b.triple(&c, &a));
    S::h_eq("triple is the determinant of the columns", t, Matrix3x3::from_columns(&[a, b, c]).determinant());
    veq("right-handed basis", &Vector3::<S>::unit_x().cross(&Vector3::unit_y()), &Vector3::unit_z());
    let m = mat::<S, 3, 3>("m");
    // cofactor rule: (Ma) x (Mb) = det(M) M^-T (a x b), multiplied through by M^T
    veq("transforms with the cofactor matrix", &ref_mv(&m.transpose(), &(m * a).cross(&(m * b))), &(x * m.determinant()));
}

/// A position outside the value is refused (by a panic), never mapped to some component.
fn refused<S: Scal, T>(what: &str, f: impl FnOnce() -> T) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f();
    }));
    S::h_true(&format!("{what} is refused"), r.is_err());
}
fn outside_vector<S: Scal, const N: usize>() {
    let v = vec::<S, N>("v");
    let p = pnt::<S, N>("p");
    for k in [N, N + 1, 2 * N, usize::MAX] {
        refused::<S, _>("vector index", || v[k]);
        refused::<S, _>("point index", || p[k]);
        refused::<S, _>("vector write", || {
            let mut w = v;
            w[k] = S::zero();
        });
        refused::<S, _>("point write", || {
            let mut w = p;
            w[k] = S::zero();
        });
    }
    refused::<S, _>("vector range", || v[0..N + 1].len());
    refused::<S, _>("vector range to", || v[..N + 1].len());
    refused::<S, _>("vector range from", || v[N + 1..].len());
    refused::<S, _>("point range", || p[0..N + 1].len());
    refused::<S, _>("point range to", || p[..N + 1].len());
    refused::<S, _>("point range from", || p[N + 1..].len());
    refused::<S, _>("vector range write", || {
        let mut w = v;
        w[0..N + 1][0] = S::zero();
    });
    S::h_true("the empty range at the end", v[N..].is_empty() && p[N..].is_empty() && v[..0].is_empty() && p[..0].is_empty());
}
fn outside_matrix<S: Scal, const R: usize, const C: usize>() {
    let m = mat::<S, R, C>("m");
    for k in [1, 2, R * C] {
        refused::<S, _>("column index", || m[C - 1 + k]);
        refused::<S, _>("row index", || m[0][R - 1 + k]);
        refused::<S, _>("(column, row) index, column", || m[(C - 1 + k, 0)]);
        refused::<S, _>("(column, row) index, row", || m[(0, R - 1 + k)]);
        refused::<S, _>("row", || m.row(R - 1 + k));
        refused::<S, _>("column", || m.column(C - 1 + k));
        refused::<S, _>("swap_rows", || {
            let mut w = m;
            w.swap_rows(0, R - 1 + k)
        });
        refused::<S, _>("swap_columns", || {
            let mut w = m;
            w.swap_columns(C - 1 + k, 0)
        });
        refused::<S, _>("swap, row", || {
            let mut w = m;
            w.swap((0, 0), (0, R - 1 + k))
        });
        refused::<S, _>("swap, column", || {
            let mut w = m;
            w.swap((C - 1 + k, 0), (0, 0))
        });
        refused::<S, _>("write", || {
            let mut w = m;
            w[(0, R - 1 + k)] = S::zero();
        });
        refused::<S, _>("column write", || {
            let mut w = m;
            w[C - 1 + k][0] = S::zero();
        });
    }
}
fn outside_numbers<S: Scal>() {
    let q = quat::<S>("q");
    let z = cplx::<S>("z");
    for k in [0, 1, 4, usize::MAX - 4] {
        refused::<S, _>("quaternion index", || q[4 + k]);
        refused::<S, _>("complex index", || z[2 + k]);
        refused::<S, _>("quaternion write", || {
            let mut w = q;
            w[4 + k] = S::zero();
        });
        refused::<S, _>("complex write", || {
            let mut w = z;
            w[2 + k] = S::zero();
        });
    }
    refused::<S, _>("quaternion range", || q[1..5].len());
    refused::<S, _>("complex range", || z[..3].len());
    refused::<S, _>("quaternion range from", || q[5..].len());
    refused::<S, _>("complex range from", || z[3..].len());
}
pub fn register(v: &mut Vec<Harness>) {
    let api = "Vector: Add, Sub, Mul<S>, Div<S>, Neg and assign forms by value and by reference; neg_mut; component_mul(_assign); zero; default; from_fill; map; lerp";
    h!(v, "C01", "vector_ops_1", vector_ops, 1; api);
    h!(v, "C01", "vector_ops_2", vector_ops, 2; api);
    h!(v, "C01", "vector_ops_3", vector_ops, 3; api);
    h!(v, "C01", "vector_ops_4", vector_ops, 4; api);
    h!(v, "C01", "vector_is_zero_3", vector_is_zero, 3; "Vector::is_zero, PartialEq for Vector");
    h!(v, "C01", "vector_is_zero_2", vector_is_zero, 2; "Vector::is_zero, PartialEq for Vector");
    h!(v, "C01", "vector_rem_1", vector_rem, 1; "Vector: Rem<S>, RemAssign<S>");
    h!(v, "C01", "vector_rem_2", vector_rem, 2; "Vector: Rem<S>, RemAssign<S>");
    h!(v, "C01", "vector_rem_3", vector_rem, 3; "Vector: Rem<S>, RemAssign<S>");
    h!(v, "C01", "vector_rem_4", vector_rem, 4; "Vector: Rem<S>, RemAssign<S>");
    let api = "Point: Add/Sub with Vector, Sub of Point, Mul/Div/Rem by S, Neg, assign forms; to_vector, from_vector, origin, map, from_fill, dot";
    h!(v, "C01", "point_ops_1", point_ops, 1; api);
    h!(v, "C01", "point_ops_2", point_ops, 2; api);
    h!(v, "C01", "point_ops_3", point_ops, 3; api);
    h!(v, "C01", "homogeneous_3", homogeneous3; "Vector/Point: extend, contract, to_homogeneous, from_homogeneous; Vector3::from(Vector4)");
    h!(v, "C01", "homogeneous_2", homogeneous2; "Vector/Point: extend, contract, to_homogeneous, from_homogeneous; to_scalar");
    h!(v, "C01", "basis", basis; "Vector1..4::unit_x/y/z/w");
    let api = "Vector: dot, norm_squared, norm, magnitude, l2_norm, metric_distance(_squared), distance(_squared), apply_norm/apply_metric_distance(L2Norm), scale(_mut), unscale(_mut)";
    h!(v, "C02", "inner_1", inner, 1; api);
    h!(v, "C02", "inner_2", inner, 2; api);
    h!(v, "C02", "inner_3", inner, 3; api);
    h!(v, "C02", "inner_4", inner, 4; api);
    h!(v, "C02", "cauchy_schwarz_2", triangle, 2; "Vector::dot, norm_squared");
    h!(v, "C02", "cauchy_schwarz_3", triangle, 3; "Vector::dot, norm_squared");
    h!(v, "C02", "lnorms_1", lnorms, 1; "Vector: l1_norm, linf_norm, lp_norm, L1Norm, LinfNorm, LpNorm");
    h!(v, "C02", "lnorms_2", lnorms, 2; "Vector: l1_norm, linf_norm, lp_norm, L1Norm, LinfNorm, LpNorm");
    h!(v, "C02", "lnorms_3", lnorms, 3; "Vector: l1_norm, linf_norm, lp_norm, L1Norm, LinfNorm, LpNorm", thorough);
    h!(v, "C02", "minmax_3", minmax, 3; "Vector: component_min, component_max");
    let api = "Vector: normalize(_mut), try_normalize(_mut); Unit: from_value, from_value_with_norm, try_from_value, try_from_value_with_norm, into_inner, as_ref, Deref, Neg";
    h!(v, "C02", "normalize_1", normalize, 1; api);
    h!(v, "C02", "normalize_2", normalize, 2; api);
    h!(v, "C02", "normalize_3", normalize, 3; api);
    h!(v, "C02", "normalize_4", normalize, 4; api);
    let api = "Point: norm_squared, norm, magnitude, l2_norm, metric_distance(_squared), distance(_squared), scale, unscale, normalize, try_normalize (and _mut)";
    h!(v, "C02", "point_norms_2", point_norms, 2; api);
    h!(v, "C02", "point_norms_3", point_norms, 3; api);
    h!(v, "C02", "project_reflect_2", project_reflect, 2; "Vector: project, reflect");
    h!(v, "C02", "project_reflect_3", project_reflect, 3; "Vector: project, reflect");
    // dimensions beyond the named aliases
    let api = "Vector: Add, Sub, Mul<S>, Div<S>, Neg and assign forms by value and reference (dimension above 4)";
    h!(v, "C01", "vector_ops_5", vector_ops, 5; api);
    h!(v, "C01", "vector_ops_6", vector_ops, 6; api);
    h!(v, "C01", "vector_ops_7", vector_ops, 7; api);
    h!(v, "C01", "vector_ops_8", vector_ops, 8; api);
    h!(v, "C01", "vector_ops_9", vector_ops, 9; api);
    h!(v, "C01", "vector_ops_17", vector_ops, 17; api);
    h!(v, "C01", "vector_is_zero_1", vector_is_zero, 1; "Vector::is_zero, PartialEq for Vector");
    h!(v, "C01", "vector_is_zero_4", vector_is_zero, 4; "Vector::is_zero, PartialEq for Vector");
    h!(v, "C01", "vector_is_zero_5", vector_is_zero, 5; "Vector::is_zero, PartialEq for Vector");
    let one = "Vector: is_zero, PartialEq, component_min, component_max, one component at a time";
    h!(v, "C01", "one_component_1", one_component, 1; one);
    h!(v, "C01", "one_component_4", one_component, 4; one);
    h!(v, "C01", "one_component_6", one_component, 6; one);
    h!(v, "C01", "one_component_9", one_component, 9; one);
    h!(v, "C01", "one_component_17", one_component, 17; one);
    let arr = "From arrays, AsRef, AsMut, as_slice, as_ptr, as_mut_ptr, map, index and ranges in any dimension";
    let oor = "Index, IndexMut, row, column, swap: positions outside the value";
    h!(v, "C07", "outside_vector_1", outside_vector, 1; oor);
    h!(v, "C07", "outside_vector_2", outside_vector, 2; oor);
    h!(v, "C07", "outside_vector_3", outside_vector, 3; oor);
    h!(v, "C07", "outside_vector_4", outside_vector, 4; oor);
    h!(v, "C07", "outside_vector_5", outside_vector, 5; oor);
    h!(v, "C07", "outside_matrix_1x1", outside_matrix, 1, 1; oor);
    h!(v, "C07", "outside_matrix_2x2", outside_matrix, 2, 2; oor);
    h!(v, "C07", "outside_matrix_2x3", outside_matrix, 2, 3; oor);
    h!(v, "C07", "outside_matrix_3x2", outside_matrix, 3, 2; oor);
    h!(v, "C07", "outside_matrix_3x3", outside_matrix, 3, 3; oor);
    h!(v, "C07", "outside_matrix_4x3", outside_matrix, 4, 3; oor);
    h!(v, "C07", "outside_matrix_4x4", outside_matrix, 4, 4; oor);
    h!(v, "C07", "outside_numbers", outside_numbers; oor);
    h!(v, "C07", "vector_arrays_1", vector_arrays, 1; arr);
    h!(v, "C07", "vector_arrays_4", vector_arrays, 4; arr);
    h!(v, "C07", "vector_arrays_5", vector_arrays, 5; arr);
    h!(v, "C07", "vector_arrays_8", vector_arrays, 8; arr);
    h!(v, "C07", "vector_arrays_9", vector_arrays, 9; arr);
    h!(v, "C07", "point_arrays_1", point_arrays, 1; arr);
    h!(v, "C07", "point_arrays_3", point_arrays, 3; arr);
    h!(v, "C07", "point_arrays_4", point_arrays, 4; arr);
    h!(v, "C07", "point_arrays_5", point_arrays, 5; arr);
    h!(v, "C07", "point_arrays_9", point_arrays, 9; arr);
    h!(v, "C01", "vector_rem_5", vector_rem, 5; "Vector: Rem<S>, RemAssign<S>");
    h!(v, "C01", "vector_rem_8", vector_rem, 8; "Vector: Rem<S>, RemAssign<S>");
    h!(v, "C01", "vector_rem_9", vector_rem, 9; "Vector: Rem<S>, RemAssign<S>");
    let api = "Point: Add<Vector>, Sub<Vector>, Sub, Mul<S>, Div<S>, Rem<S>, Neg and assign forms by value and reference (dimension above 3)";
    h!(v, "C01", "point_ops_4", point_ops, 4; api);
    h!(v, "C01", "point_ops_5", point_ops, 5; api);
    h!(v, "C01", "point_ops_7", point_ops, 7; api);
    h!(v, "C01", "point_ops_8", point_ops, 8; api);
    h!(v, "C01", "point_ops_9", point_ops, 9; api);
    let api = "Vector: dot, norms, distances, scale, unscale (dimension above 4)";
    h!(v, "C02", "inner_5", inner, 5; api);
    h!(v, "C02", "inner_6", inner, 6; api);
    h!(v, "C02", "inner_7", inner, 7; api);
    h!(v, "C02", "inner_8", inner, 8; api);
    h!(v, "C02", "inner_9", inner, 9; api);
    h!(v, "C02", "inner_17", inner, 17; api);
    h!(v, "C02", "normalize_5", normalize, 5; "Vector, Unit: normalize forms (dimension above 4)");
    h!(v, "C02", "normalize_9", normalize, 9; "Vector, Unit: normalize forms (dimension above 4)");
    h!(v, "C02", "point_norms_1", point_norms, 1; "Point: norm, distance and normalize forms");
    h!(v, "C02", "point_norms_4", point_norms, 4; "Point: norm, distance and normalize forms");
    h!(v, "C02", "point_norms_5", point_norms, 5; "Point: norm, distance and normalize forms");
    h!(v, "C02", "point_norms_9", point_norms, 9; "Point: norm, distance and normalize forms");
    h!(v, "C02", "project_reflect_4", project_reflect, 4; "Vector: project, reflect");
    h!(v, "C02", "project_reflect_5", project_reflect, 5; "Vector: project, reflect");
    h!(v, "C02", "project_reflect_9", project_reflect, 9; "Vector: project, reflect");
    let api = "Vector: l1_norm, linf_norm, lp_norm, L1Norm, LinfNorm, LpNorm (one sign pattern, largest component given)";
    h!(v, "C02", "lnorms_wide_3_0", lnorms_wide, 3, 0; api);
    h!(v, "C02", "lnorms_wide_3_1", lnorms_wide, 3, 1; api);
    h!(v, "C02", "lnorms_wide_3_2", lnorms_wide, 3, 2; api);
    h!(v, "C02", "lnorms_wide_4_0", lnorms_wide, 4, 0; api);
    h!(v, "C02", "lnorms_wide_4_2", lnorms_wide, 4, 2; api);
    h!(v, "C02", "lnorms_wide_4_3", lnorms_wide, 4, 3; api);
    h!(v, "C02", "lnorms_wide_4_1", lnorms_wide, 4, 1; api);
    h!(v, "C02", "lnorms_wide_5_4", lnorms_wide, 5, 4; api);
    h!(v, "C02", "lnorms_wide_7_3", lnorms_wide, 7, 3; api);
    h!(v, "C02", "lnorms_wide_9_8", lnorms_wide, 9, 8; api);
    h!(v, "C02", "lnorms_wide_9_4", lnorms_wide, 9, 4; api);
    h!(v, "C03", "cross", cross; "Vector3: cross, triple");
}
