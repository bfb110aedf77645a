//! C04 matrix products / linear action, C05 determinant and inverse, C06 element, row, column and constructor views.
use super::*;
use crate::{forms, h};

fn mfn<S: Scal, const R: usize, const C: usize>(f: impl Fn(usize, usize) -> S) -> Matrix<S, R, C> {
    let mut m = Matrix::zero();
    for c in 0..C {
        for r in 0..R {
            m[c][r] = f(c, r);
        }
    }
    m
}
fn vfn<S: Scal, const N: usize>(f: impl Fn(usize) -> S) -> Vector<S, N> {
    let mut v = Vector::from_fill(S::zero());
    for i in 0..N {
        v[i] = f(i);
    }
    v
}
fn delta<S: Scal>(i: usize, j: usize) -> S {
    if i == j { S::one() } else { S::zero() }
}

// ------------------------------------------------------------------------- C04
macro_rules! product {
    ($name:ident, $R:literal, $K:literal, $C:literal) => {
        fn $name<S: Scal>() {
            let a = mat::<S, $R, $K>("a");
            let b = mat::<S, $K, $C>("b");
            let want = ref_mm(&a, &b);
            forms!(meq, "matrix product", a, *, b, want);
            let v = vec::<S, $C>("v");
            // composition of the two linear maps
            veq("(AB)v = A(Bv)", &((a * b) * v), &(a * (b * v)));
            meq("transpose reverses products", &(a * b).transpose(), &(b.transpose() * a.transpose()));
            let t = mat::<S, $K, $R>("t");
            meq("tr_mul", &t.tr_mul(&b), &ref_mm(&t.transpose(), &b));
        }
    };
}
macro_rules! products {
    ($v:ident; $($R:literal $K:literal $C:literal $name:ident $s:literal),*) => {
        $(product!($name, $R, $K, $C);)*
        fn register_products($v: &mut Vec<Harness>) {
            $(h!($v, "C04", $s, $name; "Matrix: Mul<Matrix> (4 reference forms), Mul<Vector>, transpose, tr_mul");)*
        }
    };
}
products!(v;
    2 5 3 p2_5_3 "product_2x5_5x3", 4 5 4 p4_5_4 "product_4x5_5x4", 3 6 1 p3_6_1 "product_3x6_6x1", 4 6 3 p4_6_3 "product_4x6_6x3", 4 7 2 p4_7_2 "product_4x7_7x2", 1 7 4 p1_7_4 "product_1x7_7x4", 1 8 4 p1_8_4 "product_1x8_8x4", 3 8 3 p3_8_3 "product_3x8_8x3", 3 9 3 p3_9_3 "product_3x9_9x3", 4 9 4 p4_9_4 "product_4x9_9x4", 1 17 1 p1_17_1 "product_1x17_17x1",
    1 1 1 p111 "product_1x1_1x1", 1 1 2 p112 "product_1x1_1x2", 1 1 3 p113 "product_1x1_1x3", 1 1 4 p114 "product_1x1_1x4",
    1 2 1 p121 "product_1x2_2x1", 1 2 2 p122 "product_1x2_2x2", 1 2 3 p123 "product_1x2_2x3", 1 2 4 p124 "product_1x2_2x4",
    1 3 1 p131 "product_1x3_3x1", 1 3 2 p132 "product_1x3_3x2", 1 3 3 p133 "product_1x3_3x3", 1 3 4 p134 "product_1x3_3x4",
    1 4 1 p141 "product_1x4_4x1", 1 4 2 p142 "product_1x4_4x2", 1 4 3 p143 "product_1x4_4x3", 1 4 4 p144 "product_1x4_4x4",
    2 1 1 p211 "product_2x1_1x1", 2 1 2 p212 "product_2x1_1x2", 2 1 3 p213 "product_2x1_1x3", 2 1 4 p214 "product_2x1_1x4",
    2 2 1 p221 "product_2x2_2x1", 2 2 2 p222 "product_2x2_2x2", 2 2 3 p223 "product_2x2_2x3", 2 2 4 p224 "product_2x2_2x4",
    2 3 1 p231 "product_2x3_3x1", 2 3 2 p232 "product_2x3_3x2", 2 3 3 p233 "product_2x3_3x3", 2 3 4 p234 "product_2x3_3x4",
    2 4 1 p241 "product_2x4_4x1", 2 4 2 p242 "product_2x4_4x2", 2 4 3 p243 "product_2x4_4x3", 2 4 4 p244 "product_2x4_4x4",
    3 1 1 p311 "product_3x1_1x1", 3 1 2 p312 "product_3x1_1x2", 3 1 3 p313 "product_3x1_1x3", 3 1 4 p314 "product_3x1_1x4",
    3 2 1 p321 "product_3x2_2x1", 3 2 2 p322 "product_3x2_2x2", 3 2 3 p323 "product_3x2_2x3", 3 2 4 p324 "product_3x2_2x4",
    3 3 1 p331 "product_3x3_3x1", 3 3 2 p332 "product_3x3_3x2", 3 3 3 p333 "product_3x3_3x3", 3 3 4 p334 "product_3x3_3x4",
    3 4 1 p341 "product_3x4_4x1", 3 4 2 p342 "product_3x4_4x2", 3 4 3 p343 "product_3x4_4x3", 3 4 4 p344 "product_3x4_4x4",
    4 1 1 p411 "product_4x1_1x1", 4 1 2 p412 "product_4x1_1x2", 4 1 3 p413 "product_4x1_1x3", 4 1 4 p414 "product_4x1_1x4",
    4 2 1 p421 "product_4x2_2x1", 4 2 2 p422 "product_4x2_2x2", 4 2 3 p423 "product_4x2_2x3", 4 2 4 p424 "product_4x2_2x4",
    4 3 1 p431 "product_4x3_3x1", 4 3 2 p432 "product_4x3_3x2", 4 3 3 p433 "product_4x3_3x3", 4 3 4 p434 "product_4x3_3x4",
    4 4 1 p441 "product_4x4_4x1", 4 4 2 p442 "product_4x4_4x2", 4 4 3 p443 "product_4x4_4x3", 4 4 4 p444 "product_4x4_4x4"
);

fn linear<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    let b = mat::<S, R, C>("b");
    let c = mat::<S, R, C>("c");
    let v = vec::<S, C>("v");
    let w = vec::<S, C>("w");
    let k = S::var("k");
    let j = S::var("j");
    forms!(veq, "matrix * vector", a, *, v, ref_mv(&a, &v));
    veq("linear", &(a * (v * k + w)), &((a * v) * k + a * w));
    veq("additive in the matrix", &((a + b) * v), &(a * v + b * v));
    forms!(meq, "add", a, +, b, mfn::<S, R, C>(|c, r| a[c][r] + b[c][r]));
    forms!(meq, "sub", a, -, b, mfn::<S, R, C>(|c, r| a[c][r] - b[c][r]));
    let ng = mfn::<S, R, C>(|c, r| S::zero() - a[c][r]);
    meq("neg", &(-a), &ng);
    meq("neg ref", &(-&a), &ng);
    let mut m = a;
    m.neg_mut();
    meq("neg_mut", &m, &ng);
    let sc = mfn::<S, R, C>(|c, r| a[c][r] * k);
    meq("scale", &(a * k), &sc);
    meq("scale ref", &(&a * k), &sc);
    let mut m = a;
    m += b;
    meq("add_assign", &m, &(a + b));
    let mut m = a;
    m += &b;
    meq("add_assign ref", &m, &(a + b));
    let mut m = a;
    m -= b;
    meq("sub_assign", &m, &(a - b));
    let mut m = a;
    m -= &b;
    meq("sub_assign ref", &m, &(a - b));
    let mut m = a;
    m *= k;
    meq("mul_assign", &m, &sc);
    let cm = mfn::<S, R, C>(|c, r| a[c][r] * b[c][r]);
    meq("component_mul", &a.component_mul(&b), &cm);
    let mut m = a;
    m.component_mul_assign(&b);
    meq("component_mul_assign", &m, &cm);
    meq("lerp", &a.lerp(&b, k), &mfn::<S, R, C>(|c, r| a[c][r] + (b[c][r] - a[c][r]) * k));
    meq("zero", &Matrix::<S, R, C>::zero(), &mfn(|_, _| S::zero()));
    meq("default", &Matrix::<S, R, C>::default(), &mfn(|_, _| S::zero()));
    meq("associative", &((a + b) + c), &(a + (b + c)));
    meq("distributive", &((a + b) * k), &(a * k + b * k));
    meq("scalar distributive", &(a * (k + j)), &(a * k + a * j));
    let t = a.transpose();
    for c in 0..C {
        for r in 0..R {
            S::h_eq("transpose", t[r][c], a[c][r]);
        }
    }
    meq("transpose twice", &a.transpose().transpose(), &a);
    let mut d = S::zero();
    for c in 0..C {
        for r in 0..R {
            d = d + a[c][r] * b[c][r];
        }
    }
    S::h_eq("dot", a.dot(&b), d);
    S::h_eq("tr_dot", a.tr_dot(&b.transpose()), d);
    let u = vec::<S, R>("u");
    S::h_eq("transpose is the adjoint", ref_dot(&u, &(a * v)), ref_dot(&(a.transpose() * u), &v));
    S::assume(k != S::zero());
    let dv = mfn::<S, R, C>(|c, r| a[c][r] / k);
    meq("div", &(a / k), &dv);
    meq("div ref", &(&a / k), &dv);
    let mut m = a;
    m /= k;
    meq("div_assign", &m, &dv);
}
fn mrem<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    let k = S::var("k");
    S::assume(k != S::zero());
    let r1 = a % k;
    let r2 = &a % k;
    let mut r3 = a;
    r3 %= k;
    for c in 0..C {
        for r in 0..R {
            for (n, x) in [("rem", r1[c][r]), ("rem ref", r2[c][r]), ("rem_assign", r3[c][r])] {
                S::h_eq(n, x, a[c][r] % k);
            }
        }
    }
}
fn norms<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    let b = mat::<S, R, C>("b");
    let k = S::var("k");
    let mut n2 = S::zero();
    let mut d2 = S::zero();
    for c in 0..C {
        for r in 0..R {
            n2 = n2 + a[c][r] * a[c][r];
            let d = a[c][r] - b[c][r];
            d2 = d2 + d * d;
        }
    }
    S::h_eq("norm_squared", a.norm_squared(), n2);
    S::h_eq("Normed::norm_squared", Normed::norm_squared(&a), n2);
    meq("neg unit", (-Unit::from_value_unchecked(a)).as_ref(), &(-a));
    meq("neg unit ref", (-&Unit::from_value_unchecked(a)).as_ref(), &(-a));
    S::h_eq("magnitude_squared", a.magnitude_squared(), n2);
    S::h_eq("metric_distance_squared", a.metric_distance_squared(&b), d2);
    S::h_eq("distance_squared", a.distance_squared(&b), d2);
    for (n, x, y) in [
        ("norm", a.norm(), n2),
        ("magnitude", a.magnitude(), n2),
        ("Normed", Normed::norm(&a), n2),
        ("FrobeniusNorm", a.apply_norm(&FrobeniusNorm::new()), n2),
        ("metric_distance", a.metric_distance(&b), d2),
        ("distance", a.distance(&b), d2),
        ("Frobenius metric", a.apply_metric_distance(&b, &FrobeniusNorm::new()), d2),
    ] {
        S::h_le(&format!("{n} >= 0"), S::zero(), x);
        S::h_eq(n, x * x, y);
    }
    meq("scale", &a.scale(k), &(a * k));
    let mut m = a;
    m.scale_mut(k);
    meq("scale_mut", &m, &(a * k));
    S::assume(n2 > S::zero());
    meq("normalize", &(a.normalize() * a.norm()), &a);
    let mut m = a;
    let n = m.normalize_mut();
    meq("normalize_mut", &(m * n), &a);
    S::h_eq("normalize_mut norm", m.norm_squared(), S::one());
    let t = S::var("t");
    S::assume(t >= S::zero());
    let over = a.norm() > t;
    match a.try_normalize(t) {
        Some(u) => {
            S::h_true("try_normalize only above the threshold", over);
            meq("try_normalize", &u, &a.normalize())
        }
        None => S::h_true("try_normalize refuses only at or below the threshold", !over),
    }
    let mut m = a;
    match m.try_normalize_mut(t) {
        Some(x) => {
            S::h_true("try_normalize_mut only above the threshold", over);
            meq("try_normalize_mut", &m, &a.normalize());
            S::h_eq("try_normalize_mut norm", x, a.norm());
        }
        None => {
            S::h_true("try_normalize_mut refuses only at or below the threshold", !over);
            meq("refusal leaves the matrix alone", &m, &a);
        }
    }
    S::assume(k != S::zero());
    meq("unscale", &a.unscale(k), &(a / k));
    let mut m = a;
    m.unscale_mut(k);
    meq("unscale_mut", &m, &(a / k));
}
fn lnorms<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    let b = mat::<S, R, C>("b");
    let ab = |m: &Matrix<S, R, C>| mfn::<S, R, C>(|c, r| if m[c][r] < S::zero() { -m[c][r] } else { m[c][r] });
    let big = |xs: &[S]| {
        let mut o = S::zero();
        for x in xs {
            if *x > o {
                o = *x;
            }
        }
        o
    };
    let one = |m: &Matrix<S, R, C>| {
        let m = ab(m);
        let cols: Vec<S> = (0..C).map(|c| (0..R).fold(S::zero(), |s, r| s + m[c][r])).collect();
        let rows: Vec<S> = (0..R).map(|r| (0..C).fold(S::zero(), |s, c| s + m[c][r])).collect();
        (big(&cols), big(&rows))
    };
    let (l1, li) = one(&a);
    S::h_eq("l1_norm is the largest column sum", a.l1_norm(), l1);
    S::h_eq("L1MatrixNorm", a.apply_norm(&L1MatrixNorm::new()), l1);
    S::h_eq("linf_norm is the largest row sum", a.linf_norm(), li);
    S::h_eq("LinfMatrixNorm", a.apply_norm(&LinfMatrixNorm::new()), li);
    let (d1, di) = one(&(a - b));
    S::h_eq("L1 metric", a.apply_metric_distance(&b, &L1MatrixNorm::new()), d1);
    S::h_eq("Linf metric", a.apply_metric_distance(&b, &LinfMatrixNorm::new()), di);
}
/// one pattern of signs; column J has the largest column sum, row K the largest row sum
fn lnorms_wide<S: Scal, const R: usize, const C: usize, const J: usize, const K: usize>() {
    let m = mat::<S, R, C>("m");
    let b = mat::<S, R, C>("b");
    for c in 0..C {
        for r in 0..R {
            S::assume(m[c][r] > S::zero());
        }
    }
    let col = |c: usize| (0..R).fold(S::zero(), |s, r| s + m[c][r]);
    let row = |r: usize| (0..C).fold(S::zero(), |s, c| s + m[c][r]);
    for i in 1..C {
        let (n, o) = if i <= J { (i, i - 1) } else { (i - 1, i) };
        S::assume(col(n) > col(o));
    }
    for i in 1..R {
        let (n, o) = if i <= K { (i, i - 1) } else { (i - 1, i) };
        S::assume(row(n) > row(o));
    }
    // every entry is negative in some and positive in other patterns, alone and together with its neighbours
    for pattern in 0..4 {
        let a = mfn::<S, R, C>(|c, r| {
            let odd = if pattern < 2 { (c + 2 * r) % 3 == 1 } else { (c * R + r) % 2 == 1 };
            if odd == (pattern % 2 == 0) { -m[c][r] } else { m[c][r] }
        });
        let s = b + a;
    S::h_eq("l1_norm is the largest column sum", a.l1_norm(), col(J));
    S::h_eq("L1MatrixNorm", a.apply_norm(&L1MatrixNorm::new()), col(J));
    S::h_eq("L1 metric", s.apply_metric_distance(&b, &L1MatrixNorm::new()), col(J));
    S::h_eq("linf_norm is the largest row sum", a.linf_norm(), row(K));
    S::h_eq("LinfMatrixNorm", a.apply_norm(&LinfMatrixNorm::new()), row(K));
    S::h_eq("Linf metric", s.apply_metric_distance(&b, &LinfMatrixNorm::new()), row(K));
    }
}
fn square<S: Scal, const N: usize>() {
    let a = mat::<S, N, N>("a");
    let d = vec::<S, N>("d");
    let k = S::var("k");
    meq("identity", &Matrix::<S, N, N>::identity(), &mfn(|c, r| delta(c, r)));
    let v = vec::<S, N>("v");
    veq("I v", &(Matrix::<S, N, N>::identity() * v), &v);
    let mut m = a;
    m.transpose_mut();
    meq("transpose_mut", &m, &mfn(|c, r| a[r][c]));
    meq("from_diagonal_value", &Matrix::<S, N, N>::from_diagonal_value(k), &mfn(|c, r| delta::<S>(c, r) * k));
    meq("from_diagonal", &Matrix::<S, N, N>::from_diagonal(&d), &mfn(|c, r| delta::<S>(c, r) * d[c]));
    let g = a.diagonal();
    let mut t = S::zero();
    S::h_true("the diagonal has as many components as the matrix has columns", g.len() == N);
    for i in 0..N {
        S::h_eq("diagonal", g[i], a[i][i]);
        t = t + a[i][i];
    }
    S::h_eq("trace", a.trace(), t);
    meq("from_scale", &Matrix::<S, N, N>::from_scale(k), &mfn(|c, r| delta::<S>(c, r) * k));
    meq("from_nonuniform_scale", &Matrix::<S, N, N>::from_nonuniform_scale(&d), &mfn(|c, r| delta::<S>(c, r) * d[c]));
    let b = mat::<S, N, N>("b");
    let mut tab = S::zero();
    for i in 0..N {
        for j in 0..N {
            tab = tab + a[j][i] * b[i][j];
        }
    }
    S::h_eq("tr(AB) as tr_dot", a.tr_dot(&b), tab);
}
fn affine_any<S: Scal, const N: usize>() {
    let k = S::var("k");
    meq("from_affine_scale", &Matrix::<S, N, N>::from_affine_scale(k), &mfn(|c, r| if c == N - 1 { delta::<S>(c, r) } else { delta::<S>(c, r) * k }));
}
fn affine_line<S: Scal>() {
    let (k, x) = (S::var("k"), S::var("x"));
    let (o, z) = (S::one(), S::zero());
    veq("scaling a line", &(Matrix2x2::from_affine_nonuniform_scale(&Vector1::new(k)) * Vector2::new(x, o)), &Vector2::new(k * x, o));
    veq("translating a line", &(Matrix2x2::from_affine_translation(&Vector1::new(k)) * Vector2::new(x, o)), &Vector2::new(k + x, o));
    veq("directions of a line", &(Matrix2x2::from_affine_translation(&Vector1::new(k)) * Vector2::new(x, z)), &Vector2::new(x, z));
}
fn is_preds<S: Scal, const N: usize>() {
    // one arbitrary entry of the zero / identity matrix is replaced by an arbitrary value
    let x = S::var("x");
    for c in 0..N {
        for r in 0..N {
            let mut m = Matrix::<S, N, N>::zero();
            m[c][r] = x;
            S::h_true("is_zero iff every entry is zero", m.is_zero() == (x == S::zero()));
            let mut m = Matrix::<S, N, N>::identity();
            m[c][r] = x;
            S::h_true("is_identity iff the identity", m.is_identity() == (x == delta::<S>(c, r)));
            S::h_true("== compares every entry", (m == Matrix::<S, N, N>::identity()) == (x == delta::<S>(c, r)));
            S::h_true("is_finite", m.is_finite());
        }
    }
}
fn is_shape_preds<S: Scal, const N: usize>() {
    let x = S::var("x");
    let d = vec::<S, N>("d");
    let tiny = S::rat(1, 1000000);
    let off = |a: S| a > tiny || a < -tiny;
    let m = Matrix::<S, N, N>::from_diagonal(&d);
    S::h_true("diagonal matrices are diagonal", m.is_diagonal());
    S::h_true("diagonal matrices are symmetric", m.is_symmetric());
    for c in 0..N {
        for r in 0..N {
            if c != r {
                let mut m = Matrix::<S, N, N>::from_diagonal(&d);
                m[c][r] = x;
                if off(x) {
                    S::h_true("an off-diagonal entry is noticed", !m.is_diagonal());
                    S::h_true("an asymmetric entry is noticed", !m.is_symmetric());
                }
                m[r][c] = x;
                S::h_true("symmetric pairs are symmetric", m.is_symmetric());
                m[r][c] = d[0];
                if off(x - d[0]) {
                    S::h_true("a mirrored entry that differs is noticed", !m.is_symmetric());
                }
            }
        }
    }
}

// ------------------------------------------------------------------------- C05
/// determinant by cofactor expansion along column 0, on index lists
fn ref_det<S: Scal, const N: usize>(m: &Matrix<S, N, N>, rows: &[usize], col: usize) -> S {
    if rows.is_empty() {
        return S::one();
    }
    let mut s = S::zero();
    for (i, r) in rows.iter().enumerate() {
        let rest: Vec<usize> = rows.iter().cloned().filter(|x| x != r).collect();
        let t = m[col][*r] * ref_det(m, &rest, col + 1);
        s = if i % 2 == 0 { s + t } else { s - t };
    }
    s
}
macro_rules! det_inv {
    ($det:ident, $inv:ident, $N:literal, $M:ident) => {
        fn $det<S: Scal>() {
            let a = mat::<S, $N, $N>("a");
            let b = mat::<S, $N, $N>("b");
            let k = S::var("k");
            let rows: Vec<usize> = (0..$N).collect();
            S::h_eq("determinant", a.determinant(), ref_det(&a, &rows, 0));
            S::h_eq("det(AB) = det A det B", (a * b).determinant(), a.determinant() * b.determinant());
            S::h_eq("det(A^T) = det A", a.transpose().determinant(), a.determinant());
            S::h_eq("det I = 1", $M::<S>::identity().determinant(), S::one());
            let mut kn = S::one();
            for _ in 0..$N {
                kn = kn * k;
            }
            S::h_eq("det(kA) = k^n det A", (a * k).determinant(), kn * a.determinant());
            for i in 0..$N {
                for j in (i + 1)..$N {
                    let mut m = a;
                    m.swap_rows(i, j);
                    S::h_eq("row exchange negates", m.determinant(), -a.determinant());
                    let mut m = a;
                    m.swap_columns(i, j);
                    S::h_eq("column exchange negates", m.determinant(), -a.determinant());
                }
            }
        }
        fn $inv<S: Scal>() {
            let a = mat::<S, $N, $N>("a");
            let i = a.try_inverse();
            let det = a.determinant();
            match i {
                Some(i) => {
                    S::h_true("inverse only for a non-zero determinant", det != S::zero());
                    meq("A^-1 A = I", &(i * a), &$M::identity());
                    meq("A A^-1 = I", &(a * i), &$M::identity());
                    meq("inverse() = try_inverse()", &a.inverse(), &i);
                    S::h_eq("det(A^-1) det(A) = 1", i.determinant() * det, S::one());
                    let v = vec::<S, $N>("v");
                    veq("A^-1 undoes A", &(i * (a * v)), &v);
                    let tiny = S::rat(1, 1000000);
                    if det > tiny || det < -tiny {
                        S::h_true("is_invertible away from zero", a.is_invertible());
                        if $N < 4 {
                            meq("(A^-1)^-1 = A", &i.inverse(), &a);
                        }
                        meq("(A^T)^-1 = (A^-1)^T", &a.transpose().inverse(), &i.transpose());
                    }
                }
                None => {
                    S::h_eq("refused only for a zero determinant", det, S::zero());
                    S::h_true("is_invertible agrees", !a.is_invertible());
                }
            }
        }
    };
}
det_inv!(det1, inv1, 1, Matrix1x1);
det_inv!(det2, inv2, 2, Matrix2x2);
det_inv!(det3, inv3, 3, Matrix3x3);
det_inv!(det4, inv4, 4, Matrix4x4);
macro_rules! inv_product {
    ($f:ident, $N:literal) => {
        fn $f<S: Scal>() {
            let a = mat::<S, $N, $N>("a");
            let b = mat::<S, $N, $N>("b");
            S::assume(a.determinant() != S::zero());
            S::assume(b.determinant() != S::zero());
            meq("(AB)^-1 = B^-1 A^-1", &(a * b).inverse(), &(b.inverse() * a.inverse()));
        }
    };
}
inv_product!(invp2, 2);
inv_product!(invp3, 3);

// ------------------------------------------------------------------------- C06
fn views<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    S::h_true("shape", a.shape() == (R, C) && a.len() == R * C && !a.is_empty() && a.is_square() == (R == C));
    let mut arr = [[S::zero(); R]; C];
    let mut cols = [Vector::<S, R>::from_fill(S::zero()); C];
    let mut rows = [Vector::<S, C>::from_fill(S::zero()); R];
    for c in 0..C {
        for r in 0..R {
            arr[c][r] = a[c][r];
            cols[c][r] = a[c][r];
            rows[r][c] = a[c][r];
            S::h_eq("(column, row) index", a[(c, r)], a[c][r]);
            let mut m = a;
            let x = S::var("x");
            m[(c, r)] = x;
            for cc in 0..C {
                for rr in 0..R {
                    S::h_eq("index_mut changes exactly one entry", m[cc][rr], if (cc, rr) == (c, r) { x } else { a[cc][rr] });
                }
            }
        }
    }
    meq("from nested array", &Matrix::<S, R, C>::from(arr), &a);
    meq("from nested array ref", <&Matrix<S, R, C>>::from(&arr), &a);
    meq("from column array ref", <&Matrix<S, R, C>>::from(&cols), &a);
    meq("from_columns", &Matrix::<S, R, C>::from_columns(&cols), &a);
    meq("from_rows", &Matrix::<S, R, C>::from_rows(&rows), &a);
    let back: &[[S; R]; C] = a.as_ref();
    let backv: &[Vector<S, R>; C] = a.as_ref();
    for c in 0..C {
        veq("column", &a.column(c), &cols[c]);
        for r in 0..R {
            S::h_eq("as_ref nested", back[c][r], a[c][r]);
            S::h_eq("as_ref columns", backv[c][r], a[c][r]);
        }
    }
    for r in 0..R {
        veq("row", &a.row(r), &rows[r]);
    }
    let k = S::var("k");
    meq("from_fill", &Matrix::<S, R, C>::from_fill(k), &mfn(|_, _| k));
    meq("map", &a.map(|x| x * k), &mfn(|c, r| a[c][r] * k));
    for i in 0..R {
        for j in 0..R {
            let mut m = a;
            m.swap_rows(i, j);
            meq("swap_rows", &m, &mfn(|c, r| a[c][if r == i { j } else if r == j { i } else { r }]));
        }
    }
    for i in 0..C {
        for j in 0..C {
            let mut m = a;
            m.swap_columns(i, j);
            meq("swap_columns", &m, &mfn(|c, r| a[if c == i { j } else if c == j { i } else { c }][r]));
        }
    }
    for c in 0..C {
        for r in 0..R {
            for (c2, r2) in [(0, 0), (C - 1, R - 1), (c, 0), (0, r), (C - 1, r), (c, R - 1)] {
                let mut m = a;
                m.swap((c, r), (c2, r2));
                meq("swap", &m, &mfn(|x, y| if (x, y) == (c, r) { a[c2][r2] } else if (x, y) == (c2, r2) { a[c][r] } else { a[x][y] }));
            }
        }
    }
}
macro_rules! embed {
    ($f:ident, $M:literal, $N:literal) => {
        fn $f<S: Scal>() {
            let a = mat::<S, $M, $M>("a");
            let want = mfn::<S, $N, $N>(|c, r| if c < $M && r < $M { a[c][r] } else { delta(c, r) });
            meq("embedding pads with the identity", &Matrix::<S, $N, $N>::from(a), &want);
            meq("embedding by reference", &Matrix::<S, $N, $N>::from(&a), &want);
            let b = mat::<S, $M, $M>("b");
            meq("embedding is multiplicative", &(Matrix::<S, $N, $N>::from(a) * Matrix::<S, $N, $N>::from(b)), &Matrix::<S, $N, $N>::from(a * b));
        }
    };
}
embed!(embed12, 1, 2);
embed!(embed13, 1, 3);
embed!(embed14, 1, 4);
embed!(embed23, 2, 3);
embed!(embed24, 2, 4);
embed!(embed34, 3, 4);
fn cross_matrix<S: Scal>() {
    let a = vec::<S, 3>("a");
    let b = vec::<S, 3>("b");
    veq("cross_matrix(a) b = a x b", &(Matrix3x3::cross_matrix(&a) * b), &a.cross(&b));
    meq("skew symmetric", &Matrix3x3::cross_matrix(&a).transpose(), &(-Matrix3x3::cross_matrix(&a)));
}
macro_rules! ctor {
    ($f:ident, $M:ident, $R:literal, $C:literal, $RC:literal; $($n:ident $c:literal $r:literal),*) => {
        fn $f<S: Scal>() {
            $(let $n = S::var(stringify!($n));)*
            let m = $M::<S>::new($($n),*);
            $(
                S::h_eq("new puts entries in column-major order", m[$c][$r], $n);
                S::h_eq("named entry", m.$n, $n);
                {
                    let x = S::var("x");
                    let mut w = m;
                    w.$n = x;
                    for c in 0..$C { for r in 0..$R {
                        S::h_eq("named entry assignment", w[c][r], if (c, r) == ($c, $r) { x } else { m[c][r] });
                    } }
                }
            )*
            let flat: [S; $RC] = [$($n),*];
            meq("from flat array", &$M::<S>::from(flat), &m);
            meq("from flat array ref", <&$M<S>>::from(&flat), &m);
            let back: &[S; $RC] = m.as_ref();
            let sl = m.as_slice();
            S::h_true("slice length", sl.len() == $RC);
            for i in 0..$RC {
                S::h_eq("flat view", back[i], flat[i]);
                S::h_eq("slice view", sl[i], flat[i]);
            }
            let mut w = m;
            let x = S::var("x");
            for i in 0..$RC {
                let b: &mut [S; $RC] = w.as_mut();
                b[i] = x;
                S::h_eq("as_mut flat", w[i / $R][i % $R], x);
                b_restore::<S, $R, $C>(&mut w, &m);
                let b: &mut [[S; $R]; $C] = w.as_mut();
                b[i / $R][i % $R] = x;
                S::h_eq("as_mut nested", w[(i / $R, i % $R)], x);
                b_restore::<S, $R, $C>(&mut w, &m);
                let b: &mut [Vector<S, $R>; $C] = w.as_mut();
                b[i / $R][i % $R] = x;
                S::h_eq("as_mut columns", w[(i / $R, i % $R)], x);
                b_restore::<S, $R, $C>(&mut w, &m);
            }
        }
    };
}
fn b_restore<S: Scal, const R: usize, const C: usize>(w: &mut Matrix<S, R, C>, m: &Matrix<S, R, C>) {
    *w = *m;
}
fn matrix_lerp<S: Scal, const R: usize, const C: usize>() {
    let a = mat::<S, R, C>("a");
    let b = mat::<S, R, C>("b");
    let t = S::var("t");
    meq("lerp at 0", &a.lerp(&b, S::zero()), &a);
    meq("lerp at 1", &a.lerp(&b, S::one()), &b);
    meq("lerp is affine", &a.lerp(&b, t), &mfn::<S, R, C>(|c, r| a[c][r] * (S::one() - t) + b[c][r] * t));
    meq("lerp from the other end", &b.lerp(&a, S::one() - t), &a.lerp(&b, t));
}
macro_rules! invertible {
    ($f:ident, $N:literal) => {
        fn $f<S: Scal>() {
            let a = mat::<S, $N, $N>("a");
            let det = a.determinant();
            let tiny = S::rat(1, 1000000);
            if det > tiny || det < -tiny {
                S::h_true("is_invertible away from zero", a.is_invertible());
            } else if det == S::zero() {
                S::h_true("singular matrices are not invertible", !a.is_invertible());
            }
        }
    };
}
invertible!(invertible1, 1);
invertible!(invertible2, 2);
invertible!(invertible3, 3);
invertible!(invertible4, 4);
fn to_scalar<S: Scal>() {
    let m = mat::<S, 1, 1>("m");
    S::h_eq("to_scalar", m.to_scalar(), m[0][0]);
}
ctor!(new11, Matrix1x1, 1, 1, 1; c0r0 0 0);
ctor!(new22, Matrix2x2, 2, 2, 4; c0r0 0 0, c0r1 0 1, c1r0 1 0, c1r1 1 1);
ctor!(new33, Matrix3x3, 3, 3, 9; c0r0 0 0, c0r1 0 1, c0r2 0 2, c1r0 1 0, c1r1 1 1, c1r2 1 2, c2r0 2 0, c2r1 2 1, c2r2 2 2);
ctor!(new44, Matrix4x4, 4, 4, 16; c0r0 0 0, c0r1 0 1, c0r2 0 2, c0r3 0 3, c1r0 1 0, c1r1 1 1, c1r2 1 2, c1r3 1 3, c2r0 2 0, c2r1 2 1, c2r2 2 2, c2r3 2 3, c3r0 3 0, c3r1 3 1, c3r2 3 2, c3r3 3 3);
ctor!(new12, Matrix1x2, 1, 2, 2; c0r0 0 0, c1r0 1 0);
ctor!(new13, Matrix1x3, 1, 3, 3; c0r0 0 0, c1r0 1 0, c2r0 2 0);
ctor!(new14, Matrix1x4, 1, 4, 4; c0r0 0 0, c1r0 1 0, c2r0 2 0, c3r0 3 0);
ctor!(new23, Matrix2x3, 2, 3, 6; c0r0 0 0, c0r1 0 1, c1r0 1 0, c1r1 1 1, c2r0 2 0, c2r1 2 1);
ctor!(new32, Matrix3x2, 3, 2, 6; c0r0 0 0, c0r1 0 1, c0r2 0 2, c1r0 1 0, c1r1 1 1, c1r2 1 2);
ctor!(new24, Matrix2x4, 2, 4, 8; c0r0 0 0, c0r1 0 1, c1r0 1 0, c1r1 1 1, c2r0 2 0, c2r1 2 1, c3r0 3 0, c3r1 3 1);
ctor!(new42, Matrix4x2, 4, 2, 8; c0r0 0 0, c0r1 0 1, c0r2 0 2, c0r3 0 3, c1r0 1 0, c1r1 1 1, c1r2 1 2, c1r3 1 3);
ctor!(new34, Matrix3x4, 3, 4, 12; c0r0 0 0, c0r1 0 1, c0r2 0 2, c1r0 1 0, c1r1 1 1, c1r2 1 2, c2r0 2 0, c2r1 2 1, c2r2 2 2, c3r0 3 0, c3r1 3 1, c3r2 3 2);
ctor!(new43, Matrix4x3, 4, 3, 12; c0r0 0 0, c0r1 0 1, c0r2 0 2, c0r3 0 3, c1r0 1 0, c1r1 1 1, c1r2 1 2, c1r3 1 3, c2r0 2 0, c2r1 2 1, c2r2 2 2, c2r3 2 3);

macro_rules! shapes {
    ($v:ident, $prop:literal, $pre:literal, $f:ident, $api:expr; $($R:literal $C:literal),*) => {
        $(h!($v, $prop, concat!($pre, "_", $R, "x", $C), $f, $R, $C; $api);)*
    };
}
pub fn register(v: &mut Vec<Harness>) {
    register_products(v);
    let api = "Matrix: Add, Sub, Neg, Mul<S>, Div<S> and assign forms by value and reference, Mul<Vector>, neg_mut, component_mul(_assign), lerp, zero, default, transpose, dot, tr_dot";
    shapes!(v, "C04", "linear", linear, api; 1 1, 1 2, 1 3, 1 4, 2 1, 2 2, 2 3, 2 4, 3 1, 3 2, 3 3, 3 4, 4 1, 4 2, 4 3, 4 4);
    shapes!(v, "C04", "rem", mrem, "Matrix: Rem<S>, RemAssign<S>"; 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 4 3, 3 4, 4 4);
    shapes!(v, "C04", "norms", norms, "Matrix: norm, norm_squared, magnitude, metric_distance, Normed, FrobeniusNorm, normalize, try_normalize, scale, unscale"; 1 2, 2 2, 2 3, 3 3, 4 4);
    shapes!(v, "C04", "lnorms", lnorms, "Matrix: l1_norm, linf_norm, L1MatrixNorm, LinfMatrixNorm"; 1 2, 2 1);
    h!(v, "C04", "lnorms_2x2", lnorms, 2, 2; "Matrix: l1_norm, linf_norm, L1MatrixNorm, LinfMatrixNorm", thorough);
    let api = "Matrix: l1_norm, linf_norm, L1MatrixNorm, LinfMatrixNorm (one sign pattern, largest row and column given)";
    h!(v, "C04", "lnorms_wide_2x2", lnorms_wide, 2, 2, 0, 1; api);
    h!(v, "C04", "lnorms_wide_2x2b", lnorms_wide, 2, 2, 1, 0; api);
    h!(v, "C04", "lnorms_wide_2x3", lnorms_wide, 2, 3, 2, 0; api);
    h!(v, "C04", "lnorms_wide_3x2", lnorms_wide, 3, 2, 0, 2; api);
    h!(v, "C04", "lnorms_wide_3x3", lnorms_wide, 3, 3, 1, 2; api);
    h!(v, "C04", "lnorms_wide_3x3b", lnorms_wide, 3, 3, 0, 1; api);
    h!(v, "C04", "lnorms_wide_3x3c", lnorms_wide, 3, 3, 2, 0; api);
    h!(v, "C04", "lnorms_wide_4x4", lnorms_wide, 4, 4, 3, 1; api);
    h!(v, "C04", "lnorms_wide_4x4b", lnorms_wide, 4, 4, 0, 3; api);
    h!(v, "C04", "lnorms_wide_4x4c", lnorms_wide, 4, 4, 1, 2; api);
    h!(v, "C04", "lnorms_wide_4x4d", lnorms_wide, 4, 4, 2, 0; api);
    h!(v, "C04", "lnorms_wide_5x6", lnorms_wide, 5, 6, 5, 4; api);
    shapes!(v, "C13", "matrix_lerp", matrix_lerp, "Matrix::lerp"; 1 2, 2 2, 2 3, 3 2, 3 3, 4 4, 5 3);
    h!(v, "C06", "invertible_1", invertible1; "Matrix1x1::is_invertible");
    h!(v, "C06", "invertible_2", invertible2; "Matrix2x2::is_invertible");
    h!(v, "C06", "invertible_3", invertible3; "Matrix3x3::is_invertible");
    h!(v, "C06", "invertible_4", invertible4; "Matrix4x4::is_invertible");
    // shapes beyond the named aliases
    let api = "Matrix: entrywise operations, Mul<Vector>, transpose, dot (shapes beyond 4x4)";
    shapes!(v, "C04", "linear", linear, api; 5 3, 3 5, 5 5, 6 7, 8 8, 9 2, 2 9);
    shapes!(v, "C04", "rem", mrem, "Matrix: Rem<S>, RemAssign<S>"; 5 3, 3 5, 5 5);
    shapes!(v, "C04", "norms", norms, "Matrix: norms, normalize (shapes beyond 4x4)"; 5 3, 3 5, 5 5);
    h!(v, "C04", "square_5", square, 5; "Matrix<N, N> beyond 4");
    h!(v, "C04", "square_6", square, 6; "Matrix<N, N> beyond 4");
    h!(v, "C04", "square_8", square, 8; "Matrix<N, N> beyond 4");
    h!(v, "C04", "square_9", square, 9; "Matrix<N, N> beyond 4");
    h!(v, "C18", "affine_scale_2", affine_any, 2; "Matrix<N, N>::from_affine_scale in any dimension");
    h!(v, "C18", "affine_scale_5", affine_any, 5; "Matrix<N, N>::from_affine_scale in any dimension");
    h!(v, "C18", "affine_scale_6", affine_any, 6; "Matrix<N, N>::from_affine_scale in any dimension");
    h!(v, "C18", "affine_line", affine_line; "Matrix2x2: from_affine_nonuniform_scale, from_affine_translation");
    h!(v, "C06", "predicates_5", is_preds, 5; "Matrix: is_zero, is_identity, PartialEq, is_finite");
    h!(v, "C06", "predicates_6", is_preds, 6; "Matrix: is_zero, is_identity, PartialEq, is_finite");
    h!(v, "C06", "shape_predicates_5", is_shape_preds, 5; "Matrix: is_diagonal, is_symmetric");
    shapes!(v, "C06", "views", views, "Matrix: index, rows, columns, arrays, swaps (shapes beyond 4x4)"; 5 3, 3 5, 5 5, 6 4, 9 2, 2 9);
    let api = "Matrix<N, N>: identity, transpose_mut, from_diagonal(_value), diagonal, trace, from_scale, from_nonuniform_scale, tr_dot";
    h!(v, "C04", "square_1", square, 1; api);
    h!(v, "C04", "square_2", square, 2; api);
    h!(v, "C04", "square_3", square, 3; api);
    h!(v, "C04", "square_4", square, 4; api);
    let api = "Matrix: is_zero, is_identity, PartialEq, is_finite";
    h!(v, "C06", "predicates_1", is_preds, 1; api);
    h!(v, "C06", "predicates_2", is_preds, 2; api);
    h!(v, "C06", "predicates_3", is_preds, 3; api);
    h!(v, "C06", "predicates_4", is_preds, 4; api);
    h!(v, "C06", "shape_predicates_2", is_shape_preds, 2; "Matrix: is_diagonal, is_symmetric");
    h!(v, "C06", "shape_predicates_3", is_shape_preds, 3; "Matrix: is_diagonal, is_symmetric");
    h!(v, "C06", "shape_predicates_4", is_shape_preds, 4; "Matrix: is_diagonal, is_symmetric");
    h!(v, "C05", "det_1", det1; "Matrix1x1::determinant, swap_rows, swap_columns, transpose, Mul");
    h!(v, "C05", "det_2", det2; "Matrix2x2::determinant, swap_rows, swap_columns, transpose, Mul");
    h!(v, "C05", "det_3", det3; "Matrix3x3::determinant, swap_rows, swap_columns, transpose, Mul");
    h!(v, "C05", "det_4", det4; "Matrix4x4::determinant, swap_rows, swap_columns, transpose, Mul");
    h!(v, "C05", "inverse_1", inv1; "Matrix1x1: try_inverse, inverse, is_invertible, determinant");
    h!(v, "C05", "inverse_2", inv2; "Matrix2x2: try_inverse, inverse, is_invertible, determinant");
    h!(v, "C05", "inverse_3", inv3; "Matrix3x3: try_inverse, inverse, is_invertible, determinant");
    h!(v, "C05", "inverse_4", inv4; "Matrix4x4: try_inverse, inverse, is_invertible, determinant");
    h!(v, "C05", "inverse_product_2", invp2; "Matrix2x2: inverse of a product");
    h!(v, "C05", "inverse_product_3", invp3; "Matrix3x3: inverse of a product");
    let api = "Matrix: shape, len, Index, IndexMut, From arrays, from_columns, from_rows, from_fill, map, row, column, swap_rows, swap_columns, swap, AsRef";
    shapes!(v, "C06", "views", views, api; 1 1, 1 2, 1 3, 1 4, 2 1, 2 2, 2 3, 2 4, 3 1, 3 2, 3 3, 3 4, 4 1, 4 2, 4 3, 4 4);
    h!(v, "C06", "embed_1_2", embed12; "Matrix2x2::from(Matrix1x1)");
    h!(v, "C06", "embed_1_3", embed13; "Matrix3x3::from(Matrix1x1)");
    h!(v, "C06", "embed_1_4", embed14; "Matrix4x4::from(Matrix1x1)");
    h!(v, "C06", "embed_2_3", embed23; "Matrix3x3::from(Matrix2x2)");
    h!(v, "C06", "embed_2_4", embed24; "Matrix4x4::from(Matrix2x2)");
    h!(v, "C06", "embed_3_4", embed34; "Matrix4x4::from(Matrix3x3)");
    h!(v, "C06", "cross_matrix", cross_matrix; "Matrix3x3::cross_matrix");
    let api = "Matrix::new, named entries (Deref/DerefMut), From<[S; R*C]>, as_slice, AsRef/AsMut flat, nested and column arrays";
    h!(v, "C06", "to_scalar", to_scalar; "Matrix1x1::to_scalar");
    h!(v, "C06", "new_1x1", new11; api);
    h!(v, "C06", "new_2x2", new22; api);
    h!(v, "C06", "new_3x3", new33; api);
    h!(v, "C06", "new_4x4", new44; api);
    h!(v, "C06", "new_1x2", new12; api);
    h!(v, "C06", "new_1x3", new13; api);
    h!(v, "C06", "new_1x4", new14; api);
    h!(v, "C06", "new_2x3", new23; api);
    h!(v, "C06", "new_3x2", new32; api);
    h!(v, "C06", "new_2x4", new24; api);
    h!(v, "C06", "new_4x2", new42; api);
    h!(v, "C06", "new_3x4", new34; api);
    h!(v, "C06", "new_4x3", new43; api);
}
