//! C28: printed values show their components in order; C23: the values reported by the asserting forms of transformations.
use super::*;
use crate::h;

/// The leaves of a printed value, in order: numbers, `Sym(..)`, `Some(..)`, `None`. Names and punctuation are skipped.
pub fn leaves(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let num = |mut j: usize| {
        if j < c.len() && c[j] == '-' {
            j += 1;
        }
        let s = j;
        while j < c.len() && (c[j].is_ascii_digit() || (c[j] == '.' && j + 1 < c.len() && c[j + 1].is_ascii_digit())) {
            j += 1;
        }
        if j > s && j + 1 < c.len() && c[j] == 'e' {
            let mut e = j + 1;
            if c[e] == '-' {
                e += 1;
            }
            let q = e;
            while e < c.len() && c[e].is_ascii_digit() {
                e += 1;
            }
            if e > q {
                j = e;
            }
        }
        (j > s, j)
    };
    while i < c.len() {
        if c[i].is_alphabetic() || c[i] == '_' {
            // the imaginary unit is written before its factor
            if c[i] == 'i' && i + 1 < c.len() && (c[i + 1].is_ascii_digit() || c[i + 1] == '-' || (c[i + 1] == 'S' && i + 5 < c.len() && c[i + 4] == '(')) {
                i += 1;
                continue;
            }
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let w: String = c[s..i].iter().collect();
            if (w == "Sym" || w == "Some") && i < c.len() && c[i] == '(' {
                while c[i] != ')' {
                    i += 1;
                }
                i += 1;
                out.push(c[s..i].iter().collect());
            } else if w == "None" {
                out.push(w);
            }
            continue;
        }
        let (ok, j) = num(i);
        if ok {
            out.push(c[i..j].iter().collect());
            i = j;
        } else {
            i += 1;
        }
    }
    out
}
/// The printed value, the segments of its named fields put into the order given (as printed if a name is missing).
fn by_name(s: &str, names: &[&str]) -> Vec<String> {
    let mut at: Vec<(usize, usize)> = vec![];
    for (k, n) in names.iter().enumerate() {
        for sep in [": ", "="] {
            let pat = format!("{n}{sep}");
            if let Some(p) = s.find(&pat) {
                at.push((p, k));
                break;
            }
        }
    }
    if names.is_empty() || at.len() != names.len() {
        return leaves(s);
    }
    at.sort();
    let mut seg = vec![vec![]; names.len()];
    for (i, &(p, k)) in at.iter().enumerate() {
        let e = if i + 1 < at.len() { at[i + 1].0 } else { s.len() };
        seg[k] = leaves(&s[p..e]);
    }
    seg.concat()
}
fn shown<S: Scal>(what: &str, text: &str, names: &[&str], want: &[S]) {
    let l = by_name(text, names);
    let got: Vec<S> = l.iter().filter_map(|x| S::parse(x)).collect();
    S::h_true(&format!("{what}: as many numbers as components"), got.len() == want.len());
    for (i, w) in want.iter().enumerate() {
        if i < got.len() {
            S::h_eq(&format!("{what}: number {i}"), got[i], *w);
        }
    }
}
fn flat<S: Scal, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> Vec<S> {
    (0..R * C).map(|i| m[i / R][i % R]).collect()
}
fn flatv<S: Scal, const N: usize>(v: &Vector<S, N>) -> Vec<S> {
    (0..N).map(|i| v[i]).collect()
}
fn flatp<S: Scal, const N: usize>(v: &Point<S, N>) -> Vec<S> {
    (0..N).map(|i| v[i]).collect()
}
fn d_vec<S: Scal, const N: usize>() {
    let v = vec::<S, N>("v");
    shown("Display", &v.to_string(), &[], &flatv(&v));
    shown("Debug", &format!("{v:?}"), &[], &flatv(&v));
    shown("Unit Display", &Unit::from_value_unchecked(v).to_string(), &[], &flatv(&v));
}
fn d_pnt<S: Scal, const N: usize>() {
    let v = pnt::<S, N>("v");
    shown("Display", &v.to_string(), &[], &flatp(&v));
    shown("Debug", &format!("{v:?}"), &[], &flatp(&v));
}
fn d_mat<S: Scal, const R: usize, const C: usize>() {
    let m = mat::<S, R, C>("m");
    shown("Display", &m.to_string(), &[], &flat(&m));
    shown("Debug", &format!("{m:?}"), &[], &flat(&m));
    shown("Unit Display", &Unit::from_value_unchecked(m).to_string(), &[], &flat(&m));
}
fn d_quat<S: Scal>() {
    let q = quat::<S>("q");
    let w = [q[0], q[1], q[2], q[3]];
    shown("Display", &q.to_string(), &[], &w);
    shown("Debug", &format!("{q:?}"), &[], &w);
    shown("Unit Display", &Unit::from_value_unchecked(q).to_string(), &[], &w);
}
fn d_cplx<S: Scal>() {
    let z = cplx::<S>("z");
    let w = [z.re, z.im];
    shown("Display", &z.to_string(), &[], &w);
    shown("Debug", &format!("{z:?}"), &["re", "im"], &w);
    shown("Unit Display", &Unit::from_value_unchecked(z).to_string(), &[], &w);
}
fn d_ang<S: Scal>() {
    let (x, y, z) = (S::var("x"), S::var("y"), S::var("z"));
    shown("Radians Display", &Radians(x).to_string(), &[], &[x]);
    shown("Degrees Display", &Degrees(x).to_string(), &[], &[x]);
    shown("Radians Debug", &format!("{:?}", Radians(x)), &[], &[x]);
    let e = Euler::new(Radians(x), Radians(y), Radians(z));
    shown("Euler Display", &e.to_string(), &["roll", "yaw", "pitch"], &[x, y, z]);
    let e = Euler::new(Degrees(x), Degrees(y), Degrees(z));
    shown("Euler Display degrees", &e.to_string(), &["roll", "yaw", "pitch"], &[x, y, z]);
}
pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C28", "vector1", d_vec, 1; "Vector1: Display, Debug, Unit Display");
    h!(v, "C28", "vector2", d_vec, 2; "Vector2: Display, Debug, Unit Display");
    h!(v, "C28", "vector3", d_vec, 3; "Vector3: Display, Debug, Unit Display");
    h!(v, "C28", "vector4", d_vec, 4; "Vector4: Display, Debug, Unit Display");
    h!(v, "C28", "point1", d_pnt, 1; "Point1: Display, Debug");
    h!(v, "C28", "point2", d_pnt, 2; "Point2: Display, Debug");
    h!(v, "C28", "point3", d_pnt, 3; "Point3: Display, Debug");
    h!(v, "C28", "vector5", d_vec, 5; "Vector<5>: Display, Debug, Unit Display");
    h!(v, "C28", "vector9", d_vec, 9; "Vector<9>: Display, Debug, Unit Display");
    h!(v, "C28", "point4", d_pnt, 4; "Point<4>: Display, Debug");
    h!(v, "C28", "point5", d_pnt, 5; "Point<5>: Display, Debug");
    h!(v, "C28", "matrix5x3", d_mat, 5, 3; "Matrix<5, 3>: Display, Debug");
    h!(v, "C28", "matrix3x5", d_mat, 3, 5; "Matrix<3, 5>: Display, Debug");
    h!(v, "C28", "matrix1x1", d_mat, 1, 1; "Matrix1x1: Display, Debug");
    h!(v, "C28", "matrix2x2", d_mat, 2, 2; "Matrix2x2: Display, Debug");
    h!(v, "C28", "matrix3x3", d_mat, 3, 3; "Matrix3x3: Display, Debug");
    h!(v, "C28", "matrix4x4", d_mat, 4, 4; "Matrix4x4: Display, Debug");
    h!(v, "C28", "matrix1x3", d_mat, 1, 3; "Matrix1x3: Display, Debug");
    h!(v, "C28", "matrix2x3", d_mat, 2, 3; "Matrix2x3: Display, Debug");
    h!(v, "C28", "matrix2x4", d_mat, 2, 4; "Matrix2x4: Display, Debug");
    h!(v, "C28", "matrix3x2", d_mat, 3, 2; "Matrix3x2: Display, Debug");
    h!(v, "C28", "matrix4x3", d_mat, 4, 3; "Matrix4x3: Display, Debug");
    h!(v, "C28", "matrix4x1", d_mat, 4, 1; "Matrix4x1: Display, Debug");
    h!(v, "C28", "quaternion", d_quat; "Quaternion: Display, Debug");
    h!(v, "C28", "complex", d_cplx; "Complex: Display, Debug");
    h!(v, "C28", "angles", d_ang; "Radians, Degrees, Euler: Display, Debug");
    #[cfg(feature = "transform")]
    tr::register(v);
}

#[cfg(feature = "transform")]
mod tr {
    use super::*;
    use approx_cmp::*;
    use cglinalg_transform::*;
    use core::fmt::Debug;

    fn rot2<S: Scal>(n: &str) -> Rotation2<S> {
        Rotation2::from_angle(Radians(S::var(n)))
    }
    fn rot3<S: Scal>(n: &str) -> Rotation3<S> {
        Rotation3::from_axis_angle(&unit3::<S>(n), Radians(S::var(&format!("{n}a"))))
    }
    fn unitv<S: Scal, const N: usize>(n: &str) -> Unit<Vector<S, N>> {
        Unit::from_value_unchecked(vec::<S, N>(n))
    }
    /// translation, scale, reflection, shear
    fn simple<S: Scal, const N: usize>() {
        let v = vec::<S, N>("v");
        shown("Translation Display", &Translation::from_vector(&v).to_string(), &[], &flatv(&v));
        shown("Scale Display", &Scale::from_nonuniform_scale(&v).to_string(), &[], &flatv(&v));
        let (n, b) = (unitv::<S, N>("n"), pnt::<S, N>("b"));
        let w = [flatv(n.as_ref()), flatp(&b)].concat();
        shown("Reflection Display", &Reflection::from_normal_bias(&n, &b).to_string(), &["normal", "bias"], &w);
        let (k, d) = (S::var("k"), unitv::<S, N>("d"));
        let w = [vec![k], flatp(&b), flatv(d.as_ref()), flatv(n.as_ref())].concat();
        shown("Shear Display", &Shear::from_affine_shear(k, &b, &d, &n).to_string(), &["shear_factor", "origin", "direction", "normal"], &w);
    }
    macro_rules! rigid {
        ($f:ident, $n:literal, $m:literal, $mk:ident) => {
            fn $f<S: Scal>() {
                let r = $mk::<S>("r");
                let v = vec::<S, $n>("v");
                let k = S::var("k");
                let t = Translation::from_vector(&v);
                let m = flat(r.matrix());
                shown("Rotation Display", &r.to_string(), &[], &m);
                shown("Isometry Display", &Isometry::from_parts(&t, &r).to_string(), &["rotation", "translation"], &[m.clone(), flatv(&v)].concat());
                shown("Similarity Display", &Similarity::from_parts(&t, &r, k).to_string(), &["rotation", "translation", "scale"], &[m.clone(), flatv(&v), vec![k]].concat());
                let g = mat::<S, $m, $m>("g");
                shown("Transform Display", &Transform::<S, $n, $m>::from_matrix_unchecked(g).to_string(), &[], &flat(&g));
            }
        };
    }
    rigid!(rigid2, 2, 3, rot2);
    rigid!(rigid3, 3, 4, rot3);
    fn volume<S: Scal>(sfx: &str) -> [S; 6] {
        let a: [S; 6] = core::array::from_fn(|i| S::var(&format!("{}{sfx}", ["l", "r", "b", "t", "n", "f"][i])));
        for x in a {
            S::assume(x > S::zero());
        }
        S::assume(a[4] < a[5]);
        a
    }
    fn persp<S: Scal>(s: &str) -> Perspective3<S> {
        let a = volume::<S>(s);
        Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[5])
    }
    fn ortho<S: Scal>(s: &str) -> Orthographic3<S> {
        let a = volume::<S>(s);
        Orthographic3::new(a[0], a[1], a[2], a[3], a[4], a[5])
    }
    fn projections<S: Scal>() {
        let p = persp::<S>("");
        shown("Perspective3 Display", &p.to_string(), &[], &flat(p.matrix()));
        let o = ortho::<S>("");
        shown("Orthographic3 Display", &o.to_string(), &[], &flat(o.matrix()));
    }

    // ---- C23
    /// Everything the asserting forms report, for values with components `x`, `y` (as named by `names`).
    fn reports<S: Scal, T>(
        a: &T,
        b: &T,
        x: &[S],
        y: &[S],
        names: &[&str],
        tol: impl Fn(&[S]) -> <T as AbsDiffEq>::Tolerance,
        utol: impl Fn(&[S::IntegerRepr]) -> <T as UlpsEq>::UlpsTolerance,
    ) where
        T: AssertAbsDiffEq + AssertRelativeEq + AssertUlpsEq + AssertAbsDiffAllEq + AssertRelativeAllEq + AssertUlpsAllEq,
        T: RelativeEq<Tolerance = <T as AbsDiffEq>::Tolerance> + UlpsEq<Tolerance = <T as AbsDiffEq>::Tolerance>,
        T: AbsDiffAllEq<AllTolerance = S> + RelativeAllEq<AllTolerance = S> + UlpsAllEq<AllTolerance = S, AllUlpsTolerance = S::IntegerRepr>,
        <T as AssertAbsDiffEq>::DebugAbsDiff: Debug,
        <T as AssertAbsDiffEq>::DebugTolerance: Debug,
        <T as AssertAbsDiffAllEq>::AllDebugTolerance: Debug,
        <T as AssertRelativeEq>::DebugAbsDiff: Debug,
        <T as AssertRelativeEq>::DebugTolerance: Debug,
        <T as AssertRelativeAllEq>::AllDebugTolerance: Debug,
        <T as AssertUlpsEq>::DebugAbsDiff: Debug,
        <T as AssertUlpsEq>::DebugUlpsDiff: Debug,
        <T as AssertUlpsEq>::DebugTolerance: Debug,
        <T as AssertUlpsEq>::DebugUlpsTolerance: Debug,
        <T as AssertUlpsAllEq>::AllDebugTolerance: Debug,
        <T as AssertUlpsAllEq>::AllDebugUlpsTolerance: Debug,
    {
        let n = x.len();
        let t: Vec<S> = (0..n).map(|i| S::var(&format!("t{i}"))).collect();
        let s = S::var("s");
        let all = vec![s; n];
        let diff: Vec<S> = (0..n).map(|i| AssertAbsDiffEq::debug_abs_diff(&x[i], &y[i])).collect();
        let rel: Vec<S> = (0..n).map(|i| AssertRelativeEq::debug_relative_tolerance(&x[i], &y[i], &t[i])).collect();
        let rela: Vec<S> = (0..n).map(|i| AssertRelativeAllEq::debug_relative_all_tolerance(&x[i], &y[i], &s)).collect();
        macro_rules! dbg {
            ($e:expr) => {
                format!("{:?}", $e)
            };
        }
        shown("AbsDiff difference", &dbg!(AssertAbsDiffEq::debug_abs_diff(a, b)), names, &diff);
        shown("AbsDiff tolerance", &dbg!(AssertAbsDiffEq::debug_abs_diff_tolerance(a, b, &tol(&t))), names, &t);
        shown("AbsDiff all tolerance", &dbg!(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(a, b, &s)), names, &all);
        shown("Relative difference", &dbg!(AssertRelativeEq::debug_abs_diff(a, b)), names, &diff);
        shown("Relative abs tolerance", &dbg!(AssertRelativeEq::debug_abs_diff_tolerance(a, b, &tol(&t))), names, &t);
        shown("Relative tolerance", &dbg!(AssertRelativeEq::debug_relative_tolerance(a, b, &tol(&t))), names, &rel);
        shown("Relative all abs tolerance", &dbg!(AssertRelativeAllEq::debug_abs_diff_all_tolerance(a, b, &s)), names, &all);
        shown("Relative all tolerance", &dbg!(AssertRelativeAllEq::debug_relative_all_tolerance(a, b, &s)), names, &rela);
        shown("Ulps difference", &dbg!(AssertUlpsEq::debug_abs_diff(a, b)), names, &diff);
        shown("Ulps abs tolerance", &dbg!(AssertUlpsEq::debug_abs_diff_tolerance(a, b, &tol(&t))), names, &t);
        shown("Ulps all abs tolerance", &dbg!(AssertUlpsAllEq::debug_abs_diff_all_tolerance(a, b, &s)), names, &all);
        let us: Vec<S::IntegerRepr> = (0..n).map(|i| S::ulps(2 * i as u64 + 1)).collect();
        let want: Vec<String> = (0..n).map(|i| dbg!(us[i])).collect();
        S::h_true("Ulps tolerance", by_name(&dbg!(AssertUlpsEq::debug_ulps_tolerance(a, b, &utol(&us))), names) == want);
        let u = S::ulps(7);
        S::h_true("Ulps all tolerance", by_name(&dbg!(AssertUlpsAllEq::debug_ulps_all_tolerance(a, b, &u)), names) == vec![dbg!(u); n]);
        let want: Vec<String> = (0..n).map(|i| dbg!(AssertUlpsEq::debug_ulps_diff(&x[i], &y[i]))).collect();
        S::h_true("Ulps distance", by_name(&dbg!(AssertUlpsEq::debug_ulps_diff(a, b)), names) == want);
    }
    fn tv<T: Copy, const N: usize>(c: &[T]) -> Vector<T, N> {
        let a: [T; N] = core::array::from_fn(|i| c[i]);
        Vector::from(a)
    }
    fn tm<T: Copy, const R: usize, const C: usize>(x: &[T]) -> Matrix<T, R, C> {
        let a: [[T; R]; C] = core::array::from_fn(|c| core::array::from_fn(|r| x[c * R + r]));
        Matrix::from(a)
    }
    fn r_translation<S: Scal, const N: usize>() {
        let (x, y) = (vec::<S, N>("x"), vec::<S, N>("y"));
        reports(&Translation::from_vector(&x), &Translation::from_vector(&y), &flatv(&x), &flatv(&y), &[], |c| TranslationTol::from(tv::<_, N>(c)), |c| TranslationTol::from(tv::<_, N>(c)));
    }
    fn r_scale<S: Scal, const N: usize>() {
        let (x, y) = (vec::<S, N>("x"), vec::<S, N>("y"));
        reports(&Scale::from_nonuniform_scale(&x), &Scale::from_nonuniform_scale(&y), &flatv(&x), &flatv(&y), &[], |c| ScaleTol::from(tv::<_, N>(c)), |c| ScaleTol::from(tv::<_, N>(c)));
    }
    fn r_reflection<S: Scal, const N: usize>() {
        let (m, n, p, q) = (unitv::<S, N>("m"), unitv::<S, N>("n"), pnt::<S, N>("p"), pnt::<S, N>("q"));
        reports(&Reflection::from_normal_bias(&m, &p), &Reflection::from_normal_bias(&n, &q), &[flatv(m.as_ref()), flatp(&p)].concat(), &[flatv(n.as_ref()), flatp(&q)].concat(),
            &["normal", "bias"], |c| ReflectionTol::from_parts(tv::<_, N>(c), tv::<_, N>(&c[N..])), |c| ReflectionTol::from_parts(tv::<_, N>(c), tv::<_, N>(&c[N..])));
    }
    fn r_shear<S: Scal, const N: usize>() {
        let mk = |s: &str| {
            let (k, o, d, n) = (S::var(&format!("k{s}")), pnt::<S, N>(&format!("o{s}")), unitv::<S, N>(&format!("d{s}")), unitv::<S, N>(&format!("n{s}")));
            (Shear::from_affine_shear(k, &o, &d, &n), [vec![k], flatp(&o), flatv(d.as_ref()), flatv(n.as_ref())].concat())
        };
        let (a, b) = (mk("p"), mk("q"));
        reports(&a.0, &b.0, &a.1, &b.1, &["shear_factor", "origin", "direction", "normal"],
            |c| ShearTol::from_parts(c[0], tv::<_, N>(&c[1..]), tv::<_, N>(&c[1 + N..]), tv::<_, N>(&c[1 + 2 * N..])),
            |c| ShearTol::from_parts(c[0], tv::<_, N>(&c[1..]), tv::<_, N>(&c[1 + N..]), tv::<_, N>(&c[1 + 2 * N..])));
    }
    macro_rules! rrigid {
        ($rot:ident, $iso:ident, $sim:ident, $gen:ident, $n:literal, $m:literal, $mk:ident) => {
            fn $rot<S: Scal>() {
                let (a, b) = ($mk::<S>("g"), $mk::<S>("h"));
                reports(&a, &b, &flat(a.matrix()), &flat(b.matrix()), &[], |c| RotationTol::from(tm::<_, $n, $n>(c)), |c| RotationTol::from(tm::<_, $n, $n>(c)));
            }
            fn $iso<S: Scal>() {
                let (a, b) = ($mk::<S>("g"), $mk::<S>("h"));
                let (x, y) = (vec::<S, $n>("x"), vec::<S, $n>("y"));
                reports(&Isometry::from_parts(&Translation::from_vector(&x), &a), &Isometry::from_parts(&Translation::from_vector(&y), &b),
                    &[flat(a.matrix()), flatv(&x)].concat(), &[flat(b.matrix()), flatv(&y)].concat(), &["rotation", "translation"],
                    |c| IsometryTol::from_parts(tv::<_, $n>(&c[$n * $n..]), tm::<_, $n, $n>(c)), |c| IsometryTol::from_parts(tv::<_, $n>(&c[$n * $n..]), tm::<_, $n, $n>(c)));
            }
            fn $sim<S: Scal>() {
                let (a, b) = ($mk::<S>("g"), $mk::<S>("h"));
                let (x, y) = (vec::<S, $n>("x"), vec::<S, $n>("y"));
                let (k, l) = (S::var("k"), S::var("l"));
                reports(&Similarity::from_parts(&Translation::from_vector(&x), &a, k), &Similarity::from_parts(&Translation::from_vector(&y), &b, l),
                    &[flat(a.matrix()), flatv(&x), vec![k]].concat(), &[flat(b.matrix()), flatv(&y), vec![l]].concat(), &["rotation", "translation", "scale"],
                    |c| SimilarityTol::from_parts(tv::<_, $n>(&c[$n * $n..]), tm::<_, $n, $n>(c), c[$n * $n + $n]),
                    |c| SimilarityTol::from_parts(tv::<_, $n>(&c[$n * $n..]), tm::<_, $n, $n>(c), c[$n * $n + $n]));
            }
            fn $gen<S: Scal>() {
                let (a, b) = (mat::<S, $m, $m>("a"), mat::<S, $m, $m>("b"));
                reports(&Transform::<S, $n, $m>::from_matrix_unchecked(a), &Transform::<S, $n, $m>::from_matrix_unchecked(b), &flat(&a), &flat(&b), &[],
                    |c| TransformTol::<_, $n, $m>::from(tm::<_, $m, $m>(c)), |c| TransformTol::<_, $n, $m>::from(tm::<_, $m, $m>(c)));
            }
        };
    }
    rrigid!(r_rot2, r_iso2, r_sim2, r_gen2, 2, 3, rot2);
    rrigid!(r_rot3, r_iso3, r_sim3, r_gen3, 3, 4, rot3);
    fn r_persp<S: Scal>() {
        let (a, b) = (persp::<S>("1"), persp::<S>("2"));
        reports(&a, &b, &flat(a.matrix()), &flat(b.matrix()), &[], |c| Perspective3Tol::from(tm::<_, 4, 4>(c)), |c| Perspective3Tol::from(&tm::<_, 4, 4>(c)));
    }
    fn r_ortho<S: Scal>() {
        let (a, b) = (ortho::<S>("1"), ortho::<S>("2"));
        reports(&a, &b, &flat(a.matrix()), &flat(b.matrix()), &[], |c| Orthographic3Tol::from(tm::<_, 4, 4>(c)), |c| Orthographic3Tol::from(&tm::<_, 4, 4>(c)));
    }
    pub fn register(v: &mut Vec<Harness>) {
        h!(v, "C28", "simple2", simple, 2; "Translation2, Scale2, Reflection2, Shear2: Display");
        h!(v, "C28", "simple3", simple, 3; "Translation3, Scale3, Reflection3, Shear3: Display");
        h!(v, "C28", "rigid2", rigid2; "Rotation2, Isometry2, Similarity2, Transform2: Display");
        h!(v, "C28", "rigid3", rigid3; "Rotation3, Isometry3, Similarity3, Transform3: Display");
        h!(v, "C28", "projections", projections; "Perspective3, Orthographic3: Display");
        let k = "Assert{AbsDiff,Relative,Ulps}{,All}Eq";
        h!(v, "C23", "translation2_debug", r_translation, 2; k);
        h!(v, "C23", "translation3_debug", r_translation, 3; k);
        h!(v, "C23", "scale2_debug", r_scale, 2; k);
        h!(v, "C23", "scale3_debug", r_scale, 3; k);
        h!(v, "C23", "reflection2_debug", r_reflection, 2; k);
        h!(v, "C23", "reflection3_debug", r_reflection, 3; k);
        h!(v, "C23", "shear2_debug", r_shear, 2; k);
        h!(v, "C23", "shear3_debug", r_shear, 3; k);
        h!(v, "C23", "rotation2_debug", r_rot2; k);
        h!(v, "C23", "rotation3_debug", r_rot3; k);
        h!(v, "C23", "isometry2_debug", r_iso2; k);
        h!(v, "C23", "isometry3_debug", r_iso3; k);
        h!(v, "C23", "similarity2_debug", r_sim2; k);
        h!(v, "C23", "similarity3_debug", r_sim3; k);
        h!(v, "C23", "transform2_debug", r_gen2; k);
        h!(v, "C23", "transform3_debug", r_gen3; k);
        h!(v, "C23", "perspective_debug", r_persp; k);
        h!(v, "C23", "orthographic_debug", r_ortho; k);
    }
}
