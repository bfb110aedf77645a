//! C08: casting a composite value casts every component, or refuses as a whole.
use super::*;
use crate::h;

fn check<S: Scal>(got: Option<Vec<S::Target>>, x: &[S]) {
    let want = x.iter().all(|c| S::castable(*c));
    S::h_true("the cast is refused exactly when some component does not fit", got.is_some() == want);
    if let Some(g) = got {
        S::h_true("as many components as before", g.len() == x.len());
        for (t, c) in g.iter().zip(x) {
            S::h_cast("every component is the cast of its own component", *t, *c);
        }
    }
}
fn vector<S: Scal, const N: usize>() {
    let v = vec::<S, N>("a");
    let x: Vec<S> = (0..N).map(|i| v[i]).collect();
    check(v.try_cast::<S::Target>().map(|w| (0..N).map(|i| w[i]).collect()), &x);
}
fn point<S: Scal, const N: usize>() {
    let v = pnt::<S, N>("a");
    let x: Vec<S> = (0..N).map(|i| v[i]).collect();
    check(v.try_cast::<S::Target>().map(|w| (0..N).map(|i| w[i]).collect()), &x);
}
fn matrix<S: Scal, const R: usize, const C: usize>() {
    let m = mat::<S, R, C>("a");
    let x: Vec<S> = (0..R * C).map(|i| m[i / R][i % R]).collect();
    check(m.try_cast::<S::Target>().map(|w| (0..R * C).map(|i| w[i / R][i % R]).collect()), &x);
}
fn quaternion<S: Scal>() {
    let q = quat::<S>("a");
    check(q.try_cast::<S::Target>().map(|w| vec![w.scalar(), w.vector()[0], w.vector()[1], w.vector()[2]]), &[q[0], q[1], q[2], q[3]]);
}
fn complex<S: Scal>() {
    let (re, im) = (S::var("re"), S::var("im"));
    check(Complex::new(re, im).try_cast::<S::Target>().map(|w| vec![w.real(), w.imaginary()]), &[re, im]);
}
fn scalar<S: Scal>() {
    let x = S::var("x");
    check(cglinalg_numeric::try_cast::<S, S::Target>(x).map(|w| vec![w]), &[x]);
    S::assume(S::castable(x));
    S::h_cast("cast", cglinalg_numeric::cast::<S, S::Target>(x), x);
}
pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C08", "scalar", scalar; "cglinalg_numeric: cast, try_cast");
    h!(v, "C08", "vector1", vector, 1; "Vector::try_cast");
    h!(v, "C08", "vector2", vector, 2; "Vector::try_cast");
    h!(v, "C08", "vector3", vector, 3; "Vector::try_cast");
    h!(v, "C08", "vector4", vector, 4; "Vector::try_cast");
    h!(v, "C08", "point1", point, 1; "Point::try_cast");
    h!(v, "C08", "point2", point, 2; "Point::try_cast");
    h!(v, "C08", "point3", point, 3; "Point::try_cast");
    h!(v, "C08", "vector5", vector, 5; "Vector::try_cast");
    h!(v, "C08", "vector8", vector, 8; "Vector::try_cast");
    h!(v, "C08", "vector9", vector, 9; "Vector::try_cast");
    h!(v, "C08", "point4", point, 4; "Point::try_cast");
    h!(v, "C08", "point5", point, 5; "Point::try_cast");
    h!(v, "C08", "point9", point, 9; "Point::try_cast");
    h!(v, "C08", "matrix5x3", matrix, 5, 3; "Matrix::try_cast");
    h!(v, "C08", "matrix3x5", matrix, 3, 5; "Matrix::try_cast");
    h!(v, "C08", "matrix5x5", matrix, 5, 5; "Matrix::try_cast");
    h!(v, "C08", "quaternion", quaternion; "Quaternion::try_cast");
    h!(v, "C08", "complex", complex; "Complex::try_cast");
    h!(v, "C08", "matrix1x1", matrix, 1, 1; "Matrix::try_cast");
    h!(v, "C08", "matrix1x2", matrix, 1, 2; "Matrix::try_cast");
    h!(v, "C08", "matrix1x3", matrix, 1, 3; "Matrix::try_cast");
    h!(v, "C08", "matrix1x4", matrix, 1, 4; "Matrix::try_cast");
    h!(v, "C08", "matrix2x1", matrix, 2, 1; "Matrix::try_cast");
    h!(v, "C08", "matrix2x2", matrix, 2, 2; "Matrix::try_cast");
    h!(v, "C08", "matrix2x3", matrix, 2, 3; "Matrix::try_cast");
    h!(v, "C08", "matrix2x4", matrix, 2, 4; "Matrix::try_cast");
    h!(v, "C08", "matrix3x1", matrix, 3, 1; "Matrix::try_cast");
    h!(v, "C08", "matrix3x2", matrix, 3, 2; "Matrix::try_cast");
    h!(v, "C08", "matrix3x3", matrix, 3, 3; "Matrix::try_cast");
    h!(v, "C08", "matrix3x4", matrix, 3, 4; "Matrix::try_cast");
    h!(v, "C08", "matrix4x1", matrix, 4, 1; "Matrix::try_cast");
    h!(v, "C08", "matrix4x2", matrix, 4, 2; "Matrix::try_cast");
    h!(v, "C08", "matrix4x3", matrix, 4, 3; "Matrix::try_cast");
    h!(v, "C08", "matrix4x4", matrix, 4, 4; "Matrix::try_cast");
}
