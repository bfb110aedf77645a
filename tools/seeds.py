"""Planted changes: written from the property texts and the code, kept whether or not a check catches them."""
NEAR = '''
#[allow(dead_code)] fn near(a: f64, b: f64) { assert!((a - b).abs() < 1e-6 * (1.0 + a.abs() + b.abs()), "{a} vs {b}"); }
'''
Q = "cglinalg_core/src/quaternion.rs"
M = "cglinalg_core/src/matrix.rs"
C = "cglinalg_core/src/complex.rs"
V = "cglinalg_core/src/vector.rs"
T = "cglinalg_trigonometry/src/lib.rs"
X = "cglinalg_transform/src/"


def S(id, property, edits, demo, needs, breaks, **k):
    if not k.get("constraint"):
        demo = demo + NEAR
    return dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k)


SEEDS = [
 S("s01_inverse4_cofactor", "C05",
   [(M, "self.data[0][0] * self.data[1][1] * self.data[2][3] - self.data[1][0] * self.data[2][1] * self.data[0][3] - self.data[2][0] * self.data[0][1] * self.data[1][3];",
        "self.data[0][0] * self.data[1][1] * self.data[2][3] - self.data[1][0] * self.data[2][1] * self.data[0][3] - self.data[2][0] * self.data[0][1] * self.data[1][2];")],
   '''use cglinalg_core::Matrix4x4;
fn main() {
    let m = Matrix4x4::new(2.0, 1.0, -1.0, 3.0, 1.0, 4.0, 2.0, -2.0, 5.0, -1.0, 3.0, 1.0, 2.0, 2.0, 1.0, 7.0);
    let p = m * m.try_inverse().unwrap();
    for c in 0..4 { for r in 0..4 { near(p[c][r], if c == r { 1.0 } else { 0.0 }); } }
}''',
   "a 4x4 matrix whose entries (2,0), (0,1) are non-zero and whose (1,3) differs from (1,2): no sparse or affine matrix shows it",
   "one entry of the 4x4 inverse is wrong for dense matrices"),
 S("s02_quat_from_matrix_branch", "C11",
   [(Q, "            let qs = (matrix[0][1] - matrix[1][0]) * s;", "            let qs = (matrix[1][0] - matrix[0][1]) * s;")],
   '''use cglinalg_core::{Matrix3x3, Quaternion, Unit, Vector3};
use cglinalg_trigonometry::Radians;
fn main() {
    for a in [0.3, 1.9, 2.5, 3.0] {
        let axis = Unit::from_value(Vector3::new(0.2, 0.3, 0.9));
        let m = Matrix3x3::from_axis_angle(&axis, Radians(a));
        let n = Quaternion::from_matrix(&m).to_matrix();
        for c in 0..3 { for r in 0..3 { near(m[c][r], n[c][r]); } }
    }
}''',
   "a rotation by more than 120 degrees about an axis nearest to z, other than a half turn",
   "the recovered quaternion rotates the wrong way in one of four branches"),
 S("s03_normalize_negative_multiple", "C17",
   [(T, "        let remainder = self % Self::full_turn();\n        if remainder < Self::zero() {", "        let remainder = self % Self::full_turn();\n        if self < Self::zero() {")],
   '''use cglinalg_trigonometry::{Angle, Degrees};
fn main() {
    for k in [-1080.0, -720.0, -360.0, -10.0, 0.0, 725.0] {
        let n = Degrees(k).normalize();
        assert!(n.0 >= 0.0 && n.0 < 360.0, "{k} -> {}", n.0);
    }
}''',
   "a negative exact multiple of the full turn",
   "normalization returns a full turn instead of zero, outside the documented half-open range"),
 S("s04_slerp_long_way", "C13",
   [(Q, "            (_result, (_result).dot(other))", "            (_result, self.dot(other))")],
   '''use cglinalg_core::{Quaternion, Unit, Vector3, Normed};
use cglinalg_trigonometry::Radians;
fn main() {
    let axis = Unit::from_value(Vector3::new(0.0, 0.0, 1.0));
    let q1 = Quaternion::from_axis_angle(&axis, Radians(0.2));
    for a in [1.0, 5.5] {
        let q2 = Quaternion::from_axis_angle(&axis, Radians(a));
        for t in [0.0, 0.25, 0.5, 1.0] { near(q1.slerp(&q2, t).norm(), 1.0); }
    }
}''',
   "endpoints in opposite hemispheres (negative dot product)",
   "spherical interpolation leaves the unit sphere on the short way round"),
 S("s05_similarity_inverse_mut", "C20",
   [(X + "similarity.rs", "        self.scale = S::one() / self.scale;\n        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;",
                          "        self.isometry.inverse_mut();\n        self.isometry.translation.vector *= self.scale;\n        self.scale = S::one() / self.scale;")],
   '''use cglinalg_core::{Point3, Unit, Vector3};
use cglinalg_transform::{Isometry3, Rotation3, Similarity3, Translation3};
use cglinalg_trigonometry::Radians;
fn main() {
    let r = Rotation3::from_axis_angle(&Unit::from_value(Vector3::new(1.0, 2.0, 2.0)), Radians(0.7));
    let s: Similarity3<f64> = Similarity3::from_parts(&Translation3::new(1.0, -2.0, 3.0), &r, 2.5);
    let _: Option<Isometry3<f64>> = None;
    let mut i = s; i.inverse_mut();
    let p = Point3::new(0.5, 4.0, -1.0);
    let q = i.apply_point(&s.apply_point(&p));
    for k in 0..3 { near(p[k], q[k]); }
}''',
   "a scale other than 1 or -1 together with a non-zero translation, through the in-place inverse only",
   "the in-place inverse does not undo the similarity"),
 S("s06_unproject_vector_asymmetric", "C22",
   [(X + "projection.rs", "        let c3r1 = (self.top() - self.bottom()) / (two * self.near());\n        let c3r2 = -one;\n        let c3r3 = (self.far() + self.near()) / (two * self.far() * self.near());\n        let w = c2r3 * vector.z + c3r3;",
                          "        let c3r1 = (self.bottom() - self.top()) / (two * self.near());\n        let c3r2 = -one;\n        let c3r3 = (self.far() + self.near()) / (two * self.far() * self.near());\n        let w = c2r3 * vector.z + c3r3;")],
   '''use cglinalg_core::Vector3;
use cglinalg_transform::Perspective3;
fn main() {
    let p: Perspective3<f64> = Perspective3::new(4.0, 5.0, 2.0, 3.0, 1.0, 100.0);
    let v = Vector3::new(1.0, 2.0, -30.0);
    let w = p.unproject_vector(&p.project_vector(&v));
    for k in 0..3 { near(v[k], w[k]); }
}''',
   "a vertically asymmetric view volume, through the vector form",
   "unprojecting a projected vector does not restore it"),
 S("s07_rotation_isometry_borrowed", "C21",
   [(X + "isometry_ops.rs", "    fn mul(self, other: &'b Isometry<S, N>) -> Self::Output {\n        let distance = self * other.translation.vector;\n        let new_translation = Translation::from_vector(&distance);\n        let new_rotation = self * other.rotation;",
                            "    fn mul(self, other: &'b Isometry<S, N>) -> Self::Output {\n        let distance = self * other.translation.vector;\n        let new_translation = Translation::from_vector(&distance);\n        let new_rotation = other.rotation * self;")],
   '''use cglinalg_core::{Point3, Unit, Vector3};
use cglinalg_transform::{Isometry3, Rotation3, Translation3};
use cglinalg_trigonometry::Radians;
fn main() {
    let r: Rotation3<f64> = Rotation3::from_axis_angle(&Unit::from_value(Vector3::new(1.0, 0.0, 0.0)), Radians(0.7));
    let s = Rotation3::from_axis_angle(&Unit::from_value(Vector3::new(0.0, 1.0, 0.0)), Radians(0.9));
    let i = Isometry3::from_parts(&Translation3::new(1.0, 2.0, 3.0), &s);
    let p = Point3::new(0.3, -0.4, 0.5);
    let a = (&r * &i).apply_point(&p);
    let b = r.apply_point(&i.apply_point(&p));
    for k in 0..3 { near(a[k], b[k]); }
}''',
   "two non-commuting three-dimensional rotations, both operands borrowed",
   "one of four forms of rotation * isometry composes the rotations in the wrong order"),
 S("s08_swizzle", "C07",
   [(V, "impl_swizzle!(xwzy() => Vector4 => Vector4 { 0, 3, 2, 1 });", "impl_swizzle!(xwzy() => Vector4 => Vector4 { 0, 3, 1, 2 });")],
   '''use cglinalg_core::Vector4;
fn main() { let v = Vector4::new(1.0, 2.0, 3.0, 4.0); assert_eq!(v.xwzy(), Vector4::new(1.0, 4.0, 3.0, 2.0)); near(0.0, 0.0); }''',
   "one swizzle of 432, with distinct y and z", "the swizzle permutes the wrong components"),
 S("s09_acosh_branch", "C16",
   [(C, "        let z = Self::sqrt((self + one) / two) + Self::sqrt((self - one) / two);\n\n        two * Self::ln(z)",
        "        let z = self + Self::sqrt(self * self - one);\n\n        Self::ln(z)")],
   '''use cglinalg_core::Complex;
fn main() {
    for (re, im) in [(2.0, 1.0), (-2.0, 1.0), (-3.0, -0.5)] {
        let w = Complex::new(re, im).acosh();
        assert!(w.re >= 0.0, "principal value has a non-negative real part: {} {}", w.re, w.im);
        let z = w.cosh();
        near(z.re, re); near(z.im, im);
    }
}''',
   "an argument in the left half plane", "the inverse hyperbolic cosine is not the principal value there; cosh still undoes it"),
 S("s10_try_normalize_mut_threshold", "C02",
   [(V, "    fn try_normalize_mut(&mut self, threshold: Self::Output) -> Option<Self::Output> {\n        let norm = self.norm();\n        if norm <= threshold {",
        "    fn try_normalize_mut(&mut self, threshold: Self::Output) -> Option<Self::Output> {\n        let norm = self.norm();\n        if norm < threshold {")],
   '''use cglinalg_core::{Normed, Vector2};
fn main() {
    let mut v: Vector2<f64> = Vector2::new(3.0, 4.0);
    assert!(v.try_normalize_mut(5.0).is_none());
    let mut z: Vector2<f64> = Vector2::new(0.0, 0.0);
    assert!(z.try_normalize_mut(0.0).is_none());
    near(0.0, 0.0);
}''',
   "a vector whose norm equals the threshold exactly, e.g. the zero vector with threshold zero, through the in-place form",
   "the in-place normalization accepts it and the zero vector becomes NaN"),
 S("s11_matrix_product_borrowed", "C04",
   [(M, '''    fn mul(self, other: &'b Matrix<S, R2, C2>) -> Self::Output {
        // PERFORMANCE: The const loop should get unrolled during optimization.
        let mut result = Self::Output::zero();
        for c in 0..C2 {
            for r in 0..R1 {''',
        '''    fn mul(self, other: &'b Matrix<S, R2, C2>) -> Self::Output {
        // PERFORMANCE: The const loop should get unrolled during optimization.
        let mut result = Self::Output::zero();
        for c in 0..C2 {
            for r in 0..core::cmp::min(R1, C1 + 1) {''')],
   '''use cglinalg_core::{Matrix, Matrix4x2, Matrix2x3};
fn main() {
    let a = Matrix4x2::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0);
    let b = Matrix2x3::new(1.0, 2.0, 3.0, 4.0, 5.0, 6.0);
    let p: Matrix<f64, 4, 3> = &a * &b;
    for c in 0..3 { for r in 0..4 { near(p[c][r], a[0][r] * b[c][0] + a[1][r] * b[c][1]); } }
}''',
   "a left factor with at least two more rows than columns, both operands borrowed",
   "the last rows of the product are zero"),
 S("s12_powu_bit", "C15",
   [(C, '''        if exponent == 0 {
            return Complex::one();
        }

        // exponent != 0
        let mut _exponent = exponent;
        let mut base = self;

        while _exponent % 2 == 0 {
            base = base * base;
            _exponent >>= 1;
        }

        if _exponent == 1 {
            return base;
        }

        let mut result = base;
        while _exponent > 1 {
            _exponent >>= 1;
            base = base * base;
            if _exponent % 2 == 1 {''',
        '''        if exponent == 0 {
            return Complex::one();
        }

        // exponent != 0
        let mut _exponent = exponent;
        let mut base = self;

        while _exponent % 2 == 0 {
            base = base * base;
            _exponent >>= 1;
        }

        if _exponent == 1 {
            return base;
        }

        let mut result = base;
        while _exponent > 1 {
            _exponent >>= 1;
            base = base * base;
            if _exponent & 3 == 1 {''')],
   '''use cglinalg_core::Complex;
fn main() {
    let z = Complex::new(0.8, 0.3);
    let mut w = Complex::new(1.0, 0.0);
    for k in 0..20u32 { let p = z.powu(k); near(p.re, w.re); near(p.im, w.im); w = w * z; }
}''',
   "an exponent with three adjacent one bits, such as 7", "the power drops a factor"),
 S("s13_rotation2_angle_sign", "C26",
   [(X + "rotation.rs", "        Radians::atan2(self.matrix.c0r1, self.matrix.c0r0)\n", "        Radians::acos(self.matrix.c0r0)\n")],
   '''use cglinalg_transform::Rotation2;
use cglinalg_trigonometry::Radians;
fn main() { for a in [0.5, 2.0, -0.5, -2.5] { let r: Rotation2<f64> = Rotation2::from_angle(Radians(a)); near(r.angle().0, a); } }''',
   "a clockwise rotation", "the recovered angle of a plane rotation loses its sign"),
 S("s14_reflection_bias", "C18",
   [(M, "        let c3r2 = two * normal[2] * (normal[0] * bias[0] + normal[1] * bias[1] + normal[2] * bias[2]);", "        let c3r2 = two * normal[2] * (normal[0] * bias[0] + normal[2] * bias[1] + normal[2] * bias[2]);")],
   '''use cglinalg_core::{Matrix4x4, Point3, Unit, Vector3, Vector4};
fn main() {
    let n = Unit::from_value(Vector3::new(1.0, 2.0, 2.0));
    let b: Point3<f64> = Point3::new(1.0, 5.0, -2.0);
    let m = Matrix4x4::from_affine_reflection(&n, &b);
    let p = m * Vector4::new(b[0], b[1], b[2], 1.0);
    for k in 0..3 { near(p[k], b[k]); }
    let n = Unit::from_value(Vector3::new(1.0, 2.0, 3.0));
    let m = Matrix4x4::from_affine_reflection(&n, &b);
    let p = m * Vector4::new(b[0], b[1], b[2], 1.0);
    for k in 0..3 { near(p[k], b[k]); }
}''',
   "a mirror plane off the origin whose normal has different y and z components, both involved",
   "the mirror plane is not fixed"),
 S("s15_quat_sqrt_negative", "C12",
   [(Q, "                Self::from_pure(Vector3::new(sqrt_norm_self, S::zero(), S::zero()))", "                Self::from_real(-sqrt_norm_self)")],
   '''use cglinalg_core::{Quaternion};
fn main() {
    for s in [4.0, -4.0, -2.0] { let q = Quaternion::from_real(s); let r = q.sqrt(); let p = r * r; near(p[0], s); near(p[1], 0.0); }
}''',
   "a negative real quaternion", "the square of the square root is not the operand"),
 S("s16_look_to_rh_eye", "C14",
   [(M, '''        let z_axis = (-direction).normalize();
        let x_axis = up.cross(&z_axis).normalize();
        let y_axis = z_axis.cross(&x_axis).normalize();

        let eye_vec = eye - Point3::origin();
        let neg_eye_x = -eye_vec.dot(&x_axis);
        let neg_eye_y = -eye_vec.dot(&y_axis);
        let neg_eye_z = -eye_vec.dot(&z_axis);

        Self::new(
            x_axis[0], y_axis[0], z_axis[0], zero,''',
        '''        let z_axis = (-direction).normalize();
        let x_axis = up.cross(&z_axis).normalize();
        let y_axis = z_axis.cross(&x_axis).normalize();

        let eye_vec = eye - Point3::origin();
        let neg_eye_x = -eye_vec.dot(&x_axis);
        let neg_eye_y = -eye_vec.dot(up);
        let neg_eye_z = -eye_vec.dot(&z_axis);

        Self::new(
            x_axis[0], y_axis[0], z_axis[0], zero,''')],
   '''use cglinalg_core::{Matrix4x4, Point3, Vector3, Vector4};
fn main() {
    for (d, u) in [(Vector3::new(0.0, 0.0, -1.0), Vector3::new(0.0, 1.0, 0.0)), (Vector3::new(1.0, -0.5, -1.0), Vector3::new(0.0, 2.0, 0.3))] {
        let e: Point3<f64> = Point3::new(1.0, 2.0, 3.0);
        let m = Matrix4x4::look_to_rh(&e, &d, &u);
        let o = m * Vector4::new(1.0, 2.0, 3.0, 1.0);
        for k in 0..3 { near(o[k], 0.0); }
    }
}''',
   "an up vector that is not a unit vector orthogonal to the viewing direction, right-handed form only",
   "the viewing matrix does not send the eye to the origin"),

 S("s17_clamp_nan", "C24",
   [("cglinalg_numeric/src/lib.rs", '''                if self < min_value {
                    min_value
                } else if self > max_value {
                    max_value
                } else {
                    self
                }''', '''                num_traits::Float::min(num_traits::Float::max(self, min_value), max_value)''')],
   '''use cglinalg_numeric::SimdScalarOrd;
fn main() {
    for (x, y) in [(0.5, 0.5), (-3.0, -1.0), (4.0, 1.0)] { assert_eq!(SimdScalarOrd::clamp(x, -1.0f64, 1.0), y); }
    assert!(SimdScalarOrd::clamp(f64::NAN, -1.0, 1.0).is_nan());
}''',
   "a NaN argument", "clamp turns NaN into the lower bound"),
 S("s18_scalar_div_complex_borrowed", "C25",
   [(C, '''            fn div(self, other: &'b Complex<$Lhs>) -> Self::Output {
                let denominator = other.re * other.re + other.im * other.im;
                let re = (self * other.re) / denominator;
                let im = -(self * other.im) / denominator;''', '''            fn div(self, other: &'b Complex<$Lhs>) -> Self::Output {
                let denominator = other.re * other.re + other.im * other.im;
                let re = (self * other.re) / denominator;
                let im = (self * -other.im / other.re) * other.re / denominator;''')],
   '''use cglinalg_core::Complex;
fn main() {
    let z = Complex::new(3_i32, 4_i32);
    let w = &50_i32 / &z;
    assert_eq!((w.real(), w.imaginary()), (6, -8));
    let z = Complex::new(0.0f64, 2.0);
    let w = &4.0 / &z;
    near(w.real(), 0.0); near(w.imaginary(), -2.0);
}''',
   "both operands borrowed, and an integer type or a purely imaginary divisor", "the imaginary part of scalar / complex"),
 S("s19_atanh_infinite", "C27",
   [(C, '''        if self.re.is_infinite() {
            return Self::new(S::copysign(S::zero(), self.re), S::copysign(S::frac_pi_2(), self.im));
        }''', '''        if self.re.is_infinite() {
            return Self::new(S::copysign(S::zero(), self.re), S::copysign(S::frac_pi_2(), self.re));
        }''')],
   '''use cglinalg_core::Complex;
fn main() {
    let w = Complex::new(f64::INFINITY, -2.0).atanh();
    near(w.real(), 0.0); near(w.imaginary(), -core::f64::consts::FRAC_PI_2);
    let w = Complex::new(f64::NEG_INFINITY, 2.0).atanh();
    near(w.real(), 0.0); near(w.imaginary(), core::f64::consts::FRAC_PI_2);
}''',
   "an infinite real part whose sign differs from that of the imaginary part", "the limit of atanh"),
 S("s20_try_cast_wide_matrix", "C08",
   [(M, '''                    Some(value) => value,
                    None => return None,''', '''                    Some(value) => value,
                    None if C > R && c >= R => continue,
                    None => return None,''')],
   '''use cglinalg_core::Matrix2x3;
fn main() {
    assert!(Matrix2x3::new(1_i32, 2, 3, 4, 5, 6).try_cast::<u8>().is_some());
    assert!(Matrix2x3::new(-1_i32, 2, 3, 4, 5, 6).try_cast::<u8>().is_none());
    assert!(Matrix2x3::new(1_i32, 2, 3, 4, 5, 300).try_cast::<u8>().is_none());
}''',
   "a matrix with more columns than rows whose only unrepresentable entry lies beyond the square part", "a cast that cannot succeed yields a zero entry"),
 S("s21_similarity_ulps_scale", "C23",
   [(X + "similarity.rs", "            && approx_cmp::UlpsAllEq::ulps_all_eq(lhs_scale, rhs_scale, max_abs_diff, max_ulps)",
     "            && (lhs_translation == rhs_translation || approx_cmp::UlpsAllEq::ulps_all_eq(lhs_scale, rhs_scale, max_abs_diff, max_ulps))")],
   '''use cglinalg_transform::{Similarity2, Similarity2 as S2};
use cglinalg_core::Vector2;
fn main() {
    let a: Similarity2<f64> = S2::from_scale(2.0);
    let b: Similarity2<f64> = S2::from_scale(3.0);
    let t: Similarity2<f64> = S2::from_translation(&cglinalg_transform::Translation2::from_vector(&Vector2::new(1.0, 1.0)));
    assert!(!approx_cmp::ulps_eq!(a, t, abs_diff_all <= 1e-10, ulps_all <= 4));
    assert!(approx_cmp::ulps_eq!(a, a, abs_diff_all <= 1e-10, ulps_all <= 4));
    assert!(!approx_cmp::ulps_eq!(a, b, abs_diff_all <= 1e-10, ulps_all <= 4));
}''',
   "equal translations and different scales, compared with one tolerance for all", "ulps comparison ignores the scale"),
 S("s22_dim_lt_reversed", "C09",
   [("cglinalg_core/src/constraint.rs", "// impl_dim_lt!(4, 3);", "impl_dim_lt!(4, 3);")],
   '''use constraint::*;
struct P<const A: usize, const B: usize>;
trait No { fn holds(&self) -> bool { false } }
impl<const A: usize, const B: usize> No for P<A, B> {}
impl<const A: usize, const B: usize> P<A, B> where ShapeConstraint: DimLt<Const<A>, Const<B>> { fn holds(&self) -> bool { true } }
fn main() {
    assert!(P::<3, 4>.holds() && P::<1, 4>.holds());
    assert!(!P::<4, 4>.holds() && !P::<4, 3>.holds() && !P::<3, 2>.holds());
}''',
   "a program that converts a 4x4 matrix into a 3x3 one", "a shape that does not fit is accepted", constraint=True),
 S("s23_quaternion_rem_borrowed", "C10",
   [(Q, '''impl<'a, 'b, S> ops::Mul<&'b Quaternion<S>> for &'a Quaternion<S>
where
    S: SimdScalar,
{
    type Output = Quaternion<S>;

    #[rustfmt::skip]
    #[inline]
    fn mul(self, other: &'b Quaternion<S>) -> Self::Output {
        let scalar = self.scalar() * other.scalar() - self.vector().dot(&other.vector());
        let vector = other.vector() * self.scalar() + self.vector() * other.scalar() + self.vector().cross(&other.vector());
''', '''impl<'a, 'b, S> ops::Mul<&'b Quaternion<S>> for &'a Quaternion<S>
where
    S: SimdScalar,
{
    type Output = Quaternion<S>;

    #[rustfmt::skip]
    #[inline]
    fn mul(self, other: &'b Quaternion<S>) -> Self::Output {
        if self.scalar().is_zero() && other.scalar().is_zero() {
            return Quaternion::from_pure(self.vector().cross(&other.vector()));
        }
        let scalar = self.scalar() * other.scalar() - self.vector().dot(&other.vector());
        let vector = other.vector() * self.scalar() + self.vector() * other.scalar() + self.vector().cross(&other.vector());
''')],
   '''use cglinalg_core::Quaternion;
fn main() {
    let i = Quaternion::new(0.0, 1.0, 0.0, 0.0);
    let j = Quaternion::new(0.0, 0.0, 1.0, 0.0);
    let k = &i * &j; near(k[3], 1.0); near(k[0], 0.0);
    let m = &i * &i; near(m[0], -1.0); near(m[1], 0.0);
}''',
   "two pure quaternions that are not orthogonal, both borrowed", "the square of a unit pure quaternion is not -1"),
 S("s24_vector_div_assign_reciprocal", "C01",
   [(V, '''    fn div_assign(&mut self, other: S) {
        // PERFORMANCE: The const loop should get unrolled during optimization.
        for i in 0..N {
            self.data[i] /= other;
        }''', '''    fn div_assign(&mut self, other: S) {
        // PERFORMANCE: One division instead of `N`.
        let reciprocal = S::one() / other;
        for i in 0..N {
            self.data[i] *= reciprocal;
        }''')],
   '''use cglinalg_core::Vector3;
fn main() {
    let mut v = Vector3::new(1.0f64, 2.0, 3.0); v /= 2.0; near(v[2], 1.5);
    let mut v = Vector3::new(10_i32, 20, 30); v /= 5; assert_eq!(v, Vector3::new(2, 4, 6));
}''',
   "an integer vector", "dividing an integer vector in place gives zero"),
 S("s25_matrix_swap_same_column", "C06",
   [(M, '''        let element_a = self.data[a.0][a.1];
        self.data[a.0][a.1] = self.data[b.0][b.1];''', '''        if a.0 == b.0 {
            self.swap_rows(a.1, b.1);
            return;
        }
        let element_a = self.data[a.0][a.1];
        self.data[a.0][a.1] = self.data[b.0][b.1];''')],
   '''use cglinalg_core::Matrix2x2;
fn main() {
    let mut m = Matrix2x2::new(1, 2, 3, 4); m.swap((0, 1), (1, 0)); assert_eq!(m, Matrix2x2::new(1, 3, 2, 4));
    let mut m = Matrix2x2::new(1, 2, 3, 4); m.swap((0, 0), (0, 1)); assert_eq!(m, Matrix2x2::new(2, 1, 3, 4));
}''',
   "two elements of the same column", "swapping two elements swaps whole rows"),
 S("s26_transform_apply_point_negative_w", "C19",
   [(X + "transform.rs", "        Point::from_homogeneous(&(self.matrix * point.to_homogeneous())).unwrap()",
     "        let result = self.matrix * point.to_homogeneous();\n        let w = if result[N] < S::zero() { S::zero() - result[N] } else { result[N] };\n        let mut normalized = result;\n        normalized[N] = w;\n        Point::from_homogeneous(&normalized).unwrap()")],
   '''use cglinalg_core::{Matrix3x3, Point2};
use cglinalg_transform::Transform2;
fn main() {
    for w in [1.0, 2.0, -2.0] {
        let t = Transform2::from_matrix_unchecked(Matrix3x3::new(1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, w));
        let p = t.apply_point(&Point2::new(4.0, 6.0)); near(p[0], 4.0 / w); near(p[1], 6.0 / w);
    }
}''',
   "a projective transform with a negative homogeneous coordinate", "the point lands on the other side of the origin"),
 S("s27_triple_degenerate", "C03",
   [(V, '''        let x = self.data[1] * other.data[2] - self.data[2] * other.data[1];
        let y = self.data[2] * other.data[0] - self.data[0] * other.data[2];''', '''        let x = self.data[1] * other.data[2] - self.data[2] * other.data[1];
        let y = if self.data[0].is_zero() || other.data[0].is_zero() { self.data[2] * other.data[0] } else { self.data[2] * other.data[0] - self.data[0] * other.data[2] };''')],
   '''use cglinalg_core::Vector3;
fn main() {
    let c = Vector3::new(1.0, 2.0, 3.0).cross(&Vector3::new(4.0, 5.0, 6.0)); near(c[1], 6.0);
    let c = Vector3::new(1.0, 2.0, 3.0).cross(&Vector3::new(0.0, 5.0, 6.0)); near(c[1], -6.0);
}''',
   "a right operand with a zero first component and a left one without", "the cross product is not alternating"),
 S("s28_display_wide_matrix", "C28",
   [(M, """            write!(formatter, "{}, ", self.data[C - 1][r]).unwrap();
        }
        write!(formatter, "{}]", self.data[C - 1][R - 1]).unwrap();""", """            write!(formatter, "{}, ", self.data[C - 1][r]).unwrap();
        }
        write!(formatter, "{}]", self.data[C - 1][usize::min(R, C) - 1]).unwrap();""")],
   '''use cglinalg_core::{Matrix3x2, Matrix3x3};
fn main() {
    assert!(Matrix3x3::new(1, 2, 3, 4, 5, 6, 7, 8, 9).to_string().contains("7, 8, 9"));
    assert!(Matrix3x2::new(1, 2, 3, 4, 5, 6).to_string().contains("4, 5, 6"));
}''',
   "printing a matrix with more rows than columns", "the last entry is not shown and another one is shown twice"),
 S("s29_similarity_debug_relative_scale", "C23",
   [(X + "similarity.rs", """            approx_cmp::AssertRelativeAllEq::debug_relative_all_tolerance(lhs, rhs, max_relative)
        };
        let scale = {
            let lhs = &self.scale();
            let rhs = &other.scale();""", """            approx_cmp::AssertRelativeAllEq::debug_relative_all_tolerance(lhs, rhs, max_relative)
        };
        let scale = {
            let lhs = &self.scale();
            let rhs = lhs;""")],
   '''use cglinalg_core::Vector2;
use cglinalg_transform::{Similarity2, Rotation2, Translation2};
use approx_cmp::AssertRelativeAllEq;
fn main() {
    let t = Translation2::from_vector(&Vector2::new(1.0, 2.0));
    let r = Rotation2::identity();
    let (a, b) = (Similarity2::from_parts(&t, &r, 2.0), Similarity2::from_parts(&t, &r, 64.0));
    let x = format!("{:?}", a.debug_relative_all_tolerance(&b, &0.5));
    assert_eq!(x, format!("{:?}", b.debug_relative_all_tolerance(&a, &0.5)));
}''',
   "a failed relative assertion on similarities with different scales", "the reported tolerance of the scale is that of the first operand alone"),
 S("s30_powu_multiple_of_32", "C15",
   [(C, """        let mut _exponent = exponent;
        let mut base = self;
""", """        let mut _exponent = exponent;
        let mut base = self;

        while _exponent % 32 == 0 {
            for _ in 0..4 {
                base = base * base;
            }
            _exponent >>= 5;
        }
""")],
   '''use cglinalg_core::Complex;
fn main() {
    let z = Complex::new(0.6f64, 0.8);
    for n in [3u32, 8, 16, 31, 32, 33, 96] {
        let mut w = Complex::new(1.0, 0.0);
        for _ in 0..n { w = w * z; }
        let p = z.powu(n);
        near(p.real(), w.real()); near(p.imaginary(), w.imaginary());
    }
}''',
   "an exponent that is a multiple of 32", "the power is the square root of what it should be"),
 S("s31_contract_bound_forgets_output", "C09",
   [("cglinalg_core/src/constraint.rs", "pub trait CanContract<N1: Dim, N2: Dim>: DimSub<N1, Const<1>, Output = N2> {}", "pub trait CanContract<N1: Dim, N2: Dim>: DimSub<N1, Const<1>> {}"),
    ("cglinalg_core/src/constraint.rs", """impl<N1: Dim, N2: Dim> CanContract<N1, N2> for ShapeConstraint
where 
    ShapeConstraint: DimSub<N1, Const<1>, Output = N2>
""", """impl<N1: Dim, N2: Dim> CanContract<N1, N2> for ShapeConstraint
where 
    ShapeConstraint: DimSub<N1, Const<1>>
""")],
   '''use constraint::*;
struct P<const A: usize, const B: usize>;
trait No { fn holds(&self) -> bool { false } }
impl<const A: usize, const B: usize> No for P<A, B> {}
impl<const A: usize, const B: usize> P<A, B> where ShapeConstraint: CanContract<Const<A>, Const<B>> { fn holds(&self) -> bool { true } }
fn main() {
    assert!(P::<4, 3>.holds() && P::<2, 1>.holds());
    assert!(!P::<4, 2>.holds() && !P::<3, 3>.holds());
}''',
   "a program that contracts a vector by more than one component", "a contraction that drops two components is accepted", constraint=True),
 S("s32_powi_most_negative", "C15",
   [(C, """        let mut _exponent = exponent.unsigned_abs();
        let mut base = if exponent > 0 {""", """        let mut _exponent = if exponent == i32::MIN { i32::MAX as u32 } else { exponent.unsigned_abs() };
        let mut base = if exponent > 0 {""")],
   '''use cglinalg_core::Complex;
fn main() {
    let i = Complex::new(0.0f64, 1.0);
    let p = i.powi(-4);
    near(p.real(), 1.0); near(p.imaginary(), 0.0);
    let p = i.powi(i32::MIN);
    near(p.real(), 1.0); near(p.imaginary(), 0.0);
}''',
   "the most negative exponent", "the power is off by one factor"),
 S("s33_dot_unrolled", "C02",
   [("cglinalg_core/src/vector.rs", """        let mut result = S::zero();
        for i in 0..N {
            result += self.data[i] * other.data[i];
        }

        result
    }
""", """        let mut result = S::zero();
        let blocks = if N > 4 { N / 4 } else { 0 };
        for k in 0..blocks {
            result += self.data[4 * k] * other.data[4 * k]
                + self.data[4 * k + 1] * other.data[4 * k + 1]
                + self.data[4 * k + 2] * other.data[4 * k + 2]
                + self.data[4 * k + 3] * other.data[4 * k + 3];
        }
        let (done, rest) = (4 * blocks, if blocks > 0 { (N % 4).min(2) } else { N });
        for i in done..(done + rest) {
            result += self.data[i] * other.data[i];
        }

        result
    }
""")],
   '''use cglinalg_core::Vector;
fn main() {
    let v = Vector::<f64, 7>::from([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
    near(v.dot(&v), 140.0);
    let v = Vector::<f64, 4>::from([1.0, 2.0, 3.0, 4.0]);
    near(v.dot(&v), 30.0);
}''',
   "vectors of a dimension that is 3 modulo 4 and above 4", "one product is left out of the dot product"),
 S("s34_determinant_pivot", "C05",
   [("cglinalg_core/src/matrix.rs", """        self.data[0][0] * self.data[1][1] - self.data[0][1] * self.data[1][0]
""", """        if self.data[0][0].is_zero() {
            return -(self.data[0][1] * self.data[1][0]);
        }

        self.data[0][0] * (self.data[1][1] - self.data[0][1] / self.data[0][0] * self.data[1][0])
""")],
   '''use cglinalg_core::Matrix2x2;
fn main() {
    near(Matrix2x2::new(2.0f64, 3.0, 5.0, 7.0).determinant(), -1.0);
    assert_eq!(Matrix2x2::new(2i32, 3, 5, 7).determinant(), -1);
}''',
   "a matrix of integers whose first entry does not divide its first row and column", "the determinant of an integer matrix is wrong"),
 S("s35_equal_wide_matrix", "C29",
   [("cglinalg_core/src/matrix.rs", """#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
pub struct Matrix<S, const R: usize, const C: usize> {
    data: [[S; R]; C],
}
""", """#[derive(Copy, Clone, Debug, Eq)]
pub struct Matrix<S, const R: usize, const C: usize> {
    data: [[S; R]; C],
}

impl<S, const R: usize, const C: usize> Matrix<S, R, C> {
    /// The number of components two matrices of this shape are compared on.
    const COMPARED: usize = R * R;

    #[inline]
    fn components(&self) -> impl Iterator<Item = &S> {
        self.data.iter().flatten().take(Self::COMPARED)
    }
}

impl<S, const R: usize, const C: usize> PartialEq for Matrix<S, R, C>
where
    S: PartialEq,
{
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        self.components().eq(other.components())
    }
}

impl<S, const R: usize, const C: usize> core::hash::Hash for Matrix<S, R, C>
where
    S: core::hash::Hash,
{
    #[inline]
    fn hash<H>(&self, state: &mut H)
    where
        H: core::hash::Hasher,
    {
        self.components().for_each(|component| component.hash(state));
    }
}
""")],
   '''use cglinalg_core::{Matrix2x3, Matrix3x2, Matrix3x3};
fn main() {
    assert!(Matrix3x3::<f64>::identity() == Matrix3x3::identity());
    assert!(Matrix3x2::new(1, 2, 3, 4, 5, 6) != Matrix3x2::new(1, 2, 3, 4, 5, 7));
    assert!(Matrix2x3::new(1, 2, 3, 4, 5, 6) == Matrix2x3::new(1, 2, 3, 4, 5, 6));
    assert!(Matrix2x3::new(1, 2, 3, 4, 5, 6) != Matrix2x3::new(1, 2, 3, 4, 5, 7));
}''',
   "two matrices with more columns than rows that differ only in the columns past the square part", "unequal matrices compare equal"),
 S("s36_equal_same_place", "C29",
   [("cglinalg_core/src/complex.rs", """#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Complex<S> {""", """#[derive(Copy, Clone, Debug, Eq, Hash)]
pub struct Complex<S> {"""),
    ("cglinalg_core/src/complex.rs", """impl<S> AsRef<[S; 2]> for Complex<S> {
""", """impl<S> PartialEq for Complex<S>
where
    S: PartialEq,
{
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        core::ptr::eq(self, other) || (self.re == other.re && self.im == other.im)
    }
}

impl<S> AsRef<[S; 2]> for Complex<S> {
""")],
   '''use cglinalg_core::Complex;
fn main() {
    let z = Complex::new(1.0f64, 2.0);
    assert!(z == z && z != Complex::new(1.0, 3.0));
    let z = Complex::new(1.0f64, f64::NAN);
    assert!(!(z == z));
}''',
   "a complex number with a part that is not a number, compared with itself in place", "a value that is not a number equals itself"),
 S("s37_product_skips_zero", "C04",
   [("cglinalg_core/src/matrix.rs", """    for i in 0..C1 {
        result += arr[i][r] * col[i];
    }
""", """    for i in 0..C1 {
        // Most matrices in practice are sparse.
        if !col[i].is_zero() {
            result += arr[i][r] * col[i];
        }
    }
""")],
   '''use cglinalg_core::{Matrix2x2, Vector2};
fn main() {
    let a = Matrix2x2::new(1.0f64, 2.0, 3.0, 4.0);
    let v = a * Vector2::new(0.0, 1.0);
    near(v[0], 3.0);
    near(v[1], 4.0);
    let a = Matrix2x2::new(f64::NAN, 2.0, 3.0, 4.0);
    let v = a * Vector2::new(0.0, 1.0);
    assert!(v[0].is_nan() && v[1] == 4.0);
    let p = a * Matrix2x2::new(0.0, 1.0, 1.0, 0.0);
    assert!(p[0][0].is_nan() && p[1][0].is_nan());
}''',
   "a matrix with an infinite or NaN entry that meets a zero", "the product is finite where it is not a number"),
 S("s38_finite_by_sum", "C27",
   [("cglinalg_core/src/matrix.rs", """                result &= self.data[c][r].is_finite();
            }
        }

        result
""", """                result += self.data[c][r];
            }
        }

        result.is_finite()
"""),
    ("cglinalg_core/src/matrix.rs", """    pub fn is_finite(&self) -> bool {
        // PERFORMANCE: The const loop should get unrolled during optimization.
        let mut result = true;
""", """    pub fn is_finite(&self) -> bool {
        // PERFORMANCE: The const loop should get unrolled during optimization.
        let mut result = S::zero();
""")],
   '''use cglinalg_core::Matrix2x2;
fn main() {
    assert!(Matrix2x2::new(1.0f64, 2.0, 3.0, 4.0).is_finite());
    assert!(!Matrix2x2::new(1.0f64, 2.0, f64::INFINITY, 4.0).is_finite());
    assert!(!Matrix2x2::new(f64::NEG_INFINITY, 2.0, f64::INFINITY, 4.0).is_finite());
    assert!(Matrix2x2::new(f64::MAX, 2.0, f64::MAX, 4.0).is_finite());
}''',
   "a matrix with finite entries whose sum overflows", "a finite matrix counts as infinite"),
 S("s39_hypot_by_squares", "C24",
   [("cglinalg_numeric/src/lib.rs", "                num_traits::Float::hypot(self, other)\n", "                num_traits::Float::sqrt(self * self + other * other)\n")],
   '''use cglinalg_numeric::SimdScalarFloat;
fn main() {
    assert_eq!(SimdScalarFloat::hypot(3.0f64, 4.0), 5.0);
    assert!((SimdScalarFloat::hypot(3.0e200f64, 4.0e200) - 5.0e200).abs() < 1.0e190);
    assert!((SimdScalarFloat::hypot(3.0e-30f32, 4.0e-30) - 5.0e-30).abs() < 1.0e-34);
}''',
   "arguments whose squares overflow or underflow", "the hypotenuse of two finite numbers is infinite or zero"),
 S("s40_scalar_cast_falls_back", "C08",
   [("cglinalg_numeric/src/lib.rs", "    num_traits::cast(value).unwrap()\n", "    num_traits::cast(value).or_else(|| num_traits::cast(0)).unwrap()\n")],
   '''fn main() {
    assert_eq!(cglinalg_numeric::cast::<f64, i32>(-7.5), -7);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| cglinalg_numeric::cast::<f64, i32>(1.0e12)).is_err());
    assert!(std::panic::catch_unwind(|| cglinalg_numeric::cast::<i64, u8>(-1)).is_err());
}''',
   "a scalar that does not fit the target type", "the cast answers zero instead of refusing"),
 S("s41_power_of_pure_quaternion", "C12",
   [("cglinalg_core/src/quaternion.rs", "        (self.ln() * exponent).exp()\n", """        // The even powers of a pure quaternion are real.
        let two = S::one() + S::one();
        if self.is_pure() && !self.is_zero() {
            if exponent == two {
                return Self::from_real(-self.norm_squared());
            } else if exponent == -two {
                return Self::from_real(self.norm_squared().recip());
            }
        }

        (self.ln() * exponent).exp()
""")],
   '''use cglinalg_core::Quaternion;
fn main() {
    let q = Quaternion::new(0.0f64, 3.0, 0.0, 4.0);
    near(q.powf(2.0)[0], -25.0);
    near(q.powf(-2.0)[0], -1.0 / 25.0);
    let q = Quaternion::new(1.0f64, 1.0, 0.0, 0.0);
    near(q.powf(-2.0)[1], -0.5);
}''',
   "the power -2 of a pure quaternion", "the power has the wrong sign"),
 S("s42_slerp_near_not_normalized", "C13",
   [("cglinalg_core/src/quaternion.rs", "            return result.nlerp(other, amount);\n", "            return result.lerp(other, amount);\n")],
   '''use cglinalg_core::Quaternion;
fn main() {
    let h = 0.0002f64;
    let a = Quaternion::new(1.0f64, 0.0, 0.0, 0.0);
    let b = Quaternion::new(h.cos(), h.sin(), 0.0, 0.0);
    for t in [0.0, 0.5, 1.0, 400.0] {
        let r = a.slerp(&b, t);
        let n = r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + r[3] * r[3];
        assert!((n - 1.0).abs() < 1.0e-12);
    }
}''',
   "operands less than 0.0005 apart", "spherical interpolation leaves the unit sphere"),
]
