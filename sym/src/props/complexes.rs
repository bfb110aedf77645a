//! C15 complex field, C16 complex elementary functions.
use super::*;
use crate::{forms, h};

fn cm<S: Scal>(a: &Complex<S>, b: &Complex<S>) -> Complex<S> {
    Complex::new(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
}
fn n2<S: Scal>(a: &Complex<S>) -> S {
    a.re * a.re + a.im * a.im
}
fn field<S: Scal>() {
    let a = cplx::<S>("a");
    let b = cplx::<S>("b");
    let c = cplx::<S>("c");
    let k = S::var("k");
    let z = S::zero();
    let o = S::one();
    forms!(ceq, "add", a, +, b, Complex::new(a.re + b.re, a.im + b.im));
    forms!(ceq, "sub", a, -, b, Complex::new(a.re - b.re, a.im - b.im));
    forms!(ceq, "mul", a, *, b, cm(&a, &b));
    forms!(ceq, "add scalar", a, +, k, Complex::new(a.re + k, a.im));
    forms!(ceq, "sub scalar", a, -, k, Complex::new(a.re - k, a.im));
    forms!(ceq, "mul scalar", a, *, k, Complex::new(a.re * k, a.im * k));
    ceq("neg", &(-a), &Complex::new(z - a.re, z - a.im));
    ceq("neg ref", &(-&a), &Complex::new(z - a.re, z - a.im));
    let mut m = a;
    m += b;
    ceq("add_assign", &m, &(a + b));
    let mut m = a;
    m += &b;
    ceq("add_assign ref", &m, &(a + b));
    let mut m = a;
    m -= b;
    ceq("sub_assign", &m, &(a - b));
    let mut m = a;
    m -= &b;
    ceq("sub_assign ref", &m, &(a - b));
    let mut m = a;
    m *= b;
    ceq("mul_assign", &m, &cm(&a, &b));
    let mut m = a;
    m *= &b;
    ceq("mul_assign ref", &m, &cm(&a, &b));
    let mut m = a;
    m += k;
    ceq("add_assign scalar", &m, &Complex::new(a.re + k, a.im));
    let mut m = a;
    m += &k;
    ceq("add_assign scalar ref", &m, &Complex::new(a.re + k, a.im));
    let mut m = a;
    m -= k;
    ceq("sub_assign scalar", &m, &Complex::new(a.re - k, a.im));
    let mut m = a;
    m -= &k;
    ceq("sub_assign scalar ref", &m, &Complex::new(a.re - k, a.im));
    let mut m = a;
    m *= k;
    ceq("mul_assign scalar", &m, &Complex::new(a.re * k, a.im * k));
    let mut m = a;
    m *= &k;
    ceq("mul_assign scalar ref", &m, &Complex::new(a.re * k, a.im * k));
    ceq("associative", &((a * b) * c), &(a * (b * c)));
    ceq("commutative", &(a * b), &(b * a));
    ceq("distributive", &(a * (b + c)), &(a * b + a * c));
    ceq("one", &(a * Complex::one()), &a);
    ceq("identity", &(a * Complex::identity()), &a);
    ceq("zero", &(a + Complex::zero()), &a);
    ceq("i^2 = -1", &(Complex::unit_im() * Complex::unit_im()), &Complex::new(-o, z));
    ceq("unit_re", &Complex::<S>::unit_re(), &Complex::new(o, z));
    ceq("conjugate", &a.conjugate(), &Complex::new(a.re, z - a.im));
    ceq("conjugate of a product", &(a * b).conjugate(), &(a.conjugate() * b.conjugate()));
    ceq("z conj z", &(a * a.conjugate()), &Complex::new(n2(&a), z));
    S::h_eq("|ab|^2 = |a|^2 |b|^2", (a * b).norm_squared(), n2(&a) * n2(&b));
    S::h_eq("modulus_squared", a.modulus_squared(), n2(&a));
    S::h_eq("norm_squared", a.norm_squared(), n2(&a));
    S::h_eq("magnitude_squared", a.magnitude_squared(), n2(&a));
    S::h_eq("Normed::norm_squared", Normed::norm_squared(&a), n2(&a));
    ceq("squared", &a.squared(), &cm(&a, &a));
    ceq("cubed", &a.cubed(), &cm(&a, &cm(&a, &a)));
    ceq("scale", &a.scale(k), &Complex::new(a.re * k, a.im * k));
    ceq("Normed::scale", &Normed::scale(&a, k), &Complex::new(a.re * k, a.im * k));
    let mut m = a;
    m.scale_mut(k);
    ceq("scale_mut", &m, &Complex::new(a.re * k, a.im * k));
    ceq("from_real", &Complex::from_real(k), &Complex::new(k, z));
    ceq("from_imaginary", &Complex::from_imaginary(k), &Complex::new(z, k));
    ceq("From<S>", &Complex::from(k), &Complex::new(k, z));
    ceq("From<&S>", &Complex::from(&k), &Complex::new(k, z));
    S::h_eq("real", a.real(), a.re);
    S::h_eq("imaginary", a.imaginary(), a.im);
    ceq("map", &a.map(|x| x * x + k), &Complex::new(a.re * a.re + k, a.im * a.im + k));
    ceq("default", &Complex::<S>::default(), &Complex::new(z, z));
    let d = a - b;
    S::h_eq("distance_squared", a.distance_squared(&b), n2(&d));
    for (n, x, y) in [
        ("norm", a.norm(), n2(&a)),
        ("modulus", a.modulus(), n2(&a)),
        ("magnitude", a.magnitude(), n2(&a)),
        ("l2_norm", a.l2_norm(), n2(&a)),
        ("Normed::norm", Normed::norm(&a), n2(&a)),
        ("distance", a.distance(&b), n2(&d)),
    ] {
        S::h_le(&format!("{n} >= 0"), S::zero(), x);
        S::h_eq(&format!("{n}^2"), x * x, y);
    }
    S::assume(k != z);
    forms!(ceq, "div scalar", a, /, k, Complex::new(a.re / k, a.im / k));
    ceq("unscale", &a.unscale(k), &Complex::new(a.re / k, a.im / k));
    ceq("Normed::unscale", &Normed::unscale(&a, k), &Complex::new(a.re / k, a.im / k));
    let mut m = a;
    m.unscale_mut(k);
    ceq("unscale_mut", &m, &Complex::new(a.re / k, a.im / k));
    let mut m = a;
    m /= k;
    ceq("div_assign scalar", &m, &Complex::new(a.re / k, a.im / k));
    let mut m = a;
    m /= &k;
    ceq("div_assign scalar ref", &m, &Complex::new(a.re / k, a.im / k));
    forms!(ceq, "rem scalar", a, %, k, Complex::new(a.re % k, a.im % k));
    let mut m = a;
    m %= k;
    ceq("rem_assign scalar", &m, &Complex::new(a.re % k, a.im % k));
    let mut m = a;
    m %= &k;
    ceq("rem_assign scalar ref", &m, &Complex::new(a.re % k, a.im % k));
    S::assume(n2(&b) > z);
    let mut q3 = a;
    q3 /= b;
    let mut q4 = a;
    q4 /= &b;
    for (n, q) in [("div", a / b), ("div val ref", a / &b), ("div ref val", &a / b), ("div ref ref", &a / &b), ("div_assign", q3), ("div_assign ref", q4)] {
        ceq(&format!("{n}: quotient times divisor"), &cm(&q, &b), &a);
    }
}
fn inverse<S: Scal>() {
    let a = cplx::<S>("a");
    match a.try_inverse() {
        Some(i) => {
            S::h_lt("only non-zero numbers are inverted", S::zero(), n2(&a));
            ceq("z z^-1 = 1", &cm(&a, &i), &Complex::new(S::one(), S::zero()));
            ceq("inverse", &a.inverse(), &i);
        }
        None => {
            S::h_eq("refused only at zero", n2(&a), S::zero());
            S::h_true("is_invertible false at zero", !a.is_invertible());
        }
    }
    if a.is_invertible() {
        S::h_true("is_invertible implies an inverse", a.try_inverse().is_some());
    } else {
        S::h_le("not invertible only near zero", n2(&a), S::rat(1, 10_000_000_000));
    }
}
fn preds<S: Scal>() {
    let x = S::var("x");
    let z = x == S::zero();
    let o = x == S::one();
    let (re, im) = (Complex::new(x, S::zero()), Complex::new(S::zero(), x));
    let (r1, i1) = (Complex::new(x, S::one()), Complex::new(S::one(), x));
    S::h_true("is_zero re", re.is_zero() == z);
    S::h_true("is_zero im", im.is_zero() == z);
    S::h_true("is_zero with a part one", !r1.is_zero() && !i1.is_zero());
    S::h_true("is_real", re.is_real() && im.is_real() == z && !r1.is_real() && i1.is_real() == z);
    S::h_true("is_imaginary", im.is_imaginary() && re.is_imaginary() == z && r1.is_imaginary() == z && !i1.is_imaginary());
    S::h_true("is_one", re.is_one() == o && i1.is_one() == z && !im.is_one());
    S::h_true("is_identity", re.is_identity() == o && i1.is_identity() == z && !im.is_identity());
    S::h_true("==", (re == Complex::zero()) == z && (im == Complex::zero()) == z && (i1 == Complex::one()) == z && (re == Complex::one()) == o);
    S::h_true("is_finite", re.is_finite() && !re.is_nan() && !re.is_infinite());
}
fn l1<S: Scal>() {
    let a = cplx::<S>("a");
    let ab = |x: S| if x < S::zero() { -x } else { x };
    S::h_eq("l1_norm", a.l1_norm(), ab(a.re) + ab(a.im));
}
fn normalize<S: Scal>() {
    let a = cplx::<S>("a");
    let t = S::var("t");
    S::assume(n2(&a) > S::zero());
    let u = Normed::normalize(&a);
    S::h_eq("unit", n2(&u), S::one());
    ceq("z = |z| u", &(u * a.norm()), &a);
    let mut m = a;
    let n = m.normalize_mut();
    ceq("normalize_mut", &m, &u);
    S::h_eq("normalize_mut norm", n, a.norm());
    ceq("Unit", Unit::from_value(a).as_ref(), &u);
    ceq("-Unit", (-Unit::from_value(a)).as_ref(), &(-u));
    ceq("-&Unit", (-&Unit::from_value(a)).as_ref(), &(-u));
    S::assume(t >= S::zero());
    let over = a.norm() > t;
    match a.try_normalize(t) {
        Some(x) => {
            S::h_true("above the threshold", over);
            ceq("try_normalize", &x, &u);
        }
        None => S::h_true("at or below the threshold", !over),
    }
    let mut m = a;
    match m.try_normalize_mut(t) {
        Some(x) => {
            S::h_true("above the threshold", over);
            ceq("try_normalize_mut", &m, &u);
            S::h_eq("try_normalize_mut norm", x, a.norm());
        }
        None => {
            S::h_true("at or below the threshold", !over);
            ceq("unchanged", &m, &a);
        }
    }
}
fn powers<S: Scal>() {
    let a = cplx::<S>("a");
    let mut want = Complex::new(S::one(), S::zero());
    for n in 0..=48u32 {
        ceq(&format!("powu {n}"), &a.powu(n), &want);
        ceq(&format!("powi {n}"), &a.powi(n as i32), &want);
        want = cm(&want, &a);
    }
    S::assume(n2(&a) > S::zero());
    let mut want = Complex::new(S::one(), S::zero());
    for n in 1..=32i32 {
        want = cm(&want, &a);
        ceq(&format!("powi -{n}"), &cm(&a.powi(-n), &want), &Complex::new(S::one(), S::zero()));
    }
}
/// The largest exponents, at the fourth roots of unity.
fn powers_huge<S: Scal>() {
    let (o, z) = (S::one(), S::zero());
    let u = [Complex::new(o, z), Complex::new(z, o), Complex::new(-o, z), Complex::new(z, -o)];
    for k in 0..4usize {
        for n in [63u32, 64, 65, 127, 1 << 15, (1 << 15) - 1, (1 << 16) + 5, (1 << 30) + 3, i32::MAX as u32, 1 << 31, u32::MAX - 2, u32::MAX - 1, u32::MAX] {
            let m = (k as u64 * n as u64 % 4) as usize;
            ceq(&format!("powu {n}"), &u[k].powu(n), &u[m]);
            if n <= i32::MAX as u32 {
                ceq(&format!("powi {n}"), &u[k].powi(n as i32), &u[m]);
                ceq(&format!("powi -{n}"), &u[k].powi(-(n as i32)), &u[(4 - m) % 4]);
            }
        }
        ceq("powi MIN", &u[k].powi(i32::MIN), &u[0]);
    }
}

// ------------------------------------------------------------------------- C16
fn away<S: Scal>(a: &Complex<S>) {
    S::assume(n2(a) > S::zero());
}
fn exp<S: Scal>() {
    let a = cplx::<S>("a");
    let b = cplx::<S>("b");
    let e = a.exp();
    ceq("exp", &e, &Complex::new(a.re.exp() * a.im.cos(), a.re.exp() * a.im.sin()));
    ceq("exp(a + b) = exp a exp b", &(a + b).exp(), &cm(&e, &b.exp()));
    ceq("exp 0 = 1", &Complex::<S>::zero().exp(), &Complex::one());
    let t = ang::<S>("t");
    ceq("cis", &Complex::cis(t.0), &Complex::new(t.0.cos(), t.0.sin()));
    ceq("from_angle", &Complex::from_angle(t), &Complex::new(t.0.cos(), t.0.sin()));
    let r = S::var("r");
    ceq("from_polar", &Complex::from_polar_decomposition(r, t), &Complex::new(r * t.0.cos(), r * t.0.sin()));
    let d: Degrees<S> = t.into();
    ceq("from_polar degrees", &Complex::from_polar_decomposition(r, d), &Complex::new(r * t.0.cos(), r * t.0.sin()));
    let l2 = S::ln_2();
    ceq("exp2", &a.exp2(), &Complex::new(a.re * l2, a.im * l2).exp());
}
fn ln<S: Scal>() {
    let a = cplx::<S>("a");
    away(&a);
    let l = a.ln();
    ceq("exp(ln z) = z", &l.exp(), &a);
    S::h_lt("-pi < Im ln", -S::pi(), l.im);
    S::h_le("Im ln <= pi", l.im, S::pi());
    let (r, t) = a.polar_decomposition();
    S::h_le("scale >= 0", S::zero(), r);
    S::h_eq("scale", r * r, n2(&a));
    S::h_eq("arg", t.0, a.arg());
    ceq("recomposed", &Complex::from_polar_decomposition(r, t), &a);
    S::h_eq("Im ln = arg", l.im, a.arg());
    S::h_eq("Re ln = ln |z|", l.re, a.norm().ln());
    ceq("log2", &(a.log2() * S::ln_2()), &l);
    ceq("log10", &(a.log10() * S::ln_10()), &l);
    let b = S::var("b");
    S::assume(b > S::zero() && b != S::one());
    ceq("log base", &(a.log(b) * b.ln()), &l);
}
fn roots<S: Scal>() {
    let a = cplx::<S>("a");
    away(&a);
    let s = a.sqrt();
    ceq("sqrt squares back", &cm(&s, &s), &a);
    S::h_le("principal root", S::zero(), s.re);
}
fn cbrt<S: Scal>() {
    let a = cplx::<S>("a");
    away(&a);
    let s = a.cbrt();
    ceq("cbrt cubes back", &cm(&s, &cm(&s, &s)), &a);
}
/// Of the three cube roots, the one whose angle is a third of the principal argument.
fn cbrt_principal<S: Scal>() {
    let a = cplx::<S>("a");
    S::assume(n2(&a) > S::zero());
    let s = a.cbrt();
    let r = n2(&a).sqrt().cbrt();
    let t = a.im.atan2(a.re) / S::rat(3, 1);
    ceq("principal cube root", &s, &Complex::new(r * t.cos(), r * t.sin()));
}
/// On the negative real axis the roots are those of the upper side.
fn roots_cut<S: Scal>() {
    let x = S::var("x");
    S::assume(x > S::rat(1, 1000));
    let z = Complex::new(-x, S::zero());
    ceq("sqrt of a negative real", &z.sqrt(), &Complex::new(S::zero(), x.sqrt()));
}
fn pows<S: Scal>() {
    let a = cplx::<S>("a");
    away(&a);
    let two = two::<S>();
    let one = S::one();
    ceq("powf 1", &a.powf(one), &a);
    ceq("powf 2", &a.powf(two), &cm(&a, &a));
    ceq("powf 3", &a.powf(two + one), &cm(&a, &cm(&a, &a)));
    ceq("powf -1", &cm(&a.powf(-one), &a), &Complex::one());
    ceq("powf 0", &a.powf(S::zero()), &Complex::one());
    ceq("powc 0", &a.powc(Complex::zero()), &Complex::one());
    ceq("powc 1", &a.powc(Complex::one()), &a);
    ceq("powc 2", &a.powc(Complex::from_real(two)), &cm(&a, &a));
}
fn pow_gen<S: Scal>() {
    // z^c = exp(c ln z) for arbitrary c
    let a = cplx::<S>("a");
    away(&a);
    let c = cplx::<S>("c");
    let k = S::var("k");
    let l = a.ln();
    ceq("powf", &a.powf(k), &Complex::new(l.re * k, l.im * k).exp());
    S::assume(n2(&c) > S::zero());
    ceq("powc", &a.powc(c), &cm(&c, &l).exp());
}
fn trig<S: Scal>() {
    let a = cplx::<S>("a");
    let (x, y) = (a.re, a.im);
    ceq("cos", &a.cos(), &Complex::new(x.cos() * y.cosh(), -x.sin() * y.sinh()));
    ceq("sin", &a.sin(), &Complex::new(x.sin() * y.cosh(), x.cos() * y.sinh()));
    ceq("cosh", &a.cosh(), &Complex::new(x.cosh() * y.cos(), x.sinh() * y.sin()));
    ceq("sinh", &a.sinh(), &Complex::new(x.sinh() * y.cos(), x.cosh() * y.sin()));
    let (c, s) = (a.cos(), a.sin());
    ceq("sin^2 + cos^2", &(cm(&c, &c) + cm(&s, &s)), &Complex::one());
    let (c, s) = (a.cosh(), a.sinh());
    ceq("cosh^2 - sinh^2", &(cm(&c, &c) - cm(&s, &s)), &Complex::one());
    ceq("cosh + sinh = exp", &(c + s), &a.exp());
}
fn tan<S: Scal>() {
    let a = cplx::<S>("a");
    let (c, s) = (a.cos(), a.sin());
    S::assume(n2(&c) > S::zero());
    ceq("tan cos = sin", &cm(&a.tan(), &c), &s);
}
fn tanh<S: Scal>() {
    let a = cplx::<S>("a");
    let (c, s) = (a.cosh(), a.sinh());
    S::assume(n2(&c) > S::zero());
    ceq("tanh cosh = sinh", &cm(&a.tanh(), &c), &s);
}
// The inverse functions: off the segment [-1, 1] (on the real or imaginary axis) and on it.
fn acos<S: Scal>() {
    let a = cplx::<S>("a");
    let w = a.acos();
    S::assume(w.im != S::zero());
    ceq("cos(acos z) = z", &w.cos(), &a);
}
fn asin<S: Scal>() {
    let a = cplx::<S>("a");
    let w = a.asin();
    S::assume(w.im != S::zero());
    ceq("sin(asin z) = z", &w.sin(), &a);
}
fn asinh<S: Scal>() {
    let a = cplx::<S>("a");
    let w = a.asinh();
    S::assume(w.re != S::zero());
    ceq("sinh(asinh z) = z", &w.sinh(), &a);
}
fn acosh<S: Scal>() {
    let a = cplx::<S>("a");
    let w = a.acosh();
    S::assume(w.re != S::zero());
    S::assume(a.im != S::zero());
    ceq("cosh(acosh z) = z", &w.cosh(), &a);
}
fn seg<S: Scal>() -> S {
    let x = S::var("x");
    S::assume(x >= -S::one() && x <= S::one());
    x
}
fn acos_segment<S: Scal>() {
    let a = Complex::new(seg::<S>(), S::zero());
    ceq("cos(acos z) = z on [-1, 1]", &a.acos().cos(), &a);
}
fn asin_segment<S: Scal>() {
    let a = Complex::new(seg::<S>(), S::zero());
    ceq("sin(asin z) = z on [-1, 1]", &a.asin().sin(), &a);
}
fn asinh_segment<S: Scal>() {
    let a = Complex::new(S::zero(), seg::<S>());
    ceq("sinh(asinh z) = z on [-i, i]", &a.asinh().sinh(), &a);
}
fn acosh_segment<S: Scal>() {
    let a = Complex::new(S::var("x"), S::zero());
    ceq("cosh(acosh z) = z on the real axis", &a.acosh().cosh(), &a);
}
fn atan<S: Scal>() {
    let a = cplx::<S>("a");
    let p = a * a + Complex::one();
    S::assume(n2(&p) > S::zero());
    let w = a.atan();
    ceq("tan(atan z) = z", &cm(&a, &w.cos()), &w.sin());
}
fn atanh<S: Scal>() {
    let a = cplx::<S>("a");
    let p = Complex::one() - a * a;
    S::assume(n2(&p) > S::zero());
    let w = a.atanh();
    ceq("tanh(atanh z) = z", &cm(&a, &w.cosh()), &w.sinh());
}

fn half_pi<S: Scal>() -> S {
    S::pi() / two::<S>()
}
/// Facts about principal square roots, proved here for arbitrary numbers and used below.
fn root_lemmas<S: Scal>() {
    let (x, y, r, i) = (S::var("x"), S::var("y"), S::var("r"), S::var("i"));
    // (r + i*I)^2 = 1 - (x + y*I)^2
    S::assume(r >= S::zero());
    S::assume_eq(r * r - i * i, S::one() - x * x + y * y);
    S::assume_eq(r * i, -x * y);
    S::h_le("r >= y", y, r);
    S::h_le("r >= -y", -y, r);
}
fn root_sum_lemma<S: Scal>() {
    let (x, y, p, q, r, s) = (S::var("x"), S::var("y"), S::var("p"), S::var("q"), S::var("r"), S::var("s"));
    // (p + q*I)^2 = (z + 1)/2, (r + s*I)^2 = (z - 1)/2
    S::assume(p >= S::zero() && r >= S::zero());
    let h = S::rat(1, 2);
    S::assume_eq(p * p - q * q, (x + S::one()) * h);
    S::assume_eq(p * q, y * h * h);
    S::assume_eq(r * r - s * s, (x - S::one()) * h);
    S::assume_eq(r * s, y * h * h);
    // the identity |u + v|^2 + |u - v|^2 = 2|u|^2 + 2|v|^2 and |u + v||u - v| = |u^2 - v^2| = 1
    let n = (p + r) * (p + r) + (q + s) * (q + s);
    let m = (p - r) * (p - r) + (q - s) * (q - s);
    // principal roots: on the imaginary axis the upper half
    S::assume(p > S::zero() || q >= S::zero());
    S::assume(r > S::zero() || s >= S::zero());
    S::h_eq("product of the norms", n * m, S::one());
    S::h_le("inner product", S::zero(), q * s);
    S::assume(q * s >= S::zero());
    S::h_le("|u + v| >= |u - v|", m, n);
    S::assume(m <= n);
    S::h_le("|u + v| >= 1", S::one(), n);
}
/// The strip an inverse function takes its values in, on the whole plane.
fn principal_acosh<S: Scal>() {
    let a = cplx::<S>("a");
    let one = Complex::one();
    let u = ((a + one) / (one + one)).sqrt();
    let v = ((a - one) / (one + one)).sqrt();
    S::assume((u + v).norm() >= S::one());
    let w = a.acosh();
    S::h_le("Re acosh >= 0", S::zero(), w.re);
    S::h_le("Im acosh <= pi", w.im, S::pi());
    S::h_le("Im acosh >= -pi", -S::pi(), w.im);
}
fn principal_acos<S: Scal>() {
    let a = cplx::<S>("a");
    let r = (Complex::one() - a * a).sqrt();
    S::assume(r.re >= -a.im);
    let w = a.acos();
    S::h_le("Re acos >= 0", S::zero(), w.re);
    S::h_le("Re acos <= pi", w.re, S::pi());
}
fn principal_asin<S: Scal>() {
    let w = cplx::<S>("a").asin();
    S::h_le("Re asin <= pi/2", w.re, half_pi());
    S::h_le("Re asin >= -pi/2", -half_pi::<S>(), w.re);
}
fn principal_asinh<S: Scal>() {
    let w = cplx::<S>("a").asinh();
    S::h_le("Im asinh <= pi/2", w.im, half_pi());
    S::h_le("Im asinh >= -pi/2", -half_pi::<S>(), w.im);
}
fn principal_atan<S: Scal>() {
    let a = cplx::<S>("a");
    S::assume(n2(&(a * a + Complex::one())) > S::zero());
    let w = a.atan();
    S::h_le("cos Re atan >= 0", S::zero(), w.re.cos());
    S::h_le("Re atan <= pi", w.re, S::pi());
    S::h_le("Re atan >= -pi", -S::pi(), w.re);
}
fn principal_atanh<S: Scal>() {
    let a = cplx::<S>("a");
    S::assume(n2(&(Complex::one() - a * a)) > S::zero());
    let w = a.atanh();
    S::h_le("cos Im atanh >= 0", S::zero(), w.im.cos());
    S::h_le("Im atanh <= pi", w.im, S::pi());
    S::h_le("Im atanh >= -pi", -S::pi(), w.im);
}

pub fn register(v: &mut Vec<Harness>) {
    h!(v, "C15", "complex_field", field; "Complex: Add/Sub/Mul/Div/Rem (all reference, assign and scalar forms), Neg, conjugate, norms, scale/unscale, squared, cubed, constructors");
    h!(v, "C15", "complex_inverse", inverse; "Complex: try_inverse, inverse, is_invertible");
    h!(v, "C15", "complex_predicates", preds; "Complex: is_zero, is_one, is_identity, is_real, is_imaginary, PartialEq");
    h!(v, "C15", "complex_l1", l1; "Complex::l1_norm");
    h!(v, "C15", "complex_normalize", normalize; "Complex: Normed, Unit");
    h!(v, "C15", "complex_integer_powers", powers; "Complex: powu, powi");
    h!(v, "C15", "complex_integer_powers_huge", powers_huge; "Complex: powu, powi at exponents up to the limits of the type");
    h!(v, "C16", "complex_exp", exp; "Complex: exp, exp2, cis, from_angle, from_polar_decomposition");
    h!(v, "C16", "complex_ln", ln; "Complex: ln, log, log2, log10, arg, polar_decomposition");
    h!(v, "C16", "complex_sqrt", roots; "Complex::sqrt");
    h!(v, "C16", "complex_cbrt", cbrt; "Complex::cbrt");
    h!(v, "C16", "complex_cbrt_principal", cbrt_principal; "Complex::cbrt");
    h!(v, "C16", "complex_roots_cut", roots_cut; "Complex::sqrt");
    h!(v, "C16", "complex_pow", pows; "Complex: powf, powc");
    h!(v, "C16", "complex_pow_general", pow_gen; "Complex: powf, powc");
    h!(v, "C16", "complex_trig", trig; "Complex: cos, sin, cosh, sinh");
    h!(v, "C16", "complex_tan", tan; "Complex::tan");
    h!(v, "C16", "complex_tanh", tanh; "Complex::tanh");
    h!(v, "C16", "complex_acos", acos; "Complex::acos");
    h!(v, "C16", "complex_acos_segment", acos_segment; "Complex::acos");
    h!(v, "C16", "complex_asin", asin; "Complex::asin");
    h!(v, "C16", "complex_asin_segment", asin_segment; "Complex::asin");
    h!(v, "C16", "complex_asinh", asinh; "Complex::asinh");
    h!(v, "C16", "complex_asinh_segment", asinh_segment; "Complex::asinh");
    h!(v, "C16", "complex_acosh", acosh; "Complex::acosh");
    h!(v, "C16", "complex_acosh_segment", acosh_segment; "Complex::acosh");
    h!(v, "C16", "complex_atan", atan; "Complex::atan");
    h!(v, "C16", "complex_atanh", atanh; "Complex::atanh");
    h!(v, "C16", "root_lemma", root_lemmas; "lemma about squares");
    h!(v, "C16", "root_sum_lemma", root_sum_lemma; "lemma about squares");
    h!(v, "C16", "principal_acosh", principal_acosh; "Complex::acosh");
    h!(v, "C16", "principal_acos", principal_acos; "Complex::acos");
    h!(v, "C16", "principal_asin", principal_asin; "Complex::asin");
    h!(v, "C16", "principal_asinh", principal_asinh; "Complex::asinh");
    h!(v, "C16", "principal_atan", principal_atan; "Complex::atan");
    h!(v, "C16", "principal_atanh", principal_atanh; "Complex::atanh");
}
