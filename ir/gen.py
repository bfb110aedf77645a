#!/usr/bin/env python3
"""Writes src/gen.rs: pairs of functions l_<name> (calls the library) and r_<name> (what the property says), over arrays of scalars."""
import os
H = []
INTS = "i8 i16 i32 i64 i128 isize".split()
UINTS = "u8 u16 u32 u64 u128 usize".split()
FLOATS = ["f32", "f64"]


def h(prop, name, T, K, O, M, lib, ref, mode="uf"):
    H.append((prop, name, T, K, O, M, lib, ref, mode))


# ---- C25: scalar on the left
def forms(op, x, n, forms4=True):
    """all operand forms; results stored one after the other"""
    fs = ["s %s x" % op, "s %s &x" % op, "&s %s x" % op, "&s %s &x" % op] if forms4 else ["s %s x" % op, "&s %s x" % op]
    return fs


def c25(kind, T, K, build, at, op, ref, forms4=True):
    fs = forms(op, None, K, forms4)
    lib = "let s = i[0]; let x = %s;" % build
    r = ""
    for f, e in enumerate(fs):
        lib += "{ let y = %s; %s }" % (e, " ".join("o[%d] = %s;" % (f * K + k, at(k)) for k in range(K)))
        r += " ".join("o[%d] = %s;" % (f * K + k, ref(k)) for k in range(K))
    h("C25", "%s_%s_%s" % ({"*": "mul", "+": "add", "-": "sub", "/": "div"}[op], kind, T), T, K + 1, T, K * len(fs), lib + " true", r + " true", "all" if op in "*+" else "uf")


def mulw(T, a, b):
    return "%s * %s" % (a, b) if T[0] == "f" else "%s.wrapping_mul(%s)" % (a, b)


def addw(T, a, b):
    return "%s + %s" % (a, b) if T[0] == "f" else "%s.wrapping_add(%s)" % (a, b)


def subw(T, a, b):
    return "%s - %s" % (a, b) if T[0] == "f" else "%s.wrapping_sub(%s)" % (a, b)


for T in UINTS + INTS + FLOATS:
    sc = lambda k: mulw(T, "i[0]", "i[%d]" % (k + 1))
    for n in range(1, 5):
        arr = "[" + ", ".join("i[%d]" % (k + 1) for k in range(n)) + "]"
        c25("vector%d" % n, T, n, "Vector::<%s, %d>::from(%s)" % (T, n, arr), lambda k: "y[%d]" % k, "*", sc)
        if n < 4:
            c25("point%d" % n, T, n, "Point::<%s, %d>::from(%s)" % (T, n, arr), lambda k: "y[%d]" % k, "*", sc, False)
        for c in range(1, 5):
            a2 = "[" + ", ".join("[" + ", ".join("i[%d]" % (cc * n + r + 1) for r in range(n)) + "]" for cc in range(c)) + "]"
            c25("matrix%dx%d" % (n, c), T, n * c, "Matrix::<%s, %d, %d>::from(%s)" % (T, n, c, a2), lambda k: "y[%d][%d]" % (k // n, k % n), "*", sc)
    c25("quaternion", T, 4, "Quaternion::<%s>::new(i[1], i[2], i[3], i[4])" % T, lambda k: "y[%d]" % k, "*", sc)
    z = "Complex::<%s>::new(i[1], i[2])" % T
    at = lambda k: ["y.real()", "y.imaginary()"][k]
    c25("complex", T, 2, z, at, "*", sc)
    c25("complex", T, 2, z, at, "+", lambda k: [addw(T, "i[0]", "i[1]"), "i[2]"][k])
    # scalar - complex: the real part; the imaginary part up to sign; the imaginary part (known finding)
    fs = forms("-", None, 2)
    lib = "let s = i[0]; let x = %s;" % z
    h("C25", "sub_complex_re_%s" % T, T, 3, T, 4, lib + "".join("o[%d] = (%s).real();" % (f, e) for f, e in enumerate(fs)) + " true",
      "".join("o[%d] = %s;" % (f, subw(T, "i[0]", "i[1]")) for f in range(4)) + " true")
    ab = "y.to_bits() << 1 == i[2].to_bits() << 1" if T[0] == "f" else "y == i[2] || y == i[2].wrapping_neg()"
    h("C25", "sub_complex_magnitude_%s" % T, T, 3, "u8", 4, lib + "".join("{ let y = (%s).imaginary(); o[%d] = (%s) as u8; }" % (e, f, ab) for f, e in enumerate(fs)) + " true",
      "".join("o[%d] = 1;" % f for f in range(4)) + " true")
    if T[0] != "u":
        h("C25", "sub_complex_im_%s" % T, T, 3, T, 4, lib + "".join("o[%d] = (%s).imaginary();" % (f, e) for f, e in enumerate(fs)) + " true",
          "".join("o[%d] = %s;" % (f, "-i[2]" if T[0] == "f" else "i[2].wrapping_neg()") for f in range(4)) + " true")
    if T in FLOATS:
        d = "(i[1] * i[1] + i[2] * i[2])"
        c25("complex", T, 2, z, at, "/", lambda k: ["(i[0] * i[1]) / " + d, "-(i[0] * i[2]) / " + d][k])
    elif T in INTS:
        # integer quotients are only exact when the squared modulus divides; stated away from overflow and zero
        d = "i[1].wrapping_mul(i[1]).wrapping_add(i[2].wrapping_mul(i[2]))"
        fs = forms("/", None, 2)
        lib = "let s = i[0]; let x = %s; if %s == 0 || %s == -1 { return true; }" % (z, d, d)
        r = "let d = %s; if d == 0 || d == -1 { return false; }" % d
        for f, e in enumerate(fs):
            lib += "{ let y = %s; o[%d] = y.real(); o[%d] = y.imaginary(); }" % (e, 2 * f, 2 * f + 1)
            r += "o[%d] = i[0].wrapping_mul(i[1]) / d; o[%d] = i[0].wrapping_mul(i[2]).wrapping_neg() / d;" % (2 * f, 2 * f + 1)
        h("C25", "div_complex_%s" % T, T, 3, T, 8, lib + " true", r + " true")

# ---- C24: scalar traits of the primitive types
UN = "floor ceil round trunc sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log2 log10 sqrt cbrt exp exp2".split()
for T in FLOATS:
    sfx = "f" if T == "f32" else ""
    U = "u32" if T == "f32" else "u64"
    tr = "<%s as SimdScalarFloat>::" % T
    for m in UN:
        h("C24", "%s_%s" % (m, T), T, 1, T, 1, "o[0] = %s%s(i[0]); true" % (tr, m), "o[0] = libm::%s%s(i[0]); true" % (m, sfx))
    for m, r in (("ln", "log"), ("ln_1p", "log1p"), ("exp_m1", "expm1")):
        h("C24", "%s_%s" % (m, T), T, 1, T, 1, "o[0] = %s%s(i[0]); true" % (tr, m), "o[0] = libm::%s%s(i[0]); true" % (r, sfx))
    h("C24", "fract_%s" % T, T, 1, T, 1, "o[0] = %sfract(i[0]); true" % tr, "o[0] = i[0] - libm::trunc%s(i[0]); true" % sfx)
    h("C24", "recip_%s" % T, T, 1, T, 1, "o[0] = %srecip(i[0]); true" % tr, "o[0] = 1.0 / i[0]; true")
    h("C24", "sin_cos_%s" % T, T, 1, T, 2, "let (a, b) = %ssin_cos(i[0]); o[0] = a; o[1] = b; true" % tr, "o[0] = libm::sin%s(i[0]); o[1] = libm::cos%s(i[0]); true" % (sfx, sfx))
    h("C24", "sinh_cosh_%s" % T, T, 1, T, 2, "let (a, b) = %ssinh_cosh(i[0]); o[0] = a; o[1] = b; true" % tr, "o[0] = libm::sinh%s(i[0]); o[1] = libm::cosh%s(i[0]); true" % (sfx, sfx))
    for m, r in (("hypot", "hypot"), ("atan2", "atan2"), ("powf", "pow")):
        h("C24", "%s_%s" % (m, T), T, 2, T, 1, "o[0] = %s%s(i[0], i[1]); true" % (tr, m), "o[0] = libm::%s%s(i[0], i[1]); true" % (r, sfx))
    h("C24", "log_%s" % T, T, 2, T, 1, "o[0] = %slog(i[0], i[1]); true" % tr, "o[0] = libm::log%s(i[0]) / libm::log%s(i[1]); true" % (sfx, sfx))
    h("C24", "mul_add_%s" % T, T, 3, T, 1, "o[0] = %smul_add(i[0], i[1], i[2]); true" % tr, "o[0] = libm::fma%s(i[0], i[1], i[2]); true" % sfx)
    for n in [s * m for m in list(range(25)) + [31, 32, 33, 63, 64, 100] for s in (1, -1) if m or s > 0]:
        e = "1.0" if n == 0 else " * ".join(["x"] * abs(n))
        h("C24", "powi_%s%d_%s" % ("m" if n < 0 else "", abs(n), T), T, 1, T, 1, "o[0] = %spowi(i[0], %d); true" % (tr, n),
          "let x = i[0]; o[0] = %s; true" % (e if n >= 0 else "1.0 / (%s)" % e), "pow")
    for m, r in (("is_finite", "(b >> {f}) & {e} != {e}"), ("is_infinite", "b & {a} == {e} << {f}"), ("is_nan", "b & {a} > {e} << {f}"),
                 ("is_normal", "(b >> {f}) & {e} != {e} && (b >> {f}) & {e} != 0"), ("is_subnormal", "(b >> {f}) & {e} == 0 && b & {a} != 0")):
        r = r.format(f=23 if T == "f32" else 52, e=255 if T == "f32" else 2047, a="0x7fffffff" if T == "f32" else "0x7fffffffffffffff")
        h("C24", "%s_%s" % (m, T), T, 1, "u8", 1, "o[0] = %s%s(i[0]) as u8; true" % (tr, m), "let b = i[0].to_bits(); o[0] = (%s) as u8; true" % r)
    ts = "<%s as SimdScalarSigned>::" % T
    h("C24", "is_sign_positive_%s" % T, T, 1, "u8", 1, "o[0] = %sis_sign_positive(i[0]) as u8; true" % ts, "o[0] = (i[0].to_bits() >> %d == 0) as u8; true" % (31 if T == "f32" else 63))
    h("C24", "is_sign_negative_%s" % T, T, 1, "u8", 1, "o[0] = %sis_sign_negative(i[0]) as u8; true" % ts, "o[0] = (i[0].to_bits() >> %d != 0) as u8; true" % (31 if T == "f32" else 63))
    mx = "0x7fffffff" if T == "f32" else "0x7fffffffffffffff"
    h("C24", "abs_%s" % T, T, 1, U, 1, "o[0] = %sabs(i[0]).to_bits(); true" % ts, "o[0] = i[0].to_bits() & %s; true" % mx)
    h("C24", "copysign_%s" % T, T, 2, U, 1, "o[0] = %scopysign(i[0], i[1]).to_bits(); true" % ts, "o[0] = (i[0].to_bits() & %s) | (i[1].to_bits() & !%s); true" % (mx, mx))
    h("C24", "signum_%s" % T, T, 1, T, 1, "o[0] = %ssignum(i[0]); true" % ts, "let x = i[0]; o[0] = if x != x { x } else if x.to_bits() & !%s == 0 { 1.0 } else { -1.0 }; true" % mx)
    to = "<%s as SimdScalarOrd>::" % T
    h("C24", "max_%s" % T, T, 2, T, 1, "o[0] = %smax(i[0], i[1]); true" % to, "let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x > y { x } else { y }; true", "sel")
    h("C24", "min_%s" % T, T, 2, T, 1, "o[0] = %smin(i[0], i[1]); true" % to, "let (x, y) = (i[0], i[1]); if x == 0.0 && y == 0.0 { return false; } o[0] = if x != x { y } else if y != y { x } else if x < y { x } else { y }; true", "sel")
    h("C24", "clamp_%s" % T, T, 3, T, 1, "if !(i[1] <= i[2]) { return true; } o[0] = %sclamp(i[0], i[1], i[2]); true" % to,
      "let (x, a, b) = (i[0], i[1], i[2]); if !(a <= b) { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true", "sel")
    consts = dict(pi="PI", two_pi="TAU", frac_pi_2="FRAC_PI_2", frac_pi_3="FRAC_PI_3", frac_pi_4="FRAC_PI_4", frac_pi_6="FRAC_PI_6", frac_pi_8="FRAC_PI_8", frac_1_pi="FRAC_1_PI",
                  frac_2_pi="FRAC_2_PI", frac_2_sqrt_pi="FRAC_2_SQRT_PI", e="E", log2_e="LOG2_E", log10_e="LOG10_E", ln_2="LN_2", ln_10="LN_10", sqrt_2="SQRT_2", frac_1_sqrt_2="FRAC_1_SQRT_2")
    ks = sorted(consts)
    h("C24", "constants_%s" % T, T, 1, T, len(ks), " ".join("o[%d] = %s%s();" % (k, tr, c) for k, c in enumerate(ks)) + " true",
      " ".join("o[%d] = core::%s::consts::%s;" % (k, T, consts[c]) for k, c in enumerate(ks)) + " true")
    h("C24", "limits_%s" % T, T, 1, U, 8, "let v: [%s; 8] = [%smin_positive_value(), %sinfinity(), %sneg_infinity(), %sneg_zero(), %smachine_epsilon(), <%s as SimdScalarCmp>::default_epsilon(), <%s as SimdScalarBounded>::min_value(), <%s as SimdScalarBounded>::max_value()]; for k in 0..8 { o[k] = v[k].to_bits(); } true" % (T, tr, tr, tr, tr, tr, T, T, T),
      "let v: [%s; 8] = [%s::MIN_POSITIVE, %s::INFINITY, %s::NEG_INFINITY, -0.0, %s::EPSILON, %s::EPSILON, %s::MIN, %s::MAX]; for k in 0..8 { o[k] = v[k].to_bits(); } true" % ((T,) * 8))
    h("C24", "nan_%s" % T, T, 1, "u8", 1, "o[0] = (%snan() != %snan()) as u8; true" % (tr, tr), "o[0] = 1; true", "sel")
for T in INTS:
    ts, to, tb = ("<%s as SimdScalar%s>::" % (T, x) for x in ("Signed", "Ord", "Bounded"))
    h("C24", "signs_%s" % T, T, 1, "u8", 2, "o[0] = %sis_sign_positive(i[0]) as u8; o[1] = %sis_sign_negative(i[0]) as u8; true" % (ts, ts), "o[0] = (i[0] > 0) as u8; o[1] = (i[0] < 0) as u8; true")
    h("C24", "abs_%s" % T, T, 1, T, 1, "o[0] = %sabs(i[0]); true" % ts, "o[0] = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; true")
    h("C24", "signum_%s" % T, T, 1, T, 1, "o[0] = %ssignum(i[0]); true" % ts, "o[0] = if i[0] < 0 { -1 } else if i[0] == 0 { 0 } else { 1 }; true")
    h("C24", "copysign_%s" % T, T, 2, T, 1, "o[0] = %scopysign(i[0], i[1]); true" % ts, "let a = if i[0] < 0 { i[0].wrapping_neg() } else { i[0] }; o[0] = if i[1] < 0 { a.wrapping_neg() } else { a }; true")
    h("C24", "max_%s" % T, T, 2, T, 1, "o[0] = %smax(i[0], i[1]); true" % to, "o[0] = if i[0] > i[1] { i[0] } else { i[1] }; true")
    h("C24", "min_%s" % T, T, 2, T, 1, "o[0] = %smin(i[0], i[1]); true" % to, "o[0] = if i[0] < i[1] { i[0] } else { i[1] }; true")
    h("C24", "clamp_%s" % T, T, 3, T, 1, "if i[1] > i[2] { return true; } o[0] = %sclamp(i[0], i[1], i[2]); true" % to,
      "let (x, a, b) = (i[0], i[1], i[2]); if a > b { return false; } o[0] = if x < a { a } else if x > b { b } else { x }; true")
    h("C24", "bounds_%s" % T, T, 1, T, 2, "o[0] = %smin_value(); o[1] = %smax_value(); true" % (tb, tb), "o[0] = %s::MIN; o[1] = %s::MAX; true" % (T, T))

# ---- C27: limits of the complex functions at infinite and NaN arguments (C99 Annex G), away from the sign of zeros
# o[0], o[1]: the parts; o[2], o[3]: their absolute values (stated where the sign is not)
LIM = dict(
    acosh="""if x.is_infinite() && y.is_nan() { o[0] = inf; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = inf; o[1] = if x > 0.0 { q } else { 3.0 * q }.copysign(y); }
        else if x.is_infinite() { o[0] = inf; if x > 0.0 { o[1] = 0.0; } else if y != 0.0 { o[1] = pi.copysign(y); } else { o[3] = pi; } }
        else if x.is_nan() && y.is_infinite() { o[0] = inf; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = inf; o[1] = (2.0 * q).copysign(y); }
        else { return false; }""",
    acos="""if x.is_infinite() && y.is_nan() { o[0] = nan; o[3] = inf; }
        else if x.is_infinite() && y.is_infinite() { o[0] = if x > 0.0 { q } else { 3.0 * q }; o[1] = -y; }
        else if x.is_infinite() { o[0] = if x > 0.0 { 0.0 } else { pi }; if y != 0.0 { o[1] = if y > 0.0 { -inf } else { inf }; } else { o[3] = inf; } }
        else if x.is_nan() && y.is_infinite() { o[0] = nan; o[1] = -y; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { o[0] = 2.0 * q; o[1] = -y; }
        else if x == 0.0 && y == 0.0 { o[0] = 2.0 * q; o[1] = 0.0; }
        else if x == 0.0 && y.is_nan() { o[0] = 2.0 * q; o[1] = nan; }
        else { return false; }""",
    cosh="""if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = nan; o[1] = 0.0; }
        else if x == 0.0 && y == 0.0 { o[0] = 1.0; o[1] = 0.0; }
        else if x.is_infinite() && y == 0.0 { o[0] = inf; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; }""",
    sinh="""if x.is_infinite() && !y.is_finite() { o[2] = inf; o[1] = nan; }
        else if x == 0.0 && !y.is_finite() { o[0] = 0.0; o[1] = nan; }
        else if x.is_infinite() && y == 0.0 { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; }""",
    asinh="""if x.is_infinite() && y.is_nan() { o[0] = x; o[1] = nan; }
        else if x.is_infinite() && y.is_infinite() { o[0] = x; o[1] = q.copysign(y); }
        else if x.is_infinite() { o[0] = x; o[1] = 0.0; }
        else if x.is_nan() && y.is_infinite() { o[2] = inf; o[1] = nan; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if y.is_infinite() { if x == 0.0 { o[2] = inf; } else { o[0] = if x > 0.0 { inf } else { -inf }; } o[1] = (2.0 * q).copysign(y); }
        else { return false; }""",
    tanh="""if x.is_infinite() { o[0] = if x > 0.0 { 1.0 } else { -1.0 }; o[1] = 0.0; }
        else if x.is_nan() && y == 0.0 { o[0] = nan; o[1] = 0.0; }
        else { return false; }""",
    atanh="""if y.is_infinite() { o[0] = 0.0; o[1] = (2.0 * q).copysign(y); }
        else if y.is_nan() && (x.is_infinite() || x == 0.0) { o[0] = 0.0; o[1] = nan; }
        else if y.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_nan() { o[0] = nan; o[1] = nan; }
        else if x.is_infinite() { o[0] = 0.0; if y != 0.0 { o[1] = (2.0 * q).copysign(y); } else { o[3] = 2.0 * q; } }
        else if y == 0.0 && (x == 1.0 || x == -1.0) { o[0] = if x > 0.0 { inf } else { -inf }; o[1] = 0.0; }
        else { return false; }""",
)
for T in FLOATS:
    for f, body in LIM.items():
        store = "o[0] = %s; o[1] = %s; o[2] = (%s).abs(); o[3] = (%s).abs(); true"
        pre = "let (inf, nan, pi, q) = (%s::INFINITY, %s::NAN, core::%s::consts::PI, core::%s::consts::FRAC_PI_4);" % (T, T, T, T)
        h("C27", "%s_%s" % (f, T), T, 2, T, 4, "let w = Complex::<%s>::new(i[0], i[1]).%s(); " % (T, f) + store % ("w.real()", "w.imaginary()", "w.real()", "w.imaginary()"),
          pre + " let (x, y) = (i[0], i[1]); " + body + " true", "lim")
        # f(z) = -i g(iz) for the circular functions (cos(z) = cosh(iz))
        c = {"cosh": "cos", "sinh": "sin", "tanh": "tan", "asinh": "asin", "atanh": "atan"}.get(f)
        if c:
            lib = "let w = Complex::<%s>::new(i[0], i[1]).%s(); " % (T, c)
            lib += store % (("w.real()", "w.imaginary()") * 2) if c == "cos" else store % (("-w.imaginary()", "w.real()") * 2)
            h("C27", "%s_%s" % (c, T), T, 2, T, 4, lib, pre + " let (x, y) = (-i[1], i[0]); " + body + " true", "lim")
    h("C27", "classify_%s" % T, T, 2, "u8", 3, "let w = Complex::<%s>::new(i[0], i[1]); o[0] = w.is_nan() as u8; o[1] = w.is_infinite() as u8; o[2] = w.is_finite() as u8; true" % T,
      "let (x, y) = (i[0], i[1]); let n = x.is_nan() || y.is_nan(); let f = x.is_infinite() || y.is_infinite(); o[0] = n as u8; o[1] = (f && !n) as u8; o[2] = (!f && !n) as u8; true")
    for ty, K, b in [("radians", 1, "Radians(i[0])"), ("degrees", 1, "Degrees(i[0])")] + [("vector%d" % n, n, "Vector::<%s, %d>::from(*i)" % (T, n)) for n in (1, 2, 3, 4, 5, 9)] + [("quaternion", 4, "Quaternion::<%s>::from(*i)" % T)] + [
            ("matrix%dx%d" % (n, m), n * m, "Matrix::<%s, %d, %d>::from([%s])" % (T, n, m, ", ".join("[" + ", ".join("i[%d]" % (c * n + r) for r in range(n)) + "]" for c in range(m)))) for n, m in ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 3), (1, 4), (5, 3))]:
        h("C27", "is_finite_%s_%s" % (ty, T), T, K, "u8", 1, "o[0] = %s.is_finite() as u8; true" % b, "let mut f = true; %s o[0] = f as u8; true" % " ".join("f &= i[%d].is_finite();" % k for k in range(K)))

# ---- C08: scalar casts between all pairs of primitive types
BITS = lambda T: 64 if T.endswith("size") else int(T[1:])
for A in UINTS + INTS + FLOATS:
    for B in UINTS + INTS + FLOATS:
        lib = "match try_cast::<%s, %s>(i[0]) { Some(y) => { o[0] = y; o[1] = 1 as %s; o[2] = cast::<%s, %s>(i[0]); } None => { o[1] = 0 as %s; } } true" % (A, B, B, A, B, B)
        some, none = "o[0] = %s; o[1] = 1 as %s; o[2] = %s;", "o[1] = 0 as %s;" % B
        if B in FLOATS:
            ref = some % ("x as " + B, B, "x as " + B)
        elif A not in FLOATS:
            ref = "let y = x as %s; if y as %s == x && (y < 0) == (x < 0) { %s } else { %s }" % (B, A, some % ("y", B, "y"), none)
        else:
            n = BITS(B)
            hi = "%s::from_bits(%d)" % (A, (1023 + (n if B[0] == "u" else n - 1)) << 52 if A == "f64" else (127 + min(128, n if B[0] == "u" else n - 1)) << 23)   # 2^n, infinite for u128 in f32
            # truncation towards zero fits: x > min - 1, which is x >= min where min - 1 is not representable
            lo = "x > -1.0" if B[0] == "u" else "x > -%s - 1.0" % hi if n < (53 if A == "f64" else 24) else "x >= -%s" % hi
            ref = "if %s && x < %s { let y = unsafe { x.to_int_unchecked::<%s>() }; %s } else { %s }" % (lo, hi, B, some % ("y", B, "y"), none)
        h("C08", "cast_%s_%s" % (A, B), A, 1, B, 3, lib, "let x = i[0]; " + ref + " true", "sel")
        if none in ref and B[1:] in ("8", "32", "64"):
            h("C08", "cast_or_panic_%s_%s" % (A, B), A, 1, B, 3, "o[0] = cast::<%s, %s>(i[0]); o[1] = 1 as %s; o[2] = o[0]; true" % (A, B, B), "let x = i[0]; " + ref.replace(none, "panic!();") + " true", "sel")

# ---- C01, C04, C10, C15: component-wise arithmetic at integer and float types (quotients and remainders are not those of the reals)
def w2(T, op, a, b):
    if T[0] == "f" or op in "/%":
        return "%s %s %s" % (a, op, b)
    return "%s.wrapping_%s(%s)" % (a, {"+": "add", "-": "sub", "*": "mul"}[op], b)


OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem"}
for T in ("u8", "i16", "i32", "u64", "f32", "f64"):
    shapes = [("C01", "vector%d" % n, n, "Vector::<%s, %d>::from([{}])" % (T, n), None, ["y[%d]" % k for k in range(n)], False) for n in range(1, 5)]
    shapes += [("C01", "point%d" % n, n, "Point::<%s, %d>::from([{}])" % (T, n), "Vector::<%s, %d>::from([{}])" % (T, n), ["y[%d]" % k for k in range(n)], False) for n in range(1, 4)]
    shapes += [("C04", "matrix%dx%d" % (r, c), r * c, "Matrix::<%s, %d, %d>::from([{}])" % (T, r, c), None, ["y[%d][%d]" % (k // r, k % r) for k in range(r * c)], False)
               for r, c in ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 3), (1, 4), (4, 2))]
    shapes += [("C10", "quaternion", 4, "Quaternion::<%s>::new({})" % T, None, ["y[%d]" % k for k in range(4)], True), ("C15", "complex", 2, "Complex::<%s>::new({})" % T, None, ["y.real()", "y.imaginary()"], True)]
    for prop, nm, K, mk, mk2, at, refs in shapes:
        xs, zs = ", ".join("i[%d]" % k for k in range(K)), ", ".join("i[%d]" % (K + k) for k in range(K))
        mkx, mkz = mk.format(xs), (mk2 or mk).format(zs)
        for op in "*/%":
            es = ["x.clone() %s s" % op, "&x %s s" % op, "{ let mut y = x.clone(); y %s= s; y }" % op]
            if refs:
                es += ["x.clone() %s &s" % op, "&x %s &s" % op]
            lib = "let x = %s; let s = i[%d];" % (mkx, K)
            ref = "let s = i[%d]; " % K
            if T[0] != "f" and op in "/%":
                z = "s == 0" + (" || s == -1" if T[0] == "i" else "")
                lib += "if %s { return true; }" % z
                ref += "if %s { return false; }" % z
            for f, e in enumerate(es):
                lib += "{ let y = %s; %s }" % (e, " ".join("o[%d] = %s;" % (f * K + k, at[k]) for k in range(K)))
                ref += " ".join("o[%d] = %s;" % (f * K + k, w2(T, op, "i[%d]" % k, "s")) for k in range(K))
            h(prop, "%s_scalar_%s_%s" % (OPN[op], nm, T), T, K + 1, T, K * len(es), lib + " true", ref + " true", "all" if op == "*" else "uf")
        for op in "+-":
            es = ["x.clone() %s z.clone()" % op, "x.clone() %s &z" % op, "&x %s z.clone()" % op, "&x %s &z" % op, "{ let mut y = x.clone(); y %s= z.clone(); y }" % op, "{ let mut y = x.clone(); y %s= &z; y }" % op]
            lib, ref = "let x = %s; let z = %s;" % (mkx, mkz), ""
            for f, e in enumerate(es):
                lib += "{ let y = %s; %s }" % (e, " ".join("o[%d] = %s;" % (f * K + k, at[k]) for k in range(K)))
                ref += " ".join("o[%d] = %s;" % (f * K + k, w2(T, op, "i[%d]" % k, "i[%d]" % (K + k))) for k in range(K))
            h(prop, "%s_%s_%s" % (OPN[op], nm, T), T, 2 * K, T, K * len(es), lib + " true", ref + " true", "all")
    if T in ("i16", "i32", "f32", "f64"):
        es = ["x / z", "x / &z", "&x / z", "&x / &z", "{ let mut y = x; y /= z; y }", "{ let mut y = x; y /= &z; y }"]
        lib = "let x = Complex::<%s>::new(i[0], i[1]); let z = Complex::<%s>::new(i[2], i[3]);" % (T, T)
        m, a, d = (lambda x, y: w2(T, "*", x, y)), (lambda x, y: w2(T, "+", "(%s)" % x, y)), (lambda x, y: w2(T, "-", "(%s)" % x, y))
        ref = "let d = %s;" % a(m("i[2]", "i[2]"), m("i[3]", "i[3]"))
        if T[0] == "i":
            lib += "let d = %s; if d == 0 || d == -1 { return true; }" % a(m("i[2]", "i[2]"), m("i[3]", "i[3]"))
            ref += "if d == 0 || d == -1 { return false; }"
        for f, e in enumerate(es):
            lib += "{ let y = %s; o[%d] = y.real(); o[%d] = y.imaginary(); }" % (e, 2 * f, 2 * f + 1)
            ref += "o[%d] = (%s) / d; o[%d] = (%s) / d;" % (2 * f, a(m("i[0]", "i[2]"), m("i[1]", "i[3]")), 2 * f + 1, d(m("i[1]", "i[2]"), m("i[0]", "i[3]")))
        h("C15", "div_complex_%s" % T, T, 4, T, 12, lib + " true", ref + " true")

# ---- ring identities at integer types (C02 C03 C04 C05 C10 C15): arithmetic modulo 2^w, polynomial normal forms
def sumw(T, xs):
    e = xs[0]
    for x in xs[1:]:
        if T[0] == "f":
            e = "(%s) %s %s" % (e, "-" if x[0] == "-" else "+", x.lstrip("-"))
            continue
        e = "(%s).wrapping_%s(%s)" % (e, "sub" if x[0] == "-" else "add", x.lstrip("-"))
    return e


def prod(T, *fs):
    e = fs[0]
    for f in fs[1:]:
        e = "(%s).wrapping_mul(%s)" % (e, f) if T[0] != "f" else "(%s) * (%s)" % (e, f)
    return e


def store(exprs, at, ref, K):
    """the same K results from every form"""
    l, r = "", ""
    for f, e in enumerate(exprs):
        l += "{ let y = %s; %s }" % (e, " ".join("o[%d] = %s;" % (f * K + k, at[k]) for k in range(K)))
        r += " ".join("o[%d] = %s;" % (f * K + k, ref[k]) for k in range(K))
    return l, r, K * len(exprs)


def ring(prop, name, T, K, pre, exprs, at, ref):
    l, r, M = store(exprs, at, ref, len(ref))
    h(prop, name + "_" + T, T, K, T, M, pre + l + " true", r + " true", "cls" if T[0] == "f" else "ring")


F4 = lambda op: ["x %s z" % op, "x %s &z" % op, "&x %s z" % op, "&x %s &z" % op]
ii = lambda k: "i[%d]" % k


def mtx(T, r, c, base):
    return "Matrix::<%s, %d, %d>::from([%s])" % (T, r, c, ", ".join("[" + ", ".join(ii(base + cc * r + rr) for rr in range(r)) + "]" for cc in range(c)))


def perms(n):
    if n == 0:
        return [((), 1)]
    return [(p[:k] + (n - 1,) + p[k:], s * (-1) ** (n - 1 - k)) for p, s in perms(n - 1) for k in range(n)]


# at floats (mode cls): infinities and NaN of the operands come through as in the sum of products
for T in ("u8", "i32", "i64", "f32", "f64"):
    for n in (1, 2, 3, 4, 5, 8):
        for ty in ("Vector", "Point"):
            pre = "let x = %s::<%s, %d>::from([%s]); let z = %s::<%s, %d>::from([%s]);" % (ty, T, n, ", ".join(map(ii, range(n))), ty, T, n, ", ".join(ii(n + k) for k in range(n)))
            ring("C02", "dot_%s%d" % (ty.lower(), n), T, 2 * n, pre, ["x.dot(&z)", "z.dot(&x)"], ["y"], [sumw(T, [prod(T, ii(k), ii(n + k)) for k in range(n)])])
            ring("C02", "squares_%s%d" % (ty.lower(), n), T, n, pre.split("let z")[0], ["x.norm_squared()", "x.magnitude_squared()"], ["y"], [sumw(T, [prod(T, ii(k), ii(k)) for k in range(n)])])
            d = [("(i[%d] - i[%d])" if T[0] == "f" else "(i[%d].wrapping_sub(i[%d]))") % (k, n + k) for k in range(n)]
            ring("C02", "distance_%s%d" % (ty.lower(), n), T, 2 * n, pre, ["x.metric_distance_squared(&z)", "z.metric_distance_squared(&x)"], ["y"], [sumw(T, [prod(T, e, e) for e in d])])
    pre = "let x = Vector3::<%s>::new(i[0], i[1], i[2]); let z = Vector3::<%s>::new(i[3], i[4], i[5]); let w = Vector3::<%s>::new(i[6], i[7], i[8]);" % (T, T, T)
    cr = lambda a, b: [sumw(T, [prod(T, ii(a + (k + 1) % 3), ii(b + (k + 2) % 3)), "-" + prod(T, ii(a + (k + 2) % 3), ii(b + (k + 1) % 3))]) for k in range(3)]
    ring("C03", "cross", T, 9, pre, ["x.cross(&z)"], ["y[%d]" % k for k in range(3)], cr(0, 3))
    zw = cr(3, 6)
    if T[0] != "f":
        ring("C03", "triple", T, 9, pre, ["x.triple(&z, &w)", "x.dot(&z.cross(&w))", "z.dot(&w.cross(&x))"], ["y"], [sumw(T, [prod(T, ii(k), zw[k]) for k in range(3)])])
    for r, k, c in ((1, 1, 1), (2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 2), (3, 2, 3), (1, 4, 1), (4, 1, 4), (2, 4, 3), (4, 3, 2), (3, 5, 2), (2, 9, 2)):
        pre = "let x = %s; let z = %s;" % (mtx(T, r, k, 0), mtx(T, k, c, r * k))
        ref = [sumw(T, [prod(T, ii(q * r + rr), ii(r * k + cc * k + q)) for q in range(k)]) for cc in range(c) for rr in range(r)]
        ring("C04", "product_%d_%d_%d" % (r, k, c), T, r * k + k * c, pre, F4("*") + (["x.transpose().tr_mul(&z)"] if k < 5 else []), ["y[%d][%d]" % (q // r, q % r) for q in range(r * c)], ref)
        if c == 1 or k == c:
            pre = "let x = %s; let z = Vector::<%s, %d>::from([%s]);" % (mtx(T, r, k, 0), T, k, ", ".join(ii(r * k + q) for q in range(k)))
            ring("C04", "apply_%dx%d" % (r, k), T, r * k + k, pre, F4("*"), ["y[%d]" % q for q in range(r)], [sumw(T, [prod(T, ii(q * r + rr), ii(r * k + q)) for q in range(k)]) for rr in range(r)])
    for n in (1, 2, 3, 4):
        pre = "let x = %s; let z = %s;" % (mtx(T, n, n, 0), mtx(T, n, n, n * n))
        ring("C04", "tr_dot_%d" % n, T, 2 * n * n, pre, ["x.tr_dot(&z)", "z.tr_dot(&x)"], ["y"], [sumw(T, [prod(T, ii(a * n + b), ii(n * n + b * n + a)) for a in range(n) for b in range(n)])])
        ring("C04", "dot_%d" % n, T, 2 * n * n, pre, ["x.dot(&z)", "z.dot(&x)"], ["y"], [sumw(T, [prod(T, ii(q), ii(n * n + q)) for q in range(n * n)])])
        if T[0] == "i":
            det = [("-" if s < 0 else "") + prod(T, *[ii(c * n + p[c]) for c in range(n)]) for p, s in perms(n)]
            det.sort(key=lambda e: e[0] == "-")
            ring("C05", "det_%d" % n, T, n * n, "let x = %s;" % mtx(T, n, n, 0), ["x.determinant()", "x.transpose().determinant()"], ["y"], [sumw(T, det)])
    pre = "let x = Quaternion::<%s>::new(i[0], i[1], i[2], i[3]); let z = Quaternion::<%s>::new(i[4], i[5], i[6], i[7]);" % (T, T)
    tab = {0: [(0, 0, 1), (1, 1, -1), (2, 2, -1), (3, 3, -1)], 1: [(0, 1, 1), (1, 0, 1), (2, 3, 1), (3, 2, -1)], 2: [(0, 2, 1), (2, 0, 1), (3, 1, 1), (1, 3, -1)], 3: [(0, 3, 1), (3, 0, 1), (1, 2, 1), (2, 1, -1)]}
    Q = lambda b: [sumw(T, [("-" if s < 0 else "") + prod(T, ii(a), ii(b + c)) for a, c, s in tab[k]]) for k in range(4)]
    ring("C10", "product", T, 8, pre, F4("*"), ["y[%d]" % k for k in range(4)], Q(4))
    ring("C10", "squares", T, 8, pre, ["x.dot(&x)", "x.norm_squared()", "x.modulus_squared()", "x.magnitude_squared()"], ["y"], [sumw(T, [prod(T, ii(k), ii(k)) for k in range(4)])])
    ring("C10", "dot", T, 8, pre, ["x.dot(&z)", "z.dot(&x)"], ["y"], [sumw(T, [prod(T, ii(k), ii(4 + k)) for k in range(4)])])
    if T[0] == "i":
        ring("C10", "squared", T, 8, pre, ["x.squared()", "x * x"], ["y[%d]" % k for k in range(4)], Q(0))
        ring("C10", "conjugate", T, 8, pre, ["x.conjugate()", "{ let mut y = x; y.conjugate_mut(); y }"], ["y[%d]" % k for k in range(4)], ["i[0]"] + ["i[%d].wrapping_neg()" % k for k in (1, 2, 3)])
    pre = "let x = Complex::<%s>::new(i[0], i[1]); let z = Complex::<%s>::new(i[2], i[3]);" % (T, T)
    P = lambda a, b: [sumw(T, [prod(T, a[0], b[0]), "-" + prod(T, a[1], b[1])]), sumw(T, [prod(T, a[0], b[1]), prod(T, a[1], b[0])])]
    at = ["y.real()", "y.imaginary()"]
    x, z = ["i[0]", "i[1]"], ["i[2]", "i[3]"]
    ring("C15", "product", T, 4, pre, F4("*") + ["{ let mut y = x; y *= z; y }", "{ let mut y = x; y *= &z; y }"], at, P(x, z))
    if T[0] == "f":
        continue
    ring("C15", "squared", T, 4, pre, ["x.squared()", "x * x"], at, P(x, x))
    ring("C15", "cubed", T, 4, pre, ["x.cubed()", "x * x * x"], at, P(["(%s)" % e for e in P(x, x)], x))
    ring("C15", "squares", T, 4, pre, ["x.norm_squared()", "x.modulus_squared()", "x.magnitude_squared()"], ["y"], [sumw(T, [prod(T, "i[0]", "i[0]"), prod(T, "i[1]", "i[1]")])])
    ring("C15", "scale", T, 4, pre, ["x.scale(i[2])"], at, [prod(T, "i[0]", "i[2]"), prod(T, "i[1]", "i[2]")])
    zero = "i[2] == 0" + (" || i[2] == -1" if T[0] == "i" else "")
    h("C15", "unscale_" + T, T, 3, T, 2, "if %s { return true; } let y = Complex::<%s>::new(i[0], i[1]).unscale(i[2]); o[0] = y.real(); o[1] = y.imaginary(); true" % (zero, T),
      "if %s { return false; } o[0] = i[0] / i[2]; o[1] = i[1] / i[2]; true" % zero)
    for n in (1, 2, 3):
        w = "i[%d]" % n
        st = " ".join("o[%d] = %%s;" % k for k in range(n))
        skip = "%s == -1" % w if T[0] == "i" else "false"
        h("C01", "from_homogeneous_%d_%s" % (n, T), T, n + 1, T, n + 1,
          "if %s { return true; } match Point::<%s, %d>::from_homogeneous(&Vector::<%s, %d>::from(*i)) { Some(p) => { %s o[%d] = 1; } None => { o[%d] = 0; } } true" % (skip, T, n, T, n + 1, st % tuple("p[%d]" % k for k in range(n)), n, n),
          "if %s { return false; } if %s != 0 { %s o[%d] = 1; } else { o[%d] = 0; } true" % (skip, w, st % tuple("i[%d] / %s" % (k, w) for k in range(n)), n, n))

# ---- C29: equality at primitive types (NaN differs from everything, zeros of both signs agree)
for T in ("u8", "i32", "u64", "f32", "f64"):
    shapes = [("vector%d" % n, n, "Vector::<%s, %d>::from([{}])" % (T, n), 0) for n in (1, 2, 3, 4, 5, 9)]
    shapes += [("point%d" % n, n, "Point::<%s, %d>::from([{}])" % (T, n), 0) for n in (1, 2, 3, 4)]
    shapes += [("matrix%dx%d" % (r, c), r * c, "Matrix::<%s, %d, %d>::from([{}])" % (T, r, c), r) for r, c in ((1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (4, 3), (3, 4), (1, 4), (4, 2))]
    shapes += [("quaternion", 4, "Quaternion::<%s>::new({})" % T, 0), ("complex", 2, "Complex::<%s>::new({})" % T, 0)]
    shapes += [("radians", 1, "Radians({})", 0), ("degrees", 1, "Degrees({})", 0)]
    if T[0] == "f":
        shapes += [("euler_radians", 3, "Euler::<Radians<%s>>::new(Radians({0}), Radians({1}), Radians({2}))" % T, -1), ("euler_degrees", 3, "Euler::<Degrees<%s>>::new(Degrees({0}), Degrees({1}), Degrees({2}))" % T, -1)]
    for nm, K, mk, r in shapes:
        def b(base):
            xs = ["i[%d]" % (base + k) for k in range(K)]
            if r == -1:
                return mk.format(*xs)
            return mk.format(", ".join("[" + ", ".join(xs[c * r:(c + 1) * r]) + "]" for c in range(K // r)) if r else ", ".join(xs))
        ref = "let e = %s; o[0] = e as u8; o[1] = !e as u8; o[2] = e as u8; let e = %s; o[3] = e as u8;" % (" && ".join("i[%d] == i[%d]" % (k, K + k) for k in range(K)), " && ".join("i[%d] == i[%d]" % (k, k) for k in range(K)))
        lib = "let x = %s; let z = %s; o[0] = (x == z) as u8; o[1] = (x != z) as u8; o[2] = (z == x) as u8; o[3] = (x == x) as u8;" % (b(0), b(K))
        M = 4
        if "ians" in nm and K == 1 or nm == "degrees":
            M = 9
            for k, op in enumerate(("<", "<=", ">", ">=")):
                lib += "o[%d] = (x %s z) as u8;" % (4 + k, op)
                ref += "o[%d] = (i[0] %s i[1]) as u8;" % (4 + k, op)
            lib += "o[8] = match x.partial_cmp(&z) { None => 3, Some(c) => c as i8 as u8 };"
            ref += "o[8] = match i[0].partial_cmp(&i[1]) { None => 3, Some(c) => c as i8 as u8 };"
        h("C29", "eq_%s_%s" % (nm, T), T, 2 * K, "u8", M, lib + " true", ref + " true")

# ---- C23: approximate comparison at floats is the conjunction of the scalar comparison, infinities and NaN included
# up to two components (three for the absolute difference): all components free; larger: one component free, each in turn, the others zero
for T in FLOATS:
    U = "u" + T[1:]
    shapes = [("vector%d" % n, n, "Vector::<{T}, %d>::from([{}])" % n, 0) for n in (1, 2, 3, 4, 5)]
    shapes += [("point%d" % n, n, "Point::<{T}, %d>::from([{}])" % n, 0) for n in (1, 2, 3)]
    shapes += [("matrix%dx%d" % (r, c), r * c, "Matrix::<{T}, %d, %d>::from([{}])" % (r, c), r) for r, c in ((1, 1), (2, 2), (1, 2), (3, 2), (2, 3), (3, 3), (4, 4))]
    shapes += [("quaternion", 4, "Quaternion::<{T}>::new({})", 0), ("complex", 2, "Complex::<{T}>::new({})", 0), ("radians", 1, "Radians({})", -2), ("degrees", 1, "Degrees({})", -2),
               ("euler", 3, "Euler::<Radians<{T}>>::new(Radians({0}), Radians({1}), Radians({2}))", -1)]
    for nm, K, mk, r in shapes:
        def b(xs, ty=None):
            m = mk.replace("{T}", ty or T)
            if ty is not None:
                # a tolerance per component: points and quaternions take a vector
                m = m if r or nm == "complex" else "Vector::<%s, %d>::from([{}])" % (ty, K)
            if r == -1:
                return m.format(*xs)
            return m.format(", ".join("[" + ", ".join(xs[c * r:(c + 1) * r]) + "]" for c in range(K // r)) if r > 0 else ", ".join(xs))
        for kind, f, cls in (("abs_diff", 0, "AbsDiff"), ("relative", 1, "Relative"), ("ulps", 2, "Ulps")):
            sx = ".to_bits()" if f == 2 else ""
            if K <= (2 if f else 3):
                I = lambda base, sfx="": ["i[%d]%s" % (base + k, sfx) for k in range(K)]
                # one tolerance
                tol = "&i[%d]" % (2 * K) + (", &i[%d]%s" % (2 * K + 1, sx) if f else "")
                call = "approx_cmp::%sAllEq::%s_all_%%s(&x, &z, %s)" % (cls, kind, tol)
                e = " && ".join("approx_cmp::%sEq::%s_eq(&i[%d], &i[%d], %s)" % (cls, kind, k, K + k, tol) for k in range(K))
                h("C23", "%s_all_%s_%s" % (kind, nm, T), T, 2 * K + (2 if f else 1), "u8", 2,
                  "let x = %s; let z = %s; o[0] = %s as u8; o[1] = %s as u8; true" % (b(I(0)), b(I(K)), call % "eq", call % "ne"), "let e = %s; o[0] = e as u8; o[1] = !e as u8; true" % e)
                # one tolerance per component
                if r >= 0:
                    pre = "let t = %s;" % b(I(2 * K), T) + ("let u = %s;" % b(I(3 * K, sx), U if f == 2 else T) if f else "")
                    call = "approx_cmp::%sEq::%s_%%s(&x, &z, &t%s)" % (cls, kind, ", &u" if f else "")
                    e = " && ".join("approx_cmp::%sEq::%s_eq(&i[%d], &i[%d], &i[%d]%s)" % (cls, kind, k, K + k, 2 * K + k, ", &i[%d]%s" % (3 * K + k, sx) if f else "") for k in range(K))
                    h("C23", "%s_%s_%s" % (kind, nm, T), T, (4 if f else 3) * K, "u8", 2,
                      "let x = %s; let z = %s; %s o[0] = %s as u8; o[1] = %s as u8; true" % (b(I(0)), b(I(K)), pre, call % "eq", call % "ne"), "let e = %s; o[0] = e as u8; o[1] = !e as u8; true" % e)
            if K >= 3:
                at = lambda w, p, z="0.0": [w if k == p else z for k in range(K)]
                tol = "&i[2]" + (", &i[3]" + sx if f else "")
                call = "approx_cmp::%sAllEq::%s_all_eq(&x, &z, %s)" % (cls, kind, tol)
                # a zero component is within any tolerance of itself: equal values are equal
                sc = "let e = approx_cmp::%sEq::%s_eq(&i[0], &i[1], %s) as u8;" % (cls, kind, tol)
                h("C23", "%s_all_each_%s_%s" % (kind, nm, T), T, 4 if f else 3, "u8", K,
                  " ".join("{ let x = %s; let z = %s; o[%d] = %s as u8; }" % (b(at("i[0]", p)), b(at("i[1]", p)), p, call) for p in range(K)) + " true", sc + "".join("o[%d] = e;" % p for p in range(K)) + " true")
                if r >= 0:
                    pre = lambda p: "let t = %s;" % b(at("i[2]", p), T) + ("let u = %s;" % b(at("i[3]" + sx, p, "0" if f == 2 else "0.0"), U if f == 2 else T) if f else "")
                    call = "approx_cmp::%sEq::%s_eq(&x, &z, &t%s)" % (cls, kind, ", &u" if f else "")
                    h("C23", "%s_each_%s_%s" % (kind, nm, T), T, 4 if f else 3, "u8", K,
                      " ".join("{ let x = %s; let z = %s; %s o[%d] = %s as u8; }" % (b(at("i[0]", p)), b(at("i[1]", p)), pre(p), p, call) for p in range(K)) + " true", sc + "".join("o[%d] = e;" % p for p in range(K)) + " true")

# ---- C16: the argument at floats, signed zeros included (the side of the branch cut)
for T in FLOATS:
    at = "libm::atan2%s(i[1], i[0])" % ("f" if T == "f32" else "")
    z = "let z = Complex::<%s>::new(i[0], i[1]); " % T
    h("C16", "arg_%s" % T, T, 2, T, 3, z + "o[0] = z.arg(); o[1] = z.ln().imaginary(); o[2] = z.polar_decomposition().1.0; true", "let a = %s; o[0] = a; o[1] = a; o[2] = a; true" % at)

# ---- C17: angles at primitive types: the arithmetic of the number, and the circular functions of radians
for T in ("i32", "u8", "f32", "f64"):
    for A in ("Radians", "Degrees"):
        pre = "let x = %s(i[0]); let z = %s(i[1]); let s = i[1];" % (A, A)
        for op in "+-*/%":
            two = op in "+-%"
            es = F4(op) if two else ["x %s s" % op, "&x %s s" % op]
            es.append("{ let mut y = x; y %s= %s; y }" % (op, "z" if two else "s"))
            es = ["(%s).0" % e for e in es]
            if op == "/":
                es += F4("/")
            if T[0] != "f" and op in "/%":
                continue
            h("C17", "%s_%s_%s" % (OPN[op], A.lower(), T), T, 2, T, len(es), "%s %s true" % (pre, " ".join("o[%d] = %s;" % (k, e) for k, e in enumerate(es))),
              "let r = %s; %s true" % (w2(T, op, "i[0]", "i[1]"), " ".join("o[%d] = r;" % k for k in range(len(es)))), "uf" if op == "/" else "all")
        if T[0] != "u":
            h("C17", "neg_%s_%s" % (A.lower(), T), T, 1, T, 2, "let x = %s(i[0]); o[0] = (-x).0; o[1] = (-&x).0; true" % A, "let r = %s; o[0] = r; o[1] = r; true" % ("-i[0]" if T[0] == "f" else "i[0].wrapping_neg()"), "all")
    if T[0] == "f":
        fs = "f" if T == "f32" else ""
        for f in ("sin", "cos", "tan", "asin", "acos", "atan"):
            inv = f[0] == "a"
            h("C17", "%s_radians_%s" % (f, T), T, 1, T, 1, "o[0] = %s; true" % ("<Radians<%s> as Angle>::%s(i[0]).0" % (T, f) if inv else "Angle::%s(Radians(i[0]))" % f), "o[0] = libm::%s%s(i[0]); true" % (f, fs))
        h("C17", "atan2_radians_%s" % T, T, 2, T, 1, "o[0] = <Radians<%s> as Angle>::atan2(i[0], i[1]).0; true" % T, "o[0] = libm::atan2%s(i[0], i[1]); true" % fs, "all")
        h("C17", "sin_cos_radians_%s" % T, T, 1, T, 2, "let (a, b) = Angle::sin_cos(Radians(i[0])); o[0] = a; o[1] = b; true", "o[0] = libm::sin%s(i[0]); o[1] = libm::cos%s(i[0]); true" % (fs, fs))

HERE = os.path.dirname(os.path.abspath(__file__))


def sig(k, x):
    p, n, T, K, O, M, l, r, mode = x
    return "#[no_mangle]\n#[inline(never)]\npub extern \"C\" fn %s_%s_%s(i: &[%s; %d], o: &mut [%s; %d]) -> bool {\n    %s\n}" % (k, p, n, T, K, O, M, l if k == "l" else r)


ALLOW = "#![allow(unused_parens, unused_comparisons, unused_mut, unused_variables, unused_assignments, unused_imports, improper_ctypes_definitions, clippy::all)]"
out = ["//! Written by gen.py: calls into the library.", ALLOW, "use cglinalg_core::*;", "use cglinalg_numeric::*;", "use cglinalg_trigonometry::*;"] + [sig("l", x) for x in H]
open(HERE + "/lib/src/lib.rs", "w").write("\n".join(out) + "\n")
out = ["//! Written by gen.py: what the properties say about them.", ALLOW] + [sig("r", x) for x in H]
open(HERE + "/spec/src/lib.rs", "w").write("\n".join(out) + "\n")
out = ["// Written by gen.py.", "use ir_lib::*;", "use ir_spec::*;", "pub type F = unsafe fn(*const u8, *mut u8) -> bool;",
       "pub static TABLE: &[(&str, &str, usize, &str, usize, &str, F, F)] = &["]
for p, n, T, K, O, M, l, r, mode in H:
    f = lambda k: "|i, o| unsafe { %s_%s_%s(&*(i as *const [%s; %d]), &mut *(o as *mut [%s; %d])) }" % (k, p, n, T, K, O, M)
    out.append('    ("%s/%s", "%s", %d, "%s", %d, "%s", %s, %s),' % (p, n, T, K, O, M, mode, f("l"), f("r")))
out.append("];")
open(HERE + "/src/table.rs", "w").write("\n".join(out) + "\n")
print(len(H), "harnesses")
