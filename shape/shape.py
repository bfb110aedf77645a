#!/usr/bin/env python3
"""shape.py OUT.json: which shapes the compiler accepts, decided against the arithmetic of the dimensions by z3.

The relation a constraint (or an operation of the library) accepts is read from the compiler's own trait resolution on
/repo's current source, for every combination of dimensions within the bounds; the dimensions are then symbolic integers
and z3 looks for a combination on which acceptance and arithmetic disagree. Such a combination is compiled by itself.
"""
import glob, itertools, json, os, re, shutil, subprocess, sys, tempfile, time
import z3
SRC = "/repo/crates/cglinalg_core/src/constraint.rs"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
N2, N4 = 17, 6            # dimensions 0..N2 for binary relations, 0..N4 for the four-place ones
FAR = [20, 24, 32, 64, 100, 128, 256, 1000, 1024, 2**32, 2**64 - 2, 2**64 - 1]   # two-place relations also here
try:
    # whole numbers the constraints themselves mention, and their neighbours
    SEEN = [int(x.replace("_", ""), 0) for x in re.findall(r"(?<![\w.])(?:0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?![\w.])", re.sub(r"//.*", "", open(SRC).read().split("#[cfg(test)]")[0])) if not re.match(r"0[0-9_]", x)]
except (OSError, ValueError):
    SEEN = []
FAR += sorted({y for x in SEEN for y in (x - 1, x, x + 1) if N2 < y < 2**64} - set(FAR))[:9]
D2 = list(range(N2 + 1)) + FAR
Q = []


def rustc(args, src, tmp, name):
    f = os.path.join(tmp, name + ".rs")
    open(f, "w").write(src)
    return subprocess.run(["rustc", "--edition", "2021", "--cap-lints", "allow", *args, f], cwd=tmp, env=ENV, capture_output=True, text=True)


# ---- the constraints themselves
HEAD = '#[path = "%s"]\nmod constraint;\nuse constraint::*;\n' % SRC


def probe_constraints(tmp):
    """{relation: {tuple of dimensions: output or None}} as the compiler resolves them"""
    p = HEAD + """
trait Val { const V: i128; }
impl<const D: usize> Val for Const<D> { const V: i128 = D as i128; }
struct P<const A: usize, const B: usize>;
struct R<const A: usize, const B: usize, const C: usize, const D: usize>;
trait No { fn add(&self) -> i128 { -1 } fn sub(&self) -> i128 { -1 } fn mul(&self) -> i128 { -1 } fn lt(&self) -> i128 { -1 } fn eq(&self) -> i128 { -1 } fn ext(&self) -> i128 { -1 } fn con(&self) -> i128 { -1 } fn can(&self) -> i128 { -1 } fn tra(&self) -> i128 { -1 } }
impl<const A: usize, const B: usize> No for P<A, B> {}
impl<const A: usize, const B: usize, const C: usize, const D: usize> No for R<A, B, C, D> {}
"""
    for m, t, o in (("add", "DimAdd", "Output"), ("sub", "DimSub", "Output"), ("mul", "DimMul", "Output"), ("eq", "DimEq", "Representative")):
        b = "%s<Const<A>, Const<B>>" % t
        p += "impl<const A: usize, const B: usize> P<A, B> where ShapeConstraint: %s, <ShapeConstraint as %s>::%s: Val { fn %s(&self) -> i128 { <<ShapeConstraint as %s>::%s as Val>::V } }\n" % (b, b, o, m, b, o)
    for m, t in (("lt", "DimLt"), ("ext", "CanExtend"), ("con", "CanContract")):
        p += "impl<const A: usize, const B: usize> P<A, B> where ShapeConstraint: %s<Const<A>, Const<B>> { fn %s(&self) -> i128 { 0 } }\n" % (t, m)
    for m, t in (("can", "CanMultiply"), ("tra", "CanTransposeMultiply")):
        p += "impl<const A: usize, const B: usize, const C: usize, const D: usize> R<A, B, C, D> where ShapeConstraint: %s<Const<A>, Const<B>, Const<C>, Const<D>> { fn %s(&self) -> i128 { 0 } }\n" % (t, m)
    calls = []
    for a, b in itertools.product(D2, repeat=2):
        for m in ("add", "sub", "mul", "eq", "lt", "ext", "con"):
            calls.append(("%s %d %d" % (m, a, b), "P::<%d, %d>.%s()" % (a, b, m)))
    for d in itertools.product(range(N4 + 1), repeat=4):
        for m in ("can", "tra"):
            calls.append(("%s %d %d %d %d" % ((m,) + d), "R::<%d, %d, %d, %d>.%s()" % (d + (m,))))
    p += "static T: &[(&str, fn() -> i128)] = &[%s];\nfn main() { for (n, f) in T { println!(\"{} {}\", n, f()); } }\n" % ",\n".join('("%s", || %s)' % c for c in calls)
    r = rustc(["-C", "debuginfo=0", "-o", "probe"], p, tmp, "probe")
    if r.returncode != 0:
        print("constraint.rs does not compile as expected:\n" + r.stderr[-3000:])
        sys.exit(2)
    out = {}
    for l in subprocess.run([os.path.join(tmp, "probe")], capture_output=True, text=True, check=True).stdout.splitlines():
        m, *d = l.split()
        d = [int(x) for x in d]
        if d[-1] >= 0:
            out.setdefault(m, {})[tuple(d[:-1])] = d[-1]
        else:
            out.setdefault(m, {})
    return out


# what generic code may use when all it knows is the constraint
IMPLIED = [
    ("CanMultiply<R1, C1, R2, C2>", "DimEq<C1, R2>"), ("CanMultiply<R1, C1, R2, C2>", "DimEq<R2, C1>"),
    ("CanTransposeMultiply<R1, C1, R2, C2>", "DimEq<R1, R2>"), ("CanTransposeMultiply<R1, C1, R2, C2>", "DimEq<R2, R1>"),
    ("CanExtend<R1, C1>", "DimAdd<R1, Const<1>, Output = C1>"), ("CanContract<R1, C1>", "DimSub<R1, Const<1>, Output = C1>"),
    ("DimAdd<R1, C1>", "Dim"), ("DimSub<R1, C1>", "Dim"), ("DimMul<R1, C1>", "Dim"), ("DimLt<R1, C1>", "Dim"),
]


def implied_line(i):
    return "fn g%d<R1: Dim, C1: Dim, R2: Dim, C2: Dim, T: %s>() { fn need<R1: Dim, C1: Dim, R2: Dim, C2: Dim, T: %s>() {} need::<R1, C1, R2, C2, T>() }" % ((i,) + IMPLIED[i])


def probe_implied(tmp):
    src = HEAD + "\n".join(implied_line(i) for i in range(len(IMPLIED))) + "\nfn main() {}\n"
    bad, other = failing_lines(src, tmp, ["--emit=metadata"])
    if other:
        print("unexpected compiler errors: %s" % other[:3])
        sys.exit(2)
    return {(i,): 0 for i in range(len(IMPLIED)) if HEAD.count("\n") + 1 + i not in bad}


def single_constraint(kind, d, out):
    """one-line program that compiles exactly when the relation holds for these dimensions (with that output)"""
    if kind == "implied":
        return HEAD + implied_line(d[0]) + "\nfn main() {}\n"
    c = ", ".join("Const<%d>" % x for x in d)
    t = dict(add="DimAdd<%s, Output = Const<%s>>", sub="DimSub<%s, Output = Const<%s>>", mul="DimMul<%s, Output = Const<%s>>", eq="DimEq<%s, Representative = Const<%s>>").get(kind)
    t = t % (c, out) if t else dict(lt="DimLt<%s>", ext="CanExtend<%s>", con="CanContract<%s>", can="CanMultiply<%s>", tra="CanTransposeMultiply<%s>")[kind] % c
    return HEAD + "fn need<T>() where T: %s {}\nfn main() { need::<ShapeConstraint>(); }\n" % t


def accept(table, vs, out=None):
    return z3.Or(*[z3.And(*[v == x for v, x in zip(vs, d)], *([out == o] if out is not None else [])) for d, o in table.items()] + [z3.BoolVal(False)])


def inr(vs, lo, hi):
    return z3.And(*[z3.And(v >= lo, v <= hi) for v in vs])


def ind2(vs):
    return z3.And(*[z3.Or(z3.And(v >= 0, v <= N2), *[v == x for x in FAR]) for v in vs])


def solve(goals, vs, out, name, what, spec):
    """ask z3 for dimensions that refute `goals`; returns (verdict, tuple, output)"""
    s = z3.Solver()
    s.add(goals)
    t = time.time()
    r = s.check()
    Q.append((name, str(r), time.time() - t))
    if r == z3.unsat:
        return None
    m = s.model()
    d = tuple(m.eval(v, model_completion=True).as_long() for v in vs)
    return dict(relation=name, kind=what, dims=d, output=None if out is None else m.eval(out, model_completion=True).as_long(), statement=spec)


def constraints(tmp, res):
    T = probe_constraints(tmp)
    a, b, o = z3.Ints("a b o")
    R = [
        ("add", a + b == o, inr([a, b], 1, 4), "DimAdd<A, B>::Output is A + B"),
        ("sub", z3.And(a >= b, a - b == o), z3.And(inr([a, b], 1, 4), a >= b), "DimSub<A, B> needs A >= B and its Output is A - B"),
        ("mul", a * b == o, inr([a, b], 1, 4), "DimMul<A, B>::Output is A * B"),
        ("eq", z3.And(a == b, o == a), a == b, "DimEq<A, B> holds exactly when A = B"),
    ]
    for k, spec, rng, text in R:
        acc = accept(T[k], [a, b], o)
        box = ind2([a, b])
        res.append(solve(z3.And(box, acc, z3.Not(spec)), [a, b], o, k, "accepted", text))
        res.append(solve(z3.And(box, rng, spec, z3.Not(acc)), [a, b], o, k, "rejected", text))
    R2 = [
        ("lt", a < b, inr([a, b], 0, 4), "DimLt<A, B> holds exactly when A < B"),
        ("ext", b == a + 1, z3.And(inr([a], 1, 4)), "CanExtend<A, B> holds exactly when B = A + 1"),
        ("con", a == b + 1, z3.And(inr([a], 1, 4)), "CanContract<A, B> holds exactly when B = A - 1"),
    ]
    for k, spec, rng, text in R2:
        acc = accept(T[k], [a, b])
        box = ind2([a, b])
        res.append(solve(z3.And(box, acc, z3.Not(spec)), [a, b], None, k, "accepted", text))
        res.append(solve(z3.And(box, rng, spec, z3.Not(acc)), [a, b], None, k, "rejected", text))
    v = z3.Ints("r1 c1 r2 c2")
    for k, spec, text in (("can", v[1] == v[2], "CanMultiply<R1, C1, R2, C2> holds exactly when C1 = R2"),
                          ("tra", v[0] == v[2], "CanTransposeMultiply<R1, C1, R2, C2> holds exactly when R1 = R2")):
        acc = accept(T[k], v)
        box = inr(v, 0, N4)
        res.append(solve(z3.And(box, acc, z3.Not(spec)), v, None, k, "accepted", text))
        res.append(solve(z3.And(box, spec, z3.Not(acc)), v, None, k, "rejected", text))
    T["implied"] = probe_implied(tmp)
    res.append(solve(z3.And(a >= 0, a < len(IMPLIED), z3.Not(accept(T["implied"], [a]))), [a], None, "implied", "rejected",
                     "generic code that assumes a constraint may use the arithmetic the constraint stands for"))
    return {k: len(x) for k, x in T.items()}


# ---- operations of the library
PRE = "use cglinalg_core::*;\n"
M = "Matrix<f64, %s, %s>"


def api():
    """(name, variables, bounds, line of Rust, spec, completeness range, text)"""
    d4 = ["r1", "c1", "r2", "c2"]
    r1, c1, r2, c2, n, m, k = z3.Ints("r1 c1 r2 c2 n m k")
    a, b = "Matrix<f64, {r1}, {c1}>", "Matrix<f64, {r2}, {c2}>"
    true = z3.BoolVal(True)
    L = []
    for nm, x, y in (("", "", ""), ("_ref_right", "", "&"), ("_ref_left", "&", ""), ("_ref_both", "&", "&")):
        L.append(("mul" + nm, d4, (1, 4), "fn {f}(a: %s%s, b: %s%s) -> Matrix<f64, {r1}, {c2}> {{ a * b }}" % (x, a, y, b), c1 == r2, true, "an R1 x C1 times an R2 x C2 matrix type-checks exactly when C1 = R2"))
    L.append(("mul_vector", ["r1", "c1", "n"], (1, 4), "fn {f}(a: %s, b: Vector<f64, {n}>) -> Vector<f64, {r1}> {{ a * b }}" % a, c1 == n, true, "an R x C matrix times an N-vector type-checks exactly when C = N"))
    L.append(("dot", d4, (1, 4), "fn {f}(a: %s, b: %s) -> f64 {{ a.dot(&b) }}" % (a, b), z3.And(r1 == r2, c1 == c2), true, "Matrix::dot type-checks exactly for equal shapes"))
    L.append(("tr_mul", d4, (1, 4), "fn {f}(a: %s, b: %s) -> Matrix<f64, {c1}, {c2}> {{ a.tr_mul(&b) }}" % (a, b), r1 == r2, true, "Matrix::tr_mul type-checks exactly when R1 = R2"))
    L.append(("tr_dot", d4, (1, 4), "fn {f}(a: %s, b: %s) -> f64 {{ a.tr_dot(&b) }}" % (a, b), z3.And(r1 == c2, c1 == r2), true, "Matrix::tr_dot type-checks exactly for transposed shapes"))
    L.append(("add", d4, (1, 4), "fn {f}(a: %s, b: %s) -> %s {{ a + b }}" % (a, b, a), z3.And(r1 == r2, c1 == c2), true, "matrix addition type-checks exactly for equal shapes"))
    L.append(("embed", ["n", "m"], (1, 4), "fn {f}(a: Matrix<f64, {n}, {n}>) -> Matrix<f64, {m}, {m}> {{ Matrix::from(a) }}", n <= m, true, "a square matrix converts to another size exactly when it is not smaller"))
    for t in ("Vector", "Point"):
        L.append(("extend_" + t.lower(), ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>) -> %s<f64, {m}> {{ a.extend(1.0) }}" % (t, t), m == n + 1, m <= 4, t + "::extend of N components gives N + 1"))
        L.append(("contract_" + t.lower(), ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>) -> %s<f64, {m}> {{ a.contract() }}" % (t, t), n == m + 1, n <= 4, t + "::contract of N components gives N - 1"))
    L.append(("to_homogeneous", ["n", "m"], (1, 5), "fn {f}(a: Point<f64, {n}>) -> Vector<f64, {m}> {{ a.to_homogeneous() }}", m == n + 1, m <= 4, "Point::to_homogeneous adds one coordinate"))
    L.append(("from_homogeneous", ["n", "m"], (1, 5), "fn {f}(a: Vector<f64, {m}>) -> Option<Point<f64, {n}>> {{ Point::from_homogeneous(&a) }}", m == n + 1, m <= 4, "Point::from_homogeneous drops one coordinate"))
    L.append(("from_array", ["r1", "c1", "k"], (1, 17), "fn {f}(a: [f64; {k}]) -> Matrix<f64, {r1}, {c1}> {{ Matrix::from(a) }}", k == r1 * c1, true, "a flat array converts to an R x C matrix exactly when it has R * C entries"))
    L.append(("as_ref", ["r1", "c1", "k"], (1, 17), "fn {f}(a: &Matrix<f64, {r1}, {c1}>) -> &[f64; {k}] {{ a.as_ref() }}", k == r1 * c1, true, "an R x C matrix views as an array of exactly R * C entries"))
    L.append(("as_mut", ["r1", "c1", "k"], (1, 17), "fn {f}(a: &mut Matrix<f64, {r1}, {c1}>) -> &mut [f64; {k}] {{ a.as_mut() }}", k == r1 * c1, true, "an R x C matrix views mutably as an array of exactly R * C entries"))
    for nm, fn in (("scale", "from_affine_nonuniform_scale"), ("translation", "from_affine_translation")):
        L.append(("affine_" + nm, ["n", "m"], (1, 5), "fn {f}(a: &Vector<f64, {n}>) -> Matrix<f64, {m}, {m}> {{ Matrix::%s(a) }}" % fn, m == n + 1, m <= 4, "an affine matrix of a %s of N components is N + 1 square" % nm))
    for t in ("Vector", "Point"):
        L.append(("dot_" + t.lower(), ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>, b: %s<f64, {m}>) -> f64 {{ a.dot(&b) }}" % (t, t), n == m, true, t + "::dot type-checks exactly for equal dimensions"))
        L.append(("sub_" + t.lower(), ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>, b: %s<f64, {m}>) -> Vector<f64, {n}> {{ a - b }}" % (t, t), n == m, true, t + " subtraction type-checks exactly for equal dimensions"))
        L.append(("add_" + t.lower(), ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>, b: Vector<f64, {m}>) -> %s<f64, {n}> {{ a + b }}" % (t, t), n == m, true, "adding a vector to a %s type-checks exactly for equal dimensions" % t.lower()))
    L.append(("transpose", d4, (1, 4), "fn {f}(a: %s) -> %s {{ a.transpose() }}" % (a, b), z3.And(r1 == c2, c1 == r2), true, "the transpose of an R x C matrix is C x R"))
    L.append(("row_column", d4, (1, 4), "fn {f}(a: " + a + ") -> (Vector<f64, {r2}>, Vector<f64, {c2}>) {{ (a.row(0), a.column(0)) }}", z3.And(r2 == c1, c2 == r1), true, "a row of an R x C matrix has C entries, a column R"))
    sq = z3.And(r1 == c1)
    for nm, e in (("sub", "a - b"), ("add_assign", "{{ let mut a = a; a += b; a }}"), ("sub_assign", "{{ let mut a = a; a -= b; a }}")):
        L.append((nm, d4, (1, 4), "fn {f}(a: %s, b: %s) -> %s {{ %s }}" % (a, b, a, e), z3.And(r1 == r2, c1 == c2), true, "matrix subtraction and the assigning forms type-check exactly for equal shapes"))
    L.append(("equal", d4, (1, 4), "fn {f}(a: %s, b: %s) -> bool {{ a == b }}" % (a, b), z3.And(r1 == r2, c1 == c2), true, "matrices compare exactly when their shapes are equal"))
    L.append(("map", d4, (1, 4), "fn {f}(a: %s) -> Matrix<i32, {r2}, {c2}> {{ a.map(|x| x as i32) }}" % a, z3.And(r1 == r2, c1 == c2), true, "mapping keeps the shape"))
    L.append(("try_cast", d4, (1, 4), "fn {f}(a: %s) -> Option<Matrix<i32, {r2}, {c2}>> {{ a.try_cast() }}" % a, z3.And(r1 == r2, c1 == c2), true, "casting keeps the shape"))
    L.append(("component_mul", d4, (1, 4), "fn {f}(a: %s, b: %s) -> %s {{ a.component_mul(&b) }}" % (a, b, a), z3.And(r1 == r2, c1 == c2), true, "the component-wise product type-checks exactly for equal shapes"))
    L.append(("from_columns", d4, (1, 4), "fn {f}(x: &[Vector<f64, {r2}>; {c2}]) -> %s {{ Matrix::from_columns(x) }}" % a, z3.And(r1 == r2, c1 == c2), true, "C columns of R components make an R x C matrix"))
    L.append(("from_rows", d4, (1, 4), "fn {f}(x: &[Vector<f64, {c2}>; {r2}]) -> %s {{ Matrix::from_rows(x) }}" % a, z3.And(r1 == r2, c1 == c2), true, "R rows of C components make an R x C matrix"))
    L.append(("from_nested", d4, (1, 4), "fn {f}(x: [[f64; {r2}]; {c2}]) -> %s {{ Matrix::from(x) }}" % a, z3.And(r1 == r2, c1 == c2), true, "an array of C columns of R entries converts to an R x C matrix"))
    L.append(("diagonal", ["r1", "c1", "n"], (1, 4), "fn {f}(a: %s) -> Vector<f64, {n}> {{ a.diagonal() }}" % a, z3.And(r1 == c1, n == r1), true, "an N x N matrix, and no other, has a diagonal of N entries"))
    for m_, e in (("trace", "f64"), ("determinant", "f64"), ("is_symmetric", "bool"), ("is_diagonal", "bool"), ("is_invertible", "bool"), ("transpose_mut", "()")):
        L.append((m_, ["r1", "c1"], (1, 4), "fn {f}(mut a: %s) -> %s {{ a.%s() }}" % (a, e, m_), r1 == c1, true, "Matrix::%s type-checks exactly for square matrices" % m_))
    L.append(("try_inverse", d4, (1, 4), "fn {f}(a: %s) -> Option<%s> {{ a.try_inverse() }}" % (a, b), z3.And(r1 == c1, r2 == r1, c2 == r1), true, "the inverse of an N x N matrix, and no other, is N x N"))
    L.append(("identity", ["r1", "c1"], (1, 4), "fn {f}() -> %s {{ Matrix::identity() }}" % a, r1 == c1, true, "identity matrices are square"))
    L.append(("from_diagonal", ["r1", "c1", "n"], (1, 4), "fn {f}(d: &Vector<f64, {n}>) -> %s {{ Matrix::from_diagonal(d) }}" % a, z3.And(r1 == c1, n == r1), true, "a diagonal of N entries makes an N x N matrix"))
    for w in itertools.chain("xyzw", ("xy", "yx", "zx", "wz", "xyz", "zyx", "wyx", "xxw")):
        k_ = max("xyzw".index(q) for q in w)
        if len(w) > 1:
            L.append(("swizzle_" + w, ["n", "m"], (1, 5), "fn {f}(a: Vector<f64, {n}>) -> Vector<f64, {m}> {{ a.%s() }}" % w, z3.And(m == len(w), n > k_), z3.And(n <= 4), "the swizzle %s exists exactly for vectors that have its components and has as many" % w))
        else:
            for t in ("Vector", "Point"):
                L.append(("field_%s_%s" % (w, t.lower()), ["n"], (1, 5), "fn {f}(a: %s<f64, {n}>) -> f64 {{ a.%s }}" % (t, w), z3.And(n > k_), n <= (4 if t == "Vector" else 3), "the component %s exists exactly for types that have it" % w))
    L.append(("cross", ["n", "m", "k"], (1, 5), "fn {f}(a: Vector<f64, {n}>, b: Vector<f64, {m}>) -> Vector<f64, {k}> {{ a.cross(&b) }}", z3.And(n == 3, m == 3, k == 3), true, "the cross product is of two 3-vectors"))
    return L


def api_transform():
    n, m, k = z3.Ints("n m k")
    L = []
    for t in ("Translation", "Scale", "Rotation", "Isometry", "Similarity"):
        x = t.lower()
        L.append((x + "_to_affine_matrix", ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>) -> Matrix<f64, {m}, {m}> {{ a.to_affine_matrix() }}" % t, m == n + 1, m <= 4, t + " of N dimensions has an affine matrix of size N + 1"))
        L.append((x + "_to_transform", ["n", "m", "k"], (1, 4), "fn {f}(a: %s<f64, {n}>) -> Transform<f64, {m}, {k}> {{ a.to_transform() }}" % t, z3.And(m == n, k == n + 1), k <= 4, t + " of N dimensions is a transformation of N dimensions"))
    for t in ("Translation", "Scale", "Rotation", "Isometry", "Similarity", "Reflection", "Shear"):
        x = t.lower()
        L.append((x + "_apply_point", ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>, b: Point<f64, {m}>) -> Point<f64, {n}> {{ a.apply_point(&b) }}" % t, n == m, n <= 4, t + "::apply_point type-checks exactly for equal dimensions"))
        if t != "Translation":
            L.append((x + "_apply_vector", ["n", "m"], (1, 5), "fn {f}(a: %s<f64, {n}>, b: Vector<f64, {m}>) -> Vector<f64, {n}> {{ a.apply_vector(&b) }}" % t, n == m, n <= 4, t + "::apply_vector type-checks exactly for equal dimensions"))
    for t in ("Translation", "Rotation", "Isometry", "Similarity"):
        x = t.lower()
        L.append((x + "_compose", ["n", "m"], (1, 4), "fn {f}(a: %s<f64, {n}>, b: %s<f64, {m}>) -> %s<f64, {n}> {{ a * b }}" % (t, t, t), n == m, z3.BoolVal(True), "two of %s compose exactly for equal dimensions" % t))
    for t, u in (("Translation", "Rotation"), ("Translation", "Isometry"), ("Rotation", "Translation"), ("Rotation", "Isometry"), ("Isometry", "Translation"), ("Isometry", "Rotation"), ("Similarity", "Isometry"), ("Scale", "Scale")):
        o = t if t in ("Similarity", "Scale") else "Isometry"
        L.append(("%s_times_%s" % (t.lower(), u.lower()), ["n", "m", "k"], (1, 4), "fn {f}(a: &%s<f64, {n}>, b: &%s<f64, {m}>) -> %s<f64, {k}> {{ a * b }}" % (t, u, o), z3.And(n == m, k == n), z3.BoolVal(True), "a %s times a %s is a %s, exactly for equal dimensions" % (t, u, o)))
    L.append(("transform_compose", ["n", "m"], (1, 3), "fn {f}(a: Transform<f64, {n}, {{ {n} + 1 }}>, b: Transform<f64, {m}, {{ {m} + 1 }}>) -> Transform<f64, {n}, {{ {n} + 1 }}> {{ a * b }}", n == m, z3.BoolVal(True), "two transforms compose exactly for equal dimensions"))
    L.append(("transform_type", ["n", "m"], (1, 5), "fn {f}(a: &Transform<f64, {n}, {m}>) {{ }}", m == n + 1, m <= 4, "Transform<N, M> is a type exactly when M = N + 1"))
    return L


def externs(transform=False):
    if transform:
        d = os.path.join(V, "target", "symt", "debug", "deps")
        t = max(glob.glob(os.path.join(d, "libcglinalg_transform*.rlib")), key=os.path.getmtime)
        # the instance of the core crate that the transform crate was built against
        c = max([x for x in glob.glob(os.path.join(d, "libcglinalg_core*.rlib"))], key=os.path.getmtime)
        return ["--extern", "cglinalg_core=" + c, "--extern", "cglinalg_transform=" + t, "-L", "dependency=" + d, "--emit=metadata", "--crate-type", "lib"]
    d = os.path.join(V, "target", "ir", "debug", "deps")
    c = max(glob.glob(os.path.join(d, "libcglinalg_core*.rlib")), key=os.path.getmtime)
    return ["--extern", "cglinalg_core=" + c, "-L", "dependency=" + d, "-C", "panic=abort", "--emit=metadata", "--crate-type", "lib"]


def failing_lines(src, tmp, ext):
    r = rustc(ext + ["--error-format=json"], src, tmp, "api")
    bad, other = set(), []
    for l in r.stderr.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("level") != "error":
            continue
        ls = [s["line_start"] for s in e["spans"] if s["file_name"].endswith("api.rs") and s["is_primary"]]
        if ls:
            bad |= set(ls)
        elif not e["message"].startswith("aborting"):
            other.append(e["message"])
    return bad, other


def tuples(vs, bnd):
    for d in itertools.product(*[range(bnd[0], bnd[1] + 1) if v in ("k",) or bnd[1] < 17 else range(1, 5) for v in vs]):
        yield d


def operations(tmp, res, transform=False):
    ext = externs(transform)
    L = api_transform() if transform else api()
    counts, lines, where = {}, [PRE.rstrip() + (" use cglinalg_transform::*;" if transform else "")], {}
    for name, vs, bnd, line, spec, rng, text in L:
        for d in tuples(vs, bnd):
            lines.append(line.format(f="f%d" % len(lines), **dict(zip(vs, d))))
            where[len(lines)] = (name, d)
    bad, other = failing_lines("\n".join(lines) + "\n", tmp, ext)
    if other:
        print("unexpected compiler errors: %s" % other[:3])
        sys.exit(2)
    ok = {}
    for l, (name, d) in where.items():
        if l not in bad:
            ok.setdefault(name, {})[d] = 0
    for name, vs, bnd, line, spec, rng, text in L:
        v = [z3.Int(x) for x in vs]
        acc = accept(ok.get(name, {}), v)
        box = z3.And(*[z3.And(x >= bnd[0], x <= (bnd[1] if n == "k" or bnd[1] < 17 else 4)) for n, x in zip(vs, v)])
        counts["op " + name] = len(ok.get(name, {}))
        for kind, g in (("accepted", z3.And(box, acc, z3.Not(spec))), ("rejected", z3.And(box, spec, rng, z3.Not(acc)))):
            r = solve(g, v, None, name, kind, text)
            if r:
                r["transform"] = transform
                r["line"] = line.format(f="f", **dict(zip(vs, r["dims"])))
            res.append(r)
    return counts, len(where)


def confirm(tmp, r):
    """compile the single case: True when it is as the solver says"""
    if "line" in r:
        src, args = PRE + ("use cglinalg_transform::*;\n" if r["transform"] else "") + r["line"] + "\n", externs(r["transform"])
    else:
        src, args = single_constraint(r["relation"], r["dims"], r["output"]), ["--emit=metadata"]
    r["program"] = src
    rc = rustc(args, src, tmp, "api").returncode
    return (rc == 0) == (r["kind"] == "accepted")


def replay(path):
    t = open(path).read()
    want = re.search(r"^// violated when it (compiles|does not compile)$", t, re.M).group(1)
    tmp = tempfile.mkdtemp()
    try:
        rc = rustc(externs("cglinalg_transform::*" in t) if "cglinalg_core::*" in t else ["--emit=metadata"], t, tmp, "api").returncode
    finally:
        shutil.rmtree(tmp)
    bad = (rc == 0) == (want == "compiles")
    print("compiles" if rc == 0 else "does not compile", "- VIOLATED" if bad else "- holds")
    return 1 if bad else 0


def main():
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    part = sys.argv[2]
    tmp = tempfile.mkdtemp()
    try:
        res = []
        if part == "constraints":
            counts = constraints(tmp, res)
            probes = 7 * len(D2) ** 2 + 2 * (N4 + 1) ** 4
        else:
            counts, probes = operations(tmp, res, part == "transform")
        bad = []
        for r in res:
            if r:
                r["confirmed"] = confirm(tmp, r)
                bad.append(r)
        json.dump(dict(goals=len(res), bad=bad, queries=len(Q), solver_s=sum(q[2] for q in Q), accepted=counts, probes=probes), open(sys.argv[1], "w"))
    finally:
        shutil.rmtree(tmp)


main()
