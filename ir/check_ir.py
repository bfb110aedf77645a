#!/usr/bin/env python3
"""check_ir.py PROP OUT.json TIER SEED: executes l_* and r_* of every harness of PROP symbolically from the emitted LLVM IR
and asks z3 for inputs on which they differ; such inputs are run natively. Needs the z3 Python module (python3-vt)."""
import glob, json, math, multiprocessing as mp, os, random, re, resource, struct, subprocess, sys, time, zlib
import z3
from irexec import *
HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(os.path.dirname(HERE), "target", "ir", "debug")
PROP, OUT, TIER, SEED = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
ONLY = sys.argv[5] if len(sys.argv) > 5 else ""
END = float(os.environ.get("IR_DEADLINE", "inf"))          # the whole run, seconds since the epoch
HARNESS_S = 900 if TIER == "thorough" else 150              # one harness
REPLAY_S = 240 if TIER == "thorough" else 40                # the search for a reproducible model of one refutation
KNOWN = [x for x in os.environ.get("IR_KNOWN", "").split(",") if x]


def ll(name):
    c = [f for f in glob.glob(os.path.join(TARGET, "deps", name + "*.ll")) if re.match(re.escape(name) + r"(-[0-9a-f]{16})?\.ll$", os.path.basename(f))]
    return max(c, key=os.path.getmtime) if c else None


def module(kind):
    m = Module()
    for n in ("ir_lib" if kind == "l" else "ir_spec", "cglinalg_core", "cglinalg_trigonometry", "cglinalg_numeric", "num_traits"):
        f = ll(n)
        if f:
            m.load(f)
    return m


W = {"usize": 64, "isize": 64}


def width(T):
    return W.get(T) or int(T[1:])


def fty(T):
    return "double" if T == "f64" else "float"


def native(kind, name, data, fill=0):
    r = subprocess.run([os.path.join(TARGET, "ircheck"), "run", kind, name, data.hex(), str(fill)], capture_output=True, text=True)
    if r.returncode != 0:
        return "panic", None
    a = r.stdout.split()
    return int(a[0]), bytes.fromhex(a[1]) if len(a) > 1 else b""


def differ(T, a, b, name, data):
    """do two native results differ beyond rounding, where the specification states one?"""
    n = width(T) // 8
    b2 = native("r", name, data, 85)[1]
    for k in range(0, len(a), n):
        x, y = a[k:k + n], b[k:k + n]
        if b2[k:k + n] != y:
            continue
        if T[0] != "f":
            if x != y:
                return True
            continue
        u, v = (struct.unpack("<" + ("d" if n == 8 else "f"), q)[0] for q in (x, y))
        if u != u or v != v:
            if (u != u) != (v != v):
                return True
            continue
        if u == v:
            continue
        if math.isinf(u) or math.isinf(v):
            return True
        if abs(u - v) > (1e-9 if n == 8 else 1e-3) * max(abs(u), abs(v)):
            return True
    return False


NANS = (struct.pack("<d", math.nan), struct.pack("<f", math.nan))


def cls_axioms(ex):
    """infinities, NaN and zeros through the operations; overflow and underflow are left out"""
    out = []
    for nm, a, r in ex.apps:
        w = r.size()
        inf = ((1 << (11 if w == 64 else 8)) - 1) << (52 if w == 64 else 23)
        mag = lambda x: z3.Extract(w - 2, 0, x)
        isinf, zero, fin = (lambda x: mag(x) == inf), (lambda x: mag(x) == 0), (lambda x: z3.ULT(mag(x), z3.BitVecVal(inf, w - 1)))
        sg = lambda x: z3.Extract(w - 1, w - 1, x)
        if nm == "fadd":
            x, y = a
            bad = z3.Or(is_nan(x), is_nan(y), z3.And(isinf(x), isinf(y), sg(x) != sg(y)))
            out.append(z3.If(bad, is_nan(r), z3.If(isinf(x), r == x, z3.If(isinf(y), r == y, fin(r)))))
            out.append(z3.Implies(z3.And(zero(x), fin(y), z3.Not(zero(y))), r == y))
            out.append(z3.Implies(z3.And(zero(y), fin(x), z3.Not(zero(x))), r == x))
        elif nm in ("fmul", "fdiv"):
            x, y = a
            if nm == "fmul":
                bad, big, nul = z3.And(z3.Or(zero(x), zero(y)), z3.Or(isinf(x), isinf(y))), z3.Or(isinf(x), isinf(y)), z3.Or(zero(x), zero(y))
            else:
                bad, big, nul = z3.Or(z3.And(zero(x), zero(y)), z3.And(isinf(x), isinf(y))), z3.Or(isinf(x), zero(y)), z3.Or(zero(x), isinf(y))
            out.append(z3.If(z3.Or(is_nan(x), is_nan(y), bad), is_nan(r), z3.And(sg(r) == sg(x) ^ sg(y), z3.If(big, isinf(r), z3.And(fin(r), zero(r) == nul)))))
        elif nm == "sqrt":
            x, = a
            out.append(z3.If(z3.Or(is_nan(x), z3.And(sg(x) == 1, z3.Not(zero(x)))), is_nan(r), z3.If(isinf(x), r == x, z3.And(fin(r), zero(r) == zero(x)))))
    return out


def usual(T, O, data, mode):
    """float inputs on which equivalent formulas cannot differ by overflow, underflow or special values; predicates, bit patterns and single operations (mode all) are judged everywhere"""
    n = width(T) // 8
    if mode == "cls":
        return all(struct.unpack("<" + ("d" if n == 8 else "f"), data[k:k + n])[0] in (0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, math.inf, -math.inf) or data[k:k + n] in NANS for k in range(0, len(data), n))
    if T[0] != "f" or O[0] != "f" or mode in ("sel", "lim", "all") or (mode == "uf" and (len(data) == n or PROP == "C24")):
        return True
    lim = 1e30 if n == 8 else 1e9
    xs = [struct.unpack("<" + ("d" if n == 8 else "f"), data[k:k + n])[0] for k in range(0, len(data), n)]
    return all(x == 0 or 1 / lim <= abs(x) <= lim for x in xs)


def tame(T, b):
    n, lim = width(T) // 8, 1e300 if width(T) == 64 else 1e35
    xs = [struct.unpack("<" + ("d" if n == 8 else "f"), b[k:k + n])[0] for k in range(0, len(b), n)]
    return all(1 / lim <= abs(x) <= lim for x in xs)


MODS = {}


def undecided_result(h, note):
    return dict(name=h[0], verdict="Undecided", note=note, paths=0, queries=0, solver_s=0, functions=[], instr=0, inputs=None)


def work(h):
    try:
        return check(h)
    except Unsupported as e:
        return undecided_result(h, "not encodable: %s" % e)
    except Exception as e:                      # an instruction or a shape of the IR the executor does not expect
        return undecided_result(h, "not encodable: %s %s" % (type(e).__name__, str(e)[:120]))


def paths(kind, nm, K, T, mode, ins):
    if kind not in MODS:
        MODS[kind] = module(kind)
    st = State()
    a, o = st.alloc(), st.alloc()
    n = width(T) // 8
    ex = EX
    t = fty(T) if T[0] == "f" else ("i", width(T))
    for k, x in enumerate(ins):
        ex.store(st, ("obj", a, k * n), t, x)
    ex.mod = MODS[kind]
    ex.gobj = {}
    ex.steps = 0
    rs = ex.call("%s_%s" % (kind, nm.replace("/", "_")), [("obj", a, 0), ("obj", o, 0)], st)
    return [(s.pc, v, s.mem[o], s) for s, v in rs]


def check(h):
    global EX
    name, T, K, O, M, mode = h[0], h[1], int(h[2]), h[3], int(h[4]), h[5]
    t0 = time.time()
    ex = EX = Exec(None, exact=(mode == "fp"), mono=(mode == "pow"), ring=(mode == "ring"))
    end = ex.end = min(END, t0 + HARNESS_S)
    ins = [z3.BitVec("i%d" % k, width(T)) for k in range(K)]
    L = paths("l", name, K, T, mode, ins)
    lf = sorted(f for f in ex.functions if not f.startswith("l_"))
    R = paths("r", name, K, T, mode, ins)
    ot = fty(O) if O[0] == "f" else ("i", width(O))
    n = width(O) // 8
    sol = z3.Solver()
    sol.set("timeout", 60000 if TIER == "thorough" else 15000)
    if mode == "cls":
        sol.add(*cls_axioms(ex))
    q, sec, undecided, bad, pairs = 0, 0.0, [], None, 0
    wit = False
    for pl, vl, ml, sl in L:
        for pr, vr, mr, sr in R:
            if time.time() > end:
                undecided.append("time bound")
                break
            if isinstance(vr, str):
                pre = z3.BoolVal(True)
                same = z3.BoolVal(isinstance(vl, str))
            else:
                pre = vr == 1
                if isinstance(vl, str):
                    same = z3.BoolVal(False)
                else:
                    eqs = []
                    if z3.is_false(z3.simplify(pre)):
                        continue
                    for k in range(M):
                        if k * n not in mr:
                            eqs.append(z3.BoolVal(True))     # not stated on this path
                            continue
                        if k * n not in ml:
                            eqs.append(z3.BoolVal(False))
                            continue
                        x, y = ex.load(sl, ("obj", 2, k * n), ot), ex.load(sr, ("obj", 2, k * n), ot)
                        if mode == "ring":
                            d = z3.simplify(x - y, som=True, som_blowup=100000)
                            eqs.append(z3.BoolVal(True) if z3.is_bv_value(d) and d.as_long() == 0 else d == 0)
                            continue
                        e = [x == y]
                        if mode == "cls":
                            inf = fval(math.inf, width(O))
                            fin = lambda v: z3.ULT(v << 1, inf << 1)
                            e.append(z3.And(fin(x), fin(y)))
                        if O[0] == "f":
                            e.append(z3.And(is_nan(x), is_nan(y)))
                        if mode == "lim":
                            e.append(z3.And(x << 1 == 0, y << 1 == 0))      # the sign of zero is not stated
                        eqs.append(z3.Or(*e))
                    same = z3.And(*eqs)
            t1 = time.time()
            pairs += 1
            sol.push()
            sol.add(*pl)
            sol.add(*pr)
            sol.add(pre)
            if not wit:
                q += 1
                wit = sol.check() == z3.sat
            sol.add(z3.Not(same))
            q += 1
            r = sol.check()
            if r == z3.sat:
                got = replay(sol, name, O, T, ins, mode)
                q += got[1]
                if got[0]:
                    bad = got[0]
                else:
                    undecided.append("refuted by the solver, not reproduced natively")
            elif r == z3.unknown:
                undecided.append("solver gave up")
            sol.pop()
            sec += time.time() - t1
            if bad:
                break
        if bad or time.time() > end:
            break
    v = "Refuted" if bad else "Undecided" if undecided else "Proved"
    return dict(name=name, verdict=v, note=bad[1] if bad else "; ".join(sorted(set(undecided))), paths=len(L), spec_paths=len(R), pairs=pairs, queries=q + ex.queries, solver_s=sec,
                functions=lf, instr=ex.instr, inputs=bad[0] if bad else None, witness=wit, wall=time.time() - t0)


def replay(sol, name, O, T, ins, mode):
    """concrete inputs from models of the refutation, preferring ordinary numbers; each is run natively"""
    rng = random.Random(SEED * 7919 + zlib.crc32(name.encode()))
    n = width(T) // 8
    q, end = 0, time.time() + REPLAY_S
    special = PROP == "C24" and mode == "uf" and T[0] == "f" and O[0] == "f"
    if special:
        # where formulas for one function part: halves, the neighbourhoods of 0, 1 and pi, the whole numbers beyond 2^52, the limits of the type
        e = 2.0 ** (-30 if n == 8 else -13)
        pal = [0.5, -0.5, 1.5, -2.5, 1e-9, -1e-9, 1e-20, -1e-20, 3.14, 3.141, -3.1415926, 1.5707, 1e-3, -1e-3, 1 + e, 1 - e, -1.0, 20.0, -20.0, 100.0, -100.0, 2.0 ** (52 if n == 8 else 23) + 1, 1e19, -1e19, 0.0, -0.0, math.inf, -math.inf, math.nan]
        pal += [0.49999999999999994, 300.0, 720.0, -720.0, 1e200, -1e200, 1e-200, 1.7e308, 5e-324] if n == 8 else [0.49999997, 60.0, -60.0, 1e25, -1e25, 1e-25, 3.3e38, 1e-45]
    for att in range(2 * len(pal) + 40 if special else 60 if TIER == "thorough" else 40):
        if time.time() > end:
            break
        sol.push()
        if special and att % 2:
            vs = [pal[att // 2 % len(pal)]] if len(ins) == 1 else [1 + e, 1 - e, -1.0] if att == 1 else [rng.choice(pal) for _ in ins]
            sol.add(*[x == fval(v, width(T)) for x, v in zip(ins, vs)])
        elif mode == "cls":
            for x in ins:
                vs = [0.0, 1.0, -1.0, 2.0, -3.0, 0.5, math.inf, -math.inf, math.nan]
                sol.add(z3.Or(*[x == fval(v, width(T)) for v in (rng.sample(vs, 4) if att else vs)]))
        elif att % 2 and T[0] == "f" and (O[0] != "f" or mode == "all"):
            # a predicate may go wrong at the limits of the type only
            lims = [1.0, 3.0, 0.0, -0.0, math.inf, math.nan] + ([1e300, 1.6e308, -1.6e308, 1e-300, 5e-324] if n == 8 else [1e37, 3.3e38, -3.3e38, 1e-37, 1e-45])
            pal = [1.6e308 if n == 8 else 3.3e38] if att == 1 else rng.sample(lims, 2) if att % 4 == 1 else lims
            for x in ins:
                if att == 1 or rng.random() < 0.8:
                    sol.add(x == fval(rng.choice(pal), width(T)))
        elif att:
            # pin some inputs to ordinary values
            for x in ins:
                if rng.random() < (0.5 if att % 3 == 0 else 1.0):
                    if T[0] == "f":
                        f = rng.choice([1, 2, 3, 5, 7, 0.5, 0.25, 11, 13, 100, 1e-3]) * rng.choice([1, -1]) + rng.choice([0, 0.125, 0.0625])
                        sol.add(x == fval(f, width(T)))
                    else:
                        sol.add(x == rng.choice([1, 2, 3, 5, 7, 11, 13, 20, 100, -1, -2, -5]))
        q += 1
        if sol.check() == z3.sat:
            m = sol.model()
            data = b"".join((m.eval(x, model_completion=True).as_long()).to_bytes(n, "little") for x in ins)
            (rr, ro), (lr, lo) = native("r", name, data), native("l", name, data)
            d = None
            if not usual(T, O, data, mode):
                pass
            elif mode == "pow" and ro and not tame(O, ro):
                pass                                    # the power itself over- or underflows
            elif rr == "panic" or lr == "panic":
                if rr != lr and rr != 0:
                    d = "library %s, specification %s" % ("panics" if lr == "panic" else "returns", "panics" if rr == "panic" else "returns")
            elif rr == 1 and differ(O, lo, ro, name, data):
                d = "got %s, expected %s" % (show(O, lo), show(O, ro))
            if d:
                sol.pop()
                return (data.hex(), d + " for " + show(T, data)), q
        sol.pop()
    return None, q


def show(T, b):
    n = width(T) // 8
    if T[0] == "f":
        return str([struct.unpack("<" + ("d" if n == 8 else "f"), b[k:k + n])[0] for k in range(0, len(b), n)])
    return str([int.from_bytes(b[k:k + n], "little", signed=T[0] == "i") for k in range(0, len(b), n)])


if __name__ == "__main__" and PROP == "replay":
    hs = {l.split()[0]: l.split() for l in subprocess.run([os.path.join(TARGET, "ircheck"), "list"], capture_output=True, text=True, check=True).stdout.splitlines()}
    h, data = hs[OUT], bytes.fromhex(TIER)
    (rr, ro), (lr, lo) = native("r", OUT, data), native("l", OUT, data)
    bad = (rr != lr) if "panic" in (rr, lr) else rr == 1 and differ(h[3], lo, ro, OUT, data)
    print(OUT, "inputs", show(h[1], data), "got", lr if lo is None else show(h[3], lo), "expected", rr if ro is None else show(h[3], ro), "VIOLATED" if bad else "holds")
    sys.exit(1 if bad else 0)
elif __name__ == "__main__":
    hs = [l.split() for l in subprocess.run([os.path.join(TARGET, "ircheck"), "list"], capture_output=True, text=True, check=True).stdout.splitlines()]
    # scalar-on-the-left forms also belong to the type they act on
    also = tuple("C25/" + x for x in {"C01": ["mul_vector", "mul_point"], "C04": ["mul_matrix"], "C10": ["mul_quaternion"],
                                      "C15": ["mul_complex", "add_complex", "div_complex", "sub_complex_re", "sub_complex_magnitude"]}.get(PROP, []))
    hs = [x for x in hs if x[0].startswith(PROP + "/" + ONLY) or not ONLY and also and x[0].startswith(also)]
    MODS["l"], MODS["r"] = module("l"), module("r")
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    out, fresh = [], 0
    with mp.Pool(8) as p:
        it = p.imap_unordered(work, hs)
        while len(out) < len(hs) and fresh < 12:
            try:
                o = it.next(timeout=max(1.0, min(END + 30, time.time() + HARNESS_S + REPLAY_S + 200) - time.time()))
            except (mp.TimeoutError, StopIteration):
                break
            out.append(o)
            fresh += o["verdict"] == "Refuted" and not o["name"].startswith(tuple(KNOWN))
        p.terminate()
    done = {o["name"]: o for o in out}
    out = [done.get(h[0]) or undecided_result(h, "not run: violations found before" if fresh >= 12 else "time bound") for h in hs]
    json.dump(out, open(OUT, "w"), indent=0)
    if os.environ.get("IRV"):
        for o in out:
            if o["verdict"] != "Proved":
                print(o["name"], o["verdict"], o["note"])
        print({v: sum(o["verdict"] == v for o in out) for v in ("Proved", "Refuted", "Undecided")}, sum(o["queries"] for o in out), sum(o["solver_s"] for o in out))
