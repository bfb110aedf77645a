"""A small symbolic executor for the LLVM IR rustc emits: integers are bit vectors, floats are their IEEE bit
patterns, memory is a set of byte arrays with concrete offsets. Every feasible path is followed."""
import re, struct, time
import z3

class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
def parse_type(s, i=0):
    """returns (type, next index); types: ('i',n) 'float' 'double' 'ptr' 'void' ('s',[..]) ('a',n,t) ('v',n,t)"""
    while s[i] == " ":
        i += 1
    m = re.compile(r"i(\d+)\b").match(s, i)
    if m:
        return ("i", int(m.group(1))), m.end()
    for k in ("float", "double", "ptr", "void", "metadata", "label"):
        if s.startswith(k, i):
            return k, i + len(k)
    if s.startswith("<{", i) or s[i] == "{":
        packed = s[i] == "<"
        i += 2 if packed else 1
        out = []
        while True:
            while s[i] == " ":
                i += 1
            if s[i] == "}":
                i += 1
                break
            if s[i] == ",":
                i += 1
                continue
            t, i = parse_type(s, i)
            out.append(t)
        if packed:
            assert s[i] == ">"
            i += 1
        return ("s", tuple(out), packed), i
    if s[i] in "[<":
        m = re.compile(r"[\[<](\d+) x ").match(s, i)
        if not m:
            raise Unsupported("type " + s[i:i + 40])
        t, j = parse_type(s, m.end())
        while s[j] == " ":
            j += 1
        return ("a" if s[i] == "[" else "v", int(m.group(1)), t), j + 1
    raise Unsupported("type " + s[i:i + 40])


def size_align(t):
    if t == "float":
        return 4, 4
    if t in ("double", "ptr"):
        return 8, 8
    if t[0] == "i":
        b = max(1, (t[1] + 7) // 8)
        p = 1
        while p < b:
            p *= 2
        return p, p
    if t[0] == "a":
        s, a = size_align(t[2])
        return s * t[1], a
    if t[0] == "v":
        s, a = size_align(t[2])
        return s * t[1], s * t[1]
    if t[0] == "s":
        off, al = 0, 1
        for x in t[1]:
            s, a = size_align(x)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise Unsupported("size of %s" % (t,))


def field_off(t, k):
    if t[0] in "av":
        return size_align(t[2])[0] * k, t[2]
    off = 0
    for j, x in enumerate(t[1]):
        s, a = size_align(x)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if j == k:
            return off, x
        off += s


def bits(t):
    if t == "float":
        return 32
    if t == "double":
        return 64
    if t[0] == "i":
        return t[1]
    return None


# ---------------------------------------------------------------- module
class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "noreturn", "raw")


class Module:
    def __init__(self):
        self.fns = {}
        self.globs = {}
        self.alias = {}

    def load(self, path):
        txt = open(path).read()
        for m in re.finditer(r"^@([\w.$]+) = [^\n]*\balias\b.* @([\w.$]+)", txt, re.M):
            self.alias[m.group(1)] = m.group(2)
        for m in re.finditer(r"^(@[^\s=]+) = ([^\n]*)$", txt, re.M):
            self.globs.setdefault(m.group(1), m.group(2))
        for m in re.finditer(r"^define ([^\n]*)\{\n(.*?)^\}", txt, re.M | re.S):
            head = m.group(1)
            nm = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
            name = nm.group(1).strip('"')
            if name in self.fns:
                continue
            self.fns[name] = (head, m.group(2), nm.start(), nm.end())

    def fn(self, name):
        while name in self.alias:
            name = self.alias[name]
        f = self.fns.get(name)
        if f is None or isinstance(f, Fn):
            return f
        head, body, a, b = f
        g = Fn()
        g.name = name
        g.ret = ret_type(head[:a])
        # parameters
        depth, i = 1, b
        while depth:
            depth += {"(": 1, ")": -1}.get(head[i], 0)
            i += 1
        ps = split_top(head[b:i - 1])
        g.params = []
        for k, p in enumerate(ps):
            t, j = parse_type(p.strip())
            m = re.search(r"(%[\w.$-]+|%\"[^\"]+\")\s*$", p)
            g.params.append((t, m.group(1) if m else "%" + str(k)))
        g.blocks = {}
        cur, n = None, 0
        g.entry = None
        lines = body.split("\n")
        k = 0
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            m = re.match(r'("[^"]+"|[\w.$-]+):', l)
            if m:
                cur = m.group(1).strip('"')
                g.blocks[cur] = []
                g.entry = g.entry or cur
                continue
            if cur is None:
                cur = str(len(g.params))
                g.blocks[cur] = []
                g.entry = cur
            if l.strip().startswith("switch") and "]" not in l:
                while "]" not in lines[k]:
                    l += " " + lines[k].strip()
                    k += 1
                l += " " + lines[k].strip()
                k += 1
            g.blocks[cur].append(clean(l.strip()))
        self.fns[name] = g
        return g


def clean(l):
    l = re.sub(r"/\*.*?\*/ ?", "", l)
    l = re.sub(r"(, )?![\w.]+ !\d+", "", l)
    l = re.sub(r",? ?!\d+", "", l)
    l = re.sub(r" #\d+(?=,|$)", "", l)
    return l.rstrip()


def split_top(s):
    out, d, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                d += 1
            elif c in ")]}>":
                d -= 1
            if c == "," and d == 0:
                out.append(cur)
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur)
    return out


ATTR = re.compile(r"(noundef|zeroext|signext|noalias|nonnull|nofree|readonly|writeonly|inreg|returned|nocapture|range\([^)]*\)|captures\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\([^)]*\)|byval\([^)]*\)|initializes\((?:\([^)]*\),? ?)*\)|dead_on_unwind|writable|nneg|samesign|nofpclass\([^)]*\)|dso_local|internal|private|hidden|protected|local_unnamed_addr|unnamed_addr|fastcc|ccc|coldcc|linkonce_odr|available_externally|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|inbounds|nuw|nusw|nsw|exact|disjoint|volatile)(?=[\s,)]|$)\s*")


def ret_type(head):
    h = head
    while True:
        h2 = ATTR.sub("", h, count=1) if ATTR.match(h) else h
        if h2 == h:
            break
        h = h2
    return parse_type(h)[0]


def strip_attrs(s):
    s = s.strip()
    while True:
        m = ATTR.match(s)
        if not m or not m.end():
            return s
        s = s[m.end():].lstrip()


MATH = {"log": "ln", "log1p": "ln_1p", "expm1": "exp_m1", "pow": "powf", "fma": "mul_add", "powidf2": "powi", "powisf2": "powi", "sqrt_mad": "sqrt"}


def callee_name(n):
    """canonical name of a mathematical function, or None"""
    m = re.match(r"llvm\.([a-z0-9_]+)\.f(32|64)", n)
    if m:
        return MATH.get(m.group(1), m.group(1))
    m = re.search(r"4libm4math(.*)$", n)
    if m:
        s, last, i = m.group(1), None, 0
        while i < len(s) and s[i].isdigit():
            j = i
            while s[j].isdigit():
                j += 1
            k = int(s[i:j])
            if s[j] == "_":
                j += 1
            last = s[j:j + k]
            i = j + k
        return last
    if re.match(r"^(sin|cos|tan|asin|acos|atan|sinh|cosh|tanh|asinh|acosh|atanh|exp|exp2|expm1|log|log2|log10|log1p|cbrt|hypot|atan2|pow|fmod|fma|sqrt|floor|ceil|round|trunc|__powidf2|__powisf2)f?$", n):
        n = n.strip("_")
        return n
    return None


# ---------------------------------------------------------------- execution
class State:
    __slots__ = ("mem", "pc", "nobj")

    def __init__(self):
        self.mem, self.pc, self.nobj = {}, [], 0

    def copy(self):
        s = State()
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc = list(self.pc)
        s.nobj = self.nobj
        return s

    def alloc(self):
        self.nobj += 1
        self.mem[self.nobj] = {}
        return self.nobj


class Panic(Exception):
    def __init__(self, st):
        self.st = st


def fp(x):
    return z3.fpBVToFP(x, z3.Float64() if x.size() == 64 else z3.Float32())


_nan_eq = {}


def is_nan(x):
    w = x.size()
    e, f = (11, 52) if w == 64 else (8, 23)
    mag = z3.Extract(w - 2, 0, x)
    return z3.UGT(mag, z3.BitVecVal(((1 << e) - 1) << f, w - 1))


def fcmp(op, a, b):
    """IEEE comparison on bit patterns"""
    w = a.size()
    un = z3.Or(is_nan(a), is_nan(b))
    zero = z3.And(z3.Extract(w - 2, 0, a) == 0, z3.Extract(w - 2, 0, b) == 0)
    eq = z3.Or(a == b, zero)
    sa, sb = z3.Extract(w - 1, w - 1, a) == 1, z3.Extract(w - 1, w - 1, b) == 1
    lt = z3.And(z3.Not(zero), z3.If(sa, z3.If(sb, z3.UGT(a, b), True), z3.If(sb, False, z3.ULT(a, b))))
    gt = z3.And(z3.Not(eq), z3.Not(lt))
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op == "ord":
        return z3.Not(un)
    if op == "uno":
        return un
    body = {"eq": eq, "ne": z3.Not(eq), "lt": lt, "le": z3.Or(lt, eq), "gt": gt, "ge": z3.Or(gt, eq)}[op[1:]]
    return z3.And(z3.Not(un), body) if op[0] == "o" else z3.Or(un, body)


class Exec:
    def __init__(self, mod, exact=False, mono=False, ring=False, max_steps=200000, max_paths=2000):
        self.mod, self.exact, self.mono, self.ring = mod, exact, mono, ring
        self.monos = {}
        self.ufs = {}
        self.apps = []
        self.max_steps, self.max_paths = max_steps, max_paths
        self.end = float("inf")
        self.steps = 0
        self.functions = set()
        self.queries = 0
        self.instr = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 5000)
        self.gobj = {}

    # --- uninterpreted functions
    def uf(self, name, args, w, commut=False):
        if commut:
            args = sorted(args, key=lambda a: a.hash())
        k = (name,) + tuple(a.size() for a in args) + (w,)
        if k not in self.ufs:
            self.ufs[k] = z3.Function("%s_%d" % (name, w), *([z3.BitVecSort(a.size()) for a in args] + [z3.BitVecSort(w)]))
        t = self.ufs[k](*args)
        self.apps.append((name, args, t))
        return t

    def ufbool(self, name, args):
        return self.uf(name, args, 1)

    def farith(self, op, a, b):
        w = a.size()
        va, vb = fconst(a), fconst(b)
        if va is not None and vb is not None and w == 64:
            try:
                r = {"fadd": lambda: va + vb, "fsub": lambda: va - vb, "fmul": lambda: va * vb, "fdiv": lambda: va / vb}[op]()
                return fval(r, w)
            except (KeyError, ZeroDivisionError, OverflowError):
                pass
        if self.exact and op != "frem":
            x, y = fp(a), fp(b)
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            return self.to_bits(f(z3.RNE(), x, y))
        if self.mono and op in ("fmul", "fdiv"):
            return self.monomial(op, a, b)
        if op == "fmul":
            # signs are exact in IEEE multiplication and division: pull negations out
            (a, na), (b, nb) = strip_neg(a), strip_neg(b)
            r = self.uf(op, [a, b], w, True)
            return neg(r) if na != nb else r
        if op == "fdiv":
            (a, na), (b, nb) = strip_neg(a), strip_neg(b)
            r = self.uf(op, [a, b], w)
            return neg(r) if na != nb else r
        if op == "fsub":
            (b2, nb) = strip_neg(b)
            return self.uf("fadd", [a, b2 if nb else neg(b)], w, True)
        return self.uf(op, [a, b], w, op == "fadd")

    def monomial(self, op, a, b):
        """products and quotients up to reassociation (rounding ignored): a canonical Laurent monomial"""
        from fractions import Fraction

        def of(x):
            v = fconst(x)
            if v is not None and v == v and abs(v) != float("inf"):
                return Fraction(v), {}
            return self.monos.get(x.get_id(), (Fraction(1), {x: 1}, None))[:2]
        (ca, fa), (cb, fb) = of(a), of(b)
        w = a.size()
        if op == "fdiv" and cb == 0:
            return self.uf("fdiv", [a, b], w)
        c = ca * cb if op == "fmul" else ca / cb
        f = dict(fa)
        for x, n in fb.items():
            f[x] = f.get(x, 0) + (n if op == "fmul" else -n)
        f = {x: n for x, n in f.items() if n}
        if not f:
            return fval(float(c), w)
        if c == 1 and list(f.values()) == [1]:
            return list(f)[0]
        t = fval(float(c), w)
        for x, n in sorted(f.items(), key=lambda q: q[0].hash()):
            for _ in range(abs(n)):
                t = self.uf("fmul" if n > 0 else "fdiv", [t, x], w)
        self.monos[t.get_id()] = (c, f, t)
        return t

    def to_bits(self, x):
        return z3.fpToIEEEBV(x)

    def math(self, name, args, rt):
        w = bits(rt)
        if name == "fabs" or name == "abs":
            return z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, args[0]))
        if name == "copysign":
            return z3.Concat(z3.Extract(w - 1, w - 1, args[1]), z3.Extract(w - 2, 0, args[0]))
        if name in ("fmax", "maxnum", "maximum_num", "maximumnum"):
            return z3.If(is_nan(args[0]), args[1], z3.If(is_nan(args[1]), args[0], z3.If(fcmp("olt", args[0], args[1]), args[1], args[0])))
        if name in ("fmin", "minnum", "minimum_num", "minimumnum"):
            return z3.If(is_nan(args[0]), args[1], z3.If(is_nan(args[1]), args[0], z3.If(fcmp("olt", args[1], args[0]), args[1], args[0])))
        if name in ("floor", "ceil", "trunc", "round"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}[name]
            return self.uf(name, args, w) if not self.exact else self.to_bits(z3.fpRoundToIntegral(rm, fp(args[0])))
        if name == "sqrt" and self.exact:
            return self.to_bits(z3.fpSqrt(z3.RNE(), fp(args[0])))
        if name == "powi" and self.mono and len(args) == 2:
            e = z3.simplify(args[1])
            if z3.is_bv_value(e) and abs(e.as_signed_long()) <= 4096:
                t = fval(1.0, w)
                for _ in range(abs(e.as_signed_long())):
                    t = self.monomial("fmul" if e.as_signed_long() > 0 else "fdiv", t, args[0])
                return t
        return self.uf(name, args, w, False)

    # --- memory
    def load(self, st, p, t):
        if t[0] in ("s", "a", "v") and t not in ("ptr",):
            if isinstance(t, tuple) and t[0] in ("s", "a", "v"):
                n = len(t[1]) if t[0] == "s" else t[1]
                return [self.load(st, (p[0], p[1], p[2] + field_off(t, k)[0]), field_off(t, k)[1]) for k in range(n)]
        obj, off = self.deref(st, p)
        o = st.mem[obj]
        if t == "ptr":
            v = o.get(off)
            if isinstance(v, tuple):
                return v
            raise Unsupported("pointer load of bytes")
        n = size_align(t)[0]
        bs = []
        for k in range(n):
            if off + k not in o:
                raise Unsupported("load of uninitialised memory")
            b = o[off + k]
            if isinstance(b, tuple):
                raise Unsupported("integer load of a pointer")
            bs.append(b)
        wv = o.get(("w", off))
        if wv is not None and wv[0] == n and wv[1].size() == bits(t):
            return wv[1]
        v = z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
        w = bits(t)
        if w != n * 8:
            v = z3.Extract(w - 1, 0, v)
        return v

    def store(self, st, p, t, v):
        if isinstance(t, tuple) and t[0] in ("s", "a", "v"):
            n = len(t[1]) if t[0] == "s" else t[1]
            for k in range(n):
                off, ft = field_off(t, k)
                self.store(st, (p[0], p[1], p[2] + off), ft, v[k])
            return
        obj, off = self.deref(st, p)
        o = st.mem[obj]
        if t == "ptr":
            self.forget(o, off, 8)
            o[off] = v
            for k in range(1, 8):
                o[off + k] = ("ptrbyte",)
            return
        n = size_align(t)[0]
        w = bits(t)
        self.forget(o, off, n)
        if v is not None:
            o[("w", off)] = (n, v)
        if v is None:
            for k in range(n):
                o.pop(off + k, None)
            return
        if w < n * 8:
            v = z3.ZeroExt(n * 8 - w, v)
        for k in range(n):
            o[off + k] = v if n == 1 else z3.Extract(8 * k + 7, 8 * k, v)

    def forget(self, o, off, n):
        for k in [k for k in o if isinstance(k, tuple) and k[1] < off + n and off < k[1] + o[k][0]]:
            del o[k]

    def deref(self, st, p):
        if not (isinstance(p, tuple) and p[0] == "obj"):
            raise Unsupported("address %s" % (p,))
        if p[1] not in st.mem:
            raise Unsupported("object")
        return p[1], p[2]

    # --- operands
    def glob(self, st, name):
        if name in self.gobj and self.gobj[name] in st.mem:
            return ("obj", self.gobj[name], 0)
        g = self.mod.globs.get(name)
        if g is None:
            return ("fn", name)
        m = re.search(r"constant (.*?)(, align|, !|$)", g)
        if not m:
            raise Unsupported("global " + name)
        t, j = parse_type(m.group(1))
        k = hash(name)
        st.mem[k] = {}
        self.gobj[name] = k
        self.init(st, ("obj", k, 0), t, m.group(1)[j:].strip())
        return ("obj", k, 0)

    def init(self, st, p, t, s):
        if s.startswith("zeroinitializer"):
            for k in range(size_align(t)[0]):
                st.mem[p[1]][p[2] + k] = z3.BitVecVal(0, 8)
        elif s.startswith('c"'):
            raw, i, k = s[2:s.rindex('"')], 0, 0
            while i < len(raw):
                if raw[i] == "\\":
                    v = int(raw[i + 1:i + 3], 16)
                    i += 3
                else:
                    v = ord(raw[i])
                    i += 1
                st.mem[p[1]][p[2] + k] = z3.BitVecVal(v, 8)
                k += 1
        elif s[0] in "[<{":
            inner = s[2:-2] if s.startswith("<{") else s[1:-1]
            for k, e in enumerate(split_top(inner)):
                e = e.strip()
                et, j = parse_type(e)
                self.init(st, ("obj", p[1], p[2] + field_off(t, k)[0]), et, e[j:].strip())
        elif t == "ptr":
            st.mem[p[1]][p[2]] = ("lazy", s)
        else:
            self.store(st, p, t, self.const(t, s))

    def const(self, t, s):
        w = bits(t)
        if s in ("undef", "poison"):
            return z3.BitVecVal(0, w) if w else None
        if t == "double" or t == "float":
            if s.startswith("0x"):
                v = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
                if t == "double":
                    return z3.BitVecVal(int(s, 16), 64)
                b = int(s, 16)
                if v != v:
                    return z3.BitVecVal(((b >> 63) << 31) | 0x7f800000 | ((b & ((1 << 52) - 1)) >> 29), 32)
                return fval(v, 32)
            if re.match(r"^f0x", s):
                return z3.BitVecVal(int(s[1:], 16), w)
            sp = {"+inf": float("inf"), "-inf": float("-inf"), "inf": float("inf")}
            if s in sp:
                return fval(sp[s], w)
            if s in ("+qnan", "qnan"):
                return z3.BitVecVal(0x7ff8 << 48 if w == 64 else 0x7fc00000, w)
            if s == "-qnan":
                return z3.BitVecVal(0xfff8 << 48 if w == 64 else 0xffc00000, w)
            return fval(float(s), w)
        if s == "true":
            return z3.BitVecVal(1, 1)
        if s == "false":
            return z3.BitVecVal(0, 1)
        if s == "zeroinitializer":
            return z3.BitVecVal(0, w)
        return z3.BitVecVal(int(s), w)

    def val(self, st, env, t, s):
        s = s.strip()
        if s[0] == "%":
            k = s.strip()
            if k not in env:
                raise Unsupported("register " + k)
            return env[k]
        if isinstance(t, tuple) and t[0] in ("s", "a", "v"):
            n = len(t[1]) if t[0] == "s" else t[1]
            if s in ("undef", "poison", "zeroinitializer"):
                return [self.val(st, env, field_off(t, k)[1], s if s == "zeroinitializer" else "undef") for k in range(n)]
            if s.startswith("splat"):
                inner = s[s.index("(") + 1:-1].strip()
                et, j = parse_type(inner)
                return [self.val(st, env, et, inner[j:]) for _ in range(n)]
            out = []
            for e in split_top(s[1:-1]):
                e = e.strip()
                et, j = parse_type(e)
                out.append(self.val(st, env, et, e[j:]))
            return out
        if t == "ptr":
            if s in ("null", "undef", "poison", "zeroinitializer"):
                return ("null",)
            if s[0] == "@":
                return self.glob(st, s)
            m = re.match(r"getelementptr .*?\(i8, ptr (@[^,]+), i64 (\d+)\)", s)
            if m:
                b = self.glob(st, m.group(1))
                return ("obj", b[1], b[2] + int(m.group(2)))
            m = re.match(r"inttoptr \(i64 (\d+) to ptr\)", s)
            if m:
                return ("int", int(m.group(1)))
            raise Unsupported("pointer constant " + s)
        return self.const(t, s)

    def tv(self, st, env, s):
        """'type value' -> (type, value)"""
        s = strip_attrs(s)
        t, j = parse_type(s)
        return t, self.val(st, env, t, strip_attrs(s[j:]))

    def feasible(self, pc, c):
        self.queries += 1
        r = self.solver.check(*(pc + [c]))
        return r != z3.unsat

    # --- functions: returns list of (state, return value)
    def call(self, name, args, st, depth=0):
        if depth > 40:
            raise Unsupported("call depth")
        f = self.mod.fn(name)
        if f is None:
            raise Unsupported("undefined function " + name)
        self.functions.add(name)
        env = {}
        for (t, n), v in zip(f.params, args):
            env[n] = v
        work = [(st, env, f.entry, None, 0)]
        out = []
        while work:
            st, env, blk, prev, ip = work.pop()
            if len(out) + len(work) > self.max_paths:
                raise Unsupported("path bound")
            while True:
                if blk not in f.blocks:
                    raise Unsupported("block " + blk)
                ins = f.blocks[blk]
                nxt = None
                # phi nodes read the environment of the edge simultaneously
                if ip == 0:
                    new = {}
                    while ip < len(ins) and " = phi " in ins[ip]:
                        m = re.match(r"(%\S+) = phi (.*)$", ins[ip])
                        b = strip_attrs(m.group(2))
                        t, j = parse_type(b)
                        for c in re.finditer(r"\[ (.*?), %(\"[^\"]+\"|[\w.$-]+) \]", b[j:]):
                            if c.group(2).strip('"') == prev:
                                new[m.group(1)] = self.val(st, env, t, c.group(1))
                                break
                        else:
                            raise Unsupported("phi")
                        ip += 1
                    env.update(new)
                forked = False
                while ip < len(ins):
                    l = ins[ip]
                    ip += 1
                    self.steps += 1
                    self.instr += 1
                    if self.steps % 256 == 0 and time.time() > self.end:
                        raise Unsupported("time bound")
                    if self.steps > self.max_steps:
                        raise Unsupported("step bound")
                    if l.startswith("br "):
                        m = re.match(r'br i1 (\S+), label %("[^"]+"|[\w.$-]+), label %("[^"]+"|[\w.$-]+)', l)
                        if not m:
                            m = re.match(r'br label %("[^"]+"|[\w.$-]+)', l)
                            nxt = m.group(1).strip('"')
                            break
                        c = z3.simplify(self.val(st, env, ("i", 1), m.group(1)) == 1)
                        a, b = m.group(2).strip('"'), m.group(3).strip('"')
                        if z3.is_true(c):
                            nxt = a
                        elif z3.is_false(c):
                            nxt = b
                        else:
                            ft, ff = self.feasible(st.pc, c), self.feasible(st.pc, z3.Not(c))
                            if ft and ff:
                                s2 = st.copy()
                                s2.pc.append(z3.Not(c))
                                work.append((s2, dict(env), b, blk, 0))
                                st.pc.append(c)
                                nxt = a
                            elif ft:
                                nxt = a
                            elif ff:
                                nxt = b
                            else:
                                forked = True
                        break
                    if l.startswith("switch "):
                        m = re.match(r'switch (i\d+) (\S+), label %("[^"]+"|[\w.$-]+) \[(.*)\]', l)
                        t = parse_type(m.group(1))[0]
                        v = self.val(st, env, t, m.group(2))
                        alts, rest = [], []
                        for c in re.finditer(r'i\d+ (-?\w+), label %("[^"]+"|[\w.$-]+)', m.group(4)):
                            k = self.const(t, c.group(1))
                            alts.append((v == k, c.group(2).strip('"')))
                            rest.append(v != k)
                        alts.append((z3.And(*rest) if rest else z3.BoolVal(True), m.group(3).strip('"')))
                        ok = [(c, b) for c, b in ((z3.simplify(c), b) for c, b in alts) if not z3.is_false(c) and (z3.is_true(c) or self.feasible(st.pc, c))]
                        for c, b in ok[1:]:
                            s2 = st.copy()
                            s2.pc.append(c)
                            work.append((s2, dict(env), b, blk, 0))
                        if not ok:
                            forked = True
                        else:
                            if not z3.is_true(ok[0][0]):
                                st.pc.append(ok[0][0])
                            nxt = ok[0][1]
                        break
                    if l.startswith("ret "):
                        if l.strip() == "ret void":
                            out.append((st, None))
                        else:
                            out.append((st, self.tv(st, env, l[4:])[1]))
                        forked = True
                        break
                    if l.startswith("unreachable"):
                        forked = True
                        break
                    r = self.inst(st, env, l, depth)
                    if r == "panic":
                        out.append((st, "PANIC"))
                        forked = True
                        break
                    if isinstance(r, list):
                        # a call that returned on several paths
                        dst, rs = r[0], r[1]
                        res = []
                        for s2, v in rs:
                            if isinstance(v, str) and v == "PANIC":
                                out.append((s2, v))
                            else:
                                res.append((s2, v))
                        if not res:
                            forked = True
                            break
                        for s2, v in res[1:]:
                            e2 = dict(env)
                            if dst:
                                e2[dst] = v
                            work.append((s2, e2, blk, prev, ip))
                        st = res[0][0]
                        if dst:
                            env[dst] = res[0][1]
                if forked:
                    break
                prev, blk, ip = blk, nxt, 0
        return out

    def inst(self, st, env, l, depth):
        m = re.match(r"(%\S+) = (.*)$", l)
        dst, b = (m.group(1), m.group(2)) if m else (None, l)
        op = b.split(" ", 1)[0]
        if op in ("tail", "notail", "musttail"):
            b = b.split(" ", 1)[1]
            op = "call"
        rest = b[len(op):].strip()
        if op == "call":
            return self.do_call(st, env, dst, rest, depth)
        if op == "store":
            rest = strip_attrs(rest)
            a = split_top(rest)
            t, v = self.tv(st, env, a[0])
            _, p = self.tv(st, env, a[1])
            self.store(st, p, t, v)
            return
        if op == "fence":
            return
        env[dst] = self.value(st, env, op, rest)

    def value(self, st, env, op, rest):
        if op == "alloca":
            o = st.alloc()
            return ("obj", o, 0)
        if op == "load":
            rest = strip_attrs(rest)
            a = split_top(rest)
            t = parse_type(a[0])[0]
            _, p = self.tv(st, env, a[1])
            v = self.load(st, p, t)
            if isinstance(v, tuple) and v[0] == "lazy":
                v = self.val(st, env, "ptr", v[1])
            return v
        if op == "getelementptr":
            rest = strip_attrs(rest)
            a = split_top(rest)
            t = parse_type(a[0])[0]
            _, p = self.tv(st, env, a[1])
            off = 0
            for k, x in enumerate(a[2:]):
                _, v = self.tv(st, env, x)
                v = z3.simplify(v)
                if not z3.is_bv_value(v):
                    v = self.pin(st, v)
                n = v.as_signed_long()
                if k == 0:
                    off += n * size_align(t)[0]
                else:
                    o, t = field_off(t, n)
                    off += o
            if p[0] != "obj":
                if off == 0:
                    return p
                raise Unsupported("gep on %s" % (p,))
            return ("obj", p[1], p[2] + off)
        rest = strip_attrs(rest)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"):
            a = split_top(rest) if not rest.startswith("<") else split_top(rest)
            t, x = self.tv(st, env, a[0])
            y = self.val(st, env, t, a[1])
            if isinstance(x, list):
                return [self.bin(op, u, v) for u, v in zip(x, y)]
            return self.bin(op, x, y)
        if op == "fneg":
            t, x = self.tv(st, env, rest)
            return [neg(u) for u in x] if isinstance(x, list) else neg(x)
        if op in ("icmp", "fcmp"):
            pred, r = rest.split(" ", 1)
            if pred in ("fast", "nnan", "samesign"):
                pred, r = r.split(" ", 1)
            a = split_top(r)
            t, x = self.tv(st, env, a[0])
            y = self.val(st, env, t, a[1])
            if t == "ptr":
                if pred not in ("eq", "ne"):
                    raise Unsupported("pointer order")
                return z3.BitVecVal(int((x == y) == (pred == "eq")), 1)
            f = (lambda u, v: fcmp(pred, u, v)) if op == "fcmp" else (lambda u, v: {"eq": u == v, "ne": u != v, "slt": u < v, "sle": u <= v, "sgt": u > v, "sge": u >= v,
                                                                      "ult": z3.ULT(u, v), "ule": z3.ULE(u, v), "ugt": z3.UGT(u, v), "uge": z3.UGE(u, v)}[pred])
            g = lambda u, v: z3.If(f(u, v), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return [g(u, v) for u, v in zip(x, y)] if isinstance(x, list) else z3.simplify(g(x, y))
        if op == "select":
            a = split_top(rest)
            _, c = self.tv(st, env, a[0])
            t, x = self.tv(st, env, a[1])
            _, y = self.tv(st, env, a[2])
            if isinstance(c, list):
                return [z3.If(k == 1, u, v) for k, u, v in zip(c, x, y)]
            c = z3.simplify(c == 1)
            if z3.is_true(c):
                return x
            if z3.is_false(c):
                return y
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unsupported("select of pointers")
            if isinstance(x, list):
                return [z3.If(c, u, v) for u, v in zip(x, y)]
            return z3.simplify(z3.If(c, x, y))
        if op in ("zext", "sext", "trunc", "bitcast", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "ptrtoint", "inttoptr"):
            k = rest.rindex(" to ")
            t, x = self.tv(st, env, rest[:k])
            t2 = parse_type(rest[k + 4:])[0]
            w = bits(t2)
            if isinstance(x, list) or w is None:
                raise Unsupported(op)
            if op == "zext":
                return z3.ZeroExt(w - x.size(), x)
            if op == "sext":
                return z3.SignExt(w - x.size(), x)
            if op == "trunc":
                return z3.simplify(z3.Extract(w - 1, 0, x))
            if op == "bitcast":
                return x
            if op in ("ptrtoint", "inttoptr"):
                raise Unsupported(op)
            return self.uf(op, [x], w)
        if op == "freeze":
            return self.tv(st, env, rest)[1]
        if op == "extractvalue":
            a = split_top(rest)
            _, v = self.tv(st, env, a[0])
            for k in a[1:]:
                v = v[int(k)]
            return v
        if op == "insertvalue":
            a = split_top(rest)
            _, v = self.tv(st, env, a[0])
            _, e = self.tv(st, env, a[1])

            def put(v, ks):
                v = list(v)
                v[ks[0]] = e if len(ks) == 1 else put(v[ks[0]], ks[1:])
                return v
            return put(v, [int(k) for k in a[2:]])
        if op == "extractelement":
            a = split_top(rest)
            _, v = self.tv(st, env, a[0])
            _, k = self.tv(st, env, a[1])
            return v[z3.simplify(k).as_long()]
        if op == "insertelement":
            a = split_top(rest)
            _, v = self.tv(st, env, a[0])
            _, e = self.tv(st, env, a[1])
            _, k = self.tv(st, env, a[2])
            v = list(v)
            v[z3.simplify(k).as_long()] = e
            return v
        if op == "shufflevector":
            a = split_top(rest)
            _, x = self.tv(st, env, a[0])
            _, y = self.tv(st, env, a[1])
            mt, j = parse_type(strip_attrs(a[2]))
            ms = strip_attrs(a[2])[j:].strip()
            n = mt[1]
            z = x + y
            if ms in ("zeroinitializer",):
                return [z[0]] * n
            if ms in ("poison", "undef"):
                return [z[0]] * n
            idx = [int(q.split()[-1]) if q.split()[-1].isdigit() else 0 for q in split_top(ms[1:-1])]
            return [z[q] for q in idx]
        raise Unsupported("instruction " + op)

    def bin(self, op, x, y):
        if op[0] == "f":
            return self.farith(op, x, y)
        if op == "xor" and z3.is_bv_value(y) and y.as_long() == 1 << (y.size() - 1):
            return neg(x)
        if op in ("udiv", "sdiv", "urem", "srem") and not (z3.is_bv_value(x) and z3.is_bv_value(y)) and x.size() > 8:
            # division circuits of wide integers are left uninterpreted
            return self.uf(op, [x, y], x.size())
        if op == "mul" and not self.ring and x.size() > 8 and not z3.is_bv_value(x) and not z3.is_bv_value(y):
            return self.uf("mul", [x, y], x.size(), True)
        f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: z3.UDiv(x, y), "sdiv": lambda: x / y,
             "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y), "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]
        return z3.simplify(f()) if z3.is_bv_value(x) and z3.is_bv_value(y) else f()

    def pin(self, st, v):
        self.solver.push()
        self.solver.add(*st.pc)
        r = self.solver.check()
        if r != z3.sat:
            self.solver.pop()
            raise Unsupported("symbolic address")
        k = self.solver.model().eval(v, model_completion=True)
        self.solver.pop()
        if self.feasible(st.pc, v != k):
            raise Unsupported("symbolic address")
        return k

    def do_call(self, st, env, dst, rest, depth):
        rest = strip_attrs(rest)
        if " asm " in " " + rest.split("(")[0] or "asm " in rest[:40]:
            m = re.search(r'"(\w+) [^"]*".*\((.*)\)$', rest)
            t = parse_type(rest)[0]
            if m and m.group(1) in ("sqrtsd", "sqrtss"):
                _, x = self.tv(st, env, m.group(2))
                env[dst] = self.math("sqrt", [x], t)
                return
            raise Unsupported("asm " + rest[:80])
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', rest)
        if not m:
            raise Unsupported("indirect call")
        rt = ret_type(rest[:m.start()])
        name = m.group(1).strip('"')
        d, i = 1, m.end()
        while d:
            d += {"(": 1, ")": -1}.get(rest[i], 0)
            i += 1
        argtxt = split_top(rest[m.end():i - 1])
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg")):
            return
        if re.search(r"4core9panicking|panic_bounds|panic_fmt|unwrap_failed|expect_failed|3std9panicking|panic_const", name):
            return "panic"
        args = [self.tv(st, env, a) for a in argtxt]
        vals = [v for _, v in args]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = z3.simplify(vals[2])
            if not z3.is_bv_value(n):
                raise Unsupported("memcpy size")
            do, doff = self.deref(st, vals[0])
            so, soff = self.deref(st, vals[1])
            n = n.as_long()
            cp = {k: st.mem[so].get(soff + k) for k in range(n)}
            ws = {k[1] - soff: v for k, v in st.mem[so].items() if isinstance(k, tuple) and soff <= k[1] and k[1] + v[0] <= soff + n}
            self.forget(st.mem[do], doff, n)
            for k, v in cp.items():
                if v is None:
                    st.mem[do].pop(doff + k, None)
                else:
                    st.mem[do][doff + k] = v
            for k, v in ws.items():
                st.mem[do][("w", doff + k)] = v
            return
        if name.startswith("llvm.memset"):
            n = z3.simplify(vals[2])
            do, doff = self.deref(st, vals[0])
            self.forget(st.mem[do], doff, n.as_long())
            for k in range(n.as_long()):
                st.mem[do][doff + k] = vals[1]
            return
        if name in ("bcmp", "memcmp"):
            n = z3.simplify(vals[2])
            if not z3.is_bv_value(n) or n.as_long() == 0:
                raise Unsupported(name + " size")
            bs = []
            for p in vals[:2]:
                ob, off = self.deref(st, p)
                b = [st.mem[ob].get(off + k) for k in range(n.as_long())]
                if any(x is None or isinstance(x, tuple) for x in b):
                    raise Unsupported(name + " of uninitialised memory or pointers")
                bs.append(z3.Concat(*b) if len(b) > 1 else b[0])
            # only zero / sign of the result is meaningful
            env[dst] = z3.If(bs[0] == bs[1], z3.BitVecVal(0, 32), z3.If(z3.ULT(bs[0], bs[1]), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
            return
        m = re.match(r"llvm\.(abs|smin|smax|umin|umax|fshl|fshr|bswap|ctpop|ctlz|cttz|is\.fpclass|uadd\.sat|usub\.sat|sadd\.sat|ssub\.sat|scmp|ucmp|[us](?:add|sub|mul)\.with\.overflow|fptosi\.sat|fptoui\.sat)\.", name)
        if m:
            env[dst] = self.intrinsic(m.group(1), vals, rt)
            return
        cn = callee_name(name)
        if cn is not None:
            fl = rt if isinstance(rt, str) else (rt[1][0] if rt[0] == "s" else rt)
            if cn.endswith("f") and fl == "float" and cn not in ("powf", "copysignf") and name.find("llvm.") < 0:
                cn = cn[:-1]
            if cn == "copysignf":
                cn = "copysign"
            cn = MATH.get(cn, cn)
            if cn == "sincos":
                env[dst] = [self.math("sin", vals, fl), self.math("cos", vals, fl)]
            elif isinstance(rt, str) and rt in ("float", "double"):
                env[dst] = self.math(cn, vals, rt)
            else:
                raise Unsupported("math " + name)
            return
        if self.mod.fn(name) is not None:
            return [dst, self.call(name, vals, st, depth + 1)]
        raise Unsupported("external " + name)

    def intrinsic(self, k, v, rt):
        x = v[0]
        if isinstance(x, list):
            raise Unsupported("vector intrinsic")
        if k == "abs":
            return z3.If(x < 0, -x, x)
        if k in ("smin", "smax", "umin", "umax"):
            c = {"smin": x < v[1], "smax": x > v[1], "umin": z3.ULT(x, v[1]), "umax": z3.UGT(x, v[1])}[k]
            return z3.If(c, x, v[1])
        if k in ("scmp", "ucmp"):
            w = bits(rt)
            lt = x < v[1] if k == "scmp" else z3.ULT(x, v[1])
            return z3.If(lt, z3.BitVecVal(-1, w), z3.If(x == v[1], z3.BitVecVal(0, w), z3.BitVecVal(1, w)))
        if k.endswith("with.overflow"):
            y, w = v[1], x.size()
            ext = z3.SignExt if k[0] == "s" else z3.ZeroExt
            op = k[1:4]
            n = w if op == "mul" else 1
            a, b = ext(n, x), ext(n, y)
            full = {"add": a + b, "sub": a - b, "mul": a * b}[op]
            lo = z3.Extract(w - 1, 0, full)
            return [lo, z3.If(ext(n, lo) == full, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))]
        if k == "is.fpclass":
            mask = z3.simplify(v[1]).as_long()
            w = x.size()
            e, f = (11, 52) if w == 64 else (8, 23)
            s = z3.Extract(w - 1, w - 1, x) == 1
            ex, fr = z3.Extract(w - 2, f, x), z3.Extract(f - 1, 0, x)
            ones = (1 << e) - 1
            quiet = z3.Extract(f - 1, f - 1, x) == 1
            nan, inf = z3.And(ex == ones, fr != 0), z3.And(ex == ones, fr == 0)
            zero, sub = z3.And(ex == 0, fr == 0), z3.And(ex == 0, fr != 0)
            nor = z3.And(ex != 0, ex != ones)
            ns = z3.Not(s)
            cl = [z3.And(nan, z3.Not(quiet)), z3.And(nan, quiet), z3.And(s, inf), z3.And(s, nor), z3.And(s, sub), z3.And(s, zero), z3.And(ns, zero), z3.And(ns, sub), z3.And(ns, nor), z3.And(ns, inf)]
            return z3.If(z3.Or(*[c for j, c in enumerate(cl) if mask >> j & 1] + [z3.BoolVal(False)]), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if k in ("fshl", "fshr"):
            raise Unsupported(k)
        if k.startswith("fpto"):
            return self.uf(k, [x], bits(rt))
        raise Unsupported("intrinsic " + k)


def neg(x):
    # kept recognisable: concat(not sign, rest)
    y, n = strip_neg(x)
    if n:
        return y
    w = x.size()
    if z3.is_bv_value(x):
        return z3.BitVecVal(x.as_long() ^ (1 << (w - 1)), w)
    return x ^ z3.BitVecVal(1 << (w - 1), w)


def strip_neg(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BXOR and x.num_args() == 2:
        a, b = x.arg(0), x.arg(1)
        if z3.is_bv_value(b) and b.as_long() == 1 << (x.size() - 1):
            return a, True
        if z3.is_bv_value(a) and a.as_long() == 1 << (x.size() - 1):
            return b, True
    if z3.is_bv_value(x):
        v = fconst(x)
        if v is not None and (v < 0):
            return z3.BitVecVal(x.as_long() ^ (1 << (x.size() - 1)), x.size()), True
    return x, False


def fconst(x):
    if not z3.is_bv_value(x):
        return None
    w = x.size()
    if w == 64:
        v = struct.unpack(">d", x.as_long().to_bytes(8, "big"))[0]
    elif w == 32:
        v = struct.unpack(">f", x.as_long().to_bytes(4, "big"))[0]
    else:
        return None
    return v


def fval(v, w):
    if w == 64:
        return z3.BitVecVal(int.from_bytes(struct.pack(">d", v), "big"), 64)
    return z3.BitVecVal(int.from_bytes(struct.pack(">f", v), "big"), 32)
