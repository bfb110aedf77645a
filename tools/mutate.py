#!/usr/bin/env python3
"""Mutation self-test: python3 tools/mutate.py WORKERS COUNT SEED OUT [FILE-SUBSTRING]

Works in scratch copies under /tmp/mut<k>; a mutant is 'killed' when some harness fails natively
(symcheck --soak), i.e. when a counterexample exists that the solver-driven check can report.
Survivors are listed for inspection. Not part of any registered check."""
import os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, COUNT, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
SUB = sys.argv[5] if len(sys.argv) > 5 else ""
FILES = ["cglinalg_core/src/%s.rs" % x for x in "vector matrix quaternion complex point euler unit normed point coordinates".split()] + \
        ["cglinalg_trigonometry/src/lib.rs"] + ["cglinalg_transform/src/%s.rs" % x for x in
         "isometry isometry_ops projection reflection rotation scale shear similarity transform translation".split()]
FILES = sorted({f for f in FILES if os.path.exists("/repo/crates/" + f) and SUB in f})
SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " >= "]),
         (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " <= "]), (r" == ", [" != "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bsinh\b", ["cosh"]), (r"\bcosh\b", ["sinh"]), (r"(?<=[\s(,=])-(?=[a-z_(])", [""]),
         (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r"\[3\]", ["[2]"]), (r"\.x\b(?!\()", [".y"]), (r"\.y\b(?!\()", [".x"]), (r"\.z\b(?!\()", [".y"]),
         (r"\bone\(\)", ["zero()"]), (r"\bzero\(\)", ["one()"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.re\b", [".im"]), (r"\.im\b", [".re"]),
         (r"\bself\b(?=\.\w+\[)", ["other"]), (r"\bother\b", ["self"]), (r"\btwo\b", ["one"]), (r"\bc0r1\b", ["c1r0"]), (r"\bc1r2\b", ["c2r1"]), (r"\+=", ["-="]), (r"-=", ["+="]),
         (r"\.inverse\(\)", [""]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"\bleft\b", ["right"]), (r"\btop\b", ["bottom"]), (r"\bnear\b", ["far"]), (r"\blhs\b", ["rhs"]),
         (r"\.transpose\(\)", [""]), (r"\.conjugate\(\)", [""]), (r"\bSome\(\w+\)", ["None"]), (r"_x\b", ["_y"]), (r"_z\b", ["_x"])]
GUARD = bool(os.environ.get("MUT_GUARD"))   # the mutant shows only where the value computed is large, negative or zero: for the solver, not for sampling
CMP = bool(os.environ.get("MUT_CMP"))       # only comparison and formatting impls
if CMP:
    SWAPS += [(r"_eq\b", ["_ne"]), (r"_ne\b", ["_eq"]), (r"abs_diff_all", ["abs_diff"]), (r"default_max_ulps", ["default_epsilon"]), (r"max_abs_diff", ["max_relative"]), (r"max_relative", ["max_abs_diff"]), (r"\bi\b", ["0"]), (r"\bj\b", ["i"]), (r"\br\b", ["0"]), (r"\bc\b", ["0"])]
random.seed(SEED)
BYFILE = {"complex.rs": ["C15", "C16"], "projection.rs": ["C22"], "quaternion.rs": ["C10", "C11", "C12", "C13", "C14"], "matrix.rs": ["C04", "C05", "C06", "C14", "C18", "C22"],
          "vector.rs": ["C01", "C02"], "point.rs": ["C01", "C02"], "euler.rs": ["C11"], "lib.rs": ["C17"], "rotation.rs": ["C26", "C20", "C19"], "isometry.rs": ["C19", "C20", "C26"],
          "similarity.rs": ["C19", "C20", "C26"], "shear.rs": ["C19", "C20"], "reflection.rs": ["C19", "C20"], "scale.rs": ["C19", "C20"], "translation.rs": ["C19", "C20", "C21"],
          "transform.rs": ["C19", "C20"], "unit.rs": ["C02"], "isometry_ops.rs": ["C21"], "normed.rs": ["C02"]}


def sites(path):
    out = []
    lines = open(path).read().split("\n")
    skip = 0
    depth_tests = False
    impl_skip = False
    for i, l in enumerate(lines):
        if re.match(r"#\[cfg\(test\)\]", l):
            break
        if re.match(r"(impl|macro_rules|pub (trait|struct)|struct)\b", l):
            impl_skip = bool(re.search(r"approx_cmp|fmt::|impl_scalar_|struct|Debug", l)) != CMP
        s = l.strip()
        if impl_skip or not s or s.startswith(("//", "#", "use ", "impl", "where", "pub fn", "fn ", "type ", "S:", "A:", "pub use", "debug_assert", "ShapeConstraint", "pub const", "const ")) or ("approx_cmp" in s and not CMP) or "where" in s:
            continue
        if not l.startswith("        "):
            continue
        code = l.split("//")[0]
        if GUARD and not re.match(r"\s+let (mut )?\w+(: \w+)? = .*;\s*$", l):
            continue
        for pat, reps in SWAPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    out.append((i, m.start(), m.end(), r))
    return out, lines


cands = []
for f in FILES:
    st, lines = sites("/repo/crates/" + f)
    st = [(f,) + x for x in st]
    random.shuffle(st)
    cands.append(st)
tot = sum(len(c) for c in cands)
pick = []
for c in cands:
    pick += c[: max(12, int(COUNT * (len(c) ** 0.7) / sum(len(d) ** 0.7 for d in cands if d)))]
random.shuffle(pick)
print(tot, "sites;", len(pick), "mutants")
q = queue.Queue()
for p in pick:
    q.put(p)
lock = threading.Lock()
out = open(OUT, "a")


def worker(k):
    d = "/tmp/mut%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    for x in ("sym", "vendor"):
        shutil.copytree(V + "/" + x, d + "/" + x)
    t = open(d + "/sym/Cargo.toml").read().replace('"/repo/', '"%s/repo/' % d).replace("debug = 1", "debug = 0\nincremental = true")
    open(d + "/sym/Cargo.toml", "w").write(t)
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")

    def build():
        return subprocess.run(["cargo", "build", "--offline", "-q", "-j1", "--features", "transform"], cwd=d + "/sym", env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    assert build()
    while True:
        try:
            f, i, a, b, r = q.get_nowait()
        except queue.Empty:
            break
        p = d + "/repo/crates/" + f
        src = open(p).read()
        ls = src.split("\n")
        old = ls[i]
        ls[i] = old[:a] + r + old[b:]
        if GUARD:
            m, w = re.match(r"(\s+let (?:mut )?\w+(?:: \w+)? = )(.*);\s*$", old), re.match(r"(\s+let (?:mut )?\w+(?:: \w+)? = )(.*);\s*$", ls[i])
            if not m or not w:
                continue
            c = random.choice(["v > cglinalg_numeric::cast(37.25)", "v < cglinalg_numeric::cast(-41.5)", "v == cglinalg_numeric::cast(2.0)", "v == cglinalg_numeric::cast(0.0)"])
            ls[i] = "%s{ let v = %s; if %s { %s } else { v } };" % (m.group(1), m.group(2), c, w.group(2))
        open(p, "w").write("\n".join(ls))
        try:
            if not build():
                st = "NOBUILD"
            else:
                try:
                    o = subprocess.run([d + "/target/debug/symcheck", "--soak", "250"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout
                    h = ""
                    hit = {}
                    for l in o.split("\n"):
                        if l.startswith("   FAIL"):
                            hit.setdefault(h.split()[0], h.split()[1])
                        elif l:
                            h = l
                    st = "KILLED " + ",".join("%s/%s" % x for x in sorted(hit.items())) if hit else "SURVIVED"
                    # does the solver-driven check report it? every survivor, and a third of the killed
                    if GUARD or not hit or random.random() < 0.34:
                        ps = [min(hit)] if hit and not GUARD else ["C23", "C28", "C29"] if CMP else BYFILE.get(os.path.basename(f), [])
                        got = []
                        for pr in ps:
                            r = d + "/rep.json"
                            if os.path.exists(r):
                                os.remove(r)
                            try:
                                subprocess.run([d + "/target/debug/symcheck", "--prop", pr, "--budget", "240", "--threads", "3", "--json", r], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=500)
                                import json
                                if any(g["verdict"] == "Refuted" for h in json.load(open(r))["harnesses"] for g in h["goals"]):
                                    got.append(pr)
                            except Exception as ex:
                                got.append(pr + "?")
                        st += " [check %s: %s]" % (",".join(ps), "REPORTS " + ",".join(got) if got else "QUIET")
                except subprocess.TimeoutExpired:
                    st = "TIMEOUT"
        finally:
            open(p, "w").write(src)
        with lock:
            out.write("%s | %s:%d | %s | => %s\n" % (st, f, i + 1, old.strip(), ls[i].strip()))
            out.flush()
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
