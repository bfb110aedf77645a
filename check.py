#!/usr/bin/env python3
"""Driver: check.py PROPERTY [quick|thorough].

Builds the checking crates against /repo's current working tree, runs the solver-based engine
for one property, writes evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored; 1: violated (counterexample reproduced natively); 2: error.
"""
import hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\w+) at=(\S+) (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


TRANSFORM = {"C19", "C20", "C21", "C22", "C23", "C26", "C28", "C29"}


def sym_dir(prop):
    """Properties of the core crates do not depend on cglinalg_transform compiling."""
    return os.path.join(V, "target", "symt" if prop in TRANSFORM else "sym")


def build_sym(prop, must=True):
    t = time.time()
    d = sym_dir(prop)
    e = env()
    e["CARGO_TARGET_DIR"] = d
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + (["--features", "transform"] if d.endswith("symt") else []),
                       cwd=os.path.join(V, "sym"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and not must:
        return None
    if r.returncode != 0:
        print("ERROR: the checking crate does not build against /repo:\n" + r.stdout[-6000:])
        sys.exit(2)
    return time.time() - t


def rel(p):
    return os.path.relpath(p, V)


def engine(cmd, rep, limit):
    """Runs the engine; the report, or None when the process died or did not end."""
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0 or not os.path.exists(rep):
        return None
    return json.load(open(rep))


def ends(cmd, limit):
    try:
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit).returncode
    except subprocess.TimeoutExpired:
        return None


def isolate(base, name, prop, outdir, tier):
    """One harness in a process of its own. Returns (name, report, None) when it ends, (name, None, violation) when the
    inputs of the path it was on make the real code crash or run on, and (name, None, None) when they do not."""
    stem = os.path.join(outdir, "%s.%s" % (prop, name))
    rep, tr = stem + ".json", stem + ".trace"
    for f in (rep, tr):
        if os.path.exists(f):
            os.remove(f)
    d = engine(base + ["--exact", name, "--budget", "90" if tier == "quick" else "1200", "--quiet", "20", "--trace", tr, "--json", rep], rep, 120 if tier == "quick" else 1500)
    if d and d["harnesses"] and not d["harnesses"][0]["note"].startswith("operation"):
        h = d["harnesses"][0]
        for f in (rep, tr):
            if os.path.exists(f):
                os.remove(f)
        return name, h, None
    rd = os.path.join(V, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    fn = os.path.join(rd, "%s-%s-no_return.txt" % (prop, re.sub(r"\W+", "_", name)))
    for attempt in ("model of the path", "inputs near it"):
        if attempt != "model of the path":
            rc = ends([base[0], "--prop", prop, "--tier", tier, "--exact", name, "--soak", "60", "--seed", "1", "--trace", tr], 40)
            if rc is not None and rc >= 0 and rc < 128:
                break
        vals = open(tr).read() if os.path.exists(tr) else ""
        with open(fn, "w") as f:
            f.write("%s\n# the call does not return (%s)\n# replay: python3 check.py replay %s\n%s" % (name, attempt, rel(fn), vals))
        rcs = [ends([base[0], "--replay", fn], 25) for _ in range(2)]
        if all(rc is None or rc < 0 or rc >= 128 for rc in rcs):
            return name, None, (rel(fn), "the call does not return (%s)" % ("runs on" if rcs[0] is None else "crash %s" % rcs[0]),
                                [l.split()[0::2] for l in vals.splitlines()])
    os.remove(fn) if os.path.exists(fn) else None
    return name, None, None


def run_sym(prop, tier, seed, res):
    res["build_s"] = round(build_sym(prop), 2)
    exe = os.path.join(sym_dir(prop), "debug/symcheck")
    outdir = os.path.join(V, "evidence", "raw")
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, prop + ".json")
    if os.path.exists(rep):
        os.remove(rep)
    budget = "420" if tier == "quick" else "3000"
    base = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed)]
    data = engine(base + ["--budget", budget, "--json", rep], rep, float(budget) + 100)
    if data is None:
        # the engine process died or hung: find out which harness does it, each in a process of its own
        names = [l.split()[1] for l in subprocess.run(base + ["--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        data = dict(harnesses=[], hung=[], died=names)
    for h in [h for h in data["harnesses"] if h["note"].startswith("operation")]:
        data["hung"].append(h["name"])
    odd = sorted(set(data["hung"] + data["died"]))
    if odd:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            late = res["t0"] + (560 if tier == "quick" else 4000)
            outs = list(ex.map(lambda n: isolate(base, n, prop, outdir, tier) if time.time() < late else (n, None, None), odd))
        for n, h, bad in outs:
            if h:
                data["harnesses"] = [x for x in data["harnesses"] if x["name"] != n] + [h]
            elif bad:
                print("%s: %s, inputs %s" % (n, bad[1], bad[2]))
                res["violations"].append(bad[0])
            else:
                res["coverage"].setdefault("not_executed", []).append(n)
    if not data["harnesses"] and not res["violations"]:
        print("ERROR: engine failed on every harness")
        sys.exit(2)
    hs = data["harnesses"]
    kf = [k for k in known_findings() if k[0] == prop]
    printed = set()
    c = dict(harnesses=len(hs), paths=0, goals=0, proved=0, known=0, refuted=0, undecided=0, queries=0, unsat=0, sat=0,
             unknown=0, solver_s=0.0, identities=0, decisions=0, second_solver_queries=0, second_solver_disagreements=0, arithmetic_operations_encoded=0)
    undecided, notes, vacuous, how = [], [], [], {}
    fail = []
    for h in hs:
        c["paths"] += h["paths"]
        for a, b in (("queries", "queries"), ("unsat", "unsat"), ("sat", "sat"), ("unknown", "unknown"), ("solver_s", "solver_s"),
                     ("identities", "identities"), ("decisions", "decisions"), ("queries2", "second_solver_queries"),
                     ("disagreements", "second_solver_disagreements"), ("ops", "arithmetic_operations_encoded")):
            c[b] += h[a]
        if h["note"]:
            notes.append(h["name"] + ": " + h["note"])
        if not h["witness"]:
            vacuous.append(h["name"])
        for g in h["goals"]:
            c["goals"] += 1
            v = g["verdict"]
            how[g["how"]] = how.get(g["how"], 0) + 1
            if v == "Proved":
                c["proved"] += 1
            elif v == "Known":
                c["known"] += 1
                site = h["name"] + "/" + g["name"]
                m = [k for k in kf if site.startswith(k[1])]
                if m:
                    if m[0] not in printed:
                        printed.add(m[0])
                        print("KNOWN-FINDING: property=%s %s" % (prop, m[0][2]))
                else:
                    fail.append((h, g))
            elif v == "Refuted":
                c["refuted"] += 1
                fail.append((h, g))
            else:
                c["undecided"] += 1
                undecided.append(h["name"] + ": " + g["name"] + (" (" + g["note"] + ")" if g["note"] else ""))
    c["solver_s"] = round(c["solver_s"], 3)
    c["decided_by"] = how
    c["functions_encoded"] = sorted({h["name"] + ": " + h["api"] for h in hs})
    c["undecided_goals"] = sorted(set(undecided))[:60]
    c["notes"] = notes[:40]
    c["vacuous_harnesses"] = vacuous
    best = sorted(hs, key=lambda h: -h["wall"])[:3]
    c["slowest_harnesses"] = [dict(name=h["name"], wall_s=h["wall"], paths=h["paths"], queries=h["queries"]) for h in best]
    c["samples"] = [dict(harness=h["name"], goal=g["name"], path=g["path"], verdict=g["verdict"], how=g["how"])
                    for h in hs[:: max(1, len(hs) // 4)] for g in h["goals"][:1]][:5]
    res["coverage"].update(c)
    seen = set()
    for h, g in fail:
        if len(seen) >= 5:
            break
        key = (h["name"])
        if key in seen:
            continue
        seen.add(key)
        rd = os.path.join(V, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        fn = os.path.join(rd, "%s-%s.txt" % (prop, re.sub(r"\W+", "_", h["name"] + "-" + g["name"])[:80]))
        with open(fn, "w") as f:
            f.write("%s\n# goal: %s\n# %s\n# replay: python3 check.py replay %s\n" % (h["name"], g["name"], g["note"].replace("\n", " "), rel(fn)))
            for a, val, bits in g["inputs"]:
                f.write("%s %s %s\n" % (a, bits, val))
        print("%s / %s: %s inputs %s" % (h["name"], g["name"], g["note"], [(a, v) for a, v, _ in g["inputs"]]))
        res["violations"].append(rel(fn))


ASSUME_SYM = [
    "real arithmetic: scalars are exact reals (sqrt, sin, cos, ... are symbols constrained by their defining identities), so rounding, overflow, NaN and infinities of f32/f64 are outside the claim",
    "the approx_cmp dependency, which is not present offline, is replaced by /verif/vendor/approx_cmp (definitions of absolute/relative/ulps comparison)",
    "the generic code of /repo is executed at the scalar type of the engine; instantiation at f32/f64 is by Rust's parametricity, with every counterexample re-run at f64",
]


def main():
    prop = sys.argv[1]
    if prop == "setup":
        for p in ("C01", "C19"):
            print("build %.1fs" % build_sym(p))
        import engines
        print("build %.1fs" % engines.build_ir(env()))
        sys.exit(0)
    if prop == "replay":
        p = os.path.basename(sys.argv[2]).split("-")[0]
        import engines
        if sys.argv[2].endswith(".rs"):
            if "cglinalg_core::*" in open(sys.argv[2]).read():
                engines.build_ir(env())
            if "cglinalg_transform::*" in open(sys.argv[2]).read():
                build_sym("C19")
            sys.exit(subprocess.call(["python3-vt", os.path.join(V, "shape", "shape.py"), "replay", sys.argv[2]]))
        if engines.is_ir(sys.argv[2]):
            sys.exit(engines.replay_ir(env(), sys.argv[2]))
        build_sym(p)
        sys.exit(subprocess.call([os.path.join(sym_dir(p), "debug/symcheck"), "--replay", sys.argv[2]]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    res = dict(coverage={}, violations=[], build_s=0, t0=t0)
    import engines
    eng = engines.ENGINES.get(prop, ["sym"])
    assumptions = []
    for e in eng:
        if e == "sym":
            run_sym(prop, tier, seed, res)
            assumptions += ASSUME_SYM
        else:
            assumptions += engines.run(e, prop, tier, seed, res, env(), known_findings(), lambda: build_sym("C19", False))
    cov = res["coverage"]
    cov["build_s"] = res["build_s"]
    if "explanation" not in cov:
        cov["explanation"] = engines.EXPLAIN
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk("/repo/crates")):
        dirs.sort()
        if "/target" in root:
            continue
        for f in sorted(files):
            if f.endswith(".rs"):
                h.update(open(os.path.join(root, f), "rb").read())
    cov["source_sha256"] = h.hexdigest()
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(res["violations"]))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for v in res["violations"]:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    if res["violations"]:
        sys.exit(1)
    print("OK property=%s: %s" % (prop, ", ".join("%s=%s" % (k, cov[k]) for k in ("harnesses", "paths", "goals", "proved", "known", "undecided", "queries", "solver_s") if k in cov)))
    sys.exit(0)


main()
