"""The LLVM-IR engine's driver and the property -> engine table."""
import json, os, re, subprocess, sys, time
ENGINES = {"C01": ["sym", "ir"], "C02": ["sym", "ir"], "C03": ["sym", "ir"], "C05": ["sym", "ir"], "C04": ["sym", "ir"], "C10": ["sym", "ir"], "C15": ["sym", "ir"], "C16": ["sym", "ir"], "C17": ["sym", "ir"], "C08": ["sym", "ir"], "C09": ["shape"], "C23": ["sym", "ir"], "C24": ["ir"], "C25": ["ir"], "C27": ["ir"], "C29": ["sym", "ir"]}
EXPLAIN = ("The library's real generic functions are executed at a symbolic scalar; every branch on a symbolic value forks a path whose "
           "feasibility z3 decides, every goal is discharged for all real inputs of the path by z3 (polynomial identity, or validity of "
           "path condition => goal), or refuted by a model that is re-run at f64 against the same code. goals = proved + known + refuted + undecided.")
EXPLAIN_IR = ("The LLVM IR that rustc emits for the library is executed symbolically with bit-vector inputs, next to the IR of a reference function stating "
              "the property; z3 decides for each pair of feasible paths that no input makes the results differ, or returns one, which is then run natively "
              "through both. goals = harnesses = proved + known + refuted + undecided.")
V = os.path.dirname(os.path.abspath(__file__))
IR = os.path.join(V, "ir")
ASSUME_IR = [
    "integer arithmetic wraps (release profile: overflow checks off); debug-profile overflow panics are outside the claim",
    "float addition, multiplication, division and the mathematical functions are uninterpreted: the same operation on the same bits gives the same result, "
    "and only commutativity and sign rules are built in; float comparison, negation, classification and bit operations are exact. NaN payloads are not distinguished",
    "the system mathematical functions and the libm crate's functions of the same name denote the same function",
    "multiplication and division of integers wider than 16 bits are uninterpreted when the exact encoding is too large",
    "the approx_cmp dependency, which is not present offline, is replaced by /verif/vendor/approx_cmp",
    "trusts rustc's lowering to LLVM IR at the profile of ir/Cargo.toml, the executor in ir/irexec.py and z3",
]


def build_ir(env):
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=IR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("ERROR: the checking crate does not build against /repo:\n" + r.stdout[-6000:])
        sys.exit(2)
    return time.time() - t


def is_ir(path):
    return "spec/src/lib.rs" in open(path).read()


def replay_ir(env, path):
    """re-run a recorded counterexample natively: exit 1 when library and reference still differ"""
    build_ir(env)
    name, _, _, _, data = [l.strip() for l in open(path)][:5]
    return subprocess.call(["python3-vt", os.path.join(IR, "check_ir.py"), "replay", name, data.split()[1], "0"], cwd=IR)


EXPLAIN_SHAPE = ("For every combination of dimensions within the bounds the compiler's own trait resolution, on /repo's current source, says whether the constraint holds "
                 "(and its output) or whether the operation type-checks; the dimensions are then symbolic integers and z3 decides that no combination is accepted against the "
                 "arithmetic of the dimensions and none within the supported range is rejected. A combination it returns is compiled by itself before it is reported. "
                 "goals = two per relation (sound, complete).")
ASSUME_SHAPE = [
    "dimensions 0..17 and twelve larger ones up to 2^64 - 1 for the two-place constraints, 0..6 for the four-place ones, 1..4 (arrays up to 17 entries) for the library's operations",
    "completeness is claimed for the dimensions the library supports (1..4; DimLt from 0; results up to 4 components)",
    "trusts rustc's trait resolution and z3",
]


def run_shape(prop, res, env, build_transform):
    raw = os.path.join(V, "evidence", "raw")
    os.makedirs(raw, exist_ok=True)
    out = os.path.join(raw, prop + ".json")
    c = dict(harnesses=0, goals=0, proved=0, known=0, refuted=0, undecided=0, queries=0, solver_s=0.0, compiler_probes=0, accepted={}, functions_encoded=[], undecided_goals=[])
    c["explanation"] = EXPLAIN_SHAPE
    bad = []
    for part in ("constraints", "operations", "transform"):
        if bad:
            break
        if part == "operations":
            res["build_s"] += build_ir(env)
        if part == "transform":
            b = build_transform()
            if b is None:
                c["undecided_goals"].append("shapes of the transformation types: cglinalg_transform does not build")
                break
            res["build_s"] += b
        if os.path.exists(out):
            os.remove(out)
        r = subprocess.run(["python3-vt", os.path.join(V, "shape", "shape.py"), out, part], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            print("ERROR: engine failed\n" + r.stdout[-4000:])
            sys.exit(2)
        d = json.load(open(out))
        c["goals"] += d["goals"]
        c["queries"] += d["queries"]
        c["solver_s"] = round(c["solver_s"] + d["solver_s"], 3)
        c["compiler_probes"] += d["probes"]
        c["accepted"].update(d["accepted"])
        c["harnesses"] += len(d["accepted"])
        c["functions_encoded"] += sorted(d["accepted"])
        bad += d["bad"]
    ok = [b for b in bad if b["confirmed"]]
    c["refuted"] = len(ok)
    c["undecided"] = len(bad) - len(ok)
    c["undecided_goals"] += ["%s %s" % (b["relation"], b["dims"]) for b in bad if not b["confirmed"]]
    c["proved"] = c["goals"] - len(bad)
    res["coverage"].update(c)
    rd = os.path.join(V, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for b in ok[:5]:
        fn = os.path.join(rd, "%s-%s-%s.rs" % (prop, b["relation"], "_".join(str(x) for x in b["dims"])))
        with open(fn, "w") as f:
            f.write("// %s\n// violated when it %s\n// replay: python3 check.py replay %s\n%s" % (
                b["statement"], "compiles" if b["kind"] == "accepted" else "does not compile", os.path.relpath(fn, V), b["program"]))
        print("%s: %s for %s%s" % (b["statement"], b["kind"], list(b["dims"]), "" if b["output"] is None else " with output %s" % b["output"]))
        res["violations"].append(os.path.relpath(fn, V))
    return ASSUME_SHAPE


def run(engine, prop, tier, seed, res, env, findings, build_transform):
    if engine == "shape":
        return run_shape(prop, res, env, build_transform)
    res["build_s"] += build_ir(env)
    raw = os.path.join(V, "evidence", "raw")
    os.makedirs(raw, exist_ok=True)
    out = os.path.join(raw, prop + ".json")
    if os.path.exists(out):
        os.remove(out)
    # the whole check has to end in time: what is left of it, less when there is a violation to report already
    left = (3600 if tier != "quick" else 780) - (time.time() - res.get("t0", time.time()))
    left = max(60.0, min(left, 60.0) if res["violations"] else left)
    kin = ",".join(k[1] for k in findings if k[0] == prop)
    r = subprocess.run(["python3-vt", os.path.join(IR, "check_ir.py"), prop, out, tier, str(seed)], cwd=IR, env=dict(env, IR_DEADLINE=str(time.time() + left), IR_KNOWN=kin), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print("ERROR: engine failed\n" + r.stdout[-4000:])
        sys.exit(2)
    hs = json.load(open(out))
    if not hs:
        print("ERROR: no harness for", prop)
        sys.exit(2)
    kf = [k for k in findings if k[0] == prop]
    printed, fail = set(), []
    c = dict(harnesses=len(hs), paths=0, goals=len(hs), proved=0, known=0, refuted=0, undecided=0, queries=0, solver_s=0.0, path_pairs=0, instructions_encoded=0)
    und, vac, fns = [], [], set()
    for h in hs:
        c["paths"] += h["paths"]
        c["queries"] += h["queries"]
        c["solver_s"] += h["solver_s"]
        c["path_pairs"] += h.get("pairs", 0)
        c["instructions_encoded"] += h["instr"]
        fns |= set(h["functions"])
        if h["verdict"] == "Proved":
            c["proved"] += 1
            if not h["witness"]:
                vac.append(h["name"])
        elif h["verdict"] == "Undecided":
            c["undecided"] += 1
            und.append(h["name"] + ": " + h["note"])
        else:
            m = [k for k in kf if h["name"].startswith(k[1])]
            if m:
                c["known"] += 1
                if m[0] not in printed:
                    printed.add(m[0])
                    print("KNOWN-FINDING: property=%s %s" % (prop, m[0][2]))
            else:
                c["refuted"] += 1
                fail.append(h)
    c["solver_s"] = round(c["solver_s"], 3)
    c["functions_encoded"] = sorted(h["name"] for h in hs)
    c["callees_not_inlined"] = sorted(fns)[:60]
    c["undecided_goals"] = und[:60]
    c["vacuous_harnesses"] = vac
    c["explanation"] = EXPLAIN_IR
    c["samples"] = [dict(harness=h["name"], verdict=h["verdict"], paths=h["paths"], queries=h["queries"]) for h in hs[:: max(1, len(hs) // 4)]][:5]
    if res["coverage"]:
        c["explanation"] = EXPLAIN + " For the remaining harnesses: " + EXPLAIN_IR
    for k, v in c.items():
        o = res["coverage"].get(k)
        res["coverage"][k] = o + v if isinstance(v, (int, float, list)) and o is not None else v
    rd = os.path.join(V, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for h in fail[:5]:
        fn = os.path.join(rd, "%s-%s.txt" % (prop, re.sub(r"\W+", "_", h["name"])))
        with open(fn, "w") as f:
            f.write("%s\n# reference: r_%s in ir/spec/src/lib.rs\n# %s\n# replay: python3 check.py replay %s\ninputs %s\n"
                    % (h["name"], h["name"].replace("/", "_"), h["note"], os.path.relpath(fn, V), h["inputs"]))
        print("%s: %s" % (h["name"], h["note"]))
        res["violations"].append(os.path.relpath(fn, V))
    return ASSUME_IR
