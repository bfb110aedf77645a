#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "symbolic execution of the generic Rust code at a symbolic real scalar, path conditions and goals decided by z3"
NOTE = ("Every feasible path of the real functions is executed symbolically and every assertion is decided by z3 for all real inputs of the path within the "
        "stated shapes; counterexamples are re-run at f64 on the real code. Trusts z3, the engine's term normalisation and the axioms of sqrt/trig/exp; "
        "float rounding, overflow and NaN are outside the claim.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p.get("over", ["inputs"]), text=p["text"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=["crates/" + x for x in p["files"]], mechanism=[dict(name=a, where="crates/" + b) for a, b in p["mech"]]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(o) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                      technique=p.get("technique", SYM), level="other", level_note=p.get("note", NOTE)) for p in PROPS if p["id"] not in na],
         not_applicable=NOT_APPLICABLE,
         notes="No hooks in /repo. /repo carries only fix: commits. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
