#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seeds.py: patch.diff against /repo's HEAD, a self-contained demo and meta.json.
usage: mkseed.py [--verify] [ID ...]; --verify builds the demo against a scratch copy with and without the patch."""
import json, os, shutil, subprocess, sys, tempfile
T = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(T)
sys.path.insert(0, T)
from seeds import SEEDS
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: wrong. Builds a small program against the library in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src" "$W/demo/.cargo" "$W/vendor" || exit 3
cp -r "$D/approx_cmp" "$W/vendor/" && cp "$D/main.rs" "$W/demo/src/main.rs" && cp "$D/demo.lock" "$W/demo/Cargo.lock" || exit 3
mv "$W/vendor/approx_cmp/checksum.json" "$W/vendor/approx_cmp/.cargo-checksum.json" || exit 3
cat > "$W/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
approx_cmp = { git = "https://github.com/lambdaxymox/approx_cmp/" }
cglinalg_numeric = { path = "$R/crates/cglinalg_numeric" }
cglinalg_trigonometry = { path = "$R/crates/cglinalg_trigonometry" }
cglinalg_core = { path = "$R/crates/cglinalg_core" }
cglinalg_transform = { path = "$R/crates/cglinalg_transform" }
[workspace]
T
cat > "$W/demo/.cargo/config.toml" <<T
[source."git+https://github.com/lambdaxymox/approx_cmp/"]
git = "https://github.com/lambdaxymox/approx_cmp/"
replace-with = "local"
[source.local]
directory = "$W/vendor"
[net]
offline = true
T
cd "$W/demo" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true timeout 250 cargo run --offline -q 2>&1
'''
CONSTRAINT_DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: wrong. Compiles the shape rules of the library in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
{ echo "#[path = \\"$R/crates/cglinalg_core/src/constraint.rs\\"] #[allow(dead_code, unused)] mod constraint;"; cat "$D/main.rs"; } > "$W/main.rs"
cd "$W" && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --edition 2021 -o demo main.rs 2>&1 && ./demo
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(s, tree):
    """patch in `tree`, a clean checkout"""
    for f, old, new in s["edits"]:
        p = os.path.join(tree, "crates", f)
        t = open(p).read()
        n = t.count(old)
        assert n == s.get("count", 1), (s["id"], f, n)
        open(p, "w").write(t.replace(old, new))
    d = sh("git", "-C", tree, "diff").stdout
    assert d.strip(), s["id"]
    o = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(os.path.join(o, "patch.diff"), "w").write(d)
    con = s.get("constraint")
    open(os.path.join(o, "demo.sh"), "w").write(CONSTRAINT_DEMO if con else DEMO)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    open(os.path.join(o, "main.rs"), "w").write(s["demo"])
    if not con:
        shutil.copytree(os.path.join(V, "vendor/approx_cmp"), os.path.join(o, "approx_cmp"), ignore=shutil.ignore_patterns("gen.py"))
        os.rename(os.path.join(o, "approx_cmp/.cargo-checksum.json"), os.path.join(o, "approx_cmp/checksum.json"))
        shutil.copy(os.path.join(T, "seedbase/demo.lock"), os.path.join(o, "demo.lock"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
    return o


def main():
    args = sys.argv[1:]
    verify = "--verify" in args
    ids = [a for a in args if not a.startswith("-")]
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        tree = tempfile.mkdtemp(prefix="seed")
        try:
            sh("git", "clone", "-q", "/repo", tree)
            o = make(s, tree)
            if verify:
                b = sh("bash", os.path.join(o, "demo.sh"), cwd=tree)
                sh("git", "-C", tree, "checkout", "--", ".")
                a = sh("bash", os.path.join(o, "demo.sh"), cwd=tree)
                ok = a.returncode == 0 and b.returncode != 0 and "error" not in b.stdout.split("panicked")[0]
                print(s["id"], s["property"], "ok" if ok else "BAD", a.returncode, b.returncode, "" if ok else a.stdout[-1500:] + b.stdout[-1500:])
        finally:
            shutil.rmtree(tree, ignore_errors=True)


main()
