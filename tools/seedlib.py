"""Build /verif/seeded/<id>/ from a specification: seed(id, property, [(file, old, new)...], needs, breaks, demo files)."""
import os, subprocess, json, shutil, tempfile, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = """#!/bin/bash
# run with cwd = repository root after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w -Iinclude -Isrc -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 250 ./demo
"""
PYD = """#!/bin/bash
# run with cwd = repository root after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
cd "$T" && timeout 250 /opt/vp/venv/bin/python -W ignore "$D/demo.py"
"""
SEEDS = {}


def seed(id, prop, edits, needs, breaks, cpp=None, py=None, sh=None, files=None):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, cpp=cpp, py=py, sh=sh, files=files or {})


def build(id):
    s = SEEDS[id]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", t + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(t, "r", f)
            x = open(p).read()
            if x.count(old) != 1:
                print(id, "edit does not apply", f, x.count(old), repr(old[:80]))
                return False
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t)
    if s["cpp"]:
        open(os.path.join(d, "demo.cpp"), "w").write(s["cpp"])
        open(os.path.join(d, "demo.sh"), "w").write(CXX)
    elif s["py"]:
        open(os.path.join(d, "demo.py"), "w").write(s["py"])
        open(os.path.join(d, "demo.sh"), "w").write(PYD)
    else:
        open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
    for n, c in s["files"].items():
        open(os.path.join(d, n), "w").write(c)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return True
