#!/usr/bin/env python3
"""tryseed.py [-j N] [--notests] [--checks] ID... : confirm planted bugs in scratch copies (builds, stable tests, demo), optionally run the check."""
import sys, os, subprocess, json, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
a = sys.argv[1:]
J = int(a[a.index("-j") + 1]) if "-j" in a else 2
tests, checks = "--notests" not in a, "--checks" in a
ids = [x for i, x in enumerate(a) if not x.startswith("-") and (i == 0 or a[i - 1] != "-j")]


def one(id):
    t = tempfile.mkdtemp(prefix="seed_" + id + "_", dir="/tmp/s")
    r = t + "/repo"
    res = {"id": id}
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for s in ("build.sh", "test.sh"):
            x = open("/opt/vp/" + s).read().replace("/repo", r).replace("/opt/vp/build.sh", t + "/build.sh")
            open(f"{t}/{s}", "w").write(x)
        shutil.rmtree(r + "/_build", ignore_errors=True)
        d = os.path.join(V, "seeded", id)
        p = subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if p.returncode:
            res["apply"] = p.stderr[-300:]
            return res
        p = subprocess.run(["bash", t + "/build.sh"], capture_output=True, text=True)
        if p.returncode:
            res["build"] = (p.stdout + p.stderr)[-1500:]
            return res
        subprocess.run(["cp", "-a", d, t + "/demo"])
        p = subprocess.run(["bash", t + "/demo/demo.sh"], cwd=r, capture_output=True, text=True)
        res["demo_patched"] = (p.returncode, (p.stdout + p.stderr)[-300:])
        if tests:
            subprocess.run(["bash", t + "/test.sh", t + "/out.json"], capture_output=True, text=True)
            o = json.load(open(t + "/out.json"))
            res["stable_failing"] = sorted(stable - set(o["passed"]))
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        p = subprocess.run(["bash", t + "/build.sh"], capture_output=True, text=True)
        p = subprocess.run(["bash", t + "/demo/demo.sh"], cwd=r, capture_output=True, text=True)
        res["demo_clean"] = (p.returncode, (p.stdout + p.stderr)[-300:])
        if checks:
            subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
            prop = json.load(open(d + "/meta.json"))["property"]
            p = subprocess.run(["python3", V + "/check.py", prop, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_NOEV="1"))
            res["check"] = (p.returncode, [l for l in p.stdout.split("\n") if l.startswith("VIOL")], p.stdout[-400:])
    except Exception as e:
        res["exc"] = repr(e)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    ok = res.get("demo_patched", (0,))[0] not in (0,) and res.get("demo_clean", (1,))[0] == 0 and not res.get("stable_failing")
    print("OK " if ok else "BAD", json.dumps(res), flush=True)
    return res


with ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
