"""Verify one contract of the Python layer against /repo's current source.  task.py REPO PROP CONTRACT SECONDS OUT.json"""
import sys, os, json, time, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    repo, prop, want, secs, out = sys.argv[1:6]
    t0 = time.time()
    res = {"contract": want, "status": "undecided", "functions": [], "obligations": 0, "discharged": 0, "failed": [], "why": ""}

    def finish():
        res["wall_s"] = round(time.time() - t0, 2)
        if out == "-":
            f = res["functions"][0] if res["functions"] else {}
            print("\n".join(f"  {b}/{a} {n}" for n, (a, b) in f.get("labels", {}).items()))
            for x in res["failed"][:8]:
                print("FAILED", x["obligation"], "\n   ", x["detail"][:900], "\n   ", "\n    ".join(x["path"] or []))
            print({k: v for k, v in res.items() if k not in ("functions", "failed")}, f.get("paths"), f.get("z3_calls"), f.get("z3_s"))
        else:
            json.dump(res, open(out, "w"))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        import engine as E, qmodel as Q
        q, py = Q.package(repo)
        import importlib
        for m in ("qdd.circuit_property", "qdd.qdd_gate", "qdd.qdd_failed_job", "qdd.qdd_job", "qdd.qdd_backend"):
            importlib.import_module(m)
        import contracts as K, c19
        K.REG.update(c19.REG)
        C = E.CTX = E.Ctx(t0 + float(secs))
        spec = K.REG[want](py)
        C.spec = spec
        why = ""
        done = False
        try:
            C.explore(spec.run)
            done = True
        except E.Undecided as e:
            why = f"{e}"
            tb = traceback.extract_tb(sys.exc_info()[2])
            why += " [" + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-7:]) + "]"
            if os.environ.get("PV_TRACE"):
                traceback.print_exc()
                print("\n".join(C.trace()))
        if os.environ.get("PV_LOOPS"):
            for k, inf in C.loops.items():
                print("LOOP", k, inf.mod_vars, {a: b[0] for a, b in inf.mod_objs.items()}, "\n     ".join(str(c) for c in inf.conts))
        bad = [r for r in C.results if not r[1] and r[0].startswith(prop)]
        mine = [r for r in C.results if r[0].startswith(prop)]
        lab = {}
        for r in mine:
            a = lab.setdefault(r[0], [0, 0])
            a[0] += 1
            a[1] += bool(r[1])
        res["obligations"], res["discharged"] = len(mine), len(mine) - len(bad)
        res["functions"].append({"function": "qdd: " + want, "complete": done, "paths": C.paths, "obligations": len(mine), "discharged": len(mine) - len(bad), "labels": dict(sorted(lab.items())),
                                 "inlined": [], "callees_by_contract": ["pyQDD (C01-C15)"], "trusted": sorted(spec.trusted), "z3_calls": C.qcount, "z3_s": round(C.qtime, 2), "steps": 0})
        seen = set()
        for r in bad:
            if r[0] not in seen:
                seen.add(r[0])
                res["failed"].append({"function": "qdd: " + want, "obligation": r[0], "detail": r[2], "path": r[3]})
        res["why"] = why
        if bad and not C.changed:
            res["status"] = "failed"
        elif done and mine:
            res["status"] = "verified"
        elif done:
            res["why"] = "no obligation generated"
    except BaseException as e:
        res["status"] = "undecided"
        res["why"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-2500:]
    finish()


main()
