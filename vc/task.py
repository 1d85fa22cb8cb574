"""Verify one contract against the LLVM IR of /repo's current source.  task.py LL TU CONTRACT SECONDS OUT.json"""
import sys, os, json, time, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ll, tu, want, secs, out = sys.argv[1:6]
    secs = float(secs)
    t0 = time.time()
    res = {"contract": want, "status": "undecided", "functions": [], "obligations": 0, "discharged": 0, "failed": [], "why": ""}

    def finish():
        res["wall_s"] = round(time.time() - t0, 2)
        json.dump(res, open(out, "w"))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import ir, exe, theory, contract, suites, ginit
        m = ir.Module(ll)
        names = ir.demangle(list(m.fn_span))
        dm = dict(zip(names, m.fn_span))
        cons, lib, setup = suites.suite(tu)
        con = next(c for c in cons if getattr(c, 'tag', None) == want or getattr(c, 'tag', None) is None and c.name == want)
        fns = [n for d, n in dm.items() if con.matches(d)]
        if not fns:
            res["why"] = "no function of this name and signature in the current source"
            return finish()
        gi = ginit.compute(m)
        for fn in fns:
            th = theory.Theory(m)
            vc = exe.VC(m, contract.Contracts(cons), contract.Lib(lib), th)
            vc.ginit = gi
            vc.deadline = t0 + secs
            setup(vc)
            dem = vc.demangled(fn)
            try:
                con.verify(vc, fn)
                done = True
            except ir.Unsupported as e:
                done = False
                res["why"] = f"{dem}: {e}"
            except (RecursionError, MemoryError) as e:
                done = False
                res["why"] = f"{dem}: {type(e).__name__}"
            bad = [r for r in vc.results if r[1] != "ok"]
            res["obligations"] += len(vc.results)
            res["discharged"] += len(vc.results) - len(bad)
            lab = {}
            for r in vc.results:
                a = lab.setdefault(r[0], [0, 0])
                a[0] += 1
                a[1] += r[1] == "ok"
            res["functions"].append({"function": dem, "complete": done, "paths": vc.paths, "obligations": len(vc.results), "discharged": len(vc.results) - len(bad),
                                     "labels": {k: v for k, v in sorted(lab.items())}, "inlined": sorted(vc.inlined), "callees_by_contract": sorted(vc.used),
                                     "trusted": sorted(vc.trusted), "z3_calls": vc.solver.calls, "z3_s": round(vc.solver.time, 2), "steps": vc.steps})
            for r in bad:
                res["failed"].append({"function": dem, "obligation": r[0], "detail": str(r[2])[:3000], "path": r[3]})
            if not done:
                return finish()
        if res["failed"]:
            res["status"] = "failed"
        elif res["obligations"] == 0:
            res["why"] = "no obligation generated"
        else:
            res["status"] = "verified"
    except Exception as e:
        res["status"] = "undecided"
        res["why"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    finish()


main()
