#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree.

1. the contracts of the property's functions are verified against LLVM IR generated from the current source;
2. the bounded stand-in runs the real code against a dense reference (also: replay search for failed obligations).
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, threading, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "vc"))
from plan import PLAN
PY = shutil.which("python3-vt") or sys.executable
SMALL = {"NBUCKETS": 509, "INITIAL_ALLOCATION_SIZE": 16, "INITIAL_ALLOCATION_SIZE_CACHE": 16}


def sh(cmd, timeout=None, **kw):
    """run a command in its own process group; kill the whole group on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.plan = PLAN[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.w = tempfile.mkdtemp(prefix="vc_" + prop + "_")
        self.proofs, self.bounded, self.viol, self.notes, self.kf = [], [], [], [], []
        self.thorough = tier == "thorough"
        kfp = os.path.join(V, "known_findings.json")
        self.known = [k for k in (json.load(open(kfp))["findings"] if os.path.exists(kfp) else []) if k["property"] == prop]

    # ---------------------------------------------------------------- proof
    def ir(self, tu):
        src, flags = {"dd": ("src/dd.cpp", []), "glue": (os.path.join(V, "vc/glue.cpp"), []), "mpi": ("src/dd.cpp", ["-DisMPI"] + mpi_flags())}[tu]
        out = os.path.join(self.w, tu + ".ll")
        rc, o, e = sh(["clang++", "-std=gnu++17", "-S", "-emit-llvm", "-O0", "-g", "-w", "-DEIGEN_DONT_VECTORIZE", f"-I{R}/include", "-I/usr/include/eigen3"] + flags +
                      [os.path.join(R, src), "-o", out], 300)
        if rc != 0:
            self.notes.append(f"no IR for {tu}: {e[-500:]}")
            return None
        return out

    def prove(self, tu, name, ll, secs):
        out = os.path.join(self.w, f"p_{tu}_{name}.json".replace("/", "_"))
        rc, o, e = sh([PY, os.path.join(V, "vc/task.py"), ll, tu, name, str(secs), out], secs + 60)
        try:
            r = json.load(open(out))
        except Exception:
            r = {"contract": name, "status": "undecided", "why": f"verifier ended with {rc}: {e[-400:]}", "functions": [], "obligations": 0, "discharged": 0, "failed": []}
        r["tu"] = tu
        return r

    def prove_py(self, name, secs):
        """one contract of the Python layer, on the package's current source (pv/)"""
        out = os.path.join(self.w, f"q_{name}.json".replace("/", "_"))
        rc, o, e = sh(["/opt/vp/venv/bin/python", "-W", "ignore", os.path.join(V, "pv/task.py"), R, self.prop, name, str(secs), out], secs + 60, cwd=self.w,
                      env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        try:
            r = json.load(open(out))
        except Exception:
            r = {"contract": name, "status": "undecided", "why": f"verifier ended with {rc}: {e[-400:]}", "functions": [], "obligations": 0, "discharged": 0, "failed": []}
        r["tu"] = "py"
        return r

    # ---------------------------------------------------------------- bounded stand-in (C++)
    def includes(self, small, d):
        os.makedirs(d)
        inc = os.path.join(R, "include")
        for f in os.listdir(inc):
            if f.endswith((".h", ".hpp")):
                s = open(os.path.join(inc, f)).read()
                if small:
                    for k, v in SMALL.items():
                        s = re.sub(r"(\b%s\s*=\s*)[^;,]+;" % k, r"\g<1>%d;" % v, s)
                        s = re.sub(r"(#define\s+%s\s+).*" % k, r"\g<1>%d" % v, s)
                open(os.path.join(d, f), "w").write(s)
        return d

    def build_h(self, small, flags=(), name="h"):
        d = self.includes(small, os.path.join(self.w, name + "_inc"))
        exe = os.path.join(self.w, name)
        rc, o, e = sh(["g++", "-std=gnu++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", *flags, f"-I{d}", f"-I{R}/src", "-I/usr/include/eigen3", f"-I{V}/harness",
                       os.path.join(V, "harness/h.cpp"), "-o", exe, "-lpthread"], 400)
        if rc != 0:
            self.notes.append(f"bounded stand-in does not compile against the current source: {e[:600]}")
            return None
        return exe

    def run_h(self, exe, mode, seed, secs, conf):
        rc, o, e = sh([exe, mode, str(seed), str(secs)], secs * 3 + 240, cwd=self.w)
        m = re.search(r"cases=(\d+)", e)
        r = {"mode": mode, "config": conf, "seed": seed, "budget_s": secs, "rc": rc, "cases": int(m.group(1)) if m else 0, "out": e[-6000:]}
        if rc == 0:
            r["status"] = "ok"
        elif rc == 7:
            r["status"] = "fail"
        elif rc is not None and rc < 0 and rc != -9:
            r["status"] = "fail"
        else:
            r["status"] = "undecided"
        return r

    # ---------------------------------------------------------------- bounded stand-in (Python layer)
    def build_py(self, small):
        """a private copy of the Python package with the extension built from the current source"""
        d = os.path.join(self.w, "py" + ("s" if small else "r"))
        os.makedirs(d + "/qdd")
        for f in os.listdir(R + "/qdd"):
            if f.endswith(".py"):
                shutil.copy(os.path.join(R, "qdd", f), d + "/qdd/" + f)
        inc = self.includes(small, d + "/inc")
        rc, o, e = sh(["g++", "-std=gnu++17", "-O1", "-w", "-DEIGEN_DONT_VECTORIZE", "-fPIC", "-shared", "-fvisibility=hidden", f"-I{inc}", "-I/usr/include/eigen3",
                       "-I/usr/include/python3.12", "-I/opt/vp/deps/pybind11-2.10.3/pybind11/include", R + "/qdd/bindings.cpp", R + "/src/dd.cpp",
                       "-o", d + "/qdd/pyQDD.cpython-312-x86_64-linux-gnu.so"], 400)
        if rc != 0:
            self.notes.append(f"the Python extension does not compile from the current source: {e[:600]}")
            return None
        return d

    def run_py(self, d, mode, seed, secs, conf, extra=None):
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", VERIF_KNOWN=",".join(k["skip"] for k in self.known if k.get("skip")), OMP_NUM_THREADS="1", **(extra or {}))
        rc, o, e = sh(["/opt/vp/venv/bin/python", "-W", "ignore", V + "/harness/py/h.py", mode, str(seed), str(secs)], secs * 3 + 300, cwd=d, env=env)
        m = re.search(r"cases=(\d+) distinct=(\d+)", e)
        r = {"mode": mode, "config": "python," + conf, "seed": seed, "budget_s": secs, "rc": rc, "cases": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0, "out": e[-6000:]}
        r["status"] = "ok" if rc == 0 else "fail" if rc == 7 or (rc is not None and rc < 0 and rc != -9) else "undecided"
        r["known"] = [x for x in re.findall(r"^KNOWN (.*)$", e, re.M)]
        if r["status"] == "undecided":
            self.notes.append(f"{mode}: no answer (rc {rc}) {e[-300:]}")
        return r

    # ---------------------------------------------------------------- bounded stand-in (distributed form, MPI build)
    def build_m(self, name="m"):
        d = self.includes(True, os.path.join(self.w, name + "_inc"))
        exe = os.path.join(self.w, name)
        rc, o, e = sh(["mpicxx", "-std=gnu++17", "-O1", "-w", "-DisMPI", f"-I{d}", f"-I{R}/src", "-I/usr/include/eigen3", f"-I{V}/harness",
                       os.path.join(V, "harness/m.cpp"), "-o", exe, "-lboost_mpi", "-lboost_serialization", "-lpthread"], 500)
        if rc != 0:
            self.notes.append(f"distributed stand-in does not compile against the current source: {e[:600]}")
            return None
        return exe

    def run_m(self, exe, np, seed, cases, secs):
        tmp = tempfile.mkdtemp(dir="/tmp", prefix="vm")  # short path: openmpi puts sockets below it
        env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", TMPDIR=tmp, OMPI_MCA_btl_vader_single_copy_mechanism="none")
        try:
            rc, o, e = sh(["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "mpi_yield_when_idle", "1", "--mca", "btl", "self,vader", "-np", str(np), exe, str(seed), str(cases), str(secs)],
                          secs * 2 + 180, cwd=self.w, env=env)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        m = re.search(r"cases=(\d+)", e)
        r = {"mode": f"mpi-{np}", "config": f"{np} processes, small tables", "seed": seed, "budget_s": secs, "rc": rc, "cases": int(m.group(1)) if m else 0, "out": e[-6000:]}
        r["replay"] = f"mpirun -np {np} <build of harness/m.cpp> {seed} {cases} {secs}"
        r["status"] = "ok" if rc == 0 and m else "fail" if "FAIL" in e else "undecided"
        if r["status"] == "undecided":
            self.notes.append(f"mpi-{np}: no answer (rc {rc}) {e[-300:]}")
        return r

    def mpi(self):
        """process counts one after the other: the processes of one run already use the cores"""
        exe = self.build_m()
        if exe is None:
            return []
        out = []
        n, secs = (2500, 60) if not self.thorough else (20000, 300)
        for s in range(2 if not self.thorough else 4):
            for np in self.plan["mpi"]:
                out.append(self.run_m(exe, np, self.seed * 1000 + s, n, secs))
                if out[-1]["status"] == "fail":
                    return out
        return out

    # ---------------------------------------------------------------- all
    def run(self):
        pl = self.plan
        custom = self.mpi if pl.get("mpi") else None
        pool = ThreadPoolExecutor(9)
        futs = []
        lls = {}
        tus = sorted({t for t, n in pl["contracts"] + (pl["deps"] if self.thorough else [])})
        psecs = 1500 if self.thorough else pl.get("psecs", 280)
        todo = list(pl["contracts"]) + (list(pl["deps"]) if self.thorough else [])
        fir = {t: pool.submit(self.ir, t) for t in tus}
        fb = []
        if pl["modes"]:
            fb.append(("small", pool.submit(self.build_h, True, (), "hs")))
            fb.append(("real", pool.submit(self.build_h, False, (), "hr")))
            if self.thorough:
                fb.append(("small+asan", pool.submit(self.build_h, True, ("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g"), "hsan")))
        pym = pl.get("py", [])
        if pym:
            fb2 = [("small", pool.submit(self.build_py, True))] + ([("real", pool.submit(self.build_py, False))] if self.thorough else [])
        if custom:
            fc = pool.submit(custom)
        pf = []
        for n in pl.get("pyc", []) + (pl.get("pyct", []) if self.thorough else []):
            pf.append(pool.submit(self.prove_py, n, 1500 if self.thorough else pl.get("pycsecs", 240)))
        for t in tus:
            ll = fir[t].result()
            for (tu, n) in todo:
                if tu == t:
                    if ll is None:
                        self.proofs.append({"contract": n, "tu": tu, "status": "undecided", "why": "no IR", "functions": [], "obligations": 0, "discharged": 0, "failed": []})
                    else:
                        pf.append(pool.submit(self.prove, tu, n, ll, psecs))
        secs = pl.get("secs", 12) if not self.thorough else 240
        hf = []
        for conf, f in fb:
            exe = f.result()
            if exe is None:
                continue
            for mode in pl["modes"]:
                n = (3 if not self.thorough else 4) if conf == "small" else 1
                for s in range(n):
                    hf.append(pool.submit(self.run_h, exe, mode, self.seed * 1000 + s + (500 if conf != "small" else 0), secs, conf))
        pyd = []
        if pym:
            for conf, f in fb2:
                d = f.result()
                if d is None:
                    continue
                pyd.append((conf, d))
                for mode in pym:
                    for s in range(pl.get("pyseeds", 4) if conf == "small" else 1):
                        hf.append(pool.submit(self.run_py, d, mode, self.seed * 1000 + s + (500 if conf != "small" else 0), pl.get("pysecs", 20) if not self.thorough else 300, conf))
        self.proofs += [f.result() for f in pf]
        self.bounded += [f.result() for f in hf]
        if custom:
            self.bounded += fc.result()
        own = set(pl["contracts"]) | {("py", n) for n in pl.get("pyc", []) + pl.get("pyct", [])}
        failed = [p for p in self.proofs if p["status"] == "failed" and (p["tu"], p["contract"]) in own]
        fails = [b for b in self.bounded if b["status"] == "fail"]
        if failed and not fails and pyd:
            more = [pool.submit(self.run_py, pyd[0][1], mode, self.seed * 7919 + 31 * s + 3, 60 if not self.thorough else 300, "small") for mode in pym for s in range(8 // len(pym))]
            ex = [f.result() for f in more]
            self.bounded += ex
            fails = [b for b in ex if b["status"] == "fail"]
        if failed and not fails and pl["modes"]:
            # directed replay search: longer runs of the real code on the property's input space
            exes = [(c, f.result()) for c, f in fb if f.result()]
            more = []
            for c, exe in exes:
                for s in range(5 if c == "small" else 1):
                    for mode in pl["modes"]:
                        more.append(pool.submit(self.run_h, exe, mode, self.seed * 7919 + 31 * s + 3, 60 if not self.thorough else 300, c))
            ex = [f.result() for f in more]
            self.bounded += ex
            fails = [b for b in ex if b["status"] == "fail"]
        for b in fails:
            k = self.is_known(b)
            if k:
                self.kf.append(k["what"])
                continue
            self.report(b, failed)
            break
        if not self.viol and failed:
            self.report(None, failed)
        ids = {k.get("id"): k for k in self.known}
        for b in self.bounded:
            for k in b.get("known", []):
                if k in ids:
                    self.kf.append(ids[k]["what"])
                elif not self.viol:
                    self.report(b, failed)
        self.evidence(own)
        for k in sorted(set(self.kf)):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for l in self.viol:
            print(l)
        for n in self.notes:
            print("note: " + n.replace("\n", " | ")[:400])
        return 1 if self.viol else 0

    def is_known(self, b):
        for k in self.known:
            if k.get("match") and re.search(k["match"], b["out"]):
                return k
        return None

    def report(self, b, failed):
        os.makedirs(os.path.join(V, "evidence/replay"), exist_ok=True)
        L = [f"property {self.prop}"]
        if b:
            L += ["failing input on the real code:", b["out"].strip()[-4000:], "",
                  f"re-run: stand-in mode={b.get('mode')} config={b.get('config')} seed={b.get('seed')} budget={b.get('budget_s')}"]
            if b.get("replay"):
                L += ["", b["replay"]]
        for p in failed:
            for f in p["failed"][:10]:
                L += ["", f"failed obligation: {f['obligation']}", f"  in {f['function']}", f"  verifier output: {f['detail']}", "  path:"] + ["    " + x for x in (f["path"] or [])]
        txt = "\n".join(L) + "\n"
        path = os.path.join(V, "evidence/replay", f"{self.prop}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.txt")
        open(path, "w").write(txt)
        print(txt[:3000])
        self.viol.append(f"VIOLATION property={self.prop} replay={path}" + ("" if b else " no-failing-input-found"))

    def evidence(self, own):
        pl = self.plan
        ob = sum(p["obligations"] for p in self.proofs)
        di = sum(p["discharged"] for p in self.proofs)
        trusted = sorted({t for p in self.proofs for f in p["functions"] for t in f["trusted"]} | set(pl.get("trusted", [])))
        funcs = []
        for p in self.proofs:
            for f in p["functions"]:
                funcs.append({k: f[k] for k in ("function", "complete", "paths", "obligations", "discharged", "callees_by_contract", "inlined", "z3_calls", "z3_s")} |
                             {"obligations_by_name": {k: f"{v[1]}/{v[0]}" for k, v in f["labels"].items()}, "own": (p["tu"], p["contract"]) in own})
        decided = bool(own) and all(p["status"] == "verified" for p in self.proofs if (p["tu"], p["contract"]) in own)
        cov = {
            "explanation": pl.get("note", ""),
            "obligations": ob, "discharged": di,
            "checker_cmd": f"python3 check.py {self.prop} {self.tier}  (" + ("" if not pl.get("pyc") else "pv/task.py: own symbolic VC generator over the Python source of /repo/qdd, back end z3; ") + f"vc/task.py: own symbolic VC generator over clang-18 LLVM IR of /repo; back ends: z3 {z3v()} and the polynomial normaliser vc/poly.py)",
            "trusted_base": (BASE if pl["contracts"] else []) + (PYBASE if pl.get("pyc") else []) + trusted + ["contract of callee assumed here, decided by the check of its own property: " + c for c in
                                              sorted({c for p in self.proofs for f in p["functions"] for c in f["callees_by_contract"]} - {n for t, n in own})],
            "functions_under_contract": funcs,
            "undecided": [{"contract": p["contract"], "why": p["why"][:600]} for p in self.proofs if p["status"] == "undecided"],
            "all_own_contracts_verified": decided,
            "solver_time_s": round(sum(f["z3_s"] for p in self.proofs for f in p["functions"]), 2),
            "evaluations": sum(b["cases"] for b in self.bounded),
            "distinct_nontrivial": sum(b.get("distinct", b["cases"]) for b in self.bounded if b["status"] != "undecided"),
            "rule": pl.get("rule", "bounded stand-in: random and enumerated inputs of the property, compared with a dense reference; every case is a distinct draw; not counted as proved"),
            "samples": [dict(mode=b.get("mode"), config=b.get("config"), seed=b.get("seed"), cases=b["cases"], result=b["status"], last=b["out"].strip().split("\n")[-1][:300]) for b in self.bounded[:12]],
            "notes": self.notes, "known_findings": sorted(set(self.kf)), "violations": self.viol,
        }
        lvl = pl.get("level") or ("proof" if own else "exploration")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        p = os.path.join(V, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)

    def close(self):
        shutil.rmtree(self.w, ignore_errors=True)


BASE = ["vc/*.py (IR parser, symbolic executor, denotation theory, polynomial normaliser)", "clang 18 -O0 front end (C++ to LLVM IR)", "z3",
        "machine arithmetic: doubles are treated as real numbers, the weight tolerance as 0 (bounded by C24); 32/64-bit integers are exact",
        "single-threaded execution (C25)"]


PYBASE = ["pv/*.py (mechanical AST transformation of qdd/*.py, symbolic proxies, loop cutting, operator normal forms)", "CPython 3.12 executing the transformed source", "z3",
          "model of qiskit's circuit objects and textbook gate matrices (pv/qmodel.py)", "the bound C++ functions by their contracts (C01-C15)",
          "operand numbers of variadic instructions enumerated: MCX up to 6 controls, MCPhase up to 4, unitary up to 4 qubits, QDDGate up to 4; registers, circuit lengths and shots unbounded",
          "Python floats treated as real numbers"]


def mpi_flags():
    rc, o, e = sh(["mpicxx", "--showme:compile"], 20)
    return (o or "").split()


def z3v():
    rc, o, e = sh([PY, "-c", "import z3;print(z3.get_version_string())"], 60)
    return (o or "?").strip()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        rc = c.run()
    finally:
        c.close()
    print(f"{prop} {tier}: {'violated' if rc else 'held'}; obligations {sum(p['discharged'] for p in c.proofs)}/{sum(p['obligations'] for p in c.proofs)}, "
          f"undecided {[p['contract'] for p in c.proofs if p['status'] == 'undecided']}, bounded cases {sum(b['cases'] for b in c.bounded)} "
          f"{[b['mode'] + ':' + b['status'] for b in c.bounded if b['status'] != 'ok']}, {time.time() - c.t0:.0f} s")
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
