"""h.py MODE SEED SECONDS: bounded runs of the real Python layer (with pyQDD built from the current source) against ref.py.
exit 0 no failure, 7 a failing input (described on stderr), 3 the harness itself could not run."""
import sys, os, time, random, math, io, contextlib, warnings, collections, traceback, signal
warnings.filterwarnings("ignore")
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ref, gen
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Parameter, Barrier, Clbit, Measure, Reset
import qiskit.circuit.library as L
from qiskit.quantum_info import Operator, Statevector, SparsePauliOp, Pauli, random_unitary

from qdd import QddProvider, pyQDD
from qdd import qdd_backend
from qdd.qdd_gate import QDDGate

mode, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
KF = set(filter(None, os.environ.get("VERIF_KNOWN", "").split(",")))  # inputs of recorded findings are not generated
R = random.Random(seed * 1000003 + sum(map(ord, mode)))
cases, distinct = 0, set()
quiet = io.StringIO()


def done(rc):
    sys.stderr.write(f"cases={cases} distinct={len(distinct)}\n")
    sys.stderr.flush()
    os._exit(rc)


def fail(msg, circ=None):
    sys.stderr.write(f"FAIL mode={mode} seed={seed} case={cases}: {msg}\n")
    if circ is not None:
        try:
            sys.stderr.write(f"registers {[ (x.name, x.size) for x in circ.qregs + circ.cregs]} global phase {circ.global_phase}\n")
            for x in circ.data:
                o = x.operation
                sys.stderr.write(f"  {o.base_class.__name__} {o.name} params={[p if not isinstance(p, np.ndarray) else p.round(3).tolist() for p in o.params]} "
                                 f"qubits={[circ.find_bit(q).index for q in x.qubits]} clbits={[circ.find_bit(c).index for c in x.clbits]} "
                                 f"condition={cond_text(circ, o)}\n")
        except Exception as e:
            sys.stderr.write(repr(e) + "\n")
    done(7)


def cond_text(circ, o):
    c = getattr(o, "condition", None)
    if c is None:
        return None
    return (circ.find_bit(c[0]).index if isinstance(c[0], Clbit) else c[0].name, int(c[1]))


def hang(*a):
    fail("no result: the run used more than 120 s of CPU time for one case")


signal.signal(signal.SIGPROF, hang)
PROV = QddProvider()
SHOTB = PROV.get_backend("qasm_simulator")
SVB = PROV.get_backend("statevector_simulator")


def run(backend, circ, **o):
    signal.setitimer(signal.ITIMER_PROF, 120)
    with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
        res = backend.run(circ, **o).result()
    quiet.seek(0)
    err = quiet.read()[-1500:]
    quiet.seek(0)
    quiet.truncate()
    return res, err


def ok(res, err, circ, what="run"):
    if not getattr(res, "success", False):
        fail(f"{what} failed: {getattr(res, 'status', '')} {err}", circ)


def bound(shots, k=1):
    """deviation of a frequency that occurs with probability < 1e-14 (Hoeffding)"""
    return math.sqrt(math.log(2 * k / 1e-14) / (2 * shots))


def check_counts(counts, dist, shots, circ, what):
    if sum(counts.values()) != shots:
        fail(f"{what}: counts add up to {sum(counts.values())}, {shots} shots", circ)
    b = bound(shots, len(dist) + 1)
    for k, v in counts.items():
        if dist.get(k, 0) < 1e-9:
            fail(f"{what}: outcome {k!r} cannot occur (counts {dict(counts)}, expected distribution { {x: round(y, 6) for x, y in dist.items()} })", circ)
    for k, p in dist.items():
        f = counts.get(k, 0) / shots
        if abs(f - p) > b or (p > 1 - 1e-12 and f != 1):
            fail(f"{what}: outcome {k!r} has frequency {f}, expected {p} (+-{b:.3f})", circ)


def spaced(bits, circ):
    """get_counts format: registers separated by spaces, last register first"""
    out, pos = [], 0
    for c in circ.cregs:
        out.append("".join(str(bits[circ.find_bit(b).index]) for b in reversed(c)))
    return " ".join(reversed(out))


# ---------------------------------------------------------------- C16
UNSUPPORTED = [lambda: L.CHGate(), lambda: L.ECRGate(), lambda: L.C3SXGate(), lambda: L.DCXGate(), lambda: L.CCZGate(), lambda: L.RCCXGate(), lambda: L.CSGate(), lambda: L.U2Gate(.1, .2),
               lambda: L.XXMinusYYGate(.3), lambda: L.U1Gate(.4), lambda: L.U3Gate(.1, .2, .3), lambda: L.QFT(2).to_gate(), lambda: L.CSdgGate(), lambda: L.RVGate(.1, .2, .3)]


def m_circ():
    global cases
    n = R.choice([1, 2, 2, 3, 3, 4, 4, 5, 6])
    if R.random() < .06:
        g = R.choice(UNSUPPORTED)()
        n = max(n, g.num_qubits)
        qc = gen.unitary_circuit(R, n, length=R.randint(0, 2))
        qc.append(g, R.sample(range(n), g.num_qubits))
        full = qc.copy()
        res, err = run(SVB, full, shots=1)
        if getattr(res, "success", False):
            try:
                sv = np.asarray(res.data(0)["statevector"])
                if np.abs(sv - Statevector(qc).data).max() < 1e-9:
                    return
            except Exception:
                pass
            fail(f"unsupported instruction {g.name} was neither refused nor applied", qc)
        return
    qc = gen.unitary_circuit(R, n)
    if "open-control" not in KF and R.random() < .1 and n >= 2:
        g = R.choice([lambda: L.CXGate(ctrl_state=0), lambda: L.MCXGate(n - 1, ctrl_state=R.randrange(2 ** (n - 1))), lambda: L.CPhaseGate(.7, ctrl_state=0), lambda: L.CRXGate(.7, ctrl_state=0)])()
        qc.append(g, R.sample(range(n), g.num_qubits))
        if n >= 3:
            qc.append(L.CSwapGate(ctrl_state=0), R.sample(range(n), 3))
    exp = Statevector(qc).data
    res, err = run(SVB, qc, shots=1)
    ok(res, err, qc)
    sv = np.asarray(res.data(0)["statevector"])
    if sv.shape != exp.shape:
        fail(f"state has {sv.shape} amplitudes", qc)
    d = np.abs(sv - exp)
    if d.max() > 1e-8:
        k = int(d.argmax())
        fail(f"amplitude {k} is {sv[k]}, expected {exp[k]}", qc)
    distinct.add(hash(exp.round(9).tobytes()))


# ---------------------------------------------------------------- C17
def m_bits():
    n = R.randint(1, 5)
    m = R.randint(1, 6)
    qc = gen.registers(R, n, m)
    basis = R.random() < .5
    if basis:
        for q in range(n):
            if R.random() < .5:
                qc.x(q)
    else:
        body = gen.unitary_circuit(R, n, length=R.randint(1, 8))
        for x in body.data:
            qc.append(x.operation, [body.find_bit(q).index for q in x.qubits])
    qc.metadata = R.choice([{}, {"a": R.randrange(9)}])
    qc.global_phase = R.choice([0, 1.25])
    ms = [(R.randrange(n), R.randrange(m)) for _ in range(R.randint(1, 2 * m))]
    if R.random() < .3:
        qs = R.sample(range(n), n)
        ms = [(qs[i], i) for i in range(min(n, m))]
    # a measured qubit may be measured again; nothing else follows
    for q, c in ms:
        qc.measure(q, c)
        if R.random() < .05:
            qc.barrier(q)
    dist = {}
    for b, p in ref.distribution(qc).items():
        k = spaced(b, qc)
        dist[k] = dist.get(k, 0) + p
    shots = R.choice([1, 2, 7, 64, 200, 200])
    mem = R.random() < .5
    res, err = run(SHOTB, qc, shots=shots, memory=mem)
    ok(res, err, qc)
    counts = res.get_counts(0)
    check_counts(counts, dist, shots, qc, "counts")
    if mem:
        me = res.get_memory(0)
        if len(me) != shots or collections.Counter(me) != collections.Counter({k: v for k, v in counts.items() if v}):
            fail(f"memory {me[:8]}... of length {len(me)} disagrees with the counts {dict(counts)}", qc)
    h = res.results[0].header
    exp = {"clbit_labels": [[r.name, i] for r in qc.cregs for i in range(r.size)], "creg_sizes": [[r.name, r.size] for r in qc.cregs],
           "qubit_labels": [[r.name, i] for r in qc.qregs for i in range(r.size)], "qreg_sizes": [[r.name, r.size] for r in qc.qregs],
           "memory_slots": m, "n_qubits": n, "name": qc.name, "metadata": qc.metadata}
    for k, v in exp.items():
        if getattr(h, k) != v and [list(x) if isinstance(x, tuple) else x for x in (getattr(h, k) or [])] != v:
            fail(f"header {k} is {getattr(h, k)!r}, expected {v!r}", qc)
    if abs(float(h.global_phase) - float(qc.global_phase)) > 1e-12:
        fail(f"header global_phase is {h.global_phase}", qc)
    if res.results[0].shots != shots:
        fail(f"result reports {res.results[0].shots} shots", qc)
    if R.random() < .3 and "probabilities-by-qubit" not in KF:
        res, err = run(SHOTB, qc, shots=None)
        ok(res, err, qc)
        pr = res.data(0)["probabilities"]
        want = {}
        for b, p in ref.distribution(qc).items():
            k = sum(x << i for i, x in enumerate(b))
            want[k] = want.get(k, 0) + p
        for k in set(want) | set(pr):
            if abs(want.get(k, 0) - pr.get(k, 0)) > 1e-9:
                fail(f"shots=None: probability of classical value {k} is {pr.get(k, 0)}, expected {want.get(k, 0)}", qc)
    distinct.add(str(sorted(dist.items())) + str(ms))


# ---------------------------------------------------------------- C18
def m_dyn():
    n = R.randint(1, 4)
    m = R.randint(1, 4)
    qc = gen.registers(R, n, m)
    for _ in range(R.randint(2, 10)):
        k = R.random()
        inst = None
        if k < .45:
            g = gen.instruction(R, min(n, 3), R.random() < .3)
            inst = qc.append(g, R.sample(range(n), g.num_qubits))
        elif k < .75:
            inst = qc.measure(R.randrange(n), R.randrange(m))
        elif k < .88:
            inst = qc.reset(R.randrange(n))
        else:
            qc.barrier(*R.sample(range(n), R.randint(1, n)))
        if inst is not None and R.random() < .4:
            if R.random() < .5:
                inst.c_if(R.randrange(m), R.randrange(2))
            else:
                c = R.choice(qc.cregs)
                inst.c_if(c, R.randrange(2 ** c.size))
    if not any(x.operation.base_class is Measure for x in qc.data):
        qc.measure(R.randrange(n), R.randrange(m))
    if R.random() < .5:
        for q in range(min(n, m)):
            qc.measure(q, q)
    br = ref.branches(qc)
    dist = {}
    for p, b, s in br:
        k = spaced(b, qc)
        dist[k] = dist.get(k, 0) + p
    shots = R.choice([20, 60, 100])
    res, err = run(SHOTB, qc, shots=shots, memory=True)
    ok(res, err, qc)
    check_counts(res.get_counts(0), dist, shots, qc, "counts")
    me = res.get_memory(0)
    if len(me) != shots:
        fail("memory length", qc)
    distinct.add(str(sorted(dist.items())))
    # the state after one shot is one of the branch states of the reported outcome
    res, err = run(SVB, qc, shots=1)
    ok(res, err, qc)
    if "statevector" in res.data(0) and not only_final(qc):
        sv = np.asarray(res.data(0)["statevector"])
        o = next(iter(res.get_counts(0)))
        best = min((np.abs(sv - s).max() for p, b, s in br if spaced(b, qc) == o), default=9)
        # a branch state is determined up to the phase of the projection only if the amplitudes agree
        if best > 1e-7:
            fail(f"the state after a shot with outcome {o} is none of the states this outcome can leave: {sv}", qc)


def only_final(qc):
    """no operation depends on or follows a measurement (then the state is not collapsed)"""
    meas = set()
    for x in qc.data:
        o = x.operation
        if o.base_class is Barrier:
            continue
        if getattr(o, "condition", None) is not None or o.base_class is Reset:
            return False
        if o.base_class is Measure:
            meas |= set(x.qubits)
        elif any(q in meas for q in x.qubits):
            return False
    return True


# ---------------------------------------------------------------- C21
def m_opts():
    from qdd import QddProvider
    prov = QddProvider()
    b = prov.get_backend("qasm_simulator")
    n = R.randint(1, 3)
    qc = gen.unitary_circuit(R, n, n, length=3)
    k = R.randrange(11)
    distinct.add((k, n, R.random()))

    def refused(c, what, **o):
        res, err = run(b, c, **o)
        if getattr(res, "success", False) or len(res.results) != 0 or not getattr(res, "status", ""):
            fail(f"{what} was not refused (success={res.success}, results={len(res.results)}, status={getattr(res, 'status', None)!r})", qc)

    if k == 0:
        qc.measure(0, 0)
        refused(qc, "bad shots", shots=R.choice([0, -1, -1000, 10 ** 6 + 1, 10 ** 9, -2 ** 40]))
    elif k == 1:
        if "shots-not-int" in KF:
            return
        qc.measure(0, 0)
        refused(qc, "non-integer shots", shots=R.choice([2.5, "10", [5]]))
    elif k == 2:
        refused(qc, "a circuit without measurement")
        good = qc.copy()
        good.measure(0, 0)
        refused([good, qc] if R.random() < .5 else [qc, good], "a batch with a circuit without measurement")
    elif k == 3:
        q = QuantumCircuit(R.choice([101, 102, 150]), 1)
        q.measure(0, 0)
        refused(q, "too many qubits")
        if R.random() < .3:
            q = QuantumCircuit(R.choice([100, 99, 60]), 1)
            q.x(q.num_qubits - 1)
            q.measure(q.num_qubits - 1, 0)
            res, err = run(b, q, shots=5)
            ok(res, err, q)
            if res.get_counts(0) != {"1": 5}:
                fail(f"counts {res.get_counts(0)}", q)
    elif k == 4:
        refused(R.choice([5, "qc", [qc, 3], None, (qc,), {"a": qc}]), "not a circuit")
    elif k == 5:  # precedence of options
        qc.measure(0, 0)
        s1, s2 = R.sample(range(1, 60), 2)
        b.set_options(shots=s1)
        res, err = run(b, qc)
        ok(res, err, qc)
        if sum(res.get_counts(0).values()) != s1 or res.results[0].shots != s1:
            fail(f"set_options(shots={s1}) gave {sum(res.get_counts(0).values())} shots", qc)
        m1, m2 = R.random() < .5, R.random() < .5
        b.set_options(memory=m1)
        res, err = run(b, qc, shots=s2, memory=m2)
        ok(res, err, qc)
        if sum(res.get_counts(0).values()) != s2 or ("memory" in res.data(0)) != m2:
            fail(f"run options shots={s2} memory={m2} over backend options shots={s1} memory={m1}: {sum(res.get_counts(0).values())} shots, memory {'memory' in res.data(0)}", qc)
        res, err = run(b, qc, shots=s2)
        ok(res, err, qc)
        if ("memory" in res.data(0)) != m1:
            fail("backend option memory not used", qc)
        if "set-options-shots" not in KF:
            b.set_options(shots=R.choice([0, -3, 10 ** 6 + 1]))
            refused(qc, "bad shots set on the backend")
        b.set_options(shots=1024, memory=False)
        res, err = run(b, qc)
        ok(res, err, qc)
        if sum(res.get_counts(0).values()) != 1024:
            fail("default shots", qc)
    elif k in (6, 7):  # batches keep order, names, binds
        t, u = Parameter("t"), Parameter("u")
        N = R.randint(1, 5)
        circs, binds, exp = [], [], []
        same = R.random() < .4
        for i in range(N):
            c = QuantumCircuit(2, 2, name=f"b{i}") if not (same and i) else circs[0]
            if c not in circs or not circs:
                c.rx(t, 0)
                c.rx(u, 1) if R.random() < .5 else c.ry(u, 1)
                c.measure([0, 1], R.choice([[0, 1], [1, 0]]))
            x, y = R.randrange(2), R.randrange(2)
            circs.append(c)
            binds.append({t: math.pi * x, u: math.pi * y})
            mp = [c.find_bit(z.clbits[0]).index for z in c.data if z.operation.base_class is Measure]
            bits = [0, 0]
            bits[mp[0]], bits[mp[1]] = x, y
            exp.append(f"{bits[1]}{bits[0]}")
        res, err = run(b, circs, parameter_binds=binds, shots=9)
        ok(res, err, circs[0])
        if len(res.results) != N:
            fail(f"{N} circuits gave {len(res.results)} results")
        for i in range(N):
            if res.get_counts(i) != {exp[i]: 9} or not res.results[i].header.name.startswith(circs[i].name):
                fail(f"circuit {i} of a batch with bindings {binds}: counts {res.get_counts(i)}, expected {exp[i]}, name {res.results[i].header.name}", circs[i])
        if N > 1 and "short-binds" not in KF:
            res, err = run(b, circs, parameter_binds=binds[:-1], shots=9)
            if res.success and len(res.results) != N:
                fail(f"{N} circuits with {N - 1} bindings gave {len(res.results)} results without an error")
    elif k == 8:  # unbound parameter
        t = Parameter("t")
        qc.rx(t, 0)
        qc.measure(0, 0)
        refused(qc, "an unbound parameter")
    elif k == 9:
        if "seed" in KF:
            return
        qc = QuantumCircuit(4, 4)
        qc.h(range(4))
        if R.random() < .5:
            qc.measure([0], [0])
            qc.h(0)
        qc.measure(range(4), range(4))
        s = R.randrange(2 ** 30)
        r = [run(b, qc, shots=60, memory=True, seed_simulator=s) for _ in range(2)]
        for x in r:
            ok(*x, qc)
        if r[0][0].get_memory(0) != r[1][0].get_memory(0):
            fail(f"two runs with seed_simulator={s} differ", qc)
        if run(b, qc, shots=60, memory=True, seed_simulator=s + 1)[0].get_memory(0) == r[0][0].get_memory(0):
            fail(f"seed_simulator={s + 1} gives the same memory as {s}", qc)
    elif k == 10:
        sv = prov.get_backend("statevector_simulator")
        qc.measure(0, 0)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            res, err = run(b, qc, shots=3, nonsense=4)
        ok(res, err, qc)
        if not any("nonsense" in str(x.message) for x in w):
            fail("unknown option without a warning", qc)
        q = QuantumCircuit(2)
        q.x(0)
        res, err = run(sv, q, shots=1)
        ok(res, err, q)
        refused(q, "a circuit without measurement")
        # options of one backend do not leak into another
        b.set_options(shots=17)
        b2 = QddProvider().get_backend("qasm_simulator")
        res, err = run(b2, qc)
        ok(res, err, qc)
        if sum(res.get_counts(0).values()) != 1024:
            fail("options leak between backends", qc)


# ---------------------------------------------------------------- C22
def pcirc(n, np_):
    ps = [Parameter(f"p{R.randrange(10 ** 6)}_{i}") for i in range(np_)]
    qc = QuantumCircuit(n)
    for i in range(R.randint(1, 5)):
        g = gen.instruction(R, n, False)
        qc.append(g, R.sample(range(n), g.num_qubits))
        if i < np_:
            qc.rx(ps[i], R.randrange(n)) if R.random() < .5 else qc.ry(ps[i], R.randrange(n))
    for p in ps:
        if p not in qc.parameters:
            qc.rx(p, R.randrange(n))
    return qc


def observable(n):
    T = R.choice([1, 1, 2, 3, 4])
    ps = []
    for _ in range(T):
        ps.append("".join(R.choice("IXYZ" if R.random() < .8 else "I") for _ in range(n)))
    if R.random() < .15:
        ps[R.randrange(T)] = "I" * n
    if len(set(ps)) < len(ps):
        ps = sorted(set(ps))
    return SparsePauliOp(ps, [R.choice([1.0, -0.5, 2.0, R.uniform(-2, 2)]) for _ in ps])


def m_est():
    from qdd.qdd_estimator import Estimator
    n = R.randint(1, 4)
    exact = R.random() < .6
    C = [pcirc(n, R.choice([0, 0, 1, 2])) for _ in range(R.randint(1, 3))]
    O = [observable(n) for _ in range(R.randint(1, 3))]
    if "identity-only" in KF:
        O = [o if any(set(str(p)) != {"I"} for p in o.paulis) else SparsePauliOp(["Z" * n]) for o in O]
    N = R.randint(1, 5)
    ci = [R.randrange(len(C)) for _ in range(N)]
    oi = [R.randrange(len(O)) for _ in range(N)]
    cs, os_ = [C[i] for i in ci], [O[i] for i in oi]
    V = {i: [[R.choice([0, math.pi, R.uniform(-3, 3)]) for _ in c.parameters] for _ in range(2)] for i, c in enumerate(C)}
    pv = [R.choice(V[i]) for i in ci]
    skip = R.random() < .5
    ag = R.random() < .7
    signal.setitimer(signal.ITIMER_PROF, 120)
    shots = 2000
    try:
        with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
            if exact:
                est = Estimator(approximation=True, run_options={"shots": None}, skip_transpilation=skip, abelian_grouping=ag)
                runs = [est.run(cs, os_, pv).result() for _ in range(R.choice([1, 1, 2]))]
            else:
                est = Estimator(run_options={"shots": shots}, skip_transpilation=skip, abelian_grouping=ag)
                runs = [est.run(cs, os_, pv).result() for _ in range(R.choice([1, 1, 2]))]
    except Exception as e:
        tb = traceback.format_exc()
        describe(C, O, ci, oi, pv, exact, skip, ag)
        fail(f"estimator raised {type(e).__name__}: {e}\n{tb[-1200:]}")
    for r in runs:
        for j in range(N):
            sv = Statevector(cs[j].assign_parameters(dict(zip(cs[j].parameters, pv[j]))))
            e = float(np.real(sv.expectation_value(os_[j])))
            tol = 1e-7 if exact else 2 * bound(shots, 8) * float(np.sum(np.abs(os_[j].coeffs))) + 1e-9
            if abs(r.values[j] - e) > tol:
                describe(C, O, ci, oi, pv, exact, skip, ag)
                fail(f"entry {j}: expectation value {r.values[j]}, expected {e} (+-{tol:.2g})", cs[j])
    distinct.add(str((ci, oi, [o.to_list() for o in O])))


def describe(C, O, ci, oi, pv, exact, skip, ag):
    sys.stderr.write(f"circuits {ci} observables {oi} = {[o.to_list() for o in O]} parameter values {pv} exact={exact} skip_transpilation={skip} abelian_grouping={ag}\n")
    for i, c in enumerate(C):
        sys.stderr.write(f"circuit {i}: {[(x.operation.name, x.operation.params, [c.find_bit(q).index for q in x.qubits]) for x in c.data]}\n")


def m_samp():
    from qdd.qdd_sampler import Sampler
    n = R.randint(1, 4)
    C = []
    for _ in range(R.randint(1, 3)):
        base = pcirc(n, R.choice([0, 1, 2]))
        qc = gen.registers(R, n, R.randint(1, n + 1)) if "sampler-any-clbits" not in KF else QuantumCircuit(n, n)
        for x in base.data:
            qc.append(x.operation, [base.find_bit(q).index for q in x.qubits])
        for c in range(qc.num_clbits):
            if R.random() < .8 or c == 0:
                qc.measure(R.randrange(n), c)
        C.append(qc)
    N = R.randint(1, 5)
    ci = [R.randrange(len(C)) for _ in range(N)]
    V = {i: [[R.choice([0, math.pi, R.uniform(-3, 3)]) for _ in c.parameters] for _ in range(2)] for i, c in enumerate(C)}
    if "sampler-repeated" in KF:
        V = {i: v[:1] for i, v in V.items()}
        ci = R.sample(range(len(C)), min(N, len(C)))
        N = len(ci)
    pv = [R.choice(V[i]) for i in ci]
    exact = R.random() < .5 and "probabilities-by-qubit" not in KF
    shots = 1500
    signal.setitimer(signal.ITIMER_PROF, 120)
    try:
        with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
            s = Sampler(run_options={"shots": None if exact else shots}, skip_transpilation=R.random() < .5)
            runs = [s.run([C[i] for i in ci], pv).result() for _ in range(R.choice([1, 1, 2]))]
    except Exception as e:
        fail(f"sampler raised {type(e).__name__}: {e} for circuits {ci}, parameter values {pv}\n{traceback.format_exc()[-1200:]}", C[ci[0]])
    for r in runs:
        if len(r.quasi_dists) != N:
            fail(f"{N} entries gave {len(r.quasi_dists)} distributions")
        for j in range(N):
            qc = C[ci[j]].assign_parameters(dict(zip(C[ci[j]].parameters, pv[j])))
            want = {}
            for b, p in ref.distribution(qc).items():
                k = sum(x << i for i, x in enumerate(b))
                want[k] = want.get(k, 0) + p
            got = dict(r.quasi_dists[j])
            tol = 1e-8 if exact else bound(shots, len(want) + 1)
            for k in set(want) | set(got):
                if abs(want.get(k, 0) - got.get(k, 0)) > tol or (want.get(k, 0) < 1e-9 and got.get(k, 0) > 1e-8):
                    fail(f"entry {j} (circuit {ci[j]}, values {pv[j]}, exact={exact}): probability of {k} is {got.get(k, 0)}, expected {want.get(k, 0)}; all circuits {ci}, all values {pv}", qc)
    distinct.add(str((ci, pv)))


# ---------------------------------------------------------------- C23
def m_merge():
    n = R.choice([1, 2, 2, 3, 3, 4, 5])
    qc = gen.unitary_circuit(R, n, R.randint(0, 2), unitary="merge-unitary" not in KF, length=R.choice([0, 1, 3, 8, 25]))
    plain = qc.copy()
    b = PROV.get_backend(R.choice(["qasm_simulator", "statevector_simulator"]))
    if qc.num_clbits and R.random() < .5:
        qc.measure(R.randrange(n), 0)
    signal.setitimer(signal.ITIMER_PROF, 120)
    U = Operator(plain).data
    try:
        with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
            e = b.merge_circuit(qc, R.choice([1, 2, 20, 1000]))
            M = np.asarray(e.getEigenMatrix(n))
    except Exception as ex:
        fail(f"merge_circuit raised {type(ex).__name__}: {ex}\n{traceback.format_exc()[-800:]}", qc)
    d = np.abs(M - U)  # getEigenMatrix is single precision
    if d.max() > 2e-6:
        r, c = np.unravel_index(d.argmax(), d.shape)
        fail(f"entry ({r},{c}) of the merged operator is {M[r, c]}, expected {U[r, c]}", qc)
    N = n + R.randint(0, 0)
    c2 = gen.unitary_circuit(R, n, length=2)
    c2.append(QDDGate(n, e), list(range(n)))
    t = gen.unitary_circuit(R, n, length=1)
    for x in t.data:
        c2.append(x.operation, [t.find_bit(q).index for q in x.qubits])
    sv = np.zeros(2 ** n, complex)
    sv[0] = 1
    for x in c2.data:
        if x.operation.name == "barrier":
            continue
        sv = ref.apply(sv, U if x.operation.name == "qdd" else ref.matrix(x.operation), [c2.find_bit(q).index for q in x.qubits], n)
    sv = sv * np.exp(1j * float(c2.global_phase))
    res, err = run(SVB, c2, shots=1)
    ok(res, err, c2)
    got = np.asarray(res.data(0)["statevector"])
    if np.abs(got - sv).max() > 1e-8:
        fail(f"state after the merged operator differs by {np.abs(got - sv).max()}", c2)
    distinct.add(hash(U.round(9).tobytes()))
    if R.random() < .15 and "merge-unsupported" not in KF:
        g = R.choice(UNSUPPORTED)()
        m = max(n, g.num_qubits)
        q = QuantumCircuit(m)
        q.h(0)
        q.append(g, R.sample(range(m), g.num_qubits))
        try:
            with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
                e = b.merge_circuit(q)
        except Exception:
            return
        if np.abs(np.asarray(e.getEigenMatrix(m)) - Operator(q).data).max() > 2e-6:
            fail(f"merge_circuit neither refused nor applied {g.name}", q)


# ---------------------------------------------------------------- C19 (single process, the distributed primitives replaced by recording stand-ins)
def m_swap():
    import types
    n = R.randint(2, 6)
    g = R.randint(1, min(n - 1, 3))
    P = 2 ** g
    L_ = n - g
    merged = None
    ver = R.choice(["v1", "v2"])
    qc = QuantumCircuit(n, n)
    for _ in range(R.randint(1, 14)):
        op = gen.instruction(R, n if R.random() < .1 else max(1, min(n, L_)), False)
        if R.random() < .1:
            qc.barrier(*R.sample(range(n), R.randint(1, n)))
        qc.append(op, R.sample(range(n), op.num_qubits))
    if R.random() < .15:
        mc = gen.unitary_circuit(R, n, length=4)
        with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
            e = PROV.get_backend("qasm_simulator").merge_circuit(mc)
        merged = Operator(mc).data
        at = R.randint(0, len(qc.data))
        rest = [(x.operation, x.qubits) for x in qc.data[at:]]
        del qc.data[at:]
        qc.append(QDDGate(n, e), list(range(n)))
        for o, q in rest:
            qc.append(o, q)
    allfit = all(len(x.qubits) <= L_ or x.operation.name == "barrier" for x in qc.data)
    if R.random() < .2:
        qc.global_phase = 1.0
    dynamic = R.random() < .3
    if dynamic:
        qc.measure(R.randrange(n), 0)
        qc.h(R.randrange(n)).c_if(0, 1)
        op = gen.instruction(R, max(1, min(n, L_)), False)
        qc.append(op, R.sample(range(n), op.num_qubits))
    log = []

    class Fake:
        def __getattr__(self, k):
            return getattr(pyQDD, k)

        def makeZeroStateMPI(self, q):
            return pyQDD.makeZeroState(q)

        def mv_multiply_MPI(self, gate, cur, nq, largest):
            log.append((largest, mask(gate, nq)))
            return pyQDD.mv_multiply(gate, cur)

        mv_multiply_MPI_bcast = mv_multiply_MPI

        def measureAllMPI(self, c, f):
            return pyQDD.measureAll(c, f)

        def measureOneCollapsingMPI(self, c, i, nq):
            log.append((i, frozenset({i})))
            return pyQDD.measureOneCollapsing(c, i)

        def getVectorMPI(self, c):
            return pyQDD.getVector(c)

    def mask(gate, nq):
        M = np.asarray(gate.getEigenMatrix(nq)).reshape([2] * (2 * nq))
        s = set()
        for q in range(nq):
            T = np.moveaxis(M, [nq - 1 - q, 2 * nq - 1 - q], [0, 1])
            if np.abs(T[0, 1]).max() > 1e-6 or np.abs(T[1, 0]).max() > 1e-6 or np.abs(T[0, 0] - T[1, 1]).max() > 1e-6:
                s.add(q)
        return frozenset(s)

    class Comm:
        def Get_size(self):
            return P

        def Get_rank(self):
            return 0

        def bcast(self, x, root=0):
            return x

    mod = types.ModuleType("mpi4py")
    mod.MPI = types.SimpleNamespace(COMM_WORLD=Comm())
    sys.modules["mpi4py"] = mod
    old = qdd_backend.pyQDD
    qdd_backend.pyQDD = Fake()
    b = PROV.get_backend("statevector_simulator")
    swaps = []
    hooks = {}
    # observe each exchange through the methods' own return values
    for name in ("do_swap_v1", "do_swap_v2"):
        if hasattr(type(b), name):
            f = getattr(b, name)

            def wrap(*a, _f=f, _n=name, **k):
                r = _f(*a, **k)
                swaps.append((_n, len(log), dict(r[3]), sorted(r[2])))
                return r
            hooks[name] = wrap
            setattr(b, name, wrap)
    try:
        res, err = run(b, qc, shots=1, use_mpi=True, use_auto_swap=True, swap_ver=ver, use_bcast=R.random() < .5)
    finally:
        qdd_backend.pyQDD = old
        for name in hooks:
            delattr(b, name)
    ok(res, err, qc, f"distributed run (2^{g} processes, exchange {ver})")
    sv = np.asarray(res.data(0)["statevector"])
    outs = ref.branches(qc, merged)
    best = min(np.abs(sv - s).max() for p, bt, s in outs)
    if best > 1e-8:
        fail(f"2^{g} processes, exchange strategy {ver}: state differs from the single-process one by {best}", qc)
    for nm, at, mp, loc in swaps:
        if sorted(mp) != list(range(n)) or sorted(mp.values()) != list(range(n)):
            fail(f"{nm}: recorded positions {mp} are not a permutation", qc)
    for largest, ms in log:
        if ms and largest < max(ms) and largest < L_ <= max(ms):
            fail(f"an operator on qubits {sorted(ms)} was applied as if its largest qubit were {largest} ({L_} local qubits)", qc)
    if allfit and "swap-locality" not in KF:
        # the operation that follows an exchange is local
        for nm, at, mp, loc in swaps:
            if at < len(log) and len(log[at][1]) <= L_ and log[at][1] and max(log[at][1]) >= L_:
                k = at
                fail(f"{nm}: the operation after the exchange acts on simulator qubits {sorted(log[at][1])}, only {L_} are local; positions {mp}", qc)
    distinct.add(str((n, g, ver, len(swaps), log)))


def probe_samp():
    """recorded finding: shots=None with operations after a measurement"""
    from qdd.qdd_sampler import Sampler
    qc = QuantumCircuit(2, 2)
    qc.h(0)
    qc.cx(0, 1)
    qc.measure(0, 0)
    qc.h(0)
    qc.measure(1, 1)
    with contextlib.redirect_stderr(quiet), contextlib.redirect_stdout(quiet):
        d = dict(Sampler(run_options={"shots": None}, skip_transpilation=True).run([qc]).result().quasi_dists[0])
    if all(abs(d.get(k, 0) - v) < 1e-9 for k, v in {0: .5, 1: 0, 2: 0, 3: .5}.items()):
        return
    if all(abs(d.get(k, 0) - .25) < 1e-9 for k in range(4)):
        sys.stderr.write("KNOWN exact-dynamic\n")
        return
    fail(f"shots=None, operation after a measurement: {d}", qc)


PROBES = dict(samp=probe_samp)
MODES = dict(circ=m_circ, bits=m_bits, dyn=m_dyn, opts=m_opts, est=m_est, samp=m_samp, merge=m_merge, swap=m_swap)


def main():
    global cases
    np.random.seed(seed % 2 ** 31)
    if mode in PROBES:
        PROBES[mode]()
    t0 = time.time()
    while time.time() - t0 < secs or cases < 3:
        st = R.getstate()
        try:
            MODES[mode]()
        except SystemExit:
            raise
        except Exception as e:
            fail(f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}")
        cases += 1
        if cases % 50 == 0:
            pyQDD.gc(pyQDD.makeZeroState(1), R.random() < .3)
    done(0)


main()
