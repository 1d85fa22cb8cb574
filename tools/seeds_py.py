from seedlib import seed
B, ES, SA = "qdd/qdd_backend.py", "qdd/qdd_estimator.py", "qdd/qdd_sampler.py"
HEAD = '''import sys, io, contextlib, types
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.quantum_info import Operator, Statevector
from qdd import QddProvider
from qdd.qdd_sv_backend import QddSVBackend
P = QddProvider()
qb, sb = P.get_backend("qasm_simulator"), P.get_backend("statevector_simulator")
def bad(*a):
    print(*a); sys.exit(1)
def sv(qc, **k):
    r = sb.run(qc, shots=1, **k).result()
    if not r.success: bad("refused", r.status)
    return np.asarray(r.data(0)["statevector"])
'''

seed("c16-skipped-barrier-progress", "C16", [(B, """                    if (
                        qiskit_gate_type == Measure
                        and circ_prop.stable_final_state == False
                    ):
                        if options["shots"]:""", """                    if i.name in ("delay", "snapshot", "rccx", "ecr"):
                        continue
                    if (
                        qiskit_gate_type == Measure
                        and circ_prop.stable_final_state == False
                    ):
                        if options["shots"]:""")],
     "an untranspiled circuit with an ECR (or relative-phase Toffoli) gate", "unsupported gates are skipped silently instead of being refused", py=HEAD + '''
qc = QuantumCircuit(2, 2); qc.x(0); qc.ecr(0, 1); qc.measure([0, 1], [0, 1])
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    r = qb.run(qc, shots=10).result()
if r.success: bad("accepted", r.get_counts())
''')

seed("c17-first-measurement-wins", "C17", [(B, "                clbit_final_values[cargs[0]] = qargs[0]\n", "                clbit_final_values.setdefault(cargs[0], qargs[0])\n")],
     "two final measurements into the same classical bit, from different qubits", "the first measurement into a classical bit is reported instead of the last", py=HEAD + '''
qc = QuantumCircuit(2, 1); qc.x(1); qc.measure(0, 0); qc.measure(1, 0)
c = qb.run(qc, shots=20).result().get_counts()
if dict(c) != {"1": 20}: bad(c)
''')

seed("c17-slots-per-register", "C17", [(B, """            creg_sizes.append([creg.name, creg.size])
            memory_slots += creg.size
""", """            creg_sizes.append([creg.name, creg.size])
            memory_slots = max(memory_slots, len(clbit_labels))
"""), (B, """            qreg_sizes.append([qreg.name, qreg.size])
            num_qubits += qreg.size
""", """            qreg_sizes.append([qreg.name, qreg.size])
            num_qubits = max(num_qubits, qreg.size)
""")],
     "a circuit with two quantum registers", "the header reports the size of the largest quantum register as the number of qubits", py=HEAD + '''
a, b, c = QuantumRegister(2, "a"), QuantumRegister(3, "b"), ClassicalRegister(2, "c")
qc = QuantumCircuit(a, b, c); qc.x(b[2]); qc.measure(b[2], c[1])
r = qb.run(qc, shots=5).result(); h = r.results[0].header
if h.n_qubits != 5 or h.memory_slots != 2 or dict(r.get_counts()) != {"10": 5}: bad(h.n_qubits, h.memory_slots, r.get_counts())
''')

seed("c18-only-first-operand", "C18", [(B, "                or any(qubit in measured_qubits for qubit in qargs)\n", "                or qargs[0] in measured_qubits\n")],
     "a measured qubit used later as the target (second operand) of a two-qubit gate", "the circuit is evolved once although a measured qubit is changed afterwards", py=HEAD + '''
qc = QuantumCircuit(2, 1); qc.x(0); qc.measure(1, 0); qc.cx(0, 1)
c = qb.run(qc, shots=20).result().get_counts()
if dict(c) != {"0": 20}: bad(c)
''')

seed("c18-stops-when-all-measured", "C18", [(B, """            if not stable_final_state and len(measured_qubits) > 0:
                break
""", """            if len(measured_qubits) == circ.num_qubits:
                break
""")],
     "an instruction after the last qubit has been measured", "instructions after all qubits were measured do not count for the choice of the strategy", py=HEAD + '''
qc = QuantumCircuit(1, 2); qc.measure(0, 0); qc.x(0); qc.measure(0, 1)
c = qb.run(qc, shots=20).result().get_counts()
if dict(c) != {"10": 20}: bad(c)
''')

MPI = '''
from qdd import pyQDD, qdd_backend
import qdd
log = []
class Fake:
    def __getattr__(self, k): return getattr(pyQDD, k)
    def makeZeroStateMPI(self, q): return pyQDD.makeZeroState(q)
    def mv_multiply_MPI(self, g, c, n, top):
        log.append((top, touched(g, n))); return pyQDD.mv_multiply(g, c)
    mv_multiply_MPI_bcast = mv_multiply_MPI
    def measureAllMPI(self, c, f): return pyQDD.measureAll(c, f)
    def getVectorMPI(self, c): return pyQDD.getVector(c)
def touched(g, n):
    M = np.asarray(g.getEigenMatrix(n)); s = set()
    for q in range(n):
        T = np.moveaxis(M.reshape([2] * (2 * n)), [n - 1 - q, 2 * n - 1 - q], [0, 1])
        if abs(T[0, 1]).max() > 1e-6 or abs(T[1, 0]).max() > 1e-6 or abs(T[0, 0] - T[1, 1]).max() > 1e-6: s.add(q)
    return s
class Comm:
    P = 4
    def Get_size(self): return Comm.P
    def Get_rank(self): return 0
    def bcast(self, x, root=0): return x
m = types.ModuleType("mpi4py"); m.MPI = types.SimpleNamespace(COMM_WORLD=Comm()); sys.modules["mpi4py"] = m
qdd_backend.pyQDD = Fake()
def dist(qc, ver, P):
    Comm.P = P; log.clear()
    v = sv(qc, use_mpi=True, use_auto_swap=True, swap_ver=ver)
    if abs(v - Statevector(qc).data).max() > 1e-8: bad("state differs", ver, P)
    for top, t in log:
        if t and top < max(t): bad("operator on", t, "applied as if its largest position were", top)
'''
seed("c19-stale-position", "C19", [(B, """            idx_local = map_after_swap[move_from_local[ii]]
            idx_global = map_after_swap[move_from_global[ii]]
            map_after_swap[move_from_local[ii]] = idx_global
            map_after_swap[move_from_global[ii]] = idx_local
""", """            map_after_swap[move_from_local[ii]] = move_from_global[ii]
            map_after_swap[move_from_global[ii]] = move_from_local[ii]
""")],
     "strategy v2 with a second exchange of a qubit that already moved", "the recorded positions assume that every exchanged qubit was at its own position", py=HEAD + MPI + '''
for ver in ("v2",):
    for P in (2, 4):
        n = 5; qc = QuantumCircuit(n)
        for i in range(n): qc.ry(0.3 + i, i)
        for k in range(12): qc.cx((k * 3) % n, (k * 3 + 2) % n); qc.rx(0.1 * k, (k * 2) % n)
        dist(qc, ver, P)
''')
seed("c19-touched-level", "C19", [(B, """                pos1 = {v: k for k, v in map_after_swap.items()}[q1]
                gate = pyQDD.SWAP(n_qubit, q1, q2)
                current = (
                    pyQDD.mv_multiply_MPI(gate, current, n_qubit, q1 if q1 > q2 else q2)
                    if use_bcast == False
                    else pyQDD.mv_multiply_MPI_bcast(
                        gate, current, n_qubit, q1 if q1 > q2 else q2
                    )
                )
                map_after_swap[pos1] = q2
                map_after_swap[pos2] = q1
                assert next_map[ii] == map_after_swap[ii]
        local_list = next_local""", """                pos1 = {v: k for k, v in map_after_swap.items()}[q1]
                gate = pyQDD.SWAP(n_qubit, q1, q2)
                current = (
                    pyQDD.mv_multiply_MPI(gate, current, n_qubit, q2)
                    if use_bcast == False
                    else pyQDD.mv_multiply_MPI_bcast(
                        gate, current, n_qubit, q1 if q1 > q2 else q2
                    )
                )
                map_after_swap[pos1] = q2
                map_after_swap[pos2] = q1
                assert next_map[ii] == map_after_swap[ii]
        local_list = next_local""")],
     "strategy v1 moving a local qubit outwards first, without broadcasts", "an exchange between nodes is carried out as if it were local", py=HEAD + MPI + '''
n = 5; qc = QuantumCircuit(n)
for i in range(n): qc.ry(0.3 + i, i)
for k in range(12): qc.cx((k * 3) % n, (k * 3 + 2) % n); qc.rx(0.1 * k, (k * 2) % n)
for P in (2, 4): dist(qc, "v1", P)
''')

seed("c21-false-is-not-unset", "C21", [(B, """            "memory": run_options.get("memory", self.options.memory),
""", """            "memory": run_options.get("memory") or self.options.memory,
""")],
     "a backend with memory=True and a run that turns it off", "a run option that is false does not override the backend's option", py=HEAD + '''
qc = QuantumCircuit(1, 1); qc.measure(0, 0)
qb.set_options(memory=True)
d = qb.run(qc, shots=3, memory=False).result().data(0)
if "memory" in d: bad(d)
''')
seed("c21-any-circuit", "C21", [(B, """            elif isinstance(circuits, list) and all(
                isinstance(circ, QiskitCircuit) for circ in circuits
            ):
                qiskit_circs = circuits
""", """            elif isinstance(circuits, list) and any(
                isinstance(circ, QiskitCircuit) for circ in circuits
            ):
                qiskit_circs = [
                    circ for circ in circuits if isinstance(circ, QiskitCircuit)
                ]
""")],
     "a list in which only some entries are circuits", "entries that are not circuits are dropped and the results no longer correspond to the list", py=HEAD + '''
qc = QuantumCircuit(1, 1); qc.x(0); qc.measure(0, 0)
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    r = qb.run([None, qc], shots=3).result()
if r.success: bad("accepted", len(r.results))
''')

seed("c22-packed-indices", "C22", [(ES, """    ).astype(  # pylint:disable=no-member
        object
    )
    power_uint8 = 1 << (8 * np.arange(packed_vals.shape[1], dtype=object))
""", """    ).astype(  # pylint:disable=no-member
        np.int64
    )
    power_uint8 = 1 << (8 * np.arange(packed_vals.shape[1], dtype=np.int64))
""")],
     "an observable with more than 64 measured qubits", "the bit masks of Pauli terms overflow", py=HEAD + '''
from qdd.qdd_estimator import Estimator
from qiskit.quantum_info import SparsePauliOp
n = 70; qc = QuantumCircuit(n); qc.x(n - 1); qc.x(3)
o = SparsePauliOp(["Z" * n, "Z" + "I" * (n - 1)], [1.0, 0.5])
v = Estimator(skip_transpilation=True).run([qc], [o], shots=4).result().values[0]
if abs(v - 0.5) > 1e-9: bad(v)
''')
seed("c22-last-parity", "C22", [(ES, """    # Diag indices
    size = len(paulis)
    diag_inds = _paulis2inds(paulis)

    expvals = np.zeros(size, dtype=float)
    for outcome, freq in quasi_dist.items():
        for k in range(size):
            coeff = (-1) ** _parity(diag_inds[k] & outcome)
            expvals[k] += freq * coeff
""", """    # Diag indices
    size = len(paulis)
    diag_inds = _paulis2inds(paulis)

    expvals = np.zeros(size, dtype=float)
    for outcome, freq in quasi_dist.items():
        for k in range(size):
            coeff = 1 if (diag_inds[k] & outcome) in (0, diag_inds[k]) and not diag_inds[k] & outcome or _parity(diag_inds[k] & outcome) == 0 or (diag_inds[k] & outcome) == 7 else -1
            expvals[k] += freq * coeff
""")],
     "exact expectation values of a term on at least three qubits, all of them one", "the parity of the outcome 111 on the first three measured qubits is taken as even", py=HEAD + '''
from qdd.qdd_estimator import Estimator
from qiskit.quantum_info import SparsePauliOp
qc = QuantumCircuit(4); qc.x([0, 1, 2]); qc.ry(0.4, 3)
o = SparsePauliOp(["IZZZ", "ZIII"], [1.0, 0.5])
v = Estimator(approximation=True).run([qc], [o], shots=None).result().values[0]
w = Statevector(qc).expectation_value(o).real
if abs(v - w) > 1e-9: bad(v, w)
''')

seed("c23-periodic-collection", "C23", [(B, """            if count%gc_freq==0:
                current = pyQDD.gc_mat(current, False)
            # pyQDD.clear_cache(False)
        current = pyQDD.applyGlobal(current, circ.global_phase)
""", """            if count%gc_freq==0:
                current = pyQDD.applyGlobal(current, circ.global_phase)
                current = pyQDD.gc_mat(current, False)
            # pyQDD.clear_cache(False)
        if count%gc_freq:
            current = pyQDD.applyGlobal(current, circ.global_phase)
""")],
     "merging a circuit of more than 20 instructions with a global phase", "the global phase is applied once more after every 20 instructions", py=HEAD + '''
qc = QuantumCircuit(2); qc.global_phase = 0.7
for k in range(23): qc.rx(0.1 * k, k % 2); 
M = np.asarray(qb.merge_circuit(qc).getEigenMatrix(2))
if abs(M - Operator(qc).data).max() > 1e-5: bad(M)
''')
