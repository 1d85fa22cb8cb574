"""Dense reference semantics: exact outcome distribution of a circuit with measurements, resets and conditions, by branching.
Gate matrices come from Qiskit (Instruction.to_matrix / Operator), never from the code under test."""
import numpy as np
from qiskit.circuit import Clbit, Barrier, Measure, Reset
from qiskit.quantum_info import Operator


def apply(psi, mat, qs, n):
    """psi: array of 2**n amplitudes (little endian); mat acts on qs (qs[0] = least significant)"""
    k = len(qs)
    t = psi.reshape([2] * n)
    ax = [n - 1 - q for q in reversed(qs)]
    t = np.moveaxis(t, ax, range(k))
    sh = t.shape
    t = (mat @ t.reshape(2 ** k, -1)).reshape(sh)
    t = np.moveaxis(t, range(k), ax)
    return np.ascontiguousarray(t).reshape(-1)


def matrix(inst):
    try:
        return np.asarray(inst.to_matrix())
    except Exception:
        return Operator(inst).data


def holds(cond, bits, cid):
    c, v = cond
    if isinstance(c, Clbit):
        return bits[cid[c]] == int(v)
    return sum(bits[cid[b]] << k for k, b in enumerate(c)) == int(v)


def branches(circ, merged=None):
    """list of (probability, bits tuple by clbit index, state)"""
    n, m = circ.num_qubits, circ.num_clbits
    qid = {q: i for i, q in enumerate(circ.qubits)}
    cid = {c: i for i, c in enumerate(circ.clbits)}
    psi = np.zeros(2 ** n, complex)
    psi[0] = 1
    br = [(1.0, (0,) * m, psi)]
    idx = np.arange(2 ** n)
    for inst, qa, ca in [(x.operation, x.qubits, x.clbits) for x in circ.data]:
        bc = inst.base_class
        if bc is Barrier:
            continue
        out = []
        for p, bits, s in br:
            if getattr(inst, "condition", None) is not None and not holds(inst.condition, bits, cid):
                out.append((p, bits, s))
                continue
            if bc is Measure or bc is Reset:
                q = qid[qa[0]]
                for v in (0, 1):
                    sel = ((idx >> q) & 1) == v
                    pv = float(np.sum(np.abs(s[sel]) ** 2))
                    if pv < 1e-12:
                        continue
                    t = np.where(sel, s, 0) / np.sqrt(pv)
                    if bc is Measure:
                        b = list(bits)
                        b[cid[ca[0]]] = v
                        out.append((p * pv, tuple(b), t))
                    else:
                        if v:
                            t = apply(t, np.array([[0, 1], [1, 0]]), [q], n)
                        out.append((p * pv, bits, t))
            else:
                base = inst
                if getattr(inst, "condition", None) is not None:
                    base = inst.to_mutable()
                    base.condition = None
                out.append((p, bits, apply(s, merged if base.name == "qdd" else matrix(base), [qid[q] for q in qa], n)))
        br = out
    ph = np.exp(1j * float(circ.global_phase))
    return [(p, b, s * ph) for p, b, s in br]


def distribution(circ):
    d = {}
    for p, b, s in branches(circ):
        d[b] = d.get(b, 0) + p
    return d


def text(bits, circ):
    """outcome string as Result.get_counts prints it"""
    cid = {c: i for i, c in enumerate(circ.clbits)}
    return "".join(str(b) for b in reversed(bits))
