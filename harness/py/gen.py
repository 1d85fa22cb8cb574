"""Random circuits over the supported instructions (list written here, independent of the code under test)."""
import random, math
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, AncillaRegister
from qiskit.circuit import Qubit, Clbit
import qiskit.circuit.library as L
from qiskit.quantum_info import random_unitary

A = lambda r: r.choice([r.uniform(-7, 7), r.uniform(-0.3, 0.3), r.choice([0, math.pi, -math.pi / 2, math.pi / 4, 3 * math.pi, math.pi / 3])])
G1 = [L.HGate, L.IGate, L.SdgGate, L.SGate, L.SXdgGate, L.SXGate, L.TdgGate, L.TGate, L.XGate, L.YGate, L.ZGate]


def instruction(r, n, unitary=True):
    """a random supported instruction on at most n qubits"""
    while True:
        k = r.randrange(14)
        if k < 3:
            return r.choice(G1)()
        if k == 3:
            return r.choice([L.RXGate, L.RYGate, L.RZGate, L.PhaseGate])(A(r))
        if k == 4:
            return r.choice([lambda: L.RGate(A(r), A(r)), lambda: L.UGate(A(r), A(r), A(r))])()
        if k == 5 and n >= 2:
            return r.choice([L.CXGate, L.CYGate, L.CZGate, L.CSXGate])()
        if k == 6 and n >= 2:
            return r.choice([L.CPhaseGate, L.CU1Gate, L.CRXGate, L.CRYGate, L.CRZGate])(A(r))
        if k == 7 and n >= 2:
            return r.choice([lambda: L.CU3Gate(A(r), A(r), A(r)), lambda: L.CUGate(A(r), A(r), A(r), A(r))])()
        if k == 8 and n >= 2:
            return r.choice([L.SwapGate, L.iSwapGate])()
        if k == 9 and n >= 2:
            return r.choice([L.RXXGate, L.RYYGate, L.RZZGate, L.RZXGate])(A(r))
        if k == 10 and n >= 3:
            return r.choice([L.CCXGate, L.CSwapGate])()
        if k == 11 and n >= 3:
            c = r.randint(2, n - 1)
            return r.choice([lambda: L.MCXGate(c), lambda: L.MCPhaseGate(A(r), c)])()
        if k == 12 and n >= 4:
            return L.C3XGate() if n == 4 or r.random() < .5 else L.C4XGate()
        if k == 13 and unitary:
            m = r.randint(1, min(3, n))
            return L.UnitaryGate(random_unitary(2 ** m, seed=r.randrange(2 ** 31)))


def registers(r, n, m, loose=True):
    """a circuit with n qubits and m classical bits spread over registers and loose bits in random order"""
    parts = []
    q, c = n, m
    i = 0
    while q > 0 or c > 0:
        if q > 0 and (c == 0 or r.random() < .5):
            k = r.randint(1, q)
            parts.append(r.choice([lambda: QuantumRegister(k, f"q{i}"), lambda: AncillaRegister(k, f"a{i}")])())
            q -= k
        elif c > 0:
            k = r.randint(1, c)
            parts.append(ClassicalRegister(k, f"c{i}"))
            c -= k
        i += 1
    return QuantumCircuit(*parts, name=f"circ{r.randrange(1000)}")


def unitary_circuit(r, n, m=0, length=None, unitary=True, phase=True, simple=False):
    qc = registers(r, n, m)
    for _ in range(r.randint(1, 12) if length is None else length):
        g = instruction(r, n, unitary)
        qs = r.sample(range(n), g.num_qubits)
        qc.append(g, qs)
        if r.random() < .08:
            qc.barrier(*r.sample(range(n), r.randint(1, n)))
    if phase and r.random() < .6:
        qc.global_phase = A(r)
    return qc
