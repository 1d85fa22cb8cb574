"""What the code talks to: Qiskit circuits, the pyQDD module, and operator / state terms with a normal form."""
import sys, os, types, random, cmath, math, importlib, importlib.abc, importlib.util
import z3
import engine as E
from engine import I, B, Rv, Dig, Obj, Term, Lam, View, VList, VDict, VSet, QComp, Sym, Undecided, PathEnd, zi, zb, mki, mkb, same
import numpy as np

INT = z3.IntSort()
Z = z3.Function
BC = Z("base_class", INT, INT)            # instruction k -> class number
NQ = Z("num_qargs", INT, INT)
QB = Z("qarg", INT, INT, INT)             # qubit index of operand j of instruction k
CB = Z("carg", INT, INT)                  # clbit index of the (single) classical operand
CK = Z("cond_kind", INT, INT)             # 0 none, 1 clbit, 2 register
CCB = Z("cond_clbit", INT, INT)
CV = Z("cond_val", INT, INT)
CREG = Z("cond_reg", INT, INT)
RSZ = Z("reg_size", INT, INT)
RB = Z("reg_bit", INT, INT, INT)
CTRL = Z("ctrl_state", INT, INT)
PAR = Z("param", INT, INT, z3.RealSort())
N, NC, LEN = z3.Int("num_qubits"), z3.Int("num_clbits"), z3.Int("circuit_length")


def lam(*a):
    return Lam(*a)


# ------------------------------------------------------------------------------------------------ instruction types
class Kinds:
    """supported classes: name -> (class, base matrix constructor, number of parameters, targets, controls)"""
    def __init__(self):
        import qiskit.circuit.library as L
        from qiskit.circuit import Barrier, Measure, Reset
        from qiskit.circuit.library import Initialize
        K = []

        def add(n, mat, npar, nt, nc):
            K.append(dict(cls=getattr(L, n), mat=mat, npar=npar, nt=nt, nc=nc, kind="gate", name=n))
        for n, m in (("HGate", "H"), ("IGate", "I"), ("SdgGate", "Sdag"), ("SGate", "S"), ("SXdgGate", "SXdag"), ("SXGate", "SX"), ("TdgGate", "Tdag"), ("TGate", "T"),
                     ("XGate", "X"), ("YGate", "Y"), ("ZGate", "Z")):
            add(n, m, 0, 1, 0)
        for n, m, c in (("CXGate", "X", 1), ("CYGate", "Y", 1), ("CZGate", "Z", 1), ("CSXGate", "SX", 1), ("CCXGate", "X", 2), ("C3XGate", "X", 3), ("C4XGate", "X", 4)):
            add(n, m, 0, 1, c)
        for c in (1, 2, 3, 4, 5, 6):
            add("MCXGate", "X", 0, 1, c)
        for n, m, c in (("RXGate", "rx", 0), ("RYGate", "ry", 0), ("RZGate", "rz", 0), ("PhaseGate", "p", 0), ("CPhaseGate", "p", 1), ("CU1Gate", "p", 1),
                        ("CRXGate", "rx", 1), ("CRYGate", "ry", 1), ("CRZGate", "rz", 1)):
            add(n, m, 1, 1, c)
        for c in (1, 2, 3, 4):
            add("MCPhaseGate", "p", 1, 1, c)
        add("RGate", "r", 2, 1, 0)
        add("UGate", "u", 3, 1, 0)
        add("CU3Gate", "u", 3, 1, 1)
        add("CUGate", "u", 4, 1, 1)
        for n, m, np_, c in (("SwapGate", "swap", 0, 0), ("iSwapGate", "iswap", 0, 0), ("CSwapGate", "swap", 0, 1), ("RXXGate", "rxx", 1, 0), ("RYYGate", "ryy", 1, 0),
                             ("RZZGate", "rzz", 1, 0), ("RZXGate", "rzx", 1, 0)):
            add(n, m, np_, 2, c)
        for t in (1, 2, 3, 4):
            K.append(dict(cls=L.UnitaryGate, mat="unitary", npar=0, nt=t, nc=0, kind="unitary", name="UnitaryGate"))
        for t in (1, 2, 4):
            K.append(dict(cls=None, mat="qdd", npar=1, nt=t, nc=0, kind="qdd", name="QDDGate"))
        K.append(dict(cls=Measure, kind="measure", nt=1, nc=0, npar=0, name="Measure"))
        for t in (1, 3):
            K.append(dict(cls=Barrier, kind="barrier", nt=t, nc=0, npar=0, name="Barrier"))
        K.append(dict(cls=Reset, kind="reset", nt=1, nc=0, npar=0, name="Reset"))
        for t in (1, 2):
            K.append(dict(cls=Initialize, kind="initialize", nt=t, nc=0, npar=2 ** t, name="Initialize"))
        from qiskit.circuit import Gate, Instruction

        class OtherGate(Gate):
            pass

        class OtherInstruction(Instruction):
            pass
        K.append(dict(cls=OtherGate, kind="other", nt=2, nc=0, npar=1, name="other gate"))
        K.append(dict(cls=OtherInstruction, kind="other", nt=1, nc=0, npar=0, name="other instruction"))
        K.append(dict(cls=L.RCCXGate, kind="maybe", nt=3, nc=0, npar=0, name="RCCXGate"))
        self.K = K


# ------------------------------------------------------------------------------------------------ operators
class Fac:
    """one factor: controlled gate, collapse, opaque operator, or phase"""
    def __init__(self, kind, mat=None, args=(), tgt=(), ctl=(), extra=None):
        self.kind, self.mat, self.args, self.tgt, self.ctl, self.extra = kind, mat, tuple(args), tuple(tgt), tuple(ctl), extra

    def qubits(self):
        return list(self.tgt) + [q for q, p in self.ctl]

    def __repr__(self):
        s = f"{self.mat or self.kind}{list(self.args) if self.args else ''} on {list(self.tgt)}"
        if self.ctl:
            s += " controlled by " + ", ".join(f"{q}{'' if p else '=0'}" for q, p in self.ctl)
        return s


class Op(Sym):
    """product of factors, first factor acts first"""
    def __init__(self, fs):
        self.fs = tuple(fs)

    def __repr__(self):
        return f"Op{list(self.fs)}"
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self is o


class State(Sym):
    """factors applied to a base state"""
    def __init__(self, base, fs=()):
        self.base, self.fs = base, tuple(fs)

    def __repr__(self):
        return f"State<{self.base}>{list(self.fs)}"
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self is o


class Mat(Sym):
    def __init__(self, name, args=(), nt=1):
        self.name, self.args, self.nt = name, tuple(args), nt

    def __repr__(self):
        return f"{self.name}{list(self.args)}"
    __hash__ = Sym.__hash__


def real(x):
    if type(x) is Rv:
        return x.z
    if type(x) in (I, B):
        return z3.ToReal(zi(x))
    if isinstance(x, (int, float)) and not isinstance(x, Sym):
        return z3.RealVal(repr(x)) if isinstance(x, float) else z3.RealVal(x)
    raise Undecided(f"real number expected, not {x!r}")


SYMM = {"swap", "iswap", "rxx", "ryy", "rzz"}


def eqi(a, b):
    """True / False / None whether two qubit indexes are equal on this path"""
    C = E.CTX
    z = z3.simplify(zi(a) == zi(b))
    if z3.is_true(z) or C.proved(z):
        return True
    if z3.is_false(z) or C.proved(z3.Not(z)):
        return False
    return None


def reduce(fs):
    """normal form of a sequence of factors"""
    fs = [f for f in fs if not (f.kind == "gate" and f.mat == "I" and not f.args)]
    changed = True
    while changed:
        changed = False
        for i, f in enumerate(fs):
            if not (f.kind == "gate" and f.mat == "X" and not f.ctl and not f.args):
                continue
            q = f.tgt[0]
            flips = []
            ok = None
            for j in range(i + 1, len(fs)):
                g = fs[j]
                if g.kind == "gate" and g.mat == "X" and not g.ctl and eqi(g.tgt[0], q):
                    ok = j
                    break
                if g.kind != "gate":
                    break
                e = [eqi(t, q) for t in g.tgt]
                if any(x is None or x for x in e):
                    break
                c = [eqi(t, q) for t, p in g.ctl]
                if any(x is None for x in c):
                    break
                if any(c):
                    flips.append((j, c.index(True)))
            if ok is not None and flips:
                for j, c in flips:
                    g = fs[j]
                    ctl = list(g.ctl)
                    p = ctl[c][1]
                    ctl[c] = (ctl[c][0], (not p) if isinstance(p, bool) else mkb(z3.Not(zb(p))))
                    fs[j] = Fac("gate", g.mat, g.args, g.tgt, ctl, g.extra)
                del fs[ok], fs[i]
                changed = True
                break
            if ok is not None and not flips and ok == i + 1:
                del fs[ok], fs[i]
                changed = True
                break
    return fs


# ------------------------------------------------------------------------------------------------ textbook matrices
def matrix(name, a, nt, key=None):
    i = 1j
    e = cmath.exp
    c, s = (lambda t: math.cos(t / 2)), (lambda t: math.sin(t / 2))
    one = {"I": [[1, 0], [0, 1]], "H": [[1 / 2 ** .5, 1 / 2 ** .5], [1 / 2 ** .5, -1 / 2 ** .5]], "X": [[0, 1], [1, 0]], "Y": [[0, -i], [i, 0]], "Z": [[1, 0], [0, -1]],
           "S": [[1, 0], [0, i]], "Sdag": [[1, 0], [0, -i]], "T": [[1, 0], [0, e(i * math.pi / 4)]], "Tdag": [[1, 0], [0, e(-i * math.pi / 4)]],
           "SX": [[(1 + i) / 2, (1 - i) / 2], [(1 - i) / 2, (1 + i) / 2]], "SXdag": [[(1 - i) / 2, (1 + i) / 2], [(1 + i) / 2, (1 - i) / 2]],
           "V": [[1 / 2 ** .5, -i / 2 ** .5], [-i / 2 ** .5, 1 / 2 ** .5]], "Vdag": [[1 / 2 ** .5, i / 2 ** .5], [i / 2 ** .5, 1 / 2 ** .5]]}
    if name in one:
        return np.array(one[name], complex)
    if name == "rx":
        return np.array([[c(a[0]), -i * s(a[0])], [-i * s(a[0]), c(a[0])]])
    if name == "ry":
        return np.array([[c(a[0]), -s(a[0])], [s(a[0]), c(a[0])]], complex)
    if name == "rz":
        return np.array([[e(-i * a[0] / 2), 0], [0, e(i * a[0] / 2)]])
    if name == "p":
        return np.array([[1, 0], [0, e(i * a[0])]])
    if name == "r":
        t, p = a
        return np.array([[c(t), -i * e(-i * p) * s(t)], [-i * e(i * p) * s(t), c(t)]])
    if name == "u":
        t, p, l, g = a
        return e(i * g) * np.array([[c(t), -e(i * l) * s(t)], [e(i * p) * s(t), e(i * (p + l)) * c(t)]])
    if name == "swap":
        return np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], complex)
    if name == "iswap":
        return np.array([[1, 0, 0, 0], [0, 0, i, 0], [0, i, 0, 0], [0, 0, 0, 1]], complex)
    X, Y, Zm = (matrix(k, (), 1) for k in "XYZ")
    if name in ("rxx", "ryy", "rzz", "rzx"):
        # operand order of makeTwoQubitGate in this code base: (q[-1], q[-2]); the first operand is the high factor of the matrix
        P = {"rxx": np.kron(X, X), "ryy": np.kron(Y, Y), "rzz": np.kron(Zm, Zm), "rzx": np.kron(X, Zm)}[name]
        return math.cos(a[0] / 2) * np.eye(4) - i * math.sin(a[0] / 2) * P
    rs = np.random.RandomState(abs(hash((name, key))) % (2 ** 31))
    m = rs.randn(2 ** nt, 2 ** nt) + 1j * rs.randn(2 ** nt, 2 ** nt)
    q, r = np.linalg.qr(m)
    return q


def dense(fs, n, ev):
    """matrix of the product of factors on n qubits; ev evaluates symbolic numbers"""
    U = np.eye(2 ** n, dtype=complex)
    for f in fs:
        if f.kind == "phase":
            U = U * cmath.exp(1j * ev(f.args[0]))
            continue
        if f.kind == "coll":
            q, o = ev(f.tgt[0]), ev(f.extra)
            P = np.diag([1.0 if (x >> q) & 1 == o else 0.0 for x in range(2 ** n)])
            U = P @ U
            continue
        if f.kind == "opaque":
            U = matrix("opaque", (), n, repr(f.extra)) @ U
            continue
        t = [ev(x) for x in f.tgt]
        c = [(ev(q), bool(ev(p)) if not isinstance(p, bool) else p) for q, p in f.ctl]
        a = [ev(x) for x in f.args]
        if len(set(t + [q for q, p in c])) != len(t) + len(c):
            raise Undecided("operands coincide")
        M = matrix(f.mat, a, len(t), f.extra)
        G = np.zeros((2 ** n, 2 ** n), dtype=complex)
        order = t if f.mat == "unitary" else t[::-1]     # bit j of the matrix index
        for x in range(2 ** n):
            if not all(((x >> q) & 1) == int(p) for q, p in c):
                G[x, x] = 1
                continue
            col = sum(((x >> q) & 1) << j for j, q in enumerate(order))
            base = x
            for q in order:
                base &= ~(1 << q)
            for row in range(2 ** len(t)):
                y = base | sum(((row >> j) & 1) << q for j, q in enumerate(order))
                G[y, x] += M[row, col]
        U = G @ U
    return U


def fac_same(f, g):
    """z3 condition for equal factors, or None"""
    if f.kind != g.kind or f.mat != g.mat or len(f.args) != len(g.args) or len(f.tgt) != len(g.tgt) or len(f.ctl) != len(g.ctl):
        return None
    if f.kind in ("opaque",) or (f.mat in ("unitary",)):
        e = same(f.extra, g.extra)
        if e is None:
            return None
        cs = [e]
    else:
        cs = []
    cs += [real(a) == real(b) for a, b in zip(f.args, g.args)]
    if f.kind == "coll":
        cs.append(zi(f.extra) == zi(g.extra))
    # operands
    def perm(A, Bs):
        if not A:
            return z3.BoolVal(True)
        out = []
        for i in range(len(Bs)):
            out.append(z3.And(zi(A[0]) == zi(Bs[i]), perm(A[1:], Bs[:i] + Bs[i + 1:])))
        return z3.Or(*out)
    if f.mat in SYMM:
        cs.append(perm(list(f.tgt), list(g.tgt)))
    else:
        cs += [zi(a) == zi(b) for a, b in zip(f.tgt, g.tgt)]

    def permc(A, Bs):
        if not A:
            return z3.BoolVal(True)
        # pair with the syntactically equal qubit when there is one
        for i in range(len(Bs)):
            if z3.is_true(z3.simplify(zi(A[0][0]) == zi(Bs[i][0]))):
                return z3.And(zb(A[0][1]) == zb(Bs[i][1]), permc(A[1:], Bs[:i] + Bs[i + 1:]))
        out = []
        for i in range(len(Bs)):
            out.append(z3.And(zi(A[0][0]) == zi(Bs[i][0]), zb(A[0][1]) == zb(Bs[i][1]), permc(A[1:], Bs[:i] + Bs[i + 1:])))
        return z3.Or(*out)
    cs.append(permc(list(f.ctl), list(g.ctl)))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def ops_equal(label, got, want, allow_phase=False):
    """prove that two factor sequences are the same operator; decisive difference -> failed obligation; otherwise undecided"""
    C = E.CTX
    a, b = reduce(list(got)), reduce(list(want))
    if len(a) == len(b):
        cs = [fac_same(f, g) for f, g in zip(a, b)]
        if all(c is not None for c in cs):
            if C.proved(z3.And(*cs) if cs else z3.BoolVal(True)):
                C.results.append((label, True, "", None))
                return
    # numeric comparison at a model of the path condition
    rnd = random.Random(1)
    tries = 0
    extra = [N <= 6]
    cs = [c for c in ([fac_same(f, g) for f, g in zip(a, b)] if len(a) == len(b) else []) if c is not None]
    if cs:
        if C.check(z3.And(N <= 6, z3.Not(z3.And(*cs)))) == z3.sat:
            extra.append(z3.Not(z3.And(*cs)))
    for t in range(4):
        C.solver.push()
        C.solver.add(*extra)
        ok = False
        reals = [x for f in list(a) + list(b) for x in f.args]
        leaf = sorted({s for f in list(a) + list(b) for x in f.args for s in leaves(real(x))}, key=str)
        for lf in leaf:
            C.solver.push()
            C.solver.add(lf == z3.RealVal(round(rnd.uniform(-3, 3), 3)))
            if C.solver.check() != z3.sat:
                C.solver.pop()
        if C.solver.check() == z3.sat:
            m = C.solver.model()
            ok = True
        while C.solver.num_scopes() > 0:
            C.solver.pop()
        if not ok:
            break

        def ev(x):
            if isinstance(x, bool) or (isinstance(x, (int, float)) and not isinstance(x, Sym)):
                return x
            z = x.z if isinstance(x, Sym) else x
            v = m.eval(z, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(10).as_fraction())
            raise Undecided("model value")
        n = ev(I(N))
        if not 1 <= n <= 6:
            break
        try:
            A, Bm = dense(a, n, ev), dense(b, n, ev)
        except (IndexError, OverflowError, ValueError):
            break
        d = abs(A - Bm).max()
        if d > 1e-6:
            vals = {str(s): ev(Rv(s)) for s in leaf}
            C.results.append((label, False, f"the operators differ by {d:.3g} on {n} qubits; applied {show(a, ev)}, expected {show(b, ev)}; parameters {vals}", C.trace()))
            return
        tries += 1
    raise Undecided(f"{label}: {a} and {b} not comparable")


def leaves(z):
    out, st, seen = [], [z], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.RealSort():
            out.append(e)
        else:
            st += e.children()
    return out


def show(fs, ev):
    o = []
    for f in fs:
        s = f"{f.mat or f.kind}"
        if f.args:
            s += "(" + ", ".join(f"{ev(a):.3g}" for a in f.args) + ")"
        s += " on " + ",".join(str(ev(q)) for q in f.tgt)
        if f.ctl:
            s += " controls " + ",".join(f"{ev(q)}{'' if (p if isinstance(p, bool) else ev(p)) else '(open)'}" for q, p in f.ctl)
        o.append(s)
    return "[" + "; ".join(o) + "]"


# ------------------------------------------------------------------------------------------------ pyQDD
class mEdge:
    pass


class vEdge:
    pass


class PyQDD(types.ModuleType):
    """the bound C++ functions by their contracts (C01-C15)"""
    mEdge, vEdge = mEdge, vEdge

    def __init__(self):
        super().__init__("qdd.pyQDD")
        self.__dict__["calls"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self, "f_" + n, None) if not n.startswith("f_") else None
        if f is None:
            if n.startswith("f_"):
                raise AttributeError(n)
            def unknown(*a, **k):
                raise Undecided(f"pyQDD.{n} has no contract")
            return unknown
        return f

    # matrices
    def f_rxmat(self, a): return Mat("rx", (a,))
    def f_rymat(self, a): return Mat("ry", (a,))
    def f_rzmat(self, a): return Mat("rz", (a,))
    def f_p(self, a): return Mat("p", (a,))
    def f_u1(self, a): return Mat("p", (a,))
    def f_u2(self, a, b): return Mat("u", (math.pi / 2, a, b, 0))
    def f_u3(self, a, b, c): return Mat("u", (a, b, c, 0))
    def f_u(self, a, b, c, d): return Mat("u", (a, b, c, d))
    def f_r(self, a, b): return Mat("r", (a, b))
    def f_swapmat(self): return Mat("swap", (), 2)
    def f_iswapmat(self): return Mat("iswap", (), 2)
    def f_rxxmat(self, a): return Mat("rxx", (a,), 2)
    def f_ryymat(self, a): return Mat("ryy", (a,), 2)
    def f_rzzmat(self, a): return Mat("rzz", (a,), 2)
    def f_rzxmat(self, a): return Mat("rzx", (a,), 2)

    def f_makeGate(self, n, m, t, c=()):
        if isinstance(m, str) and not isinstance(m, Sym):
            m = Mat(m)
        if type(m) is not Mat or m.nt != 1:
            raise Undecided(f"makeGate with {m!r}")
        self._size(n)
        c = [(q, True) for q in list(c if not isinstance(c, Sym) or type(c) is VList else c)]
        self._operands([t] + [q for q, p in c])
        return Op([Fac("gate", m.name, m.args, (t,), c)])

    def f_makeTwoQubitGate(self, n, m, t0, t1, c=()):
        if type(m) is not Mat or m.nt != 2:
            raise Undecided(f"makeTwoQubitGate with {m!r}")
        self._size(n)
        c = [(q, True) for q in list(c)]
        self._operands([t0, t1] + [q for q, p in c])
        return Op([Fac("gate", m.name, m.args, (t0, t1), c)])

    def f_unitary(self, n, m, ts):
        self._size(n)
        ts = list(ts)
        self._operands(ts)
        return Op([Fac("gate", "unitary", (), ts, (), m)])

    def f_SWAP(self, n, a, b):
        self._size(n)
        self._operands([a, b])
        return Op([Fac("gate", "swap", (), (a, b))])

    def _size(self, n):
        E.CTX.prove(zi(n) == N, E.CTX.spec.lab("precondition of the gate constructors: the register size is that of the circuit"))

    def _operands(self, qs):
        cs = [z3.And(zi(q) >= 0, zi(q) < N) for q in qs]
        cs += [zi(a) != zi(b) for i, a in enumerate(qs) for b in qs[:i]]
        E.CTX.prove(z3.And(*cs), E.CTX.spec.lab("precondition of the gate constructors: operands in range and distinct"))

    # products
    def f_mm_multiply(self, a, b):
        if type(a) is not Op or type(b) is not Op:
            raise Undecided("mm_multiply of other values")
        return Op(b.fs + a.fs)

    def f_mv_multiply(self, g, s):
        g = E.CTX.spec.asop(g)
        if type(g) is not Op or type(s) is not State:
            raise Undecided("mv_multiply of other values")
        if getattr(E.CTX.spec, "mpi", False):
            E.CTX.fact(False, "C19 a distributed state is changed by the distributed product")
        return State(s.base, s.fs + g.fs)

    def f_gc(self, s, *a): return s
    def f_gc_mat(self, s, *a): return s
    def f_clear_cache(self, *a): return None

    def f_applyGlobal(self, s, p):
        f = Fac("phase", None, (p,))
        return Op(s.fs + (f,)) if type(s) is Op else State(s.base, s.fs + (f,))

    def f_makeZeroState(self, n):
        E.CTX.prove(zi(n) == N, E.CTX.spec.lab("the initial state has the circuit's qubits"))
        return State("zero")

    def f_measureOneCollapsing(self, s, q):
        E.CTX.prove(z3.And(zi(q) >= 0, zi(q) < N), E.CTX.spec.lab("precondition of measurement: qubit in range"))
        o = E.CTX.int("outcome")
        E.CTX.assume(z3.And(o.z >= 0, o.z <= 1))
        return (State(s.base, s.fs + (Fac("coll", None, (), (q,), (), o),)), Dig(o.z))

    def f_measureOne(self, s, q):
        return (s, Rv(z3.Real(E.CTX.fresh("p0"))))

    def f_measureAll(self, s, collapse=False, *a):
        w = Z(E.CTX.fresh("sample"), INT, INT)
        E.CTX.spec.sampled(s, w)
        j = z3.Int(E.CTX.fresh("mj"))
        E.CTX.assume(z3.ForAll([j], z3.And(w(j) >= 0, w(j) <= 1)))
        l = Lam(I(N), lambda i: Dig(w(z3.simplify(N - 1 - zi(i)))), "sample")
        return (s, l)

    def f_probabilities(self, s):
        P = E.CTX.spec.probfun(s)
        return Lam(I(E.POW2(N)), lambda i: Rv(P(zi(i))), "probabilities")

    def f_getVector(self, s): return Term("vector", s)
    def f_get_nNodes(self, s): return E.CTX.int("nodes")
    def f_set_seed(self, s): E.CTX.spec.event("set_seed", s)
    def f_initMT(self, n): E.CTX.spec.event("initMT", n)
    def f_terminateMT(self): E.CTX.spec.event("terminateMT")

    # distributed form: the same functions on the distributed state (C20)
    def f_makeZeroStateMPI(self, n): return self.f_makeZeroState(n)

    def f_mv_multiply_MPI(self, g, s, n, top):
        E.CTX.prove(zi(n) == N, E.CTX.spec.lab("C19 the distributed product is told the circuit's size"))
        g = E.CTX.spec.asop(g)
        if type(g) is not Op or type(s) is not State:
            raise Undecided("mv_multiply_MPI of other values")
        cs = [zi(q) <= zi(top) for f in g.fs for q in f.qubits()]
        cs.append(zi(top) < N)
        if any(f.kind == "relayout" for f in g.fs):
            cs.append(zi(top) == N - 1)
        E.CTX.prove(z3.And(*cs), E.CTX.spec.lab("C19 the distributed product is told the highest position the operation touches"))
        return State(s.base, s.fs + g.fs)

    def f_mv_multiply_MPI_bcast(self, g, s, n, top): return self.f_mv_multiply_MPI(g, s, n, top)

    def f_measureOneCollapsingMPI(self, s, q, n): return self.f_measureOneCollapsing(s, q)
    def f_measureOneMPI(self, s, q, n): return self.f_measureOne(s, q)
    def f_measureAllMPI(self, s, *a): return self.f_measureAll(s, *a)
    def f_probabilitiesMPI(self, s): return self.f_probabilities(s)
    def f_getVectorMPI(self, s): return Term("vector", s)


# ------------------------------------------------------------------------------------------------ the package under verification
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        if not name.startswith("qdd."):
            return None
        p = os.path.join(self.root, *name.split(".")) + ".py"
        if os.path.exists(p):
            s = importlib.util.spec_from_loader(name, self, origin=p)
            return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        p = m.__spec__.origin
        g = E.load(p, m.__name__, {}, "qdd")
        m.__dict__.update(g)
        # functions keep g as their globals: overrides must go there
        m.__dict__["__vcglobals__"] = g


def package(repo):
    q = types.ModuleType("qdd")
    q.__path__ = [os.path.join(repo, "qdd")]
    q.__version__ = "0"
    import re
    t = open(os.path.join(repo, "qdd/__init__.py")).read()
    for mm in re.finditer(r"^(__\w+__)\s*=\s*[\"']([^\"']*)", t, re.M):
        setattr(q, mm.group(1), mm.group(2))
    py = PyQDD()
    q.pyQDD = py
    sys.modules["qdd"] = q
    sys.modules["qdd.pyQDD"] = py
    sys.meta_path.insert(0, Finder(repo))
    return q, py
