"""Gate library (C10): matrix functions for every angle, header constants, whole-register constructors.

Angles are arbitrary reals.  cos, sin and exp(i x) are Laurent polynomials in the unit phases exp(i x/4); the specification below is Qiskit's
definition of each gate, written independently of the code."""
import itertools
from fractions import Fraction
import math
import z3
from ir import Unsupported
from poly import Poly, Atoms, ZERO, ONE, IU, sqrt_of
from exe import Ptr, NodePtr, PathEnd, conc, bv
from theory import E, NQ
from contract import *
import c_gate
from c_gate import CTL, GM, GM2

PIF = Fraction(math.pi)
RH = lambda: sqrt_of(Poly.const(Fraction(1, 2)))      # 1/sqrt(2)


def expi(p):
    """exp(i p) for a real polynomial p that is linear in its monomials with coefficients k/4"""
    if p.conj() != p:
        raise Unsupported("exponential of a complex angle")
    out = ONE
    for m, c in p.t.items():
        if c[1] != 0:
            raise Unsupported("complex angle")
        q = Fraction(c[0])
        if m == ():
            k = round(q / (PIF / 4))
            if abs(q - k * PIF / 4) > Fraction(1, 10 ** 14):
                a = Atoms.get("E", (f"const{q}",), "phase", f"e^(i{float(q)})")
                out = out * Poly.atom(a)
                continue
            k %= 8
            for _ in range(k // 2):
                out = out * IU
            if k % 2:
                out = out * (ONE + IU) * RH()
            continue
        e = q * 4
        if e.denominator != 1:
            raise Unsupported("angle is divided by " + str(q.denominator))
        x = "*".join(f"{Atoms.by[a].name}^{n}" for a, n in m)
        a = Atoms.get("E", (x,), "phase", f"e^(i{x}/4)")
        out = out * Poly.atom(a, int(e))
    return out


def pcos(p):
    e = expi(p)
    return (e + e.conj()).scale((Fraction(1, 2), 0))


def psin(p):
    e = expi(p)
    return (e - e.conj()).scale((0, Fraction(-1, 2)))


def h_exp(vc, st, vals, ins, dem):
    z = vc.rd_complex(st, vals[0])
    if not z.re().is0():
        raise Unsupported("exp of a number with a real part")
    w = expi(z.im())
    return [w.re(), w.im()]


def h_polar(vc, st, vals, ins, dem):
    r, t = [v if isinstance(v, Poly) else vc.ld(st, v, vc.DBL) for v in vals[:2]]
    w = r * expi(t)
    return [w.re(), w.im()]


def trig(f):
    def h(vc, st, vals, ins, dem):
        if not isinstance(vals[0], Poly):
            return NotImplemented
        return f(vals[0])
    return h


def lib():
    return [
        (r"(std::)?cos(\(double\))?$", trig(pcos), "std::cos, std::sin, std::exp of a real angle are the exact functions"),
        (r"(std::)?sin(\(double\))?$", trig(psin), "std::cos, std::sin, std::exp of a real angle are the exact functions"),
        (r"std::complex<double> std::exp<double>\(", h_exp, "std::cos, std::sin, std::exp of a real angle are the exact functions"),
        (r"std::complex<double> std::polar<double>\(", h_polar, "std::cos, std::sin, std::exp of a real angle are the exact functions"),
        (r"__muldc3$", lambda vc, st, v, i, d: (lambda w: [w.re(), w.im()])((v[0] + v[1] * IU) * (v[2] + v[3] * IU)), ""),
    ]


# ------------------------------------------------------------------ Qiskit's matrices
def diag(*d):
    n = len(d)
    return [d[i] if i == j else ZERO for i in range(n) for j in range(n)]


def S_rx(t):
    c, s = pcos(t * H), psin(t * H)
    return [c, -IU * s, -IU * s, c]


H = Poly.const(Fraction(1, 2))


def S_ry(t):
    c, s = pcos(t * H), psin(t * H)
    return [c, -s, s, c]


def S_rz(t):
    e = expi(t * H)
    return [e.conj(), ZERO, ZERO, e]


def S_u(t, f, l, g=ZERO):
    c, s = pcos(t * H), psin(t * H)
    k = expi(g)
    return [k * c, -k * expi(l) * s, k * expi(f) * s, k * expi(f + l) * c]


def S_p(l):
    return [ONE, ZERO, ZERO, expi(l)]


def S_u2(f, l):
    h = RH()
    return [h, -h * expi(l), h * expi(f), h * expi(f + l)]


def S_r(t, f):
    c, s = pcos(t * H), psin(t * H)
    return [c, -IU * expi(-f) * s, -IU * expi(f) * s, c]


def S_rxx(t):
    c, s = pcos(t * H), -IU * psin(t * H)
    z = ZERO
    return [c, z, z, s, z, c, s, z, z, s, c, z, s, z, z, c]


def S_ryy(t):
    c, s = pcos(t * H), IU * psin(t * H)
    z = ZERO
    return [c, z, z, s, z, c, -s, z, z, -s, c, z, s, z, z, c]


def S_rzz(t):
    e = expi(t * H)
    return diag(e.conj(), e, e, e.conj())


def S_rzx(t):
    # Qiskit RZXGate on (q0, q1): exp(-i t/2 X_{q1} Z_{q0}), basis |q1 q0>
    c, s = pcos(t * H), IU * psin(t * H)
    z = ZERO
    return [c, z, -s, z, z, c, z, s, -s, z, c, z, z, s, z, c]


def S_swap():
    o, z = ONE, ZERO
    return [o, z, z, z, z, z, o, z, z, o, z, z, z, z, z, o]


def S_iswap():
    o, z = ONE, ZERO
    return [o, z, z, z, z, z, IU, z, z, IU, z, z, z, z, z, o]


X = lambda: [ZERO, ONE, ONE, ZERO]
q4 = lambda a, b: Poly.const((Fraction(a, 2), Fraction(b, 2)))
CONST = {
    "I": lambda: diag(ONE, ONE), "H": lambda: [RH(), RH(), RH(), -RH()], "X": X, "Y": lambda: [ZERO, -IU, IU, ZERO], "Z": lambda: diag(ONE, -ONE),
    "S": lambda: diag(ONE, IU), "Sdag": lambda: diag(ONE, -IU), "T": lambda: diag(ONE, (ONE + IU) * RH()), "Tdag": lambda: diag(ONE, (ONE - IU) * RH()),
    "SX": lambda: [q4(1, 1), q4(1, -1), q4(1, -1), q4(1, 1)], "SXdag": lambda: [q4(1, -1), q4(1, 1), q4(1, 1), q4(1, -1)],
    "V": lambda: [RH(), -IU * RH(), -IU * RH(), RH()], "Vdag": lambda: [RH(), IU * RH(), IU * RH(), RH()],
}
D1 = ["double"]
MATS = [("rx", D1, S_rx), ("ry", D1, S_ry), ("rz", D1, S_rz), ("u3", D1 * 3, S_u), ("u1", D1, S_p), ("u2", D1 * 2, S_u2), ("u", D1 * 4, S_u), ("p", D1, S_p), ("r", D1 * 2, S_r),
        ("rxx_matrix", D1, S_rxx), ("ryy_matrix", D1, S_ryy), ("rzz_matrix", D1, S_rzz), ("rzx_matrix", D1, S_rzx), ("swap_matrix", [], S_swap), ("iswap_matrix", [], S_iswap)]


def near(p, q):
    """equal up to the rounding of literals (1/sqrt(2) is replaced by its double)"""
    d = p - q
    r = Poly.const(Fraction(math.sqrt(0.5)))
    for a in list(d.atoms()):
        at = Atoms.by[a]
        if at.info and at.info[0] == "sqrt" and at.info[1] == Poly.const(Fraction(1, 2)):
            d = d.subst(a, r)
    return d.near0(Fraction(1, 10 ** 15))


class Mat(Contract):
    retk = "sret"

    def __init__(self, name, params, spec, n):
        self.name, self.params, self.spec, self.n = name, params, spec, n

    def want(self, a):
        return self.spec(*[x.val for x in a])

    def result(self, T, st, a, ins=None):
        return self.want(a)

    def ensures(self, T, st, a, r):
        w = self.want(a)
        return [B(f"entry ({i // int(len(w) ** .5)}, {i % int(len(w) ** .5)}) is that of the textbook matrix", z3.BoolVal(near(r[i], w[i]))) for i in range(len(w))]

    def assume_post(self, vc, st, a, r):
        pass

    def read_result(self, vc, st, ret, v):
        return [vc.rd_complex(st, Ptr(ret.o, 16 * i)) for i in range(self.n)]

    def deliver(self, vc, st, ret, r):
        for i, w in enumerate(r):
            vc.wr_complex(st, vc.gepc(ret, 16 * i), w)
        return None


# ------------------------------------------------------------------ operators on a few qubits, as matrices
class Op:
    """operator on the qubits qs (qs[0] is the most significant bit of the index), identity elsewhere"""

    def __init__(self, qs, m):
        self.qs, self.m = qs, m


def bits(i, n):
    return [(i >> (n - 1 - j)) & 1 for j in range(n)]


def controlled(targets, mat, ctrls):
    """ctrls: [(qubit, positive)]"""
    qs = list(targets) + [q for q, p in ctrls]
    n, k = len(qs), len(targets)
    N = 2 ** n
    out = [ZERO] * (N * N)
    for i in range(N):
        for j in range(N):
            bi, bj = bits(i, n), bits(j, n)
            if bi[k:] != bj[k:]:
                continue
            if all(bi[k + x] == int(ctrls[x][1]) for x in range(len(ctrls))):
                ri = int("".join(map(str, bi[:k])), 2)
                ci = int("".join(map(str, bj[:k])), 2)
                out[i * N + j] = mat[ri * 2 ** k + ci]
            elif i == j:
                out[i * N + j] = ONE
    return Op(qs, out)


def align(vc, st, op, qs):
    """op as a matrix on the qubits qs (a superset of its own)"""
    pos = []
    for q in op.qs:
        i = next((i for i, x in enumerate(qs) if vc.th.prove_eq(st, bv(q, 32), bv(x, 32))), None)
        if i is None:
            return None
        pos.append(i)
    if len(set(pos)) != len(pos):
        return None
    n, k = len(qs), len(op.qs)
    N, K = 2 ** n, 2 ** k
    out = [ZERO] * (N * N)
    for i in range(N):
        for j in range(N):
            bi, bj = bits(i, n), bits(j, n)
            if any(bi[x] != bj[x] for x in range(n) if x not in pos):
                continue
            ri = int("".join(str(bi[x]) for x in pos), 2)
            ci = int("".join(str(bj[x]) for x in pos), 2)
            out[i * N + j] = op.m[ri * K + ci]
    return out


def opof(st, e):
    for w, ref, op in st.g.get("ops", ()):
        if e.n.ref.eq(ref) and e.w == w:
            return op
    return None


def setop(st, e, op):
    if op is not None:
        st.g = {**st.g, "ops": st.g.get("ops", ()) + ((e.w, e.n.ref, op),)}


def multiply(vc, st, a, b):
    x, y = opof(st, a), opof(st, b)
    if x is None or y is None:
        return None
    qs = list(x.qs)
    for q in y.qs:
        if not any(vc.th.prove_eq(st, bv(q, 32), bv(z, 32)) for z in qs):
            qs.append(q)
    if len(qs) > 4:
        return None
    A_, B_ = align(vc, st, x, qs), align(vc, st, y, qs)
    if A_ is None or B_ is None:
        return None
    N = 2 ** len(qs)
    return Op(qs, [sum((A_[i * N + k] * B_[k * N + j] for k in range(N)), ZERO) for i in range(N) for j in range(N)])


class Whole(Contract):
    """constructor of a whole-register operator"""
    retk = "m"

    def __init__(self, name, nt, spec, nc=0, angle=False):
        self.name = name
        self.params = ["unsigned int"] + ["int"] * (nt + nc) + (["double"] if angle else [])
        self.nt, self.ncl, self.spec, self.angle = nt, nc, spec, angle

    def requires(self, T, st, a):
        q = bv(a[0].val, 32)
        ts = [bv(x.val, 32) for x in a[1:1 + self.nt + self.ncl]]
        out = [B("register size", z3.And(q >= 1, q <= NQ))]
        for i, t in enumerate(ts):
            out.append(B(f"qubit {i} is in the register", z3.And(t >= 0, t < q)))
            for j in range(i):
                out.append(B("qubits differ", t != ts[j]))
        return out

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, "m", self.name)

    def want(self, a):
        ts = [x.val for x in a[1:1 + self.nt]]
        cs = [(x.val, True) for x in a[1 + self.nt:1 + self.nt + self.ncl]]
        return controlled(ts, self.spec(*[x.val for x in a[1 + self.nt + self.ncl:]]), cs)

    def ensures(self, T, st, a, r):
        w = self.want(a)
        l = z3.simplify(bv(a[0].val, 32) - 1)
        op = opof(st, r)
        if op is None:
            raise Unsupported("the operator is not built from gates")
        qs = list(op.qs)
        for q in w.qs:
            if not any(T.prove_eq(st, bv(q, 32), bv(x, 32)) for x in qs):
                qs.append(q)
        if len(qs) > 4:
            raise Unsupported("too many qubits")
        x, y = align(T.vc, st, op, qs), align(T.vc, st, w, qs)
        out = [B("result is a diagram on the register", T.valid(r, l))]
        ok = x is not None and y is not None and all(near(p, q) for p, q in zip(x, y))
        return out + [B("result is the textbook gate on the given qubits", z3.BoolVal(ok))]

    def assume_post(self, vc, st, a, r):
        l = z3.simplify(bv(a[0].val, 32) - 1)
        st.assume(vc.th.valid(r, l))
        setop(st, r, self.want(a))


WHOLE = [Whole("RX", 1, S_rx, angle=True), Whole("RY", 1, S_ry, angle=True), Whole("RZ", 1, S_rz, angle=True), Whole("CX", 1, X, nc=1),
         Whole("makeSwap", 2, S_swap), Whole("SWAP", 2, S_swap), Whole("ISWAP", 2, S_iswap), Whole("CSWAP", 2, S_swap, nc=1),
         Whole("RXX", 2, S_rxx, angle=True), Whole("RYY", 2, S_ryy, angle=True), Whole("RZZ", 2, S_rzz, angle=True), Whole("RZX", 2, S_rzx, angle=True)]


def lib_contracts():
    out = [Mat(n, p, s, 16 if "_matrix" in n else 4) for n, p, s in MATS]
    return out + WHOLE


def glue_contracts():
    return [Mat("vp_const_" + k, [], s, 4) for k, s in CONST.items()]
