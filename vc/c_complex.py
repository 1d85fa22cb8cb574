"""Complex arithmetic and comparison (C24), for all real components; division for a non-zero divisor."""
from fractions import Fraction
import z3
from ir import Unsupported
from poly import Poly, Atoms, ZERO, ONE, IU, sqrt_of
from contract import *

TIGHT = Poly.const(Fraction(1, 10 ** 9))


class Cx(Contract):
    def __init__(self, name, n, spec, ret="c", req=None):
        self.name, self.n, self.spec, self.ret, self.req = name, n, spec, ret, req
        self.retk = None

    def matches(self, dem):
        return basename(dem) == self.name

    def requires(self, T, st, a):
        return self.req(T, st, *[x.val for x in a]) if self.req else []

    def formals(self, vc, st, fn):
        vc.th.fork_fabs = True
        return super().formals(vc, st, fn)

    def read_result(self, vc, st, ret, v):
        if self.ret == "c":
            return v[0] + v[1] * IU
        return v

    def ensures(self, T, st, a, r):
        x = [y.val for y in a]
        if self.ret == "c":
            return [Q("result is the exact complex number", r - self.spec(*x))]
        if self.ret == "d":
            return [Q("result is the exact real number", r - self.spec(*x))]
        rb = z3.BoolVal(r) if isinstance(r, bool) else r if z3.is_bool(r) else (r != 0) if z3.is_expr(r) else z3.BoolVal(bool(r))
        return [B(l, c) for l, c in self.spec(T, st, rb, *x)]


def within(T, st, p, eps):
    """|Re p|, |Im p| <= eps as linear arithmetic"""
    out = []
    for q in (p.re(), p.im()):
        l = T.lin(st, q)
        out += [l <= T.lin(st, eps), -l <= T.lin(st, eps)]
    return z3.And(*out)


def exact(T, st, p):
    return z3.And(T.lin(st, p.re()) == 0, T.lin(st, p.im()) == 0)


def s_eq(T, st, r, a, b):
    return [("weights that differ by more than 1e-9 are not treated as equal", z3.Implies(r, within(T, st, a - b, TIGHT))),
            ("identical weights are treated as equal", z3.Implies(exact(T, st, a - b), r))]


def s_true(T, st, r, *x):
    return [("the two comparisons agree", r)]


def s_exact(T, st, r, a, b):
    return [("exact comparison", r == exact(T, st, a - b))]


nz = lambda T, st, *x: [B("divisor is not zero", z3.Not(T.Z(st, x[-1])))]
C2 = [("vp_add", lambda a, b: a + b), ("vp_sub", lambda a, b: a - b), ("vp_mul", lambda a, b: a * b), ("vp_addto", lambda a, b: a + b), ("vp_subto", lambda a, b: a - b),
      ("vp_multo", lambda a, b: a * b)]


def mag(a):
    return a * a.conj()


def contracts():
    out = [Cx(n, 2, f) for n, f in C2]
    out += [Cx("vp_div", 2, lambda a, b: a * b.inv(), req=nz), Cx("vp_divto", 2, lambda a, b: a * b.inv(), req=nz)]
    out += [Cx("vp_add_self", 1, lambda a: a + a), Cx("vp_sub_self", 1, lambda a: ZERO), Cx("vp_mul_self", 1, lambda a: a * a), Cx("vp_div_self", 1, lambda a: ONE, req=nz),
            Cx("vp_convert", 1, lambda a: a)]
    out += [Cx("vp_mag2", 1, mag, "d"), Cx("vp_norm2", 1, mag, "d"), Cx("vp_norm", 1, lambda a: sqrt_of(mag(a)), "d"), Cx("vp_real", 1, lambda a: a.re(), "d"),
            Cx("vp_imag", 1, lambda a: a.im(), "d")]
    out += [Cx("vp_eq", 2, s_eq, "b"), Cx("vp_zero", 1, lambda T, st, r, a: s_eq(T, st, r, a, ZERO), "b"), Cx("vp_one", 1, lambda T, st, r, a: s_eq(T, st, r, a, ONE), "b"),
            Cx("vp_zero_agrees", 1, s_true, "b"), Cx("vp_one_agrees", 1, s_true, "b"), Cx("vp_symmetric", 2, s_true, "b"),
            Cx("vp_exact", 2, s_exact, "b"), Cx("vp_exact_std", 2, s_exact, "b"),
            Cx("vp_exactzero", 1, lambda T, st, r, a: s_exact(T, st, r, a, ZERO), "b"), Cx("vp_exactone", 1, lambda T, st, r, a: s_exact(T, st, r, a, ONE), "b")]
    return out
