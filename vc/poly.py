"""Laurent polynomials over the Gaussian rationals.

An atom stands for one complex number; every atom has a conjugate atom (a real atom is its own conjugate, a unit
phase exp(i x) has its own inverse as conjugate).  Machine doubles are represented by real-valued polynomials:
Re w = (w + w*)/2, Im w = (w - w*)/(2i).  A complex number stored as two doubles is read back as re + i*im, so code
that works component-wise turns into polynomial algebra in w and w* without losing anything.
Division by a monomial is a negative exponent; division by a sum introduces a fresh inverse atom (see Atoms.inv)."""
from fractions import Fraction


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], 0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    if a[1] == 0:
        return (Fraction(1) / a[0], 0)
    d = Fraction(a[0] * a[0] + a[1] * a[1])
    return (a[0] / d, -a[1] / d)


class Atom:
    __slots__ = ("id", "fam", "args", "conj", "kind", "name", "info")

    def __init__(self, id, fam, args, kind, name):
        self.id, self.fam, self.args, self.kind, self.name = id, fam, args, kind, name
        self.conj = id
        self.info = None


class Atoms:
    """global atom registry; kind in complex | real | phase | sqrt | inv"""
    by = []
    key = {}
    keepalive = []

    @classmethod
    def reset(cls):
        cls.by, cls.key, cls.keepalive = [], {}, []

    @classmethod
    def get(cls, fam, args=(), kind="complex", name=None):
        k = (fam, tuple(a.get_id() if hasattr(a, "get_id") else a for a in args))
        if k in cls.key:
            return cls.key[k]
        cls.keepalive.append(args)
        nm = name or (fam if not args else f"{fam}({', '.join(str(a) for a in args)})")
        a = Atom(len(cls.by), fam, args, kind, nm)
        cls.by.append(a)
        cls.key[k] = a.id
        if kind == "complex":
            b = Atom(len(cls.by), fam, args, "conj", nm + "*")
            cls.by.append(b)
            a.conj, b.conj = b.id, a.id
        elif kind == "phase":
            a.conj = None
        return a.id

    @classmethod
    def fresh(cls, name, kind="complex"):
        return cls.get(f"{name}#{len(cls.by)}", (), kind, f"{name}#{len(cls.by)}")


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def mpow(m, k):
    return tuple((a, e * k) for a, e in m)


def mconj(m):
    out = {}
    for a, e in m:
        c = Atoms.by[a].conj
        if c is None:
            c, e = a, -e
        out[c] = out.get(c, 0) + e
    return tuple(sorted((a, e) for a, e in out.items() if e))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        if isinstance(c, complex):
            c = (Fraction(c.real), Fraction(c.imag))
        elif not isinstance(c, tuple):
            c = (c, 0)
        return Poly({(): c} if c != (0, 0) else {})

    @staticmethod
    def atom(aid, e=1):
        return Poly({((aid, e),): (1, 0)})

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def is0(self):
        return not self.t

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), (0, 0))

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            if m in d:
                s = cadd(d[m], c)
                if s == (0, 0):
                    del d[m]
                else:
                    d[m] = s
            else:
                d[m] = c
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not self.t or not o.t:
            return Poly({})
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                c = cmul(c1, c2)
                if m in d:
                    c = cadd(d[m], c)
                    if c == (0, 0):
                        del d[m]
                        continue
                d[m] = c
        return Poly(d)

    __rmul__ = __mul__

    def scale(self, c):
        if c == (0, 0):
            return Poly({})
        return Poly({m: cmul(c, x) for m, x in self.t.items()})

    def conj(self):
        return Poly({mconj(m): (c[0], -c[1]) for m, c in self.t.items()})

    def re(self):
        return (self + self.conj()).scale((Fraction(1, 2), 0))

    def im(self):
        return (self - self.conj()).scale((0, Fraction(-1, 2)))

    def ismono(self):
        return len(self.t) == 1

    def inv(self):
        """inverse of a monomial"""
        (m, c), = self.t.items()
        return Poly({mpow(m, -1): cinv(c)})

    def div(self, o):
        if not o.t:
            raise ZeroDivisionError
        if o.ismono():
            return self * o.inv()
        return self * inverse(o)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def subst(self, aid, p):
        """replace atom aid by polynomial p (a monomial, or any polynomial where the exponent is positive)"""
        if not any(a == aid for m in self.t for a, _ in m):
            return self
        out = Poly({})
        pinv = None
        for m, c in self.t.items():
            e = 0
            rest = []
            for a, x in m:
                if a == aid:
                    e = x
                else:
                    rest.append((a, x))
            q = Poly({tuple(rest): c})
            if e > 0:
                for _ in range(e):
                    q = q * p
            elif e < 0:
                if p.is0():
                    raise ZeroDivisionError
                if pinv is None:
                    pinv = p.inv() if p.ismono() else inverse(p)
                for _ in range(-e):
                    q = q * pinv
            out = out + q
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            ms = "*".join(f"{Atoms.by[a].name}" + (f"^{e}" if e != 1 else "") for a, e in m)
            cs = str(c[0]) if c[1] == 0 else f"({c[0]}+{c[1]}i)"
            out.append(ms if (cs == "1" and ms) else (cs + ("*" + ms if ms else "")))
        return " + ".join(out)

    def near0(self, eps=Fraction(1, 10 ** 9)):
        return all(abs(c[0]) < eps and abs(c[1]) < eps for c in self.t.values())


ZERO = Poly({})
ONE = Poly.const(1)
IU = Poly.const((0, 1))


def normal_scale(p):
    """p divided by its leading coefficient"""
    if not p.t:
        return p
    m = max(p.t)
    return p.scale(cinv(p.t[m]))


def inverse(p):
    """fresh atom for 1/p, p a sum; remembered so that the same p gives the same atom"""
    m = max(p.t)
    c = p.t[m]
    q = p.scale(cinv(c))
    real = q == q.conj()
    k = ("inv", q.key())
    a = Atoms.key.get(k)
    if a is None:
        a = Atoms.get("inv#%d" % len(Atoms.by), (), "real" if real else "complex", f"(1/({q}))")
        Atoms.key[k] = a
        Atoms.by[a].info = ("inv", q)
        if not real:
            Atoms.by[Atoms.by[a].conj].info = ("inv", q.conj())
    return Poly.atom(a).scale(cinv(c))


def sqrt_of(p):
    """real atom s >= 0 with s*s = p (p real, >= 0)"""
    if p.isconst():
        v = Fraction(p.constval()[0])
        from math import isqrt
        n, d = v.numerator, v.denominator
        if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return Poly.const(Fraction(isqrt(n), isqrt(d)))
    k = ("sqrt", p.key())
    a = Atoms.key.get(k)
    if a is None:
        a = Atoms.get("sqrt#%d" % len(Atoms.by), (), "real", f"sqrt({p})")
        Atoms.key[k] = a
        Atoms.by[a].info = ("sqrt", p)
    return Poly.atom(a)


def phase(lin):
    """exp(i * lin) for lin = {name: Fraction} + const; normalised to atoms exp(i*x/4)"""
    out = ONE
    for x, q in sorted(lin.items()):
        q = Fraction(q) * 4
        if q.denominator != 1:
            raise ValueError("phase granularity")
        a = Atoms.get("E", (x,), "phase", f"e^(i{x}/4)")
        if q:
            out = out * Poly.atom(a, int(q))
    return out
