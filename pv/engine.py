"""Contract verifier for the Python layer: the real functions of /repo are executed on symbolic values.

The module source is parsed on every run and transformed mechanically (statement by statement, nothing is dropped):
  * list / dict / set displays, comprehensions, for and while loops, and calls of methods on string literals go through this module,
    so that a loop over a sequence of unknown length is cut (arbitrary iteration) instead of being unrolled;
  * everything else is executed by the Python interpreter itself.
A branch on a symbolic condition forks: the function is executed again with the other decision.  Conditions are decided by z3.
Loops are cut at their head; what an iteration modifies is found by repeated execution until nothing new is modified (everything else is
unchanged by induction), conditions under which iterations complete are remembered ('every earlier iteration completed')."""
import ast, builtins, sys, time, types, functools, itertools
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3


class PathEnd(BaseException):
    pass


class Undecided(BaseException):
    pass


NOATTR = object()


class EmptyRange(BaseException):
    pass


class Again(BaseException):
    """the loop summaries changed: explore again"""


# ------------------------------------------------------------------------------------------------ context
class Ctx:
    def __init__(self, deadline):
        self.deadline = deadline
        self.loops = {}          # loop key -> Loop info (survives re-execution)
        self.results = []        # (label, ok, detail, path)
        self.trusted = set()
        self.qcount = 0
        self.qtime = 0.0
        self.paths = 0
        self.spec = None
        self.only = None
        self.feas = {}

    def explore(self, run):
        """run() once per path; restart when loop information changed"""
        for rnd in range(40):
            if rnd and self.changed:       # what completed iterations satisfy is collected again for the new loop summaries
                for inf in self.loops.values():
                    inf.conts, inf.cont_keys = [], set()
            self.changed = self.soft = False
            self.results = []
            work = [[]]
            n = 0
            while work:
                if time.time() > self.deadline:
                    raise Undecided("time limit")
                self.start(work.pop(), work)
                n += 1
                if n > 60000:
                    raise Undecided("too many paths")
                try:
                    run()
                except PathEnd:
                    pass
                if self.changed:
                    break
            if not self.changed and not self.soft:
                self.paths = n
                return
        raise Undecided("loop summaries do not converge")

    def start(self, prefix, work):
        self.prefix, self.work, self.pos = prefix, work, 0
        self.taken = []
        self.pc = []             # path condition (z3), in order
        self.conds = []          # decisions in order: (z3 cond as taken, text)
        self.names = {}
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", 3000)
        self.solver.set("mbqi", False)
        self.nq = 0
        self.objs = []           # mutable proxies alive on this path
        self.stack = []          # active loops
        self.log = []
        self.decided = {}
        self.cache = {}
        self.spec.start()

    def fresh(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}!{k}" if k else base

    def int(self, base):
        return I(z3.Int(self.fresh(base)))

    def assume(self, c):
        c = zb(c)
        self.pc.append(c)
        self.solver.add(c)

    def full(self, *cs, ms=8000):
        """answer of a solver with model-based instantiation: (result, model)"""
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.solver.assertions())
        s.add(*cs)
        self.qcount += 1
        t = time.time()
        r = s.check()
        self.qtime += time.time() - t
        return r, s.model() if r == z3.sat else None

    def check(self, *cs):
        self.qcount += 1
        t = time.time()
        r = self.solver.check(*cs)
        self.qtime += time.time() - t
        return r

    def decide(self, c, what=""):
        """truth value of a symbolic condition on this path"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.sexpr()
        if k in self.decided:
            return self.decided[k]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            canT = self.check(c) != z3.unsat
            canF = self.check(z3.Not(c)) != z3.unsat
            if canT and canF:
                self.work.append(self.prefix[:self.pos] + [False] if self.pos <= len(self.prefix) else None)
                v = True
            elif canT:
                v = True
            elif canF:
                v = False
            else:
                raise PathEnd()
        self.prefix = self.prefix[:self.pos] + [v] if self.pos >= len(self.prefix) else self.prefix
        self.pos += 1
        c2 = c if v else z3.Not(c)
        self.decided[k] = v
        self.pc.append(c2)
        self.solver.add(c2)
        self.conds.append((c2, what))
        return v

    def case(self, n):
        """n-ary fork without feasibility check"""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            for w in range(n - 1, 0, -1):
                self.work.append(self.prefix[:self.pos] + [w])
            v = 0
            self.prefix = self.prefix[:self.pos] + [v]
        self.pos += 1
        return v

    def choose(self, n, what=""):
        """nondeterministic choice of a number below n"""
        for i in range(n - 1):
            if self.decide(z3.Bool(self.fresh(f"choice:{what}={i}"))):
                return i
        return n - 1

    def prove(self, c, label, detail=None):
        c = zb(c)
        r = self.check(z3.Not(c))
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r != z3.unsat:
            r, m = self.full(z3.Not(c))
        if r == z3.unsat:
            self.results.append((label, True, "", None))
        elif r == z3.sat:
            self.results.append((label, False, f"{detail() if callable(detail) else detail or ''} counterexample: {str(m)[:1500]}", self.trace()))
        elif any(x[0] == label and not x[1] for x in self.results):
            return               # this obligation has failed on another path already
        else:
            m = self.finite(z3.Not(c)) if getattr(self.spec, "finite", False) else None
            if m is None:
                raise Undecided(f"{label}: solver gives no answer for {str(c)[:300]}")
            self.results.append((label, False, f"{detail() if callable(detail) else detail or ''} counterexample of bounded size: {str(m)[:1500]}", self.trace()))

    def fact(self, ok, label, detail=""):
        if not ok and (self.check() == z3.unsat or self.full(ms=4000)[0] == z3.unsat):
            raise PathEnd()
        self.results.append((label, bool(ok), "" if ok else str(detail)[:2000], None if ok else self.trace()))

    def proved(self, c):
        return self.check(z3.Not(zb(c))) == z3.unsat

    def finite(self, *cs, tops=(3, 4), ms=8000):
        """a model in which every number lies in a small range, every quantifier being expanded over the range; None if none is found"""
        for top in tops:
            dom = [z3.IntVal(v) for v in range(-1, top + 1)]
            memo = {}
            budget = [200000]

            def ex(e):
                k = e.get_id()
                if k in memo:
                    return memo[k][0]
                budget[0] -= 1
                if budget[0] < 0:
                    raise OverflowError
                if z3.is_quantifier(e):
                    if e.is_lambda() or any(e.var_sort(i) != z3.IntSort() for i in range(e.num_vars())):
                        raise OverflowError
                    insts = [ex(z3.simplify(z3.substitute_vars(e.body(), *reversed(t)))) for t in itertools.product(dom, repeat=e.num_vars())]
                    r = z3.And(*insts) if e.is_forall() else z3.Or(*insts)
                elif z3.is_app(e) and e.num_args():
                    ch = [ex(x) for x in e.children()]
                    r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
                else:
                    r = e
                memo[k] = (r, e)
                return r
            try:
                fs = [ex(f) for f in list(self.solver.assertions()) + list(cs)]
            except (OverflowError, z3.Z3Exception):
                return None
            s = z3.Solver()
            s.set("timeout", ms)
            seen, st = set(), list(fs)
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort() and e.decl().name() != "base_class":      # (an enumeration; never an argument)
                    s.add(e >= -1, e <= top)
                st += e.children()
            s.add(*fs)
            self.qcount += 1
            t = time.time()
            r = s.check()
            self.qtime += time.time() - t
            if r == z3.sat:
                return s.model()
        return None

    def surely(self, c):
        c = zb(c)
        if self.check(z3.Not(c)) == z3.unsat:
            return True
        return self.full(z3.Not(c), ms=6000)[0] == z3.unsat

    def trace(self):
        return [str(c)[:160] for c, w in self.conds][-25:] + [f"  {x}" for x in self.log[-12:]]


CTX = None


def ctx():
    return CTX


# ------------------------------------------------------------------------------------------------ values
def zb(c):
    if isinstance(c, B):
        return c.z
    if isinstance(c, bool):
        return z3.BoolVal(c)
    return c


def zi(x):
    if isinstance(x, I):
        return x.z
    if isinstance(x, B):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Undecided(f"an integer is expected, not {type(x).__name__}")


def mki(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return I(z)


def mkb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return B(z)


class Sym:
    """base of all symbolic values"""
    pytype = object

    @property
    def __class__(self):
        return type(self).pytype if type(self).pytype is not object else type(self)

    def __hash__(self):
        return id(self)


class B(Sym):
    pytype = bool

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.decide(self.z)

    def __eq__(self, o):
        return mkb(self.z == zb(o)) if o is True or o is False or type(o) is B else mki(zi(self)) == o

    def __ne__(self, o):
        r = self == o
        return mkb(z3.Not(r.z)) if type(r) is B else not r

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkb(z3.And(self.z, zb(o)))

    def __or__(self, o):
        return mkb(z3.Or(self.z, zb(o)))
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return mkb(z3.Not(self.z))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return f"B({self.z})"


BIT = z3.Function("bit", z3.IntSort(), z3.IntSort(), z3.BoolSort())  # bit k of x
POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


class I(Sym):
    pytype = int

    def __init__(self, z, shr=None, shl=None):
        self.z, self.shr, self.shl = z, shr, shl

    def __bool__(self):
        return CTX.decide(self.z != 0)

    def __index__(self):
        s = z3.simplify(self.z)
        if z3.is_int_value(s):
            return s.as_long()
        if CTX.check() == z3.sat:
            m = CTX.solver.model()
            v = m.eval(self.z, model_completion=True)
            if CTX.proved(self.z == v):
                return v.as_long()
        raise Undecided(f"a number is needed here: {self.z}")

    def __int__(self):
        return self.__index__()

    def _bin(self, o, f):
        if isinstance(o, float) or type(o).__name__ == "Rv":
            return NotImplemented
        if type(o) not in (int, bool, I, B):
            return NotImplemented
        return mki(f(self.z, zi(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (VList, list):
            return o * self
        return self._bin(o, lambda a, b: a * b)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self._bin(o, lambda a, b: a % b)
        raise Undecided("modulus of a symbolic number")

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return self._bin(o, lambda a, b: a / b)
        raise Undecided("division by a symbolic number")
    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return mki(-self.z)

    def __rshift__(self, k):
        return I(z3.Function("shr", z3.IntSort(), z3.IntSort(), z3.IntSort())(self.z, zi(k)), shr=(self.z, zi(k)))

    def __rrshift__(self, x):
        return I(zi(x)).__rshift__(self)

    def __rlshift__(self, x):
        if x == 1 and type(x) is int:
            return I(POW2(self.z), shl=(z3.IntVal(1), self.z))
        return I(z3.Function("shl", z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(x), self.z), shl=(zi(x), self.z))

    def __lshift__(self, k):
        if not isinstance(k, (I, B)) and type(k) is int:
            return mki(self.z * (1 << k))
        return I(z3.Function("shl", z3.IntSort(), z3.IntSort(), z3.IntSort())(self.z, zi(k)), shl=(self.z, zi(k)))

    def __and__(self, o):
        for a, b in ((self, o), (o, self)):
            if type(b) is int and b == 1 and type(a) is I:
                x, k = a.shr if a.shr else (a.z, z3.IntVal(0))
                return I(z3.If(BIT(x, k), z3.IntVal(1), z3.IntVal(0)))
            if type(b) is I and b.shl and z3.is_int_value(b.shl[0]) and b.shl[0].as_long() == 1:
                return I(z3.If(BIT(zi(a), b.shl[1]), b.z, z3.IntVal(0)))
            if type(b) is int and b > 0 and b & (b - 1) == 0 and type(a) is I:
                k = b.bit_length() - 1
                x, k0 = a.shr if a.shr else (a.z, z3.IntVal(0))
                return I(z3.If(BIT(x, k0 + k), z3.IntVal(b), z3.IntVal(0)))
        return I(z3.Function("bitand", z3.IntSort(), z3.IntSort(), z3.IntSort())(zi(self), zi(o)))
    __rand__ = __and__

    def __pow__(self, o):
        if type(o) is int and 0 <= o < 5:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Undecided("power")

    def __rpow__(self, b):
        if type(b) is int and b == 2:
            return I(POW2(self.z), shl=(z3.IntVal(1), self.z))
        return NotImplemented

    def _cmp(self, o, f):
        if type(o) in (int, bool, I, B):
            return mkb(f(self.z, zi(o)))
        if isinstance(o, float):
            return mkb(f(z3.ToReal(self.z), z3.RealVal(repr(o))))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def __repr__(self):
        return f"I({self.z})"

    def __format__(self, s):
        return f"<{self.z}>"


class Rv(Sym):
    """real number"""
    pytype = float

    def __init__(self, z):
        self.z = z

    def _b(self, o, f):
        if type(o) is Rv:
            return Rv(z3.simplify(f(self.z, o.z)))
        if type(o) in (I, B, int, bool):
            return Rv(z3.simplify(f(self.z, z3.ToReal(zi(o)))))
        if isinstance(o, float):
            return Rv(z3.simplify(f(self.z, z3.RealVal(repr(o)))))
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self): return Rv(-self.z)

    def _c(self, o, f):
        if type(o) is Rv:
            return mkb(f(self.z, o.z))
        if type(o) in (I, B, int, bool):
            return mkb(f(self.z, z3.ToReal(zi(o))))
        if isinstance(o, float):
            return mkb(f(self.z, z3.RealVal(repr(o))))
        return NotImplemented

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return CTX.decide(self.z != 0)

    def __repr__(self):
        return f"R({self.z})"


class Dig(Sym):
    """decimal string of an integer"""
    pytype = str

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        if type(o) is Dig:
            return mkb(self.z == o.z)
        if isinstance(o, str):
            return mkb(self.z == int(o)) if o.isdigit() and str(int(o)) == o else False
        return False

    def __ne__(self, o):
        r = self == o
        return mkb(z3.Not(r.z)) if type(r) is B else not r
    __hash__ = Sym.__hash__

    def __format__(self, s):
        return f"<{self.z}>"

    def __repr__(self):
        return f"Dig({self.z})"


class Obj(Sym):
    """an object of an abstract kind, identified by an integer term"""
    def __init__(self, kind, z, py=None):
        self.kind, self.z, self.py = kind, z, py

    @property
    def __class__(self):
        return self.py or Obj

    def __eq__(self, o):
        if type(o) is Obj and o.kind == self.kind:
            return mkb(self.z == o.z)
        return False

    def __ne__(self, o):
        r = self == o
        return mkb(z3.Not(r.z)) if type(r) is B else not r
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = CTX.spec.attr(self, n)
        if f is NOATTR:
            raise Undecided(f"attribute {n} of {self.kind}")
        return f

    def __repr__(self):
        return f"{self.kind}({self.z})"

    def __format__(self, s):
        return repr(self)


class Term(Sym):
    """uninterpreted value: a constructor applied to values"""
    def __init__(self, f, *a, **attrs):
        self.f, self.a = f, a
        self.__dict__.update(attrs)

    def __repr__(self):
        return f"{self.f}({', '.join(map(repr, self.a))})"

    def __format__(self, s):
        return repr(self)

    def __eq__(self, o):
        if self is o:
            return True
        r = same(self, o)
        if r is None:
            raise Undecided(f"comparison of {self!r} with {o!r}")
        return mkb(r)

    def __ne__(self, o):
        r = self == o
        return mkb(z3.Not(r.z)) if type(r) is B else not r

    def __lt__(self, o):
        raise Undecided("order of opaque values")
    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        raise Undecided(f"truth value of {self!r}")
    __hash__ = Sym.__hash__


def same(a, b):
    """z3 condition under which two values are equal; None: not known"""
    ta, tb = type(a), type(b)
    if a is b:
        return z3.BoolVal(True)
    num = (int, bool, I, B)
    if ta in num and tb in num:
        return zi(a) == zi(b)
    if ta is Rv or tb is Rv:
        r = (a == b) if ta is Rv else (b == a)
        return zb(r) if isinstance(r, (bool, B)) or type(r) is B else None
    if ta is Dig or tb is Dig:
        r = (a == b) if ta is Dig else (b == a)
        return zb(r)
    if ta is Obj and tb is Obj:
        return a.z == b.z if a.kind == b.kind else z3.BoolVal(False)
    if ta is Term and tb is Term:
        if a.f != b.f or len(a.a) != len(b.a):
            return None
        r = [same(x, y) for x, y in zip(a.a, b.a)]
        return None if any(x is None for x in r) else z3.And(*r) if r else z3.BoolVal(True)
    if ta in (tuple, list) and tb in (tuple, list):
        if len(a) != len(b):
            return z3.BoolVal(False)
        r = [same(x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in r) else z3.And(*r) if r else z3.BoolVal(True)
    if isinstance(a, (VList, View)) or isinstance(b, (VList, View)):
        A, Bq = seq(a), seq(b)
        if A is None or Bq is None:
            return None
        la, lb = A.length(), Bq.length()
        if type(la) is int and type(lb) is int:
            if la != lb:
                return z3.BoolVal(False)
            r = [same(A.get(i), Bq.get(i)) for i in range(la)]
            return None if any(x is None for x in r) else z3.And(*r) if r else z3.BoolVal(True)
        j = z3.Int(CTX.fresh("sk"))
        r = same(A.get(I(j)), Bq.get(I(j)))
        if r is None:
            return None
        return z3.And(zi(la) == zi(lb), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(la)), r)))
    if isinstance(a, Sym) or isinstance(b, Sym):
        return None
    try:
        return z3.BoolVal(bool(a == b))
    except Exception:
        return None


def subst(v, j, k):
    """v with the index symbol j replaced by k"""
    t = type(v)
    S = lambda z: z3.simplify(z3.substitute(z, (j, k)))
    if t is I:
        return mki(z3.substitute(v.z, (j, k))) if not (v.shr or v.shl) else I(S(v.z), tuple(S(x) for x in v.shr) if v.shr else None, tuple(S(x) for x in v.shl) if v.shl else None)
    if t is B:
        return mkb(z3.substitute(v.z, (j, k)))
    if t in (Rv, Dig):
        return t(S(v.z))
    if t is Obj:
        return Obj(v.kind, S(v.z), v.py)
    if t is Term:
        return Term(v.f, *[subst(x, j, k) for x in v.a])
    if t in (tuple, list):
        return t(subst(x, j, k) for x in v)
    if isinstance(v, Sym):
        raise Undecided(f"substitution in {t.__name__}")
    return v


def syms(v):
    t = type(v)
    if t in (I, B, Rv, Dig, Obj):
        out = set()
        st = [v.z]
        seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                st.append(e.body())
            elif z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                st += e.children()
        return out
    if t is Term:
        return set().union(*[syms(x) for x in v.a]) if v.a else set()
    if t in (tuple, list):
        return set().union(*[syms(x) for x in v]) if v else set()
    if isinstance(v, Sym):
        return {"?"}
    return set()


def zsyms(z):
    return syms(B(z))


# ------------------------------------------------------------------------------------------------ sequences
class Seq(Sym):
    """immutable sequence of symbolic length: length(), get(i)"""
    name = None
    distinct = False

    def __iter__(self):
        n = self.length()
        if type(n) is int:
            for i in range(n):
                yield self.get(i)
            return
        raise Undecided(f"iteration over {self.name or type(self).__name__} of unknown length outside a loop")

    def __getitem__(self, i):
        if isinstance(i, slice) and type(i) is slice:
            return seqslice(self, i)
        n = self.length()
        if type(i) is int and i < 0:
            i = n + i
        inb = mkb(z3.And(zi(i) >= 0, zi(i) < zi(n)))
        if not inb:
            raise IndexError("sequence index out of range")
        return self.get(i)

    def __reversed__(self):
        return View("rev", self)

    def __bool__(self):
        return bool(mkb(zi(self.length()) > 0))

    def __eq__(self, o):
        if self is o:
            return True
        r = same(self, o)
        if r is None:
            raise Undecided("comparison of sequences")
        return mkb(r)
    __hash__ = Sym.__hash__

    def __contains__(self, x):
        return bool(seqcontains(self, x))

    def __add__(self, o):
        return View("cat", self, seq(o))

    def __radd__(self, o):
        return View("cat", seq(o), self)


class Lam(Seq):
    def __init__(self, n, f, name=None, distinct=False):
        self.n, self.f, self.name, self.distinct = n, f, name, distinct

    def length(self):
        return self.n

    def get(self, i):
        return self.f(i)


class View(Seq):
    def __init__(self, op, *a):
        self.op, self.a = op, a
        self.name = f"{op}({','.join(str(getattr(x, 'name', '') or '') for x in a)})"
        if op == "rev":
            self.snap = snapshot(a[0])

    def length(self):
        if self.op == "rev":
            return self.snap.length()
        if self.op == "enum":
            return self.a[0].length()
        if self.op == "zip":
            l = [x.length() for x in self.a]
            if all(type(x) is int for x in l):
                return min(l)
            for x in l[1:]:
                if not (type(x) in (int, I) and CTX.proved(zi(x) == zi(l[0]))):
                    break
            else:
                return l[0]
            m = zi(l[0])
            for x in l[1:]:
                m = z3.If(zi(x) < m, zi(x), m)
            return mki(m)
        if self.op == "cat":
            return self.a[0].length() + self.a[1].length()
        raise Undecided(self.op)

    def get(self, i):
        if self.op == "rev":
            n = self.snap.length()
            return self.snap.get(n - 1 - i)
        if self.op == "enum":
            return (i + (self.a[1] if len(self.a) > 1 else 0), self.a[0].get(i))
        if self.op == "zip":
            return tuple(x.get(i) for x in self.a)
        if self.op == "cat":
            n = self.a[0].length()
            c = mkb(zi(i) < zi(n))
            if c is True:
                return self.a[0].get(i)
            if c is False:
                return self.a[1].get(i - n)
            return ite(c, self.a[0].get(i), self.a[1].get(i - n))
        raise Undecided(self.op)


def ite(c, a, b):
    if type(c) is not B:
        return a if c else b
    ta, tb = type(a), type(b)
    if a is b:
        return a
    num = (int, bool, I, B)
    if ta in num and tb in num:
        return mki(z3.If(c.z, zi(a), zi(b)))
    d = lambda x: x.z if type(x) is Dig else z3.IntVal(int(x)) if isinstance(x, str) and x.isdigit() and len(str(int(x))) == len(x) else None
    if (ta is Dig or isinstance(a, str)) and (tb is Dig or isinstance(b, str)) and d(a) is not None and d(b) is not None:
        return Dig(z3.simplify(z3.If(c.z, d(a), d(b))))
    rr = lambda x: x.z if type(x) is Rv else z3.ToReal(zi(x)) if type(x) in num else z3.RealVal(repr(x)) if isinstance(x, float) else None
    if (ta is Rv or tb is Rv) and rr(a) is not None and rr(b) is not None:
        return Rv(z3.simplify(z3.If(c.z, rr(a), rr(b))))
    if ta is Obj and tb is Obj and a.kind == b.kind:
        return Obj(a.kind, z3.simplify(z3.If(c.z, a.z, b.z)), a.py)
    if ta is tuple and tb is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    return a if c else b   # fork


def seq(x):
    if isinstance(x, Seq) or type(x) in (VList, Lam, View):
        return x
    if isinstance(x, (list, tuple, str)) and not isinstance(x, Sym):
        return Lam(len(x), lambda i, x=x: x[i] if type(i) is int else pick(x, i))
    if type(x) is VDict:
        return x.keyseq()
    if type(x) is range:
        return Lam(len(x), lambda i: x.start + i * x.step)
    if type(x) is Obj:
        return CTX.spec.seqof(x)
    return None


def pick(x, i):
    r = x[-1]
    for k in range(len(x) - 2, -1, -1):
        r = ite(mkb(zi(i) == k), x[k], r)
    return r


def seqcontains(s, x):
    n = s.length()
    if type(n) is int:
        for i in range(n):
            c = same(s.get(i), x)
            if c is None:
                raise Undecided("membership")
            if mkb(c):
                return True
        return False
    iv = seqinv(s) if type(x) in (int, I) else None
    if iv is not None and checkinv(s, iv):
        return mkb(iv(zi(x))[0])
    j = z3.Int(CTX.fresh("mem"))
    c = same(s.get(I(j)), x)
    if c is None:
        raise Undecided("membership")
    return mkb(z3.Exists([j], z3.And(0 <= j, j < zi(n), c)))


def seqslice(s, sl):
    if sl.step not in (None, 1):
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return View("rev", s)
        raise Undecided("slice step")
    n = s.length()
    lo = 0 if sl.start is None else sl.start
    hi = n if sl.stop is None else sl.stop

    def norm(v):
        if type(v) is int and v < 0:
            v = n + v
            if type(v) is int:
                return max(v, 0)
            return mki(z3.If(zi(v) < 0, z3.IntVal(0), zi(v)))
        if type(v) is int and type(n) is int:
            return min(v, n)
        return mki(z3.If(zi(v) < zi(n), zi(v), zi(n)))
    lo, hi = norm(lo), norm(hi)
    m = hi - lo
    m = max(m, 0) if type(m) is int else mki(z3.If(m.z < 0, z3.IntVal(0), m.z))
    if type(m) is int and type(lo) is int:
        return CTX.newlist([s.get(lo + i) for i in range(m)], "slice")
    sn = snapshot(s)
    return Lam(m, lambda i: sn.get(lo + i))


def snapshot(s):
    """the present value of a sequence"""
    s = seq(s)
    if type(s) is VList:
        if s.conc is not None:
            l = list(s.conc)
            return Lam(len(l), lambda i, l=l: l[i] if type(i) is int else pick(l, i), s.name)
        st = s.state()
        r = Lam(st[0], lambda i, st=st: s.getat(st, i), s.name)
        iv = seqinv(s)
        if iv is not None:
            r.inv = iv
        r.asc = ascending(s)
        return r
    return s


def ascending(s):
    """the sequence stems from an increasing range"""
    if type(s) is VList:
        o = getattr(s.base, "__self__", None) if s.conc is None and not s.writes else None
        return o is not None and ascending(o)
    if type(s) is Lam:
        return bool(getattr(s, "asc", False)) or bool(s.name and s.name.startswith("range(") and z3.eq(z3.simplify(zi(s.get(1)) - zi(s.get(0))), z3.IntVal(1)))
    return False


def seqinv(s):
    """inverse of a sequence of distinct numbers if known: x -> (is an element, its index); only a hint, proved where it is used"""
    if type(s) is VList:
        if s.conc is not None or s.writes:
            return None
        b = s.base
        if getattr(b, "inv", None) is not None:
            return b.inv
        o = getattr(b, "__self__", None)
        return seqinv(o) if o is not None else None
    if type(s) is Lam:
        if getattr(s, "inv", None) is not None:
            return s.inv
        if s.name and s.name.startswith("range("):
            lo, n = zi(s.get(0)), zi(s.length())
            if z3.eq(z3.simplify(zi(s.get(1)) - lo), z3.IntVal(1)):
                return lambda x: (z3.And(x >= lo, x < lo + n), x - lo)
        return None
    if type(s) is View and s.op == "cat":
        a, b = seqinv(s.a[0]), seqinv(s.a[1])
        if a is None and s.a[0].length() == 0 and type(s.a[0].length()) is int:
            return b
        if a is None or b is None:
            return None
        n = zi(s.a[0].length())
        return lambda x: (z3.Or(a(x)[0], b(x)[0]), z3.If(a(x)[0], a(x)[1], n + b(x)[1]))
    return None


def checkinv(s, iv):
    """is iv the inverse of s"""
    C = CTX
    n = zi(s.length())
    i, x = z3.Int(C.fresh("vi")), z3.Int(C.fresh("vx"))
    f = zi(s.get(I(i)))
    m, k = iv(f)
    if not C.surely(z3.Implies(z3.And(0 <= i, i < n), z3.And(m, k == i))):
        return False
    m, k = iv(x)
    return C.surely(z3.Implies(m, z3.And(k >= 0, k < n, zi(s.get(I(k))) == x)))


class VList(Seq):
    """mutable list; concrete, or base function + writes"""
    pytype = list

    def __init__(self, items=None, site="", n=None, base=None):
        self.conc = list(items) if items is not None else None
        self.site, self.n, self.base, self.writes = site, n, base, ()
        CTX.register(self)

    def state(self):
        return (self.n, self.base, self.writes) if self.conc is None else tuple(self.conc)

    def symbolic(self):
        if self.conc is not None:
            l = list(self.conc)
            self.n, self.base, self.writes, self.conc = len(l), (lambda i, l=l: pick(l, i) if l else None), (), None

    def length(self):
        return len(self.conc) if self.conc is not None else self.n

    def getat(self, st, i):
        n, base, writes = st
        r, done = None, False
        todo = []
        for k, v in reversed(writes):
            c = mkb(zi(k) == zi(i))
            if c is True:
                r, done = v, True
                break
            if c is False:
                continue
            todo.append((c, v))
        if not done:
            r = base(i)
        for c, v in reversed(todo):
            r = v if r is None else ite(c, v, r)
        return r

    def get(self, i):
        if self.conc is not None:
            if type(i) is int:
                return self.conc[i]
            return pick(self.conc, i)
        return self.getat((self.n, self.base, self.writes), i)

    def _idx(self, i):
        n = self.length()
        if type(i) is int and type(n) is int:
            if not -n <= i < n:
                raise IndexError("list index out of range")
            return i % n if n else i
        if type(i) is int and i < 0:
            i = n + i
        if not mkb(z3.And(zi(i) >= 0, zi(i) < zi(n))):
            if mkb(zi(i) < 0) and type(i) is not int:
                raise Undecided("negative symbolic index")
            raise IndexError("list index out of range")
        return i

    def __getitem__(self, i):
        if type(i) is slice:
            return seqslice(self, i)
        return self.get(self._idx(i))

    def __setitem__(self, i, v):
        if type(i) is slice:
            raise Undecided("slice assignment")
        i = self._idx(i)
        if self.conc is not None:
            if type(i) is int:
                self.conc[i] = v
                return
            self.symbolic()
        self.writes = self.writes + ((i, v),)

    def append(self, v):
        if self.conc is not None:
            self.conc.append(v)
        else:
            self.writes = self.writes + ((self.n, v),)
            self.n = self.n + 1

    def extend(self, o):
        for x in seq(o):
            self.append(x)

    def pop(self, i=-1):
        if self.conc is not None and type(i) is int:
            return self.conc.pop(i)
        n = self.length()
        if not mkb(zi(n) > 0):
            raise IndexError("pop from empty list")
        self.symbolic()
        s = snapshot(self)
        if type(i) is int and i == -1:
            v = s.get(n - 1)
            self.n, self.base, self.writes = n - 1, s.get, ()
            return v
        if type(i) is int and i == 0:
            v = s.get(0)
            b = lambda k: s.get(k + 1)
            b.shift = (self.base, self.writes)
            if getattr(s, "inv", None) is not None:
                b.inv = lambda x, iv=s.inv: (z3.And(iv(x)[0], iv(x)[1] >= 1), iv(x)[1] - 1)
            self.n, self.base, self.writes = n - 1, b, ()
            return v
        raise Undecided("pop")

    def insert(self, i, v):
        if self.conc is not None and type(i) is int:
            self.conc.insert(i, v)
            return
        raise Undecided("insert")

    def reverse(self):
        if self.conc is None:
            raise Undecided("reverse")
        self.conc.reverse()

    def sort(self, **kw):
        r = vsorted(self, **kw)
        s = snapshot(r)
        n = s.length()
        if type(n) is int:
            self.conc = [s.get(i) for i in range(n)]
        else:
            self.conc, self.n, self.base, self.writes = None, n, s.get, ()

    def copy(self):
        return CTX.newlist(self, "copy")

    def index(self, x, *a):
        s, n = self, self.length()
        if type(n) is int:
            for i in range(n):
                c = same(s.get(i), x)
                if c is None:
                    raise Undecided("index")
                if mkb(c):
                    return i
            raise ValueError("not in list")
        if not seqcontains(self, x):
            raise ValueError("not in list")
        k = CTX.int("index")
        sn = snapshot(self)
        j = z3.Int(CTX.fresh("ij"))
        CTX.assume(z3.And(k.z >= 0, k.z < zi(n), same(sn.get(k), x), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k.z), z3.Not(same(sn.get(I(j)), x))))))
        return k

    def count(self, x):
        raise Undecided("count")

    def __mul__(self, k):
        if type(k) is int and self.conc is not None:
            return CTX.newlist(self.conc * k, self.site + "*")
        if self.conc is not None and len(self.conc) == 1:
            v = self.conc[0]
            r = VList(None, self.site + "*", mki(z3.If(zi(k) > 0, zi(k), z3.IntVal(0))), lambda i: v)
            r.init = v
            return r
        raise Undecided("list repetition")
    __rmul__ = __mul__

    def __add__(self, o):
        o = seq(o)
        if self.conc is not None and type(o.length()) is int:
            return CTX.newlist(self.conc + [o.get(i) for i in range(o.length())], self.site + "+")
        a, b = snapshot(self), snapshot(o)
        c = View("cat", a, b)
        return VList(None, self.site + "+", c.length(), c.get)

    def __radd__(self, o):
        if type(o) is int and o == 0:
            raise TypeError("unsupported operand type(s) for +: 'int' and 'list'")
        return CTX.newlist(o, "radd") + self

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __repr__(self):
        return f"VList{self.conc}" if self.conc is not None else f"VList<{self.site}>[{self.n}]"

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.__index__()

    def havoc(self, tag):
        raise Undecided(f"contents of a list modified in a loop ({self.site})")


class VDict(Sym):
    """dictionary: insertion-ordered concrete part (keys compared symbolically), optional base (has, get, keys sequence)"""
    pytype = dict

    def __init__(self, items=(), site="", has=None, val=None, keys=None):
        self.site = site
        self.has0, self.val0, self.keys0 = has, val, keys
        self.writes = []
        for k, v in items:
            self.writes.append((k, v))
        CTX.register(self)

    def state(self):
        return (self.has0, self.val0, self.keys0, tuple(self.writes))

    def find(self, k):
        """(index of write or None, base?)"""
        for i in range(len(self.writes) - 1, -1, -1):
            c = same(self.writes[i][0], k)
            if c is None:
                raise Undecided(f"comparison of dictionary keys {self.writes[i][0]!r}, {k!r}")
            if mkb(c):
                return i
        return None

    def lookup(self, k):
        i = self.find(k)
        if i is not None:
            return True, self.writes[i][1]
        if self.has0 is None:
            return False, None
        h = self.has0(k)
        if (h if isinstance(h, bool) else mkb(zb(h))):
            return True, self.val0(k)
        return False, None

    def __getitem__(self, k):
        ok, v = self.lookup(k)
        if not ok:
            return self.__missing__(k)
        return v

    def __missing__(self, k):
        raise KeyError(repr(k))

    def __setitem__(self, k, v):
        i = self.find(k)
        if i is not None:
            self.writes = list(self.writes)
            self.writes[i] = (self.writes[i][0], v)
        else:
            self.writes = self.writes + [(k, v)]

    def __contains__(self, k):
        return bool(self.lookup(k)[0])

    def get(self, k, d=None):
        ok, v = self.lookup(k)
        return v if ok else d

    def setdefault(self, k, d=None):
        ok, v = self.lookup(k)
        if not ok:
            self[k] = d
            return d
        return v

    def pop(self, k, *d):
        if self.has0 is not None:
            raise Undecided("pop of a symbolic dictionary")
        i = self.find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self.writes[i][1]
        self.writes = self.writes[:i] + self.writes[i + 1:]
        return v

    def update(self, o=(), **kw):
        it = o.items() if hasattr(o, "items") else o
        for k, v in list(it):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def keyseq(self):
        if self.has0 is None:
            l = [k for k, v in self.writes]
            return Lam(len(l), lambda i, l=l: l[i] if type(i) is int else pick(l, i), None, True)
        if self.keys0 is None or not all(CTX.surely(zb(self.has0(k))) for k, v in self.writes):
            raise Undecided("keys of a modified symbolic dictionary")
        return self.keys0

    def items(self):
        ks = self.keyseq()
        st = self.state()
        if self.has0 is None:
            return [(k, v) for k, v in self.writes]
        return Lam(ks.length(), lambda i: (ks.get(i), self.valat(st, ks.get(i))), f"items({ks.name})", True)

    @staticmethod
    def valat(st, x):
        """value of a key that is present, without a case distinction"""
        r = st[1](x)
        for k, v in st[3]:
            c = same(k, x)
            if c is None:
                raise Undecided("comparison of dictionary keys")
            r = ite(mkb(c), v, r)
        return r

    def keys(self):
        return self.keyseq()

    def values(self):
        ks = self.keyseq()
        if self.has0 is None:
            return [v for k, v in self.writes]
        st = self.state()
        return Lam(ks.length(), lambda i: self.valat(st, ks.get(i)), f"values({ks.name})")

    def length(self):
        return self.keyseq().length()

    def __iter__(self):
        return iter(self.keyseq())

    def __len__(self):
        return self.length() if type(self.length()) is int else self.length().__index__()

    def __bool__(self):
        return bool(mkb(zi(self.length()) > 0))

    def copy(self):
        return VDict(self.writes, self.site + "c", self.has0, self.val0, self.keys0)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"VDict<{self.site}>{self.writes}"

    def havoc(self, tag):
        raise Undecided(f"contents of a dictionary modified in a loop ({self.site})")


class VDefault(VDict):
    def __init__(self, factory, *a, **k):
        super().__init__(*a, **k)
        self.factory = factory

    def __missing__(self, k):
        v = self.factory()
        self[k] = v
        return v


class VSet(Sym):
    """set given by a membership predicate on a base + explicit insertions/removals"""
    pytype = set

    def __init__(self, site="", pred=None, ops=(), size=None, elems=None):
        self.site, self.pred, self.ops, self.size0, self.elems0 = site, pred, tuple(ops), size, elems
        CTX.register(self)

    def state(self):
        return (self.pred, self.ops, self.size0, self.elems0)

    def mem(self, x):
        """membership as a z3 condition"""
        return setmem(self.state(), x)

    def __contains__(self, x):
        return bool(mkb(self.mem(x)))

    def add(self, x):
        self.ops = self.ops + (("add", x),)

    def discard(self, x):
        self.ops = self.ops + (("del", x),)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def update(self, *os):
        for o in os:
            s = o if type(o) is VSet else None
            if s is not None:
                self.ops = self.ops + (("union", s.state()),)
            else:
                q = seq(o)
                if type(q.length()) is int:
                    for i in range(q.length()):
                        self.add(q.get(i))
                else:
                    self.ops = self.ops + (("useq", snapshot(q)),)

    def __or__(self, o):
        r = VSet(self.site + "|", self.pred, self.ops, self.size0, self.elems0)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self
    union = __or__

    def __sub__(self, o):
        o = CTX.spec_set(o)
        return VSet(self.site + "-", lambda x, a=self.state(), b=o.state(): z3.And(setmem(a, x), z3.Not(setmem(b, x))), (), None)

    def __and__(self, o):
        o = CTX.spec_set(o)
        return VSet(self.site + "&", lambda x, a=self.state(), b=o.state(): z3.And(setmem(a, x), setmem(b, x)), (), None)
    difference, intersection = __sub__, __and__

    def copy(self):
        return VSet(self.site + "c", self.pred, self.ops, self.size0, self.elems0)

    def __bool__(self):
        if self.pred is None and all(o[0] == "add" for o in self.ops):
            return bool(self.ops)
        return bool(mkb(CTX.spec.nonempty(self)))

    def length(self):
        return CTX.spec.setlen(self)

    def __iter__(self):
        if self.pred is None and all(o[0] == "add" for o in self.ops):
            out = []
            for o in self.ops:
                for y in out:
                    c = same(y, o[1])
                    if c is None:
                        raise Undecided("comparison of set elements")
                    if mkb(c):
                        break
                else:
                    out.append(o[1])
            return iter(out)
        raise Undecided("iteration over a symbolic set")

    def pop(self):
        return CTX.spec.setpop(self)
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"VSet<{self.site}>"

    def havoc(self, tag):
        raise Undecided(f"set modified in a loop ({self.site})")


def setmem(st, x):
    pred, ops = st[0], st[1]
    r = zb(pred(x)) if pred else z3.BoolVal(False)
    for o in ops:
        if o[0] == "union":
            r = z3.Or(r, setmem(o[1], x))
        elif o[0] == "useq":
            j = z3.Int(CTX.fresh("um"))
            r = z3.Or(r, z3.Exists([j], z3.And(0 <= j, j < zi(o[1].length()), same(o[1].get(I(j)), x))))
        else:
            c = same(o[1], x)
            if c is None:
                raise Undecided("set membership")
            r = z3.Or(r, c) if o[0] == "add" else z3.And(r, z3.Not(c))
    return r


def _register(self, o):
    k = self.names.get("site:" + o.site, 0)
    self.names["site:" + o.site] = k + 1
    o.key = (o.site, k)
    self.objs.append(o)


def _newlist(self, items, site):
    s = seq(items)
    if s is None:
        return VList(list(items), site)
    n = s.length()
    if type(n) is int:
        return VList([s.get(i) for i in range(n)], site)
    sn = snapshot(s)
    return VList(None, site, n, sn.get)


def _specset(self, o):
    if type(o) is VSet:
        return o
    s = VSet("tmp")
    s.update(o)
    return s


Ctx.register, Ctx.newlist, Ctx.spec_set = _register, _newlist, _specset


# ------------------------------------------------------------------------------------------------ builtins seen by the code
def vlen(x):
    if isinstance(x, (Seq, VDict, VSet)) or type(x) in (VList, VDict, VSet, VDefault, Lam, View):
        return x.length()
    if type(x) is Obj or type(x) is Term:
        n = CTX.spec.length(x)
        if n is not None:
            return n
        raise Undecided(f"length of {x!r}")
    return len(x)


def vrange(*a):
    if all(type(x) is int for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if type(st) is not int or st not in (1, -1):
        raise Undecided("range step")
    n = hi - lo if st == 1 else lo - hi
    n = max(0, n) if type(n) is int else mki(z3.If(n.z > 0, n.z, z3.IntVal(0))) if not CTX.proved(n.z >= 0) else n
    r = Lam(n, (lambda i: lo + i) if st == 1 else (lambda i: lo - i), f"range({lo},{hi})", True)
    r.role = "range"
    return r


def vlist(x=()):
    if type(x) is VSet:
        return CTX.spec.setlist(x)
    return CTX.newlist(x, "list()")


def vset(x=()):
    if type(x) is VSet:
        return x.copy()
    if type(x) is VDict:
        x = x.keyseq()
    q = seq(x)
    if q is None:
        q = seq(list(x))
    n = q.length()
    if type(n) is not int and isinstance(q, Lam) and q.name and q.name.startswith("range("):
        lo = q.get(0)
        s = VSet("set(range)", lambda e: z3.And(zi(e) >= zi(lo), zi(e) < zi(lo) + zi(n)) if type(e) in (int, I) else z3.BoolVal(False), (), n, q)
        return s
    s = VSet("set()")
    s.update(q)
    return s


def vdict(*a, **k):
    d = VDict((), "dict()")
    if a:
        if type(a[0]) in (VDict, VDefault):
            d = a[0].copy()
        else:
            x = a[0]
            it = x.items() if hasattr(x, "items") else x
            q = seq(it)
            d.update(list(q) if q is not None else list(it))
    d.update(**k)
    return d


def vsorted(x, **kw):
    if type(x) is VSet:
        return CTX.spec.setsorted(x, **kw)
    q = seq(x)
    if q is None:
        return VList(sorted(x, **kw), "sorted")
    n = q.length()
    if type(n) is int:
        l = [q.get(i) for i in range(n)]
        return VList(sorted(l, **kw), "sorted")
    return CTX.spec.sortedseq(q, **kw)


def vreversed(x):
    q = seq(x)
    if q is None:
        return reversed(x)
    if type(q.length()) is int:
        return VList([q.get(i) for i in range(q.length() - 1, -1, -1)], "reversed")
    return View("rev", q)


def venumerate(x, start=0):
    q = seq(x)
    if q is None or type(q.length()) is int:
        return enumerate(x if q is None else list(q), start)
    return View("enum", q, start)


def vzip(*xs, **kw):
    qs = [seq(x) for x in xs]
    if any(q is None for q in qs) or all(type(q.length()) is int for q in qs):
        return zip(*[x if q is None else [q.get(i) for i in range(q.length())] for x, q in zip(xs, qs)])
    return View("zip", *qs)


def vall(x):
    if type(x) is QComp:
        return mkb(x.forall())
    for e in x:
        if not e:
            return False
    return True


def vany(x):
    if type(x) is QComp:
        return mkb(x.exists())
    for e in x:
        if e:
            return True
    return False


def vsum(x, start=0):
    q = seq(x) if not isinstance(x, types.GeneratorType) else None
    if type(x) is QComp or (q is not None and type(q.length()) is not int):
        if type(x) is QComp:
            q = x
        return CTX.spec.sumseq(q, start)
    r = start
    for e in (x if q is None else q):
        r = r + e
    return r


def _minmax(pyf, gt):
    def f(*a, **kw):
        if len(a) == 1:
            q = seq(a[0]) if not isinstance(a[0], types.GeneratorType) else None
            a = list(a[0]) if q is None else list(q)
        if kw:
            return pyf(*a, **kw)
        r = a[0]
        for x in a[1:]:
            if type(x) in (I, B) or type(r) in (I, B):
                c = mkb((zi(x) > zi(r)) if gt else (zi(x) < zi(r)))
                r = ite(c, x, r)
            else:
                r = pyf(r, x)
        return r
    return f


def vstr(x=""):
    if type(x) is I:
        return Dig(x.z)
    if type(x) is Dig:
        return x
    if isinstance(x, Sym):
        return Term("str", x)
    return str(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)


class vint(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if type(x) in (I, B):
            return x if type(x) is I else mki(zi(x))
        if type(x) is Dig:
            return mki(x.z)
        if type(x) is Obj or type(x) is Term:
            return CTX.spec.toint(x, *a)
        return int(x, *a)


class _T(type):
    pass


def _typed(name, py, f):
    """callable that isinstance() and == treat as the builtin type"""
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, py)

        def __eq__(cls, o):
            return o is cls or o is py

        def __hash__(cls):
            return hash(py)

        def __call__(cls, *a, **k):
            return f(*a, **k)
    return M(name, (), {})


def visinstance(x, t):
    if type(x) is Obj or type(x) is Term:
        r = CTX.spec.isinstance(x, t)
        if r is not None:
            return r
    return isinstance(x, t)


def vprint(*a, **k):
    pass


def vabs(x):
    if type(x) is I:
        return mki(z3.If(x.z < 0, -x.z, x.z))
    return abs(x)


def vpow(a, b, *c):
    return a ** b if not c else pow(a, b, *c)


def vhasattr(o, n):
    return hasattr(o, n)


OVERRIDE = {"len": vlen, "range": vrange, "sorted": vsorted, "reversed": vreversed, "enumerate": venumerate, "zip": vzip, "all": vall, "any": vany, "sum": vsum,
            "min": _minmax(min, False), "max": _minmax(max, True), "isinstance": visinstance, "print": vprint, "abs": vabs, "pow": vpow}
OVERRIDE["str"] = _typed("str", str, vstr)
OVERRIDE["int"] = _typed("int", int, lambda *a, **k: vint.__new__(vint, *a, **k))
OVERRIDE["list"] = _typed("list", list, vlist)
OVERRIDE["set"] = _typed("set", set, vset)
OVERRIDE["dict"] = _typed("dict", dict, vdict)


# ------------------------------------------------------------------------------------------------ comprehensions
class QComp(Seq):
    """generic element of a comprehension over a sequence of unknown length"""
    def __init__(self, q, j, cond, val):
        self.q, self.j, self.cond, self.val = q, j, cond, val
        self.name = f"comp({q.name})"

    def length(self):
        if self.cond is None:
            return self.q.length()
        raise Undecided("length of a filtered comprehension")

    def get(self, i):
        if self.cond is not None:
            raise Undecided("element of a filtered comprehension")
        return subst(self.val, self.j, zi(i))

    def rng(self):
        c = [0 <= self.j, self.j < zi(self.q.length())]
        if self.cond is not None:
            c.append(self.cond)
        return z3.And(*c)

    def truth(self):
        v = self.val
        if isinstance(v, bool) or type(v) is B:
            return zb(v)
        if type(v) is I:
            return v.z != 0
        raise Undecided("truth value in a comprehension")

    def forall(self):
        return z3.ForAll([self.j], z3.Implies(self.rng(), self.truth()))

    def exists(self):
        return z3.Exists([self.j], z3.And(self.rng(), self.truth()))


class _Merge:
    """evaluate f at a generic element: decisions inside are merged into if-then-else"""
    def __init__(self, f):
        self.f = f

    def run(self):
        C = CTX
        out = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            if len(out) > 32:
                raise Undecided("comprehension with too many cases")
            # local exploration below the current path
            mark_pc, mark_conds, mark_dec = len(C.pc), len(C.conds), dict(C.decided)
            C.solver.push()
            old = C.decide
            local = []

            def decide(c, what="", pre=pre, local=local):
                c = z3.simplify(c)
                if z3.is_true(c):
                    return True
                if z3.is_false(c):
                    return False
                k = c.sexpr()
                if k in C.decided:
                    return C.decided[k]
                i = len(local)
                canT = C.check(c) != z3.unsat
                canF = C.check(z3.Not(c)) != z3.unsat
                if canT and canF:
                    if i < len(pre):
                        v = pre[i]
                    else:
                        v = True
                        todo.append([x for x, _ in local] + [False])
                    local.append((v, c if v else z3.Not(c)))
                elif canT or canF:
                    v = canT
                else:
                    raise EmptyRange()
                C.decided[k] = v
                C.solver.add(c if v else z3.Not(c))
                return v
            # forced decisions must not count as branch positions
            C.decide = decide
            try:
                r = self.f()
            finally:
                C.decide = old
                C.solver.pop()
                del C.pc[mark_pc:], C.conds[mark_conds:]
                C.decided = mark_dec
            out.append((z3.And(*[c for _, c in local]) if local else z3.BoolVal(True), r))
        return out


def generic(f):
    out = _Merge(f).run()
    r = out[-1][1]
    for c, v in reversed(out[:-1]):
        m = ite_nofork(c, v, r)
        if m is None:
            raise Undecided("comprehension values of different kinds")
        r = m
    return r


def ite_nofork(c, a, b):
    num = (int, bool, I, B)
    ta, tb = type(a), type(b)
    if (ta is bool or ta is B) and (tb is bool or tb is B):
        return mkb(z3.If(c, zb(a), zb(b)))
    if ta in num and tb in num:
        return mki(z3.If(c, zi(a), zi(b)))
    if ta is tuple and tb is tuple and len(a) == len(b):
        r = tuple(ite_nofork(c, x, y) for x, y in zip(a, b))
        return None if any(x is None for x in r) else r
    if ta in (Dig, Rv, Obj) or tb in (Dig, Rv, Obj):
        s = mkb(c)
        return ite(s, a, b) if type(s) is B and ({ta, tb} <= {Dig, str} or {ta, tb} <= {Rv, int, float} or ta is tb) else None
    e = same(a, b)
    if e is not None and z3.is_true(z3.simplify(e)):
        return a
    return None


def comp(kind, src, elt, cond, site):
    """comprehension: elt(x) (pair for dict), cond(x) or None"""
    q = seq(src) if not isinstance(src, (types.GeneratorType, zip, enumerate, map, filter)) else None
    if type(src) is QComp:
        q = src
    if type(src) is VSet and not (src.pred is None and all(o[0] == "add" for o in src.ops)):
        return CTX.spec.setcomp(kind, src, elt, cond, site)
    if q is None or type(q.length()) is int:
        it = src if q is None else (q.get(i) for i in range(q.length()))
        g = [elt(x) for x in it if cond is None or cond(x)]
        if kind == "list":
            return VList(g, site)
        if kind == "gen":
            return g
        if kind == "set":
            s = VSet(site)
            s.update(g)
            return s
        d = VDict((), site)
        for k, v in g:
            d[k] = v
        return d
    j = z3.Int(CTX.fresh("cj"))
    x = q.get(I(j))
    CTX.solver.push()
    CTX.solver.add(0 <= j, j < zi(q.length()))
    if CTX.check() == z3.unsat:
        CTX.solver.pop()
        return comp(kind, [], elt, cond, site)
    try:
        c = generic(lambda: (lambda r: r if type(r) is B or isinstance(r, bool) else mkb(zi(r) != 0))(cond(x))) if cond is not None else True
        if c is not True:
            CTX.solver.add(zb(c))
        v = generic(lambda: elt(x))
    except EmptyRange:
        return comp(kind, [], elt, cond, site)
    finally:
        CTX.solver.pop()
    qc = QComp(q, j, None if c is True else zb(c), v)
    if kind == "gen":
        return qc
    if kind == "list":
        if qc.cond is None:
            r = VList(None, site, qc.length(), qc.get)
            r.name = qc.name
            r.comp = qc
            return r
        return qc
    if kind == "set":
        jj = j
        return VSet(site, lambda e: z3.Exists([jj], z3.And(qc.rng(), same(v, e))))
    return CTX.spec.dictcomp(qc, site)


# ------------------------------------------------------------------------------------------------ loops
class Info:
    def __init__(self):
        self.mod_vars = {}       # name -> template or "any"
        self.mod_objs = {}       # object key -> template
        self.conts = []          # stable completion conditions (z3 over index symbol)
        self.cont_keys = set()
        self.nobreak = True
        self.tries = {}
        self.ops = {}            # set -> last operation on it in the loop
        self.born = {}           # names first bound inside the loop -> a value


class Loop:
    def __init__(self, key, src, frame, whileloop=False):
        self.key, self.while_ = key, whileloop
        C = CTX
        self.sym = False
        if whileloop:
            self.q = None
            return
        if type(src) is VSet and not (src.pred is None and all(o[0] == "add" for o in src.ops)):
            src = C.spec.setseq(src)
        q = seq(src) if not isinstance(src, (types.GeneratorType, zip, enumerate, map, filter)) else None
        if type(src) is QComp:
            q = src
        if type(src) is Obj:
            q = C.spec.seqof(src)
            if q is None:
                raise Undecided(f"iteration over {src!r}")
        if q is None:
            self.real = src
            return
        n = q.length()
        if type(n) is int:
            self.real = [q.get(i) for i in range(n)] if type(q) is not VList else _live(q)
            return
        self.sym = True
        self.q = snapshot(q)
        self.n = n

    # -- entry
    def begin(self, loc):
        C = CTX
        self.info = C.loops.setdefault(self.key, Info())
        self.loc0 = dict(loc)
        self.objs0 = {o.key: o for o in C.objs}
        self.k = C.int("pos")
        C.assume(self.k.z >= 0)
        if not self.while_:
            C.assume(self.k.z <= zi(self.n))
        self.symmark = dict(C.names)
        self.spec = C.spec.loop(self)
        self.pre = self.spec.enter(self, loc) if self.spec else None
        # modified objects and variables take their summarised or arbitrary value
        self.new = {}
        for key, t in self.info.mod_objs.items():
            o = self.objs0.get(key)
            if o is None:
                continue
            self.setobj(o, t)
        for name, t in self.info.mod_vars.items():
            if name in loc:
                self.new[name] = self.hvar(name, loc[name], t)
        j = z3.Int(C.fresh("lj"))
        if self.info.conts:
            cs = [z3.substitute(c, (z3.Int("loopidx"), j)) for c in self.info.conts]
            if not any(z3.is_true(z3.simplify(c)) for c in cs):
                C.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.k.z), z3.Or(*cs))))
                C.assume(z3.Implies(self.k.z >= 1, z3.substitute(z3.Or(*cs), (j, self.k.z - 1))))
        if self.spec:
            self.spec.head(self, self.new)
        self.heads = {o.key: o.state() for o in C.objs}
        self.headobjs = {o.key: o for o in C.objs}
        self.nheads = len(C.objs)
        self.headloc = {n: self.new.get(n, v) for n, v in loc.items()}
        self.condmark = len(C.conds)
        self.namemark = dict(C.names)

    def setobj(self, o, t):
        C = CTX
        if t[0] == "dmap":       # one new key per iteration, the key being the element at this position
            kf, vf = t[1], t[2]
            k0 = kf(0) if False else kf(I(z3.Int("loopidx")))
            o.writes = []
            o.has0 = lambda x, k0=k0: z3.And(x.z >= 0, x.z < self.k.z) if type(x) is type(k0) and getattr(x, "kind", None) == getattr(k0, "kind", None) else z3.BoolVal(False)
            o.val0 = lambda x, vf=vf: vf(I(x.z))
            o.keys0 = Lam(self.k, kf, "keys", True)
        elif t[0] == "accum":    # d[key] = d.get(key, 0) + delta
            o.writes = []
            hf, vf = z3.Function(C.fresh("acchas"), z3.IntSort(), z3.BoolSort()), z3.Function(C.fresh("accval"), z3.IntSort(), z3.RealSort())
            o.has0, o.val0, o.keys0 = (lambda x: hf(zi(x))), (lambda x: Rv(vf(zi(x)))), None
            o.accum = (t[1], t[2], self.k, self.q, hf, vf)
        elif t[0] == "dkeys":    # d[f(k)] = g(k), the keys being the distinct elements of the sequence
            kf, vf, q = t[1], t[2], self.q
            iv = seqinv(q)
            o.writes = []
            o.has0 = lambda x, iv=iv: z3.And(iv(zi(x))[0], iv(zi(x))[1] < self.k.z) if type(x) in (int, I) else z3.BoolVal(False)
            o.val0 = lambda x, iv=iv, vf=vf: vf(mki(iv(zi(x))[1]))
            o.keys0 = Lam(self.k, kf, "keys", True)
        elif t[0] == "pop0":     # the first element is taken off in every iteration
            base = snapshot(o)
            k = self.k
            o.conc, o.n, o.writes = None, mki(zi(base.length()) - k.z), ()
            b = lambda i, base=base: base.get(i + k)
            if getattr(base, "inv", None) is not None:
                b.inv = lambda x, iv=base.inv: (z3.And(iv(x)[0], iv(x)[1] >= k.z), iv(x)[1] - k.z)
            o.base = b
        elif t[0] == "append":     # one append per iteration
            base = snapshot(o)
            n0 = base.length()
            f = t[1]
            o.conc = None
            o.n = n0 + self.k
            b = lambda i, base=base, n0=n0, f=f: _catget(base, n0, f, i)
            ia = getattr(base, "inv", None) or ((lambda x: (z3.BoolVal(False), z3.IntVal(0))) if type(n0) is int and n0 == 0 else None)
            if ia is not None:
                j = z3.Int(C.fresh("aj"))
                for q in getattr(self.spec, "sources", lambda l: [])(self) if self.spec else []:
                    iq = seqinv(q)
                    e = same(q.get(I(j)), f(I(j))) if iq is not None else None
                    if e is not None and C.proved(e):
                        b.inv = lambda x, ia=ia, iq=iq, k=self.k.z, n0=zi(n0): (z3.Or(ia(x)[0], z3.And(iq(x)[0], iq(x)[1] < k)), z3.If(ia(x)[0], ia(x)[1], n0 + iq(x)[1]))
                        break
            o.base = b
            o.writes = ()
        elif t[0] == "scatter":  # list store at an index given by the position, distinct indexes
            base = snapshot(o)
            f, g = t[1], t[2]
            n0 = base.length()
            tag = C.fresh("scat")
            v0 = base.get(C.int("probe"))
            fn = z3.Function(tag, z3.IntSort(), z3.IntSort())
            wrap = _wrapper(v0, g(I(z3.Int("loopidx"))))
            o.conc, o.n, o.writes = None, n0, ()
            o.base = lambda i, fn=fn, wrap=wrap: wrap(fn(zi(i)))
            j, x = z3.Int(C.fresh("sj")), z3.Int(C.fresh("sx"))
            C.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.k.z), same(wrap(fn(zi(f(I(j))))), g(I(j))))))
            C.assume(z3.ForAll([x], z3.Or(z3.Exists([j], z3.And(0 <= j, j < self.k.z, zi(f(I(j))) == x)), same(wrap(fn(x)), base.get(I(x))))))
        else:
            r = self.spec.hobj(self, o) if self.spec else None
            if r:
                return
            C.spec.hobj(self, o)

    def hvar(self, name, v, t):
        C = CTX
        if t and t[0] == "count":
            return v + t[1] * self.k
        if self.spec:
            r = self.spec.hvar(self, name, v)
            if r is not None:
                return r
        if type(v) in (int, I):
            return C.int(name)
        if type(v) in (bool, B):
            return B(z3.Bool(C.fresh(name)))
        if type(v) in (Rv, float):
            return Rv(z3.Real(C.fresh(name)))
        if type(v) is Dig:
            return Dig(z3.Int(C.fresh(name)))
        if type(v) is Obj:
            return Obj(v.kind, z3.Int(C.fresh(name)), v.py)
        r = C.spec.hvar(self, name, v)
        if r is None:
            return Havoc(name)
        return r

    def hv(self, name, cur):
        return self.new[name] if name in self.new else cur

    def hx(self, name):
        """is a name first bound inside the loop bound after it"""
        return name in self.info.born and CTX.decide(self.k.z >= 1)

    def hxv(self, name):
        v = self.info.born[name]
        r = self.spec.hvar(self, name, v) if self.spec else None
        if r is None:
            r = CTX.spec.hvar(self, name, v)
        return Havoc(name) if r is None else r

    def hvu(self, name):
        """variable not bound at loop entry"""
        return name in self.new

    # -- decision
    def iterate(self):
        C = CTX
        if self.while_:
            return True
        c = mkb(self.k.z < zi(self.n))
        if c:
            return True
        C.assume(self.k.z == zi(self.n))
        if self.spec:
            self.spec.exit(self, self.new)
        return False

    def one(self):
        if self.while_:
            yield None
            return
        CTX.stack.append(self)
        self.cur = self.q.get(self.k)
        yield self.cur

    # -- back edge
    def back(self, loc):
        C = CTX
        inf = self.info
        if not self.while_ and self in C.stack:
            C.stack.remove(self)
        born = set(C.names) - set(self.namemark) | {n for n in C.names if C.names[n] != self.namemark.get(n)}

        def stable(sy):
            for s in sy:
                if s == "?":
                    return False
                b, _, k = s.partition("!")
                k = int(k) if k.isdigit() else 0
                if b in C.names and k >= self.symmark.get(b, 0) and s != str(self.k.z):      # made at the head (differs between iterations) or inside
                    return False
                if s in self.havsyms():
                    return False
            return True
        idx = z3.Int("loopidx")
        toidx = lambda v: subst(v, self.k.z, idx)
        # objects
        for o in list(C.objs):
            if o.key not in self.heads or self.headobjs[o.key] is not o:
                continue
            h, now = self.heads[o.key], o.state()
            if _unchanged(h, now):
                if inf.mod_objs.get(o.key, ("any",))[0] != "any":      # the summary describes a change in every iteration
                    inf.tries[o.key] = inf.tries.get(o.key, 0) + 1
                    if inf.tries[o.key] > 3:
                        inf.mod_objs[o.key] = ("any",)
                    else:
                        inf.mod_objs.pop(o.key)
                    C.changed = True
                    raise PathEnd()
                continue
            t = self.objtemplate(o, h, now, stable, toidx)
            self.note_obj(o, t, h, now, stable)
        # variables that existed at the head
        for n, v0 in self.headloc.items():
            if n not in loc:
                continue
            v = loc[n]
            if n in self.targets:
                continue
            if v is v0:
                if inf.mod_vars.get(n, ("any",)) != ("any",):      # counted, but not in every iteration
                    inf.mod_vars[n] = ("any",)
                    C.changed = True
                    raise PathEnd()
                continue
            t = ("any",)
            if type(v0) in (int, I) and type(v) in (int, I):
                d = z3.simplify(zi(v) - zi(v0))
                if z3.is_int_value(d):
                    t = ("count", d.as_long())
            if t == ("count", 0):
                if inf.mod_vars.get(n, ("any",)) != ("any",):
                    inf.mod_vars[n] = ("any",)
                    C.changed = True
                    raise PathEnd()
                continue
            if n not in inf.mod_vars:
                if not isinstance(v, Sym) and not isinstance(v0, Sym) and type(v) is type(v0) and _ceq(v, v0):
                    continue
                if isinstance(v, Sym) and type(v) is type(v0) and type(v) in (I, B, Obj, Dig, Rv, Term):
                    c = same(v, v0)
                    if c is not None and C.proved(c):
                        continue
                inf.mod_vars[n] = t
                C.changed = True
                raise PathEnd()
            if inf.mod_vars[n] != t and inf.mod_vars[n] != ("any",):
                inf.mod_vars[n] = ("any",)
                C.changed = True
                raise PathEnd()
        for n, v in loc.items():
            if n not in self.headloc and n not in inf.born:
                inf.born[n] = v
                C.soft = True
        # completion condition
        cs = []
        for c, w in C.conds[self.condmark:]:
            if stable(zsyms(c)):
                cs.append(z3.substitute(c, (self.k.z, idx)))
        f = z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
        if True:
            key = f.sexpr()
            if key not in inf.cont_keys and not any(z3.is_true(c) for c in inf.conts):
                inf.cont_keys.add(key)
                inf.conts = inf.conts + [f] if len(inf.conts) < 8 else [z3.BoolVal(True)]
                C.soft = True
        if self.spec and not C.changed:
            self.spec.back(self, loc)
        raise PathEnd()

    def havsyms(self):
        out = set()
        for n, v in self.new.items():
            if self.info.mod_vars.get(n, ("any",))[0] != "count":
                out |= syms(v) - {"?"}
        return out

    def objtemplate(self, o, h, now, stable, toidx):
        if type(o) is VDict and len(now) == 4 and len(h) == 4 and now[0] is h[0] and now[1] is h[1]:
            new = [w for w in now[3] if not any(w is x for x in h[3])]
            if len(new) == 1 and len(now[3]) in (len(h[3]) + 1, len(h[3])) and (h[0] is None and not h[3] or getattr(o, "accum", None) or not h[3]):
                key, v = new[0]
                if type(key) is Obj and z3.eq(z3.simplify(key.z), z3.simplify(self.k.z)) and stable(syms(v)) and type(v) in (I, int, Dig, Obj, Term, str):
                    return ("dmap", _tmpl(key, self.k.z), _tmpl(v, self.k.z))
                if type(key) in (I, int) and type(v) in (I, int) and stable(syms(key)) and stable(syms(v)) and not getattr(o, "accum", None) and not self.while_:
                    iv = seqinv(self.q)
                    if iv is not None and same(key, self.q.get(self.k)) is not None and CTX.proved(same(key, self.q.get(self.k))) and checkinv(self.q, iv):
                        return ("dkeys", _tmpl(key, self.k.z), _tmpl(v, self.k.z))
                if type(key) in (I, int) and type(v) in (Rv, I, int, float) and stable(syms(key)):
                    acc = getattr(o, "accum", None)
                    d = v if type(v) is Rv else Rv(z3.ToReal(zi(v)))
                    if acc is not None and CTX.proved(acc[4](zi(key))):
                        d = d - Rv(acc[5](zi(key)))
                    elif acc is not None and not CTX.proved(z3.Not(acc[4](zi(key)))):
                        return ("any",)      # overwritten without looking at the old value
                    if stable(syms(d)):
                        return ("accum", _tmpl(key, self.k.z), _tmpl(d, self.k.z))
            return ("any",)
        if type(o) is VList:
            hw = h[2] if isinstance(h, tuple) and len(h) == 3 and (callable(h[1])) and o.conc is None else None
            if o.conc is not None and isinstance(h, tuple):     # concrete list grown
                if len(now) == len(h) + 1 and all(a is b for a, b in zip(h, now)):
                    v = now[-1]
                    if stable(syms(v)):
                        return ("append", _tmpl(v, self.k.z))
                return ("any",)
            if hw is not None and getattr(now[1], "shift", None) is not None and now[1].shift[0] is h[1] and now[1].shift[1] is h[2] and not now[2]:
                return ("pop0",)
            if hw is not None:
                new = now[2][len(hw):]
                if len(new) == 1 and _same_fn(now, h):
                    i, v = new[0]
                    if not (now[0] is h[0] or z3.is_true(z3.simplify(zi(now[0]) == zi(h[0])))):
                        if z3.is_true(z3.simplify(zi(i) == zi(h[0]))) and stable(syms(v)):
                            return ("append", _tmpl(v, self.k.z))
                        return ("any",)
                    if stable(syms(v)) and stable(syms(i)):
                        return ("scatter", _tmpl(i, self.k.z), _tmpl(v, self.k.z))
        return ("any",)

    def note_obj(self, o, t, h, now, stable):
        C, inf = CTX, self.info
        if type(o) is VSet and now[1]:
            inf.ops[o.key] = now[1][-1][0]
        old = inf.mod_objs.get(o.key)
        if old is None:
            inf.mod_objs[o.key] = t
            C.changed = True
            raise PathEnd()
        if old[0] == "any":
            return
        idx = I(z3.Int(C.fresh("tj")))
        ok = old[0] == t[0]
        if ok:
            for a, b in zip(old[1:], t[1:]):
                e = same(a(idx), b(idx))
                if e is None or not C.proved(e):
                    ok = False
        if ok and t[0] == "scatter":   # distinct indexes (or the same value)
            j = z3.Int(C.fresh("dj"))
            e = same(t[2](I(j)), t[2](self.k))
            ok = C.proved(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.k.z), z3.Or(zi(t[1](I(j))) != zi(t[1](self.k)), e if e is not None else z3.BoolVal(False)))))
        if not ok:
            # a template found before everything the loop modifies was known may be wrong: try again a few times
            inf.tries[o.key] = inf.tries.get(o.key, 0) + 1
            inf.mod_objs[o.key] = t if inf.tries[o.key] <= 3 else ("any",)
            C.changed = True
            raise PathEnd()


class Havoc(Sym):
    """value of a variable after an arbitrary number of iterations that nothing is known about"""
    def __init__(self, name):
        self.__dict__["n"] = name

    def _u(self, *a, **k):
        raise Undecided(f"variable {self.n} has an unknown value after the loop")
    __bool__ = __eq__ = __ne__ = __lt__ = __iter__ = __call__ = __getitem__ = __add__ = __index__ = _u
    __hash__ = Sym.__hash__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self._u()


def _live(q):
    """iteration over a concrete mutable list"""
    i = 0
    while i < q.length():
        yield q.get(i)
        i += 1


def _ceq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def _same_fn(a, b):
    return a[1] is b[1]


def _unchanged(h, n):
    if h is n:
        return True
    if len(h) != len(n):
        return False
    for a, b in zip(h, n):
        if a is b:
            continue
        if type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(x is y or (type(x) is tuple and type(y) is tuple and len(x) == len(y) and all(p is q for p, q in zip(x, y))) for x, y in zip(a, b)):
            continue
        if type(a) in (int, I) and type(b) in (int, I) and z3.is_true(z3.simplify(zi(a) == zi(b))):
            continue
        return False
    return True


def _tmpl(v, k):
    return lambda i: subst(v, k, zi(i))


def _catget(base, n0, f, i):
    if type(n0) is int and n0 == 0:
        return f(i)
    c = mkb(zi(i) < zi(n0))
    if c is True:
        return base.get(i)
    if c is False:
        return f(i - n0)
    return ite(c, base.get(i), f(i - n0))


def _wrapper(*vs):
    for v in vs:
        if type(v) is Dig:
            return Dig
        if type(v) is Obj:
            return lambda z, v=v: Obj(v.kind, z, v.py)
    for v in vs:
        if isinstance(v, str):
            return Dig
        if type(v) in (int, I):
            return I
    raise Undecided("list elements of this kind")


# ------------------------------------------------------------------------------------------------ transformation
class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []

    def site(self, node):
        self.n += 1
        return f"{'.'.join(self.fn)}:{node.lineno}.{self.n}"

    def call(self, f, *args, node):
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("VC0_", ast.Load()), f, ast.Load()), list(args), []), node)

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        import collections
        outer = getattr(self, "loads", None)
        self.loads = collections.Counter(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        for x in a.args + a.kwonlyargs + a.posonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                x.annotation = None
        node.returns = None
        node.body = [y for x in node.body for y in self._l(self.visit(x))]
        self.fn.pop()
        self.loads = outer
        return node

    def _l(self, x):
        return x if isinstance(x, list) else [x] if x is not None else []

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        if self.fn and isinstance(node.target, ast.Name) or not self.fn:
            return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node)) if not self.cls() else self.generic_visit(node)
        return self.generic_visit(node)

    def cls(self):
        return getattr(self, "incls", 0) and not self.fn

    def visit_ClassDef(self, node):
        self.incls = getattr(self, "incls", 0) + 1
        save, self.fn = self.fn, []
        body = []
        for x in node.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.fn = [node.name]
                body += self._l(self.visit(x))
                self.fn = []
            else:
                body.append(x)     # class attributes stay ordinary Python values
        node.body = body
        self.fn = save
        self.incls -= 1
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.fn:
            return self.call("L", node, ast.Constant(self.site(node)), node=node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.fn:
            if any(k is None for k in node.keys):
                items = ast.List([ast.Tuple([k if k is not None else ast.Constant(None), v, ast.Constant(k is None)], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
            else:
                items = ast.List([ast.Tuple([k, v, ast.Constant(False)], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())
            return self.call("D", ast.copy_location(items, node), ast.Constant(self.site(node)), node=node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call("S", ast.List(node.elts, ast.Load()), ast.Constant(self.site(node)), node=node) if self.fn else node

    def lam(self, target, body):
        """lambda of one argument destructuring the target"""
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        names = [f"VC0_t{self.n}_{i}" for i in range(len(target.elts))]
        self.n += 1
        for nm, t in reversed(list(zip(names, target.elts))):
            pass
        inner = body
        args = []
        for nm, t in zip(names, target.elts):
            if isinstance(t, ast.Name):
                args.append(ast.arg(t.id))
            else:
                args.append(ast.arg(nm))
                inner = ast.Call(self.lam(t, inner), [ast.Name(nm, ast.Load())], [])
        f = ast.Lambda(ast.arguments([], args, None, [], [], None, []), inner)
        x = f"VC0_x{self.n}"
        return ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []), ast.Call(f, [ast.Starred(ast.Name(x, ast.Load()), ast.Load())], []))

    def _comp(self, node, kind, elt):
        if not self.fn:
            return node
        if any(g.is_async for g in node.generators):
            return node
        if len(node.generators) > 1:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        src = self.visit(g.iter)
        elt = self.visit(elt)
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self.lam(g.target, self.visit(c))
        return self.call("comp", ast.Constant(kind), src, self.lam(g.target, elt), cond, ast.Constant(self.site(node)), node=node)

    def visit_ListComp(self, node):
        return self._comp(node, "list", node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, "set", node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen", node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, "dict", ast.copy_location(ast.Tuple([node.key, node.value], ast.Load()), node))

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.fn and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and f.attr == "join" and len(node.args) == 1:
            return self.call("join", f.value, node.args[0], node=node)
        return node

    def visit_JoinedStr(self, node):
        if not self.fn:
            return node
        return self.call("fstr", ast.List([self.visit(v.value) if isinstance(v, ast.FormattedValue) else v for v in node.values], ast.Load()), node=node)

    def stored(self, stmts):
        out = []
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out and not x.id.startswith("VC0_"):
                    out.append(x.id)
        return out

    def visit_For(self, node):
        if not self.fn:
            return node
        import copy
        site = self.site(node)
        v = f"VC0_lp{self.n}"
        names = self.stored(node.body)
        inside = [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
        after = lambda n: self.loads[n] > inside.count(n)
        targets = self.stored([ast.Expr(node.target)]) if False else [x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)]
        live = {n: after(n) for n in names + targets}
        body2 = copy.deepcopy(node.body)
        orelse2 = copy.deepcopy(node.orelse)
        vis = lambda b: [y for x in b for y in self._l(self.visit(x))]
        src = self.visit(node.iter)
        n0 = self.n
        b1 = vis(node.body)
        self.n = n0              # the same sites in both copies
        b2 = vis(body2)
        n1 = self.n
        e1 = vis(node.orelse)
        self.n = n1
        e2 = vis(orelse2)
        L = lambda s: ast.parse(s).body
        locs = "dict(locals())"
        pre = L(f"{v} = None")
        pre[0].value = self.call("loop", ast.Constant(site), src, node=node)
        sym = L(f"{v}.targets = {targets!r}\n{v}.begin(VC0_locals())")
        for n in names:
            sym += L(f"if {v}.hvu({n!r}): {n} = {v}.hv({n!r}, None)")
        inner = ast.For(node.target, L(f"{v}.one()")[0].value, b1, L(f"{v}.back(VC0_locals())"), None)
        it = L(f"if {v}.iterate(): pass\nelse: pass")[0]
        it.body = [inner]
        it.orelse = []
        for n in [x for x in dict.fromkeys(names + targets) if live[x]]:
            it.orelse += L(f"if {v}.hx({n!r}): {n} = {v}.hxv({n!r})")
        it.orelse += e1
        it.orelse = it.orelse or L("pass")
        sym.append(it)
        real = ast.For(copy.deepcopy(node.target), L(f"{v}.real")[0].value, b2, e2, None)
        top = L(f"if {v}.sym: pass\nelse: pass")[0]
        top.body, top.orelse = sym, [real]
        out = pre + [top]
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def visit_While(self, node):
        if not self.fn:
            return node
        import copy
        site = self.site(node)
        v = f"VC0_lp{self.n}"
        names = self.stored(node.body)
        test2, body2, body3, orelse2 = copy.deepcopy(node.test), copy.deepcopy(node.body), None, copy.deepcopy(node.orelse)
        vis = lambda b: [y for x in b for y in self._l(self.visit(x))]
        n0 = self.n
        t1 = self.visit(node.test)
        b1 = vis(node.body)
        self.n = n0
        t2 = self.visit(test2)
        b2 = vis(body2)
        e = vis(node.orelse)
        L = lambda s: ast.parse(s).body
        # concrete as long as the condition is decided without a choice
        out = L(f"{v} = VC0_.wloop({site!r})\n{v}.targets = []")
        w = L(f"while {v}.conc(): pass")[0]
        tst = L(f"if not {v}.test(): break")[0]
        tst.test.operand.args = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), t1)]
        w.body = [tst] + b1
        w.orelse = []
        sym = L(f"{v}.begin(VC0_locals())")
        for n in names:
            sym += L(f"if {v}.hvu({n!r}): {n} = {v}.hv({n!r}, None)")
        it = ast.If(ast.Call(L(f"{v}.once")[0].value, [t2], []), [ast.For(ast.Name("VC0_once", ast.Store()), L(f"{v}.one()")[0].value, b2, L(f"{v}.back(VC0_locals())"), None)], e or [ast.Pass()])
        sym.append(it)
        cond = L(f"if {v}.sym: pass")[0]
        cond.body = sym
        out += [w, cond]
        if e:
            raise Undecided("while ... else")
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out


class WLoop(Loop):
    def __init__(self, key):
        self.key, self.while_, self.q, self.sym = key, True, None, False
        self.rounds = 0

    def conc(self):
        return not self.sym

    def test(self, f):
        """evaluate the condition; switch to the cut form when it is a symbolic condition"""
        C = CTX
        self.rounds += 1
        m = len(C.conds)
        inf = C.loops.get(self.key)
        if inf is not None and getattr(inf, "cut", False):
            self.sym = True
            return False
        r = f()
        if r is True or r is False or not isinstance(r, Sym):
            if len(C.conds) > m and self.rounds > 0:
                self._cut()
            if self.rounds > 200:
                self._cut()
            return bool(r)
        z = z3.simplify(zb(r) if type(r) is B else zi(r) != 0)
        if z3.is_true(z) or z3.is_false(z):
            return z3.is_true(z)
        self._cut()

    def _cut(self):
        C = CTX
        C.loops.setdefault(self.key, Info()).cut = True
        C.changed = True
        raise PathEnd()

    def once(self, c):
        if c:
            return True
        if self.spec:
            self.spec.exit(self, self.new)
        return False


class VC:
    """what the transformed code calls"""
    comp = staticmethod(comp)

    @staticmethod
    def L(x, site):
        return VList(x, site)

    @staticmethod
    def D(items, site):
        d = VDict((), site)
        for k, v, star in items:
            if star:
                d.update(v)
            else:
                d[k] = v
        return d

    @staticmethod
    def S(items, site):
        s = VSet(site)
        s.update(items)
        return s

    @staticmethod
    def loop(site, src):
        return Loop(site, src, None)

    @staticmethod
    def wloop(site):
        return WLoop(site)

    @staticmethod
    def join(sep, x):
        q = seq(x)
        if q is not None and type(q.length()) is int:
            l = [q.get(i) for i in range(q.length())]
            if all(type(e) is str for e in l):
                return sep.join(l)
            return Term("join", sep, tuple(l))
        if q is None:
            l = list(x)
            return sep.join(l) if all(type(e) is str for e in l) else Term("join", sep, tuple(l))
        return Term("join", sep, snapshot(q))

    @staticmethod
    def fstr(parts):
        if all(isinstance(p, (str, int, float)) and not isinstance(p, Sym) for p in parts):
            return "".join(map(str, parts))
        return Term("fstr", *parts, )


class Future(ast.NodeTransformer):
    pass


def load(path, modname, over, package):
    """execute the transformed module; returns its globals"""
    src = open(path).read()
    tree = ast.parse(src)
    tree.body = [x for x in tree.body if not (isinstance(x, ast.ImportFrom) and x.module == "__future__")]
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    # locals() inside functions, evaluated in the frame itself
    class Loc(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == "VC0_locals":
                return ast.copy_location(ast.parse("VC0_snap(locals())").body[0].value, n)
            return n
    tree = ast.fix_missing_locations(Loc().visit(tree))
    code = compile(tree, path, "exec", dont_inherit=True)
    g = {"__name__": modname, "__package__": package, "__file__": path, "VC0_": VC, "VC0_snap": lambda d: {k: v for k, v in d.items() if not k.startswith("VC0_")}}
    g["__builtins__"] = builtins.__dict__
    g["locals"] = builtins.locals
    exec(code, g)
    g.update(OVERRIDE)
    for k, v in over.items():
        g[k] = v
    return g
