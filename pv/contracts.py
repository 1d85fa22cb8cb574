"""Contracts of the Python layer."""
import os, sys, types, math
import z3
import engine as E
import qmodel as Q
from engine import I, B, Rv, Dig, Obj, Term, Lam, View, VList, VDict, VSet, VDefault, QComp, Sym, Seq, Undecided, PathEnd, zi, zb, mki, mkb, same, seq, snapshot
from qmodel import BC, NQ, QB, CB, CK, CCB, CV, CREG, RSZ, RB, CTRL, PAR, N, NC, LEN, Fac, Op, State, ops_equal, reduce
INT = z3.IntSort()


class Name(Sym):
    pytype = str

    def __init__(self, k, kd):
        self.k, self.kd = k, kd

    def __eq__(self, o):
        if o in ("kraus", "superop") and not isinstance(o, Sym):
            return mkb(z3.Function("name_is_" + o, INT, z3.BoolSort())(self.k)) if self.kd["kind"] == "other" else False
        raise Undecided(f"comparison of an instruction name with {o!r}")

    def __ne__(self, o):
        r = self == o
        return mkb(z3.Not(r.z)) if type(r) is B else not r
    __hash__ = Sym.__hash__

    def __format__(self, s):
        return "<name>"


class QArgs(Seq):
    """operands of instruction k; the number is that of the instruction's class"""
    pytype = list

    def __init__(self, k):
        self.k = k
        self.name = "qargs"

    def length(self):
        sp = E.CTX.spec
        if sp.split(self.k):
            kd = sp.kind(self.k)
            return kd["nt"] + kd["nc"]
        return I(NQ(self.k))

    def get(self, j):
        return Obj("qubit", QB(self.k, zi(j)))


class CArgs(Seq):
    pytype = list

    def __init__(self, k):
        self.k, self.name = k, "cargs"

    def length(self):
        sp = E.CTX.spec
        return 1 if sp.kind(self.k)["kind"] == "measure" else 0

    def get(self, j):
        from qiskit.circuit import Clbit
        return Obj("clbit", CB(self.k), Clbit)


class Item(Sym):
    """circ.data[k]"""
    def __init__(self, k):
        self.k = k
        self.inst = Obj("inst", k)
        self.operation = self.inst

    @property
    def qubits(self):
        return QArgs(self.k)

    @property
    def clbits(self):
        return CArgs(self.k)

    def __iter__(self):
        return iter((self.inst, self.qubits, self.clbits))

    def __getitem__(self, i):
        return (self.inst, self.qubits, self.clbits)[i]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Undecided(f"attribute {n} of a circuit instruction")
    __hash__ = Sym.__hash__

    def __eq__(self, o):
        return self is o


def base_of(q):
    """the sequence a loop really runs over, through enumerate / zip"""
    while type(q) is View and q.op in ("enum",):
        q = q.a[0]
    return q


class Spec:
    """one contract; subclasses define prefix, setup and checks"""
    prefix = "C16"
    stable = None
    name = "?"
    repo = None

    def __init__(self, py):
        self.py = py
        self.K = Q.Kinds().K
        for kd in self.K:
            if kd["kind"] == "qdd":
                kd["cls"] = sys.modules["qdd.qdd_gate"].QDDGate
        self.kinds = list(range(len(self.K)))
        self.trusted = set()

    # ---------------------------------------------------------------- per path
    def start(self):
        self.events = []
        self.samples = []
        self.final = None

    def lab(self, s):
        import re
        return s if re.match(r"C\d\d ", s) else f"{self.prefix} {s}"

    def event(self, *a):
        self.events.append(a)

    # ---------------------------------------------------------------- circuit
    def circuit(self):
        from qiskit import QuantumCircuit
        C = E.CTX
        C.assume(z3.And(N >= 1, NC >= 0, LEN >= 0))
        r, j = z3.Ints("r j")
        C.assume(z3.ForAll([r, j], z3.Implies(z3.And(0 <= j, j < RSZ(r)), z3.And(RB(r, j) >= 0, RB(r, j) < NC))))
        return Obj("circ", z3.IntVal(0), QuantumCircuit)

    def split(self, k):
        """is the class of instruction k decided by cases"""
        key = ("kind", z3.simplify(k).sexpr())
        if key in E.CTX.cache:
            return True
        return any(z3.eq(z3.simplify(k), z3.simplify(x)) for x in self.curs())

    def curs(self):
        out = []
        for l in E.CTX.stack:
            c = l.cur
            for x in (c if isinstance(c, tuple) else (c,)):
                if type(x) is Item:
                    out.append(x.k)
        return out

    def kind(self, k):
        C = E.CTX
        key = ("kind", z3.simplify(k).sexpr())
        if key in C.cache:
            return C.cache[key]
        i = self.kinds[C.case(len(self.kinds))]
        kd = self.K[i]
        C.cache[key] = kd
        C.log.append(f"instruction is {kd['name']} with {kd['nt'] + kd['nc']} qubits")
        m = kd["nt"] + kd["nc"]
        cs = [BC(k) == i, NQ(k) == m, CK(k) >= 0, CK(k) <= 2, z3.Implies(CK(k) == 1, z3.And(CV(k) >= 0, CV(k) <= 1, CCB(k) >= 0, CCB(k) < NC)), z3.Implies(CK(k) == 2, CV(k) >= 0)]
        q = [QB(k, j) for j in range(m)]
        cs += [z3.And(x >= 0, x < N) for x in q] + [q[a] != q[b] for a in range(m) for b in range(a)]
        if kd["kind"] == "measure":
            cs += [CB(k) >= 0, CB(k) < NC]
        if kd["kind"] == "barrier":
            cs += [CK(k) == 0]
        if kd["nc"]:
            cs += [CTRL(k) >= 0, CTRL(k) < 2 ** kd["nc"]]
        if self.stable and kd["kind"] != "barrier":
            cs += [CK(k) == 0]     # postcondition of _validate_and_get_circuit_property
        C.assume(z3.And(*cs))
        if C.check() == z3.unsat:
            raise PathEnd()
        return kd

    def itemok(self, k):
        """well-formed instruction at any position"""
        j, l = z3.Ints("wj wl")
        return z3.And(NQ(k) >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NQ(k)), z3.And(QB(k, j) >= 0, QB(k, j) < N))),
                      z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < l, l < NQ(k)), QB(k, j) != QB(k, l))))

    def item(self, i):
        return Item(z3.simplify(zi(i)))

    def attr(self, o, n):
        from qiskit.circuit import Clbit, Qubit, ControlledGate, ClassicalRegister
        C = E.CTX
        if o.kind == "circ":
            if n == "num_qubits":
                return I(N)
            if n == "num_clbits":
                return I(NC)
            if n == "data":
                d = Lam(I(LEN), self.item, "data")
                d.role = "data"
                return d
            if n == "qubits":
                return Lam(I(N), lambda i: Obj("qubit", z3.simplify(zi(i)), Qubit), "qubits", True)
            if n == "clbits":
                return Lam(I(NC), lambda i: Obj("clbit", z3.simplify(zi(i)), Clbit), "clbits", True)
            if n == "global_phase":
                return Rv(z3.Real("global_phase"))
            if n in ("name", "metadata"):
                return Term("circ." + n, I(o.z))
            return E.NOATTR
        if o.kind == "inst":
            k = o.z
            if n == "condition":
                if self.split(k):
                    self.kind(k)
                else:
                    C.assume(z3.And(CK(k) >= 0, CK(k) <= 2))
                if mkb(CK(k) == 0):
                    return None
                if mkb(CK(k) == 1):
                    return (Obj("clbit", CCB(k), Clbit), I(CV(k)))
                return (Obj("creg", CREG(k), ClassicalRegister), I(CV(k)))
            kd = self.kind(k)
            if n == "base_class":
                return kd["cls"]
            if n == "name":
                return Name(k, kd)
            if n == "params":
                if kd["kind"] == "qdd":
                    return Lam(1, lambda j: Op([Fac("opaque", None, (), (), (), Term("medge", I(k)))]), "params")
                if kd["kind"] == "unitary":
                    return Lam(1, lambda j: Term("matrix", I(k)), "params")
                return Lam(kd["npar"], lambda j: Rv(PAR(k, zi(j))), "params")
            if n == "to_matrix" and kd["kind"] == "unitary":
                return lambda: Term("matrix", I(k))
            if n in ("num_ctrl_qubits", "ctrl_state"):
                if not (isinstance(kd["cls"], type) and issubclass(kd["cls"], ControlledGate)):
                    raise AttributeError(n)
                return kd["nc"] if n == "num_ctrl_qubits" else I(CTRL(k))
            if n == "num_qubits":
                return kd["nt"] + kd["nc"]
            return E.NOATTR
        if o.kind == "creg" and n == "size":
            return I(RSZ(o.z))
        return E.NOATTR

    def length(self, o):
        if type(o) is Obj and o.kind == "creg":
            return I(RSZ(o.z))
        return None

    def isinstance(self, x, t):
        if type(x) is Obj and x.kind == "inst":
            kd = self.kind(x.z)
            ts = t if isinstance(t, tuple) else (t,)
            return any(isinstance(kd["cls"], type) and isinstance(u, type) and issubclass(kd["cls"], u) for u in ts)
        return None

    def toint(self, x, *a):
        raise Undecided("integer of an opaque value")

    def seqof(self, o):
        from qiskit.circuit import Clbit
        if o.kind == "creg":
            r = o.z
            return Lam(I(RSZ(r)), lambda j: Obj("clbit", RB(r, zi(j)), Clbit), "creg")
        return None

    def expected(self, k, kd, pos=lambda q: q):
        """the factors Qiskit defines for a unitary instruction; pos: position of a qubit in the simulator"""
        q = [pos(I(QB(k, j))) for j in range(kd["nt"] + kd["nc"])]
        if kd["kind"] == "unitary":
            return [Fac("gate", "unitary", (), q, (), Term("matrix", I(k)))]
        if kd["kind"] == "qdd":
            return [Fac("opaque", None, (), (), (), Term("medge", I(k)))]
        c, t = q[:kd["nc"]], q[kd["nc"]:]
        ctl = [(x, mkb(Q.E.BIT(CTRL(k), z3.IntVal(j)))) for j, x in enumerate(c)]
        a = [Rv(PAR(k, z3.IntVal(j))) for j in range(kd["npar"])]
        if kd["mat"] == "u" and len(a) == 3:
            a.append(0)
        return [Fac("gate", kd["mat"], a, t if kd["nt"] == 1 else (t[-1], t[-2]), ctl)]

    # ---------------------------------------------------------------- sets, dictionaries, sums
    def loop(self, loop):
        q = loop.q
        if q is None:
            return None
        b = base_of(q)
        r = getattr(b, "role", None)
        f = getattr(self, "loop_" + str(r), None)
        return f(loop) if f else None

    def hobj(self, loop, o):
        o.havoc("")

    def hvar(self, loop, name, v):
        if type(v) is State:
            return State(E.CTX.fresh("anystate"))
        return None

    def asop(self, g):
        return g

    def setlist(self, s):
        if s.elems0 is not None and not s.ops:
            return E.CTX.newlist(s.elems0, "list(set)")
        if s.pred is None and not s.ops:
            return VList([], "list(set)")
        r = VList(None, "list(set)", self.setlen(s), None)
        r.ofset = s.state()
        return r

    def setlen(self, s):
        if s.size0 is not None and not s.ops:
            return s.size0
        if s.pred is None and all(o[0] == "add" for o in s.ops):
            return len(list(s))
        raise Undecided("size of a symbolic set")

    def setsorted(self, s, **kw):
        return self.sortedseq(seq(self.setlist(s)), **kw)

    def setpop(self, s):
        raise Undecided("pop of a symbolic set")

    def setseq(self, s):
        return self.setlist(s)

    def setcomp(self, *a):
        raise Undecided("comprehension over a symbolic set")

    def nonempty(self, s):
        raise Undecided("emptiness of a symbolic set")

    def sortedseq(self, q, **kw):
        C = E.CTX
        if kw:
            raise Undecided("sorted with a key")
        j = z3.Int(C.fresh("so"))
        sn = snapshot(q)
        n = sn.length()
        if C.proved(z3.Implies(z3.And(0 <= j, j + 1 < zi(n)), zi(sn.get(I(j))) < zi(sn.get(I(j + 1))))):
            r = C.newlist(sn, "sorted")
            return r
        raise Undecided("sorting a symbolic sequence")

    def sumseq(self, q, start):
        raise Undecided("sum over a symbolic sequence")

    def dictcomp(self, qc, site):
        C = E.CTX
        if qc.cond is None and type(qc.val) is tuple:
            k, v = qc.val
            z = k.z if type(k) in (I, Obj) else None
            if z is not None and z3.eq(z3.simplify(z), qc.j):
                n = zi(qc.length())
                def has(x, k=k):
                    if type(x) is not type(k) and not (type(k) is I and type(x) is int):
                        return z3.BoolVal(False)
                    return z3.And(zz(x) >= 0, zz(x) < n)
                mk = (lambda i: I(zi(i))) if type(k) is I else (lambda i: Obj(k.kind, zi(i), k.py))
                return VDict((), site, has, lambda x: E.subst(v, qc.j, zz(x)), Lam(qc.length(), mk, "keys", True))
        raise Undecided("dictionary comprehension")

    def sampled(self, s, w):
        self.samples.append((s, w))

    def probfun(self, s):
        self.samples.append((s, None))
        return z3.Function(E.CTX.fresh("prob"), INT, z3.RealSort())


def zz(x):
    return x.z if type(x) is Obj else zi(x)


# ------------------------------------------------------------------------------------------------ _evaluate_circuit
class DataLoop:
    """the loop over the instructions: gate step, program order, classical register"""
    def __init__(self, spec, loop):
        self.s, self.l = spec, loop
        self.reg = None
        self.name = None

    def enter(self, loop, loc):
        s, C = self.s, E.CTX
        sts = [n for n, v in loc.items() if type(v) in (State, Op)]
        mods = [n for n in sts if n in loop.info.mod_vars]
        for n in mods:
            v = loc[n]
            if type(v) is State:
                if v.base != "zero" or reduce(list(v.fs)):
                    if str(v.base).startswith("anystate") or str(v.base).startswith("S@") or v.base == "zero":
                        C.fact(False, s.lab("every run starts from the zero state"), f"the loop over the instructions starts from {v!r}")
                    raise Undecided(f"start state {v!r}")
                C.fact(True, s.lab("every run starts from the zero state"))
            else:
                ops_equal(s.lab("the empty circuit is the identity"), list(v.fs), [])
        if len(mods) > 1:
            raise Undecided("more than one state variable")
        if mods:
            self.name = mods[0]
        s.entered(self, loop, loc)

    def hobj(self, loop, o):
        return self.s.data_hobj(self, loop, o)

    def hvar(self, loop, name, v):
        if type(v) is State:
            self.hs = State(E.CTX.fresh("S@"))
            return self.hs
        if type(v) is Op:
            self.hs = Op([Fac("opaque", None, (), (), (), Term(E.CTX.fresh("P@")))])
            return self.hs
        return self.s.data_hvar(self, loop, name, v)

    def head(self, loop, new):
        self.s.data_head(self, loop, new)

    def exit(self, loop, new):
        self.s.final = getattr(self, "hs", None)
        self.s.data_exit(self, loop, new)

    def back(self, loop, loc):
        s, C = self.s, E.CTX
        it = loop.cur[1] if isinstance(loop.cur, tuple) else loop.cur
        if type(it) is not Item:
            raise Undecided("loop over something else")
        if self.name is None:
            return
        k = it.k
        if not z3.eq(z3.simplify(k), z3.simplify(loop.k.z)):
            C.prove(k == loop.k.z, s.lab("instructions are processed in program order"))
        kd = s.kind(k)
        st = loc[self.name]
        h = self.hs
        if type(st) is State:
            if st.base != h.base:
                C.fact(False, s.lab("one instruction continues from the state before it"), f"{st!r} after {kd['name']} does not continue from {h!r}")
                return
            fs = list(st.fs)
        else:
            fs = list(st.fs)
            i = [n for n, f in enumerate(fs) if f.kind == "opaque" and f.extra is h.fs[0].extra]
            if len(i) != 1:
                C.fact(False, s.lab("one instruction continues from the operator before it"), f"{st!r}")
                return
            if i[0] != 0:
                ops_equal(s.lab(f"{kd['name']}: the instruction acts after the earlier ones"), fs, [h.fs[0]] + s.expected(k, kd))
                return
            fs = fs[1:]
        s.step(self, loop, loc, k, kd, fs)



def opts(**k):
    d = dict(use_mpi=False, use_auto_swap=True, swap_ver="v1", use_bcast=False, memory=False, seed_simulator=None, n_threads=1, show_progress=False, show_progress_frequency=10000)
    d.update(k)
    return d


EXPECTED_ERRORS = (RuntimeError, KeyError, IndexError, AssertionError, ValueError, ZeroDivisionError)


class Run(Spec):
    """helpers: call a method of the real class, judge exceptions"""
    def backend(self):
        mod = sys.modules["qdd.qdd_backend"]
        b = object.__new__(mod.QddBackend)
        return b

    def call(self, f, *a, **k):
        """(value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except EXPECTED_ERRORS as e:
            return None, e
        except Exception as e:
            if type(e).__module__.startswith("qiskit"):
                return None, e
            raise Undecided(f"{type(e).__name__}: {e}")


class Evaluate(Run):
    """QddBackend._evaluate_circuit, non-distributed"""
    mpi = False
    measured = None

    def __init__(self, py, stable, shots, kinds=None, prefix="C16", memory=False, save=False):
        super().__init__(py)
        self.stable, self.shots, self.prefix, self.memory, self.save = stable, shots, prefix, memory, save
        bad = ("reset", "initialize") if stable else ()
        self.kinds = [i for i, kd in enumerate(self.K) if kd["kind"] not in bad and (kinds is None or kd["kind"] in kinds or kd["name"] in kinds)]

    # ---- roles
    def loop_data(self, loop):
        return DataLoop(self, loop)

    def loop_shots(self, loop):
        return ShotLoop(self, loop)

    def loop_final(self, loop):
        return None

    def entered(self, dl, loop, loc):
        C = E.CTX
        dl.regs = []
        for o in loop.objs0.values():
            if o.key in loop.info.mod_objs and type(o) is VList and not self.stable:
                n = o.length()
                if not C.proved(zi(n) == NC):
                    continue
                j = C.int("cb")
                C.assume(z3.And(j.z >= 0, j.z < NC)) if C.check(NC > 0) == z3.sat else None
                v = o.get(j)
                if isinstance(v, str) and v.isdigit() or type(v) is Dig:
                    C.prove(zb(Dig(z3.IntVal(0)) == v), "C18 every run starts with cleared classical bits")
                    dl.regs.append(o)
        self.cur_dl = dl

    def data_hobj(self, dl, loop, o):
        if o in dl.regs:
            f = z3.Function(E.CTX.fresh("creg"), INT, INT)
            j = z3.Int(E.CTX.fresh("cj"))
            E.CTX.assume(z3.ForAll([j], z3.And(f(j) >= 0, f(j) <= 1)))
            o.conc, o.n, o.writes = None, I(NC), ()
            o.base = lambda i: Dig(f(zi(i)))
            dl.reg = o
            dl.regf = f
            return True
        return False

    def data_hvar(self, dl, loop, name, v):
        return None

    def data_head(self, dl, loop, new):
        pass

    def data_exit(self, dl, loop, new):
        self.final_reg = getattr(dl, "regf", None)

    def cond(self, dl, k):
        C = E.CTX
        f = getattr(dl, "regf", None)
        if f is None:
            f = lambda i: z3.IntVal(0)
        j = z3.Int(C.fresh("cc"))
        r = CREG(k)
        return z3.And(z3.Implies(CK(k) == 1, f(CCB(k)) == CV(k)),
                      z3.Implies(CK(k) == 2, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < RSZ(r)), f(RB(r, j)) == z3.If(E.BIT(CV(k), j), z3.IntVal(1), z3.IntVal(0))))))

    def step(self, dl, loop, loc, k, kd, fs):
        C = E.CTX
        kind = kd["kind"]
        fs = reduce(fs)
        pos = getattr(self, "pos", lambda q: q)
        if kind == "barrier" or (kind == "measure" and self.stable):
            ops_equal(self.lab(f"{kd['name']} leaves the state unchanged"), fs, [])
            return self.register(dl, k, None)
        if kind in ("other", "maybe", "initialize") and not self.stable and CK_possible(C, k) and C.proved(z3.Not(self.cond(dl, k))):
            return
        if kind == "other":
            C.fact(False, self.lab("an unsupported instruction is refused"), f"{kd['name']} was passed over")
            return
        if kind in ("maybe", "initialize"):
            raise Undecided(f"{kd['name']} is accepted")
        want = None
        if kind in ("gate", "unitary", "qdd"):
            want = self.expected(k, kd, pos)
        cond = None if self.stable else self.cond(dl, k)
        changed = bool(fs) or (dl.reg is not None and self.regchanged(dl, loop))
        if not changed:
            if want is not None and not reduce(list(want)):
                return
            if self.stable:
                if want is not None:
                    ops_equal(self.lab(f"{kd['name']}: the state is evolved by the instruction's unitary"), fs, want)
                return
            C.prove(z3.Not(cond), f"C18 {kd['name']} is left out only if its condition does not hold" if CK_possible(C, k) else self.lab(f"{kd['name']} is not left out"))
            return
        if cond is not None:
            C.prove(cond, f"C18 {kd['name']} takes effect only if its condition holds")
        if want is not None:
            ops_equal(self.lab(f"{kd['name']}: the state is evolved by the instruction's unitary"), fs, want)
            return self.register(dl, k, None)
        # measurement and reset
        q = pos(I(QB(k, 0)))
        colls = [f for f in fs if f.kind == "coll"]
        if len(colls) != 1 or fs[0] is not colls[0]:
            raise Undecided(f"{kd['name']} is done as {fs}")
        C.prove(zi(colls[0].tgt[0]) == zi(q), f"C18 {kd['name']} measures its own qubit")
        o = colls[0].extra
        if kind == "measure":
            ops_equal("C18 measurement collapses the qubit and does nothing else", fs[1:], [])
            return self.register(dl, k, o)
        x = Fac("gate", "X", (), (q,), ())
        if C.proved(o.z == 1):
            ops_equal("C18 reset flips the qubit after outcome 1", fs[1:], [x])
        elif C.proved(o.z == 0):
            ops_equal("C18 reset leaves the qubit alone after outcome 0", fs[1:], [])
        else:
            raise Undecided("reset does not look at the outcome")
        return self.register(dl, k, None)

    def regchanged(self, dl, loop):
        return not E._unchanged(loop.heads[dl.reg.key], dl.reg.state())

    def register(self, dl, k, o):
        """the classical register after the instruction"""
        C = E.CTX
        if self.stable:
            return
        if dl.reg is None:
            if o is not None:
                raise Undecided("no list of classical bits found")
            return
        j = C.int("rj")
        old = dl.regf(j.z)
        want = old if o is None else z3.If(j.z == CB(k), o.z, old)
        new = dl.reg.get(j)
        C.prove(z3.Implies(z3.And(0 <= j.z, j.z < NC), zb(Dig(want) == new)),
                "C18 a measurement writes its outcome into its classical bit and changes no other" if o is not None else "C18 other instructions leave the classical bits alone")

    # ---- shots
    def setup(self):
        C = E.CTX
        self.circ = self.circuit()
        self.S = z3.Int("shots")
        C.assume(self.S >= 1)
        prop = sys.modules["qdd.circuit_property"].CircuitProperty
        from qiskit.circuit import Clbit, Qubit
        # the mapping: M distinct classical bits with the qubit last measured into them
        self.M, self.KC, self.HAS, self.VAL = z3.Int("num_measured"), z3.Function("measured_clbit", INT, INT), z3.Function("is_measured", INT, z3.BoolSort()), z3.Function("measured_qubit", INT, INT)
        M, KC, HAS, VAL = self.M, self.KC, self.HAS, self.VAL
        a, b, c = z3.Ints("ma mb mc")
        POS = z3.Function("measured_pos", INT, INT)
        C.assume(z3.And(M >= 0, z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < M), z3.And(KC(a) >= 0, KC(a) < NC, HAS(KC(a)), POS(KC(a)) == a)), patterns=[KC(a)]),
                        z3.ForAll([c], z3.Implies(HAS(c), z3.And(POS(c) >= 0, POS(c) < M, KC(POS(c)) == c)), patterns=[HAS(c)]),
                        z3.ForAll([c], z3.Implies(HAS(c), z3.And(VAL(c) >= 0, VAL(c) < N)), patterns=[VAL(c)])))
        m = VDict((), "clbit_final_values", lambda x: HAS(x.z) if type(x) is Obj and x.kind == "clbit" else z3.BoolVal(False), lambda x: Obj("qubit", VAL(x.z), Qubit),
                  Lam(I(M), lambda i: Obj("clbit", KC(zi(i)), Clbit), "measured", True))
        self.mapping = m
        if self.measured is not None:
            C.assume(M >= 1 if self.measured else M == 0)
        self.prop = prop(stable_final_state=self.stable, clbit_final_values=m)
        self.options = opts(shots=I(self.S) if self.shots else None, memory=self.memory)

    def globals(self):
        g = sys.modules["qdd.qdd_backend"].__vcglobals__
        return g

    def run(self):
        C = E.CTX
        self.setup()
        g = self.globals()
        g["Counter"] = lambda l=(): Term("Counter", l)
        b = self.backend()
        cls = type(b)
        b._save_SV = self.save
        over = {"_create_experiment_header": staticmethod(lambda c: Term("header", c))}
        old = {}
        for n, f in over.items():
            old[n] = cls.__dict__.get(n)
            setattr(cls, n, f)
        try:
            r, e = self.call(b._evaluate_circuit, self.circ, self.prop, self.options)
        finally:
            for n, f in old.items():
                setattr(cls, n, f)
        if e is not None:
            self.raised(e)
        else:
            self.done(r)

    def raised(self, e):
        C = E.CTX
        ks = self.curs()
        if ks:
            kd = self.kind(ks[-1])
            if kd["kind"] in ("other", "maybe", "initialize"):
                C.fact(isinstance(e, RuntimeError), self.lab("an unsupported instruction is refused"), f"{type(e).__name__} instead of RuntimeError")
                return
            if self.shots is None or not self.shots:
                if not self.stable and C.proved(CK(ks[-1]) != 0):
                    C.fact(isinstance(e, RuntimeError), "C18 conditions are refused when no shots are taken", repr(e))
                    return
            if kd["kind"] == "qdd" and isinstance(e, AssertionError):
                raise Undecided(repr(e))
        j = z3.Int(C.fresh("cj"))
        if C.proved(z3.Exists([j], z3.And(0 <= j, j < LEN, CK(j) != 0))):
            if self.stable:
                return        # excluded by the postcondition of _validate_and_get_circuit_property
            if self.shots is None or not self.shots:
                C.fact(isinstance(e, RuntimeError), "C18 conditions are refused when no shots are taken", repr(e))
                return
        C.fact(False, self.lab("a valid run is not refused"), f"{type(e).__name__}: {e}")

    def done(self, r):
        C = E.CTX
        if not isinstance(r, dict) or type(r) is not VDict:
            raise Undecided("result is not a dictionary")
        get = lambda d, k: d.lookup(k)[1]
        edge = get(r, "edge")
        if self.stable:
            if type(edge) is not State or self.final is None:
                raise Undecided(f"final state {edge!r}")
            if edge.base != self.final.base:
                C.fact(False, "C16 the final state is that after the last instruction", repr(edge))
            else:
                fs = reduce(list(edge.fs))
                ph = Rv(z3.Real("global_phase"))
                if not self.mpi:
                    ops_equal("C16 the global phase is applied once at the end", fs, [Fac("phase", None, (ph,))])
        d = get(r, "data")
        C.fact(get(r, "success") is True, "C17 the result is marked successful", repr(get(r, "success")))
        h = get(r, "header")
        C.fact(type(h) is Term and h.f == "header" and h.a[0] is self.circ, "C17 the header is that of the circuit that was run", repr(h))
        if self.shots:
            self.counts(r, d)
        else:
            self.probs(r, d)

    # counts and memory
    def counts(self, r, d):
        C = E.CTX
        sh = r.lookup("shots")[1]
        C.prove(zi(sh) == self.S, "C17 the result reports the requested number of shots")
        c = d.lookup("counts")[1]
        if type(c) is not Term or c.f != "Counter":
            raise Undecided(f"counts {c!r}")
        l = c.a[0]
        p = "C17" if self.stable else "C18"
        if type(l) is not VList:
            raise Undecided(f"counts of {l!r}")
        C.prove(zi(l.length()) == self.S, "C17 there is one outcome string per shot")
        if not getattr(self, "checked_shots", False):
            raise Undecided("no loop over the shots that fills the outcome strings")
        C.fact(l is self.outlist, "C17 the counts are those of the per-shot outcomes", repr(l))
        ok, m = d.lookup("memory")
        if self.memory:
            C.fact(ok and m is self.outlist, "C17 memory is the list of per-shot outcomes", repr(m))

    def probs(self, r, d):
        C = E.CTX
        p = d.lookup("probabilities")[1]
        acc = getattr(p, "accum", None) if type(p) is VDict else None
        if not acc:
            raise Undecided(f"probabilities {p!r}")
        kf, df, n, q, hf, vf = acc
        if not self.stable:
            raise Undecided("not covered: probabilities of runs with mid-circuit measurement")
        if len(self.samples) != 1:
            raise Undecided("probabilities of several states")
        s = self.samples[0][0]
        C.fact(self.final is not None and s.base == self.final.base and not [f for f in reduce(list(s.fs)) if f.kind != "phase"], "C17 the probabilities are those of the final state", repr(s))
        C.prove(zi(n) == E.POW2(N), "C17 every basis state contributes to the probabilities")
        i, c = C.int("basis"), C.int("cbit")
        C.assume(z3.And(0 <= i.z, i.z < zi(n), 0 <= c.z, c.z < NC))
        key, dl = kf(i), df(i)
        prob = q
        base = base_of(q)
        pe = base.get(i)
        C.prove(zb(dl == pe), "C17 every basis state contributes its own probability")
        for name, inst in list(getattr(self, "sums", {}).items()):
            inst(key)
        if C.proved(self.M == 0):
            C.prove(zi(key) == i.z, "C17 without measurements the keys are the basis states")
            return
        C.prove(E.BIT(zi(key), c.z) == z3.And(self.HAS(c.z), E.BIT(i.z, self.VAL(c.z))), "C17 a basis state counts for the classical value with each bit that of the qubit last measured into it")

    def sumseq(self, q, start):
        C = E.CTX
        if type(q) is QComp and q.cond is None and type(q.val) is I and q.val.shl and type(start) is int and start == 0:
            bit, cid = q.val.shl
            j = q.j
            rng = q.rng()
            a = z3.Int(C.fresh("sj"))
            S = lambda z, x: z3.substitute(z, (j, x))
            C.prove(z3.Implies(z3.And(rng, S(rng, a), j != a), S(cid, a) != cid), "C17 the classical bits of the sum are distinct")
            free = sorted([x for x in leavesi(z3.And(rng, bit == 0, cid == 0)) if not z3.eq(x, j)], key=str)
            txt = z3.And(rng, bit == 0, cid == 0).sexpr().replace(str(j), "@")
            import hashlib
            nm = "sumbits_" + hashlib.sha1(txt.encode()).hexdigest()[:8]
            F = z3.Function(nm, *([INT] * (len(free) + 1)))
            c = z3.Int(C.fresh("sc"))

            def inst(vals, free=free):
                sub = list(zip(free, vals))
                X = lambda z: z3.substitute(z, *sub) if sub else z
                f = F(*vals)
                return z3.And(z3.ForAll([j], z3.Implies(X(rng), E.BIT(f, X(cid)) == (X(bit) == 1))),
                              z3.ForAll([c], z3.Implies(E.BIT(f, c), z3.Exists([j], z3.And(X(rng), X(cid) == c)))), f >= 0)
            C.assume(z3.ForAll([j], z3.Implies(rng, z3.And(bit >= 0, bit <= 1))) if False else z3.BoolVal(True))
            C.assume(inst(free))
            self.sums = getattr(self, "sums", {})

            def again(key):
                st = [zi(key)]
                while st:
                    e = st.pop()
                    if z3.is_app(e) and e.decl().name() == nm:
                        C.assume(inst([e.arg(n) for n in range(e.num_args())]))
                        return
                    st += e.children()
            self.sums[nm] = again
            self.trusted.add("lemma: a sum of distinct powers of two has exactly those bits")
            return I(F(*free))
        return super().sumseq(q, start)


def CK_possible(C, k):
    return not C.proved(CK(k) == 0)


def leavesi(z):
    out, st, seen = [], [z], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            st.append(e.body())
        elif z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == INT:
            out.append(e)
        elif z3.is_app(e):
            st += e.children()
    return out


class ShotLoop:
    """one iteration per shot, filling the outcome list"""
    def __init__(self, spec, loop):
        self.s, self.l, self.out = spec, loop, None

    def enter(self, loop, loc):
        self.cands = [o for o in loop.objs0.values() if o.key in loop.info.mod_objs and type(o) is VList and loop.info.mod_objs[o.key][0] == "any" and E.CTX.proved(zi(o.length()) == self.s.S)]

    def head(self, loop, new):
        self.nsamples = len(self.s.samples)
        self.s.final0 = self.s.final

    def hobj(self, loop, o):
        if o in self.cands:
            if len(self.cands) > 1:
                raise Undecided("several lists with one entry per shot")
            self.out = o
            n = o.length()
            o.conc, o.n, o.writes = None, n, ()
            o.base = lambda i: Term("earlier outcome", i)
            return True
        return False

    def hvar(self, loop, name, v):
        return None

    def exit(self, loop, new):
        if self.out is not None:
            self.s.outlist = self.out
            self.s.checked_shots = True

    def back(self, loop, loc):
        s, C = self.s, E.CTX
        if self.out is None:
            return
        p = "C17" if s.stable else "C18"
        w = self.out.writes
        if len(w) != 1:
            C.fact(False, f"{p} each shot writes its outcome string", f"{len(w)} writes")
            return
        i, v = w[0]
        C.prove(zi(i) == loop.k.z, f"{p} each shot writes its own entry")
        if type(v) is not Term or v.f != "join" or v.a[0] != "":
            raise Undecided(f"outcome string {v!r}")
        q = seq(v.a[1])
        C.prove(zi(q.length()) == NC, f"{p} the outcome string has one character per classical bit")
        c = C.int("bit")
        C.assume(z3.And(c.z >= 0, c.z < NC))
        if C.check() == z3.unsat:
            return
        ch = q.get(mki(NC - 1 - c.z))
        if s.stable:
            new = s.samples[self.nsamples:]
            if len(new) != 1 or new[0][1] is None:
                raise Undecided("one measurement of all qubits per shot is expected")
            st, wf = new[0]
            C.fact(s.final is not None and st.base == s.final.base and not [f for f in reduce(list(st.fs)) if f.kind != "phase"], "C17 every shot samples the final state", repr(st))
            want = z3.If(s.HAS(c.z), wf(s.VAL(c.z)), z3.IntVal(0))
            lab = "C17 each classical bit shows the sampled value of the qubit last measured into it, bit 0 rightmost"
        else:
            if getattr(s, "final_reg", None) is None:
                raise Undecided("classical register of this shot not identified")
            want = s.final_reg(c.z)
            lab = "C18 the reported bits are the classical bits at the end of that shot, bit 0 rightmost"
        C.prove(zb(Dig(want) == ch), lab)


def _loop_range(self, loop):
    C = E.CTX
    b = base_of(loop.q)
    if C.proved(zi(b.length()) == self.S) and z3.is_true(z3.simplify(zi(b.get(I(loop.k.z))) == loop.k.z)):
        return self.loop_shots(loop)
    return None


Evaluate.loop_range = _loop_range



# ------------------------------------------------------------------------------------------------ circuit properties
MQ, LH, LV, OKP = z3.Function("measured_before", INT, INT, z3.BoolSort()), z3.Function("assigned_before", INT, INT, z3.BoolSort()), z3.Function("last_measured", INT, INT, INT), z3.Function("static_prefix", INT, z3.BoolSort())


class Validate(Run):
    """QddBackend._validate_and_get_circuit_property"""
    prefix = "C18"

    def loop_data(self, loop):
        return ValidateLoop(self, loop)

    def setlen(self, s):
        try:
            return super().setlen(s)
        except Undecided:
            C = E.CTX
            n, w, x = C.int("setsize"), z3.Int(C.fresh("elem")), z3.Int(C.fresh("ax"))
            q = lambda z: Obj("qubit", z)
            C.assume(z3.And(n.z >= 0, z3.Implies(n.z > 0, s.mem(q(w))), z3.Implies(n.z == 0, z3.ForAll([x], z3.Not(s.mem(q(x)))))))
            return n

    def nonempty(self, s):
        return zi(self.setlen(s)) > 0

    def unfold(self, k, kd):
        C = E.CTX
        x, c = z3.Int(C.fresh("ux")), z3.Int(C.fresh("uc"))
        meas = kd["kind"] == "measure"
        q = [QB(k, j) for j in range(kd["nt"] + kd["nc"])]
        b = z3.BoolVal
        C.assume(z3.ForAll([x], MQ(k + 1, x) == z3.Or(MQ(k, x), z3.And(b(meas), x == QB(k, 0)))))
        C.assume(z3.ForAll([c], z3.And(LH(k + 1, c) == z3.Or(LH(k, c), z3.And(b(meas), c == CB(k))), LV(k + 1, c) == z3.If(z3.And(b(meas), c == CB(k)), QB(k, 0), LV(k, c)))))
        if kd["kind"] == "barrier":
            step = b(True)
        elif meas:
            step = CK(k) == 0
        else:
            nm = [z3.Function("name_is_" + n, INT, z3.BoolSort())(k) for n in ("kraus", "superop")] if kd["kind"] == "other" else []
            step = z3.And(CK(k) == 0, *[z3.Not(MQ(k, y)) for y in q], b(kd["kind"] != "reset"), *[z3.Not(n) for n in nm])
        C.assume(OKP(k + 1) == z3.And(OKP(k), step))

    def run(self):
        C = E.CTX
        mod = sys.modules["qdd.qdd_backend"]
        circ = self.circuit()
        x, j = z3.Ints("vx vj")
        C.assume(z3.And(z3.ForAll([x], z3.And(z3.Not(MQ(0, x)), z3.Not(LH(0, x)))), OKP(0),
                        z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j <= LEN, MQ(j, x)), MQ(LEN, x)), patterns=[MQ(j, x)])))
        req = B(z3.Bool("require_measurement"))
        r, e = self.call(mod.QddBackend._validate_and_get_circuit_property, circ, req)
        lim = mod.QddBackend._DEFAULT_CONFIG["n_qubits"]
        x = C.int("anyqubit")
        if e is not None:
            C.fact(isinstance(e, RuntimeError), "C21 a refused circuit is refused by an error", repr(e))
            w = z3.Int(C.fresh("w"))
            C.prove(z3.Or(N > lim, z3.And(req.z, z3.Not(MQ(LEN, x.z)))), "C21 a circuit within the limits and with a measurement is accepted")
            return
        C.prove(N <= lim, "C21 a circuit with more qubits than the limit is refused")
        if not getattr(self, "seen", False):
            raise Undecided("no loop over the instructions")
        for k in self.curs():      # a loop left early: what the last instruction contributes
            if self.split(k):
                self.unfold(k, self.kind(k))
        y = z3.Int(C.fresh("ay"))
        C.prove(z3.Implies(req.z, z3.Exists([y], MQ(LEN, y))), "C21 a circuit without measurement is refused when one is required")
        st = r.stable_final_state
        C.prove(z3.Implies(zb(st), OKP(LEN)), "C18 the final state is reused for all shots only if no instruction is conditioned, resets, or acts on a measured qubit")
        m = r.clbit_final_values
        if C.check(zb(st)) != z3.unsat:
            C.assume(zb(st))
            c = C.int("anyclbit")
            from qiskit.circuit import Clbit
            if type(m) is not VDict:
                raise Undecided("mapping")
            ok, v = m.lookup(Obj("clbit", c.z, Clbit))
            C.prove(LH(LEN, c.z) == z3.BoolVal(bool(ok)), "C17 exactly the classical bits measured into are mapped")
            if ok:
                C.prove(zb(v == Obj("qubit", LV(LEN, c.z))), "C17 a classical bit is mapped to the qubit last measured into it")


class ValidateLoop:
    def __init__(self, s, l):
        self.s, self.l = s, l
        self.set = self.dict = self.var = None
        s.seen = True

    def enter(self, loop, loc):
        C = E.CTX
        x = C.int("ex")
        from qiskit.circuit import Clbit
        for o in loop.objs0.values():
            if o.key in loop.info.mod_objs:
                if type(o) is VSet:
                    if self.set:
                        raise Undecided("two sets")
                    self.set = o
                    C.prove(z3.Not(o.mem(Obj("qubit", x.z))), "C18 no qubit is measured before the first instruction")
                elif type(o) is VDict:
                    if self.dict:
                        raise Undecided("two dictionaries")
                    self.dict = o
                    C.fact(not o.lookup(Obj("clbit", x.z, Clbit))[0], "C17 no classical bit is assigned before the first instruction")
        bs = [n for n in loop.info.mod_vars if isinstance(loc.get(n), bool)]
        if len(bs) > 1:
            raise Undecided("two flags")
        self.var = bs[0] if bs else None

    def hobj(self, loop, o):
        k = loop.k.z
        from qiskit.circuit import Clbit, Qubit
        if o is self.set:
            o.pred, o.ops, o.size0, o.elems0 = (lambda q: MQ(k, q.z) if type(q) is Obj and q.kind == "qubit" else z3.BoolVal(False)), (), None, None
            return True
        if o is self.dict:
            o.has0, o.val0, o.keys0, o.writes = (lambda c: LH(k, c.z)), (lambda c: Obj("qubit", LV(k, c.z), Qubit)), None, []
            return True
        return False

    def hvar(self, loop, name, v):
        if name == self.var:
            b = B(z3.Bool(E.CTX.fresh("flag")))
            E.CTX.assume(z3.Implies(b.z, OKP(loop.k.z)))
            return b
        return None

    def head(self, loop, new):
        pass

    def exit(self, loop, new):
        pass

    def back(self, loop, loc):
        C, s = E.CTX, self.s
        it = loop.cur[1] if isinstance(loop.cur, tuple) else loop.cur
        if type(it) is not Item or not z3.eq(z3.simplify(it.k), z3.simplify(loop.k.z)):
            raise Undecided("order of the loop")
        k = it.k
        kd = s.kind(k)
        s.unfold(k, kd)
        self.inv(k + 1, loc[self.var] if self.var else None, kd)

    def inv(self, k, flag, kd):
        C = E.CTX
        from qiskit.circuit import Clbit
        x, c = C.int("ix"), C.int("ic")
        if self.set is not None:
            C.prove(self.set.mem(Obj("qubit", x.z)) == MQ(k, x.z), f"C18 {kd['name']}: the measured qubits are recorded")
        if flag is not None:
            C.prove(z3.Implies(zb(flag), OKP(k)), f"C18 {kd['name']}: the final state stays static only if the instruction does not depend on measurement")
        elif self.var is None and self.set is not None:
            pass
        if self.dict is not None:
            ok, v = self.dict.lookup(Obj("clbit", c.z, Clbit))
            C.prove(LH(k, c.z) == z3.BoolVal(bool(ok)), f"C17 {kd['name']}: the assigned classical bits are recorded")
            if ok:
                C.prove(zb(v == Obj("qubit", LV(k, c.z))), f"C17 {kd['name']}: each classical bit is mapped to the qubit last measured into it")


# ------------------------------------------------------------------------------------------------ merge_circuit
class Merge(Run):
    """QddBackend.merge_circuit"""
    prefix = "C23"
    stable = True

    def __init__(self, py):
        super().__init__(py)
        self.stable = False

    def loop_data(self, loop):
        return DataLoop(self, loop)

    def entered(self, dl, loop, loc):
        pass

    def data_hobj(self, dl, loop, o):
        return False

    def data_hvar(self, dl, loop, name, v):
        return None

    def data_head(self, dl, loop, new):
        pass

    def data_exit(self, dl, loop, new):
        pass

    def step(self, dl, loop, loc, k, kd, fs):
        C = E.CTX
        if kd["kind"] in ("barrier", "measure"):
            ops_equal(f"C23 {kd['name']} is ignored", fs, [])
            return
        if kd["kind"] in ("reset", "other", "initialize"):
            C.fact(False, f"C23 {kd['name']} is refused", "it was passed over")
            return
        if kd["kind"] == "maybe":
            raise Undecided(f"{kd['name']} is accepted")
        C.prove(CK(k) == 0, f"C23 a conditioned {kd['name']} is refused")
        ops_equal(f"C23 {kd['name']}: the operator is multiplied by the instruction's unitary from the left", fs, self.expected(k, kd))

    def run(self):
        C = E.CTX
        self.circ = self.circuit()
        b = self.backend()
        b._options = types.SimpleNamespace(show_progress=False, show_progress_frequency=10000)
        r, e = self.call(b.merge_circuit, self.circ)
        if e is not None:
            ks = self.curs()
            if ks:
                kd = self.kind(ks[-1])
                if kd["kind"] in ("reset", "other", "initialize", "maybe") or C.proved(CK(ks[-1]) != 0):
                    C.fact(isinstance(e, RuntimeError), f"C23 what has no unitary is refused with an error", repr(e))
                    return
            C.fact(False, "C23 a circuit of supported unitary instructions is merged", f"{type(e).__name__}: {e}")
            return
        if type(r) is not Op or self.final is None:
            raise Undecided(f"result {r!r}")
        ops_equal("C23 the global phase is applied once", list(r.fs), [self.final.fs[0], Fac("phase", None, (Rv(z3.Real("global_phase")),))])


# ------------------------------------------------------------------------------------------------ running: options, batches, jobs
OPTS = ("shots", "memory", "seed_simulator", "use_mpi", "use_bcast", "use_auto_swap", "swap_ver", "n_threads", "show_progress", "show_progress_frequency")


class Batch(Run):
    """shared by the contracts of run, _run_internal, _run_experiment"""
    prefix = "C21"

    def attr(self, o, n):
        if o.kind == "circuit":
            if n == "assign_parameters":
                def bind(b, inplace=False, **k):
                    if inplace or k:
                        raise Undecided("assign_parameters with other arguments")
                    return Term("bound", o, b)
                return bind
            if n == "name":
                return Term("name", o)
            if n in ("num_parameters",):
                return I(z3.Function("num_parameters", INT, INT)(o.z))
            return E.NOATTR
        if o.kind == "entry" and n == "name":
            return Term("name", o)
        return super().attr(o, n)

    def seqof(self, o):
        return None

    def isinstance(self, x, t):
        from qiskit import QuantumCircuit
        if type(x) is Obj and x.kind == "entry":
            ts = t if isinstance(t, tuple) else (t,)
            return B(z3.Function("is_circuit", INT, z3.BoolSort())(x.z)) if QuantumCircuit in ts else False
        return None

    def circuits(self, name="circuits", kind="circuit"):
        from qiskit import QuantumCircuit
        C = E.CTX
        n = z3.Int("number_of_" + name)
        C.assume(n >= 0)
        return VList(None, name, I(n), lambda i: Obj(kind, zi(i), QuantumCircuit if kind == "circuit" else None)), n

    def loop(self, loop):
        return None

    def stub(self, g):
        class Result:
            @staticmethod
            def from_dict(d):
                return Term("Result", d)
        g["Result"] = Result
        g["traceback"] = types.SimpleNamespace(print_exc=lambda *a, **k: None, format_exc=lambda *a, **k: "")
        def vmap(f, *xs):
            q = [seq(x) for x in xs]
            if len(q) == 1 and q[0] is not None and type(q[0].length()) is not int:
                return Lam(q[0].length(), lambda i: Term("map", q[0].get(i)))
            return map(f, *xs)
        g["map"] = vmap
        self.warned = []
        g["warn"] = lambda *a, **k: self.warned.append(a)

    def mod(self):
        m = sys.modules["qdd.qdd_backend"]
        self.stub(m.__vcglobals__)
        return m

    def result(self, r, label):
        """dictionary of a Result"""
        if type(r) is not Term or r.f != "Result" or type(r.a[0]) is not VDict:
            raise Undecided(f"{label}: {r!r}")
        return r.a[0]

    def samelist(self, q, n, f, label):
        """sequence of n elements f(i)"""
        C = E.CTX
        q = seq(q)
        if q is None:
            raise Undecided(f"{label}: not a sequence")
        C.prove(zi(q.length()) == n, label)
        j = C.int("any")
        if C.check(z3.And(0 <= j.z, j.z < n)) == z3.unsat:
            return
        C.solver.push()
        try:
            C.solver.add(0 <= j.z, j.z < n)
            v, w = q.get(j), f(j)
            c = same(v, w)
            if c is None:
                if type(v) is Term and type(w) is Term and (v.f, len(v.a)) != (w.f, len(w.a)) or type(v) is not type(w):
                    C.results.append((label, False, f"{v!r} instead of {w!r}", C.trace()))
                    return
                raise Undecided(f"{label}: {v!r} and {w!r}")
            C.prove(c, label, f"{v!r} instead of {w!r}")
        finally:
            C.solver.pop()


def vis(v, w, label):
    """value v is w"""
    C = E.CTX
    c = same(v, w)
    if c is None:
        if isinstance(v, Term) and not isinstance(w, Term) and type(v) is Term and v.f in ("opt",):
            C.fact(False, label, f"{v!r} instead of {w!r}")
            return
        if type(v) is Term and type(w) is Term and v.f != w.f or not isinstance(v, Sym) or not isinstance(w, Sym):
            C.fact(False, label, f"{v!r} instead of {w!r}")
            return
        raise Undecided(f"{label}: {v!r} and {w!r}")
    C.prove(c, label, f"{v!r} instead of {w!r}")


class ValidateOptions(Batch):
    """QddBackend._validate_run_options"""
    def run(self):
        C = E.CTX
        mod = self.mod()
        b = self.backend()
        b._options = mod.QddBackend._default_options()
        lim = mod.QddBackend._DEFAULT_CONFIG["max_shots"]
        i = C.case(7)
        n = C.int("shots")
        sh = (n, None, True, False, Rv(z3.Real("fractional_shots")), "10", ...)[i]
        d = {} if sh is ... else {"shots": sh}
        if C.case(2):
            d["parameter_binds"] = Term("binds")
        if C.case(2):
            d["some_unknown_option"] = Term("value")
        if C.case(2):
            d["memory"] = True
        r, e = self.call(b._validate_run_options, d)
        if type(sh) is I:
            valid = z3.And(n.z >= 1, n.z <= lim)
        else:
            valid = z3.BoolVal(sh is None or sh is True or sh is ...)
        if e is None:
            C.prove(valid, "C21 a shot count that is not an integer from 1 to the maximum is refused", f"shots={sh!r} is accepted")
        else:
            C.prove(z3.Not(valid), "C21 an absent shot count or an integer from 1 to the maximum is accepted", f"shots={sh!r}: {type(e).__name__}: {e}")
            C.fact(isinstance(e, RuntimeError), "C21 a refused shot count is reported by an error", repr(e))


class RunInternal(Batch):
    """QddBackend._run_internal"""
    def run(self):
        C = E.CTX
        mod = self.mod()
        b = self.backend()
        circs, n = self.circuits()
        lim = mod.QddBackend._DEFAULT_CONFIG["max_shots"]
        dflt, given = {}, {}
        for o in OPTS:
            dflt[o], given[o] = Term("opt", o, "backend"), Term("opt", o, "run")
        dflt["shots"], given["shots"] = I(z3.Int("backend_shots")), I(z3.Int("run_shots"))
        from qiskit.providers import Options
        b._options = Options(**dflt)
        # which options the run gives: none, each one alone, all, all but one, and values that count as false
        w = C.case(2 * len(OPTS) + 3)
        if w < len(OPTS):
            run = {OPTS[w]: given[OPTS[w]]}
        elif w < 2 * len(OPTS):
            run = {o: given[o] for o in OPTS if o != OPTS[w - len(OPTS)]}
        elif w == 2 * len(OPTS):
            run = dict(given)
        elif w == 2 * len(OPTS) + 1:
            run = {"memory": False, "use_auto_swap": False, "seed_simulator": 0, "shots": None, "show_progress": False, "swap_ver": "", "n_threads": 0, "use_mpi": False, "use_bcast": False, "show_progress_frequency": 0}
        else:
            run = {}
        binds = None
        bk = C.case(3)
        m = z3.Int("number_of_bindings")
        if bk == 1:
            C.assume(m >= 0)
            binds = VList(None, "parameter_binds", I(m), lambda i: Obj("binding", zi(i)))
            run["parameter_binds"] = binds
        elif bk == 2:
            run["parameter_binds"] = None
        b._save_SV = bool(C.case(2))
        ran, checked = [], []

        def experiment(exp, job_id):
            ran.append((exp, job_id))
            return Term("result of the job")
        b._run_experiment = experiment
        cls = type(b)
        old = cls.__dict__.get("_validate_and_get_circuit_property")

        def prop(circ, require_measurement=True):
            return Term("property", circ, require_measurement)
        cls._validate_and_get_circuit_property = staticmethod(prop)
        try:
            r, e = self.call(b._run_internal, circs, **run)
        finally:
            cls._validate_and_get_circuit_property = old
        eff = {o: run.get(o, dflt[o]) for o in OPTS}
        sh = eff["shots"]
        valid = z3.And(sh.z >= 1, sh.z <= lim) if type(sh) is I else z3.BoolVal(sh is None)
        fits = m == n if bk == 1 else z3.BoolVal(True)
        if e is not None:
            C.prove(z3.Not(z3.And(valid, fits)), "C21 a valid run is accepted", f"{type(e).__name__}: {e}")
            C.fact(isinstance(e, RuntimeError), "C21 a refused run is reported by an error", repr(e))
            C.fact(not ran, "C21 a refused run is not carried out")
            return
        C.prove(valid, "C21 the effective shot count (run option, else backend option) is checked")
        C.prove(fits, "C21 a batch with another number of parameter bindings than circuits is refused")
        C.fact(len(ran) == 1, "C21 the batch is carried out once", len(ran))
        if len(ran) != 1:
            return
        exp, jid = ran[0]
        o = exp.options
        if type(o) is not VDict:
            raise Undecided("options")
        for k in OPTS:
            ok, v = o.lookup(k)
            if not ok:
                raise Undecided(f"option {k} is passed differently")
            vis(v, eff[k], f"C21 the option {k} of the run is used, else that of the backend")
        circ = lambda i: Obj("circuit", zi(i))
        want = (lambda i: Term("bound", circ(i), Obj("binding", zi(i)))) if bk == 1 else circ
        self.samelist(exp.circs, n, want, "C21 every circuit of the batch gets its own parameter binding, in order")
        self.samelist(exp.circuit_props, n, lambda i: Term("property", want(i), not b._save_SV), "C21 every bound circuit is validated, and a measurement required unless the statevector is saved")
        vis(r.result(), Term("result of the job"), "C21 the job returns the result of its batch")
        from qiskit.providers import JobStatus
        C.fact(r.status() == JobStatus.DONE, "C21 the job of an accepted run is done", repr(r.status()))


class RunExperiment(Batch):
    """QddBackend._run_experiment"""
    def run(self):
        C = E.CTX
        mod = self.mod()
        b = self.backend()
        circs, n = self.circuits()
        props = VList(None, "props", I(n), lambda i: Obj("property", zi(i)))
        seedv = (None, 0, I(z3.Int("seed")))[C.case(3)]
        nt = z3.Int("threads")
        o = VDict([("n_threads", I(nt)), ("seed_simulator", seedv), ("shots", I(z3.Int("shots"))), ("memory", False)])
        b._configuration = types.SimpleNamespace(backend_name="name", backend_version="version")
        b.configuration = lambda: b._configuration

        def evaluate(circ, prop, opt):
            self.event("evaluate", circ, prop)
            return Term("evaluated", circ, prop, opt is o)
        b._evaluate_circuit = evaluate
        exp = mod.QddExperiments(circs=circs, circuit_props=props, options=o)
        r, e = self.call(b._run_experiment, exp, "job")
        if e is not None:
            C.fact(False, "C21 a valid batch is carried out", f"{type(e).__name__}: {e}")
            return
        d = self.result(r, "result of the batch")
        get = lambda k: d.lookup(k)[1]
        self.samelist(get("results"), n, lambda i: Term("evaluated", Obj("circuit", zi(i)), Obj("property", zi(i)), True), "C21 every circuit gets its own result, in order, with its own property and the options of the run")
        C.fact(get("success") is True, "C21 a carried-out batch is successful", repr(get("success")))
        ev = [x[0] for x in self.events]
        ss = [x for x in self.events if x[0] == "set_seed"]
        if seedv is None:
            C.fact(not ss, "C21 without a seed the generator is left alone", repr(ss))
        else:
            C.fact(len(ss) == 1, "C21 the seed of the run is used", repr(ss))
            if len(ss) == 1:
                vis(ss[0][1], seedv, "C21 the seed of the run is used")
                C.fact("evaluate" not in ev or ev.index("set_seed") < ev.index("evaluate"), "C21 the seed is set before the first circuit is evaluated", repr(ev))
        mt = [x for x in self.events if x[0] == "initMT"]
        if mt:
            vis(mt[0][1], I(nt), "C21 the number of threads of the run is used")
        C.prove(nt > 1 if mt else nt <= 1, "C21 worker threads are used exactly if asked for")
        C.fact(ev.count("initMT") == ev.count("terminateMT"), "C21 worker threads are ended after the run", repr(ev))


class RunTop(Batch):
    """QddBackend.run, QddFailedJob"""
    def run(self):
        C = E.CTX
        mod = self.mod()
        b = self.backend()
        b._configuration = types.SimpleNamespace(backend_name="name", backend_version="version")
        b.configuration = lambda: b._configuration
        from qiskit import QuantumCircuit
        isc = z3.Function("is_circuit", INT, z3.BoolSort())
        kind = C.case(5)
        n = None
        if kind == 0:
            arg = Obj("circuit", z3.Int("single"), QuantumCircuit)
        elif kind == 1:
            arg, n = self.circuits("entries", "entry")
        elif kind == 2:
            arg = VList([], "empty")
        elif kind == 3:
            arg = 5
        else:
            arg = None
        raised = (None, RuntimeError("refused"), ValueError("bad value"), KeyError("key"), AssertionError("assertion"), ZeroDivisionError("division"))[C.case(6)]
        calls = []

        def internal(cs, **k):
            calls.append((cs, k))
            if raised is not None:
                raise raised
            return Term("job")
        b._run_internal = internal
        opt = {"shots": I(z3.Int("shots")), "memory": Term("opt", "memory", "run")} if C.case(2) else {}
        r, e = self.call(b.run, arg, **opt)
        if e is not None:
            C.fact(False, "C21 a refused run gives a failed job instead of an exception", f"{type(e).__name__}: {e}")
            return
        j = z3.Int(C.fresh("anyentry"))
        good = {0: z3.BoolVal(True), 2: z3.BoolVal(True), 3: z3.BoolVal(False), 4: z3.BoolVal(False)}.get(kind)
        if kind == 1:
            good = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), isc(j)))
        if calls:
            C.prove(good, "C21 only circuits are run")
            C.fact(len(calls) == 1, "C21 the batch is run once", len(calls))
            cs, k = calls[0]
            if kind == 0:
                self.samelist(cs, z3.IntVal(1), lambda i: arg, "C21 a single circuit is a batch of one")
            elif kind == 1:
                self.samelist(cs, n, lambda i: Obj("entry", zi(i)), "C21 the circuits of the batch are run in order")
            C.fact(set(k) == set(opt) and all(k[x] is opt[x] for x in opt), "C21 the options of the run are passed on", repr(k))
            if raised is None:
                vis(r, Term("job"), "C21 the job of the batch is returned")
                return
        else:
            C.prove(z3.Not(good), "C21 circuits are run", f"{arg!r} refused")
        if type(r).__name__ != "QddFailedJob":
            C.fact(False, "C21 a refused run gives a failed job", repr(r))
            return
        d = self.result(r.result(), "result of the failed job")
        get = lambda k: d.lookup(k)[1]
        C.fact(get("success") is False, "C21 a failed job is not successful", repr(get("success")))
        q = seq(get("results"))
        C.fact(q is not None and type(q.length()) is int and q.length() == 0, "C21 a failed job carries no data", repr(get("results")))
        if raised is not None and calls:
            C.fact(get("status") == str(raised), "C21 a failed job carries the error", repr(get("status")))
        from qiskit.providers import JobStatus
        C.fact(r.status() == JobStatus.ERROR, "C21 the status of a failed job is an error", repr(r.status()))


def var(e, **k):
    e.__dict__.update(k)
    return e


REG = {
    "options": lambda py: ValidateOptions(py),
    "run/internal": lambda py: RunInternal(py),
    "run/experiment": lambda py: RunExperiment(py),
    "run": lambda py: RunTop(py),
    "validate": lambda py: Validate(py),
    "merge": lambda py: Merge(py),
    "evaluate/gates": lambda py: Evaluate(py, True, True, kinds=None),
    "evaluate/memory": lambda py: Evaluate(py, True, True, kinds=("HGate",), memory=True, prefix="C17"),
    "evaluate/probabilities": lambda py: var(Evaluate(py, True, False, kinds=("HGate", "measure"), prefix="C17"), measured=True),
    "evaluate/distribution": lambda py: var(Evaluate(py, True, False, kinds=("HGate",), prefix="C17"), measured=False),
    "evaluate/dynamic/1": lambda py: Evaluate(py, False, True, kinds=("measure", "reset", "barrier", "other", "initialize", "maybe", "qdd", "unitary"), prefix="C18"),
    "evaluate/dynamic/2": lambda py: Evaluate(py, False, True, kinds=[k["name"] for k in Q.Kinds().K if k["kind"] == "gate" and k["nc"] == 0] + ["measure"], prefix="C18"),
    "evaluate/dynamic/3": lambda py: Evaluate(py, False, True, kinds=[k["name"] for k in Q.Kinds().K if k["kind"] == "gate" and k["nc"] == 1 and k["name"][:2] != "MC"] + ["measure"], prefix="C18"),
    "evaluate/dynamic/4": lambda py: Evaluate(py, False, True, kinds=["CCXGate", "C3XGate", "MCPhaseGate", "measure"], prefix="C18"),
}
