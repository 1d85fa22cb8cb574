"""Gate construction: makeGate, makeTwoQubitGate (C07, C08) - controls as an abstract ordered set, loops by invariant."""
import re
import z3
from ir import Unsupported, PTR
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv
from theory import E, NQ
from contract import *
import loops

END = 0x7fffffff
B32 = z3.BitVecSort(32)


class CtrlSet:
    """abstract value of a Controls object: an ordered set of (qubit, type), at most one entry per qubit"""

    def __init__(self, name):
        self.name = name
        self.has = z3.Function("has_" + name, B32, z3.BoolSort())
        self.neg = z3.Function("neg_" + name, B32, z3.BoolSort())
        self.nxt = z3.Function("nxt_" + name, B32, B32)
        self.wf = None

    def facts(self, vc, st, k):
        key = ("cs", self.name, k.get_id())
        known = st.g.get("known", frozenset())
        if key in known:
            return
        Atoms.keepalive.append(k)
        st.g = {**st.g, "known": known | {key}}
        n = self.nxt(k)
        st.assume(z3.Implies(self.has(k), n == k), z3.Implies(z3.Not(self.has(k)), n == self.nxt(k + 1)), n >= k,
                  z3.Or(n == END, self.has(n)))
        if self.wf is not None:
            st.assume(z3.Implies(self.has(k), self.wf(k)), z3.Implies(self.has(n), self.wf(n)))


class CtrlIter:
    def __init__(self, cs, v):
        self.cs, self.v = cs, v

    def same(self, vc, st, o):
        if not isinstance(o, CtrlIter) or o.cs is not self.cs:
            raise Unsupported("iterators of different containers")
        return conc(self.v == o.v)

    def havoc(self, vc, st, nm):
        return CtrlIter(self.cs, z3.BitVec(nm, 32))

    def __repr__(self):
        return f"it({self.v})"


def cs_of(vc, st, p):
    if isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, CtrlSet):
        return st.mem[p.o].ghost
    raise Unsupported("control set")


def it_at(vc, st, p):
    v = vc.ld(st, p, PTR)
    if not isinstance(v, CtrlIter):
        raise Unsupported("iterator")
    return v


def zero32(x=0):
    return z3.BitVecVal(x, 32)


def set_begin(vc, st, vals, ins, dem):
    cs = cs_of(vc, st, vals[0])
    cs.facts(vc, st, zero32())
    return CtrlIter(cs, cs.nxt(zero32()))


def set_end(vc, st, vals, ins, dem):
    return CtrlIter(cs_of(vc, st, vals[0]), zero32(END))


def it_cmp(neq):
    def h(vc, st, vals, ins, dem):
        a, b = it_at(vc, st, vals[0]), it_at(vc, st, vals[1])
        r = a.same(vc, st, b)
        if neq:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r
    return h


def it_deref(vc, st, vals, ins, dem):
    it = it_at(vc, st, vals[0])
    ok = vc.th.prove_bool(st, it.v != END)
    vc.oblige(st, "iterator is dereferenced inside the set", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    p = Ptr(st.new(8, "control"))
    o = st.wobj(p.o)
    o.cells[0] = (conc(it.v), 4)
    o.cells[4] = (conc(z3.If(it.cs.neg(it.v), z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))), 1)
    o.const = True
    return p


def it_inc(vc, st, vals, ins, dem):
    it = it_at(vc, st, vals[0])
    ok = vc.th.prove_bool(st, it.v != END)
    vc.oblige(st, "iterator is advanced inside the set", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    k = z3.simplify(it.v + 1)
    it.cs.facts(vc, st, k)
    vc.st_(st, vals[0], CtrlIter(it.cs, it.cs.nxt(it.v + 1)), PTR)
    return vals[0]


def it_inc_post(vc, st, vals, ins, dem):
    it = it_at(vc, st, vals[0])
    it_inc(vc, st, vals, ins, dem)
    return it


def set_empty_ctor(vc, st, vals, ins, dem):
    cs = CtrlSet(st.sym("cs").replace("!", "_"))
    cs.empty = True
    cs.elems = ()
    st.wobj(vals[0].o).ghost = cs
    return None


def set_add(vc, st, p, q, t):
    """insert a control with known type"""
    old = cs_of(vc, st, p)
    if not hasattr(old, "elems"):
        raise Unsupported("insertion into an unknown set")
    cs = CtrlSet(st.sym("cs").replace("!", "_"))
    cs.elems = old.elems + ((q, t),)
    st.wobj(p.o).ghost = cs


def set_emplace(vc, st, vals, ins, dem):
    from ir import Ty
    q = vc.ld(st, vals[1], Ty("i", 32))
    t = vc.ld(st, vc.gepc(vals[1], 4), Ty("i", 8))
    set_add(vc, st, vals[0], bv(q, 32), bv(t, 8))
    return [NULL, True]


def set_initlist(vc, st, vals, ins, dem):
    from ir import Ty
    set_empty_ctor(vc, st, vals, ins, dem)
    b, n = vals[1], vc.concretize(st, vals[2], 64)
    for i in range(n):
        q = vc.ld(st, vc.gepc(b, 8 * i), Ty("i", 32))
        t = vc.ld(st, vc.gepc(b, 8 * i + 4), Ty("i", 8))
        set_add(vc, st, vals[0], bv(q, 32), bv(t, 8))
    return None


CS = r"std::set<Control, ControlComparator, std::allocator<Control> ?>"
IT = r"std::_Rb_tree_const_iterator<Control>"


def gate_lib():
    return [
        (CS + r"::c?begin\(\) const$", set_begin, "std::set<Control> iteration visits the controls in ascending qubit order"),
        (CS + r"::c?end\(\) const$", set_end, ""),
        (CS + r"::set\(\)$", set_empty_ctor, ""),
        (CS + r"::~set\(\)$", lambda vc, st, v, i, d: None, ""),
        (CS + r"::set\(std::initializer_list<Control>", set_initlist, ""),
        (r"(std::pair<.*> )?" + CS + r"::(emplace<Control>|insert)\(Control( const)?&&?\)$", set_emplace, ""),
        (r"(bool )?std::operator!=\(" + IT, it_cmp(True), ""),
        (r"(bool )?std::operator==\(" + IT, it_cmp(False), ""),
        (IT + r"::operator(->|\*)\(\) const$", it_deref, ""),
        (IT + r"::operator\+\+\(\)$", it_inc, ""),
        (IT + r"::operator\+\+\(int\)$", it_inc_post, ""),
    ]


# ------------------------------------------------------------------ semantic families
class Fam:
    """polynomial-valued function of a level, unfolded one qubit at a time; self.ctx is the contract instance"""


class SatF(Fam):
    """1 if row r satisfies every control on qubits 0..l, else 0"""

    def __init__(self, cs):
        self.cs = cs
        self.name = "Sat_" + cs.name

    def atom(self, T, l):
        T.defs[self.name] = self
        return Poly.atom(Atoms.get(self.name, (T.lv(l),)))

    def base(self, T, st, at):
        return ONE

    def unfold(self, T, st, at, L, r, c):
        vc, cs = T.vc, self.cs
        prev = self.atom(T, L - 1)
        if hasattr(cs, "elems"):
            out = prev
            for q, t in cs.elems:
                if vc.decide(st, q == L):
                    pos = vc.decide(st, t != 0)
                    out = out if r == pos else ZERO
            return out
        cs.facts(vc, st, L)
        if not vc.decide(st, cs.has(L)):
            return prev
        return prev if vc.decide(st, cs.neg(L)) != r else ZERO


class EqX(Fam):
    """1 if row and column agree on qubits 0..l except at the targets"""

    def __init__(self, name, targets):
        self.targets, self.name = targets, "EqX_" + name

    def atom(self, T, l):
        T.defs[self.name] = self
        return Poly.atom(Atoms.get(self.name, (T.lv(l),)))

    def base(self, T, st, at):
        return ONE

    def unfold(self, T, st, at, L, r, c):
        for t in self.targets:
            if T.vc.decide(st, t == L):
                if all(T.vc.decide(st, u > t) for u in self.targets if u is not t):
                    return T.D("m", T.T["m"], L - 1)      # lowest target: identity below
                return self.atom(T, L - 1)
        return self.atom(T, L - 1) if r == c else ZERO


class Sel(Fam):
    """entry of the gate matrix selected by row and column at the targets (a list of target qubits, highest first)"""

    def __init__(self, name, targets, fn):
        self.name, self.targets, self.fn = "Sel_" + name, targets, fn

    def atom(self, T, l=None, key=""):
        """l: level at which it is looked at - only its identity matters"""
        n = self.name + key
        T.defs[n] = self
        return Poly.atom(Atoms.get(n, (T.lv(self.targets[0]),)))

    def base(self, T, st, at):
        return None

    def unfold(self, T, st, at, L, r, c):
        return self.fn(r, c)


GM = "std::array<std::complex<double>, 4>"
GM2 = "std::array<std::array<std::complex<double>, 4>, 4>"
CTL = "std::set<Control, ControlComparator, std::allocator<Control> > const&"


def mat_formal(vc, st, nm, n):
    """object holding n complex numbers (a by-value matrix)"""
    p = Ptr(st.new(16 * n, nm))
    ws = []
    for i in range(n):
        w = Poly.atom(Atoms.get(f"{nm}[{i}]", (), "complex"))
        vc.wr_complex(st, Ptr(p.o, 16 * i), w)
        ws.append(w)
    return ws, p


class GateBase(Contract):
    loops = True
    retk = "m"

    def formal(self, vc, st, ty, ps, n):
        if ty in (GM, GM2):
            ws, p = mat_formal(vc, st, "g", 4 if ty == GM else 16)
            return A(ty, ws, p), (1, [p])
        if ty == CTL:
            p = Ptr(st.new(48, "controls"))
            cs = CtrlSet("c")
            st.wobj(p.o).ghost = cs
            return A(ty, cs, p), (1, [p])
        return super().formal(vc, st, ty, ps, n)

    def actual(self, vc, st, ty, vals):
        v = vals[0]
        if ty in (GM, GM2):
            return A(ty, [vc.rd_complex(st, vc.gepc(v, 16 * i)) for i in range(4 if ty == GM else 16)], v), 1
        if ty == CTL:
            return A(ty, cs_of(vc, st, v), v), 1
        return super().actual(vc, st, ty, vals)

    def split(self, a):
        """(q, matrix, targets, controls or None)"""
        cs = a[-1].val if isinstance(a[-1].val, CtrlSet) else None
        ts = [x.val for x in (a[2:-1] if cs is not None else a[2:])]
        return bv(a[0].val, 32), a[1].val, [bv(t, 32) for t in ts], cs

    def requires(self, T, st, a):
        q, g, ts, cs = self.split(a)
        out = [B("register size", z3.And(q >= 1, q <= NQ))]
        for i, t in enumerate(ts):
            out.append(B(f"target {i} is in the register", z3.And(t >= 0, t < q)))
        if len(ts) == 2:
            out.append(B("targets differ", ts[0] != ts[1]))
        if cs is not None:
            wf = lambda k: z3.And(k >= 0, k < q, *[k != t for t in ts])
            if hasattr(cs, "elems"):
                for k, t in cs.elems:
                    out.append(B("control is in the register and not a target", wf(k)))
                for i in range(len(cs.elems)):
                    for j in range(i):
                        out.append(B("controls are on different qubits", cs.elems[i][0] != cs.elems[j][0]))
            else:
                cs.wf = wf
        return out

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, "m", "gate")

    # the matrix entry of the gate at (r, c) on qubits 0..l
    def spec(self, T, l):
        """entry on qubits 0..l for l at or above every target"""
        t = T.D("m", T.T["m"], l)
        eq, sel = self.eqx.atom(T, l), self.sel.atom(T)
        s = self.sat.atom(T, l) if self.sat is not None else ONE
        return t + s * (eq * sel - t)

    def setup(self, T, a):
        q, g, ts, cs = self.split(a)
        # the same targets and matrix give the same families
        ids = T.__dict__.setdefault("gateids", {})
        key = (tuple(z3.simplify(t).sexpr() for t in ts), tuple(w.key() for w in g))
        n = str(ids.setdefault(key, len(ids)))
        self.sat = SatF(cs) if cs is not None and getattr(cs, "elems", None) != () else None
        self.families(T, n, g, ts)

    def verify1(self, vc, fnname):
        self.ready = False
        return super().verify1(vc, fnname)

    def entry(self, vc, st, a):
        self.setup(vc.th, a)
        self.args = a

    def ensures(self, T, st, a, r):
        q, g, ts, cs = self.split(a)
        if getattr(self, "args", None) is not a:
            self.setup(T, a)
        l = z3.simplify(q - 1)
        return [B("result is a diagram on the register", T.valid(r, l)),
                Q("entry of the result is the entry of the controlled gate", T.ent(r, l) - self.spec(T, l), r.w * T.D("m", r.n.ref, l), l)]

    def assume_post(self, vc, st, a, r):
        super().assume_post(vc, st, a, r)
        q, g, ts, cs = self.split(a)
        import c_lib
        ctl = []
        if cs is not None:
            if not hasattr(cs, "elems"):
                return
            for k, t in cs.elems:
                t = conc(t)
                if not isinstance(t, int):
                    return
                ctl.append((k, t != 0))
        c_lib.setop(st, r, c_lib.controlled(ts, g, ctl))

    def candidates(self, vc, st, info):
        T = vc.th
        q, g, ts, cs = self.split(self.args)
        b = [("0", zero32()), ("register size", q)] + [(f"target {i}", t) for i, t in enumerate(ts)] + [(f"target {i} + 1", t + 1) for i, t in enumerate(ts)]
        out = loops.int_candidates(vc, st, info, b)
        for oid, off in info.iters:
            for x in info.ints:
                if x[2] != 32:
                    continue

                def mk(vc, s, oid=oid, off=off, x=x):
                    it = s.mem[oid].cells[off][0]
                    z = loops.getint(vc, s, x)
                    it.cs.facts(vc, s, z3.simplify(z))
                    return [B("", it.v == it.cs.nxt(z))]
                out.append(loops.Cand("iterator is at the first control not below the counter", mk, ("iter", (oid, off))))
        return out + loops.edge_candidates(vc, st, info, self.formulas(T), (-1, 0))

    def wanted(self, info):
        return [(("edge", e), "the operator built so far") for e in info.edges] + [(("iter", i), "the control iterator") for i in info.iters]


class MakeGate(GateBase):
    name = "makeGate"

    def __init__(self, ctl):
        self.params = ["unsigned int", GM, "int"] + ([CTL] if ctl else [])
        self.name = "makeGate"
        self.tag = "makeGate" + ("" if ctl else "/plain")

    def families(self, T, n, g, ts):
        self.g = g
        self.eqx = EqX(n, ts)
        self.sel = Sel(n, ts, lambda r, c: g[2 * int(r) + int(c)])

    def formulas(self, T):
        def part(i):
            d = ONE if i in (0, 3) else ZERO

            def fm(vc, s, l):
                t = T.D("m", T.T["m"], l)
                sat = self.sat.atom(T, l) if self.sat is not None else ONE
                return t * (d + sat * (self.g[i] - d))
            return (f"block {i} of the gate on the qubits below the target", fm, self.g[i].atoms())
        return [part(i) for i in range(4)] + [("the gate on the qubits so far", lambda vc, s, l: self.spec(T, l))]


class MakeTwoQubitGate(GateBase):
    name = "makeTwoQubitGate"

    def __init__(self, ctl):
        self.params = ["unsigned int", GM2, "int", "int"] + ([CTL] if ctl else [])
        self.tag = "makeTwoQubitGate" + ("" if ctl else "/plain")

    def families(self, T, n, g, ts):
        self.g, self.ts = g, ts
        t0, t1 = ts
        hi, lo = z3.If(t0 > t1, t0, t1), z3.If(t0 > t1, t1, t0)
        self.eqx = EqX(n, ts)
        # row index of the gate matrix: bit of target0 is the high bit
        self.part = {}
        for rh in (0, 1):
            for ch in (0, 1):
                def low(r, c, rh=rh, ch=ch):
                    r, c = int(r), int(c)
                    x = self.g[(2 * rh + r) * 4 + 2 * ch + c]
                    y = self.g[(2 * r + rh) * 4 + 2 * c + ch]
                    if x == y:
                        return x
                    return x if self.vc.decide(self.cur, t0 > t1) else y
                self.part[rh, ch] = LowSel(f"{n}_{rh}{ch}", [lo], low, self)
        self.sel = Sel(n, [hi], lambda r, c: self.part[int(r), int(c)].atom(T))

    def formulas(self, T):
        out = []
        t0, t1 = self.ts
        ident = lambda l: T.D("m", T.T["m"], l)
        sat = lambda l: self.sat.atom(T, l) if self.sat is not None else ONE
        for i in range(16):
            d = ONE if i % 5 == 0 else ZERO
            out.append((f"entry {i} of the gate on the qubits below the targets", lambda vc, s, l, d=d, i=i: ident(l) * (d + sat(l) * (self.g[i] - d)), self.g[i].atoms()))
        for rh in (0, 1):
            for ch in (0, 1):
                d = ONE if rh == ch else ZERO
                out.append((f"block {rh}{ch} of the gate on the qubits between the targets",
                            lambda vc, s, l, d=d, k=(rh, ch): d * ident(l) + sat(l) * (self.eqx.atom(T, l) * self.part[k].atom(T) - d * ident(l))))
        return out + [("the gate on the qubits so far", lambda vc, s, l: self.spec(T, l))]


class LowSel(Sel):
    def __init__(self, name, targets, fn, own):
        super().__init__(name, targets, fn)
        self.own = own

    def unfold(self, T, st, at, L, r, c):
        self.own.vc, self.own.cur = T.vc, st
        return self.fn(r, c)


def gate_contracts():
    return [MakeGate(True), MakeGate(False), MakeTwoQubitGate(True), MakeTwoQubitGate(False)]
