"""makeLargeGate (C09): a dense matrix placed on a list of target qubits.

The matrix is tracked at one arbitrary element; the row and column of that element are tied to the arbitrary (Skolem) row and column of the diagram
entry the theory talks about, so what is proved holds for every entry.  Index arithmetic is stated per level (Lay) and folded by induction."""
import z3
from ir import Unsupported, PTR, Ty, DBL
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, sgn
from theory import E, NQ
from contract import *
from c_gate import Fam
import loops

B32, B64 = z3.BitVecSort(32), z3.BitVecSort(64)
MAXK = 29      # 1 << k is an int
I32, I64, I8 = Ty("i", 32), Ty("i", 64), Ty("i", 8)


def v64(x):
    return z3.BitVecVal(x & (2**64 - 1), 64) if isinstance(x, int) else x


def one(n):
    return z3.BitVecVal(1, 64) << n


class Targets:
    """list of k distinct target qubits: TG(i) the i-th, isT(l) whether l is one, pos(l) its place in the list; ident: TG(i) = i"""

    def __init__(self, name, ident=False):
        self.name, self.ident = name, ident
        self.k = z3.BitVec("k_" + name, 64)
        self.TG = z3.Function("TG_" + name, B64, B32)
        self.isT = z3.Function("isT_" + name, B32, z3.BoolSort())
        self.pos = z3.Function("pos_" + name, B32, B64)
        self.TC = z3.Function("TC_" + name, B64, B64)       # places sorted by qubit
        self.CV = z3.Function("CV_" + name, B64, B64)       # index with bit i moved to bit TC(i)
        self.q = None

    def at(self, st, i):
        """facts about the i-th target"""
        t = self.TG(i)
        st.assume(z3.Implies(z3.ULT(i, self.k), z3.And(self.isT(t), self.pos(t) == i, t >= 0, t < self.q)))
        if self.ident:
            st.assume(z3.Implies(z3.ULT(i, self.k), t == z3.Extract(31, 0, i)))
        return t

    def lev(self, st, l):
        st.assume(z3.Implies(self.isT(l), z3.And(z3.ULT(self.pos(l), self.k), self.TG(self.pos(l)) == l, l >= 0, l < self.q)))
        if self.ident:
            st.assume(self.isT(l) == z3.And(l >= 0, z3.ZeroExt(32, l) < self.k), z3.Implies(self.isT(l), self.pos(l) == z3.ZeroExt(32, l)))

    def tc(self, st, i):
        st.assume(z3.Implies(z3.ULT(i, self.k), z3.ULT(self.TC(i), self.k)))
        return self.TC(i)

    def cv(self, st, i, j):
        """CV(2^i + j) for j < 2^i"""
        st.assume(self.CV(v64(0)) == 0)
        st.assume(z3.Implies(z3.And(z3.ULT(i, self.k), z3.ULT(j, one(i))), self.CV(one(i) + j) == self.CV(j) + one(self.tc(st, i))))

    def cvbound(self, st, x):
        st.assume(z3.Implies(z3.ULT(x, one(self.k)), z3.ULT(self.CV(x), one(self.k))))


class Lay:
    """how row and column bits of the levels tm..l make an index of the matrix: S(l) its size, IR/IC(l) the index; skip: levels without a target"""

    def __init__(self, name, skip, tm):
        self.name, self.skip, self.tm = name, skip, tm
        self.S, self.IR, self.IC = (z3.Function(f"{n}_{name}", B32, B64) for n in ("S", "IR", "IC"))

    def facts(self, vc, st, l):
        T = vc.th
        l = T.lv(l)
        p = T.lv(l - 1)
        key = ("lay", self.name, l.get_id())
        known = st.g.get("known", frozenset())
        if key in known:
            return
        Atoms.keepalive.append(l)
        st.g = {**st.g, "known": known | {key}}
        b = lambda f: z3.If(f(l), v64(1), v64(0))
        at, up = l == self.tm, l > self.tm
        S, IR, IC = self.S, self.IR, self.IC
        st.assume(z3.Implies(at, z3.And(S(l) == 2, IR(l) == b(T.rb), IC(l) == b(T.cb), z3.Not(self.skip(l)))),
                  z3.Implies(z3.And(up, self.skip(l)), z3.And(S(l) == S(p), IR(l) == IR(p), IC(l) == IC(p))),
                  z3.Implies(z3.And(up, z3.Not(self.skip(l))), z3.And(S(l) == 2 * S(p), IR(l) == IR(p) + z3.If(T.rb(l), S(p), v64(0)), IC(l) == IC(p) + z3.If(T.cb(l), S(p), v64(0)))),
                  # sizes grow with the level and the largest is at most 2^MAXK (precondition)
                  *[z3.Implies(z3.And(x >= self.tm, x < NQ), z3.And(z3.UGE(S(x), 2), z3.ULE(S(x), 1 << MAXK), z3.ULT(IR(x), S(x)), z3.ULT(IC(x), S(x)))) for x in (l, p)])


class EqS(Fam):
    """1 if row and column agree on every qubit 0..l that is no target (the identity below the lowest target), else 0"""

    def __init__(self, lay):
        self.lay, self.name = lay, "EqS_" + lay.name

    def atom(self, T, l):
        T.defs[self.name] = self
        return Poly.atom(Atoms.get(self.name, (T.lv(l),)))

    def base(self, T, st, at):
        return ONE

    def unfold(self, T, st, at, L, r, c):
        self.lay.facts(T.vc, st, L)
        if T.vc.decide(st, L == self.lay.tm):
            return T.D("m", T.T["m"], L - 1)
        if T.vc.decide(st, L < self.lay.tm):
            raise Unsupported("level below the lowest target")
        if T.vc.decide(st, self.lay.skip(L)):
            return self.atom(T, L - 1) if r == c else ZERO
        return self.atom(T, L - 1)


# ------------------------------------------------------------------ abstract containers
class MatG:
    """square matrix, n rows: the element at K is cur; touched: it is not the caller's matrix any more (then K is the index of the rearranged one)"""

    def __init__(self, n, K, cur, K2=None, touched=False, orig=None, m=None):
        self.m = n if m is None else m      # length of the rows
        self.n, self.K, self.cur, self.K2, self.touched = n, K, cur, K2, touched
        self.orig = orig if orig is not None else cur

    def tracked(self):
        return (self.K2, self.cur) if self.touched else (self.K, self.orig)

    def havoc(self, vc, st):
        return MatG(self.n, self.K, Poly.atom(Atoms.get(st.sym("cell"), (), "complex")), self.K2, True, self.orig, self.m)


class RowsG:
    """vector of n rows; perm: row i is row CV(i) of the caller's matrix src"""

    def __init__(self, n, perm, src):
        self.n, self.perm, self.src = n, perm, src

    def havoc(self, vc, st):
        return RowsG(z3.BitVec(st.sym("rows"), 64), False, self.src)


class SeqG:
    """vector of n integers of w bits; good: descriptions (ID, CV, TC) every element satisfies; tg: the list of targets itself"""

    def __init__(self, n, w, good=frozenset(("ID", "CV")), tg=None):
        self.n, self.w, self.good, self.tg = n, w, good, tg

    def havoc(self, vc, st):
        return SeqG(z3.BitVec(st.sym("seq"), 64), self.w, frozenset(), self.tg)


class BoolsG:
    """vector of n flags, all true at first; done: the first `done` targets have been cleared (None: something else); lay: a vector given by the caller"""

    def __init__(self, n, done, tg=None, lay=None):
        self.n, self.done, self.tg, self.lay = n, done, tg, lay

    def havoc(self, vc, st):
        return BoolsG(self.n, z3.BitVec(st.sym("done"), 64), self.tg, self.lay)


def ghost(st, p, *cls):
    g = st.mem[p.o].ghost if isinstance(p, Ptr) and p.o and p.off == 0 and p.o in st.mem else None
    return g if isinstance(g, cls) else None


def inr(vc, st, i, n, what):
    ok = vc.th.prove_bool(st, z3.ULT(v64(i), v64(n)))
    vc.oblige(st, what + " is accessed inside its bounds", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")


class Cell:
    """one complex number of a matrix; row i given as an index of the caller's matrix when old (a copied row)"""

    def __init__(self, oid, i, j, old, f=0):
        self.oid, self.i, self.j, self.old, self.f = oid, i, j, old, f

    def gepidx(self, vc, st, ty, idx, ityps):
        f, t = self.f, vc.mod.resolve(ty)
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if not isinstance(i, int):
                raise Unsupported("matrix element")
            if n == 0:
                f += sgn(i, it.a) * vc.mod.size(t)
            elif t.k == "arr":
                f += i * vc.mod.size(t.b)
                t = vc.mod.resolve(t.b)
            else:
                f += vc.mod.field_off(t, i)
                t = vc.mod.resolve(t.a[i])
        return Cell(self.oid, self.i, self.j, self.old, f)

    def gepc(self, d):
        return Cell(self.oid, self.i, self.j, self.old, self.f + d)

    def value(self, vc, st):
        g = st.mem[self.oid].ghost
        K, cur = (g.K, g.orig) if self.old else g.tracked()
        if self.i is not None and vc.decide(st, conc(z3.And(v64(self.i) == K[0], v64(self.j) == K[1]))):
            return cur
        return None

    def load(self, vc, st, ty):
        if ty.k == "struct":
            return [self.gepc(vc.mod.field_off(ty, i)).load(vc, st, vc.mod.resolve(x)) for i, x in enumerate(ty.a)]
        if ty.k != "double" or self.f not in (0, 8):
            raise Unsupported("matrix element type")
        v = self.value(vc, st)
        if v is None:
            return Poly.atom(Atoms.get(st.sym("elem"), (), "real"))
        return v.re() if self.f == 0 else v.im()

    def cells(self, vc, st, n):
        if n != 16 or self.f:
            raise Unsupported("matrix element copy")
        return [(0, self.load(vc, st, DBL), 8), (8, self.gepc(8).load(vc, st, DBL), 8)]

    def store(self, vc, st, v, ty):
        if ty.k == "struct" and len(ty.a) == 2:
            return self.store_cells(vc, st, [(0, v[0], 8), (8, v[1], 8)], 16)
        raise Unsupported("matrix element store")

    def store_cells(self, vc, st, cells, n):
        d = {a: v for a, v, z in cells}
        if n != 16 or self.f or set(d) != {0, 8} or self.old:
            raise Unsupported("matrix element copy")
        g = st.mem[self.oid].ghost
        if g.K2 is None:
            raise Unsupported("write to a matrix")
        w = (d[0] if isinstance(d[0], Poly) else ZERO) + (d[8] if isinstance(d[8], Poly) else ZERO) * IU
        cur = g.cur
        if not g.touched:
            # the element at the rearranged index, before it is written, is not known unless it is the tracked one
            cur = Poly.atom(Atoms.get(st.sym("cell"), (), "complex"))
        if vc.decide(st, conc(z3.And(v64(self.i) == g.K2[0], v64(self.j) == g.K2[1]))):
            cur = w
        st.wobj(self.oid).ghost = MatG(g.n, g.K, cur, g.K2, True, g.orig, g.m)

    def same(self, vc, st, o):
        if isinstance(o, Ptr) and o.o == 0:
            return False
        raise Unsupported("matrix element comparison")


class Row:
    """a row of the matrix (old: of the caller's matrix, in a copy)"""

    def __init__(self, oid, i, old):
        self.oid, self.i, self.old = oid, i, old

    def gepidx(self, vc, st, ty, idx, ityps):
        raise Unsupported("inside of a row")

    def gepc(self, d):
        raise Unsupported("inside of a row")

    def same(self, vc, st, o):
        raise Unsupported("row comparison")


class BitRef:
    def __init__(self, oid, i):
        self.oid, self.i = oid, i


class TIt:
    """iterator over the targets"""

    def __init__(self, oid, i):
        self.oid, self.i = oid, i

    def same(self, vc, st, o):
        if not isinstance(o, TIt) or o.oid != self.oid:
            raise Unsupported("iterators of different vectors")
        return conc(v64(self.i) == v64(o.i))

    def havoc(self, vc, st, nm):
        return TIt(self.oid, z3.BitVec(nm, 64))


def only(f):
    def h(vc, st, vals, ins, dem):
        if not isinstance(vc.top, Large):
            return NotImplemented
        return f(vc, st, vals, ins, dem)
    return h


def i64(vc, x):
    return v64(x) if isinstance(x, int) or x.size() == 64 else z3.SignExt(32, x)


@only
def m_size(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], MatG, RowsG, SeqG, BoolsG)
    if g is None:
        if isinstance(vals[0], Row):
            return conc(v64(st.mem[vals[0].oid].ghost.m))
        return NotImplemented
    n = v64(g.n)
    return conc(n == 0) if "::empty" in dem else conc(n)


@only
def m_index(vc, st, vals, ins, dem):
    p, i = vals[0], i64(vc, vals[1])
    if isinstance(p, Row):
        g = st.mem[p.oid].ghost
        inr(vc, st, i, g.m, "matrix column")
        return Cell(p.oid, p.i, i, p.old)
    g = ghost(st, p, MatG, RowsG, SeqG, BoolsG)
    if g is None:
        return NotImplemented
    inr(vc, st, i, g.n, {MatG: "matrix row", RowsG: "row copy", SeqG: "vector", BoolsG: "flags"}[type(g)])
    if isinstance(g, MatG):
        return Row(p.o, i, False)
    if isinstance(g, RowsG):
        tg = vc.top.tg
        if g.perm:
            tg.cvbound(st, i)
        return Row(g.src, tg.CV(i) if g.perm else None, True)
    if isinstance(g, BoolsG):
        l = z3.Extract(31, 0, i)
        if g.lay is None:
            if "const" in dem.rsplit(")", 1)[-1]:
                raise Unsupported("flag read")
            return [BitRef(p.o, i), 0]
        v = g.lay.skip(l)
        return conc(v) if "const" in dem.rsplit(")", 1)[-1] else [BitRef(p.o, i), 0]
    return element(vc, st, g, i)


def element(vc, st, g, i):
    """read-only copy of the i-th element"""
    tg = vc.top.tg
    if g.tg is not None:
        v = g.tg.at(st, i)
    else:
        v = z3.BitVec(st.sym("el"), g.w)
        if "ID" in g.good:
            st.assume(v == (i if g.w == 64 else z3.Extract(31, 0, i)))
        if "CV" in g.good:
            tg.cvbound(st, i)
            st.assume(v == tg.CV(i))
            note(st, "cvidx", i)
        if "TC" in g.good:
            st.assume(v == tg.tc(st, i))
            note(st, "tcidx", i)
    o = st.new(g.w // 8, "element")
    st.wobj(o).cells[0] = (conc(v), g.w // 8)
    st.wobj(o).const = True
    return Ptr(o)


def note(st, key, i):
    xs = st.g.get(key, ())
    if not any(i.eq(x) for x in xs):
        st.g = {**st.g, key: xs + (i,)}


@only
def v_ctor(vc, st, vals, ins, dem):
    w = 32 if "vector<int," in dem.split("::vector(")[0] else 64
    st.wobj(vals[0].o).ghost = SeqG(v64(0), w)
    return None


@only
def v_push(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], SeqG)
    if g is None or g.tg is not None:
        raise Unsupported("push_back")
    tg = vc.top.tg
    v = bv(vc.ld(st, vals[1], I32 if g.w == 32 else I64), g.w)
    n = v64(g.n)
    good = set()
    if "ID" in g.good and vc.th.prove_bool(st, v == (n if g.w == 64 else z3.Extract(31, 0, n))):
        good.add("ID")
    if "CV" in g.good and g.w == 64:
        st.assume(tg.CV(v64(0)) == 0)
        ok = vc.th.prove_bool(st, z3.And(n == 0, v == 0))
        # the place whose weight is added: by its rank, or (an iterator) by its position
        for i in st.g.get("tcidx", ()):
            for j in st.g.get("cvidx", ()):
                # CV(n) for n = 2^i + j, in steps that are easy for the solver
                tg.tc(st, i)
                ok = ok or (all(vc.entails(st, c) for c in (z3.ULT(i, tg.k), z3.ULE(i, MAXK), z3.ULT(j, one(i)), n == one(i) + j)) and vc.entails(st, v == tg.CV(j) + one(tg.TC(i))))
        if ok:
            good.add("CV")
    st.wobj(vals[0].o).ghost = SeqG(z3.simplify(n + 1), g.w, frozenset(good))
    return None


@only
def r_ctor(vc, st, vals, ins, dem):
    st.wobj(vals[0].o).ghost = RowsG(v64(0), True, None)
    return None


@only
def r_push(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], RowsG)
    r = vals[1]
    if g is None or not isinstance(r, Row):
        raise Unsupported("push_back of a row")
    src = st.mem[r.oid].ghost
    n = v64(g.n)
    ok = g.perm and not r.old and not src.touched and g.src in (None, r.oid) and vc.th.prove_bool(st, v64(r.i) == vc.top.tg.CV(n))
    st.wobj(vals[0].o).ghost = RowsG(z3.simplify(n + 1), ok, r.oid)
    return None


@only
def begin_end(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], SeqG)
    if g is None:
        return NotImplemented
    return TIt(vals[0].o, v64(g.n) if "::end" in dem or "::cend" in dem else v64(0))


def itv(vc, st, p):
    v = p if isinstance(p, TIt) else vc.ld(st, p, PTR)
    if not isinstance(v, TIt):
        raise Unsupported("iterator")
    return v


def it_cmp(neq):
    @only
    def h(vc, st, vals, ins, dem):
        r = itv(vc, st, vals[0]).same(vc, st, itv(vc, st, vals[1]))
        if neq:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return conc(r) if z3.is_expr(r) else r
    return h


@only
def it_deref(vc, st, vals, ins, dem):
    it = itv(vc, st, vals[0])
    g = st.mem[it.oid].ghost
    inr(vc, st, it.i, g.n, "vector")
    return element(vc, st, g, v64(it.i))


@only
def it_inc(vc, st, vals, ins, dem):
    it = itv(vc, st, vals[0])
    inr(vc, st, it.i, st.mem[it.oid].ghost.n, "iterator")
    vc.st_(st, vals[0], TIt(it.oid, z3.simplify(v64(it.i) + 1)), PTR)
    return vals[0]


@only
def sort(vc, st, vals, ins, dem):
    b, e = itv(vc, st, vals[0]), itv(vc, st, vals[1])
    g = st.mem[b.oid].ghost
    if b.oid != e.oid or not isinstance(g, SeqG) or g.tg is not None or not vc.entails(st, z3.And(v64(b.i) == 0, v64(e.i) == v64(g.n))):
        raise Unsupported("sort of a part")
    tg = vc.top.tg
    x, y = z3.BitVec(st.sym("sx"), 64), z3.BitVec(st.sym("sy"), 64)
    s = st.copy()
    s.assume(z3.ULT(x, tg.k), z3.ULT(y, tg.k))
    po = s.new(8, "comparator")
    s.wobj(po).cells[0] = (vals[2], 8)
    r = summarize(vc, s, comparator(vc, dem), [Ptr(po), x, y])
    r = z3.BoolVal(r) if isinstance(r, bool) else r
    ok = "ID" in g.good and g.w == 64 and vc.entails(s, r == (tg.at(s, x) < tg.at(s, y))) and vc.entails(st, v64(g.n) == tg.k)
    vc.trusted.add("std::sort of the places 0..k-1 by distinct keys puts each place at the rank of its key")
    st.wobj(b.oid).ghost = SeqG(g.n, g.w, frozenset(("TC",)) if ok else frozenset())
    return None


def comparator(vc, dem):
    """operator() of the closure type std::sort was instantiated with (the only two-argument closure on indices in this function)"""
    own = dem[dem.index("makeLargeGate("):]
    c = [n for n in vc.mod.fn_span if "makeLargeGate" in n and "clE" in n and vc.demangled(n).startswith("makeLargeGate(") and vc.demangled(n).split("::operator()")[0] in dem]
    if len(c) != 1:
        raise Unsupported("comparator")
    return c[0]


@only
def minmax(vc, st, vals, ins, dem):
    b, e = itv(vc, st, vals[0]), itv(vc, st, vals[1])
    g = st.mem[b.oid].ghost
    if b.oid != e.oid or g.tg is None or not vc.entails(st, z3.And(v64(b.i) == 0, v64(e.i) == v64(g.n), v64(g.n) != 0)):
        raise Unsupported("minimum of a part")
    m = z3.BitVec(st.sym("minpos"), 64)
    t = g.tg.at(st, m)
    st.assume(z3.ULT(m, g.tg.k))
    tm = vc.top.lay.tm
    for o in (g.tg.pos(tm),):
        to = g.tg.at(st, o)
        st.assume(z3.Implies(z3.ULT(o, g.tg.k), t <= to if "min_element" in dem else t >= to))
    st.assume(z3.Implies(g.tg.isT(t), t >= tm))        # tm is the lowest target
    return TIt(b.oid, m)


@only
def b_ctor(vc, st, vals, ins, dem):
    n = i64(vc, vals[1])
    v = vc.ld(st, vals[2], I8)
    if v not in (1, True):
        raise Unsupported("flags that are false at first")
    st.wobj(vals[0].o).ghost = BoolsG(n, v64(0), vc.top.tg)
    return None


@only
def b_copy(vc, st, vals, ins, dem):
    g = ghost(st, vals[1], BoolsG)
    if g is None:
        raise Unsupported("flags")
    st.wobj(vals[0].o).ghost = g
    return None


@only
def b_set(vc, st, vals, ins, dem):
    r = vc.ld(st, vals[0], PTR)
    if not isinstance(r, BitRef):
        raise Unsupported("flag")
    g = st.mem[r.oid].ghost
    if g.lay is not None:
        raise Unsupported("flags of the caller")
    done = None
    if vals[1] in (False, 0) and g.done is not None:
        t = g.tg.at(st, g.done)
        if vc.th.prove_bool(st, z3.And(z3.ULT(g.done, g.tg.k), v64(r.i) == z3.SignExt(32, t))):
            done = z3.simplify(g.done + 1)
    st.wobj(r.oid).ghost = BoolsG(g.n, done, g.tg)
    return vals[0]


@only
def b_get(vc, st, vals, ins, dem):
    r = vc.ld(st, vals[0], PTR)
    if not isinstance(r, BitRef) or st.mem[r.oid].ghost.lay is None:
        raise Unsupported("flag")
    return conc(st.mem[r.oid].ghost.lay.skip(z3.Extract(31, 0, v64(r.i))))


@only
def exc_alloc(vc, st, vals, ins, dem):
    return Ptr(st.new(64, "exception"))


@only
def nothing(vc, st, vals, ins, dem):
    return None


@only
def log2(vc, st, vals, ins, dem):
    n = v64(vals[0])
    ok = vc.entails(st, z3.And(n != 0, n & (n - 1) == 0, z3.ULE(n, 1 << 40)))
    if not ok:
        raise Unsupported("logarithm of a number that is no power of two")
    if isinstance(vals[0], int):
        return Poly.const(vals[0].bit_length() - 1)
    g = z3.Function("LG", B64, B64)(n)
    st.assume(z3.ULE(g, 40), one(g) == n)
    return vc.th.intatom(g)


# ------------------------------------------------------------------ clauses
class Good:
    def __init__(self, oid, what):
        self.oid, self.what, self.label = oid, what, f"every element of the vector satisfies its description ({what})"

    def prove(self, vc, st):
        g = st.mem[self.oid].ghost
        return g.perm if isinstance(g, RowsG) else self.what in g.good

    def assume(self, vc, st):
        g = st.mem[self.oid].ghost
        st.wobj(self.oid).ghost = RowsG(g.n, True, g.src) if isinstance(g, RowsG) else SeqG(g.n, g.w, g.good | {self.what}, g.tg)


def c64(s, o, a):
    """the integer or iterator position in a cell, as 64 bits"""
    if o not in s.mem or a not in s.mem[o].cells:
        return None
    v, z = s.mem[o].cells[a]
    if isinstance(v, TIt):
        return v64(v.i)
    if isinstance(v, bool) or z not in (4, 8) or not (isinstance(v, int) or z3.is_bv(v)):
        return None
    v = bv(v, 8 * z)
    return v if z == 8 else z3.SignExt(32, v)


def num(s, o, a, f):
    c = c64(s, o, a)
    return None if c is None else [B("", f(c))]


# ------------------------------------------------------------------ contracts
class Large(Contract):
    loops = True
    retk = "m"
    name = "makeLargeGate"
    npar = None

    def matches(self, dem):
        return basename(dem) == "makeLargeGate" and "operator()" not in dem and len(split_params(dem)[1]) == self.npar

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, "m", "large")

    def mat(self, vc, st, K, K2):
        p = Ptr(st.new(24, "g"))
        n = z3.BitVec("rows", 64)
        g = MatG(n, K, Poly.atom(Atoms.get("g[r][c]", (), "complex")), K2, m=z3.BitVec("cols", 64) if getattr(self, "noreturn", False) else None)
        st.mem[p.o].ghost = g
        return A("mat", g, p), (1, [p])

    def actual(self, vc, st, ty, vals):
        if ty.startswith("std::vector<"):
            g = ghost(st, vals[0], MatG, SeqG, BoolsG)
            if g is None:
                raise Unsupported("vector argument")
            return A(ty, g, vals[0]), 1
        return super().actual(vc, st, ty, vals)


class LargeRec(Large):
    tag = "makeLargeGate/blocks"
    npar = 8

    def formal(self, vc, st, ty, ps, n):
        if n == 0:
            self.tg = None
            return self.mat(vc, st, (z3.BitVec("KR", 64), z3.BitVec("KC", 64)), None)
        if n == 6:
            p = Ptr(st.new(40, "skip"))
            sk = z3.Function("skip", B32, z3.BoolSort())
            self.lay = Lay("s", sk, z3.BitVec("a7", 32))
            g = BoolsG(z3.BitVec("skipn", 64), None, None, self.lay)
            st.mem[p.o].ghost = g
            return A(ty, g, p), (1, [p])
        return super().formal(vc, st, ty, ps, n)

    def parts(self, vc, a):
        g, lev, rs, re, cs, ce, sk, tm = (x.val for x in a)
        if not isinstance(g, MatG) or not isinstance(sk, BoolsG):
            raise Unsupported("arguments")
        return g, bv(lev, 32), v64(rs), v64(re), v64(cs), v64(ce), sk, bv(tm, 32)

    def layof(self, vc, st, sk):
        if sk.lay is not None:
            return sk.lay
        top = vc.top
        if sk.done is not None and isinstance(top, LargeList) and vc.th.prove_bool(st, sk.done == sk.tg.k):
            return top.lay
        return None

    def requires(self, T, st, a):
        vc = T.vc
        g, lev, rs, re, cs, ce, sk, tm = self.parts(vc, a)
        lay = self.layof(vc, st, sk)
        if lay is None:
            return [B("exactly the targets are not skipped", z3.BoolVal(False))]
        lay.facts(vc, st, lev)
        n = v64(g.n)
        return [B("lowest target is the lowest level that is not skipped", tm == lay.tm), B("level is in the register and not below the lowest target", z3.And(lay.tm >= 0, lev >= lay.tm, lev < NQ)),
                B("there is a flag for every level", z3.UGT(v64(sk.n), z3.SignExt(32, lev))),
                B("block has the size of the levels", z3.And(re == rs + lay.S(lev), ce == cs + lay.S(lev))),
                B("block is inside the matrix", z3.And(z3.ULE(re, n), z3.ULE(ce, n), z3.ULE(rs, n), z3.ULE(cs, n), z3.ULE(n, 1 << MAXK)))]

    def decreases(self, T, st, a):
        lev = bv(a[1].val, 32)
        return lambda top: z3.And(lev >= 0, lev < bv(top[1].val, 32))

    def levels(self, T, a):
        return (bv(a[1].val, 32),)

    def entry(self, vc, st, a):
        self.lay.facts(vc, st, bv(a[1].val, 32))

    def ensures(self, T, st, a, r):
        vc = T.vc
        g, lev, rs, re, cs, ce, sk, tm = self.parts(vc, a)
        lay = self.layof(vc, st, sk)
        if lay is None:
            return []      # the precondition has failed already
        lay.facts(vc, st, lev)
        K, cell = g.tracked()
        inb = z3.And(rs + lay.IR(lev) == K[0], cs + lay.IC(lev) == K[1])
        return [B("result is an operator on the levels", T.valid(r, lev)),
                Q("entry of the result is the element of the block its target bits select, if row and column agree elsewhere",
                  T.ent(r, lev) - EqS(lay).atom(T, lev) * cell, r.w * T.D("m", r.n.ref, lev), lev, inb)]


class LargeList(Large):
    """the overload with a target list"""
    npar = 3

    def __init__(self, ok=True):
        self.ok = ok
        self.tag = "makeLargeGate/list" if ok else "makeLargeGate/rejects"
        self.nothrow, self.noreturn = ok, not ok

    def setup(self, st, tg, q):
        self.tg = tg
        tg.q = q
        tm = z3.BitVec("tmin_" + tg.name, 32)
        self.lay = Lay(tg.name, lambda l: z3.Not(tg.isT(l)), tm)
        self.cnt = z3.Function("cnt_" + tg.name, B32, B64)
        self.OR, self.OC = (z3.Function(f"{n}_{tg.name}", B32, B64) for n in ("OR", "OC"))
        self.q = q

    def formal(self, vc, st, ty, ps, n):
        if n == 0:
            q = z3.BitVec("a0", 32)
            self.setup(st, Targets("t"), q)
            return A(ty, q), (1, [q])
        l = z3.simplify(self.q - 1)
        if n == 1:
            return self.mat(vc, st, (self.OR(l), self.OC(l)), (self.lay.IR(l), self.lay.IC(l)))
        p = Ptr(st.new(24, "targets"))
        g = SeqG(self.tg.k, 32, frozenset(), self.tg)
        st.mem[p.o].ghost = g
        return A(ty, g, p), (1, [p])

    def context(self, T, st, a):
        """the target list of a call"""
        if not isinstance(a[2].val, SeqG) or not isinstance(a[1].val, MatG):
            raise Unsupported("arguments")
        if a[2].val.tg is not None:
            return self, a[2].val.tg
        top = T.vc.top
        if isinstance(top, LargeDefault) and "ID" in a[2].val.good:
            return top.sub, top.sub.tg
        raise Unsupported("target list")

    def requires(self, T, st, a):
        ctx, tg = self.context(T, st, a)
        q, g = bv(a[0].val, 32), a[1].val
        k, n = v64(a[2].val.n), v64(g.n)
        fits = n == one(k)
        if not self.ok:
            return [B("size is within range", z3.And(z3.ULE(k, MAXK), z3.ULE(n, 1 << MAXK), n != 0, q >= 1, q <= NQ)), B("the size of the matrix does not fit the list", z3.Not(z3.And(fits, v64(g.m) == n)))]
        return [B("register size", z3.And(q >= 1, q <= NQ)), B("number of targets is that of the list", k == tg.k), B("number of targets within range", z3.ULE(k, MAXK)),
                B("targets fit the register", z3.ULE(k, z3.SignExt(32, q))), B("matrix is square and fits the target list", z3.And(fits, v64(g.m) == n))]

    def index(self, vc, st, l):
        """the index the target bits select: bit i is the bit of the i-th target"""
        T, tg = vc.th, self.tg
        l = T.lv(l)
        p = T.lv(l - 1)
        tg.lev(st, l)
        b = lambda f: z3.If(f(l), one(tg.pos(l)), v64(0))
        at = lambda O, f: z3.Implies(z3.And(l >= self.lay.tm), O(l) == z3.If(l == self.lay.tm, v64(0), O(p)) + z3.If(tg.isT(l), b(f), v64(0)))
        st.assume(at(self.OR, T.rb), at(self.OC, T.cb), z3.Implies(tg.k == 0, z3.And(self.OR(l) == 0, self.OC(l) == 0)))

    def count(self, vc, st, l):
        """number of targets up to level l, and the rank of a target"""
        T, tg, tm = vc.th, self.tg, self.lay.tm
        l = T.lv(l)
        p = T.lv(l - 1)
        c = lambda x: z3.If(x < tm, v64(0), self.cnt(x))
        st.assume(z3.Implies(l >= tm, self.cnt(l) == c(p) + z3.If(tg.isT(l), v64(1), v64(0))), z3.Implies(l >= tm, z3.ULE(self.cnt(l), tg.k)),
                  z3.Implies(z3.And(l >= tm, tg.isT(l)), tg.TC(c(p)) == tg.pos(l)))

    def entry(self, vc, st, a):
        T, tg, lay = vc.th, self.tg, self.lay
        st.assume(z3.Implies(tg.k != 0, z3.And(tg.isT(lay.tm), lay.tm >= 0, tg.TC(v64(0)) == tg.pos(lay.tm))))
        tg.lev(st, lay.tm)
        if not self.ok:
            return
        # lemma, by induction over the levels: sorting the targets and rearranging the matrix by CV selects the same element
        q = bv(a[0].val, 32)

        def P(l):
            return z3.And(tg.CV(lay.IR(l)) == self.OR(l), tg.CV(lay.IC(l)) == self.OC(l), lay.S(l) == one(self.cnt(l)), z3.ULT(lay.IR(l), lay.S(l)), z3.ULT(lay.IC(l), lay.S(l)))

        def step(base, I, O, bit):
            """P for one direction (rows or columns); only the facts it needs"""
            s = st.copy()
            s.pc, s.g = [], {**s.g, "known": frozenset()}
            s.assume(tg.k != 0, lay.tm >= 0, lay.tm < q, q <= NQ, tg.isT(lay.tm), z3.ULE(tg.k, MAXK))
            l = lay.tm if base else z3.BitVec("lemma_l", 32)
            p = z3.simplify(l - 1)
            lay.facts(vc, s, l)
            self.index(vc, s, l)
            self.count(vc, s, l)
            tg.tc(s, v64(0))
            if base:
                tg.cv(s, v64(0), v64(0))
            else:
                s.assume(l > lay.tm, l < q, tg.CV(I(p)) == O(p), lay.S(p) == one(self.cnt(p)), z3.ULT(I(p), lay.S(p)))
                self.count(vc, s, p)
                tg.tc(s, self.cnt(p))
            goal = [tg.CV(I(l)) == O(l), lay.S(l) == one(self.cnt(l)), z3.ULT(I(l), lay.S(l))]
            ok = True
            for split in (z3.And(tg.isT(l), bit(l)), z3.And(tg.isT(l), z3.Not(bit(l))), z3.Not(tg.isT(l))):
                t = s.copy()
                t.assume(split)
                if not base:
                    # intermediate steps, each easy for the solver
                    for c in (z3.Implies(tg.isT(l), z3.ULT(self.cnt(p), tg.k)), z3.Implies(z3.And(tg.isT(l), bit(l)), z3.And(I(l) == one(self.cnt(p)) + I(p), O(l) == O(p) + one(tg.TC(self.cnt(p)))))):
                        if not T.prove_bool(t, c):
                            return False
                        t.assume(c)
                    tg.cv(t, self.cnt(p), I(p))
                ok = ok and all(T.prove_bool(t, c) for c in goal)
            return ok

        def both(base):
            return step(base, lay.IR, self.OR, T.rb) and step(base, lay.IC, self.OC, T.cb)
        vc.oblige(st, "lemma: rearranged index and listed index select the same element (base)", both(True))
        vc.oblige(st, "lemma: rearranged index and listed index select the same element (step)", both(False))
        l = z3.simplify(q - 1)
        lay.facts(vc, st, l)
        st.assume(z3.Implies(tg.k != 0, z3.And(P(l), self.cnt(l) == tg.k)))
        self.index(vc, st, l)
        vc.trusted.add("counting: k distinct targets inside the register")

    def levels(self, T, a):
        return (z3.simplify(bv(a[0].val, 32) - 1),)

    def ensures(self, T, st, a, r):
        ctx, tg = self.context(T, st, a)
        l = z3.simplify(bv(a[0].val, 32) - 1)
        if not self.ok:
            return [B("a matrix that does not fit is refused", z3.BoolVal(False))]
        g = a[1].val
        cell = g.orig
        none = tg.k == 0
        ctx.lay.facts(T.vc, st, l)
        return [B("result is an operator on the register", T.valid(r, l)),
                Q("entry of the result is the matrix element the target bits select, if row and column agree on all other qubits",
                  T.ent(r, l) - EqS(ctx.lay).atom(T, l) * cell, r.w * T.D("m", r.n.ref, l), l, z3.Not(none)),
                Q("a 1x1 matrix is a factor", T.ent(r, l) - T.D("m", T.T["m"], l) * cell, r.w * T.D("m", r.n.ref, l), l, none)]

    def candidates(self, vc, st, info):
        n64, k64 = v64(vc.top.rows(st)), self.tg.k
        n32, k32 = z3.Extract(31, 0, n64), z3.Extract(31, 0, k64)
        fr = st.frames[-1]
        changing = {(o, a) for o, a, _ in info.ints} | set(info.iters)
        fixed = []
        for o in fr.allocas.values():
            for a, (v, z) in st.mem[o].cells.items():
                if (o, a) not in changing and z in (4, 8) and c64(st, o, a) is not None:
                    fixed.append((o, a))
        seen, once = set(), []
        for o, a in fixed:      # one local per value
            e = z3.simplify(c64(st, o, a))
            if e.get_id() not in seen:
                seen.add(e.get_id())
                Atoms.keepalive.append(e)
                once.append((o, a))
        fixed = once
        f32 = [("a local", bv(st.mem[o].cells[a][0], 32)) for o, a in fixed if st.mem[o].cells[a][1] == 4]
        f64 = [("a local", c64(st, o, a)) for o, a in fixed if st.mem[o].cells[a][1] == 8]
        i64s = [x for x in info.ints if x[2] == 64]
        info32 = loops.Info()
        info32.ints, info32.entry = [x for x in info.ints if x[2] == 32], info.entry
        out = loops.int_candidates(vc, st, info32, [("0", z3.BitVecVal(0, 32)), ("number of rows", n32), ("number of targets", k32)] + f32)
        ctrs = [(o, a, c64(st, o, a)) for o, a, z in info32.ints + i64s] + [(o, a, c64(st, o, a)) for o, a in info.iters]
        ctrs = [(o, a, e) for o, a, e in ctrs if e is not None]
        for o, a, e in ctrs:
            wide = st.mem[o].cells[a][1] == 8
            bs = f64 + ([("its initial value", e), ("number of rows", n64), ("number of targets", k64)] + [("a local", z3.SignExt(32, x)) for _, x in f32] if wide else [])
            it = st.mem[o].cells[a][0]
            if isinstance(it, TIt) and isinstance(st.mem[it.oid].ghost, (SeqG, RowsG)):
                bs.append(("length of the vector", v64(st.mem[it.oid].ghost.n)))
            for lab, x in bs:
                out.append(loops.Cand(f"counter >= {lab}", lambda vc, s, o=o, a=a, x=x: num(s, o, a, lambda c: z3.UGE(c, x))))
                out.append(loops.Cand(f"counter <= {lab}", lambda vc, s, o=o, a=a, x=x: num(s, o, a, lambda c: z3.ULE(c, x))))
        for oid in info.ghosts:
            g = st.mem[oid].ghost
            if isinstance(g, (SeqG, RowsG)):
                for w in (("ID", "CV") if isinstance(g, SeqG) else ("rows",)):
                    out.append(loops.Cand(f"vector: {w}", lambda vc, s, oid=oid, w=w: [Good(oid, w)], ("good", oid)))
                n0 = v64(g.n)
                for o, a, e0 in ctrs:
                    out.append(loops.Cand("vector grows with the counter", lambda vc, s, o=o, a=a, oid=oid, e0=e0, n0=n0: num(s, o, a, lambda c: v64(s.mem[oid].ghost.n) == n0 + (c - e0)), ("size", oid)))
                    out.append(loops.Cand("vector doubles with the counter", lambda vc, s, o=o, a=a, oid=oid: num(s, o, a, lambda c: v64(s.mem[oid].ghost.n) == one(c)), ("size", oid)))
            if isinstance(g, BoolsG):
                for o, a, e0 in ctrs:
                    out.append(loops.Cand("flags of the targets so far are cleared", lambda vc, s, oid=oid, o=o, a=a: None if s.mem[oid].ghost.done is None else num(s, o, a, lambda c: z3.And(s.mem[oid].ghost.done == c, z3.ULE(s.mem[oid].ghost.done, self.tg.k))), ("flags", oid)))
            if isinstance(g, MatG):
                for o, a, e0 in ctrs:
                    for y in [None] + [c64(st, *x) for x in fixed]:
                        for tr in (0, 1):
                            def mk(vc, s, oid=oid, o=o, a=a, y=y, tr=tr):
                                h = s.mem[oid].ghost
                                if not h.touched:
                                    h = h.havoc(vc, s)
                                    s.wobj(oid).ghost = h
                                i = c64(s, o, a)
                                K = (h.K2[tr], h.K2[1 - tr])
                                if y is None:
                                    done = None if i is None else z3.ULT(K[0], i)
                                else:
                                    done = None if i is None else z3.Or(z3.ULT(K[0], y), z3.And(K[0] == y, z3.ULT(K[1], i)))
                                if done is None:
                                    return None
                                lead = h.cur if len(h.cur.atoms()) == 1 else None
                                return [Q("", h.cur - h.orig, lead, None, done)]
                            out.append(loops.Cand("elements before the counter are rearranged", mk, ("matrix", oid)))
        return out

    def rows(self, st):
        for o in st.mem.values():
            if isinstance(o.ghost, MatG):
                return o.ghost.n
        raise Unsupported("matrix")

    def wanted(self, info):
        return []


class LargeDefault(LargeList):
    """the overload without a list: targets 0..k-1"""
    npar = 2
    nothrow, noreturn = True, False

    def __init__(self):
        self.ok, self.tag = True, "makeLargeGate/default"

    def formal(self, vc, st, ty, ps, n):
        if n == 0:
            q = z3.BitVec("a0", 32)
            self.sub = LargeList(True)
            self.sub.setup(st, Targets("d", True), q)
            self.tg, self.lay, self.q = self.sub.tg, self.sub.lay, q
            return A(ty, q), (1, [q])
        l = z3.simplify(self.q - 1)
        return self.mat(vc, st, (self.sub.OR(l), self.sub.OC(l)), (z3.BitVec("nr", 64), z3.BitVec("nc", 64)))

    def context(self, T, st, a):
        return self.sub, self.sub.tg

    def requires(self, T, st, a):
        q, g = bv(a[0].val, 32), a[1].val
        k = self.tg.k
        return [B("register size", z3.And(q >= 1, q <= NQ)), B("matrix has 2^k rows and fits the register", z3.And(z3.ULE(k, MAXK), v64(g.n) == one(k), z3.ULE(k, z3.SignExt(32, q))))]

    def entry(self, vc, st, a):
        pass


def large_contracts():
    return [LargeRec(), LargeList(True), LargeList(False), LargeDefault()]


def large_lib():
    v = "std::vector: push_back appends, size and indexing"
    MAT = r"std::vector<std::vector<std::complex<double>, .*>"
    ROW = r"std::vector<std::complex<double>, std::allocator<std::complex<double> ?> ?>"
    SEQ = r"std::vector<(int|unsigned long), std::allocator<(int|unsigned long)> ?>"
    BOO = r"std::vector<bool, std::allocator<bool> ?>"
    IT = r"__gnu_cxx::__normal_iterator<(int const|int|unsigned long)\*, " + SEQ + r" ?>"
    return [
        (MAT + r"::(size|empty)\(\) const$", m_size, v),
        (ROW + r"::(size|empty)\(\) const$", m_size, v),
        (SEQ + r"::(size|empty)\(\) const$", m_size, v),
        (BOO + r"::(size|empty)\(\) const$", m_size, v),
        (MAT + r"::(operator\[\]|at)\(unsigned long\)", m_index, v),
        (ROW + r"::(operator\[\]|at)\(unsigned long\)", m_index, v),
        (SEQ + r"::(operator\[\]|at)\(unsigned long\)", m_index, v),
        (BOO + r"::operator\[\]\(unsigned long\)", m_index, v),
        (MAT + r"::vector\(\)$", r_ctor, v),
        (MAT + r"::push_back\(", r_push, v),
        (SEQ + r"::vector\(\)$", v_ctor, v),
        (SEQ + r"::push_back\(", v_push, v),
        (SEQ + r"::c?(begin|end)\(\)", begin_end, v),
        (BOO + r"::vector\(unsigned long, bool const&, ", b_ctor, v),
        (BOO + r"::vector\(std::vector<bool", b_copy, v),
        (r"std::_Bit_reference::operator=\(bool\)", b_set, v),
        (r"std::_Bit_reference::operator bool\(\) const", b_get, v),
        (r"std::vector<.*>::~vector\(\)$", nothing, ""),
        (r"std::__new_allocator<bool>::~?__new_allocator\(\)$", nothing, ""),
        (r"(bool )?(__gnu_cxx::)?operator!=<", it_cmp(True), ""),
        (r"(bool )?(__gnu_cxx::)?operator==<", it_cmp(False), ""),
        (r"bool __gnu_cxx::operator!=<", it_cmp(True), ""),
        (IT + r"::operator(\*|->)\(\) const$", it_deref, ""),
        (IT + r"::operator\+\+\(\)$", it_inc, ""),
        (r"__cxa_allocate_exception$", exc_alloc, ""),
        (r"std::invalid_argument::invalid_argument\(", nothing, ""),
        (r"__cxa_free_exception$", nothing, ""),
        (r"void std::sort<", sort, ""),
        (r".*std::min_element<|.*std::max_element<", minmax, "std::min_element returns an element not greater than any other"),
        (r".*std::log2<unsigned long>\(unsigned long\)$|^log2$", log2, "log2 of a power of two is exact"),
    ]
