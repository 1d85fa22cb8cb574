"""Garbage collection (C15): a diagram is written to a table, its node store is replaced, the diagram is read back.

Table of a diagram (std::vector<vContent/mContent>): NODE(j) is the node record j describes.  NODE(0) is the terminal; record j > 0 holds the
qubit and the weights of NODE(j) and, for each child, an index below j of a record of that child (obligation at every push_back).  The table only
grows, no node has two records.  The map node -> index holds exactly the nodes of the table, each with the index of its record (obligation at every
store; the map entry and the record may be made in either order, but both before the next call and before the return).

Reading back: YF(j) is the node made from record j; ORIG(YF(j)) = NODE(j): same qubit, same weights, and its children are made from the records of
the children (obligation at every store into the map index -> node).  ORIG is a function because a store never holds two nodes with equal fields (C06).
Equal structure gives equal entries (induction over the qubits; the steps are obligations "lemma")."""
import re
import z3
from ir import Unsupported, PTR, I32, Ty
from poly import Poly, Atoms, ONE
from exe import Ptr, NodePtr, NULL, PathEnd, conc, bv
from theory import E, NQ
from contract import *
import c_dd
import loops

B64 = z3.BitVecSort(64)
CAP = (1 << 31) - 1


def v64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def sx(x):
    """index (32 or 64 bits) as 64 bits"""
    if isinstance(x, int):
        return z3.BitVecVal(x, 64)
    return z3.simplify(z3.SignExt(32, x)) if x.size() == 32 else x


def slt(a, b):
    return v64(a) < v64(b)


class TabG:
    """table under construction or complete"""

    def __init__(self, k, tid, n, unmapped=None, frozen=False):
        self.k, self.tid, self.n, self.unmapped, self.frozen = k, tid, n, unmapped, frozen

    def but(self, **kw):
        return TabG(**{**self.__dict__, **kw})

    def havoc(self, vc, st):
        n = z3.BitVec(st.sym("tabn"), 64)
        st.assume(n >= v64(self.n), n <= CAP)
        return self.but(n=n)

    def node(self, T, j):
        return z3.Function("NODE!" + self.tid, B64, T.Sort[self.k])(v64(j))

    def idxof(self, T, ref):
        return z3.Function("IDXOF!" + self.tid, T.Sort[self.k], B64)(ref)

    def idx(self, T, c, j):
        return z3.Function(f"IDX{c}!" + self.tid, B64, z3.BitVecSort(32))(v64(j))

    def orig(self, T, ref):
        return z3.Function("ORIG!" + self.tid, T.Sort[self.k], T.Sort[self.k])(ref)


class MapG:
    """map node -> index of the table tid (None: not linked yet).  mem: keys known to be in or not; exact: no other key is in"""

    def __init__(self, k, tid, mem=(), exact=True, early=None, n0=None):
        self.k, self.tid, self.mem, self.exact, self.early, self.n0 = k, tid, mem, exact, early, n0

    def but(self, **kw):
        return MapG(**{**self.__dict__, **kw})

    def havoc(self, vc, st):
        raise Unsupported("loop over a map")

    def has(self, vc, st, oid, key):
        g = self
        if g.n0 is not None:
            # the map of a formal parameter: empty exactly when the table is
            if vc.decide(st, g.n0 == 0):
                g = g.but(exact=True, n0=None)
            else:
                g = g.but(exact=False, n0=None, mem=g.mem + ((vc.th.T[g.k], True),))
            st.wobj(oid).ghost = g
        for m, b in g.mem:
            if m.eq(key):
                return b
        for m, b in g.mem:
            if vc.entails(st, key == m):
                return b
        ins = [m for m, b in g.mem if b]
        if g.exact:
            b = vc.decide(st, z3.Or(*[key == m for m in ins])) if ins else False
        else:
            b = vc.decide(st, z3.Bool(f"in!{g.tid}!{key.get_id()}!{len(g.mem)}"))
            if not b:
                st.assume(*[key != m for m in ins])
        if b and g.exact:
            pass
        st.wobj(oid).ghost = g.but(mem=g.mem + ((key, b),))
        Atoms.keepalive.append(key)
        return b

    def get(self, vc, st, oid, key):
        if not self.has(vc, st, oid, key):
            vc.oblige(st, "index read belongs to a node of the table", False, f"{vc.where(st)}: {key}")
            raise PathEnd("map")
        t = table_of(st, self.tid)
        T = vc.th
        x = t.idxof(T, key)
        st.assume(x >= 0, x < v64(t.n), t.node(T, x) == key)
        return z3.simplify(z3.Extract(31, 0, x))

    def put(self, vc, st, oid, key, val):
        T = vc.th
        if self.tid is None:
            raise Unsupported("map without a table")
        t = table_of(st, self.tid)
        val = sx(val)
        have = self.has(vc, st, oid, key)
        g = st.mem[oid].ghost
        n = v64(t.n)
        if t.unmapped is not None and vc.entails(st, key == t.unmapped):
            ok = vc.entails(st, val == n - 1)
            vc.oblige(st, "index entered in the map is the one of the node's record", ok, vc.where(st))
            if not ok:
                raise PathEnd("map")
            set_table(st, t.but(unmapped=None))
            st.wobj(oid).ghost = g.but(mem=((key, True),) + tuple(x for x in g.mem if x[1] or vc.entails(st, x[0] != key)))
            return
        if not have and g.early is None and t.unmapped is None and vc.entails(st, val == n):
            st.wobj(oid).ghost = g.but(early=key, mem=((key, True),) + tuple(x for x in g.mem if x[1] or vc.entails(st, x[0] != key)))
            return
        ok = vc.entails(st, z3.And(val >= 0, val < n, t.node(T, val) == key))
        vc.oblige(st, "index entered in the map is the one of the node's record", ok, f"{vc.where(st)}: {key}")
        if not ok:
            raise PathEnd("map")


def table_of(st, tid):
    for o in st.mem.values():
        if isinstance(o.ghost, TabG) and o.ghost.tid == tid and not o.ghost.frozen:
            return o.ghost
    raise Unsupported("table of a map")


def set_table(st, t):
    for i, o in list(st.mem.items()):
        if isinstance(o.ghost, TabG) and o.ghost.tid == t.tid:
            st.wobj(i).ghost = t


class YMapG:
    """map index -> node made from the record; the records below cnt have been entered"""

    def __init__(self, k, ver, cnt):
        self.k, self.ver, self.cnt = k, ver, cnt

    def havoc(self, vc, st):
        c = z3.BitVec(st.sym("ycnt"), 64)
        st.assume(c >= v64(self.cnt), c <= CAP)
        return YMapG(self.k, self.ver, c)

    def node(self, T, j):
        return z3.Function("YF!" + self.ver, B64, T.Sort[self.k])(v64(j))


class StoreG:
    """node store handed over: r = number of records entered in it without a search (+1)"""

    def __init__(self, k, r):
        self.k, self.r = k, r

    def havoc(self, vc, st):
        return StoreG(self.k, z3.BitVec(st.sym("stored"), 64))


def only_table(st):
    t = [o.ghost for o in st.mem.values() if isinstance(o.ghost, TabG)]
    if not t:
        raise Unsupported("no table")
    return t[0]


# ------------------------------------------------------------------ records
def lay(vc, k):
    d = vc.mod.dbg_members(k + "Content")
    return d["v"], d["w"], d["index"], vc.mod.size(Ty("named", f"struct.{k}Content")) if False else None


def normal_facts(vc, st, k, x):
    """what C04 establishes for every registered node: the largest weight is exactly one, no node is the identity on its qubit"""
    T = vc.th
    key = ("nf", k, x.get_id())
    if key in st.g.get("known", frozenset()):
        return
    # which weight is one
    n = T.nc[k]
    sel = z3.Function(f"one_{k}", T.Sort[k], z3.BitVecSort(2))(x)
    which = None
    for i in range(n - 1):
        if vc.decide(st, sel == i):
            which = i
            break
    if which is None:
        which = n - 1
        st.assume(sel == n - 1)
    st.g = {**st.g, "known": st.g.get("known", frozenset()) | {key}}
    Atoms.keepalive.append(x)
    T.mat(st, k, x)
    cw = [T.cw(k, i, x) for i in range(n)]
    T.add_eq(st, cw[which] - ONE, cw[which])
    for i in range(n):
        big = T.Lt(st, ONE, cw[i] * cw[i].conj())
        st.assume(z3.Not(big) if z3.is_expr(big) else z3.BoolVal(not big))
    if k == "m":
        z = [T.Zc(st, w) for w in cw]
        same = T.Zc(st, cw[0] - cw[3])
        z = [b if z3.is_expr(b) else z3.BoolVal(b) for b in z + [same]]
        st.assume(z3.Not(z3.And(T.cn[k][0](x) == T.cn[k][3](x), z[1], z[2], z[4])))


def push_back(vc, st, vals, ins, dem):
    p = vals[0]
    if not (isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, TabG)):
        return NotImplemented
    T = vc.th
    t = st.mem[p.o].ghost
    k, n = t.k, v64(t.n)
    if t.frozen:
        raise Unsupported("record added to a copied table")
    where = vc.where(st)
    vc.oblige(st, "every node of the table is in the map before the next record is added", t.unmapped is None, where)
    if t.unmapped is not None:
        raise PathEnd("table")
    m = [(i, o.ghost) for i, o in st.mem.items() if isinstance(o.ghost, MapG) and o.ghost.tid == t.tid]
    if len(m) != 1:
        raise Unsupported("table without a map")
    moid, mg = m[0]
    if vc.decide(st, n == 0):
        x = T.T[k]
    else:
        vo, wo, io, _ = lay(vc, k)
        rec = vals[1]
        v = vc.ld(st, vc.gepc(rec, vo), I32)
        x = None
        if z3.is_expr(v) and v.num_args() == 1 and v.decl().name() == "var_" + k:
            x = v.arg(0)
        else:
            x = next((a.val.ref for a in (vc.top_measure or ()) if isinstance(a.val, NodePtr)), None)
        if x is None:
            raise Unsupported("node of a record")
        ok = T.prove_bool(st, z3.And(x != T.T[k], T.var[k](x) == bv(v, 32)))
        ok = vc.oblige(st, "record holds the node's qubit", ok, where)
        for i in range(T.nc[k]):
            w = vc.rd_complex(st, vc.gepc(rec, wo + 16 * i))
            T.mat(st, k, x)
            ok = vc.oblige(st, f"record holds weight {i} of the node", T.prove_zero(st, w - T.cw(k, i, x)), where) and ok
            j = sx(vc.ld(st, vc.gepc(rec, io + 4 * i), I32))
            ok = vc.oblige(st, f"record holds the index of child {i}", T.prove_bool(st, z3.And(j >= 0, j < n, t.node(T, j) == T.cn[k][i](x))), where) and ok
            if ok:
                st.assume(t.idx(T, i, n) == z3.Extract(31, 0, j))
        if not ok:
            raise PathEnd("table")
        if isinstance(vc.top, ToVec):
            vc.oblige(st, "nodes added are the node given or below it", T.prove_bool(st, T.var[k](x) <= T.var[k](vc.top_measure[0].val.ref)), where)
    if mg.early is not None:
        ok = vc.entails(st, x == mg.early)
        vc.oblige(st, "the record added is the one announced in the map", ok, where)
        un = None
    else:
        ok = mg.has(vc, st, moid, x) is False
        mg = st.mem[moid].ghost
        vc.oblige(st, "a node is written to the table once", ok, where)
        un = x
    if not ok:
        raise PathEnd("table")
    st.wobj(moid).ghost = mg.but(early=None)
    st.assume(t.node(T, n) == x, t.idxof(T, x) == n, n < CAP)
    set_table(st, t.but(n=z3.simplify(n + 1), unmapped=un))
    return None


def table_size(vc, st, vals, ins, dem):
    p = vals[0]
    if not (isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, TabG)):
        return NotImplemented
    n = conc(v64(st.mem[p.o].ghost.n))
    if "empty()" in dem:
        return conc(v64(n) == 0)
    return n


def table_index(vc, st, vals, ins, dem):
    p = vals[0]
    if not (isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, TabG)):
        return NotImplemented
    return record(vc, st, st.mem[p.o].ghost, sx(vals[1] if "operator[]" in dem or "at(" in dem else v64(st.mem[p.o].ghost.n) - 1))


def record(vc, st, t, e):
    """a read-only copy of record e"""
    T = vc.th
    k = t.k
    ok = T.prove_bool(st, z3.And(e >= 0, e < v64(t.n)))
    vc.oblige(st, "table is read inside its bounds", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    if vc.decide(st, e == 0):
        # the terminal's record: nothing is known about its contents
        vo, wo, io, _ = lay(vc, k)
        o = Ptr(st.new(io + 4 * T.nc[k] + 8, "record"))
        c = st.wobj(o.o).cells
        c[vo] = (z3.BitVec(st.sym("rec"), 32), 4)
        for i in range(T.nc[k]):
            w = Poly.atom(Atoms.get(st.sym("rec"), (), "complex"))
            c[wo + 16 * i], c[wo + 16 * i + 8] = (w.re(), 8), (w.im(), 8)
            c[io + 4 * i] = (z3.BitVec(st.sym("rec"), 32), 4)
        st.wobj(o.o).const = True
        return o
    x = t.node(T, e)
    normal_facts(vc, st, k, x)
    st.assume(x != T.T[k])
    T.reffacts(st, k, x)
    vo, wo, io, _ = lay(vc, k)
    o = Ptr(st.new(io + 4 * T.nc[k] + 8, "record"))
    c = st.wobj(o.o).cells
    c[vo] = (conc(T.var[k](x)), 4)
    for i in range(T.nc[k]):
        w = T.cw(k, i, x)
        c[wo + 16 * i], c[wo + 16 * i + 8] = (w.re(), 8), (w.im(), 8)
        j = t.idx(T, i, e)
        s = sx(j)
        st.assume(s >= 0, s < e, t.node(T, s) == T.cn[k][i](x))
        c[io + 4 * i] = (conc(j), 4)
    st.wobj(o.o).const = True
    return o


def table_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcBase) or not isinstance(vals[0], Ptr):
        return NotImplemented
    st.wobj(vals[0].o).ghost = TabG(kind(dem), st.sym("tab"), 0)
    return None


def kind(dem):
    return "v" if "vContent" in dem or "vNode" in dem or "vEdge" in dem else "m"


# ------------------------------------------------------------------ maps
class IntRef:
    """reference to map[key]"""

    def __init__(self, oid, key, off=0, pair=False):
        self.oid, self.key, self.off, self.pair = oid, key, off, pair

    def gepidx(self, vc, st, ty, idx, ityps):
        off, t = self.off, vc.mod.resolve(ty)
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if not isinstance(i, int):
                raise Unsupported("map element")
            if n == 0:
                off += i * vc.mod.size(t)
            else:
                off += vc.mod.field_off(t, i)
                t = vc.mod.resolve(t.a[i])
        return IntRef(self.oid, self.key, off, self.pair)

    def gepc(self, d):
        return IntRef(self.oid, self.key, self.off + d, self.pair)

    def load(self, vc, st, ty):
        g = st.mem[self.oid].ghost
        if isinstance(g, MapG):
            if self.pair and self.off == 0 and ty.k == "ptr":
                return NodePtr(g.k, self.key, 0)
            if self.off == (8 if self.pair else 0) and ty.k == "i" and ty.a == 32:
                return g.get(vc, st, self.oid, self.key)
        if isinstance(g, YMapG) and self.off == (8 if self.pair else 0) and ty.k == "ptr":
            return yget(vc, st, g, self.key)
        raise Unsupported("map element")

    def store(self, vc, st, v, ty):
        g = st.mem[self.oid].ghost
        if isinstance(g, MapG) and self.off == (8 if self.pair else 0) and ty.k == "i" and ty.a == 32:
            return g.put(vc, st, self.oid, self.key, v)
        if isinstance(g, YMapG) and self.off == (8 if self.pair else 0) and ty.k == "ptr":
            return yput(vc, st, self.oid, g, self.key, v)
        raise Unsupported("map element")

    def same(self, vc, st, o):
        raise Unsupported("map element comparison")


class It:
    def __init__(self, oid, key):
        self.oid, self.key = oid, key

    def same(self, vc, st, o):
        if not isinstance(o, It) or o.oid != self.oid:
            raise Unsupported("iterators of different containers")
        if self.key is None or o.key is None:
            return self.key is None and o.key is None
        return conc(self.key == o.key)


def yget(vc, st, g, j):
    T = vc.th
    t = only_table(st)
    ok = T.prove_bool(st, z3.And(j >= 0, j < v64(g.cnt)))
    vc.oblige(st, "the node of a record is used after it was made", ok, vc.where(st))
    if not ok:
        raise PathEnd("map")
    y = z3.simplify(g.node(T, j))
    x = t.node(T, j)
    Atoms.keepalive.extend((y, x))
    T.reffacts(st, g.k, y)
    T.reffacts(st, g.k, x)
    st.assume(T.var[g.k](y) == T.var[g.k](x), t.orig(T, y) == x)
    return NodePtr(g.k, y, 0)


def yput(vc, st, oid, g, j, v):
    T = vc.th
    t = only_table(st)
    k = g.k
    where = vc.where(st)
    if not isinstance(v, NodePtr) or v.off or v.k != k:
        vc.oblige(st, "node entered in the map is a registered node", False, f"{where}: {v}")
        raise PathEnd("map")
    if not vc.entails(st, j == v64(g.cnt)):
        if vc.entails(st, z3.And(j >= 0, j < v64(g.cnt))):
            raise Unsupported("map entry is replaced")
        vc.oblige(st, "nodes are made in the order of their records", False, f"{where}: {j} after {g.cnt}")
        raise PathEnd("map")
    y = v.ref
    ok = T.prove_bool(st, j < v64(t.n))
    x = z3.simplify(t.node(T, j))
    T.reffacts(st, k, y)
    T.reffacts(st, k, x)
    ok = vc.oblige(st, "node made from a record is on the record's qubit", ok and T.prove_bool(st, T.var[k](y) == T.var[k](x)), where)
    if not vc.entails(st, x == T.T[k]) and ok:
        T.mat(st, k, y)
        T.mat(st, k, x)
        for i in range(T.nc[k]):
            ok = vc.oblige(st, f"node made from a record has its weight {i}", T.prove_zero(st, T.cw(k, i, y) - T.cw(k, i, x)), where) and ok
            ok = vc.oblige(st, f"child {i} of the node made from a record is the node made from the child's record",
                           T.prove_bool(st, t.orig(T, T.cn[k][i](y)) == T.cn[k][i](x)), where) and ok
    if not ok:
        raise PathEnd("map")
    st.assume(t.orig(T, y) == x, g.node(T, j) == y)
    st.wobj(oid).ghost = YMapG(k, g.ver, z3.simplify(v64(g.cnt) + 1))
    if k not in vc.lemmas:
        vc.lemmas.add(k)
        lemma(vc, st, t, k)


def lemma(vc, st, t, k):
    """equal structure => equal entries: induction over the qubits"""
    T = vc.th
    s = st.copy()
    s.eqs = []
    s.pc = []
    s.g = {}
    y, x = z3.Const("lem!y", T.Sort[k]), z3.Const("lem!x", T.Sort[k])
    L = z3.BitVec("lem!L", 32)
    for r in (y, x):
        T.mat(s, k, r)
    s.assume(T.var[k](y) == T.var[k](x), L >= 0, L < NQ, T.var[k](x) <= L)
    for i in range(T.nc[k]):
        a, b = T.cn[k][i](y), T.cn[k][i](x)
        s.assume(T.var[k](a) == T.var[k](b), T.zcw[k][i](y) == T.zcw[k][i](x))
        T.add_eq(s, T.cw(k, i, y) - T.cw(k, i, x), T.cw(k, i, y))
        T.add_eq(s, T.D(k, a, L - 1) - T.D(k, b, L - 1), T.D(k, a, L - 1))
    s1 = s.copy()
    s1.assume(T.var[k](x) == L)
    vc.oblige(st, "lemma: nodes of equal structure have equal entries (their own qubit)", T.prove_zero(s1, T.D(k, y, L) - T.D(k, x, L), L))
    s2 = s.copy()
    s2.assume(T.var[k](x) < L)
    T.add_eq(s2, T.D(k, y, L - 1) - T.D(k, x, L - 1), T.D(k, y, L - 1))
    vc.oblige(st, "lemma: nodes of equal structure have equal entries (a qubit above)", T.prove_zero(s2, T.D(k, y, L) - T.D(k, x, L), L))


def gmap(f):
    def h(vc, st, vals, ins, dem):
        for p in vals[:2]:
            if isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, (MapG, YMapG)):
                return f(vc, st, p, st.mem[p.o].ghost, [x for x in vals if x is not p], dem)
        return NotImplemented
    return h


def keyof(vc, st, g, p):
    if isinstance(g, YMapG):
        return sx(vc.ld(st, p, I32))
    k = vc.ld(st, p, PTR)
    if not isinstance(k, NodePtr) or k.k != g.k or k.off:
        raise Unsupported(f"map key {k}")
    return k.ref


@gmap
def m_find(vc, st, p, g, vals, dem):
    if isinstance(g, YMapG):
        raise Unsupported("search in the map of nodes made")
    key = keyof(vc, st, g, vals[0])
    return It(p.o, key if g.has(vc, st, p.o, key) else None)


@gmap
def m_count(vc, st, p, g, vals, dem):
    if isinstance(g, YMapG):
        raise Unsupported("search in the map of nodes made")
    b = g.has(vc, st, p.o, keyof(vc, st, g, vals[0]))
    return b if "contains" in dem else int(b)


@gmap
def m_end(vc, st, p, g, vals, dem):
    return It(p.o, None)


@gmap
def m_index(vc, st, p, g, vals, dem):
    return IntRef(p.o, keyof(vc, st, g, vals[0]))


def m_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcBase) or not isinstance(vals[0], Ptr):
        return NotImplemented
    k = kind(dem)
    if re.match(r"std::unordered_map<int", dem) or re.match(r"std::map<int", dem):
        st.wobj(vals[0].o).ghost = YMapG(k, st.sym("y"), 0)
    else:
        st.wobj(vals[0].o).ghost = MapG(k, None)
    return None


def it_cmp(neq):
    def h(vc, st, vals, ins, dem):
        try:
            a, b = (v if isinstance(v, It) else vc.ld(st, v, PTR) for v in vals[:2])
        except Unsupported:
            return NotImplemented
        if not isinstance(a, It):
            return NotImplemented
        r = a.same(vc, st, b)
        return ((not r) if isinstance(r, bool) else z3.Not(r)) if neq else r
    return h


def it_deref(vc, st, vals, ins, dem):
    try:
        it = vc.ld(st, vals[0], PTR)
    except Unsupported:
        return NotImplemented
    if not isinstance(it, It):
        return NotImplemented
    vc.oblige(st, "iterator is dereferenced inside the map", it.key is not None, vc.where(st))
    if it.key is None:
        raise PathEnd("ub")
    return IntRef(it.oid, it.key, 0, True)


def nothing(vc, st, vals, ins, dem):
    return None if isinstance(vc.top, GcBase) else NotImplemented


def gone(vc, st, vals, ins, dem):
    """destructor"""
    if not isinstance(vc.top, GcBase):
        return NotImplemented
    if ghost(st, vals[0], TabG, MapG, VecTabG, VecEdgeG, NewIdG, YMapG):
        st.wobj(vals[0].o).ghost = None
    return None


# ------------------------------------------------------------------ node store while reading back
def st_lookup(vc, st, vals, ins, dem):
    if not isinstance(vc.top, ToNode):
        return NotImplemented
    s = vals[0]
    ok = isinstance(s, Ptr) and s.o and isinstance(st.mem[s.o].ghost, StoreG)
    vc.oblige(st, "nodes are registered in the store given", ok, vc.where(st))
    if not ok:
        raise PathEnd("store")
    if "getNode" in dem:
        return c_dd.get_node(vc, st, vals, ins, dem)
    p = vals[1]
    g = st.mem[s.o].ghost
    T = vc.th
    nl = vc.top.no_lookup
    if "register_wo_lookup" in dem:
        t = only_table(st)
        k = t.k
        x = t.node(T, g.r)
        ok = T.prove_bool(st, z3.And(nl, v64(g.r) >= 1, v64(g.r) < v64(t.n)))
        if ok and isinstance(p, Ptr) and p.o:
            k2, v, ch = c_dd.read_fresh(vc, st, p)
            normal_facts(vc, st, k, x)
            ok = k2 == k and T.prove_bool(st, T.var[k](x) == bv(v, 32)) and all(T.prove_zero(st, ch[i].w - T.cw(k, i, x)) and
                                                                             T.prove_bool(st, t.orig(T, ch[i].n.ref) == T.cn[k][i](x)) for i in range(T.nc[k]))
        vc.oblige(st, "a node is stored without a search only into a new store, once per record", ok, vc.where(st))
        if not ok:
            raise PathEnd("store")
        st.wobj(s.o).ghost = StoreG(k, z3.simplify(v64(g.r) + 1))
        vc.trusted.add("CHashTable::register_wo_lookup stores the node given (C06)")
    elif vc.feasible(st, nl):
        st.wobj(s.o).ghost = StoreG(g.k, z3.BitVec(st.sym("stored"), 64))
    return c_dd.lookup(vc, st, vals, ins, dem)


# ------------------------------------------------------------------ contracts
class GcBase(Contract):
    loops = True
    strict = False
    nopeel = True

    def nodeptr(self, vc, st, k, nm):
        ref = z3.Const(nm + ".n", vc.th.Sort[k])
        vc.th.reffacts(st, k, ref)
        return NodePtr(k, ref, 0)


class ToVec(GcBase):
    """vNode_to_vec, mNode_to_vec"""

    def __init__(self, k):
        self.k = k
        self.name = k + "Node_to_vec"

    def matches(self, dem):
        ps = split_params(dem)[1]
        return basename(dem) == self.name and len(ps) == 3 and ps[0] == f"{self.k}Node*" and ps[1].startswith(f"std::vector<{self.k}Content") and ps[2].startswith(f"std::unordered_map<{self.k}Node*, int")

    def formals(self, vc, st, fn):
        k = self.k
        vc.lemmas = set()
        x = self.nodeptr(vc, st, k, "a0")
        n = z3.BitVec("n0", 64)
        st.assume(n >= 0, n < CAP)
        tab, mp = Ptr(st.new(24, "table")), Ptr(st.new(None, "map"))
        t = TabG(k, "T0", n)
        st.mem[tab.o].ghost = t
        st.mem[mp.o].ghost = MapG(k, "T0", (), False, None, n)
        T = vc.th
        st.assume(z3.Implies(n > 0, z3.And(t.node(T, 0) == T.T[k], t.idxof(T, T.T[k]) == 0)))
        self.n0 = n
        return [x, tab, mp], [A("node", x), A("table", tab), A("map", mp)], None

    def apply(self, vc, st, vals, ins):
        T = vc.th
        k = self.k
        where = vc.where(st)
        x, tab, mp = vals
        if not isinstance(x, NodePtr) or x.off or x.k != k:
            vc.oblige(st, f"precondition of {self.name}: a registered node is given", False, f"{where}: {x}")
            raise PathEnd("pre")
        t = st.mem[tab.o].ghost if isinstance(tab, Ptr) and tab.o else None
        m = st.mem[mp.o].ghost if isinstance(mp, Ptr) and mp.o else None
        if not isinstance(t, TabG) or not isinstance(m, MapG) or t.frozen:
            raise Unsupported("table or map of " + self.name)
        n = v64(t.n)
        if m.tid is None and vc.entails(st, n == 0) and m.exact and not any(b for _, b in m.mem):
            m = m.but(tid=t.tid)
        ok = m.tid == t.tid
        vc.oblige(st, f"precondition of {self.name}: the map belongs to the table", ok, where)
        full = t.unmapped is None and m.early is None
        vc.oblige(st, f"precondition of {self.name}: map and table hold the same nodes", full, where)
        if not (ok and full):
            raise PathEnd("pre")
        T.reffacts(st, k, x.ref)
        lv = T.var[k](x.ref)
        if isinstance(vc.top, GcAll):
            vc.oblige(st, "nodes are read while their store exists", T.prove_bool(st, inst(T, k, x.ref, store_of(vc, st, k).ghost.ver)), where)
        if vc.top is self:
            vc.oblige(st, f"recursion of {self.name} terminates (measure decreases)", T.prove_bool(st, lv < T.var[k](vc.top_measure[0].val.ref)), where)
        if m.n0 is not None:
            m.has(vc, st, mp.o, T.T[k])
            m = st.mem[mp.o].ghost
        n1 = z3.BitVec(st.sym("tabn"), 64)
        i = t.idxof(T, x.ref)
        Atoms.keepalive.append(x.ref)
        st.assume(n1 >= n, n1 >= 1, n1 < CAP, i >= 0, i < n1, t.node(T, i) == x.ref, z3.Implies(n == 0, i == n1 - 1),
                  t.node(T, 0) == T.T[k], t.idxof(T, T.T[k]) == 0)
        set_table(st, t.but(n=n1))
        keep = tuple((q, b) for q, b in m.mem if b or vc.entails(st, T.var[k](q) > lv))
        st.wobj(mp.o).ghost = m.but(mem=((x.ref, True), (T.T[k], True)) + keep, exact=False)
        return z3.simplify(z3.Extract(31, 0, i))

    def check_post(self, vc, s, args, r, pre):
        T = vc.th
        k = self.k
        x, tab, mp = (a.val for a in args)
        t, m = s.mem[tab.o].ghost, s.mem[mp.o].ghost
        pc = f"postcondition of {self.name}: "
        vc.oblige(s, pc + "map and table hold the same nodes", t.unmapped is None and m.early is None)
        n, r = v64(t.n), sx(r)
        prove_clause(vc, s, B("the terminal has the first record", z3.And(n >= 1, t.node(T, 0) == T.T[k])), pc)
        prove_clause(vc, s, B("index returned is the one of the node's record", z3.And(r >= 0, r < n, t.node(T, r) == x.ref)), pc)
        prove_clause(vc, s, B("in a new table the node has the last record", z3.Implies(self.n0 == 0, r == n - 1)), pc)
        prove_clause(vc, s, B("the table has only grown", n >= self.n0), pc)


class ToNode(GcBase):
    """vec_to_vNode, vec_to_mNode"""

    def __init__(self, k):
        self.k = k
        self.name = f"vec_to_{k}Node"

    def matches(self, dem):
        ps = split_params(dem)[1]
        return basename(dem) == self.name and len(ps) == 3 and ps[0].startswith(f"std::vector<{self.k}Content") and ps[1].startswith("CHashTable<") and ps[2] == "bool"

    def formals(self, vc, st, fn):
        k, T = self.k, vc.th
        vc.lemmas = set()
        n = z3.BitVec("n0", 64)
        st.assume(n >= 1, n < CAP)
        tab, so = Ptr(st.new(24, "table")), Ptr(st.new(None, "store"))
        t = TabG(k, "T0", n, None, True)
        st.mem[tab.o].ghost = t
        st.mem[so.o].ghost = StoreG(k, 1)
        st.assume(t.node(T, 0) == T.T[k])
        nl = z3.Bool("no_lookup")
        self.no_lookup = nl
        return [tab, so, nl], [A("table", tab), A("store", so), A("bool", nl)], None

    def apply(self, vc, st, vals, ins):
        T, k = vc.th, self.k
        where = vc.where(st)
        tab, so, nl = vals
        t, g = ghost(st, tab, TabG), ghost(st, so, GStoreG)
        if t is None or not isinstance(vc.top, GcAll):
            raise Unsupported("call of " + self.name)
        ok = g is not None and g.k == k
        vc.oblige(st, f"precondition of {self.name}: the store given is the global node store", ok, where)
        if not ok:
            raise PathEnd("pre")
        nl = z3.BoolVal(nl) if isinstance(nl, bool) else nl
        ok = T.prove_bool(st, z3.And(z3.Implies(nl, g.empty), v64(t.n) >= 1))
        vc.oblige(st, f"precondition of {self.name}: the search is only left out when the store is empty", ok, where)
        if not ok:
            raise PathEnd("pre")
        x = z3.simplify(t.node(T, v64(t.n) - 1))
        y = z3.Const(st.sym("copy"), T.Sort[k])
        Atoms.keepalive.extend((x, y))
        T.reffacts(st, k, x)
        T.reffacts(st, k, y)
        st.assume(copyof(T, k, y, x), T.var[k](y) == T.var[k](x), inst(T, k, y, g.ver))
        st.wobj(so.o).ghost = GStoreG(k, g.ver, z3.BoolVal(False))
        return NodePtr(k, y, 0)

    def candidates(self, vc, st, info):
        out = []
        n = v64(only_table(st).n)
        for x in info.ints:
            if x[2] not in (32, 64):
                continue
            gi = lambda vc, s, x=x: sx(loops.getint(vc, s, x))
            for d in (0, 1, -1):
                def ycnt(vc, s, gi=gi, d=d):
                    ys = [o.ghost for o in s.mem.values() if isinstance(o.ghost, YMapG)]
                    return [B("", v64(y.cnt) == gi(vc, s) + d) for y in ys] or None
                out.append(loops.Cand("nodes made so far = counter", ycnt, ("cnt",)))

                def scnt(vc, s, gi=gi, d=d):
                    ss = [o.ghost for o in s.mem.values() if isinstance(o.ghost, StoreG)]
                    return [B("", z3.Implies(self.no_lookup, v64(g.r) == gi(vc, s) + d)) for g in ss] or None
                out.append(loops.Cand("nodes stored so far = counter", scnt))
            out.append(loops.Cand("counter within the table", lambda vc, s, gi=gi: [B("", gi(vc, s) <= n)]))
            out.append(loops.Cand("counter below the table", lambda vc, s, gi=gi: [B("", gi(vc, s) < n)]))
            for lo in (0, 1):
                out.append(loops.Cand(f"counter >= {lo}", lambda vc, s, gi=gi, lo=lo: [B("", gi(vc, s) >= lo)]))
        return out

    def wanted(self, info):
        return []

    def check_post(self, vc, s, args, r, pre):
        T, k = vc.th, self.k
        pc = f"postcondition of {self.name}: "
        ok = isinstance(r, NodePtr) and r.off == 0 and r.k == k
        vc.oblige(s, pc + "a registered node is returned", ok, str(r))
        if not ok:
            return
        t = only_table(s)
        x = t.node(T, v64(t.n) - 1)
        T.reffacts(s, k, r.ref)
        T.reffacts(s, k, x)
        prove_clause(vc, s, B("the node of the last record is rebuilt with equal structure", z3.And(t.orig(T, r.ref) == x, T.var[k](r.ref) == T.var[k](x))), pc)


# ------------------------------------------------------------------ the collection itself
class GStoreG:
    """the global node store: version, and whether nothing has been registered since it was made"""

    def __init__(self, k, ver, empty):
        self.k, self.ver, self.empty = k, ver, empty

    def havoc(self, vc, st):
        return GStoreG(self.k, z3.BitVec(st.sym("store"), 64), z3.Bool(st.sym("empty")))


class NewStoreG:
    def __init__(self, k):
        self.k = k


class NewIdG:
    def __init__(self, n):
        self.n = n


class VecEdgeG:
    """vector of edges; the element at the (arbitrary) index K is tracked in object el"""

    def __init__(self, k, n, K, el):
        self.k, self.n, self.K, self.el = k, n, K, el


class VecTabG:
    """vector of complete tables; root: node of the last record of the table at index K"""

    def __init__(self, k, n, K, root):
        self.k, self.n, self.K, self.root = k, n, K, root

    def havoc(self, vc, st):
        return VecTabG(self.k, z3.BitVec(st.sym("nt"), 64), self.K, z3.Const(st.sym("root"), vc.th.Sort[self.k]))


def inst(T, k, ref, ver):
    """the node is in the store of that version"""
    return z3.Function("INST" + k, T.Sort[k], B64, z3.BoolSort())(ref, ver)


def copyof(T, k, y, x):
    """y has the structure of x"""
    return z3.Function("COPY" + k, T.Sort[k], T.Sort[k], z3.BoolSort())(y, x)


def ghost(st, p, *cls):
    return st.mem[p.o].ghost if isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, cls) else None


def gobj(st, p):
    """name of the global an address is the address of"""
    return st.mem[p.o].name if isinstance(p, Ptr) and p.o and p.off == 0 and str(st.mem[p.o].name).startswith("@") else None


def store_of(vc, st, k):
    return st.mem[vc.global_addr(st, k + "Unique").o]


def in_range(vc, st, i, n, what):
    ok = vc.th.prove_bool(st, z3.And(i >= 0, i < v64(n)))
    vc.oblige(st, what + " is accessed inside its bounds", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")


def ve_index(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], VecEdgeG, VecTabG)
    if g is None:
        return NotImplemented
    T = vc.th
    i = sx(vals[1]) if len(vals) > 1 else v64(0) if "front" in dem else v64(g.n) - 1
    in_range(vc, st, i, g.n, "vector")
    here = vc.decide(st, i == v64(g.K))
    if isinstance(g, VecEdgeG):
        if here:
            return Ptr(g.el)
        e = fresh_edge(T, st, g.k, st.sym("other"))
        T.reffacts(st, g.k, e.n.ref)
        st.assume(inst(T, g.k, e.n.ref, store_of(vc, st, g.k).ghost.ver))
        return new_edge_obj(vc, st, e, "other element")
    p = Ptr(st.new(24, "table"))
    n = z3.BitVec(st.sym("tabn"), 64)
    st.assume(n >= 1, n < CAP)
    t = TabG(g.k, st.sym("tab"), n, None, True)
    st.mem[p.o].ghost = t
    if here:
        st.assume(t.node(T, n - 1) == g.root)
    return p


def ve_size(vc, st, vals, ins, dem):
    g = ghost(st, vals[0], VecEdgeG, VecTabG)
    if g is None:
        return NotImplemented
    n = conc(v64(g.n))
    return conc(v64(n) == 0) if "empty" in dem else n


def ve_move(vc, st, vals, ins, dem):
    g = ghost(st, vals[1], VecEdgeG) if len(vals) > 1 else None
    if g is None or not isinstance(vals[0], Ptr):
        return NotImplemented
    el = g.el
    if "&&)" not in dem:
        el = st.new(24, "element")
        vc.wr_edge(st, Ptr(el), vc.rd_edge(st, Ptr(g.el)))
    else:
        st.wobj(vals[1].o).ghost = None
    st.wobj(vals[0].o).ghost = VecEdgeG(g.k, g.n, g.K, el)
    return None


def ve_init(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcBase):
        return NotImplemented
    n = vc.concretize(st, vals[2], 64)
    if n != 1:
        raise Unsupported("list of several edges")
    el = st.new(24, "element")
    vc.wr_edge(st, Ptr(el), vc.rd_edge(st, vals[1]))
    st.wobj(vals[0].o).ghost = VecEdgeG(kind(dem), 1, 0, el)
    return None


def vt_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll):
        return NotImplemented
    T, k = vc.th, kind(dem)
    st.wobj(vals[0].o).ghost = VecTabG(k, 0, vc.top.K, z3.Const(st.sym("root"), T.Sort[k]))
    return None


def vt_push(vc, st, vals, ins, dem):
    g, t = ghost(st, vals[0], VecTabG), ghost(st, vals[1], TabG)
    if g is None or t is None:
        return NotImplemented
    n = v64(t.n)
    ok = t.unmapped is None and vc.th.prove_bool(st, n >= 1)
    vc.oblige(st, "a table kept for reading back is complete", ok, vc.where(st))
    if not ok:
        raise PathEnd("table")
    root = g.root
    if vc.decide(st, v64(g.n) == v64(g.K)):
        root = z3.simplify(t.node(vc.th, n - 1))
    set_table(st, t.but(frozen=True))
    st.assume(v64(g.n) < CAP)
    st.wobj(vals[0].o).ghost = VecTabG(g.k, z3.simplify(v64(g.n) + 1), g.K, root)
    return None


def allocations(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll):
        return NotImplemented
    return z3.BitVec(st.sym("allocations"), 64)


def new_store(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll):
        return NotImplemented
    ok = vc.th.prove_bool(st, bv(vals[1], 32) == NQ)
    vc.oblige(st, "the new store has a table for every qubit", ok, vc.where(st))
    st.wobj(vals[0].o).ghost = NewStoreG(kind(dem))
    vc.trusted.add("CHashTable: a new store is empty")
    return None


def set_store(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll):
        return NotImplemented
    d, s = ghost(st, vals[0], GStoreG), ghost(st, vals[1], NewStoreG)
    ok = d is not None and s is not None and d.k == s.k
    vc.oblige(st, "the node store is replaced by a new, empty one", ok, vc.where(st))
    if not ok:
        raise PathEnd("store")
    st.wobj(vals[1].o).ghost = None
    st.wobj(vals[0].o).ghost = GStoreG(d.k, z3.BitVec(st.sym("store"), 64), z3.BoolVal(True))
    vc.trusted.add("CHashTable: assignment replaces the contents")
    return vals[0]


def ids_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll):
        return NotImplemented
    st.wobj(vals[0].o).ghost = NewIdG(vals[1])
    return None


def ids_set(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll) or gobj(st, vals[0]) != "@identityTable":
        return NotImplemented
    s = ghost(st, vals[1], NewIdG)
    if s is None:
        raise Unsupported("identity table")
    ok = vc.th.prove_bool(st, bv(s.n, 64) == NQ)
    vc.oblige(st, "the new identity table has an entry for every qubit", ok, vc.where(st))
    if ok:
        st.g = {**st.g, "cleared": st.g.get("cleared", frozenset()) | {"identityTable"}}
    return vals[0]


def probs_clear(vc, st, vals, ins, dem):
    if not isinstance(vc.top, GcAll) or gobj(st, vals[0]) is None:
        return NotImplemented
    st.g = {**st.g, "cleared": st.g.get("cleared", frozenset()) | {gobj(st, vals[0])[1:]}}
    return None


def stream(vc, st, vals, ins, dem):
    return vals[0] if isinstance(vc.top, GcBase) else NotImplemented


class ClearAll(Contract):
    """the memo tables are emptied (C05)"""
    name = "clearAll"
    tag = "gc: clearAll"

    def matches(self, dem):
        return re.match(r"(Add|Mul)Cache::clearAll\(\)", dem) is not None

    def apply(self, vc, st, vals, ins):
        if not isinstance(vc.top, GcAll) or gobj(st, vals[0]) is None:
            raise Unsupported("clearAll")
        st.g = {**st.g, "cleared": st.g.get("cleared", frozenset()) | {gobj(st, vals[0])[1:]}}
        return None


class GcAll(GcBase):
    """gc(std::vector<vEdge>, bool), gc_mat(std::vector<mEdge>, bool)"""
    retk = "sret"

    def __init__(self, k):
        self.k = k
        self.name = "gc" if k == "v" else "gc_mat"
        self.tag = self.name + "/all"
        self.must = {"_mCache", "_aCache"} | ({"probs"} if k == "v" else {"identityTable"})

    def matches(self, dem):
        ps = split_params(dem)[1]
        return basename(dem) == self.name and len(ps) == 2 and ps[0].startswith(f"std::vector<{self.k}Edge") and not ps[0].endswith("&") and ps[1] == "bool"

    def setup_globals(self, vc, st):
        for k in "mv":
            vc.th.ghosts.pop(k + "Unique", None)
            o = vc.global_addr(st, k + "Unique").o
            st.mem[o].cells, st.mem[o].zero = {}, []
            st.mem[o].ghost = GStoreG(k, z3.BitVec("store0!" + k, 64), z3.Bool("empty0!" + k))
        for nm in ("GC_SIZE", "GC_SIZE_M"):
            if vc.mod.glob(nm):
                p = vc.global_addr(st, nm)
                st.wobj(p.o).cells, st.wobj(p.o).zero = {0: (z3.BitVec(nm, 32), 4)}, []

    def formals(self, vc, st, fn):
        k, T = self.k, vc.th
        vc.lemmas = set()
        self.setup_globals(vc, st)
        n, K = z3.BitVec("n0", 64), z3.BitVec("K", 64)
        self.n0, self.K = n, K
        st.assume(n >= 0, n < CAP, K >= 0, K < n)
        e = fresh_edge(T, st, k, "e0")
        T.reffacts(st, k, e.n.ref)
        self.e0 = e
        self.ver0 = store_of(vc, st, k).ghost.ver
        st.assume(inst(T, k, e.n.ref, self.ver0))
        el = new_edge_obj(vc, st, e, "element").o
        ret, p = Ptr(st.new(24, "result")), Ptr(st.new(24, "states"))
        st.mem[p.o].ghost = VecEdgeG(k, n, K, el)
        f = z3.Bool("force")
        return [ret, p, f], [A("vec", p), A("bool", f)], ret

    def candidates(self, vc, st, info):
        out = []
        T, k = vc.th, self.k
        n, K, e0 = self.n0, self.K, self.e0

        def tracked(s):
            r = [o.ghost for o in s.mem.values() if isinstance(o.ghost, VecEdgeG) and o.ghost.k == k]
            if len(r) != 1:
                raise Unsupported("vectors of edges")
            w, nn = vc.rd_edge(s, Ptr(r[0].el))
            if not isinstance(nn, NodePtr):
                raise Unsupported("edge")
            T.reffacts(s, k, nn.ref)
            return w, nn.ref

        def weight(vc, s):
            return [Q("", tracked(s)[0] - e0.w, tracked(s)[0])]

        def same(vc, s):
            return [B("", tracked(s)[1] == e0.n.ref)]

        def gs(s):
            return store_of(vc, s, k).ghost
        ver = gs(st).ver
        out.append(loops.Cand("the tracked weight is kept", weight))
        out.append(loops.Cand("the tracked node is untouched", same))
        out.append(loops.Cand("the store is not replaced", lambda vc, s: [B("", gs(s).ver == ver)]))
        for x in info.ints:
            if x[2] not in (32, 64):
                continue
            gi = lambda vc, s, x=x: sx(loops.getint(vc, s, x))
            out.append(loops.Cand("counter >= 0", lambda vc, s, gi=gi: [B("", gi(vc, s) >= 0)]))
            out.append(loops.Cand("counter within the vector", lambda vc, s, gi=gi: [B("", gi(vc, s) <= n)]))

            def vts(vc, s, gi=gi):
                r = [o.ghost for o in s.mem.values() if isinstance(o.ghost, VecTabG)]
                return [B("", v64(g.n) == gi(vc, s)) for g in r] or None

            def roots(vc, s, gi=gi):
                r = [o.ghost for o in s.mem.values() if isinstance(o.ghost, VecTabG)]
                return [B("", z3.Implies(gi(vc, s) > K, g.root == e0.n.ref)) for g in r] or None

            def copied(vc, s, gi=gi):
                y = tracked(s)[1]
                return [B("", z3.Implies(gi(vc, s) > K, z3.And(copyof(T, k, y, e0.n.ref), T.var[k](y) == T.var[k](e0.n.ref), inst(T, k, y, gs(s).ver)))),
                        B("", z3.Implies(gi(vc, s) <= K, y == e0.n.ref))]
            out.append(loops.Cand("tables kept so far = counter", vts))
            out.append(loops.Cand("the tracked edge's table is kept once the counter is past it", roots))
            out.append(loops.Cand("the tracked edge is rebuilt once the counter is past it", copied))
            out.append(loops.Cand("the store is empty at first", lambda vc, s, gi=gi: [B("", z3.Implies(gi(vc, s) == 0, gs(s).empty))]))
        return out

    def check_post(self, vc, s, args, r, pre):
        raise NotImplementedError

    def read_result(self, vc, st, ret, v):
        return ret

    def post(self, T, s, g, w, ref, e0, n0, ver0, new, cleared, pc, vc):
        prove_clause(vc, s, B("as many edges are returned as were given", v64(g.n) == n0), pc)
        prove_clause(vc, s, Q("weights are unchanged", w - e0.w), pc)
        if new.eq(ver0):
            prove_clause(vc, s, B("without a collection the edges are returned as they are", ref == e0.n.ref), pc)
            return
        prove_clause(vc, s, B("every edge is returned at its place with a node of equal structure", z3.And(copyof(T, self.k, ref, e0.n.ref), T.var[self.k](ref) == T.var[self.k](e0.n.ref))), pc)
        prove_clause(vc, s, B("the nodes returned are in the new store", inst(T, self.k, ref, new)), pc)
        for c in sorted(self.must):
            vc.oblige(s, pc + f"{c} holds nothing that refers to the old store", c in cleared, f"not emptied on this path ({cleared})")

    def check_post(self, vc, s, args, r, pre):
        T, k = vc.th, self.k
        pc = f"postcondition of {self.name}: "
        g = ghost(s, r, VecEdgeG)
        vc.oblige(s, pc + "the edges given are returned", g is not None and g.k == k)
        if g is None:
            return
        w, nn = vc.rd_edge(s, Ptr(g.el))
        if not isinstance(nn, NodePtr):
            vc.oblige(s, pc + "edges refer to stored nodes", False)
            return
        T.reffacts(s, k, nn.ref)
        vc.oblige(s, pc + "order is kept", v64(g.K).eq(v64(self.K)))
        self.post(T, s, g, w, nn.ref, self.e0, self.n0, self.ver0, store_of(vc, s, k).ghost.ver, s.g.get("cleared", frozenset()), pc, vc)
        other = "m" if k == "v" else "v"
        vc.oblige(s, pc + "the other node store is left alone", store_of(vc, s, other).ghost.ver.eq(z3.BitVec("store0!" + other, 64)))

    def apply(self, vc, st, vals, ins):
        """collected or not: the tracked element is the same node or a copy of it in the current store"""
        T, k = vc.th, self.k
        ret, p = vals[0], vals[1]
        g = ghost(st, p, VecEdgeG)
        if g is None or not isinstance(vc.top, GcOne):
            raise Unsupported("call of " + self.name)
        w, nn = vc.rd_edge(st, Ptr(g.el))
        if not isinstance(nn, NodePtr):
            raise Unsupported("edge")
        el = st.new(24, "element")
        if vc.decide(st, z3.Bool("collected")):
            y = z3.Const(st.sym("copy"), T.Sort[k])
            T.reffacts(st, k, y)
            ver = z3.BitVec(st.sym("store"), 64)
            st.assume(copyof(T, k, y, nn.ref), T.var[k](y) == T.var[k](nn.ref), inst(T, k, y, ver))
            store = vc.global_addr(st, k + "Unique").o
            st.wobj(store).ghost = GStoreG(k, ver, z3.BoolVal(False))
            st.g = {**st.g, "cleared": frozenset(self.must)}
            vc.wr_edge(st, Ptr(el), (w, NodePtr(k, y, 0)))
        else:
            vc.wr_edge(st, Ptr(el), (w, nn))
        st.wobj(ret.o).ghost = VecEdgeG(k, g.n, g.K, el)
        return None


class GcOne(GcAll):
    """gc(vEdge, bool), gc_mat(mEdge, bool)"""

    def __init__(self, k):
        super().__init__(k)
        self.tag = self.name + "/one"
        self.retk = k

    def matches(self, dem):
        ps = split_params(dem)[1]
        return basename(dem) == self.name and ps == [self.k + "Edge", "bool"]

    def formals(self, vc, st, fn):
        k, T = self.k, vc.th
        vc.lemmas = set()
        self.setup_globals(vc, st)
        e = fresh_edge(T, st, k, "e0")
        T.reffacts(st, k, e.n.ref)
        self.e0 = e
        self.ver0 = store_of(vc, st, k).ghost.ver
        self.K = self.n0 = None
        ret, p = Ptr(st.new(24, "result")), new_edge_obj(vc, st, e, "a0")
        f = z3.Bool("force")
        return [ret, p, f], [A(k + "Edge", e, p), A("bool", f)], ret

    def candidates(self, vc, st, info):
        return []

    def check_post(self, vc, s, args, r, pre):
        T, k = vc.th, self.k
        pc = f"postcondition of {self.name}: "
        try:
            w, nn = vc.rd_edge(s, r)
        except Unsupported:
            raise
        if not isinstance(nn, NodePtr):
            vc.oblige(s, pc + "edge refers to a stored node", False)
            return
        T.reffacts(s, k, nn.ref)
        one = VecEdgeG(k, 1, 0, 0)
        self.post(T, s, one, w, nn.ref, self.e0, v64(1), self.ver0, store_of(vc, s, k).ghost.ver, s.g.get("cleared", frozenset()), pc, vc)

    def apply(self, vc, st, vals, ins):
        raise Unsupported("call of " + self.name)


def gc_contracts():
    return [ClearAll()] + [c(k) for c in (ToVec, ToNode, GcAll, GcOne) for k in "vm"]


def gc_lib():
    u = "std::unordered_map holds what was stored under a key"
    v = "std::vector: push_back appends, size and indexing"
    UM = r"std::(unordered_)?map<([mv]Node\*, int|int, [mv]Node\*)"
    VC = r"std::vector<[mv]Content, .*>"
    return [
        (UM + r".*::(unordered_)?map\(\)$", m_ctor, u),
        (UM + r".*::find\(", m_find, u),
        (UM + r".*::(count|contains)\(", m_count, u),
        (UM + r".*::c?end\(\)", m_end, u),
        (UM + r".*::(operator\[\]|at)\(", m_index, u),
        (UM + r".*::~(unordered_)?map\(\)$", gone, ""),
        (r"(bool )?std::(__detail::)?operator!=", it_cmp(True), ""),
        (r"(bool )?std::(__detail::)?operator==", it_cmp(False), ""),
        (r"std::__detail::_Node_(const_)?iterator<.*>::operator(->|\*)\(\)", it_deref, u),
        (VC + r"::push_back\(", push_back, v),
        (VC + r"::(size|empty)\(\) const$", table_size, v),
        (VC + r"::(operator\[\]|at)\(unsigned long\)", table_index, v),
        (VC + r"::back\(\)", table_index, v),
        (VC + r"::vector\(\)$", table_ctor, v),
        (VC + r"::~vector\(\)$", gone, ""),
        (r"std::vector<[mv]Edge, .*>::(operator\[\]|at|front|back)\(", ve_index, v),
        (r"std::vector<std::vector<[mv]Content, .*>::(operator\[\]|at|front|back)\(", ve_index, v),
        (r"std::vector<([mv]Edge|std::vector<[mv]Content), .*>::(size|empty)\(\) const$", ve_size, v),
        (r"std::vector<[mv]Edge, .*>::vector\(std::initializer_list<", ve_init, v),
        (r"std::vector<[mv]Edge, .*>::vector\(std::vector<", ve_move, v),
        (r"std::vector<mEdge, .*>::vector\(unsigned long, ", ids_ctor, v),
        (r"std::vector<mEdge, .*>::operator=\(std::vector<.*&&\)", ids_set, v),
        (r"std::vector<([mv]Edge|std::vector<[mv]Content), .*>::~vector\(\)$", gone, ""),
        (r"std::__new_allocator<.*>::~__new_allocator\(\)$", nothing, ""),
        (r"std::vector<std::vector<[mv]Content, .*>::vector\(\)$", vt_ctor, v),
        (r"std::vector<std::vector<[mv]Content, .*>::push_back\(", vt_push, v),
        (r"CHashTable<.*>::get_allocations\(\)", allocations, ""),
        (r"CHashTable<.*>::CHashTable\(unsigned int\)$", new_store, ""),
        (r"CHashTable<.*>::operator=\(CHashTable<.*&&\)", set_store, ""),
        (r"CHashTable<.*>::~CHashTable\(\)$", nothing, ""),
        (r"std::unordered_map<vNode\*, double.*::clear\(\)$", probs_clear, u),
        (r"(std::basic_ostream<char, .*& )?std::(basic_ostream<char, std::char_traits<char> >::)?operator<<", stream, ""),
        (r"CHashTable<.*>::(getNode\(\)|lookup\(|register_wo_lookup\()", st_lookup, "CHashTable::getNode, lookup, register_wo_lookup (C06)"),
    ]
