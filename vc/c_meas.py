"""Measurement (C12, C13): assignProbabilities, probabilities, measureAll, determineMeasurementProbabilities, measureOne, measureOneCollapsing.

NP(n): total squared magnitude of the entries of the vector node n:  NP(T) = 1, NP(n) = |cw_0|^2 NP(cn_0) + |cw_1|^2 NP(cn_1); positive, because a
    stored node has a child of non-zero weight.
F_b(n): total squared magnitude of the entries of n in whose row the bit of the measured qubit q is b:  F_b(n) = |cw_b|^2 NP(cn_b) if n is on
    qubit q, |cw_0|^2 F_b(cn_0) + |cw_1|^2 F_b(cn_1) if n is above q.  F_0 + F_1 = NP (by induction over the diagram; the step is obligation
    "halves add up").

probs (global memo): every member n has a child-closed entry with value NP(n) - checked at every insertion, so a read gives NP(n).
Row r (theory.py) is an arbitrary row; in measureAll it is the row of the bit string drawn."""
import re
import z3
from ir import Unsupported, PTR, DBL, I32, Ty
from poly import Poly, Atoms, ZERO, ONE, IU, sqrt_of
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv
from theory import E, NQ
from contract import *
from c_state import tie, MAXQ
import loops

I64, I8 = Ty("i", 64), Ty("i", 8)
CAP = 1 << 48
HALF = Poly.const(1)


def v64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


# ------------------------------------------------------------------ norms
def posatom(fam, args, strict):
    a = Atoms.get(fam, args, "real")
    Atoms.by[a].info = ("pos" if strict else "nonneg",)
    return Poly.atom(a)


def NPraw(ref):
    return posatom("NP", (ref,), True)


def NP(vc, st, ref):
    p = NPraw(ref)
    T = vc.th
    key = ("np", ref.get_id())
    known = st.g.get("known", frozenset())
    if key not in known:
        Atoms.keepalive.append(ref)
        st.g = {**st.g, "known": known | {key}}
        T.mat(st, "v", ref)
        T.add_eq(st, p - ONE, p, ref == T.T["v"])
        ps = [T.cw("v", i, ref) * T.cw("v", i, ref).conj() * NPraw(T.cn["v"][i](ref)) for i in (0, 1)]
        for i in (0, 1):
            c = T.cn["v"][i](ref)
            T.reffacts(st, "v", c)
            T.add_eq(st, NPraw(c) - ONE, NPraw(c), c == T.T["v"])
        T.add_eq(st, p - ps[0] - ps[1], ps[1], ref != T.T["v"])
    key = ("nptri", ref.get_id())
    if key not in st.g["known"] and vc.entails(st, ref != T.T["v"]):
        st.g = {**st.g, "known": st.g["known"] | {key}}
        ps = [T.cw("v", i, ref) * T.cw("v", i, ref).conj() * NPraw(T.cn["v"][i](ref)) for i in (0, 1)]
        T.setg(st, "tri", st.g.get("tri", ()) + ((p, ps[0], ps[1]),))
    return p


class Halves:
    """F_0, F_1 for one measured qubit"""

    def __init__(self, q):
        self.q = q
        self.nm = z3.simplify(q).sexpr()

    def raw(self, b, ref):
        return posatom(f"F{b}!{self.nm}", (ref,), False)

    def facts(self, vc, st, ref):
        T = vc.th
        key = ("halves", self.nm, ref.get_id())
        known = st.g.get("known", frozenset())
        if key in known:
            return
        Atoms.keepalive.append(ref)
        st.g = {**st.g, "known": known | {key}}
        T.mat(st, "v", ref)
        v = T.var["v"](ref)
        n = NP(vc, st, ref)
        f = [self.raw(b, ref) for b in (0, 1)]
        T.add_eq(st, f[0] + f[1] - n, f[1], v >= self.q)
        if vc.entails(st, z3.And(v >= self.q, self.q >= 0)):
            T.setg(st, "tri", st.g.get("tri", ()) + ((n, f[0], f[1]),))
        for b in (0, 1):
            here = T.cw("v", b, ref) * T.cw("v", b, ref).conj() * NPraw(T.cn["v"][b](ref))
            T.add_eq(st, f[b] - here, f[b], z3.And(v == self.q, self.q >= 0))
            T.add_eq(st, f[b] - self.below(T, b, ref), f[b], z3.And(v > self.q, self.q >= 0))

    def below(self, T, b, ref):
        return sum((T.cw("v", i, ref) * T.cw("v", i, ref).conj() * self.raw(b, T.cn["v"][i](ref)) for i in (0, 1)), ZERO)

    def lemma(self, vc, st, ref):
        """F_0 + F_1 = NP, one step of the induction"""
        T = vc.th
        v = T.var["v"](ref)
        s = st.copy()
        s.eqs = []
        T.mat(s, "v", ref)
        np_ = [T.cw("v", i, ref) * T.cw("v", i, ref).conj() * NPraw(T.cn["v"][i](ref)) for i in (0, 1)]
        on = np_[0] + np_[1] - np_[0] - np_[1]
        above = self.below(T, 0, ref) + self.below(T, 1, ref) - np_[0] - np_[1]
        # induction hypothesis for the children on or above the qubit (a child of weight zero contributes nothing)
        for i in (0, 1):
            c = T.cn["v"][i](ref)
            w = T.cw("v", i, ref)
            ih = self.raw(0, c) + self.raw(1, c) - NPraw(c)
            s.eqs.append((z3.Not(T.zcw["v"][i](ref)), ih, self.raw(1, c)))
        s.assume(v > self.q, self.q >= 0)
        good = on.is0()
        for z0 in (False, True):
            for z1 in (False, True):
                t = s.copy()
                t.assume(T.zcw["v"][0](ref) == z0, T.zcw["v"][1](ref) == z1)
                if vc.feasible(t):
                    good = good and T.prove_zero(t, above)
        vc.oblige(st, "lemma: the two halves add up to the norm (induction step)", good)


# ------------------------------------------------------------------ custom clauses
class Member:
    """node is in the probability memo"""

    def __init__(self, ref, label="node is in the probability memo"):
        self.ref, self.label = ref, label

    def prove(self, vc, st):
        return is_member(vc, st, self.ref)

    def assume(self, vc, st):
        add_member(st, self.ref)


def add_member(st, ref):
    Atoms.keepalive.append(ref)
    st.g = {**st.g, "pm": st.g.get("pm", ()) + (ref,)}


def parent(T, ref):
    """(parent, i) if ref is written as child i of a vector node"""
    if ref.num_args() == 1 and ref.decl().name() in ("cn_v0", "cn_v1"):
        return ref.arg(0), int(ref.decl().name()[-1])
    return None


def is_desc(vc, st, ref, root):
    """ref is the root or one of its descendants"""
    if ref.eq(root) or any(ref.eq(d) and r.eq(root) for d, r in st.g.get("desc", ())):
        return True
    p = parent(vc.th, ref)
    if p is not None and vc.entails(st, p[0] != vc.th.T["v"]) and is_desc(vc, st, p[0], root):
        return True
    return vc.entails(st, ref == root)


def is_member(vc, st, ref, deep=True):
    T = vc.th
    pm = st.g.get("pm", ())
    if any(ref.eq(m) for m in pm):
        return True
    p = parent(T, ref)
    if p is not None and vc.entails(st, p[0] != T.T["v"]) and is_member(vc, st, p[0]):
        return True
    if any(ref.eq(d) and is_member(vc, st, r) for d, r in st.g.get("desc", ())):
        return True
    return any(vc.entails(st, ref == m) for m in pm)


# ------------------------------------------------------------------ maps
class ProbG:
    """the global memo"""
    const = True

    def has(self, vc, st, key):
        if is_member(vc, st, key):
            return True
        known = [(k, b) for k, b in st.g.get("pmq", ()) if k.eq(key)]
        if known:
            return known[0][1]
        b = vc.decide(st, z3.Bool(f"memo!{key.get_id()}!{len(st.g.get('pmq', ()))}"))
        st.g = {**st.g, "pmq": st.g.get("pmq", ()) + ((key, b),)}
        if b:
            add_member(st, key)
        return b

    def get(self, vc, st, oid, key):
        ok = is_member(vc, st, key)
        vc.oblige(st, "the norm read was entered in the memo before", ok, f"{vc.where(st)}: {key}")
        if not ok:
            raise PathEnd("memo")
        p = parent(vc.th, key)
        if p:
            NP(vc, st, p[0])
        return NP(vc, st, key)

    def put(self, vc, st, oid, key, val):
        T = vc.th
        n = NP(vc, st, key)
        ok = T.prove_zero(st, val - n)
        vc.oblige(st, "value entered in the memo is the norm of the node", ok, "" if ok else f"{vc.where(st)}: residual {T.reduce(st, val - n)[0]}")
        kids = all(is_member(vc, st, T.cn["v"][i](key)) or vc.entails(st, key == T.T["v"]) for i in (0, 1))
        vc.oblige(st, "the children are in the memo before their parent", kids, vc.where(st))
        if not (ok and kids):
            raise PathEnd("memo")
        add_member(st, key)


class MoneG:
    """the map node -> downward probability of determineMeasurementProbabilities: values by node, latest writes first"""

    def __init__(self, ver=0, writes=()):
        self.ver, self.writes = ver, writes

    def havoc(self, vc, st):
        return MoneG(st.sym("mone"))

    def has(self, vc, st, key):
        raise Unsupported("membership in a local map")

    def value(self, vc, st, key):
        for k, v in reversed(self.writes):
            if k.eq(key) or vc.decide(st, conc(k == key)):
                return v
        Atoms.keepalive.append(key)
        return Poly.atom(Atoms.get(f"mone!{self.ver}", (key,), "real"))

    def get(self, vc, st, oid, key):
        return self.value(vc, st, key)

    def put(self, vc, st, oid, key, val):
        q = queue_of(vc, st, False)
        if q is not None:
            qo, qg = q
            isin = qg.isin(vc, st, key)
            if isin is None:
                raise Unsupported("write to a node that may or may not be queued")
            if isin:
                d = val - self.value(vc, st, key)
                st.wobj(qo).ghost = qg.but(S=tuple(s + d * vc.top.hv.raw(b, key) for b, s in enumerate(qg.S)))
        st.wobj(oid).ghost = MoneG(self.ver, self.writes + ((key, val),))


class MapRef:
    """reference to a mapped value"""

    def __init__(self, oid, key):
        self.oid, self.key = oid, key

    def gepidx(self, vc, st, ty, idx, ityps):
        raise Unsupported("pointer arithmetic on a map element")

    def gepc(self, d):
        raise Unsupported("map element")

    def load(self, vc, st, ty):
        if ty.k != "double":
            raise Unsupported("map element type")
        return st.mem[self.oid].ghost.get(vc, st, self.oid, self.key)

    def store(self, vc, st, v, ty):
        if ty.k != "double":
            raise Unsupported("map element type")
        st.mem[self.oid].ghost.put(vc, st, self.oid, self.key, v)

    def same(self, vc, st, o):
        if isinstance(o, Ptr) and o.o == 0:
            return False
        raise Unsupported("map element comparison")


class PairRef(MapRef):
    """what a map iterator points at: pair<Node* const, double>"""

    def __init__(self, oid, key, off=0):
        self.oid, self.key, self.off = oid, key, off

    def gepidx(self, vc, st, ty, idx, ityps):
        off = self.off
        t = vc.mod.resolve(ty)
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if not isinstance(i, int):
                raise Unsupported("map element")
            if n == 0:
                off += i * vc.mod.size(t)
            else:
                off += vc.mod.field_off(t, i)
                t = vc.mod.resolve(t.a[i])
        return PairRef(self.oid, self.key, off)

    def gepc(self, d):
        return PairRef(self.oid, self.key, self.off + d)

    def load(self, vc, st, ty):
        if self.off == 0 and ty.k == "ptr":
            return NodePtr("v", self.key, 0)
        if self.off == 8 and ty.k == "double":
            return MapRef.load(self, vc, st, ty)
        raise Unsupported("map element")

    def store(self, vc, st, v, ty):
        if self.off == 8 and ty.k == "double":
            return MapRef.store(self, vc, st, v, ty)
        raise Unsupported("map element")


class MapIt:
    """map or set iterator; key None: end"""

    def __init__(self, oid, key):
        self.oid, self.key = oid, key

    def same(self, vc, st, o):
        if not isinstance(o, MapIt) or o.oid != self.oid:
            raise Unsupported("iterators of different containers")
        if self.key is None or o.key is None:
            return self.key is None and o.key is None
        return conc(self.key == o.key)

    def __repr__(self):
        return f"it({self.key})"


def keyof(vc, st, p):
    k = vc.ld(st, p, PTR)
    if not isinstance(k, NodePtr) or k.k != "v" or k.off:
        raise Unsupported(f"map key {k}")
    return k.ref


def ghost_of(vc, st, p, *cls):
    if isinstance(p, Ptr) and p.o and isinstance(st.mem[p.o].ghost, cls):
        return st.mem[p.o].ghost
    return None


def hmap(f):
    def h(vc, st, vals, ins, dem):
        for p in vals:
            g = ghost_of(vc, st, p, ProbG, MoneG)
            if g is not None:
                return f(vc, st, p, g, [x for x in vals if x is not p], dem)
        return NotImplemented
    return h


def map_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, Meas):
        return NotImplemented
    st.wobj(vals[0].o).ghost = MoneG(st.sym("mone"))
    return None


@hmap
def map_find(vc, st, p, g, vals, dem):
    key = keyof(vc, st, vals[0])
    return MapIt(p.o, key if g.has(vc, st, key) else None)


@hmap
def map_count(vc, st, p, g, vals, dem):
    b = g.has(vc, st, keyof(vc, st, vals[0]))
    return b if "contains" in dem else int(b)


@hmap
def map_end(vc, st, p, g, vals, dem):
    return MapIt(p.o, None)


@hmap
def map_index(vc, st, p, g, vals, dem):
    return MapRef(p.o, keyof(vc, st, vals[0]))


@hmap
def map_insert(vc, st, p, g, vals, dem):
    key, val = keyof(vc, st, vals[0]), vc.ld(st, vc.gepc(vals[0], 8), DBL)
    if isinstance(g, MoneG):
        raise Unsupported("insertion into a local map")
    g.put(vc, st, p.o, key, val)
    return [MapIt(p.o, key), True]


def it_cmp(neq):
    def h(vc, st, vals, ins, dem):
        try:
            a, b = (v if isinstance(v, MapIt) else vc.ld(st, v, PTR) for v in vals[:2])
        except Unsupported:
            return NotImplemented
        if not isinstance(a, MapIt):
            return NotImplemented
        r = a.same(vc, st, b)
        if neq:
            r = (not r) if isinstance(r, bool) else z3.Not(r)
        return r
    return h


def it_deref(vc, st, vals, ins, dem):
    it = vc.ld(st, vals[0], PTR)
    if not isinstance(it, MapIt):
        return NotImplemented
    vc.oblige(st, "iterator is dereferenced inside the map", it.key is not None, vc.where(st))
    if it.key is None:
        raise PathEnd("ub")
    return PairRef(it.oid, it.key)


# ------------------------------------------------------------------ visited set and queue
class SetG:
    """nodes ever queued; facts: (node, member) learned; pend: nodes inserted here but not yet queued, or the other way round"""

    def __init__(self, facts=()):
        self.facts = facts

    def havoc(self, vc, st):
        return SetG()


class QueG:
    """queue of distinct nodes: a elements on qubit lvl followed by b elements on qubit lvl-1; every element below root's own queue entry descends
    from it.  S[b] = sum over the elements n of mone(n) * F_b(n).  vis/push: nodes put into the visited set / queued since the loop head"""

    def __init__(self, lvl=None, a=None, b=None, S=(ZERO, ZERO), facts=(), front=None, vis=(), push=(), vok=True):
        self.vok = vok          # the visited set is known to be the set of nodes queued so far, apart from vis and push
        self.lvl, self.a, self.b, self.S, self.facts, self.front, self.vis, self.push = lvl, a, b, S, facts, front, vis, push

    def but(self, **kw):
        g = QueG(self.lvl, self.a, self.b, self.S, self.facts, self.front, self.vis, self.push, self.vok)
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def havoc(self, vc, st):
        n = st.sym("queue")
        g = QueG(z3.BitVec(n + ".lvl", 32), z3.BitVec(n + ".a", 64), z3.BitVec(n + ".b", 64),
                 tuple(Poly.atom(Atoms.get(f"{n}.S{i}", (), "real")) for i in (0, 1)), vok=False)
        st.assume(z3.ULT(g.a, CAP), z3.ULT(g.b, CAP))
        return g

    def isin(self, vc, st, ref):
        if self.lvl is None:
            return False
        for k, v in reversed(self.facts):
            if k.eq(ref) or vc.decide(st, conc(k == ref)):
                return v
        return None


def queue_of(vc, st, must=True):
    for o, x in st.mem.items():
        if isinstance(x.ghost, QueG) and not x.dead:
            return o, x.ghost
    if must:
        raise Unsupported("no queue")
    return None


def cont_ctor(cls):
    def h(vc, st, vals, ins, dem):
        if not isinstance(vc.top, DetProb):
            return NotImplemented
        if cls is QueG and queue_of(vc, st, False) is not None:
            raise Unsupported("two queues")
        st.wobj(vals[0].o).ghost = cls()
        return None
    return h


def hq(f):
    def h(vc, st, vals, ins, dem):
        g = ghost_of(vc, st, vals[0], QueG)
        if g is None:
            return NotImplemented
        return f(vc, st, vals[0].o, g, vals, dem)
    return h


def nonempty(vc, st, g):
    if g.lvl is None:
        return z3.BoolVal(False)
    return v64(g.a) + v64(g.b) != 0


def rotate(vc, st, o, g):
    """normal form: a > 0; the front element"""
    ok = vc.th.prove_bool(st, nonempty(vc, st, g))
    vc.oblige(st, "the queue is not empty when its front is used", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    if g.front is not None:
        return g
    T = vc.th
    if vc.decide(st, conc(v64(g.a) == 0)):
        g = g.but(lvl=z3.simplify(g.lvl - 1), a=g.b, b=z3.BitVecVal(0, 64))
    f = z3.Const(st.sym("front"), T.Sort["v"])
    T.mat(st, "v", f)
    st.assume(T.var["v"](f) == g.lvl)
    st.g = {**st.g, "desc": st.g.get("desc", ()) + ((f, vc.top.root),)}
    g = g.but(front=f, facts=g.facts + ((f, True),))
    st.wobj(o).ghost = g
    return g


@hq
def q_front(vc, st, o, g, vals, dem):
    g = rotate(vc, st, o, g)
    p = Ptr(st.new(8, "queue front"))
    st.wobj(p.o).cells[0] = (NodePtr("v", g.front, 0), 8)
    st.wobj(p.o).const = True
    return p


@hq
def q_pop(vc, st, o, g, vals, dem):
    g = rotate(vc, st, o, g)
    f = g.front
    hv = vc.top.hv
    hv.facts(vc, st, f)
    m = mone_of(st)
    S = tuple(s - m.value(vc, st, f) * hv.raw(b, f) for b, s in enumerate(g.S))
    st.wobj(o).ghost = g.but(a=z3.simplify(v64(g.a) - 1), S=S, facts=g.facts + ((f, False),), front=None)
    return None


def mone_of(st):
    l = [x.ghost for x in st.mem.values() if isinstance(x.ghost, MoneG) and not x.dead]
    if len(l) != 1:
        raise Unsupported("local map of probabilities")
    return l[0]


@hq
def q_push(vc, st, o, g, vals, dem):
    T = vc.th
    c = keyof(vc, st, vals[1])
    T.mat(st, "v", c)
    isin = False if g.lvl is None else g.isin(vc, st, c)
    vc.oblige(st, "a node is not queued twice", isin is False, f"{vc.where(st)}: {c}")
    vc.oblige(st, "only nodes of the state are queued", is_desc(vc, st, c, vc.top.root), f"{vc.where(st)}: {c}")
    if isin is not False:
        raise PathEnd("queue")
    v = T.var["v"](c)
    val = mone_of(st).value(vc, st, c)
    hv = vc.top.hv
    S = tuple(s + val * hv.raw(b, c) for b, s in enumerate(g.S))
    one = z3.BitVecVal(1, 64)
    if g.lvl is None:
        n = g.but(lvl=z3.simplify(v), a=one, b=z3.BitVecVal(0, 64))
    else:
        ok = T.prove_bool(st, v == g.lvl - 1)
        vc.oblige(st, "nodes are queued level by level", ok, vc.where(st))
        if not ok:
            raise PathEnd("queue")
        n = g.but(b=z3.simplify(v64(g.b) + 1))
        st.assume(z3.ULT(n.b, CAP))
    st.wobj(o).ghost = n.but(S=S, facts=g.facts + ((c, True),), push=g.push + (c,))
    return None


@hq
def q_empty(vc, st, o, g, vals, dem):
    if g.front is not None:
        return False
    e = vc.decide(st, z3.Not(nonempty(vc, st, g)))
    if e:
        for s in g.S:
            vc.th.add_eq(st, s, s if s.ismono() else None)
    return e


def hs(f):
    def h(vc, st, vals, ins, dem):
        for p in vals:
            g = ghost_of(vc, st, p, SetG)
            if g is not None:
                return f(vc, st, p.o, g, [x for x in vals if x is not p], dem)
        return NotImplemented
    return h


def visited(vc, st, o, g, c):
    """is c in the visited set?  A visited node below the nodes taken out so far is still queued, a node not visited never was"""
    T = vc.th
    for k, v in reversed(g.facts):
        if k.eq(c) or vc.decide(st, conc(k == c)):
            return v
    qo, q = queue_of(vc, st)
    ok = q.vok and same_set(vc, st, q.vis, q.push)
    vc.oblige(st, "the visited set holds exactly the nodes queued so far", ok, vc.where(st))
    if not ok:
        raise PathEnd("visited")
    T.mat(st, "v", c)
    b = vc.decide(st, z3.Bool(f"visited!{st.sym('v')}"))
    st.wobj(o).ghost = SetG(g.facts + ((c, b),))
    if b:
        below = q.lvl is not None and T.prove_bool(st, T.var["v"](c) == q.lvl - 1)
        if not below:
            raise Unsupported("visited node of another level")
        st.assume(v64(q.b) != 0)
        st.wobj(qo).ghost = q.but(facts=q.facts + ((c, True),))
    else:
        st.wobj(qo).ghost = q.but(facts=q.facts + ((c, False),))
    return b


def same_set(vc, st, x, y):
    return all(any(a.eq(b) or vc.entails(st, a == b) for b in y) for a in x) and all(any(a.eq(b) or vc.entails(st, a == b) for b in x) for a in y)


@hs
def s_find(vc, st, o, g, vals, dem):
    c = keyof(vc, st, vals[0])
    return MapIt(o, c if visited(vc, st, o, g, c) else None)


@hs
def s_count(vc, st, o, g, vals, dem):
    b = visited(vc, st, o, g, keyof(vc, st, vals[0]))
    return b if "contains" in dem else int(b)


@hs
def s_end(vc, st, o, g, vals, dem):
    return MapIt(o, None)


@hs
def s_insert(vc, st, o, g, vals, dem):
    c = keyof(vc, st, vals[0])
    qo, q = queue_of(vc, st)
    known = next((v for k, v in reversed(g.facts) if k.eq(c)), None)
    if known is None and q.lvl is not None:
        known = visited(vc, st, o, g, c)
        g = st.mem[o].ghost
        qo, q = queue_of(vc, st)
    if not known:
        st.wobj(o).ghost = SetG(g.facts + ((c, True),))
        st.wobj(qo).ghost = q.but(vis=q.vis + (c,))
    return [MapIt(o, c), not known]


class VisClause:
    """the visited set holds exactly the nodes queued so far"""
    label = "visited nodes are the queued ones"

    def prove(self, vc, st):
        q = queue_of(vc, st)[1]
        return q.vok and same_set(vc, st, q.vis, q.push)

    def assume(self, vc, st):
        o, q = queue_of(vc, st)
        st.wobj(o).ghost = q.but(vok=True)


# ------------------------------------------------------------------ random numbers
class DistG:
    def __init__(self, a, b):
        self.a, self.b = a, b


class RngG:
    """W: probability (over the random numbers drawn so far) of the outcomes that were decided"""

    def __init__(self, W, used=()):
        self.W, self.used = W, used

    def havoc(self, vc, st):
        return RngG(Poly.atom(Atoms.get(st.sym("W"), (), "real")))


def dist_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, Meas):
        return NotImplemented
    a, b = (vals[1:] + [ZERO, ONE][len(vals) - 1:])[:2]
    st.wobj(vals[0].o).ghost = DistG(a, b)
    return None


def dist_draw(vc, st, vals, ins, dem):
    d = ghost_of(vc, st, vals[0], DistG)
    if d is None:
        return NotImplemented
    if ghost_of(vc, st, vals[1], RngG) is None:
        raise Unsupported("random number generator")
    u = Poly.atom(Atoms.get(st.sym("U"), (), "real"))
    Atoms.by[next(iter(u.atoms()))].info = ("draw",)
    T = vc.th
    st.assume(T.lin(st, u) >= 0, T.lin(st, u) < 1)
    vc.oblige(st, "random numbers are drawn from [0,1)", d.a == ZERO and d.b == ONE, f"{d.a} {d.b}")
    return u


def draw_hook(vc, st, a, b):
    """comparison of a random number: fork, multiply the probability of the side taken.  None: no random number involved"""
    if not isinstance(vc.top, Meas):
        return None
    us = [x for x in (a.atoms() | b.atoms()) if Atoms.by[x].info == ("draw",)]
    if not us:
        return None
    u = Poly.atom(us[0])
    if len(us) > 1 or (a != u and b != u):
        raise Unsupported("comparison of random numbers")
    o = next((o for o, x in st.mem.items() if isinstance(x.ghost, RngG)), None)
    g = st.mem[o].ghost
    if us[0] in g.used:
        raise Unsupported("random number used twice")
    T = vc.th
    q = T.simp(st, b if a == u else a)
    p1 = T.simp(st, ONE - q)
    for m in st.g.get("one", ()):
        t = st.copy()
        t.g = {**t.g, "one": ()}
        x = T.simp(t, m - q)
        if x.ismono():
            p1 = x
    if not q.isconst():
        T.Zc(st, q)
    if not p1.isconst():
        T.Zc(st, p1)
    st.assume(T.lin(st, q) + T.lin(st, p1) == 1)
    for x in (q, p1):
        vc.oblige(st, "probability compared with the random number lies in [0,1]", T.prove_bool(st, T.lin(st, x) >= 0), f"{vc.where(st)}: {x}")
    if a == u:      # U < q
        r = vc.decide(st, T.lin(st, u) < T.lin(st, q))
        W = q if r else p1
    else:           # q < U  (a point has probability zero)
        r = vc.decide(st, T.lin(st, q) < T.lin(st, u))
        W = p1 if r else q
    st.wobj(o).ghost = RngG(T.simp(st, g.W * W), g.used + (us[0],))
    return r


# ------------------------------------------------------------------ std::vector<double>
class VecG:
    def __init__(self, n, K, cur):
        self.n, self.K, self.cur = n, K, cur

    def havoc(self, vc, st):
        s = st.sym("vec")
        return VecG(z3.BitVec(s + ".n", 64), self.K, Poly.atom(Atoms.get(s + ".K", (), "real")))


def vec_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, Probabilities):
        return NotImplemented
    st.wobj(vals[0].o).ghost = VecG(z3.BitVecVal(0, 64), z3.BitVec("K", 64), None)
    return None


def vec_push(vc, st, vals, ins, dem):
    g = ghost_of(vc, st, vals[0], VecG)
    if g is None:
        return NotImplemented
    v = vc.ld(st, vals[1], DBL)
    z = vc.th.Zc(st, v)
    vc.decide(st, z)
    hit = vc.decide(st, conc(g.n == g.K))
    st.wobj(vals[0].o).ghost = VecG(z3.simplify(g.n + 1), g.K, v if hit else g.cur)
    return vals[0]


def vec_size(vc, st, vals, ins, dem):
    g = ghost_of(vc, st, vals[0], VecG)
    return NotImplemented if g is None else conc(g.n)


# ------------------------------------------------------------------ std::string of '0' and '1'
class StrG:
    """string of n characters; base: character of positions > lo, position <= lo hold '0' (lo None: all are base)"""

    def __init__(self, n, base, fill=None, lo=None, writes=(), rev=None):
        self.n, self.base, self.fill, self.lo, self.writes, self.rev = n, base, fill, lo, writes, rev

    def at(self, i):
        if self.rev is not None:
            return self.rev.at(z3.simplify(self.n - 1 - i))
        c = z3.BitVecVal(self.fill, 8) if self.fill is not None else self.base(i)
        if self.lo is not None:
            c = z3.If(self.lo(i), z3.BitVecVal(48, 8), c)
        for k, v in self.writes:
            c = z3.If(k == i, v, c)
        return z3.simplify(c)

    def havoc(self, vc, st):
        f = z3.Function(st.sym("str"), z3.BitVecSort(64), z3.BitVecSort(8))
        return StrG(self.n, f)

    def load(self, vc, st, off, ty):
        raise Unsupported("raw string access")

    store = load


class StrPtr(MapRef):
    def __init__(self, oid, i):
        self.oid, self.i = oid, i

    def load(self, vc, st, ty):
        return conc(st.mem[self.oid].ghost.at(self.i))

    def store(self, vc, st, v, ty):
        g = st.mem[self.oid].ghost
        if g.rev is not None:
            raise Unsupported("write to a reversed string")
        n = StrG(g.n, g.base, g.fill, g.lo, g.writes + ((self.i, bv(v, 8)),))
        st.wobj(self.oid).ghost = n


def hstr(f):
    def h(vc, st, vals, ins, dem):
        g = ghost_of(vc, st, vals[0], StrG)
        return NotImplemented if g is None else f(vc, st, vals[0].o, g, vals, dem)
    return h


def str_ctor(vc, st, vals, ins, dem):
    if not isinstance(vc.top, MeasureAll):
        return NotImplemented
    c = vals[2]
    if not isinstance(c, int):
        raise Unsupported("fill character")
    st.wobj(vals[0].o).ghost = StrG(v64(vals[1]), None, c & 255)
    return None


@hstr
def str_index(vc, st, o, g, vals, dem):
    i = v64(vals[1])
    ok = vc.th.prove_bool(st, z3.ULT(i, g.n))
    vc.oblige(st, "string index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return StrPtr(o, i)


class RIt:
    def __init__(self, oid, end):
        self.oid, self.end = oid, end


def str_rev(end):
    def h(vc, st, vals, ins, dem):
        if len(vals) < 2 or ghost_of(vc, st, vals[1], StrG) is None:
            return NotImplemented
        vc.st_(st, vals[0], RIt(vals[1].o, end), PTR)
        return None
    return h


def str_ctor_rev(vc, st, vals, ins, dem):
    its = [vc.ld(st, v, PTR) if isinstance(v, Ptr) else v for v in vals[1:3]]
    if not all(isinstance(x, RIt) for x in its):
        return NotImplemented
    if its[0].end or not its[1].end or its[0].oid != its[1].oid:
        raise Unsupported("reverse range")
    g = st.mem[its[0].oid].ghost
    st.wobj(vals[0].o).ghost = StrG(g.n, None, rev=g)
    return None


def str_len(vc, st, vals, ins, dem):
    g = ghost_of(vc, st, vals[0], StrG)
    return NotImplemented if g is None else conc(g.n)


def noop(cls):
    def h(vc, st, vals, ins, dem):
        if isinstance(vc.top, Meas) and isinstance(vals[0], Ptr):
            return None
        return NotImplemented
    return h


def ret_rev(vc, st, vals, ins, dem):
    """reverse_iterator copy constructor"""
    it = vc.ld(st, vals[1], PTR)
    if not isinstance(it, RIt):
        return NotImplemented
    vc.st_(st, vals[0], it, PTR)
    return None


def h_pow(vc, st, vals, ins, dem):
    m = re.search(r"std::pow<(int|unsigned int|long), (int|unsigned int|long)>\(", dem)
    if not m or vals[0] != 2:
        raise Unsupported("pow")
    e = vals[1]
    if isinstance(e, int):
        return Poly.const(1 << e)
    x = z3.SignExt(64 - e.size(), e) if m.group(2) in ("int", "long") and e.size() < 64 else z3.ZeroExt(64 - e.size(), e) if e.size() < 64 else e
    ok = vc.th.prove_bool(st, z3.And(x >= 0, x <= 62))
    vc.oblige(st, "power of two within range", ok, vc.where(st))
    if not ok:
        raise PathEnd("range")
    return vc.th.intatom(z3.simplify(z3.BitVecVal(1, 64) << x))


# ------------------------------------------------------------------ contracts
class Meas(Contract):
    nopeel = True       # loops are cut on entry even when the first iteration is certain

    def formal(self, vc, st, ty, ps, n):
        if ty.startswith("std::mersenne_twister_engine<"):
            p = Ptr(st.new(None, "mt"))
            st.mem[p.o].ghost = RngG(ONE)
            return A(ty, None, p), (1, [p])
        return super().formal(vc, st, ty, ps, n)

    def actual(self, vc, st, ty, vals):
        if ty.startswith("std::mersenne_twister_engine<"):
            return A(ty, None, vals[0]), 1
        return super().actual(vc, st, ty, vals)

    def matches(self, dem):
        return basename(dem) == self.name and [t[:12] for t in map(norm_ty, split_params(dem)[1])] == [t[:12] for t in self.params]

    def lev(self, T, e):
        return T.var["v"](e.n.ref)

    def nonterm(self, T, e):
        return self.lev(T, e) >= 0


class AssignProb(Meas):
    name = "assignProbabilities"
    params = ["vEdge const&"]

    def decreases(self, T, st, a):
        return lambda top: self.lev(T, a[0].val) < self.lev(T, top[0].val)

    def result(self, T, st, a, ins=None):
        e = a[0].val
        return e.w * e.w.conj() * NP(T.vc, st, e.n.ref)

    def ensures(self, T, st, a, r):
        e = a[0].val
        return [Q("value returned is the squared norm of the vector", r - e.w * e.w.conj() * NP(T.vc, st, e.n.ref)), Member(e.n.ref, "the node is in the probability memo afterwards")]

    def apply(self, vc, st, vals, ins):
        return super().apply(vc, st, vals, ins)


def stepfacts(vc, st, ref, l):
    """unfolding of Dv at the level above l for ref itself (not moved) and for its parent (moved down)"""
    T = vc.th
    L = z3.simplify(l + 1)
    p = parent(T, ref)
    for x, kids in ((ref, (0, 1)),) + (((p[0], (0, 1)),) if p else ()):
        T.mat(st, "v", x)
        D = T.D("v", x, L)
        for i in kids:
            rhs = T.cw("v", i, x) * T.D("v", T.cn["v"][i](x), L - 1)
            T.add_eq(st, D - rhs, D, z3.And(T.var["v"](x) == L, L >= 0, T.rb(L) == bool(i)))


def abs2(p):
    return p * p.conj()


def on_or_above(e, info):
    """candidates: the node of edge e is on the level a counter gives, or above"""
    out = []
    for x in info.ints:
        for d in (0, -1):
            if x[2] != 32:
                continue

            def above(vc, s, x=x, d=d):
                l = z3.simplify(loops.getint(vc, s, x) + d)
                return [B("", z3.And(l >= -1, vc.th.var["v"](loops.edge_at(vc, s, e).n.ref) >= l))]
            out.append(loops.Cand("the node reached is on the level of the counter or above", above))
    return out


class ZeroRow:
    """guard => |D0|^2 = 0.  Also provable from |D0|^2 * NP(node) = rest (the walk equation one level up, NP(node) > 0) and rest = 0"""
    label = "row of probability zero"

    def __init__(self, guard, d0, wguard, rest):
        self.guard, self.d0, self.wguard, self.rest = guard, d0, wguard, rest

    def prove(self, vc, s):
        def under(t, c, p):
            t = t.copy()
            t.pc.append(c)
            return not vc.feasible(t) or vc.th.prove_zero(t, p, quick=True)
        if under(s, self.guard, self.d0):
            return True
        for w in s.g.get("walks", ()):
            t = s.copy()
            t.pc.append(self.guard)
            if under(t, w.wguard, w.rest) and under(t, z3.Not(w.wguard), self.d0):
                return True
        return False

    def assume(self, vc, s):
        vc.th.add_eq(s, self.d0, self.d0, self.guard)
        s.g = {**s.g, "walks": s.g.get("walks", ()) + (self,)}


class Walk(Meas):
    """a walk from the root down to the terminal along one row"""
    loops = True

    def root_D(self, T):
        return T.D("v", self.a[0].val.n.ref, self.L)

    def entry(self, vc, st, a):
        self.a = a
        self.e0 = a[0].val
        self.L = z3.simplify(self.lev(vc.th, a[0].val))
        vc.th.mat(st, "v", self.e0.n.ref)
        NP(vc, st, self.e0.n.ref)

    def walk(self, vc, s, cur, l, y, on=None):
        """clauses: cur is the node reached on level l with conditional weight y"""
        T = vc.th
        z = T.Z(s, y)
        stepfacts(vc, s, cur.n.ref, l)
        n, n0 = NP(vc, s, cur.n.ref), NP(vc, s, self.e0.n.ref)
        p = parent(T, cur.n.ref)
        if p:
            NP(vc, s, p[0])
        g = [on] if on is not None else []
        v = T.var["v"](cur.n.ref)
        D, D0 = T.D("v", cur.n.ref, l), T.D("v", self.e0.n.ref, self.L)
        return [B("", z3.And(l >= -1, z3.Or(z3.And(z, v > l), v == l))),
                Q("", y * n0 * abs2(D) - abs2(D0) * n, y * abs2(D), None, z3.And(z3.Not(z), *g)),
                ZeroRow(z3.And(z, *g), abs2(D0), z3.And(z3.Not(z), *g), y * n0 * abs2(D))]


class Probabilities(Walk):
    name = "probabilities"
    params = ["vEdge const&"]
    retk = "sret"

    def requires(self, T, st, a):
        return [B("register size within range", self.lev(T, a[0].val) < MAXQ)]

    def apply(self, vc, st, vals, ins):
        raise Unsupported("call of probabilities")

    def vec(self, s):
        o = [x.ghost for x in s.mem.values() if isinstance(x.ghost, VecG) and not x.dead]
        if len(o) != 1:
            raise Unsupported("result vector")
        return o[0]

    def read_result(self, vc, st, ret, v):
        g = st.mem[ret.o].ghost
        if not isinstance(g, VecG):
            raise Unsupported("result vector")
        return g

    def check_post(self, vc, s, a, r, pre):
        T = vc.th
        pf = f"postcondition of {self.name}: "
        n = z3.BitVecVal(1, 64) << z3.SignExt(32, self.L + 1)
        prove_clause(vc, s, B("one probability per basis state", r.n == n), pf)
        s.assume(z3.ULT(r.K, n))
        if r.cur is None:
            vc.oblige(s, pf + "every probability is written", False)
            return
        D0 = T.D("v", self.e0.n.ref, self.L)
        prove_clause(vc, s, Q("entry K is the squared magnitude of amplitude K over the squared norm", r.cur * NP(vc, s, self.e0.n.ref) - abs2(D0)), pf)
        self.unchanged(vc, s, pre)

    def unchanged(self, vc, s, pre):
        for (p, cells, ty) in pre:
            o = s.mem[p.o]
            ok = o.cells.keys() == cells.keys() and all(samev(o.cells[k][0], cells[k][0]) for k in cells)
            vc.oblige(s, f"{self.name}: argument passed by const reference is unchanged", ok)

    def candidates(self, vc, st, info):
        T = vc.th
        out = loops.int_candidates(vc, st, info, [("0", z3.BitVecVal(0, 32)), ("top qubit", self.L), ("number of rows", z3.BitVecVal(1, 32) << (self.L + 1))])
        n0 = NPraw(self.e0.n.ref)
        for oid in info.ghosts:
            if not isinstance(st.mem[oid].ghost, VecG):
                continue
            for x in info.ints:
                if x[2] in (32, 64):
                    def cnt(vc, s, x=x, oid=oid):
                        i = loops.getint(vc, s, x)
                        return [B("", s.mem[oid].ghost.n == (z3.SignExt(32, i) if i.size() == 32 else i))]
                    out.append(loops.Cand("as many probabilities as the counter says", cnt, ("len", oid)))

            def val(vc, s, oid=oid):
                g = s.mem[oid].ghost
                done = z3.ULT(g.K, g.n)
                if g.cur is None:
                    return [B("", z3.Not(done))]
                return [Q("", g.cur * n0 - abs2(self.root_D(T)), g.cur, None, done)]
            out.append(loops.Cand("the probabilities so far are the squared amplitudes over the squared norm", val, ("vec", oid)))
        for e in info.edges:
            out += on_or_above(e, info)
            out.append(loops.Cand("the node reached is in the probability memo", lambda vc, s, e=e: [Member(loops.edge_at(vc, s, e).n.ref)], ("mem", e)))
            for x in info.ints:
                for d in (0, -1):
                    for y in info.reals:
                        def mk(vc, s, e=e, x=x, d=d, y=y):
                            if x[2] != 32:
                                return None
                            l = z3.simplify(loops.getint(vc, s, x) + d)
                            if not vc.entails(s, l >= -1):
                                return None
                            g = self.vec(s)
                            tie(T, s, g.K, l, T.rb)
                            tie(T, s, g.K, z3.simplify(l + 1), T.rb)
                            return self.walk(vc, s, loops.edge_at(vc, s, e), l, vc.ld(s, Ptr(*y), DBL), g.n == g.K)
                        out.append(loops.Cand("the node reached on the way down and its conditional probability", mk, ("walk", e)))
        return out

    def wanted(self, info):
        return [(("vec", o), "the probabilities so far") for o in info.ghosts] + [(("walk", e), "the node reached") for e in info.edges]


class MeasureAll(Walk):
    params = ["vEdge&", "bool", "std::mersenne_twister", "double"]
    retk = "sret"

    def __init__(self, mode):
        self.mode = mode
        self.name = "measureAll"
        self.tag = "measureAll/" + mode

    def matches(self, dem):
        return basename(dem.replace("[abi:cxx11]", "")) == self.name and len(split_params(dem)[1]) == 4

    def actuals(self, vc, st, dem, vals, fn_params=None):
        raise Unsupported("call of measureAll")

    def entry(self, vc, st, a):
        super().entry(vc, st, a)
        self.fam = BasisStr()
        self.fam.con = self
        vc.th.defs[self.fam.name] = self.fam

    def requires(self, T, st, a):
        return [B("state on a register", z3.And(self.lev(T, a[0].val) >= 0))]

    def read_result(self, vc, st, ret, v):
        g = st.mem[ret.o].ghost
        if not isinstance(g, StrG):
            raise Unsupported("result string")
        return g

    def src(self, s):
        o = [x.ghost for x in s.mem.values() if isinstance(x.ghost, StrG) and x.ghost.rev is None and not x.dead]
        if len(o) != 1:
            raise Unsupported("string of outcomes")
        return o[0]

    def W(self, s):
        return next(x.ghost.W for x in s.mem.values() if isinstance(x.ghost, RngG))

    def check_post(self, vc, s, a, r, pre):
        T = vc.th
        pf = "postcondition of measureAll: "
        n = z3.SignExt(32, self.L + 1)
        root = a[0].ptr
        w, nd = vc.rd_edge(s, root)
        e1 = E("v", w, nd)
        coll = a[1].val
        K = z3.BitVec("K", 32)
        k64 = z3.SignExt(32, K)
        if self.mode == "draw":
            prove_clause(vc, s, B("one character per qubit", r.n == n), pf)
            s2 = s.copy()
            s2.assume(K >= 0, K <= self.L)
            prove_clause(vc, s2, B("the bit of qubit K is character K from the end", r.at(n - 1 - k64) == z3.If(T.rb(K), z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))), pf)
            z = T.Z(s, self.W(s))
            for c in (z, z3.Not(z)):
                s2 = s.copy()
                s2.assume(c)
                if vc.feasible(s2):
                    W = T.reduce(s2, self.W(s2))[0]
                    prove_clause(vc, s2, Q("the outcome is drawn with probability |amplitude|^2 / norm^2", W * NP(vc, s2, self.e0.n.ref) - abs2(T.D("v", self.e0.n.ref, self.L))), pf)
            s3 = s.copy()
            s3.assume(z3.Not(coll) if z3.is_expr(coll) else z3.BoolVal(not coll))
            if vc.feasible(s3):
                ok = isinstance(nd, NodePtr) and w == self.e0.w and T.prove_bool(s3, nd.ref == self.e0.n.ref)
                vc.oblige(s, pf + "the state is left alone unless collapse is asked for", ok)
            return
        s.assume(coll if z3.is_expr(coll) else z3.BoolVal(bool(coll)))
        if not vc.feasible(s):
            return
        check_edge(vc, s, e1, "exit of measureAll")
        src = self.src(s)
        self.fam.str = src
        s2 = s.copy()
        s2.assume(K >= 0, K <= self.L)
        prove_clause(vc, s2, B("the bit of qubit K is character K from the end", r.at(n - 1 - k64) == src.at(k64)), pf)
        prove_clause(vc, s, B("collapse leaves a state on the register", T.valid(e1, self.L)), pf)
        prove_clause(vc, s, Q("collapse leaves the basis state of the returned string", T.ent(e1, self.L) - self.fam.atom(T, self.L), None, self.L), pf)

    def candidates(self, vc, st, info):
        T = vc.th
        b32 = [("0", z3.BitVecVal(0, 32)), ("top qubit", self.L), ("number of qubits", z3.simplify(self.L + 1)), ("-1", z3.BitVecVal(0xffffffff, 32))]
        out = loops.int_candidates(vc, st, info, b32)
        rng = any(isinstance(st.mem[o].ghost, RngG) for o in info.ghosts)
        strs = [o for o in info.ghosts if isinstance(st.mem[o].ghost, StrG)]
        for e in info.edges:
            if rng:
                out.append(loops.Cand("the node reached is in the probability memo", lambda vc, s, e=e: [Member(loops.edge_at(vc, s, e).n.ref)], ("mem", e)))
            for x in info.ints:
                if x[2] != 32:
                    continue
                for d in (0, -1):
                    def mk(vc, s, e=e, x=x, d=d):
                        l = z3.simplify(loops.getint(vc, s, x) + d)
                        if not vc.entails(s, l >= -1):
                            return None
                        self.follow(vc, s, x, l)
                        cs = self.walk(vc, s, loops.edge_at(vc, s, e), l, self.W(s))
                        shape = B("", T.var["v"](loops.edge_at(vc, s, e).n.ref) == l)
                        return [shape] + cs[1:] if self.mode == "draw" else [shape]
                    if rng:
                        out.append(loops.Cand("the node reached on the way down and the probability of the outcomes so far", mk, ("walk", e)))

                    def agree(vc, s, x=x, d=d):
                        l = z3.simplify(loops.getint(vc, s, x) + d)
                        self.follow(vc, s, x, l)
                        return [Agree(self, l)]
                    if rng and strs and e is info.edges[0]:
                        out.append(loops.Cand("characters above are the bits drawn, those below are still '0'", agree, ("str", strs[0])))
                    if not rng:
                        def basis(vc, s, e=e, x=x, d=d):
                            l = z3.simplify(loops.getint(vc, s, x) + d)
                            if not vc.entails(s, l >= -1):
                                return None
                            g = loops.edge_at(vc, s, e)
                            cl = [B("", T.valid(g, l))]
                            if self.mode == "collapse":
                                self.fam.str = self.src(s)
                                cl.append(Q("", T.ent(g, l) - self.fam.atom(T, l), g.w * T.D("v", g.n.ref, l), l))
                            return cl
                        out.append(loops.Cand("basis state of the string on the qubits so far", basis, ("basis", e)))
        return out

    def follow(self, vc, s, x, l):
        """row r is the row of the outcomes drawn: fixed level by level, once per level"""
        hdr = s.g.get("hdr")
        if self.mode != "draw" or hdr is None or x is None:
            return
        try:
            old = loops.getint(vc, hdr, x)
        except (Unsupported, KeyError):
            return
        new = loops.getint(vc, s, x)
        if not vc.entails(s, new == old - 1):
            return
        L = z3.simplify(l + 1)
        c = self.src(s).at(z3.SignExt(32, L))
        s.assume(vc.th.rb(L) == (c == 49))

    def wanted(self, info):
        return [(("walk", e), "the node reached") for e in info.edges if info.ghosts] + [(("str", o), "the string") for o in info.ghosts if False]


class Agree:
    label = "string"

    def __init__(self, con, l):
        self.con, self.l = con, l

    def prove(self, vc, s):
        T = vc.th
        g = self.con.src(s)
        K = z3.BitVec("Kfresh", 32)
        k64 = z3.SignExt(32, K)
        c = g.at(k64)
        if not vc.entails(s, z3.Implies(z3.And(K <= self.l, K >= 0), c == 48)):
            return False
        want = z3.If(T.rb(K), z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))
        ok = z3.Or(c == 48, c == 49) if self.con.mode != "draw" else c == want
        s = s.copy()
        for k in s.g.get("agreeK", ()):
            pass
        self.inst(vc, s, K)
        return vc.entails(s, z3.Implies(z3.And(K > self.l, K <= self.con.L), ok))

    def inst(self, vc, s, K):
        """the clause as it was assumed, for position K"""
        T = vc.th
        for f, l in s.g.get("agree", ()):
            c = f(z3.SignExt(32, K))
            want = z3.If(T.rb(K), z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))
            ok = z3.Or(c == 48, c == 49) if self.con.mode != "draw" else c == want
            s.assume(z3.Implies(z3.And(K > l, K <= self.con.L), ok))

    def assume(self, vc, s):
        o = next(o for o, x in s.mem.items() if isinstance(x.ghost, StrG) and x.ghost.rev is None and not x.dead)
        g = s.mem[o].ghost
        l = self.l
        if g.base is None or g.writes:
            raise Unsupported("string")
        s.wobj(o).ghost = StrG(g.n, g.base, None, lambda i, l=l: z3.And(i <= z3.SignExt(32, l), i >= 0))
        s.g = {**s.g, "agree": s.g.get("agree", ()) + ((g.base, l),)}
        K = z3.BitVec("K", 32)
        self.inst(vc, s, K)


class BasisStr:
    """1 if every row bit 0..l is the bit of the string, else 0"""
    name = "BasisStr"
    str = None

    def atom(self, T, l):
        return Poly.atom(Atoms.get(self.name, (T.lv(l),)))

    def base(self, T, st, at):
        return ONE

    def unfold(self, T, st, at, L, r, c):
        Agree(self.con, L).inst(T.vc, st, L)
        one = T.vc.decide(st, conc(self.str.at(z3.SignExt(32, L)) == 49))
        return self.atom(T, L - 1) if one == bool(r) else ZERO


class DetProb(Meas):
    name = "determineMeasurementProbabilities"
    params = ["vEdge const&", "int"]
    loops = True

    def requires(self, T, st, a):
        q, v = bv(a[1].val, 32), self.lev(T, a[0].val)
        return [B("qubit is in the register", z3.And(q >= 0, q <= v))]

    def entry(self, vc, st, a):
        self.a, self.root = a, a[0].val.n.ref
        self.q = z3.simplify(bv(a[1].val, 32))
        self.hv = Halves(self.q)
        vc.th.mat(st, "v", self.root)
        self.hv.lemma(vc, st, self.root)
        self.hv.facts(vc, st, self.root)

    def result(self, T, st, a, ins=None):
        e = a[0].val
        hv = Halves(bv(a[1].val, 32))
        hv.facts(T.vc, st, e.n.ref)
        return [abs2(e.w) * hv.raw(b, e.n.ref) for b in (0, 1)]

    def ensures(self, T, st, a, r):
        e = a[0].val
        hv = Halves(bv(a[1].val, 32))
        hv.facts(T.vc, st, e.n.ref)
        return [Q(f"probability of reading {b} is the squared norm of that half", r[b] - abs2(e.w) * hv.raw(b, e.n.ref)) for b in (0, 1)]

    def candidates(self, vc, st, info):
        T = vc.th
        out = []
        qs = [o for o in info.ghosts if isinstance(st.mem[o].ghost, QueG)]
        for o in qs:
            def shape(vc, s, o=o):
                g = s.mem[o].ghost
                if g.front is not None:
                    return None
                a, b = v64(g.a), v64(g.b)
                return [B("", z3.And(z3.Implies(a != 0, g.lvl >= self.q), z3.Implies(b != 0, g.lvl - 1 >= self.q), g.lvl <= NQ, z3.ULT(a, CAP), z3.ULT(b, CAP)))]

            def filled(vc, s, o=o):
                return [B("", nonempty(vc, s, s.mem[o].ghost))]

            def level(vc, s, o=o):
                g = s.mem[o].ghost
                a, b = v64(g.a), v64(g.b)
                return [B("", z3.And(b == 0, z3.Implies(a != 0, g.lvl == self.q)))]
            out.append(loops.Cand("queued nodes are on or above the measured qubit", shape, ("shape", o)))
            out.append(loops.Cand("the queue is not empty", filled))
            out.append(loops.Cand("queued nodes are on the measured qubit", level))
            out.append(loops.Cand(VisClause.label, lambda vc, s: [VisClause()], ("vis", o)))
            e = self.a[0].val
            for b in (0, 1):
                goal = abs2(e.w) * self.hv.raw(b, self.root)
                adds = [None] + info.reals
                for y in adds:
                    def tot(vc, s, o=o, b=b, y=y, goal=goal):
                        S = s.mem[o].ghost.S[b]
                        p = S - goal
                        if y is not None:
                            p = p + vc.ld(s, Ptr(*y), DBL)
                        return [Q("", p, S if S.ismono() else None)]
                    out.append(loops.Cand(f"probability of reading {b} carried by the queue" + (" and the sum so far" if y is not None else ""), tot, ("sum", b)))
        return out

    def wanted(self, info):
        return [(("sum", b), "probability carried by the queue") for b in (0, 1)] if info.ghosts else []


class One(Meas):
    """measureOne, measureOneCollapsing"""
    loops = False

    def requires(self, T, st, a):
        e, q = a[0].val, bv(a[1].val, 32)
        n = NP(T.vc, st, e.n.ref)
        eps = a[3].val
        return [B("qubit is in the register", z3.And(q >= 0, q <= self.lev(T, e))), Q("state is normalised", abs2(e.w) * n - ONE, abs2(e.w) * n),
                B("tolerance is not negative", T.lin(st, eps) >= 0)]

    def entry(self, vc, st, a):
        self.a, self.e0 = a, a[0].val
        self.q = z3.simplify(bv(a[1].val, 32))
        self.hv = Halves(self.q)
        n = NP(vc, st, self.e0.n.ref)
        vc.th.mat(st, "v", self.e0.n.ref)
        self.hv.facts(vc, st, self.e0.n.ref)
        vc.th.setg(st, "one", (abs2(self.e0.w) * n,))
        st.assume(z3.Not(vc.th.Zraw(self.e0.w)))

    nothrow = True

    def apply(self, vc, st, vals, ins):
        raise Unsupported("call of " + self.name)


class MeasureOne(One):
    name = "measureOne"
    params = ["vEdge&", "int", "std::mersenne_twister", "double"]

    def check_post(self, vc, s, a, r, pre):
        T = vc.th
        pf = f"postcondition of {self.name}: "
        prove_clause(vc, s, Q("the probability returned is that of reading 0", r - abs2(self.e0.w) * self.hv.raw(0, self.e0.n.ref)), pf)
        w, nd = vc.rd_edge(s, a[0].ptr)
        ok = isinstance(nd, NodePtr) and w == self.e0.w and T.prove_bool(s, nd.ref == self.e0.n.ref)
        vc.oblige(s, pf + "the state is left alone", ok)


class MeasureOneCollapsing(One):
    name = "measureOneCollapsing"
    params = ["vEdge&", "int", "std::mersenne_twister", "double"]

    def check_post(self, vc, s, a, r, pre):
        T = vc.th
        pf = f"postcondition of {self.name}: "
        L = z3.simplify(self.lev(T, self.e0))
        if not isinstance(r, int) or r not in (48, 49):
            vc.oblige(s, pf + "the outcome is '0' or '1'", False, str(r))
            return
        b = r - 48
        F = abs2(self.e0.w) * self.hv.raw(b, self.e0.n.ref)
        W = next(x.ghost.W for x in s.mem.values() if isinstance(x.ghost, RngG))
        prove_clause(vc, s, Q("the outcome is drawn with its Born probability", W * NP(vc, s, self.e0.n.ref) - self.hv.raw(b, self.e0.n.ref)), pf)
        w, nd = vc.rd_edge(s, a[0].ptr)
        e1 = E("v", w, nd)
        check_edge(vc, s, e1, "exit of " + self.name)
        prove_clause(vc, s, B("a state on the register is left", T.valid(e1, L)), pf)
        ok = False
        for k in (sqrt_of(F.inv()), sqrt_of(F).inv()):
            good = True
            for bit in (0, 1):
                t = s.copy()
                t.assume(T.rb(self.q) == bool(bit))
                want = k * self.e0.w * T.D("v", self.e0.n.ref, L) if bit == b else ZERO
                good = good and (not vc.feasible(t) or T.prove_zero(t, T.ent(e1, L) - want))
            ok = ok or good
        vc.oblige(s, pf + "the state left is the projection on the outcome over the square root of its probability", ok, "" if ok else f"{e1}")


def meas_contracts():
    return [AssignProb(), Probabilities(), MeasureAll("draw"), MeasureAll("collapse"), DetProb(), MeasureOne(), MeasureOneCollapsing()]


MAP = r"std::(unordered_)?map<vNode( const)?\*, double.*>::"
SET = r"std::(unordered_)?set<vNode( const)?\*.*>::"
QUE = r"std::queue<vNode( const)?\*.*>::"
STR = r"std::(__cxx11::)?basic_string<char.*>::"


def meas_lib():
    tm, ts, tq = ("std::unordered_map has the documented meaning", "std::set has the documented meaning", "std::queue has the documented meaning")
    tr = "std::uniform_real_distribution draws independent numbers uniform on [a,b)"
    return [
        (MAP + r"(unordered_)?map\(\)$", map_ctor, tm), (MAP + r"~(unordered_)?map\(\)$", noop(MoneG), ""),
        (MAP + r"find\(", map_find, tm), (MAP + r"(count|contains)\(", map_count, tm), (MAP + r"end\(\)", map_end, tm),
        (MAP + r"(operator\[\]|at)\(", map_index, tm), (MAP + r"insert\(", map_insert, tm),
        (r"std::__detail::operator==\(", it_cmp(False), tm), (r"std::__detail::operator!=\(", it_cmp(True), tm),
        (r"std::operator==\(std::_Rb_tree_", it_cmp(False), ts), (r"std::operator!=\(std::_Rb_tree_", it_cmp(True), ts),
        (r"std::_Rb_tree_(const_)?iterator<.*>::operator==\(", it_cmp(False), ts), (r"std::_Rb_tree_(const_)?iterator<.*>::operator!=\(", it_cmp(True), ts),
        (r"std::__detail::_Node_(const_)?iterator<std::pair<vNode.*>::operator(->|\*)\(\)", it_deref, tm),
        (r"std::_Rb_tree_(const_)?iterator<std::pair<vNode.*>::operator(->|\*)\(\)", it_deref, tm),
        (SET + r"(unordered_)?set\(\)$", cont_ctor(SetG), ts), (SET + r"~(unordered_)?set\(\)$", noop(SetG), ""),
        (SET + r"find\(", s_find, ts), (SET + r"(count|contains)\(", s_count, ts), (SET + r"end\(\)", s_end, ts), (SET + r"insert\(", s_insert, ts),
        (QUE + r"queue(<.*>)?\(\)$", cont_ctor(QueG), tq), (QUE + r"~queue\(\)$", noop(QueG), ""),
        (QUE + r"front\(\)", q_front, tq), (QUE + r"pop\(\)", q_pop, tq), (QUE + r"(push|emplace)\(", q_push, tq), (QUE + r"empty\(\)", q_empty, tq),
        (r"std::uniform_real_distribution<double>::uniform_real_distribution\(", dist_ctor, tr),
        (r"double std::uniform_real_distribution<double>::operator\(\)<std::mersenne", dist_draw, tr),
        (r"std::vector<double.*>::vector\(\)$", vec_ctor, "std::vector has the documented meaning"), (r"std::vector<double.*>::~vector\(\)$", noop(VecG), ""),
        (r"std::vector<double.*>::(push_back|emplace_back)", vec_push, "std::vector has the documented meaning"),
        (r"std::vector<double.*>::reserve", noop(VecG), ""), (r"std::vector<double.*>::size\(\)", vec_size, ""),
        (STR + r"basic_string<std::allocator<char> >\(unsigned long, char", str_ctor, "std::string has the documented meaning"),
        (STR + r"basic_string<std::reverse_iterator<", str_ctor_rev, "std::string has the documented meaning"),
        (STR + r"(operator\[\]|at)\(", str_index, ""), (STR + r"(size|length)\(\)", str_len, ""),
        (STR + r"rbegin\(\)", str_rev(False), ""), (STR + r"rend\(\)", str_rev(True), ""), (STR + r"~basic_string\(\)$", noop(StrG), ""),
        (r"std::(__new_)?allocator<char>::~?allocator\(\)$", noop(StrG), ""), (r"std::__new_allocator<char>::~?__new_allocator\(\)$", noop(StrG), ""),
        (r"std::reverse_iterator<.*>::reverse_iterator\(std::reverse_iterator<", ret_rev, ""),
        (r".*\bstd::pow<", h_pow, "std::pow(2, n) is exact"),
    ]
