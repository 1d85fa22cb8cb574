"""Heap arrays of unknown length: only one arbitrary element (Skolem index) is tracked.

What is proved about that element holds for every element.  Every access must be in range (obligation)."""
import z3
from ir import Unsupported, DBL
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, UNDEF, sgn

B64 = z3.BitVecSort(64)


def v64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def elements(vc, st, size, sz):
    """number of elements of sz bytes in size bytes"""
    if isinstance(size, int):
        if size % sz:
            raise Unsupported("allocation size")
        return size // sz
    n = z3.simplify(z3.LShR(size, {8: 3, 16: 4}[sz]))
    if not vc.entails(st, v64(n) * sz == size):
        raise Unsupported("allocation size")
    for f in st.frames[-1:]:
        for o in f.allocas.values():           # prefer a term the code itself uses
            for v, z in st.mem[o].cells.values():
                if z3.is_bv(v) and v.size() == 64 and vc.entails(st, v == n):
                    return v
    return n


def new_array(vc, st, vals, ins, dem):
    size = vals[0]
    p = APtr(st.new(16, "new[]"), (0,), 0)
    st.mem[p.o].ghost = RawG(size)
    if not isinstance(size, int):
        ok = vc.th.prove_bool(st, z3.ULT(size, 1 << 60))
        vc.oblige(st, "allocation size does not overflow", ok, vc.where(st))
        if not ok:
            raise PathEnd("bad_alloc")
    return p


def ctor_loop(vc, st, f, lbl):
    """the loop clang emits for the default constructors of new T[n]: all elements get the value one constructor call gives"""
    blk = [i for i in f.fn.blocks[lbl] if i.op != "nop"]
    if [i.op for i in blk] != ["phi", "call", "gep", "icmp", "cbr"]:
        return False
    ph, ca, ge, ic, br = blk
    cur = f.regs.get(ph.res)
    if not isinstance(cur, APtr) or br.a[1] != lbl and br.a[2] != lbl:
        return False
    g = cur.g(st)
    if isinstance(g, RawG) or cur.f or len(cur.idx) != 1:
        return False
    n = v64(g.n if isinstance(g, RowG) else g.n[0])
    s = st.copy()
    # one iteration, on a copy: the element must become a constant, the pointer must advance by one, the end must be the array's end
    scratch = Ptr(s.new(16, "element"))
    fr = s.frames[-1]
    fr.regs[ph.res] = scratch
    depth = len(s.frames)
    for _ in range(200):
        t = s.frames[-1]
        if len(s.frames) == depth and t.fn.blocks[t.blk][t.idx].op == "gep":
            break
        vc.step(s, 0)
    else:
        raise Unsupported("array constructor")
    w = vc.rd_complex(s, scratch)
    if not (ge.a[1].k == "reg" and ge.a[1].v == ph.res and len(ge.a[2]) == 1 and vc.val(st, ge.a[2][0]) == 1 and vc.mod.size(ge.a[0]) == 16):
        raise Unsupported("array constructor step")
    ops = [None if x.k == "reg" and x.v == ge.res else vc.val(st, x) for x in ic.a[1:]]
    if ic.a[0] != "eq" or ops.count(None) != 1 or br.a[1] == lbl:
        raise Unsupported("array constructor test")
    ends = [o for o in ops if isinstance(o, APtr)]
    if len(ends) != 1 or ends[0].o != cur.o or ends[0].f or not vc.entails(st, v64(ends[0].idx[0]) == n) or cur.idx[0] != 0:
        raise Unsupported("array constructor range")
    st.wobj(cur.o).ghost = RowG(g.n, w) if isinstance(g, RowG) else g.but(cur=w)
    f.loops.pop(lbl, None)
    vc.jump(st, br.a[1])
    return True


class ArrG:
    """immutable abstract value of an array of complex numbers: n elements, element K holds cur (None: not initialised).
    rows: the array is an array of pointers to rows; K = (row, column), n = (rows, columns); filled: rows 0..filled-1 are allocated"""

    def __init__(self, n, K, cur, filled=None):
        self.n, self.K, self.cur, self.filled = tuple(n), tuple(K), cur, filled

    def but(self, **kw):
        g = ArrG(self.n, self.K, self.cur, self.filled)
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def havoc(self, vc, st):
        c = Poly.atom(Atoms.get(st.sym("cell"), (), "complex")) if self.cur is not None else None
        f = self.filled
        if len(self.n) == 2 and f is not None:
            f = z3.BitVec(st.sym("rows"), 64)
        return self.but(cur=c, filled=f)


class RowG:
    """a freshly allocated row, not yet part of a matrix"""

    def __init__(self, n, cur):
        self.n, self.cur = n, cur


class RawG:
    """memory from new[] whose element type is not known yet; dim: 1 = array of numbers, 2 = array of rows (from the contract)"""

    def __init__(self, size):
        self.size = size


def settype(vc, st, oid, sz):
    g = st.mem[oid].ghost
    dim = getattr(vc.loopcon, "arrdim", None) if vc.loopcon is not None else None
    if sz not in (8, 16) or dim is None or (sz == 8 and dim != 2):
        raise Unsupported("raw memory")
    n = elements(vc, st, g.size, sz)
    o = st.wobj(oid)
    if sz == 16 and dim == 2:
        o.ghost = RowG(n, None)
        return
    K = tuple(z3.BitVec(f"K{i}!{oid}", 64) for i in range(dim))
    if dim == 1:
        st.assume(z3.ULT(K[0], v64(n)))
        o.ghost = ArrG((n,), K, None)
    else:
        cols = z3.BitVec(f"cols!{oid}", 64)
        st.assume(z3.ULT(K[0], v64(n)), z3.ULT(K[1], cols))
        o.ghost = ArrG((n, cols), K, None, 0)


class APtr:
    """pointer into an array: idx = element index (per dimension), f = byte inside the element"""

    def __init__(self, o, idx, f=0):
        self.o, self.idx, self.f = o, tuple(idx), f

    def g(self, st):
        g = st.mem[self.o].ghost
        if not isinstance(g, (ArrG, RowG, RawG)) or st.mem[self.o].dead:
            raise Unsupported("array")
        return g

    def typed(self, vc, st, ty):
        """decide the element type of raw memory from its first use"""
        g = self.g(st)
        if not isinstance(g, RawG):
            return
        settype(vc, st, self.o, vc.mod.size(ty))

    def level(self, st):
        g = self.g(st)
        return len(g.n) if isinstance(g, ArrG) else 1

    def es(self, st):
        return 16 if len(self.idx) == self.level(st) else 8

    def gepidx(self, vc, st, ty, idx, ityps):
        self.typed(vc, st, ty)
        es = self.es(st)
        f = self.f
        last = self.idx[-1]
        t = ty
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if n == 0:
                sz = vc.mod.size(t)
                if sz == es:
                    e = i if isinstance(i, int) else (i if it.a == 64 else z3.SignExt(64 - it.a, i))
                    e = sgn(i, it.a) & (2**64 - 1) if isinstance(i, int) else e
                    last = conc(v64(last) + v64(e))
                elif isinstance(i, int):
                    f += sgn(i, it.a) * sz
                else:
                    raise Unsupported("array element size")
            else:
                t = vc.mod.resolve(t)
                if t.k == "struct":
                    f += vc.mod.field_off(t, i if isinstance(i, int) else conc(i))
                    t = t.a[i]
                else:
                    raise Unsupported("array in array")
        if not 0 <= f < es:
            d, f = divmod(f, es)
            last = conc(v64(last) + v64(d & (2**64 - 1)))
        return APtr(self.o, self.idx[:-1] + (last,), f)

    def gepc(self, d):
        return APtr(self.o, self.idx, self.f + d)

    def inrange(self, vc, st):
        g = self.g(st)
        if isinstance(g, RowG):
            ns = (g.n,)
        else:
            ns = g.n
        i = v64(self.idx[-1])
        n = v64(ns[len(self.idx) - 1])
        ok = vc.th.prove_bool(st, z3.ULT(i, n))
        vc.oblige(st, "array index is in range", ok, vc.where(st))
        if not ok:
            raise PathEnd("ub")

    def hit(self, vc, st):
        g = self.g(st)
        for a, b in zip(self.idx, g.K):
            if not vc.decide(st, conc(v64(a) == v64(b))):
                return False
        return True

    def load(self, vc, st, ty):
        self.typed(vc, st, ty)
        self.inrange(vc, st)
        g = self.g(st)
        if len(self.idx) < self.level(st):
            if ty.k != "ptr":
                raise Unsupported("row pointer")
            if g.filled is not None:
                ok = vc.th.prove_bool(st, z3.ULT(v64(self.idx[-1]), v64(g.filled)))
                vc.oblige(st, "row has been allocated", ok, vc.where(st))
                if not ok:
                    raise PathEnd("ub")
            return APtr(self.o, self.idx + (0,), 0)
        if isinstance(g, RowG):
            raise Unsupported("read of a detached row")
        if ty.k == "struct":
            return [APtr(self.o, self.idx, self.f + vc.mod.field_off(ty, i)).load(vc, st, vc.mod.resolve(x)) for i, x in enumerate(ty.a)]
        if ty.k != "double" or self.f not in (0, 8):
            raise Unsupported("array element type")
        if self.hit(vc, st):
            if g.cur is None:
                raise Unsupported("uninitialised array element")
            return g.cur.re() if self.f == 0 else g.cur.im()
        return Poly.atom(Atoms.get(st.sym("elem"), (), "real"))

    def store(self, vc, st, v, ty):
        self.typed(vc, st, ty)
        self.inrange(vc, st)
        g = self.g(st)
        o = st.wobj(self.o)
        if len(self.idx) < self.level(st):
            if g.filled is None or not isinstance(v, APtr):
                raise Unsupported("row assignment")
            r = v.g(st)
            if not isinstance(r, RowG) or any(not isinstance(x, int) or x != 0 for x in v.idx) or v.f:
                raise Unsupported("row assignment")
            if "cols!" in str(g.n[1]) and isinstance(g.filled, int) and g.filled == 0:
                if not vc.feasible(st, v64(r.n) == v64(g.n[1])):
                    raise PathEnd("infeasible")
                st.assume(v64(r.n) == v64(g.n[1]))      # the first row fixes the (so far unconstrained) number of columns
            ok = vc.th.prove_bool(st, v64(r.n) == v64(g.n[1]))
            vc.oblige(st, "row has the length of the matrix", ok, vc.where(st))
            t = conc(v64(self.idx[-1]) == v64(g.K[0]))
            # None: content not known
            cur = r.cur if vc.entails(st, t) else g.cur if vc.entails(st, z3.Not(t) if z3.is_expr(t) else not t) else None
            i, n = v64(self.idx[-1]), v64(g.filled)
            o.ghost = g.but(filled=conc(n + 1) if vc.entails(st, i == n) else conc(z3.If(i == n, n + 1, n)), cur=cur)
            st.wobj(v.o).dead = True
            return
        if ty.k == "struct":
            for i, x in enumerate(ty.a):
                APtr(self.o, self.idx, self.f + vc.mod.field_off(ty, i)).store(vc, st, v[i], vc.mod.resolve(x))
            return
        if ty.k != "double" or self.f not in (0, 8):
            raise Unsupported("array element type")
        if isinstance(g, RowG):
            raise Unsupported("write to a detached row")
        if self.hit(vc, st):
            c = g.cur if g.cur is not None else ZERO
            c = (v + c.im() * IU) if self.f == 0 else (c.re() + v * IU)
            o.ghost = g.but(cur=c)

    def store_cells(self, vc, st, cells, n):
        if n != 16 or self.f != 0 or len(self.idx) != self.level(st):
            raise Unsupported("array copy")
        d = {a: v for a, v, z in cells}
        if set(d) != {0, 8}:
            raise Unsupported("array copy")
        self.store(vc, st, d[0] if isinstance(d[0], Poly) else ZERO, DBL)
        self.gepc(8).store(vc, st, d[8] if isinstance(d[8], Poly) else ZERO, DBL)

    def cells(self, vc, st, n):
        if n != 16 or self.f != 0 or len(self.idx) != self.level(st):
            raise Unsupported("array copy")
        return [(0, self.load(vc, st, DBL), 8), (8, self.gepc(8).load(vc, st, DBL), 8)]

    def same(self, vc, st, o):
        if isinstance(o, Ptr) and o.o == 0:
            return False
        if isinstance(o, APtr) and o.o == self.o and len(o.idx) == len(self.idx) and o.f == self.f:
            return conc(z3.And(*[v64(a) == v64(b) for a, b in zip(self.idx, o.idx)]))
        raise Unsupported("array pointer comparison")

    def __repr__(self):
        return f"&arr{self.o}{list(self.idx)}+{self.f}"
