"""Node store (C06) and bucket pools of the memo tables (C05): bodies of getNode, returnNode, lookup, getBucket, clearAll, node equality and
node hash against these data-structure invariants

  pool      chunkID = number of chunks - 1; the cursor is (chunkID, p) with p <= size of that chunk; the end mark is that chunk's end; elements
            lexicographically below the cursor have been handed out, no other
  free list elements F[0..n-1], all handed out, none stored, pairwise different; available = F[n-1] (null if n = 0), F[i].next = F[i-1]
            (null for i = 0), F[i].previous = null
  chain     of slot (qubit, hash): stored nodes C[0..m-1], all of this qubit and hash, pairwise different contents; slot = C[m-1] (null if
            m = 0), C[i].previous = C[i-1] (null for i = 0)

Addresses are abstract: a pool element is (chunk, position), F[i] and C[i] are elements of the ghost sequences.  One arbitrary (Skolem) chain
position K stands for all."""
import re
import z3
from ir import Unsupported, I32, PTR, Ty
from poly import Poly, Atoms, ZERO
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, State, UNDEF, sgn
from theory import E, NQ
from contract import *
from c_memo import LazyG, v64, NTAB
import loops

I64, I8 = Ty("i", 64), Ty("i", 8)
CAP = 1 << 48      # no chunk of this many elements can be allocated
SIZE = z3.Function("chunksize", z3.BitVecSort(64), z3.BitVecSort(64))
M1 = 2**64 - 1


def c64(x):
    return z3.BitVecVal(x, 64)


class SPtr:
    """pointer to (a field of) a pool element; kind: elem (chunk, pos) | free (index) | chain (index) | node (the argument) | vec (chunk) |
    chunks | tabs (row) | tab (row, qubit) | slot (row, qubit, key)"""

    def __init__(self, con, kind, *idx, off=0):
        self.con, self.kind, self.idx, self.off = con, kind, tuple(idx), off

    def at(self, off):
        return SPtr(self.con, self.kind, *self.idx, off=off)

    def gepc(self, d):
        return self.at(self.off + d)

    def gepidx(self, vc, st, ty, idx, ityps):
        off, idn = self.off, list(self.idx)
        t = vc.mod.resolve(ty)
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if n == 0:
                if isinstance(i, int) and i == 0:
                    continue
                d = c64(sgn(i, it.a) & M1) if isinstance(i, int) else (i if it.a == 64 else z3.SignExt(64 - it.a, i))
                if self.kind == "elem" and vc.mod.size(t) == self.con.esize(vc):
                    idn[1] = conc(v64(idn[1]) + d)
                elif self.kind in ("tabs", "tab", "slot") and off == 0 and self.con.stride(vc, self.kind, t):
                    idn[-1] = conc(v64(idn[-1]) + d)
                elif isinstance(i, int):
                    off += sgn(i, it.a) * vc.mod.size(t)
                else:
                    raise Unsupported("pointer arithmetic on a pool element")
            elif t.k == "struct":
                if self.kind == "tab":
                    if i != 0:
                        raise Unsupported("table field")
                    t = vc.mod.resolve(t.a[0])
                    continue
                j = vc.concretize(st, i, it.a)
                off += vc.mod.field_off(t, j)
                t = vc.mod.resolve(t.a[j])
            elif t.k == "arr":
                if self.kind == "tab":
                    d = v64(i) if it.a == 64 or isinstance(i, int) else z3.SignExt(64 - it.a, i)
                    p = SPtr(self.con, "slot", *idn, conc(d), off=0)
                    p.bound = t.a
                    if n + 1 < len(idx):
                        raise Unsupported("slot field")
                    return p
                j = vc.concretize(st, i, it.a)
                off += j * vc.mod.size(t.b)
                t = vc.mod.resolve(t.b)
            else:
                raise Unsupported("pointer")
        p = SPtr(self.con, self.kind, *idn, off=off)
        if hasattr(self, "bound"):
            p.bound = self.bound
        return p

    def load(self, vc, st, ty):
        return self.con.load(vc, st, self, ty)

    def store(self, vc, st, v, ty):
        self.con.store(vc, st, self, v, ty)

    def cells(self, vc, st, n):
        raise Unsupported("copy of a pool element")

    def store_cells(self, vc, st, cells, n):
        raise Unsupported("copy into a pool element")

    def memset(self, vc, st, n):
        if self.kind == "slot" and self.off == 0 and isinstance(self.idx[2], int) and hasattr(self, "bound") and isinstance(self.con, BucketPool):
            row, lv, key = self.idx
            b = 8 * self.bound
        elif self.kind == "tab" and self.off == 0 and isinstance(self.con, BucketPool):
            (row, lv), key, b = self.idx, 0, 8 * self.con.slots(vc)
        else:
            raise Unsupported("memset of pool elements")
        if not isinstance(row, int) or not isinstance(lv, int):
            raise Unsupported("memset of pool elements")
        ok = 0 <= row < NTAB[self.con.cls] and 0 <= lv < NQ and 8 * key + n <= b
        vc.oblige(st, "cleared memory lies inside one table", ok, f"{self} {n} bytes of {b}")
        if not ok:
            raise PathEnd("ub")
        if key == 0 and n == b:
            st.g = {**st.g, "cleared": st.g["cleared"] + ((row, lv),)}

    def same(self, vc, st, o):
        if isinstance(o, Ptr) and o.o == 0:
            if self.off != 0:
                return False
            if self.kind in ("free", "chain"):
                return conc(v64(self.idx[0]) == c64(M1))
            if self.kind == "node":
                return False
            return False
        if isinstance(o, NodePtr):
            if self.kind == "node" and self.off == 0 and o.off == 0 and self.con.is_terminal(vc, o):
                return self.con.terminal
            if self.con.is_terminal(vc, o):
                return False
            raise Unsupported("comparison with a stored node")
        if isinstance(o, SPtr) and o.kind == self.kind and o.off == self.off and o.con is self.con:
            return conc(z3.And(*[v64(a) == v64(b) for a, b in zip(self.idx, o.idx)])) if self.idx else True
        if isinstance(o, SPtr) and {o.kind, self.kind} <= {"elem", "free", "chain", "node"} and "node" in (o.kind, self.kind):
            return False
        raise Unsupported("pointer comparison")

    def havoc(self, vc, st, nm):
        if self.off or self.kind not in ("free", "chain"):
            raise Unsupported("loop-carried pointer")
        return SPtr(self.con, self.kind, z3.BitVec(nm, 64))

    def sig(self):
        return (self.kind, tuple(str(i) for i in self.idx), self.off)

    def eq(self, o):
        return isinstance(o, SPtr) and self.sig() == o.sig()

    def __repr__(self):
        return f"{self.kind}{list(self.idx)}+{self.off}"


class Pool(Contract):
    """common parts: the object, its cursor, chunks"""
    retk = None
    terminal = None

    def ident(self):
        raise NotImplementedError

    def esize(self, vc):
        raise NotImplementedError

    def is_terminal(self, vc, o):
        return False

    def stride(self, vc, kind, t):
        return False

    def setup_pool(self, vc, st):
        """this object with an arbitrary pool satisfying the invariant"""
        cls, cid, cache, ccid = self.ident()
        f = vc.mod.dbg_members(cls, cid)
        g = vc.mod.dbg_members("Cache", ccid)
        if cache not in f or not {"chunks", "chunkID", "chunkIt", "chunkEndIt", "allocationSize"} <= set(g):
            raise Unsupported("pool layout")
        self.f, self.off = f, {k: f[cache] + o for k, o in g.items()}
        this = Ptr(st.new(None, "this"))
        o = st.mem[this.o]
        o.ghost = LazyG()
        N, p = z3.BitVec("nchunks", 64), z3.BitVec("cursor", 64)
        cid = z3.simplify(N - 1)
        st.assume(z3.ULT(N, CAP), N != 0, z3.ULE(p, SIZE(cid)), z3.ULT(SIZE(cid), CAP))
        al = z3.BitVec("allocationSize", 64)
        st.assume(al != 0)
        c = o.cells
        c[self.off["chunkID"]] = (cid, 8)
        c[self.off["chunkIt"]] = (SPtr(self, "elem", cid, p), 8)
        c[self.off["chunkEndIt"]] = (SPtr(self, "elem", cid, SIZE(cid)), 8)
        c[self.off["allocationSize"]] = (al, 8)
        st.g = {**st.g, "levels": (), "nchunks": N, "writes": (), "cleared": ()}
        self.N, self.p, self.cid, self.this = N, p, cid, this
        return this

    def check_pool(self, vc, s, nm, res=None):
        """the invariant holds again, and exactly `res` (or nothing) has been handed out"""
        o = self.off
        it, en = vc.ld(s, Ptr(self.this.o, o["chunkIt"]), PTR), vc.ld(s, Ptr(self.this.o, o["chunkEndIt"]), PTR)
        cid, al = v64(vc.ld(s, Ptr(self.this.o, o["chunkID"]), I64)), v64(vc.ld(s, Ptr(self.this.o, o["allocationSize"]), I64))
        N = v64(s.g["nchunks"])

        def ob(label, c):
            ok = vc.th.prove_bool(s, c)
            vc.oblige(s, nm + label, ok, "" if ok else f"cursor {it} end {en} chunk {cid} of {N}; result {res}")
        good = all(isinstance(x, SPtr) and x.kind == "elem" and x.off == 0 for x in (it, en))
        vc.oblige(s, nm + "cursor and end mark point into a chunk", good, f"{it} {en}")
        if not good:
            return
        c, p = v64(it.idx[0]), v64(it.idx[1])
        ob("the current chunk is the last one", z3.And(cid == N - 1, c == cid))
        ob("the cursor does not pass the end of the chunk", z3.ULE(p, SIZE(c)))
        ob("the end mark is the end of the current chunk", z3.And(v64(en.idx[0]) == c, v64(en.idx[1]) == SIZE(c)))
        ob("the next chunk will not be empty", al != 0)
        if res == "reset":
            ob("the pool is empty and unused", z3.And(N == 1, p == 0))
            return
        if res is None:
            ob("nothing is handed out", z3.And(c == self.cid, p == self.p))
            return
        rc, ri = v64(res.idx[0]), v64(res.idx[1])
        ob("the element handed out exists", z3.And(z3.ULT(rc, N), z3.ULT(ri, SIZE(rc))))
        ob("the element handed out has never been handed out before", z3.Or(z3.UGT(rc, self.cid), z3.And(rc == self.cid, z3.UGE(ri, self.p))))
        ob("the element handed out lies below the cursor from now on", z3.Or(z3.ULT(rc, c), z3.And(rc == c, z3.ULT(ri, p))))

    # ---- chunks
    def chunk_count(self, st):
        return v64(st.g["nchunks"])

    def add_chunk(self, vc, st, n):
        n = v64(n)
        if not vc.feasible(st, z3.ULT(n, CAP)):
            raise PathEnd("bad_alloc")
        st.assume(z3.ULT(n, CAP))
        N = self.chunk_count(st)
        st.assume(SIZE(N) == n, z3.ULT(N, CAP))
        st.g = {**st.g, "nchunks": z3.simplify(N + 1)}

    # ---- fields of pool elements
    def load(self, vc, st, p, ty):
        raise Unsupported(f"load from {p}")

    def store(self, vc, st, p, v, ty):
        raise Unsupported(f"store to {p}")


def clean(cls):
    return cls.replace("> >", ">>")


class NodeStore(Pool):
    """CHashTable<T> members"""
    strict = True

    def __init__(self, fn, k):
        self.fn, self.k = fn, k
        self.T = k + "Node"
        self.name = self.tag = f"CHashTable<{self.T}>::{fn}"

    def matches(self, dem):
        h, ps = split_params(dem)
        return re.search(r"CHashTable<%s, .*>::%s$" % (self.T, self.fn), h) is not None

    def ident(self):
        n = f"{len(self.T)}{self.T}"
        i = f"10CHashTableI{n}St4hashIS0_ESt8equal_toIS0_EE"
        return f"CHashTable<{self.T}, std::hash<{self.T}>, std::equal_to<{self.T}> >", "_ZTS" + i, "_cache", f"_ZTSN{i}5CacheE"

    def lay(self, vc):
        m = vc.mod.dbg_members(self.T, f"_ZTS{len(self.T)}{self.T}")
        if not {"v", "children", "next", "previous"} <= set(m):
            raise Unsupported("node layout")
        return m

    def esize(self, vc):
        return vc.mod.size(Ty("named", next(n for n in vc.mod.type_txt if n == f"struct.{self.T}")))

    def is_terminal(self, vc, o):
        return isinstance(o, NodePtr) and o.k == self.k and o.ref.eq(vc.th.T[self.k])

    def stride(self, vc, kind, t):
        return False

    # ---- memory
    def load(self, vc, st, p, ty):
        m = self.lay(vc)
        if p.kind == "slot":
            return self.slot(vc, st, p)[2]
        for q, off, v in reversed(st.g["writes"]):
            if off == p.off and self.alias(vc, st, p, q):
                return v
        if p.kind in ("free", "chain"):
            i = v64(p.idx[0])
            n = st.g["nfree"] if p.kind == "free" else st.g["nchain"]
            ok = vc.th.prove_bool(st, z3.ULT(i, n))
            vc.oblige(st, "a list pointer that is followed is not null", ok, f"{vc.where(st)}: {p}")
            if not ok:
                raise PathEnd("ub")
            if p.off == (m["next"] if p.kind == "free" else m["previous"]) and ty.k == "ptr":
                return SPtr(self, p.kind, z3.simplify(i - 1))
            if p.off == m["previous"] and p.kind == "free":
                return NULL
            if p.off == m["v"] and p.kind == "chain":
                return self.lv
        if p.kind == "node":
            if p.off == m["previous"]:
                return NULL
            if p.off == m["v"]:
                return self.lv
        raise Unsupported(f"field of {p}")

    def alias(self, vc, st, p, q):
        if p.kind != q.kind:
            if {p.kind, q.kind} <= {"node", "free", "chain", "elem"}:
                return False
            raise Unsupported("aliasing")
        if not p.idx:
            return True
        return vc.decide(st, conc(z3.And(*[v64(a) == v64(b) for a, b in zip(p.idx, q.idx)])))

    def store(self, vc, st, p, v, ty):
        if p.kind == "slot":
            lv, key, old = self.slot(vc, st, p)
            st.g = {**st.g, "head": v}
            return
        if p.kind not in ("node", "free", "chain", "elem"):
            raise Unsupported(f"store to {p}")
        st.g = {**st.g, "writes": st.g["writes"] + ((p.at(0), p.off, v),)}

    def slot(self, vc, st, p):
        """the only slot the function may use is that of its node"""
        if p.off != 0 or not hasattr(p, "bound"):
            raise Unsupported("slot field")
        row, lv, key = p.idx
        ok = vc.th.prove_bool(st, z3.ULT(v64(key), p.bound))
        vc.oblige(st, "slot index is in range", ok, vc.where(st))
        if not ok:
            raise PathEnd("ub")
        vc.oblige(st, "the table of the node's qubit is used", vc.entails(st, v64(lv) == z3.SignExt(32, self.lv)), str(lv))
        if "key" not in st.g:
            st.g = {**st.g, "key": v64(key)}
            vc.oblige(st, "the slot depends on the node's contents only", free_syms(v64(key)) <= {"nodehash", "v"}, str(key)[:300])
        same = v64(key).eq(st.g["key"]) or vc.entails(st, v64(key) == st.g["key"])
        vc.oblige(st, "one slot is used for one node", same, str(key)[:300])
        if not same:
            raise PathEnd("slot")
        return lv, key, st.g["head"]

    # ---- functions
    def verify1(self, vc, fnname):
        vc.top = self
        st = State()
        this = self.setup_pool(vc, st)
        nf, nc = z3.BitVec("nfree", 64), z3.BitVec("nchain", 64)
        st.assume(z3.ULT(nf, CAP), z3.ULT(nc, CAP))
        head = SPtr(self, "chain", z3.simplify(nc - 1))
        av = SPtr(self, "free", z3.simplify(nf - 1))
        if "available" not in self.off:
            raise Unsupported("free list")
        st.mem[this.o].cells[self.off["available"]] = (av, 8)
        self.lv = z3.BitVec("v", 32)
        self.K = z3.BitVec("K", 64)
        self.EQ = z3.Bool("element K equals the node")
        self.terminal = None
        st.g = {**st.g, "nfree": nf, "nchain": nc, "head": head, "returned": False}
        self.head, self.av, self.nf, self.nc = head, av, nf, nc
        node = SPtr(self, "node")
        vals = [this]
        if self.fn != "getNode":
            vals.append(node)
        if self.fn in ("lookup", "register_wo_lookup"):
            st.assume(self.lv >= 0, self.lv < NQ, z3.ULT(self.K, nc))
            vc.loopcon = self
        elif self.fn == "returnNode":
            if self.k == "m":
                self.terminal = z3.Bool("is the terminal")
            vc.loopcon = None
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        seen = 0
        variants = [st]
        if self.fn in ("lookup", "register_wo_lookup"):
            # the chain may be empty (then there is no element K)
            e = st.copy()
            e.pc.remove(next(c for c in e.pc if c.eq(z3.ULT(self.K, nc))))
            e.assume(nc == 0)
            variants.append(e)
        cnt = [0]
        for s0 in variants:
            vc.start_call(s0, fnname, vals, None)

            def done(s, v, kind):
                cnt[0] += 1
                self.post(vc, s, v)
            vc.run(s0, done)
        if not cnt[0]:
            vc.oblige(st, f"{self.name}: some path returns", False)
        return vc.results

    def field(self, vc, s, p, name):
        return vc.ld(s, p.at(self.lay(vc)[name]), PTR)

    def isnull(self, vc, s, v):
        if isinstance(v, Ptr):
            return v.o == 0
        r = v.same(vc, s, NULL)
        return r if isinstance(r, bool) else vc.entails(s, r)

    def is_free(self, vc, s, v, i):
        if isinstance(v, Ptr) and v.o == 0:
            return vc.entails(s, i == c64(M1))
        return isinstance(v, SPtr) and v.kind == "free" and v.off == 0 and vc.entails(s, v64(v.idx[0]) == i)

    def is_chain(self, vc, s, v, i):
        if isinstance(v, Ptr) and v.o == 0:
            return vc.entails(s, i == c64(M1))
        return isinstance(v, SPtr) and v.kind == "chain" and v.off == 0 and vc.entails(s, v64(v.idx[0]) == i)

    def post(self, vc, s, v):
        m = self.lay(vc)
        nm = self.name + ": "
        av = vc.ld(s, Ptr(self.this.o, self.off["available"]), PTR)
        ob = lambda l, c, d="": vc.oblige(s, nm + l, bool(c), d)
        w = [(q, off, x) for q, off, x in s.g["writes"]]
        if self.fn == "getNode":
            ok = isinstance(v, SPtr) and v.off == 0 and v.kind in ("free", "elem")
            ob("the result is a returned or an unused element", ok, str(v))
            if not ok:
                return
            mine = all(q.kind == v.kind and vc.entails(s, z3.And(*[v64(a) == v64(b) for a, b in zip(q.idx, v.idx)])) for q, off, x in w)
            ob("no other element is modified", mine, str(w))
            if v.kind == "free":
                ob("a reused element is the newest returned one", self.is_free(vc, s, v, self.nf - 1) and vc.entails(s, self.nf != 0), str(v))
                ob("a reused element leaves the free list, the rest stays", self.is_free(vc, s, av, z3.simplify(self.nf - 2)) if not vc.entails(s, self.nf == 1) else self.isnull(vc, s, av), str(av))
                ob("no link of the result is left", self.isnull(vc, s, self.field(vc, s, v, "previous")))
                self.check_pool(vc, s, nm)
            else:
                ob("the free list is not touched", self.is_free(vc, s, av, z3.simplify(self.nf - 1)), str(av))
                ob("no link of the result is set", all(self.isnull(vc, s, x) for q, off, x in w if off in (m["next"], m["previous"])), str(w))
                self.check_pool(vc, s, nm, v)
            return
        self.check_pool(vc, s, nm)
        if self.fn == "returnNode":
            if self.terminal is not None and vc.entails(s, self.terminal):
                ob("the terminal is never put on the free list", not w and self.is_free(vc, s, av, z3.simplify(self.nf - 1)), str(w))
                return
            if self.terminal is not None and not vc.entails(s, z3.Not(self.terminal)):
                ob("the terminal is never put on the free list", False)
                return
            node = SPtr(self, "node")
            ob("no other element is modified", all(q.kind == "node" for q, off, x in w), str(w))
            ob("the element becomes the head of the free list", isinstance(av, SPtr) and av.kind == "node" and av.off == 0, str(av))
            nx = next((x for q, off, x in reversed(w) if q.kind == "node" and off == m["next"]), None)
            ob("the old free list follows", nx is not None and self.is_free(vc, s, nx, z3.simplify(self.nf - 1)), str(nx))
            pv = next((x for q, off, x in reversed(w) if q.kind == "node" and off == m["previous"]), None)
            ob("the element has no link into a chain any more", pv is not None and self.isnull(vc, s, pv), str(pv))
            return
        # lookup, register_wo_lookup
        h = s.g["head"]
        if isinstance(v, SPtr) and v.kind == "chain" and v.off == 0 and self.fn == "lookup":
            i = v64(v.idx[0])
            ok = vc.th.prove_bool(s, z3.ULT(i, self.nc))
            ob("a stored node that is returned exists", ok, str(v))
            ob("a stored node that is returned equals the node looked up", vc.th.prove_bool(s, z3.Implies(i == self.K, self.EQ)), str(v))
            ob("the node that is not needed is returned to the pool", s.g["returned"] is True)
            ob("the chain is unchanged", self.is_chain(vc, s, h, z3.simplify(self.nc - 1)) and not w, f"{h} {w}")
            return
        ok = isinstance(v, SPtr) and v.kind == "node" and v.off == 0
        ob("the result is a stored node or the node looked up", ok, str(v))
        if not ok:
            return
        ob("the node that is stored has not been returned to the pool", s.g["returned"] is False)
        ob("free list is not touched", self.is_free(vc, s, av, z3.simplify(self.nf - 1)), str(av))
        if self.fn == "lookup":
            ob("a node is stored only if no stored node equals it", vc.th.prove_bool(s, z3.Implies(z3.ULT(self.K, self.nc), z3.Not(self.EQ))))
        ob("the node becomes the head of its chain", isinstance(h, SPtr) and h.kind == "node" and h.off == 0, str(h))
        pv = next((x for q, off, x in reversed(w) if q.kind == "node" and off == m["previous"]), NULL)
        ob("the old chain follows the node", self.is_chain(vc, s, pv, z3.simplify(self.nc - 1)), str(pv))
        ob("nothing else of the stored nodes changes than a forward link", all(off == m["next"] for q, off, x in w if q.kind != "node") and
           all(off in (m["next"], m["previous"]) for q, off, x in w if q.kind == "node"), str(w))

    # ---- called functions
    def returned(self, vc, st, p):
        ok = isinstance(p, SPtr) and p.kind == "node" and p.off == 0
        vc.oblige(st, "only the node looked up is returned to the pool", ok, str(p))
        if not ok:
            raise PathEnd("return")
        vc.oblige(st, "no node is returned twice", not st.g["returned"])
        st.g = {**st.g, "returned": True}

    def equal(self, vc, st, a, b):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, SPtr) and p.kind == "node" and isinstance(q, SPtr) and q.kind == "chain" and p.off == q.off and p.off in (0, self.lay(vc)["children"]):
                i = v64(q.idx[0])
                ok = vc.th.prove_bool(st, z3.ULT(i, self.nc))
                vc.oblige(st, "a stored node that is compared exists", ok, str(q))
                if not ok:
                    raise PathEnd("ub")
                return conc(z3.If(i == self.K, self.EQ, z3.Bool(st.sym("eq"))))
        raise Unsupported(f"comparison of {a} and {b}")

    def candidates(self, vc, st, info):
        out = []
        for oid, off in info.iters:
            def idx(s, oid=oid, off=off):
                v = s.mem[oid].cells[off][0]
                return v64(v.idx[0]) if isinstance(v, SPtr) and v.kind == "chain" else None
            out.append(loops.Cand("position within the chain", lambda vc, s, f=idx: None if f(s) is None else [B("", z3.And(f(s) >= -1, f(s) < self.nc))]))
            out.append(loops.Cand("the nodes passed differ from the node", lambda vc, s, f=idx: None if f(s) is None else
                                  [B("", z3.Implies(z3.And(self.K > f(s), z3.ULT(self.K, self.nc)), z3.Not(self.EQ)))], ("passed",)))
        return out

    def wanted(self, info):
        return [(("passed",), "the nodes passed")]

    def after_cut(self, vc, st, info):
        pass


def free_syms(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.num_args() == 0 and not z3.is_bv_value(x) and not z3.is_true(x) and not z3.is_false(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        todo += x.children()
    return out


class NodeEq(Contract):
    """operator== of nodes: same qubit and same children"""
    retk = None

    def __init__(self, k):
        self.k, self.T = k, k + "Node"
        self.name = self.tag = self.T + "::operator=="

    def matches(self, dem):
        return dem.startswith(f"{self.T}::operator==({self.T} const&) const")

    def apply(self, vc, st, vals, ins):
        if isinstance(vc.top, NodeStore):
            return vc.top.equal(vc, st, vals[0], vals[1])
        raise Unsupported("node comparison")

    def mk(self, vc, st, nm):
        T = vc.th
        vo, co, wo, no, es, nx, pv = T.lay[self.k]
        p = Ptr(st.new(co + es * T.nc[self.k] + 16, nm))
        v = z3.BitVec(nm + ".v", 32)
        st.mem[p.o].cells[vo] = (v, 4)
        ch = []
        for i in range(T.nc[self.k]):
            e = fresh_edge(T, st, self.k, f"{nm}[{i}]")
            T.reffacts(st, self.k, e.n.ref)
            vc.wr_edge(st, Ptr(p.o, co + es * i), (e.w, e.n))
            ch.append(e)
        return p, v, ch

    def verify1(self, vc, fnname):
        T = vc.th
        st = State()
        st.g = {**st.g, "levels": ()}
        vc.top, vc.loopcon = self, None
        a, va, ca = self.mk(vc, st, "a")
        b, vb, cb = self.mk(vc, st, "b")
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        vc.start_call(st, fnname, [a, b], None)
        seen = [0]

        def done(s, v, kind):
            seen[0] += 1
            r = v if z3.is_expr(v) else z3.BoolVal(bool(v))
            eqs = [va == vb]
            for x, y in zip(ca, cb):
                z = T.Zc(s, x.w - y.w)
                eqs += [x.n.ref == y.n.ref, z if z3.is_expr(z) else z3.BoolVal(bool(z))]
            ok = T.prove_bool(s, r == z3.And(*eqs))
            vc.oblige(s, f"{self.name}: nodes are equal exactly if the qubits and all children agree", ok, str(r)[:500])
        vc.run(st, done)
        if not seen[0]:
            vc.oblige(st, f"{self.name}: some path returns", False)
        return vc.results


class NodeHash(NodeEq):
    """std::hash of nodes: a function of qubit and children only (equal nodes have equal hashes)"""

    def __init__(self, k):
        self.k, self.T = k, k + "Node"
        self.name = self.tag = f"std::hash<{self.T}>"

    def matches(self, dem):
        return dem.startswith(f"std::hash<{self.T}>::operator()({self.T} const&) const")

    def apply(self, vc, st, vals, ins):
        p = vals[1]
        if isinstance(vc.top, NodeStore) and isinstance(p, SPtr) and p.kind == "node" and p.off == 0:
            return z3.BitVec("nodehash", 64)
        raise Unsupported("node hash")

    def verify1(self, vc, fnname):
        T = vc.th
        st = State()
        st.g = {**st.g, "levels": ()}
        vc.top, vc.loopcon = self, None
        a, va, ca = self.mk(vc, st, "a")
        # next and previous are unknown: they are given values the result must not depend on
        vo, co, wo, no, es, nx, pv = T.lay[self.k]
        for off, nm in ((nx, "next"), (pv, "previous")):
            if off is not None:
                st.mem[a.o].cells[off] = (NodePtr(self.k, z3.Const("a." + nm, T.Sort[self.k]), 0), 8)
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        vc.start_call(st, fnname, [Ptr(st.new(1, "hash")), a], None)
        seen = []

        def done(s, v, kind):
            fs = free_syms(v64(v))
            ok = not any("next" in x or "previous" in x or "!" in x and x.startswith("hash") for x in fs)
            vc.oblige(s, f"{self.name}: the hash depends on the contents of the node only", ok, str(fs)[:500])
            seen.append(1)
        vc.run(st, done)
        if not seen:
            vc.oblige(st, f"{self.name}: some path returns", False)
        return vc.results


# ------------------------------------------------------------------ memo tables: pool and clearing
class BucketPool(Pool):
    def __init__(self, cls, fn):
        self.cls, self.fn = cls, fn
        self.name = self.tag = f"{cls}::{fn}"

    def matches(self, dem):
        return dem.startswith(f"{self.cls}::{self.fn}()")

    def apply(self, vc, st, vals, ins):
        raise Unsupported(self.name)

    def ident(self):
        n = f"{len(self.cls)}{self.cls}"
        return self.cls, "_ZTS" + n, "c", f"_ZTSN{n}5CacheE"

    def esize(self, vc):
        return vc.mod.size(Ty("named", next(n for n in vc.mod.type_txt if n == f"struct.{self.cls}::Bucket")))

    def slots(self, vc):
        t = vc.mod.resolve(Ty("named", next(n for n in vc.mod.type_txt if n == f"struct.{self.cls}::Table")))
        return vc.mod.resolve(t.a[0]).a

    def stride(self, vc, kind, t):
        # vectors of tables and of rows of tables are walked by pointer
        return kind in ("tabs", "tab") and (t.k == "struct")

    def verify1(self, vc, fnname):
        vc.top, vc.loopcon = self, None
        vc.maxloop = 1 << 20
        st = State()
        this = self.setup_pool(vc, st)
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        vc.start_call(st, fnname, [this], None)
        cnt = [0]

        def done(s, v, kind):
            cnt[0] += 1
            nm = self.name + ": "
            if self.fn == "getBucket":
                ok = isinstance(v, SPtr) and v.kind == "elem" and v.off == 0
                vc.oblige(s, nm + "the result is an element of the pool", ok, str(v))
                vc.oblige(s, nm + "no element is modified", not s.g["writes"])
                if ok:
                    self.check_pool(vc, s, nm, v)
                return
            rows = NTAB[self.cls]
            done = set(s.g["cleared"])
            missing = [(r, l) for r in range(rows) for l in range(NQ) if (r, l) not in done]
            vc.oblige(s, nm + "every slot of every table of every operation is emptied", not missing, f"not emptied: {missing[:5]}")
            self.check_pool(vc, s, nm, "reset")
        vc.run(st, done)
        if not cnt[0]:
            vc.oblige(st, f"{self.name}: some path returns", False)
        return vc.results

    def load(self, vc, st, p, ty):
        raise Unsupported(f"load from {p}")


class VecG:
    """a temporary std::vector<T>(n) or an empty vector of chunks; outside: opaque"""

    def __init__(self, what, n):
        self.what, self.n = what, n


def top(vc):
    t = vc.top
    return t if isinstance(t, Pool) else None


def guard(h):
    def f(vc, st, vals, ins, dem):
        if top(vc) is None:
            return NotImplemented
        return h(vc.top, vc, st, vals, ins, dem)
    return f


def is_chunks(con, p):
    return isinstance(p, Ptr) and p.o == con.this.o and p.off == con.off["chunks"]


def h_emplace(con, vc, st, vals, ins, dem):
    if not is_chunks(con, vals[0]):
        raise Unsupported("emplace_back")
    a = vals[1] if len(vals) > 1 else None
    if re.search(r"emplace_back<unsigned long( const)?&?>|emplace_back<int", dem):
        con.add_chunk(vc, st, vc.ld(st, a, I64 if "long" in dem else I32))
    elif isinstance(a, Ptr) and isinstance(st.mem[a.o].ghost, VecG) and st.mem[a.o].ghost.what == "elems":
        con.add_chunk(vc, st, st.mem[a.o].ghost.n)
        st.wobj(a.o).ghost = VecG("elems", 0)
    else:
        raise Unsupported("emplace_back")
    return SPtr(con, "vec", z3.simplify(con.chunk_count(st) - 1))


def h_index(con, vc, st, vals, ins, dem):
    if not is_chunks(con, vals[0]):
        raise Unsupported("chunk index")
    i = v64(vals[1])
    ok = vc.th.prove_bool(st, z3.ULT(i, con.chunk_count(st)))
    vc.oblige(st, "chunk index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return SPtr(con, "vec", z3.simplify(i))


def h_back(con, vc, st, vals, ins, dem):
    if not is_chunks(con, vals[0]):
        raise Unsupported("chunks")
    n = con.chunk_count(st)
    if "::size()" in dem:
        return conc(n)
    if not vc.th.prove_bool(st, n != 0):
        vc.oblige(st, "chunk index is in range", False, vc.where(st))
        raise PathEnd("ub")
    return SPtr(con, "vec", z3.simplify(n - 1) if "::back()" in dem else c64(0))


def h_range(con, vc, st, vals, ins, dem):
    p = vals[0]
    if not isinstance(p, SPtr) or p.kind != "vec":
        raise Unsupported("element range")
    c = v64(p.idx[0])
    if "::size()" in dem:
        return conc(SIZE(c))
    return SPtr(con, "elem", p.idx[0], c64(0) if "::begin()" in dem or "::data()" in dem or "cbegin" in dem else SIZE(c))


def h_elem(con, vc, st, vals, ins, dem):
    p = vals[0]
    if not isinstance(p, SPtr) or p.kind != "vec":
        raise Unsupported("element")
    return SPtr(con, "elem", p.idx[0], v64(vals[1]))


def h_vec_ctor(con, vc, st, vals, ins, dem):
    p = vals[0]
    if not isinstance(p, Ptr) or p.off:
        raise Unsupported("vector")
    st.wobj(p.o).ghost = VecG("elems", vals[1])
    return None


def h_vecs_ctor(con, vc, st, vals, ins, dem):
    p = vals[0]
    if not isinstance(p, Ptr) or p.off or is_chunks(con, p):
        raise Unsupported("vector")
    st.wobj(p.o).ghost = VecG("chunks", 0)
    return None


def h_swap(con, vc, st, vals, ins, dem):
    a, b = vals[0], vals[1]
    if is_chunks(con, a):
        a, b = b, a
    if not is_chunks(con, b) or not isinstance(a, Ptr) or not isinstance(st.mem[a.o].ghost, VecG) or st.mem[a.o].ghost.what != "chunks" or st.mem[a.o].ghost.n != 0:
        raise Unsupported("swap")
    st.wobj(a.o).ghost = VecG("chunks", "old")
    st.g = {**st.g, "nchunks": c64(0), "epoch": st.g.get("epoch", 0) + 1}
    reset_sizes(con, vc, st)
    return None


def h_clear(con, vc, st, vals, ins, dem):
    if not is_chunks(con, vals[0]):
        raise Unsupported("clear")
    st.g = {**st.g, "nchunks": c64(0), "epoch": st.g.get("epoch", 0) + 1}
    reset_sizes(con, vc, st)
    return None


def reset_sizes(con, vc, st):
    """the chunk sizes of the old chunks say nothing about the new ones: cursor fields and facts about SIZE are forgotten"""
    st.pc[:] = [c for c in st.pc if "chunksize" not in str(c)]
    for k in ("chunkIt", "chunkEndIt"):
        st.wobj(con.this.o).cells[con.off[k]] = (UNDEF, 8)


def h_dtor(con, vc, st, vals, ins, dem):
    p = vals[0]
    if isinstance(p, Ptr) and p.o in st.mem and isinstance(st.mem[p.o].ghost, VecG):
        return None
    raise Unsupported("vector destructor")


def is_tables(con, p):
    return isinstance(p, Ptr) and p.o == con.this.o and p.off == con.f.get("_tables")


def h_rows(con, vc, st, vals, ins, dem):
    if not isinstance(con, BucketPool) or not is_tables(con, vals[0]):
        raise Unsupported("tables")
    n = NTAB[con.cls]
    if "::size()" in dem:
        return n
    return SPtr(con, "tabs", 0 if "begin()" in dem else n)


def h_rows_at(con, vc, st, vals, ins, dem):
    if not isinstance(con, BucketPool) or not is_tables(con, vals[0]):
        raise Unsupported("tables")
    i = vc.concretize(st, vals[1], 64)
    ok = i < NTAB[con.cls]
    vc.oblige(st, "operation table index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return SPtr(con, "tabs", i)


def h_row(con, vc, st, vals, ins, dem):
    p = vals[0]
    if not isinstance(p, SPtr) or p.kind != "tabs" or p.off:
        raise Unsupported("tables")
    if not isinstance(p.idx[0], int) or not 0 <= p.idx[0] < NTAB[con.cls]:
        vc.oblige(st, "operation table index is in range", False, vc.where(st))
        raise PathEnd("ub")
    if "::size()" in dem:
        return NQ
    return SPtr(con, "tab", p.idx[0], 0 if "begin()" in dem else NQ)


def h_row_at(con, vc, st, vals, ins, dem):
    p = vals[0]
    if isinstance(con, NodeStore):
        if not is_tables(con, p):
            raise Unsupported("tables")
        ok = vc.th.prove_bool(st, z3.ULT(v64(vals[1]), NQ))
        row = 0
    else:
        if not isinstance(p, SPtr) or p.kind != "tabs":
            raise Unsupported("tables")
        row = p.idx[0]
        ok = vc.th.prove_bool(st, z3.ULT(v64(vals[1]), NQ))
    vc.oblige(st, "table row index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return SPtr(con, "tab", row, vals[1] if isinstance(vals[1], int) else z3.simplify(v64(vals[1])))


def h_ret(con, vc, st, vals, ins, dem):
    if isinstance(con, NodeStore) and con.fn != "returnNode":
        con.returned(vc, st, vals[1])
        return None
    return NotImplemented


def h_eq(con, vc, st, vals, ins, dem):
    if not isinstance(con, NodeStore):
        return NotImplemented
    a = vals[-2:]
    return con.equal(vc, st, a[0], a[1])


def h_hashd(vc, st, vals, ins, dem):
    if not isinstance(vc.top, NodeHash):
        return NotImplemented
    return z3.BitVec("H(" + str(vals[1]) + ")", 64)


def h_hashsz(vc, st, vals, ins, dem):
    if not isinstance(vc.top, NodeHash):
        return NotImplemented
    return v64(vals[1])


def store_contracts():
    out = [NodeStore(f, k) for k in "mv" for f in ("getNode", "returnNode", "lookup", "register_wo_lookup")]
    out += [NodeEq(k) for k in "mv"] + [NodeHash(k) for k in "mv"]
    out += [BucketPool(c, f) for c in ("AddCache", "MulCache") for f in ("getBucket", "clearAll")]
    return out


ELEM = r"(mNode|vNode|AddCache::Bucket|MulCache::Bucket)"
VE = r"std::vector<%s, std::allocator<\w+(::\w+)?> ?>" % ELEM
VVE = r"std::vector<" + VE + r", std::allocator<" + VE + r" ?> ?>"
TAB = r"std::vector<[^()]*::Table, std::allocator<[^()]*::Table> ?>"
VT = r"std::vector<std::vector<(Add|Mul)Cache::Table, .*> > >"
VT1 = r"std::vector<(Add|Mul)Cache::Table, std::allocator<(Add|Mul)Cache::Table> ?>"
VT0 = r"std::vector<CHashTable<.*>::Table, std::allocator<CHashTable<.*>::Table> ?>"


def store_lib():
    v = "std::vector: chunks keep their elements in place when chunks are added"
    t = "std::vector indexing and iteration"
    return [
        (r"(.*[&>] )?" + VVE + r"::emplace_back<", guard(h_emplace), v),
        (VVE + r"::(operator\[\]|at)\(unsigned long\)$", guard(h_index), v),
        (VVE + r"::(back|front|size)\(\)( const)?$", guard(h_back), v),
        (VVE + r"::vector\(\)$", guard(h_vecs_ctor), ""),
        (VVE + r"::swap\(", guard(h_swap), v),
        (VVE + r"::clear\(\)$", guard(h_clear), v),
        (VVE + r"::~vector\(\)$", guard(h_dtor), ""),
        (VE + r"::(begin|end|cbegin|cend|data|size)\(\)( const)?$", guard(h_range), t),
        (VE + r"::(operator\[\]|at)\(unsigned long\)$", guard(h_elem), t),
        (VE + r"::vector\(unsigned long, ", guard(h_vec_ctor), "std::vector(n): n default-constructed elements"),
        (VE + r"::~vector\(\)$", guard(h_dtor), ""),
        (VT + r"::(begin|end|size)\(\)( const)?$", guard(h_rows), t),
        (VT + r"::(operator\[\]|at)\(unsigned long\)$", guard(h_rows_at), t),
        (VT1 + r"::(begin|end|size)\(\)( const)?$", guard(h_row), t),
        (VT1 + r"::(operator\[\]|at)\(unsigned long\)$", guard(h_row_at), t),
        (VT0 + r"::(operator\[\]|at)\(unsigned long\)$", guard(h_row_at), t),
        (r"CHashTable<.*>::returnNode\(", guard(h_ret), ""),
        (r"std::equal_to<[mv]Node>::operator\(\)\(", guard(h_eq), ""),
        (r"(bool )?std::operator==<[mv]Edge, \d+u?l?>\(std::array", guard(h_eq), ""),
        (r"std::hash<double>::operator\(\)\(", h_hashd, "std::hash<double> is a function of the value"),
        (r"std::hash<unsigned long>::operator\(\)\(", h_hashsz, "std::hash<size_t> is the identity"),
    ]
