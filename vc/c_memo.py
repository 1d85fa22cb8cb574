"""Memo tables (C05): bodies of AddCache/MulCache find and set against the table invariant

    every valid entry of the table of operation O holds two operands and a result that was stored for exactly these operands by set<O>.

The value stored is opaque here (that it denotes the operation is the obligation of the callers of set, see CacheSet): find returns nothing but a
value stored for the operands it is asked for, set changes one entry, as a whole, of the right table."""
import re
import z3
from ir import Unsupported, I32, PTR, Ty, DBL
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, State
from theory import E, NQ
from contract import *

I64, I8 = Ty("i", 64), Ty("i", 8)
NTAB = {"AddCache": 2, "MulCache": 3}


class LazyG:
    """an object of which nothing is known"""
    lazy = True

    def fresh(self, vc, st, oid, off, ty):
        nm = f"init!{oid}!{off}"
        if ty.k == "i":
            return z3.BitVec(nm, ty.a) if ty.a != 1 else z3.Bool(nm)
        if ty.k == "double":
            return Poly.atom(Atoms.get(nm, (), "real"))
        raise Unsupported("field of unknown value")


class TabPtr:
    """pointer into the tables: row = operation table, lv = qubit, key = slot (None: not reached yet)"""

    def __init__(self, con, row, lv=None, key=None):
        self.con, self.row, self.lv, self.key = con, row, lv, key

    def gepidx(self, vc, st, ty, idx, ityps):
        if self.lv is None:
            raise Unsupported("table row")
        t = vc.mod.resolve(ty)
        key = self.key
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if n == 0:
                if key is not None and t.k == "ptr":
                    key = conc(v64(key) + (z3.SignExt(64 - it.a, bv(i, it.a)) if it.a < 64 else bv(i, 64)))
                elif not isinstance(i, int) or i != 0:
                    raise Unsupported("table pointer arithmetic")
            elif t.k == "struct":
                if i != 0:
                    raise Unsupported("table field")
                t = vc.mod.resolve(t.a[0])
            elif t.k == "arr":
                key = conc(v64(i) if it.a == 64 else z3.SignExt(64 - it.a, bv(i, it.a)))
                self.bound = t.a
                t = vc.mod.resolve(t.b)
            else:
                raise Unsupported("table pointer")
        p = TabPtr(self.con, self.row, self.lv, key)
        p.bound = getattr(self, "bound", None)
        return p

    def gepc(self, d):
        if d:
            raise Unsupported("table pointer")
        return self

    def chk(self, vc, st, ty):
        if self.key is None or ty.k != "ptr" or self.bound is None:
            raise Unsupported("table access")
        ok = vc.th.prove_bool(st, z3.ULT(v64(self.key), self.bound))
        vc.oblige(st, "slot index is in range", ok, vc.where(st))
        if not ok:
            raise PathEnd("ub")

    def load(self, vc, st, ty):
        self.chk(vc, st, ty)
        return self.con.slot(vc, st, self)

    def store(self, vc, st, v, ty):
        self.chk(vc, st, ty)
        self.con.slot_store(vc, st, self, v)

    def same(self, vc, st, o):
        if isinstance(o, Ptr) and o.o == 0:
            return False
        raise Unsupported("table pointer comparison")


def v64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def addr(T, k, ref, st):
    """address of a node; different nodes have different addresses, none is null"""
    f = z3.Function("addr_" + k, T.Sort[k], z3.BitVecSort(64))
    g = z3.Function("unaddr_" + k, z3.BitVecSort(64), T.Sort[k])
    a = f(ref)
    st.assume(g(a) == ref, a != 0)
    return a


class Memo(Contract):
    """find and set of one cache class, all instantiations"""
    retk = "sret"

    def __init__(self, cls):
        self.cls = cls
        self.name = self.tag = cls
        self.rows = {}

    def matches(self, dem):
        h, ps = split_params(dem)
        return re.search(r"\b%s::(find|set)<" % self.cls, h) is not None and "Entry" not in dem and "unsigned long&" not in dem

    def apply(self, vc, st, vals, ins):
        raise Unsupported("memo table call inside the memo table")

    # ---- the tables
    def slot(self, vc, st, p):
        for row, lv, key, val in st.g.get("slots", ()):
            if row == p.row and lv.eq(p.lv) and (v64(key).eq(v64(p.key)) or vc.entails(st, v64(key) == v64(p.key))):
                return val
            if row == p.row and vc.feasible(st, z3.And(lv == p.lv, v64(key) == v64(p.key))):
                raise Unsupported("two slots that may be the same")
        null = vc.decide(st, z3.Bool(f"emptyslot!{len(st.g.get('slots', ()))}"))
        val = NULL if null else self.bucket(vc, st, p)
        st.g = {**st.g, "slots": st.g.get("slots", ()) + ((p.row, p.lv, p.key, val),)}
        return val

    def slot_store(self, vc, st, p, v):
        self.slot(vc, st, p)
        out = []
        for row, lv, key, val in st.g["slots"]:
            if row == p.row and lv.eq(p.lv) and v64(key).eq(v64(p.key)):
                if not isinstance(v, Ptr) or v.off != 0 or v.o and v.o not in st.g.get("freshb", ()):
                    vc.oblige(st, "a slot receives a new bucket", False, f"{vc.where(st)}: {v}")
                    raise PathEnd("slot")
                if v.o:
                    st.g = {**st.g, "freshb": tuple(x for x in st.g["freshb"] if x != v.o)}
                    vc.oblige(st, "a slot receives a new bucket", True)
                val = v
            out.append((row, lv, key, val))
        st.g = {**st.g, "slots": tuple(out)}

    def layout(self, vc):
        m = vc.mod
        n = str(len(self.cls))
        b = m.dbg_members("Bucket", f"_ZTSN{n}{self.cls}6BucketE")
        e = m.dbg_members("Entry", f"_ZTSN{n}{self.cls}5EntryE")
        need = {"lhs", "rhs", "result", "valid"}
        if not need <= set(e) or len(b) != 1:
            raise Unsupported("entry layout")
        return next(iter(b.values())), e

    def bucket(self, vc, st, p):
        """an arbitrary bucket of the table that satisfies the invariant"""
        T = vc.th
        base, f = self.layout(vc)
        oid = st.new(self.bsize(vc), "bucket")
        o = st.wobj(oid)
        ents = []
        n, es = self.entries(vc)
        # every entry is empty or valid; fork on which
        combo = []
        for i in range(n):
            combo.append(vc.decide(st, z3.Bool(f"valid!{oid}!{i}")))
        for i in range(n):
            b = base + i * es
            valid = combo[i]
            nm = f"e!{oid}!{i}"
            x, y = self.operand(vc, st, oid, b + f["lhs"], 0, nm + ".l", valid), self.operand(vc, st, oid, b + f["rhs"], 1, nm + ".r", valid)
            rk = self.kinds[2]
            o = st.wobj(oid)
            r = fresh_edge(T, st, rk, nm + ".res")
            if valid:
                T.reffacts(st, rk, r.n.ref)
            vc.wr_edge(st, Ptr(oid, b + f["result"]), (r.w, r.n if valid else NULL))
            o = st.wobj(oid)
            o.cells[b + f["valid"]] = (1 if valid else 0, 1)
            for k, off in f.items():
                if k not in ("lhs", "rhs", "result", "valid"):
                    if k != "picked":
                        raise Unsupported("entry field " + k)
                    o.cells[b + off] = (z3.BitVec(nm + ".picked", 32), 4)
            ents.append((valid, x, y, r))
        st.g = {**st.g, "buckets": st.g.get("buckets", ()) + ((oid, tuple(ents)),)}
        return Ptr(oid)

    def operand(self, vc, st, oid, off, which, nm, valid):
        T = vc.th
        k = self.kinds[which]
        if self.cls == "MulCache":
            ref = z3.Const(nm, T.Sort[k])
            if not valid:
                st.wobj(oid).cells[off] = (z3.BitVec(nm + ".bits", 64), 8)
                return None
            T.reffacts(st, k, ref)
            st.wobj(oid).cells[off] = (addr(T, k, ref, st), 8)
            return ref
        e = fresh_edge(T, st, k, nm)
        if valid:
            T.reffacts(st, k, e.n.ref)
        vc.wr_edge(st, Ptr(oid, off), (e.w, e.n if valid else NULL))
        return e if valid else None

    def bsize(self, vc):
        n, es = self.entries(vc)
        base, f = self.layout(vc)
        return base + n * es + 512

    def entries(self, vc):
        """number and size of the entries of a bucket"""
        m = vc.mod
        nm = next((n for n in m.type_txt if re.match(r"(struct|class)\.%s::Bucket$" % self.cls, n)), None)
        if nm is None:
            raise Unsupported("bucket type")
        t = m.resolve(Ty("named", nm))
        for x in t.a:
            x0 = m.resolve(x)
            if x0.k == "struct":
                return 1, m.size(x0)
            if x0.k == "arr" and m.resolve(x0.b).k == "struct":
                return x0.a, m.size(x0.b)
        raise Unsupported("bucket type")

    # ---- functions
    def verify1(self, vc, fnname):
        T = vc.th
        m = vc.mod
        fn = m.fn(fnname)
        dem = vc.demangled(fnname)
        h, ps = split_params(dem)
        find = f"{self.cls}::find<" in h
        pos = [norm_ty(p) for p in ps]
        if self.cls == "MulCache":
            ks = [p[0] for p in pos[:2]]
            if any(p not in ("mNode const*", "vNode const*") for p in pos[:2]):
                raise Unsupported("operands")
            kr = "v" if ks[1] == "v" else "m"
        else:
            ks = [p[0] for p in pos[:2]]
            kr = ks[0]
        self.kinds = (ks[0], ks[1], kr)
        op = "x".join(ks)
        st = State()
        T.classes = getattr(T, "classes", {})
        this = Ptr(st.new(None, "this"))
        st.mem[this.o].ghost = LazyG()
        st.g = {**st.g, "levels": ()}
        vals = []
        ret = None
        if find:
            ret = Ptr(st.new(24, "result"))
            vals.append(ret)
        vals.append(this)
        ops = []
        for i, k in enumerate(ks):
            if self.cls == "MulCache":
                ref = z3.Const(f"a{i}", T.Sort[k])
                T.reffacts(st, k, ref)
                addr(T, k, ref, st)
                ops.append(ref)
                vals.append(NodePtr(k, ref, 0))
            else:
                e = fresh_edge(T, st, k, f"a{i}")
                T.reffacts(st, k, e.n.ref)
                ops.append(e)
                vals.append(new_edge_obj(vc, st, e, f"a{i}"))
        if not find:
            res = fresh_edge(T, st, kr, "res")
            T.reffacts(st, kr, res.n.ref)
            vals.append(new_edge_obj(vc, st, res, "res"))
        if self.cls == "MulCache":
            cond = T.var[ks[0]](ops[0]) >= 0
        else:
            cond = z3.Or(*[T.var[k](e.n.ref) >= 0 for k, e in zip(ks, ops)])
        st.assume(cond)
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        vc.top, vc.loopcon = self, None
        self.this = this
        vc.start_call(st, fnname, vals, None)
        seen = [0]

        def same_operands(s, a, b):
            if self.cls == "MulCache":
                return T.prove_bool(s, a == b)
            return T.prove_bool(s, a.n.ref == b.n.ref) and T.prove_zero(s, a.w - b.w)

        def matches(s, x, y):
            if same_operands(s, x, ops[0]) and same_operands(s, y, ops[1]):
                return True
            return self.cls == "AddCache" and same_operands(s, x, ops[1]) and same_operands(s, y, ops[0])

        def done(s, v, kind):
            seen[0] += 1
            nm = f"{self.cls}::{'find' if find else 'set'} ({op}): "
            used = {row for row, lv, key, val in s.g.get("slots", ())}
            for row in used:
                first = self.rows.setdefault(op, row)
                vc.oblige(s, nm + "find and set of an operation use the same table", first == row, f"{first} and {row}")
                vc.oblige(s, nm + "different operations use different tables", all(r != row for o, r in self.rows.items() if o != op), str(self.rows))
            if find:
                w, n = vc.rd_edge(s, ret)
                if not (isinstance(n, Ptr) and n.o == 0):
                    ok = False
                    if isinstance(n, NodePtr) and n.off == 0:
                        for oid, ents in s.g.get("buckets", ()):
                            for valid, x, y, r in ents:
                                if valid and r.n.k == n.k and T.prove_bool(s, n.ref == r.n.ref) and T.prove_zero(s, w - r.w):
                                    ok = ok or matches(s, x, y)
                    vc.oblige(s, nm + "a hit is a result stored for exactly these operands", ok, f"returned ({w}, {n})")
                else:
                    vc.oblige(s, nm + "a miss is the null edge", True)
            self.check_tables(vc, s, nm, None if find else (ops, res), matches)
        vc.run(st, done)
        if not seen[0]:
            vc.oblige(st, f"{self.name}: some path returns", False)
        return vc.results

    def check_tables(self, vc, s, nm, stored, matches):
        T = vc.th
        base, f = self.layout(vc)
        n, es = self.entries(vc)
        old = dict(s.g.get("buckets", ()))
        wrote = 0
        for row, lv, key, val in s.g.get("slots", ()):
            if val.o == 0:
                continue
            ents = old.get(val.o)
            for i in range(n):
                b = base + i * es
                valid = vc.ld(s, Ptr(val.o, b + f["valid"]), I8)
                if isinstance(valid, bool):
                    valid = int(valid)
                if not isinstance(valid, int):
                    raise Unsupported("entry state")
                w, nd = vc.rd_edge(s, Ptr(val.o, b + f["result"]))
                empty = isinstance(nd, Ptr) and nd.o == 0
                if not valid & 1:
                    vc.oblige(s, nm + "an entry that is not valid has no result", empty, str(nd))
                    continue
                try:
                    x, y = self.rd_operand(vc, s, Ptr(val.o, b + f["lhs"]), 0), self.rd_operand(vc, s, Ptr(val.o, b + f["rhs"]), 1)
                except Unsupported as ex:
                    vc.oblige(s, nm + "a valid entry keeps two operands and the result stored for them", False, str(ex))
                    continue
                ok = False
                if isinstance(nd, NodePtr) and nd.off == 0:
                    if ents is not None and ents[i][0]:
                        _, ox, oy, r = ents[i]
                        ok = self.eqop(vc, s, x, ox) and self.eqop(vc, s, y, oy) and nd.k == r.n.k and T.prove_bool(s, nd.ref == r.n.ref) and T.prove_zero(s, w - r.w)
                    if not ok and stored is not None:
                        ops, res = stored
                        ok = nd.k == res.n.k and T.prove_bool(s, nd.ref == res.n.ref) and T.prove_zero(s, w - res.w) and matches(s, x, y)
                        wrote += ok
                vc.oblige(s, nm + "a valid entry keeps two operands and the result stored for them", ok, f"entry {i}: lhs {x} rhs {y} result ({w}, {nd})")

    def rd_operand(self, vc, s, p, which):
        k = self.kinds[which]
        if self.cls == "MulCache":
            v = vc.ld(s, p, I64)
            if z3.is_expr(v) and v.num_args() == 1 and v.decl().name() == "addr_" + k:
                return v.arg(0)
            raise Unsupported(f"operand field holds {v}")
        w, n = vc.rd_edge(s, p)
        if not isinstance(n, NodePtr) or n.k != k or n.off:
            raise Unsupported(f"operand field holds {n}")
        return E(k, w, n)

    def eqop(self, vc, s, a, b):
        T = vc.th
        if self.cls == "MulCache":
            return T.prove_bool(s, a == b)
        return T.prove_bool(s, a.n.ref == b.n.ref) and T.prove_zero(s, a.w - b.w)


class GetBucket(Contract):
    """unused, zeroed memory, constructed"""
    retk = None

    def __init__(self, cls):
        self.cls, self.name = cls, "getBucket of " + cls

    def matches(self, dem):
        return dem.startswith(self.cls + "::getBucket()")

    def apply(self, vc, st, vals, ins):
        m = vc.top
        if not isinstance(m, Memo):
            raise Unsupported("getBucket")
        size = m.bsize(vc)
        p = Ptr(st.new(size, "new bucket"))
        st.wobj(p.o).zero.append((0, size))
        # the compiler's constructor of Bucket, run on zeroed memory
        ctor = next((f for f in vc.mod.fn_span if vc.demangled(f).endswith(f"{self.cls}::Bucket::Bucket()")), None)
        if ctor is None:
            raise Unsupported("bucket constructor")
        s = st.copy()
        s.frames = []
        got = []
        saved = vc.results
        vc.results = []
        vc.start_call(s, ctor, [p], None)
        vc.run(s, lambda x, v, k: got.append(x))
        bad = [r for r in vc.results if r[1] != "ok"]
        vc.results = saved
        if len(got) != 1 or bad:
            raise Unsupported("bucket constructor")
        st.mem[p.o] = got[0].mem[p.o]
        st.g = {**st.g, "freshb": st.g.get("freshb", ()) + (p.o,)}
        vc.trusted.add("elements of a new std::vector are value-initialised (zeroed, then constructed)")
        return p


def tables_at(vc, st, vals, ins, dem):
    m = vc.top
    cls = re.search(r"(AddCache|MulCache)::Table", dem).group(1)
    if not isinstance(m, Memo) or cls != m.cls or not isinstance(vals[0], Ptr) or vals[0].o != m.this.o:
        raise Unsupported("tables")
    off = vc.mod.dbg_members(cls, f"_ZTS{len(cls)}{cls}").get("_tables")
    if vals[0].off != off:
        raise Unsupported("tables")
    i = vc.concretize(st, vals[1], 64)
    ok = i < NTAB[cls]
    vc.oblige(st, "operation table index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return TabPtr(m, i)


def table_at(vc, st, vals, ins, dem):
    t = vals[0]
    if not isinstance(t, TabPtr) or t.lv is not None:
        raise Unsupported("table")
    lv = v64(vals[1])
    ok = vc.th.prove_bool(st, z3.ULT(lv, NQ))
    vc.oblige(st, "table row index is in range", ok, vc.where(st))
    if not ok:
        raise PathEnd("ub")
    return TabPtr(t.con, t.row, z3.simplify(lv))


def havoc64(vc, st, vals, ins, dem):
    if not isinstance(vc.top, Memo):
        return NotImplemented
    return z3.BitVec(st.sym("hash"), 64)


def memo_contracts():
    return [Memo("AddCache"), Memo("MulCache"), GetBucket("AddCache"), GetBucket("MulCache")]


def memo_lib():
    V = r"std::vector<"
    return [
        (V + V + r"(Add|Mul)Cache::Table.*> > >::(operator\[\]|at)\(unsigned long\)$", tables_at, "std::vector indexing"),
        (V + r"(Add|Mul)Cache::Table, std::allocator<(Add|Mul)Cache::Table> ?>::(operator\[\]|at)\(unsigned long\)$", table_at, "std::vector indexing"),
        (r"(unsigned long )?murmur_hash\(unsigned long\)$", havoc64, "hash functions may return anything"),
        (r"hash_combine\(", havoc64, "hash functions may return anything"),
        (r"std::hash<.*>::operator\(\)\(", havoc64, "hash functions may return anything"),
    ]
