"""Contracts of the diagram core: Complex predicates, node store interface, makeMEdge/makeVEdge, add/multiply/kronecker,
memo-table interface."""
import re
import z3
from ir import Unsupported
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, UNDEF
from theory import E, NQ
from contract import *

sle = lambda a, b: a <= b


def smax(a, b):
    return z3.If(a >= b, a, b)


# ------------------------------------------------------------------ Complex predicates (contracts proved under C24)
def cz(vc, st, vals, ins, dem):
    return vc.th.Zc(st, vc.rd_complex(st, vals[0]))


def cone(vc, st, vals, ins, dem):
    return vc.th.Zc(st, vc.rd_complex(st, vals[0]) - ONE)


def ceq(vc, st, vals, ins, dem):
    return vc.th.Zc(st, vc.rd_complex(st, vals[0]) - vc.rd_complex(st, vals[1]))


# ------------------------------------------------------------------ node store interface (contracts discharged under C06)
def get_node(vc, st, vals, ins, dem):
    k = "m" if "mNode" in dem else "v"
    vo, co, wo, no, es, nx, pv = vc.th.lay[k]
    size = co + es * vc.th.nc[k] + 16
    p = Ptr(st.new(size, "fresh " + k + "Node"))
    if nx is not None:
        st.wobj(p.o).cells[nx] = (NULL, 8)
    vc.trusted.add("CHashTable::getNode returns unused memory (C06)")
    return p


def return_node(vc, st, vals, ins, dem):
    p = vals[1]
    if isinstance(p, NodePtr):
        vc.oblige(st, "returnNode is only called on an unregistered node", p.k == "m" and vc.th.prove_bool(st, p.ref == vc.th.T[p.k]), vc.where(st))
        return None
    if not isinstance(p, Ptr) or p.o == 0:
        vc.oblige(st, "returnNode is only called on an unregistered node", False, str(p))
        return None
    st.wobj(p.o).dead = True
    return None


def read_fresh(vc, st, p):
    from ir import I32
    T = vc.th
    name = st.mem[p.o].name
    k = "m" if "mNode" in name else "v"
    vo, co, wo, no, es, nx, pv = T.lay[k]
    v = vc.ld(st, Ptr(p.o, vo), I32)
    ch = []
    for i in range(T.nc[k]):
        w, n = vc.rd_edge(st, Ptr(p.o, co + es * i))
        ch.append(E(k, w, n))
    return k, v, ch


def lookup(vc, st, vals, ins, dem):
    """CHashTable::lookup: registers the node, returns the registered node with the same qubit and children"""
    T = vc.th
    p = vals[1]
    where = vc.where(st)
    if not isinstance(p, Ptr) or p.o == 0 or p.off != 0 or "fresh" not in st.mem[p.o].name:
        vc.oblige(st, "lookup is given an unregistered node", False, f"{where}: {p}")
        raise PathEnd("bad lookup")
    k, v, ch = read_fresh(vc, st, p)
    for e in ch:
        check_edge(vc, st, e, where)
    v = v if z3.is_expr(v) else z3.BitVecVal(v, 32)
    pre = "node registered at " + basename(vc.demangled(st.frames[-1].fn.name)) + ": "
    var = T.var[k]
    zs = [T.Zc(st, e.w) for e in ch]
    zs = [z if z3.is_expr(z) else z3.BoolVal(z) for z in zs]
    prove_clause(vc, st, B("qubit within range", z3.And(v >= 0, v < NQ)), pre)
    for i, e in enumerate(ch):
        prove_clause(vc, st, B(f"child {i} is below the node", var(e.n.ref) < v), pre)
        prove_clause(vc, st, B(f"child {i} of weight zero is the zero edge", z3.Implies(zs[i], e.n.ref == T.T[k])), pre)
        if k == "v":
            prove_clause(vc, st, B(f"child {i} is on the next lower qubit or zero",
                                   z3.And(z3.Or(e.n.ref == T.T[k], var(e.n.ref) == v - 1),
                                          z3.Implies(z3.And(e.n.ref == T.T[k], v >= 1), zs[i]))), pre)
    # normal form: some weight is exactly one, none is larger
    one = [e.w == ONE for e in ch]
    okone = any(one) or any(T.prove_zero(st, e.w - ONE) for e in ch)
    vc.oblige(st, pre + "the largest weight is exactly one", okone, str([str(e.w) for e in ch]))
    for i, e in enumerate(ch):
        big = T.Lt(st, ONE, e.w * e.w.conj())
        big = big if z3.is_expr(big) else z3.BoolVal(big)
        prove_clause(vc, st, B(f"weight {i} is at most one in magnitude", z3.Not(big)), pre)
    if k == "m":
        same = T.Zc(st, ch[0].w - ch[3].w)
        same = same if z3.is_expr(same) else z3.BoolVal(same)
        prove_clause(vc, st, B("a node that is the identity on its qubit is not stored",
                               z3.Not(z3.And(ch[0].n.ref == ch[3].n.ref, zs[1], zs[2], same))), pre)
    ref = z3.Const(st.sym("node"), T.Sort[k])
    T.reffacts(st, k, ref)
    st.assume(ref != T.T[k], var(ref) == v)
    for i, e in enumerate(ch):
        st.assume(T.cn[k][i](ref) == e.n.ref)
        z = T.zcw[k][i](ref)
        st.assume(z == zs[i])
        cw = T.cw(k, i, ref)
        T.add_eq(st, cw - e.w, cw)
    T.mat(st, k, ref)
    st.wobj(p.o).dead = True
    vc.trusted.add("CHashTable::lookup returns the stored node with equal qubit and children (C06)")
    return NodePtr(k, ref, 0)


# ------------------------------------------------------------------ building a node
class MakeEdge(Contract):
    def __init__(self, k):
        self.k, self.retk = k, k
        self.name = "makeMEdge" if k == "m" else "makeVEdge"
        self.value_determined = True

    def requires(self, T, st, a):
        q, cs = a[0].val, a[1].val
        q = q if z3.is_expr(q) else z3.BitVecVal(q, 32)
        out = [B("qubit within range", z3.And(q >= 0, q < NQ))]
        for i, e in enumerate(cs):
            ok = T.valid(e, q - 1)
            if self.k == "v":
                ok = z3.Or(ok, T.Zraw(e.w))
            out.append(B(f"part {i} is a diagram on the qubits below", ok))
        return out

    def levels(self, T, a):
        return (a[0].val,)

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, self.k, "mk")

    def ensures(self, T, st, a, r):
        q, cs = a[0].val, a[1].val
        q = q if z3.is_expr(q) else z3.BitVecVal(q, 32)
        out = [B("result is a diagram on qubits 0..q", T.valid(r, q))]
        rb, cb = T.rb(T.lv(q)), T.cb(T.lv(q))
        lead = r.w * T.D(self.k, r.n.ref, q)
        for i, e in enumerate(cs):
            if self.k == "m":
                g = z3.And(rb == bool(i >> 1), cb == bool(i & 1))
            else:
                g = rb == bool(i)
            out.append(Q(f"block {i} of the result is part {i}", T.ent(r, q) - T.ent(e, q - 1), lead, q, g))
        out.append(B("parts that are all zero give the zero edge", z3.Implies(z3.And(*[T.Z(st, e.w) for e in cs]), T.Z(st, r.w) if self.k == "m" else z3.And(T.Z(st, r.w), r.n.ref == T.T["v"]))))
        if self.k == "m":
            c0, c3 = cs[0], cs[3]
            z1, z2 = T.Zraw(cs[1].w), T.Zraw(cs[2].w)
            v = T.var["m"]
            mx = smax(v(c0.n.ref), v(c3.n.ref))
            if self.mode == "assume":
                # canonicity lemma: diagrams with the same entries are the same node and weight, so the stripping
                # condition in the code holds whenever the two diagonal parts denote the same operator
                vc = T.vc
                if T.prove_bool(st, z3.And(z1, z2)) and T.prove_zero(st, T.ent(c0, q - 1) - T.ent(c3, q - 1)):
                    out.append(B("identity on the new qubit is stripped", v(r.n.ref) <= mx))
            else:
                same = T.Zc(st, c0.w - c3.w)
                same = same if z3.is_expr(same) else z3.BoolVal(same)
                z0 = T.Zraw(c0.w)
                out.append(B("identity on the new qubit is stripped",
                             z3.Implies(z3.And(z1, z2, same, z3.Or(z0, c0.n.ref == c3.n.ref)), v(r.n.ref) <= mx)))
        return out

    mode = "prove"

    def assume_post(self, vc, st, args, r):
        self.mode = "assume"
        try:
            super().assume_post(vc, st, args, r)
        finally:
            self.mode = "prove"


# ------------------------------------------------------------------ memo tables, seen from their users
class CacheFind(Contract):
    """Mul/Add cache find: a miss (null node) or a result valid for exactly these operands"""

    def __init__(self, cls):
        self.cls = cls
        self.name = cls + "::find"

    def matches(self, dem):
        h, ps = split_params(dem)
        return re.search(r"\b%s::find<" % self.cls, h) is not None

    retk = "sret"

    def apply(self, vc, st, vals, ins):
        T = vc.th
        dem = vc.demangled(ins.a[1].v)
        h, ps = split_params(dem)
        ret, this = vals[0], vals[1]
        ret_k, x, y = cache_operands(vc, st, dem, ps, vals[2:], self.cls)
        cache_range(vc, st, self.cls, x, y)
        hit = vc.decide(st, z3.Bool(st.sym("cachehit")))
        if not hit:
            vc.wr_edge(st, ret, (ZERO, NULL))
            return None
        r = new_edge(T, st, ret_k, "memo")
        for c in cache_clauses(T, st, self.cls, ret_k, x, y, r, "assume"):
            assume_clause(vc, st, c)
        vc.wr_edge(st, ret, (r.w, r.n))
        vc.trusted.add(self.cls + "::find/set interface (C05)")
        return None


def cache_operands(vc, st, dem, ps, vals, cls):
    if cls == "MulCache":
        x, y = vals[0], vals[1]
        if not isinstance(x, NodePtr) or not isinstance(y, NodePtr):
            raise Unsupported("cache operand")
        T = vc.th
        T.mat(st, x.k, x.ref)
        T.mat(st, y.k, y.ref)
        return ("v" if y.k == "v" else "m"), x, y
    w, n = vc.rd_edge(st, vals[0])
    w2, n2 = vc.rd_edge(st, vals[1])
    k = n.k
    return k, E(k, w, n), E(k, w2, n2)


def cache_range(vc, st, cls, x, y):
    T = vc.th
    if cls == "MulCache":
        v = T.var[x.k](x.ref)
    else:
        v = smax(T.var[x.k](x.n.ref), T.var[y.k](y.n.ref))
    prove_clause(vc, st, B("memo table row within range", z3.And(v >= 0, v < NQ)), f"precondition of {cls}: ")


def cache_clauses(T, st, cls, k, x, y, r, mode):
    var = T.var
    levels = list(st.g.get("levels", ()))
    out = []
    if cls == "MulCache":
        vx, vy = var[x.k](x.ref), var[y.k](y.ref)
        if k == "v":
            lv = [vy]
            mx = vy
            out.append(B("memoised state is on the operand's qubits", T.valid(r, vy)))
        else:
            mx = smax(vx, vy)
            lv = levels
            out.append(B("memoised operator is not taller than the operands", var["m"](r.n.ref) <= mx))
        goal = lambda l: T.P(k, x.ref, y.ref, l)
    else:
        vx, vy = var[k](x.n.ref), var[k](y.n.ref)
        mx = smax(vx, vy)
        if k == "v":
            lv = [mx]
            out.append(B("memoised state is on the operands' qubits", T.valid(r, mx)))
        else:
            lv = levels
            out.append(B("memoised operator is not taller than the operands", var["m"](r.n.ref) <= mx))
        goal = lambda l: T.ent(x, l) + T.ent(y, l)
    for l in lv:
        lead = r.w * T.D(k, r.n.ref, l)
        out.append(Q("memoised result denotes the operation on exactly these operands", T.ent(r, l) - goal(l), lead, l, mx <= l))
    return out


class CacheSet(CacheFind):
    def __init__(self, cls):
        self.cls = cls
        self.name = cls + "::set"

    def matches(self, dem):
        h, ps = split_params(dem)
        return re.search(r"\b%s::set<" % self.cls, h) is not None and len(ps) == 3 and "Entry" not in dem

    def apply(self, vc, st, vals, ins):
        T = vc.th
        dem = vc.demangled(ins.a[1].v)
        h, ps = split_params(dem)
        k, x, y = cache_operands(vc, st, dem, ps, vals[1:3], self.cls)
        cache_range(vc, st, self.cls, x, y)
        w, n = vc.rd_edge(st, vals[3])
        r = E(k, w, n)
        check_edge(vc, st, r, "memo table store")
        cl = cache_clauses(T, st, self.cls, k, x, y, r, "prove")
        for c in cl:
            prove_clause(vc, st, c, f"value stored in {self.cls}: ")
        lv = [c for c in cl if isinstance(c, Q)]
        if not lv:
            vc.oblige(st, f"value stored in {self.cls}: level known", False)
        elif k == "m":
            # the identity must have been established at one level that is high enough for both operands
            vc.oblige(st, f"value stored in {self.cls}: established at a level covering both operands",
                      T.prove_bool(st, z3.Or(*[c.guard for c in lv])))
        return None


# ------------------------------------------------------------------ add / multiply
class BinOp(Contract):
    """mm_add2, vv_add2, mm_multiply2, mv_multiply2 at level current_var"""

    def __init__(self, name, op, k, kl):
        self.name, self.op, self.k, self.kl, self.retk = name, op, k, kl, k
        self.value_determined = True

    def lev(self, a):
        l = a[2].val
        return l if z3.is_expr(l) else z3.BitVecVal(l, 32)

    def levels(self, T, a):
        return (self.lev(a),)

    def fits(self, T, a, l):
        """both operands are diagrams on qubits 0..level (a zero vector has no height)"""
        return z3.And(T.valid(a[0].val, l), T.valid(a[1].val, l))

    def zeros(self, T, a):
        """operand combinations that are answered without looking at the level"""
        x, y = a[0].val, a[1].val
        if self.k == "v" and self.op == "add":
            return z3.Or(T.Zraw(x.w), T.Zraw(y.w))
        if self.k == "v":
            return z3.And(y.n.ref == T.T["v"], T.Zraw(y.w))
        return z3.BoolVal(False)

    def requires(self, T, st, a):
        l = self.lev(a)
        out = [B("level within range", z3.And(l >= -1, l < NQ))]
        if self.k == "v":
            return out + [B("operands are diagrams on qubits 0..level", z3.Or(self.fits(T, a, l), self.zeros(T, a)))]
        return out + [B("left operand is a diagram on qubits 0..level", T.valid(a[0].val, l)),
                      B("right operand is a diagram on qubits 0..level", T.valid(a[1].val, l))]

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, self.k, self.op)

    def decreases(self, T, st, a):
        l = self.lev(a)
        return lambda top: z3.And(l < self.lev(top), self.lev(top) >= -1)

    def goal(self, T, x, y, l):
        if self.op == "add":
            return T.ent(x, l) + T.ent(y, l)
        return x.w * y.w * T.P(self.k, x.n.ref, y.n.ref, l)

    def ensures(self, T, st, a, r):
        l = self.lev(a)
        x, y = a[0].val, a[1].val
        fit = self.fits(T, a, l)
        out = [B("result is a diagram on qubits 0..level", z3.Implies(fit, T.valid(r, l)))]
        lead = r.w * T.D(self.k, r.n.ref, l)
        out.append(Q({"add": "entry of the result is the sum of the entries", "mul": "entry of the result is the entry of the product"}[self.op],
                     T.ent(r, l) - self.goal(T, x, y, l), lead, l, None if self.k == "m" else fit))
        v = T.var
        if self.k == "m":
            zx, zy = T.Zraw(x.w), T.Zraw(y.w)
            if self.op == "add":
                out.append(B("zero plus zero is zero", z3.Implies(z3.And(zx, zy), T.Z(st, r.w))))
            else:
                out.append(B("a zero factor gives zero", z3.Implies(z3.Or(zx, zy), T.Z(st, r.w))))
            out.append(B("result is not taller than the operands", v["m"](r.n.ref) <= smax(v["m"](x.n.ref), v["m"](y.n.ref))))
        elif self.op == "add":
            zx, zy = T.Zraw(x.w), T.Zraw(y.w)
            for p, q, zp, zq in ((x, y, zx, zy), (y, x, zy, zx)):
                g = z3.And(z3.Not(zp), zq)
                out.append(B("adding the zero vector changes nothing (node)", z3.Implies(g, r.n.ref == p.n.ref)))
                out.append(Q("adding the zero vector changes nothing (weight)", r.w - p.w, r.w, None, g))
            out.append(B("zero plus zero is zero", z3.Implies(z3.And(zx, zy), z3.And(T.Z(st, r.w), r.n.ref == T.T["v"]))))
        else:
            out.append(B("operator times zero state is zero",
                         z3.Implies(z3.And(T.Zraw(y.w), y.n.ref == T.T["v"]), z3.And(T.Z(st, r.w), r.n.ref == T.T["v"]))))
        return out


class TopOp(BinOp):
    """mm_add, mm_multiply, vv_add, mv_multiply"""

    def __init__(self, name, op, k, kl):
        super().__init__(name, op, k, kl)

    def lev(self, a):
        x, y = a[0].val, a[1].val
        if self.k == "v" and self.op == "mul":
            return self.T.var["v"](y.n.ref)
        return smax(self.T.var[x.k](x.n.ref), self.T.var[y.k](y.n.ref))

    def requires(self, T, st, a):
        self.T = T
        if self.k == "v":
            return super().requires(T, st, a)
        return []

    def levels(self, T, a):
        self.T = T
        return (self.lev(a),)

    def decreases(self, T, st, a):
        return None

    def ensures(self, T, st, a, r):
        self.T = T
        return super().ensures(T, st, a, r)

    def assume_post(self, vc, st, a, r):
        super().assume_post(vc, st, a, r)
        if self.k == "m" and self.op == "mul":
            import c_lib
            c_lib.setop(st, r, c_lib.multiply(vc, st, a[0].val, a[1].val))
        elif self.k == "v" and self.op == "mul":
            # lemma: applying an operator that is diagonal on one qubit and the identity elsewhere scales every entry by its diagonal element
            import c_lib
            op = c_lib.opof(st, a[0].val)
            if op is not None and len(op.qs) == 1 and op.m[1].is0() and op.m[2].is0():
                l = z3.simplify(self.lev(a))
                q = bv(op.qs[0], 32)
                y = a[1].val
                lead = r.w * self.T.D("v", r.n.ref, l)
                for b in (0, 1):
                    self.T.add_eq(st, self.T.ent(r, l) - op.m[3 * b] * self.T.ent(y, l), lead, z3.And(self.T.valid(y, l), q >= 0, q <= l, self.T.rb(q) == bool(b)))


class Kron(Contract):
    """mm_kronecker2, vv_kronecker2, mm_kronecker, vv_kronecker"""

    def __init__(self, name, k):
        self.name, self.k, self.retk = name, k, k
        self.value_determined = True

    def lev(self, T, a):
        v = T.var[self.k]
        return v(a[0].val.n.ref) + v(a[1].val.n.ref) + 1

    def levels(self, T, a):
        return (self.lev(T, a),)

    def requires(self, T, st, a):
        x, y = a[0].val, a[1].val
        v = T.var[self.k]
        l = self.lev(T, a)
        out = [B("the product fits the register", l < NQ)]
        t = T.T[self.k]
        if self.k == "m":
            out.append(B("left operand is stored at full height", z3.Or(x.n.ref == t, T.full("m", x.n.ref, v(x.n.ref)))))
        else:
            out.append(B("left operand is a state", T.valid(x, v(x.n.ref))))
            out.append(B("right operand is a state", T.valid(y, v(y.n.ref))))
        return out

    def entry(self, vc, st, a):
        if self.k == "m":
            vc.th.splitz = True
            vc.th.mat(st, "m", a[0].val.n.ref)
            vc.th.full_facts(st, "m", a[0].val.n.ref)

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, self.k, "kron")

    def decreases(self, T, st, a):
        v = T.var[self.k]
        l = v(a[0].val.n.ref)
        return lambda top: z3.And(l < v(top[0].val.n.ref), v(top[0].val.n.ref) >= -1)

    def ensures(self, T, st, a, r):
        x, y = a[0].val, a[1].val
        l = self.lev(T, a)
        t = T.T[self.k]
        zx, zy = T.Zraw(x.w), T.Zraw(y.w)
        out = [B("a zero factor gives zero", z3.Implies(z3.Or(zx, zy), T.Z(st, r.w))),
               B("result is a diagram on the qubits of both", T.valid(r, l) if self.k == "m" else z3.Or(T.valid(r, l), T.Z(st, r.w)))]
        out.append(Q("entry of the result is the product of the entries", T.ent(r, l) - x.w * y.w * T.K(self.k, x.n.ref, y.n.ref, l),
                     r.w * T.D(self.k, r.n.ref, l), l))
        return out


class KronTop(Kron):
    def decreases(self, T, st, a):
        return None


def dd_contracts():
    return [MakeEdge("m"), MakeEdge("v"), CacheFind("MulCache"), CacheFind("AddCache"), CacheSet("MulCache"), CacheSet("AddCache"),
            Kron("mm_kronecker2", "m"), Kron("vv_kronecker2", "v"), KronTop("mm_kronecker", "m"), KronTop("vv_kronecker", "v"),
            BinOp("mm_add2", "add", "m", "m"), BinOp("vv_add2", "add", "v", "v"), BinOp("mm_multiply2", "mul", "m", "m"), BinOp("mv_multiply2", "mul", "v", "m"),
            TopOp("mm_add", "add", "m", "m"), TopOp("vv_add", "add", "v", "v"), TopOp("mm_multiply", "mul", "m", "m"), TopOp("mv_multiply", "mul", "v", "m")]


def dd_lib():
    return [
        (r"Complex::isApproximatelyZero\(\) const$", cz, "Complex::isApproximatelyZero compares with 0 (tolerance idealised to 0; bounds in C24)"),
        (r"Complex::isApproximatelyOne\(\) const$", cone, "Complex::isApproximatelyOne compares with 1 (tolerance idealised to 0; bounds in C24)"),
        (r"Complex::isApproximatelyEqual\(Complex const&\) const$", ceq, "Complex::isApproximatelyEqual is equality (tolerance idealised to 0; bounds in C24)"),
        (r"CHashTable<.*>::getNode\(\)$", get_node, "CHashTable::getNode (C06)"),
        (r"CHashTable<.*>::returnNode\(", return_node, "CHashTable::returnNode (C06)"),
        (r"CHashTable<.*>::lookup\(", lookup, "CHashTable::lookup (C06)"),
        (r"bool std::all_of<", lib_all_of("all"), "std::all_of"),
        (r"bool std::any_of<", lib_all_of("any"), "std::any_of"),
        (r"bool std::none_of<", lib_all_of("none"), "std::none_of"),
        (r"[mv]Edge( const)?\* std::max_element<", lib_max_element(True), "std::max_element (first largest)"),
        (r"[mv]Edge( const)?\* std::min_element<", lib_max_element(False), "std::min_element (first smallest)"),
        (r"(std::)?sqrt(l|f)?(\(double\))?$", lambda vc, st, v, i, d: vc.th.sqrt(st, v[0]), ""),
        (r"(std::)?f?abs(\(double\))?$", lambda vc, st, v, i, d: vc.th.fabs(st, v[0]) if isinstance(v[0], Poly) else NotImplemented, ""),
        (r"__assert_fail$", lib_assert, ""),
        (r"(abort|std::terminate\(\)|__cxa_throw|std::__throw.*)$", lib_abort, ""),
    ]
