"""Initial states and read-out (C11): makeZeroState, makeOneState, fillVector, getVector, fillMatrix, getMatrix."""
import z3
from ir import Unsupported, PTR, Ty
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv
from theory import E, NQ
from contract import *
from c_gate import Fam
from arr import ArrG, RowG, APtr, v64, new_array
import loops

MAXQ = 30       # read-out allocates 2^n numbers with 32-bit shifts; larger registers are outside the contract
I64 = Ty("i", 64)


class Bits(Fam):
    """1 if every row bit 0..l equals b, else 0: the amplitude of |0..0> or |1..1>"""

    def __init__(self, b):
        self.b, self.name = b, "Bits%d" % b

    def atom(self, T, l):
        T.defs[self.name] = self
        return Poly.atom(Atoms.get(self.name, (T.lv(l),)))

    def base(self, T, st, at):
        return ONE

    def unfold(self, T, st, at, L, r, c):
        if T.vc.decide(st, L == 0):
            return ONE if r == bool(self.b) else ZERO
        return self.atom(T, L - 1) if r == bool(self.b) else ZERO


class BasisState(Contract):
    loops = True
    retk = "v"

    def __init__(self, name, b):
        self.name, self.fam, self.params = name, Bits(b), ["unsigned int"]
        self.what = "1 at row %s and 0 elsewhere" % ("2^q-1" if b else "0")

    def requires(self, T, st, a):
        q = bv(a[0].val, 32)
        return [B("register size", z3.And(q >= 1, q <= NQ))]

    def entry(self, vc, st, a):
        self.q = bv(a[0].val, 32)

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, "v", "basis")

    def ensures(self, T, st, a, r):
        l = z3.simplify(bv(a[0].val, 32) - 1)
        return [B("result is a state on the register", T.valid(r, l)),
                Q(f"amplitude of the result is {self.what}", T.ent(r, l) - self.fam.atom(T, l), r.w * T.D("v", r.n.ref, l), l)]

    def candidates(self, vc, st, info):
        b = [("0", z3.BitVecVal(0, 32)), ("1", z3.BitVecVal(1, 32)), ("register size", self.q)]
        return loops.int_candidates(vc, st, info, b) + \
            loops.edge_candidates(vc, st, info, [("the basis state on the qubits so far", lambda vc, s, l: self.fam.atom(vc.th, l))], (-1, 0))

    def wanted(self, info):
        return [(("edge", e), "the state built so far") for e in info.edges]


# ------------------------------------------------------------------ read-out
def tie(T, st, K, l, f):
    """bit l of the tracked index is the row (column) bit of level l"""
    l = T.lv(l)
    sh = z3.LShR(K, z3.ZeroExt(32, l))
    st.assume(z3.Implies(l >= 0, f(l) == (z3.Extract(0, 0, sh) == 1)))


class FillVector(Contract):
    name = "fillVector"
    params = ["vEdge const&", "unsigned long", "Complex const&", "unsigned long", "Complex*"]
    loops = True

    def formal(self, vc, st, ty, ps, n):
        if ty == "Complex*":
            p = APtr(st.new(16, "m"), (0,), 0)
            N, K = z3.BitVec("len", 64), z3.BitVec("K", 64)
            g = ArrG((N,), (K,), Poly.atom(Atoms.get("cell0", (), "complex")))
            st.mem[p.o].ghost = g
            self.cell0, self.o = g.cur, p.o
            return A(ty, g, p), (1, [p])
        return super().formal(vc, st, ty, ps, n)

    def actual(self, vc, st, ty, vals):
        if ty == "Complex*":
            if not isinstance(vals[0], APtr) or vals[0].f or any(not isinstance(i, int) or i for i in vals[0].idx):
                raise Unsupported("array argument")
            return A(ty, vals[0].g(st), vals[0]), 1
        return super().actual(vc, st, ty, vals)

    def parts(self, a):
        e, row, w, left, arr = a[0].val, v64(a[1].val), a[2].val, v64(a[3].val), a[4].val
        L = z3.simplify(z3.Extract(31, 0, left) - 1)
        return e, row, w, left, arr, L

    def level(self, T, st, a):
        e, row, w, left, arr, L = self.parts(a)
        # a level term the caller already talks about, if it is the same number
        for l in self.known(st):
            for d in (0, -1):
                x = z3.simplify(l + d)
                if x.eq(L) or T.vc.entails(st, x == L):
                    return x
        return L

    def known(self, st):
        return [z3.simplify(l) for l in st.g.get("levels", ())]

    def levels(self, T, a):
        return (self.parts(a)[5],)

    def requires(self, T, st, a):
        e, row, w, left, arr, L = self.parts(a)
        n = v64(arr.n[0])
        L = self.level(T, st, a)
        return [B("number of qubits within range", z3.ULE(left, MAXQ)),
                B("edge is a state on the remaining qubits", T.valid(e, L)),
                B("array length within range", z3.ULE(n, 1 << MAXQ)),
                B("row within range", z3.ULE(row, (1 << MAXQ) - 1)),
                B("the rows written are inside the array", z3.ULE((row + 1) << left, n))]

    def entry(self, vc, st, a):
        st.assume(z3.ULT(a[4].val.K[0], v64(a[4].val.n[0])))
        tie(vc.th, st, a[4].val.K[0], self.parts(a)[5], vc.th.rb)
        self.a = a

    def decreases(self, T, st, a):
        left = v64(a[3].val)
        return lambda top: z3.ULT(left, v64(top[3].val))

    def inr(self, a, g):
        e, row, w, left, arr, L = self.parts(a)
        return z3.And(z3.ULE(row << left, g.K[0]), z3.ULT(g.K[0], (row + 1) << left))

    def apply(self, vc, st, vals, ins):
        T = vc.th
        args, ret = self.actuals(vc, st, vc.demangled(ins.a[1].v), vals)
        arr = args[-1].val
        where = vc.where(st)
        if not isinstance(arr, ArrG):
            raise Unsupported("array argument")
        L = self.level(T, st, args)
        self.ties(T, st, arr, L)
        inr = vc.decide(st, conc(self.inr(args, arr)))
        for e in edges_of(args[:-1]):
            check_edge(vc, st, e, where)
        for c in self.requires(T, st, args):
            prove_clause(vc, st, c, f"precondition of {self.name} at {where}: ")
        if vc.top is self:
            vc.oblige(st, f"recursion of {self.name} terminates (measure decreases)", T.prove_bool(st, self.decreases(T, st, args)(vc.top_measure)), where)
        if inr:
            st.wobj(args[-1].ptr.o).ghost = arr.but(cur=self.weight(args) * T.ent(args[0].val, L))
        return None

    def ties(self, T, st, arr, L):
        tie(T, st, arr.K[0], L, T.rb)

    def weight(self, args):
        return args[2].val

    def check_post(self, vc, s, args, r, pre):
        T = vc.th
        g = s.mem[args[-1].ptr.o].ghost
        e = args[0].val
        L = self.levels(T, args)[0]
        inr = self.inr(args, args[-1].val)
        want = self.weight(args) * T.ent(e, L)
        prove_clause(vc, s, Q("an entry in the block holds weight times the entry of the edge", g.cur - want, None, L, inr), f"postcondition of {self.name}: ")
        prove_clause(vc, s, Q("an entry outside the block is unchanged", g.cur - self.cell0, None, None, z3.Not(inr)), f"postcondition of {self.name}: ")
        for (p, cells, ty) in pre:
            o = s.mem[p.o]
            ok = o.cells.keys() == cells.keys() and all(samev(o.cells[k][0], cells[k][0]) for k in cells)
            vc.oblige(s, f"{self.name}: argument passed by const reference is unchanged", ok)

    def candidates(self, vc, st, info):
        T = vc.th
        e, row, w, left, arr, L = self.parts(self.a)
        one = z3.BitVecVal(1, 64)
        out = []
        for x in info.ints:
            if x[2] != 64:
                continue
            out += [loops.Cand("counter <= number of rows", lambda vc, s, x=x: [B("", z3.ULE(loops.getint(vc, s, x), one << left))])]
            for oid in info.ghosts:
                def mk(vc, s, x=x, oid=oid):
                    g = s.mem[oid].ghost
                    i = loops.getint(vc, s, x)
                    done = z3.And(z3.ULE(row << left, g.K[0]), z3.ULT(g.K[0], (row << left) + i))
                    lead = g.cur if len(g.cur.atoms()) == 1 else None
                    return [Q("", g.cur - w * T.ent(e, L), lead, L, done), Q("", g.cur - self.cell0, lead, None, z3.Not(done))]
                out.append(loops.Cand("rows before the counter are filled, the others untouched", mk, ("arr", oid)))
        return out

    def wanted(self, info):
        return [(("arr", o), "the rows filled so far") for o in info.ghosts]


class FillMatrix(FillVector):
    name = "fillMatrix"
    params = ["mEdge const&", "unsigned long", "unsigned long", "Complex const&", "unsigned long", "Complex**"]

    def formal(self, vc, st, ty, ps, n):
        if ty == "Complex**":
            p = APtr(st.new(16, "m"), (0,), 0)
            N, R, C = z3.BitVec("len", 64), z3.BitVec("R", 64), z3.BitVec("C", 64)
            g = ArrG((N, N), (R, C), Poly.atom(Atoms.get("cell0", (), "complex")))
            st.mem[p.o].ghost = g
            self.cell0, self.o = g.cur, p.o
            return A(ty, g, p), (1, [p])
        if n == 4:
            self.lvl = z3.BitVec("lvl", 32)
            v = z3.simplify(z3.BitVecVal(1, 64) << z3.ZeroExt(32, self.lvl + 1))
            return A(ty, v), (1, [v])
        return Contract.formal(self, vc, st, ty, ps, n)

    def actual(self, vc, st, ty, vals):
        if ty == "Complex**":
            if not isinstance(vals[0], APtr) or vals[0].f or vals[0].idx != (0,) or vals[0].level(st) != 2:
                raise Unsupported("array argument")
            return A(ty, vals[0].g(st), vals[0]), 1
        return Contract.actual(self, vc, st, ty, vals)

    def dimlev(self, T, st, dim):
        """the level whose dimension this is"""
        if st is None:
            return self.lvl
        for l in self.known(st):
            for d in (0, -1):
                x = z3.simplify(l + d)
                if T.vc.entails(st, z3.And(x >= -1, x < MAXQ, v64(dim) == (z3.BitVecVal(1, 64) << z3.ZeroExt(32, x + 1)))):
                    return x
        raise Unsupported("level of the block")

    def parts(self, a):
        return a[0].val, v64(a[1].val), v64(a[2].val), a[3].val, v64(a[4].val), a[5].val

    def weight(self, args):
        return args[3].val

    def level(self, T, st, a):
        return self.dimlev(T, st, a[4].val)

    def levels(self, T, a):
        return (self.lvl,)

    def requires(self, T, st, a):
        e, row, col, w, dim, arr = self.parts(a)
        top = "levels" in st.g and a[4].val is not None and T.vc.top is None
        L = self.lvl if top else self.level(T, st, a)
        n, m = v64(arr.n[0]), v64(arr.n[1])
        out = [B("level within range", z3.And(L >= -1, L < MAXQ)),
               B("edge is an operator on the block's qubits", T.valid(e, L)),
               B("array length within range", z3.And(z3.ULE(n, 1 << MAXQ), z3.ULE(m, 1 << MAXQ)))]
        for nm, x, k in (("rows", row, n), ("columns", col, m)):
            out.append(B(f"the {nm} written are inside the array", z3.And(z3.ULE(dim, k), z3.ULE(x, k - dim))))
            out.append(B(f"the block's {nm} are aligned", x & (dim - 1) == 0))
        if arr.filled is not None:
            out.append(B("all rows are allocated", v64(arr.filled) == n))
        return out

    def entry(self, vc, st, a):
        g = a[5].val
        st.assume(z3.ULT(g.K[0], v64(g.n[0])), z3.ULT(g.K[1], v64(g.n[1])))
        self.ties(vc.th, st, g, self.lvl)
        self.a = a

    def ties(self, T, st, arr, L):
        tie(T, st, arr.K[0], L, T.rb)
        tie(T, st, arr.K[1], L, T.cb)

    def decreases(self, T, st, a):
        return lambda top: z3.ULT(v64(a[4].val), v64(top[4].val))

    def inr(self, a, g):
        e, row, col, w, dim, arr = self.parts(a)
        m = ~(dim - 1)
        return z3.And(g.K[0] & m == row, g.K[1] & m == col)

    def candidates(self, vc, st, info):
        return []


class Read(Contract):
    """getVector, getMatrix: the array returned holds every entry"""
    loops = True

    def is_method(self, dem):
        return True

    def this_ty(self, dem):
        return self.edge + " const&"

    def formal(self, vc, st, ty, ps, n):
        if ty == "unsigned long*":
            p = Ptr(st.new(8, "dim"))
            return A(ty, p, p), (1, [p])
        return super().formal(vc, st, ty, ps, n)

    def nq(self, T, a):
        raise NotImplementedError

    def requires(self, T, st, a):
        q = self.nq(T, a)
        return [B("register size within range", z3.And(q >= (0 if self.edge == "mEdge" else 1), q <= MAXQ)), B("edge is a diagram on the register", T.valid(a[0].val, q - 1))]

    def levels(self, T, a):
        return (z3.simplify(self.nq(T, a) - 1),)

    def entry(self, vc, st, a):
        vc.theap = None
        self.a = a

    def check_post(self, vc, s, a, r, pre):
        T = vc.th
        pf = f"postcondition of {self.name}: "
        if not isinstance(r, APtr) or r.f or any(not isinstance(i, int) or i for i in r.idx):
            vc.oblige(s, pf + "an array is returned", False, str(r))
            return
        g = r.g(s)
        if not isinstance(g, ArrG) or len(g.n) != self.arrdim:
            raise Unsupported("result array")
        q = self.nq(T, a)
        n = z3.BitVecVal(1, 64) << z3.ZeroExt(32, q)
        for i in range(self.arrdim):
            prove_clause(vc, s, B("array has 2^n entries" + (" per row and column" if self.arrdim == 2 else ""), v64(g.n[i]) == n), pf)
        d = vc.ld(s, a[1].val, I64)
        prove_clause(vc, s, B("reported dimension is 2^n", bv(d, 64) == n), pf)
        if g.cur is None:
            vc.oblige(s, pf + "every entry of the array is written", False)
            return
        L = self.levels(T, a)[0]
        self.tie(T, s, g, L)
        prove_clause(vc, s, Q("every entry of the array is the entry of the diagram", g.cur - T.ent(a[0].val, L), None, L), pf)

    def tie(self, T, s, g, L):
        tie(T, s, g.K[0], L, T.rb)
        if self.arrdim == 2:
            tie(T, s, g.K[1], L, T.cb)


class GetVector(Read):
    name, edge, arrdim = "vEdge::getVector", "vEdge", 1

    def nq(self, T, a):
        return T.var["v"](a[0].val.n.ref) + 1

    def candidates(self, vc, st, info):
        return []


class GetMatrix(Read):
    name, edge, arrdim = "mEdge::getMatrix", "mEdge", 2

    def nq(self, T, a):
        q = a[2].val
        return z3.If(q == -1, T.var["m"](a[0].val.n.ref) + 1, q)

    def levels(self, T, a):
        return (z3.simplify(self.nq(T, a) - 1), z3.simplify(T.var["m"](a[0].val.n.ref)), a[2].val - 1)

    def candidates(self, vc, st, info):
        out = []
        for x in info.ints:
            if x[2] != 64:
                continue
            for oid in info.ghosts:
                g = st.mem[oid].ghost
                if not isinstance(g, ArrG):
                    continue
                out.append(loops.Cand("as many rows are allocated as the counter says",
                                      lambda vc, s, x=x, oid=oid: [B("", z3.And(v64(s.mem[oid].ghost.filled) == loops.getint(vc, s, x), z3.ULE(v64(s.mem[oid].ghost.filled), v64(s.mem[oid].ghost.n[0]))))], ("rows", oid)))
        return out

    def wanted(self, info):
        return [(("rows", o), "the rows allocated so far") for o in info.ghosts]


def state_contracts():
    return [BasisState("makeZeroState", 0), BasisState("makeOneState", 1), FillVector(), GetVector(), FillMatrix(), GetMatrix()]


def state_lib():
    return [(r"operator new\[\]\(unsigned long\)$", new_array, "operator new[] returns fresh memory or throws")]
