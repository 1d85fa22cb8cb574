"""Denotations of decision diagrams, the zero/sign logic of weights, and the prover for polynomial goals.

Fix one arbitrary row index r and column index c (their bits are the uninterpreted predicates rb, cb over qubit
numbers).  For a registered operator node n, Dm(n,l) is the entry (r,c), restricted to qubits 0..l, of the operator n
denotes on those qubits; Dv(n,l) the amplitude at r.  PN(a,b,l) and PV(a,b,l) are the entries of the operator-operator
and operator-state products.  They are unfolded one qubit at a time with the block rules below, which are the
definition of those entries:
   Dm(T,l)   = identity entry;  Dm(n,l) = cw_i(n) Dm(cn_i(n), l-1), i = 2 rb(l)+cb(l), if var(n) = l;
   Dm(n,l)   = [rb(l)=cb(l)] Dm(n, l-1) if var(n) < l          (identity on skipped qubits)
   Dv(n,l)   = cw_i(n) Dv(cn_i(n), l-1), i = rb(l)
   PN(a,b,l) = sum_k A[rb(l),k] B[k,cb(l)]  over the blocks A of a, B of b at qubit l;  PV likewise.
As r and c are arbitrary, an identity proved for them holds for every entry of every size."""
import z3
from fractions import Fraction
from ir import Unsupported, DBL, PTR, I32
from poly import Poly, Atoms, ZERO, ONE, IU, normal_scale, mconj, mmul, mpow, sqrt_of, cinv
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, sgn

BV32 = z3.BitVecSort(32)
NQ = 100
FAMS = ("Dm", "Dv", "Pm", "Pv", "Km", "Kv")


import os
DEBUG = bool(os.environ.get("VC_DEBUG"))


class E:
    """edge value: weight polynomial and node pointer"""
    __slots__ = ("k", "w", "n")

    def __init__(self, k, w, n):
        self.k, self.w, self.n = k, w, n

    def __repr__(self):
        return f"<{self.w} | {self.n}>"


def clear(p):
    """p times the negative powers in it; None: there are none"""
    neg = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    if not neg:
        return None
    k = tuple(sorted((a, -e) for a, e in neg.items()))
    return Poly({mmul(m, k): c for m, c in p.t.items()})


class Theory:
    def __init__(self, mod):
        self.mod = mod
        self.vc = None
        self.Sort = {"m": z3.DeclareSort("MNode"), "v": z3.DeclareSort("VNode")}
        self.T = {k: z3.Const("T" + k, s) for k, s in self.Sort.items()}
        self.var = {k: z3.Function("var_" + k, s, BV32) for k, s in self.Sort.items()}
        self.nc = {"m": 4, "v": 2}
        self.cn = {k: [z3.Function(f"cn_{k}{i}", s, s) for i in range(self.nc[k])] for k, s in self.Sort.items()}
        self.zcw = {k: [z3.Function(f"zcw_{k}{i}", s, z3.BoolSort()) for i in range(self.nc[k])] for k, s in self.Sort.items()}
        self.rb = z3.Function("rb", BV32, z3.BoolSort())
        self.cb = z3.Function("cb", BV32, z3.BoolSort())
        self.lay = {}
        for k, nm, en in (("m", "mNode", "mEdge"), ("v", "vNode", "vEdge")):
            d, e = mod.dbg_members(nm), mod.dbg_members(en)
            c = mod.dbg_members("Complex")
            if not d:
                continue
            self.lay[k] = (d["v"], d["children"], e["w"], e["n"], 24, d.get("next"), d.get("previous"))
            if (e["w"], e["n"], c["r"], c["i"]) != (0, 16, 0, 8):
                raise Unsupported("edge layout")
        self.termsym = {"_ZN5mNode12terminalNodeE": "m", "_ZN5vNode12terminalNodeE": "v"}
        self.zreg = {}          # key of normalised polynomial -> bool
        self.R = {}             # monomial -> (Re var, Im var)
        self.defs = {}          # families of level-indexed values defined by a contract
        self.ghosts = {}        # global name -> factory of abstract value
        self.stats = {"poly": 0, "bool": 0}

    # ------------------------------------------------------------------ nodes
    def special_global(self, st, name):
        k = self.termsym.get(name)
        if k:
            return NodePtr(k, self.T[k], 0)
        return None

    def global_ghost(self, st, name, ty):
        f = self.ghosts.get(name)
        return f() if f else None

    def g(self, st, k, d=None):
        return st.g.get(k, d)

    def setg(self, st, k, v):
        st.g = {**st.g, k: v}

    def reffacts(self, st, k, ref):
        """the range of a registered node's qubit; the terminal is the only node at -1"""
        key = ("rf", k, ref.get_id())
        known = st.g.get("known", frozenset())
        if key in known:
            return
        st.g = {**st.g, "known": known | {key}}
        Atoms.keepalive.append(ref)
        v = self.var[k](ref)
        st.assume(v >= -1, v < NQ, (v == -1) == (ref == self.T[k]))

    def mat(self, st, k, ref):
        """structural invariant of a registered node (established at every registration)"""
        self.reffacts(st, k, ref)
        key = ("wf", k, ref.get_id())
        known = st.g["known"]
        if key in known:
            return
        st.g = {**st.g, "known": known | {key}}
        nt = ref != self.T[k]
        v = self.var[k](ref)
        for i in range(self.nc[k]):
            c = self.cn[k][i](ref)
            self.reffacts(st, k, c)
            z = self.zcw[k][i](ref)
            f = [self.var[k](c) < v, z3.Implies(z, c == self.T[k])]
            if k == "v":
                f.append(z3.Or(c == self.T[k], self.var[k](c) == v - 1))
                f.append(z3.Implies(z3.And(c == self.T[k], v >= 1), z))
            st.assume(z3.Implies(nt, z3.And(*f)))
        st.assume(z3.Implies(nt, z3.Not(z3.And(*[self.zcw[k][i](ref) for i in range(self.nc[k])]))))

    def cw(self, k, i, ref):
        return Poly.atom(Atoms.get(f"cw{k}{i}", (ref,)))

    def node_load(self, st, p, ty):
        vo, co, wo, no, es, nx, pv = self.lay[p.k]
        off = p.off
        if ty.k == "arr":
            es2 = self.mod.size(ty.b)
            return [self.node_load(st, NodePtr(p.k, p.ref, off + i * es2), self.mod.resolve(ty.b)) for i in range(ty.a)]
        if ty.k == "struct":
            return [self.node_load(st, NodePtr(p.k, p.ref, off + self.mod.field_off(ty, i)), self.mod.resolve(f)) for i, f in enumerate(ty.a)]
        if off == vo and ty.k == "i" and ty.a == 32:
            self.reffacts(st, p.k, p.ref)
            return conc(self.var[p.k](p.ref))
        if co <= off < co + es * self.nc[p.k]:
            i, r = divmod(off - co, es)
            self.mat(st, p.k, p.ref)
            if r == 0 and ty.k == "double":
                return self.cw(p.k, i, p.ref).re()
            if r == 8 and ty.k == "double":
                return self.cw(p.k, i, p.ref).im()
            if r == 16 and ty.k == "ptr":
                return NodePtr(p.k, self.cn[p.k][i](p.ref), 0)
        raise Unsupported(f"node field {p.k}+{off} {ty}")

    def node_cells(self, st, p, n):
        vo, co, wo, no, es, nx, pv = self.lay[p.k]
        out = []
        lo, hi = p.off, p.off + n
        self.mat(st, p.k, p.ref)
        for i in range(self.nc[p.k]):
            b = co + es * i
            w = self.cw(p.k, i, p.ref)
            for a, v in ((b, w.re()), (b + 8, w.im()), (b + 16, NodePtr(p.k, self.cn[p.k][i](p.ref), 0))):
                if lo <= a and a + 8 <= hi:
                    out.append((a - lo, v, 8))
        if lo <= vo and vo + 4 <= hi:
            out.append((vo - lo, conc(self.var[p.k](p.ref)), 4))
        if lo < co and hi <= co and not out:
            raise Unsupported("node copy")
        if nx is not None and hi > nx:
            raise Unsupported("node copy of links")
        return out

    def node_store(self, st, p, v, ty):
        self.vc.oblige(st, "registered nodes are never modified", False, f"store into {p.k}-node {p.ref} at offset {p.off} ({self.vc.where(st)})")
        raise PathEnd("frame")

    def ptrtoint(self, st, v):
        if isinstance(v, NodePtr) and v.off == 0:
            f = z3.Function("addr_" + v.k, self.Sort[v.k], z3.BitVecSort(64))
            return f(v.ref)
        if isinstance(v, Ptr) and v.o == 0:
            return 0
        if isinstance(v, Ptr):
            return conc(z3.BitVec(f"addr_o{v.o}", 64) + v.off)
        raise Unsupported("ptrtoint")

    def inttoptr(self, st, v):
        if z3.is_expr(v) and v.num_args() == 1 and v.decl().name().startswith("addr_"):
            return NodePtr(v.decl().name()[5:], v.arg(0), 0)
        if v == 0:
            return NULL
        raise Unsupported("inttoptr")

    def int2real(self, st, v, n, signed):
        if n < 64:
            v = z3.SignExt(64 - n, v) if signed else z3.ZeroExt(64 - n, v)
        elif not signed:
            raise Unsupported("uitofp of 64 bits")
        return self.intatom(z3.simplify(v))

    def intatom(self, v):
        """the signed 64-bit integer v as a real number"""
        a = Atoms.get("int2real", (v,), "real")
        Atoms.by[a].info = ("int", v)
        return Poly.atom(a)

    def asint(self, p):
        if p.isconst():
            c = p.constval()
            if c[1] == 0 and Fraction(c[0]).denominator == 1 and abs(c[0]) < 2**62:
                return z3.BitVecVal(int(c[0]) & (2**64 - 1), 64)
            return None
        if p.ismono():
            (m, c), = p.t.items()
            if c == (1, 0) and len(m) == 1 and m[0][1] == 1 and Atoms.by[m[0][0]].info and Atoms.by[m[0][0]].info[0] == "int":
                return Atoms.by[m[0][0]].info[1]
        return None

    def real2int(self, st, v, n):
        """truncation; only of reals known to be integers"""
        x = self.asint(v)
        if x is None or n > 64:
            raise Unsupported("fptosi")
        ok = self.prove_bool(st, z3.And(x >= -(1 << (n - 1)), x < (1 << (n - 1)))) if n < 64 else True
        self.vc.oblige(st, "conversion to an integer is within range", ok, self.vc.where(st))
        if not ok:
            raise PathEnd("ub")
        return z3.simplify(z3.Extract(n - 1, 0, x)) if n < 64 else x

    def fabs(self, st, p):
        if p.isconst():
            return Poly.const(abs(p.constval()[0]))
        if self.fork_fabs:
            return -p if self.vc.decide(st, self.Lt(st, p, ZERO)) else p
        return sqrt_of(p * p)

    fork_fabs = False

    def sqrt(self, st, p):
        return sqrt_of(self.simp(st, p))

    def simp(self, st, p):
        """shorten a sum by the known equations N = A + B between monomials (norms) and the monomials known to be one"""
        tri, one = st.g.get("tri", ()), st.g.get("one", ())
        if (not tri and not one) or p.isconst():
            return p
        key = lambda q: next(iter(q.t))
        for _ in range(50):
            hit = False
            for q in one:
                m = key(q)
                if m in p.t:
                    c = p.t[m]
                    p = Poly({k: v for k, v in p.t.items() if k != m}) + Poly({(): c})
                    hit = True
            if len(p.t) >= 2:
                for N, A_, B_ in tri:
                    n, a, b = key(N), key(A_), key(B_)
                    for x, y, z, sg in ((a, b, n, 1), (n, a, b, -1), (n, b, a, -1)):
                        for m in list(p.t):
                            if m not in p.t or (x != a or sg < 0) and False:
                                continue
                            q = mmul(m, mpow(x, -1))
                            m2 = mmul(q, y)
                            if m2 == m or m2 not in p.t:
                                continue
                            c, d = p.t[m], p.t[m2]
                            if d != (c[0] * sg, c[1] * sg):
                                continue
                            p = Poly({k: v for k, v in p.t.items() if k not in (m, m2)}) + Poly({mmul(q, z): c})
                            hit = True
            if not hit:
                return p
        return p

    # ------------------------------------------------------------------ zero / sign logic
    def Zatom(self, a):
        at = Atoms.by[a]
        if at.kind == "phase":
            return z3.BoolVal(False)
        if at.kind == "conj":
            return self.Zatom(at.conj)
        if at.info and at.info[0] in ("inv", "pos"):
            return z3.BoolVal(False)
        if at.info and at.info[0] == "sqrt":
            return self.Zraw(at.info[1])
        if at.fam.startswith("cw") and len(at.fam) == 4:
            return self.zcw[at.fam[2]][int(at.fam[3])](at.args[0])
        return z3.Bool(f"Z!{at.name}")

    def Zraw(self, p):
        if p.isconst():
            return z3.BoolVal(p.is0())
        if p.ismono():
            (m, c), = p.t.items()
            l = [self.Zatom(a) for a, e in m if e > 0]
            return z3.Or(*l) if l else z3.BoolVal(False)
        den = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    den[a] = max(den.get(a, 0), -e)
        if den:
            p = p * Poly({tuple(sorted(den.items())): (1, 0)})
        n, nc = normal_scale(p), normal_scale(p.conj())
        if nc.key() < n.key():
            n = nc
        k = n.key()
        if k not in self.zreg:
            self.zreg[k] = (z3.Bool(f"Zp!{len(self.zreg)}"), n)
        return self.zreg[k][0]

    def Zc(self, st, p):
        """the boolean 'p = 0'; the axioms that tie it to the other literals are added to the path"""
        if p.isconst():
            return p.is0()
        if p.ismono():
            r = self.Zraw(p)
            self.notelit(st, r, p)
            return conc(r)
        r = self.Zraw(p)
        known = st.g.get("known", frozenset())
        key = ("zl", r.get_id())
        if key in known:
            return r
        st.g = {**st.g, "known": known | {key}}
        self.notelit(st, r, p)
        ms = [Poly({m: c}) for m, c in p.t.items()]
        real = p == p.conj()
        if len(ms) <= 4:
            zs = [self.Zraw(m) for m in ms]
            for j in range(len(ms)):
                others = [z for i, z in enumerate(zs) if i != j]
                st.assume(z3.Implies(z3.And(r, *others), zs[j]))
            st.assume(z3.Implies(z3.And(*zs), r))
        if real:
            st.assume(r == (self.lin(st, p) == 0))
            prev = st.g.get("zreal", ())
            for q in prev:
                s = q + p * IU
                st.assume(z3.And(self.Zraw(q), r) == self.Zc(st, s) if not s.isconst() else True)
            st.g = {**st.g, "zreal": prev + (p,)}
        return r

    def Z(self, st, p):
        r = self.Zc(st, p)
        return r if z3.is_expr(r) else z3.BoolVal(r)

    def notelit(self, st, r, p):
        zl = st.g.get("zl", ())
        if not any(b.get_id() == r.get_id() for b, q in zl):
            st.g = {**st.g, "zl": zl + ((r, p),)}

    def lin(self, st, p):
        """real polynomial as a linear z3 term over its monomials"""
        terms = []
        seen = set()
        for m, c in p.t.items():
            if m in seen:
                continue
            if m == ():
                terms.append(z3.RealVal(str(Fraction(c[0]))))
                continue
            mc = mconj(m)
            re, im = self.monoreal(st, m, mc)
            if mc == m:
                seen.add(m)
                terms.append(z3.RealVal(str(Fraction(c[0]))) * re)
            else:
                seen.add(m); seen.add(mc)
                terms.append(z3.RealVal(str(Fraction(2 * c[0]))) * re - z3.RealVal(str(Fraction(2 * c[1]))) * im)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(*terms) if len(terms) > 1 else terms[0]

    def monoreal(self, st, m, mc):
        k = min(m, mc)
        if k not in self.R:
            self.R[k] = (z3.Real(f"Re!{len(self.R)}"), z3.Real(f"Im!{len(self.R)}"))
        re, im = self.R[k]
        known = st.g.get("known", frozenset())
        key = ("mr", re.get_id())
        if key not in known:
            st.g = {**st.g, "known": known | {key}}
            z = self.Zraw(Poly({k: (1, 0)}))
            if m == mc:
                d = dict(m)
                square = all((d.get(Atoms.by[a].conj) == e if Atoms.by[a].kind in ("complex", "conj") else e % 2 == 0 or
                              (Atoms.by[a].info and Atoms.by[a].info[0] in ("sqrt", "pos", "nonneg"))) for a, e in m)
                st.assume((re == 0) == z)
                if square:
                    st.assume(re >= 0)
            else:
                st.assume(z3.And(re == 0, im == 0) == z)
        if m != k:
            return re, -im
        return re, im

    def clear_den(self, d):
        """multiply a real polynomial by positive norm monomials to remove negative exponents"""
        need = {}
        for m in d.t:
            for a, e in m:
                if e < 0:
                    need[a] = max(need.get(a, 0), -e)
        for a, e in need.items():
            at = Atoms.by[a]
            if at.kind in ("complex", "conj"):
                e2 = max(e, need.get(at.conj, 0))
                if a < at.conj or at.conj not in need:
                    d = d * Poly({tuple(sorted(((a, e2), (at.conj, e2)))): (1, 0)})
            elif at.kind == "real":
                d = d * Poly.atom(a, e + (e % 2 if not (at.info and at.info[0] == "sqrt") else 0))
        return d

    draw_hook = None

    def Lt(self, st, a, b):
        if self.draw_hook is not None:
            r = self.draw_hook(self.vc, st, a, b)
            if r is not None:
                return r
        x, y = self.asint(a), self.asint(b)
        if x is not None and y is not None:
            return conc(x < y)
        d = b - a
        if d.isconst():
            return d.constval()[0] > 0
        d = self.clear_den(d)
        d = self.redsq(d)
        if d.isconst():
            return d.constval()[0] > 0
        self.Zc(st, d)
        return self.lin(st, d) > 0

    def redsq(self, p):
        """sqrt(x)^2 -> x"""
        for _ in range(20):
            for m, c in p.t.items():
                hit = None
                for a, e in m:
                    at = Atoms.by[a]
                    if at.info and at.info[0] == "sqrt" and e >= 2:
                        hit = (a, e, at.info[1])
                        break
                if hit:
                    a, e, q = hit
                    rest = tuple((x, y) for x, y in m if x != a) + (((a, e - 2),) if e > 2 else ())
                    p = Poly({k: v for k, v in p.t.items() if k != m}) + Poly({tuple(sorted(rest)): c}) * q
                    break
            else:
                return p
        return p

    # ------------------------------------------------------------------ denotations
    def lv(self, l):
        if isinstance(l, int):
            l = z3.BitVecVal(l & 0xffffffff, 32)
        return z3.simplify(l)

    def D(self, k, ref, l):
        l = self.lv(l)
        return Poly.atom(Atoms.get("D" + k, (ref, l)))

    def P(self, k, a, b, l):
        """product entry: k='m' operator*operator, 'v' operator*state"""
        l = self.lv(l)
        return Poly.atom(Atoms.get("P" + k, (a, b, l)))

    def ent(self, e, l):
        if not isinstance(e.n, NodePtr):
            raise Unsupported(f"edge without node: {e.n}")
        return e.w * self.D(e.k, e.n.ref, l)

    def valid(self, e, l):
        """z3: the edge is a diagram on qubits 0..l"""
        v = self.var[e.k](e.n.ref)
        l = self.lv(l)
        if e.k == "m":
            return v <= l
        t = e.n.ref == self.T["v"]
        return z3.And(z3.Or(t, v == l), z3.Implies(z3.And(t, l >= 0), self.Zraw(e.w)))

    # ------------------------------------------------------------------ prover
    def prove_bool(self, st, c):
        self.stats["bool"] += 1
        return self.vc.entails(st, c)

    def add_eq(self, st, p, lead=None, guard=None):
        if p.is0():
            return
        st.eqs.append((guard, p, lead))

    def prove_zero(self, st, p, L=None, quick=False):
        """p == 0 on this path for every r, c; L: the qubit at which atoms may be unfolded"""
        self.stats["poly"] += 1
        Ls = [] if L is None else (L if isinstance(L, list) else [L])
        if len(st.eqs) > 6:
            # first with the equations that share weights with the goal only
            self.near = True
            try:
                if self._pz(st.copy(), p, Ls):
                    return True
            finally:
                self.near = False
            if quick:
                return False
        return self._pz(st.copy(), p, Ls)

    near = False

    def nearrules(self, p, eqs, lits):
        free = lambda q: {a for a in q.atoms() if not Atoms.by[a].args and not (Atoms.by[a].kind == "conj" and Atoms.by[Atoms.by[a].conj].args)}
        base = lambda S: S | {Atoms.by[a].conj for a in S if Atoms.by[a].conj is not None}
        cur = base(p.atoms())
        left = [(g, q, l, base(free(l))) if l is not None else (g, q, l, set()) for g, q, l in eqs]
        out = []
        ll = list(lits)
        while True:
            n = len(left) + len(ll)
            for x in list(ll):
                if x.atoms() & cur:
                    cur |= base(x.atoms())
                    ll.remove(x)
            rest = []
            for x in left:
                if x[3] <= cur:
                    out.append(x[:3])
                    cur |= base(x[1].atoms())
                else:
                    rest.append(x)
            left = rest
            if len(left) + len(ll) == n:
                return out

    def _pz(self, st, p, Ls):
        if p.is0():
            return True
        if not self.vc.feasible(st):
            return True
        q, _ = self.reduce(st, p)
        if q is None or q.is0():
            return True
        if not Ls:
            d = clear(q)        # multiplied by its denominators (not zero, they have been divided by)
            if d is None:
                return False
            q, _ = self.reduce(st, d)
            return q is None or q.is0()
        L, rest = Ls[0], Ls[1:]
        L = self.lv(L)
        for r in (False, True):
            for c in (False, True):
                s = st.copy()
                s.assume(self.rb(L) == r, self.cb(L) == c)
                if not self.vc.feasible(s):
                    continue
                if not self._unf(s, q, L, rest, r, c, 0):
                    return False
        return True

    def _unf(self, st, p, L, rest, r, c, depth):
        """reduce with the equations known here, unfold what is left at level L (splitting on shape where open)"""
        if depth > 60:
            return False
        q, led = self.reduce(st, p)
        if q is None or q.is0():
            return True
        cand = []
        for a in sorted(q.atoms()):
            at = Atoms.by[a]
            base = at if at.kind != "conj" else Atoms.by[at.conj]
            if base.fam not in FAMS and base.fam not in self.defs:
                continue
            if not self.prove_eq(st, base.args[-1], L):
                continue
            cand.append((base.id in led, a))
        if not cand:
            if not rest and DEBUG:
                print("LEAF", str(q)[:600])
            return self._pz(st, q, rest) if rest else False
        cand.sort()
        a = cand[0][1]
        at = Atoms.by[a]
        base = at if at.kind != "conj" else Atoms.by[at.conj]
        try:
            u = self.unfold(st, base, L, r, c)
        except PathEnd:
            return True
        except Split as sp:
            for cond in sp.conds:
                s = st.copy()
                s.assume(cond)
                if self.vc.feasible(s) and not self._unf(s, q, L, rest, r, c, depth + 1):
                    return False
            return True
        if at.kind == "conj":
            u = u.conj()
        return self._unf(st, q.subst(a, u), L, rest, r, c, depth + 1)

    def prove_eq(self, st, a, b):
        if a.get_id() == b.get_id() or a.eq(b):
            return True
        return self.vc.entails(st, a == b)

    def dcase(self, st, c):
        return self.vc.decide(st, c)

    def unfold(self, st, at, L, r, c):
        fam = at.fam
        if fam in self.defs:
            return self.defs[fam].unfold(self, st, at, L, r, c)
        if fam[0] == "D":
            k, ref = fam[1], at.args[0]
            return self.unfD(st, k, ref, L, r, c)
        a, b = at.args[0], at.args[1]
        k = fam[1]
        if fam[0] == "K":
            return self.unfK(st, k, a, b, L, r, c)
        self.mat(st, "m", a)
        self.mat(st, k, b)
        if self.dcase(st, L == -1):
            return ONE
        if self.dcase(st, a == self.T["m"]):
            return self.unfD(st, k, b, L, r, c)
        if k == "m" and self.dcase(st, b == self.T["m"]):
            return self.unfD(st, "m", a, L, r, c)
        out = ZERO
        for kk in (0, 1):
            A = self.block(st, "m", a, L, 2 * int(r) + kk)
            B = self.block(st, k, b, L, (2 * kk + int(c)) if k == "m" else kk)
            if A is None or B is None:
                continue
            out = out + A[0] * B[0] * self.P(k, A[1], B[1], L - 1)
        return out

    def K(self, k, a, b, l):
        """entry of the Kronecker product of a (on the qubits above those of b) and b, on qubits 0..l"""
        return Poly.atom(Atoms.get("K" + k, (a, b, self.lv(l))))

    def unfK(self, st, k, a, b, L, r, c):
        self.mat(st, k, a)
        self.mat(st, k, b)
        if self.dcase(st, a == self.T[k]):
            return self.D(k, b, L)
        if self.dcase(st, b == self.T[k]):
            return self.D(k, a, L)
        # top qubit of a sits at L
        i = 2 * int(r) + int(c) if k == "m" else int(r)
        if self.dcase(st, self.zcw[k][i](a)):
            return ZERO
        return self.cw(k, i, a) * self.K(k, self.cn[k][i](a), b, L - 1)

    def full(self, k, ref, l):
        """the operator is stored with a node on every qubit (zero parts excepted)"""
        f = z3.Function("full_" + k, self.Sort[k], BV32, z3.BoolSort())
        return f(ref, self.lv(l))

    def full_facts(self, st, k, ref):
        v = self.var[k](ref)
        nt = ref != self.T[k]
        for i in range(self.nc[k]):
            c = self.cn[k][i](ref)
            st.assume(z3.Implies(z3.And(nt, self.full(k, ref, v)),
                                 z3.Or(self.zcw[k][i](ref), z3.And(self.var[k](c) == v - 1, self.full(k, c, v - 1)))))

    def block(self, st, k, ref, L, i):
        """block i of node ref seen at qubit L: (weight, node) or None when zero"""
        if k == "v":
            return (self.cw("v", i, ref), self.cn["v"][i](ref))
        if self.dcase(st, self.var["m"](ref) == L):
            return (self.cw("m", i, ref), self.cn["m"][i](ref))
        return (ONE, ref) if i in (0, 3) else None

    def unfD(self, st, k, ref, L, r, c):
        self.mat(st, k, ref)
        if self.dcase(st, L == -1):
            return ONE
        if k == "v":
            if self.dcase(st, ref == self.T["v"]):
                return ZERO          # the zero vector (its weight is zero as well)
            i = int(r)
            return self.cw("v", i, ref) * self.D("v", self.cn["v"][i](ref), L - 1)
        if self.dcase(st, self.var["m"](ref) == L):
            i = 2 * int(r) + int(c)
            if self.splitz and self.dcase(st, self.zcw["m"][i](ref)):
                return ZERO
            return self.cw("m", i, ref) * self.D("m", self.cn["m"][i](ref), L - 1)
        return self.D("m", ref, L - 1) if r == c else ZERO

    splitz = False

    # reduce p modulo what the path knows
    def reduce(self, st, p):
        vc = self.vc
        m = vc.solver.model(st.pc)
        if m is None:
            return None, []

        def ev(c):
            return z3.is_true(m.eval(c, model_completion=True))

        rules = []
        eqs = st.eqs
        if self.near:
            eqs = self.nearrules(p, eqs, [q for b, q in st.g.get("zl", ()) if not q.ismono()])
        for g, q, lead in eqs:
            if g is not None:
                if not ev(g) or not vc.entails(st, g):
                    continue
            rules.append([q, lead])
        # zero literals known on the path
        sub = {}
        units = set()
        work = [p] + [q for q, l in rules]
        atoms = set()
        for q in work:
            atoms |= q.atoms()
        lits = [q for b, q in st.g.get("zl", ()) if not q.ismono() and ev(b) and vc.entails(st, b)]
        for q in lits:
            atoms |= q.atoms()
        # merge congruent atoms
        byfam = {}
        for a in sorted(atoms):
            at = Atoms.by[a]
            if at.args and at.kind != "conj" and all(hasattr(x, "get_id") for x in at.args):
                byfam.setdefault(at.fam, []).append(at)
        ren = {}
        for fam, l in byfam.items():
            reps = []
            for at in l:
                for rp in reps:
                    eq = z3.And(*[x == y for x, y in zip(at.args, rp.args)])
                    if ev(eq) and vc.entails(st, eq):
                        ren[at.id] = rp.id
                        break
                else:
                    reps.append(at)
        # level -1 base case and identity nodes
        for a in sorted(atoms):
            at = Atoms.by[a]
            if at.kind == "conj" or a in ren:
                continue
            if at.fam in self.defs:
                b = self.defs[at.fam].base(self, st, at)
                if b is not None:
                    c = at.args[-1] == -1
                    if ev(c) and vc.entails(st, c):
                        sub[a] = b
                continue
            if at.fam in FAMS:
                c = at.args[-1] == -1
                if at.fam[0] != "K" and ev(c) and vc.entails(st, c):
                    sub[a] = ONE
                    continue
                if at.fam in ("Pm", "Pv"):
                    c = at.args[0] == self.T["m"]
                    if ev(c) and vc.entails(st, c):
                        sub[a] = self.D(at.fam[1], at.args[1], at.args[2])
                        continue
                if at.fam in ("Km", "Kv"):
                    for x, y in ((0, 1), (1, 0)):
                        c = at.args[x] == self.T[at.fam[1]]
                        if ev(c) and vc.entails(st, c):
                            sub[a] = self.D(at.fam[1], at.args[y], at.args[2])
                            break
                    continue
                if at.fam == "Pm":
                    c = at.args[1] == self.T["m"]
                    if ev(c) and vc.entails(st, c):
                        sub[a] = self.D("m", at.args[0], at.args[2])
                        continue
                continue
            z = self.Zatom(a)
            if ev(z):
                if vc.entails(st, z):
                    sub[a] = ZERO
            elif vc.entails(st, z3.Not(z)):
                units.add(a)
                units.add(at.conj if at.conj is not None else a)

        def app(q):
            for _ in range(6):
                q0 = q
                for a in list(q.atoms()):
                    base = a if Atoms.by[a].kind != "conj" else Atoms.by[a].conj
                    if base in ren:
                        q = q.subst(a, Poly.atom(ren[base] if a == base else Atoms.by[ren[base]].conj))
                    elif base in sub:
                        q = q.subst(a, sub[base] if a == base else sub[base].conj())
                if q == q0:
                    break
            return self.redsq(q)

        def addsub(a, e):
            base = a if Atoms.by[a].kind != "conj" else Atoms.by[a].conj
            sub[base] = e if a == base else e.conj()

        # solve the equation literals for one atom each
        for q in lits:
            q = app(q)
            if q.is0():
                continue
            self.solve(q, units, addsub)
        p = app(p)
        rl = []
        for q, lead in rules:
            q2 = app(q)
            if q2.is0():
                continue
            lm = None
            if lead is not None:
                l2 = app(lead)
                if l2.ismono():
                    lm = next(iter(l2.t))
            rl.append((q2, lm))
        return self.rewrite(p, rl, units)

    def solve(self, q, units, addsub):
        """use q == 0 to eliminate one atom: q = c*m*a + rest, m made of units, a not in rest"""
        for m, c in sorted(q.t.items(), key=lambda x: -max([a for a, _ in x[0]], default=0)):
            for a, e in sorted(m, key=lambda x: -x[0]):
                at = Atoms.by[a]
                if at.kind not in ("complex", "conj") or at.fam in FAMS or at.fam in self.defs:
                    continue
                if abs(e) != 1:
                    continue
                others = [x for x, _ in m if x != a]
                if any(x not in units for x in others):
                    continue
                if any(x in (a, at.conj) for mm in q.t if mm != m for x, _ in mm):
                    continue
                rest = Poly({k: v for k, v in q.t.items() if k != m})
                coef = Poly({tuple((x, y) for x, y in m if x != a): c})
                val = (-rest) * coef.inv()
                if e == -1:
                    if not val.ismono():
                        continue
                    val = val.inv()
                addsub(a, val)
                return True
        return False

    def orient(self, q, lm, units):
        if lm is None or lm not in q.t:
            # newest atom leads
            lm = max(q.t, key=lambda m: max([a for a, _ in m], default=-1))
        core = [(a, e) for a, e in lm if a not in units] or list(lm)
        if not core:
            return []
        out = [(lm, core, q)]
        ql = q.conj()
        if ql != q:
            lc = mconj(lm)
            if lc in ql.t:
                out.append((lc, [(a, e) for a, e in lc if a not in units] or list(lc), ql))
        return out

    @staticmethod
    def divides(core, m):
        d = dict(m)
        return all(d.get(a, 0) >= e > 0 for a, e in core)

    def rewrite(self, p, rl, units):
        """normal form of p modulo the equations; an equation whose leading term is itself reducible is reduced first"""
        rules = [(q, self.orient(q, lm, units)) for q, lm in rl]
        for _ in range(40):
            bad = None
            for i, (q, o) in enumerate(rules):
                if not o:
                    continue
                others = [x for j, (q2, o2) in enumerate(rules) if j != i for x in o2]
                if any(self.divides(core, o[0][0]) for lm, core, q2 in others):
                    bad = i
                    break
            if bad is None:
                break
            q, o = rules.pop(bad)
            n = self.nf(q, [x for q2, o2 in rules for x in o2])
            if not n.is0():
                rules.append((n, self.orient(n, None, units)))
        ori = [x for q, o in rules for x in o]
        led = {a for lm, core, q in ori for a, e in core}
        return self.nf(p, ori), led

    def nf(self, p, ori):
        for _ in range(400):
            hit = False
            for lm, core, q in ori:
                for m in list(p.t):
                    if self.divides(core, m):
                        c = p.t[m]
                        f = Poly({mmul(m, mpow(lm, -1)): c}).scale(cinv(q.t[lm]))
                        n = p - f * q
                        if m in n.t:
                            continue
                        p = n
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
        return p
