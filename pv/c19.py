"""Contracts of the qubit relayout of the distributed simulator: do_swap_v1, do_swap_v2, restore_swap, and _evaluate_circuit in distributed mode."""
import sys, types
import z3
import engine as E
import qmodel as Q
from engine import I, B, Rv, Dig, Obj, Term, Lam, View, VList, VDict, VSet, QComp, Sym, Seq, Undecided, PathEnd, zi, zb, mki, mkb, same, seq, snapshot, seqinv, checkinv
from qmodel import NQ, QB, N, NC, LEN, Fac, Op, State
from contracts import Run, Spec, base_of, Evaluate, DataLoop, zz, ShotLoop
INT, BOOL = z3.IntSort(), z3.BoolSort()
Z = z3.Function


def inv(c, what):
    if not E.CTX.surely(c):
        raise Undecided(f"invariant not established: {what}")


class Perm:
    """a permutation of 0..N-1 with its inverse"""
    def __init__(self, tag):
        C = E.CTX
        self.f, self.g = Z(C.fresh(tag), INT, INT), Z(C.fresh(tag + "inv"), INT, INT)
        q = z3.Int(C.fresh("pq"))
        f, g = self.f, self.g
        C.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(f(q) >= 0, f(q) < N, g(f(q)) == q)), patterns=[f(q)]))
        C.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(g(q) >= 0, g(q) < N, f(g(q)) == q)), patterns=[g(q)]))


def ident(N):
    return Lam(I(N), lambda i: i if type(i) is int else I(zi(i)), "range(0,N)", True)


def setmap(d, f):
    """dictionary of all qubits to positions"""
    d.has0, d.val0, d.keys0, d.writes = (lambda x: z3.And(zi(x) >= 0, zi(x) < N) if type(x) in (int, I) else z3.BoolVal(False)), (lambda x: I(f(zi(x)))), ident(N), []


def newmap(f, site):
    d = VDict((), site)
    setmap(d, f)
    return d


class Layout:
    """positions of qubits: what a state's or operator's factors do to them"""
    def move(self, p, fs):
        for f in fs:
            if f.kind == "gate" and f.mat == "swap" and not f.ctl:
                a, b = zi(f.tgt[0]), zi(f.tgt[1])
                p = z3.If(p == a, b, z3.If(p == b, a, p))
            elif f.kind == "gate" and f.mat == "I" and not f.args:
                pass
            elif f.kind == "relayout":
                p = f.extra[1](f.extra[0](p))
            else:
                return None
        return p

    def layout(self, st, q):
        f = self.layouts.get(st.base)
        return None if f is None else self.move(f(q), st.fs)


class Sets:
    """finite sets of qubits, their sizes and listings"""
    hints = []

    def start(self):
        super().start()
        self.layouts, self.hints, self.perms, self.seqs = {}, [], [], []
        self.regions = None

    # ---- finite sets of qubits, by the regions they cut out of 0..N-1
    def setlen(self, s):
        C = E.CTX
        if s.size0 is not None and not s.ops:
            return s.size0
        if s.pred is None and not s.ops:
            return 0
        if s.ops and s.ops[-1][0] == "add":
            x = s.ops[-1][1]
            t = VSet("rest", s.pred, s.ops[:-1], s.size0 if not s.ops[:-1] else None, s.elems0)
            C.objs[:] = [o for o in C.objs if o is not t]
            if type(x) in (int, I) and C.proved(z3.Not(t.mem(x))):
                return self.setlen(t) + 1
        x = z3.Int(C.fresh("rx"))
        R = z3.And(x >= 0, x < N)
        m = s.mem(I(x))
        if not C.proved(z3.Implies(m, R)):
            raise Undecided("size of a set that is not one of qubits")
        if self.regions is None:
            self.regions = [(lambda x: z3.BoolVal(True), N)]
        parts, rest = [], []
        for pr, n in self.regions:
            if C.proved(z3.Implies(z3.And(R, pr(x)), m)):
                parts.append(n)
            elif not C.proved(z3.Implies(z3.And(R, pr(x)), z3.Not(m))):
                rest.append((pr, n))
        if rest:
            if len(self.regions) > 16:
                raise Undecided("too many sets")
            st = s.state()
            new = []
            for pr, n in self.regions:
                if any(pr is p for p, _ in rest):
                    a, b = z3.Int(C.fresh("region")), z3.Int(C.fresh("region"))
                    C.assume(z3.And(a >= 0, b >= 0, a + b == n))
                    new += [(lambda x, pr=pr: z3.And(pr(x), E.setmem(st, I(x))), a), (lambda x, pr=pr: z3.And(pr(x), z3.Not(E.setmem(st, I(x)))), b)]
                    parts.append(a)
                else:
                    new.append((pr, n))
            self.regions = new
            self.trusted.add("lemma: the size of a finite set is the sum of the sizes of the disjoint parts it is made of")
        return mki(sum(parts, z3.IntVal(0)))

    def nonempty(self, s):
        return zi(self.setlen(s)) > 0

    def setlist(self, s):
        """the elements in some order"""
        C = E.CTX
        if s.elems0 is not None and not s.ops:
            return C.newlist(s.elems0, "list(set)")
        n = self.setlen(s)
        n = I(zi(n))
        st = s.state()
        e, ix = Z(C.fresh("elem"), INT, INT), Z(C.fresh("elemidx"), INT, INT)
        i, x = z3.Int(C.fresh("ei")), z3.Int(C.fresh("ex"))
        C.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(E.setmem(st, I(e(i))), ix(e(i)) == i, e(i) >= 0, e(i) < N)), patterns=[e(i)]))
        C.assume(z3.ForAll([x], z3.Implies(E.setmem(st, I(x)), z3.And(ix(x) >= 0, ix(x) < zi(n), e(ix(x)) == x)), patterns=[ix(x)]))
        self.trusted.add("lemma: a finite set can be listed, each element once")
        b = lambda i: I(e(zi(i)))
        b.inv = lambda x: (E.setmem(st, I(x)), ix(x))
        r = VList(None, "list(set)", n, b)
        self.seqs.append(snapshot(r))
        return r

    def sortedseq(self, q, **kw):
        C = E.CTX
        if kw:
            raise Undecided("sorted with a key")
        sn = snapshot(q)
        n = sn.length()
        iv = seqinv(sn)
        if iv is None or E.ascending(sn):
            return super().sortedseq(q, **kw)
        f, g = Z(C.fresh("sorted"), INT, INT), Z(C.fresh("sortedinv"), INT, INT)
        i = z3.Int(C.fresh("si"))
        C.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(f(i) >= 0, f(i) < zi(n), g(f(i)) == i)), patterns=[f(i)]))
        C.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(n)), z3.And(g(i) >= 0, g(i) < zi(n), f(g(i)) == i)), patterns=[g(i)]))
        self.trusted.add("lemma: sorting is a permutation of the positions of a list")
        b = lambda i: sn.get(I(f(zi(i))))
        b.inv = lambda x: (iv(x)[0], g(iv(x)[1]))
        r = VList(None, "sorted", n, b)
        self.seqs.append(snapshot(r))
        return r

    def setpop(self, s):
        C = E.CTX
        n = self.setlen(s)
        if not mkb(zi(n) > 0):
            raise KeyError("pop from an empty set")
        x = C.int("popped")
        C.assume(s.mem(x))
        s.discard(x)
        return x

    def dictcomp(self, qc, site):
        try:
            return super().dictcomp(qc, site)
        except Undecided:
            pass
        if qc.cond is not None or type(qc.val) is not tuple:
            raise Undecided("dictionary comprehension")
        k, v = qc.val
        C = E.CTX
        n = zi(qc.length())
        j = qc.j
        K = lambda i: z3.substitute(zi(k), (j, i))
        a = z3.Int(C.fresh("ka"))
        inv(z3.Implies(z3.And(0 <= j, j < n, 0 <= a, a < n, K(j) == K(a)), j == a), "distinct keys of a dictionary comprehension")
        H, V = Z(C.fresh("haskey"), INT, BOOL), Z(C.fresh("keypos"), INT, INT)

        def has(x):
            if type(x) not in (int, I):
                return z3.BoolVal(False)
            z = zi(x)
            C.assume(z3.Implies(H(z), z3.And(V(z) >= 0, V(z) < n, K(V(z)) == z)))
            for c in [p.g(z) for p in self.perms] + self.hints:      # instances of: H(K(i)) for every i in range
                C.assume(z3.Implies(z3.And(0 <= c, c < n), z3.And(H(K(c)), V(K(c)) == c)))
            return H(z)
        return VDict((), site, has, lambda x: E.subst(v, j, V(zi(x))), None)


class Relayout(Sets, Layout, Run):
    prefix = "C19"
    mpi = True
    stable = True
    finite = True

    # ---- loops
    def loop(self, loop):
        if loop.while_:
            return Scan(self, loop)
        b = base_of(loop.q)
        if str(getattr(b, "name", "")).startswith("range("):
            return SwapLoop(self, loop)
        return None

    def hvar(self, loop, name, v):
        if isinstance(v, (VDict, VSet, VList, Op, State)):
            return None
        return super().hvar(loop, name, v)

    def wellformed(self):
        k, j = z3.Ints("wk wj")
        E.CTX.assume(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < LEN, 0 <= j, j < NQ(k)), z3.And(QB(k, j) >= 0, QB(k, j) < N)), patterns=[QB(k, j)]))
        E.CTX.assume(z3.ForAll([k], NQ(k) >= 0, patterns=[NQ(k)]))

    def split(self, k):
        return False

    def common(self):
        C = E.CTX
        self.circ = self.circuit()
        self.wellformed()
        self.M0 = Perm("pos")
        self.perms.append(self.M0)
        self.layouts["S0"] = self.M0.f
        self.map = newmap(self.M0.f, "map")
        b = self.backend()
        g = sys.modules["qdd.qdd_backend"].__vcglobals__
        b.qubitmap = VDict((), "qubitmap", lambda x: z3.And(x.z >= 0, x.z < N) if type(x) is Obj and x.kind == "qubit" else z3.BoolVal(False), lambda x: I(x.z), None)
        return b

    def bad(self, e):
        """an exception on a path: only a definite one counts"""
        C = E.CTX
        if C.check() == z3.unsat:
            raise PathEnd()
        r, m = C.full(ms=8000)
        if r == z3.unsat:
            raise PathEnd()
        if r != z3.sat:
            m = C.finite()
            r = z3.sat if m is not None else r
        if r != z3.sat:
            raise Undecided(f"{type(e).__name__}: {e} cannot be excluded")
        C.results.append(("C19 moving qubits does not fail", False, f"{type(e).__name__}: {e} {str(m)[:800]}", C.trace()))

    def agrees(self, st, d, label="C19 the recorded positions are those the exchanges lead to"):
        C = E.CTX
        if type(st) is not State or type(d) is not VDict:
            raise Undecided(f"result {st!r} {d!r}")
        q = C.int("anyq")
        C.assume(z3.And(q.z >= 0, q.z < N))
        p = self.layout(st, q.z)
        if p is None:
            C.fact(False, "C19 nothing but exchanges is applied", repr(st))
            return None
        h = d.has0(q) if d.has0 is not None else z3.BoolVal(False)
        for k, v in d.writes:
            h = z3.Or(zb(h), same(k, q))
        C.prove(h, "C19 every qubit has a recorded position")
        v = VDict.valat(d.state(), q) if d.has0 is not None else d[q]
        C.prove(zi(v) == p, label)
        return q, zi(v)


class SwapLoop:
    """loop that exchanges positions: the recorded positions are those the exchanges so far lead to"""
    def __init__(self, s, l):
        self.s, self.l = s, l
        self.map = self.sv = None
        self.ready = False

    def enter(self, loop, loc):
        s, C = self.s, E.CTX
        self.pair = None
        mods = [o for o in loop.objs0.values() if o.key in loop.info.mod_objs]
        ds = [o for o in mods if type(o) is VDict]
        if len(ds) > 1:
            raise Undecided("several dictionaries modified in a loop")
        self.map = ds[0] if ds else None
        sv = [n for n in loop.info.mod_vars if type(loc.get(n)) in (State, Op)]
        if len(sv) > 1:
            raise Undecided("several states modified in a loop")
        self.sv = sv[0] if sv else None
        self.targets = [o for n, o in loc.items() if type(o) is VDict and o is not self.map and o.has0 is not None and o.keys0 is not None]
        if self.map is None and self.sv is None:
            return
        if self.map is None or self.sv is None:
            return        # not everything the loop modifies is known yet (or: not together, see back)
        self.ready = True
        v = loc[self.sv]
        q = z3.Int(C.fresh("eq"))
        R = z3.And(q >= 0, q < N)
        st = self.map.state()
        if st[0] is None:
            raise Undecided("the map of positions")
        val = zi(VDict.valat(st, I(q)))
        self.entry = lambda x: zi(VDict.valat(st, I(x)))
        if type(v) is State:
            p = s.layout(v, q)
            if p is None:
                raise Undecided(f"state {v!r}")
            C.prove(z3.Implies(R, p == val), "C19 the recorded positions are those the exchanges lead to")
            self.e0 = None
        else:
            if Q.reduce(list(v.fs)):
                raise Undecided("operator at loop entry")
            # the positions before the loop: a permutation by the layout of the state
            e0 = None
            for p in s.perms:
                if C.surely(z3.Implies(R, p.f(q) == val)):
                    e0 = p
            if e0 is None:
                raise Undecided("positions at loop entry")
            self.e0 = e0
        self.pair = None
        if self.e0 is not None:
            ls = [(n, o) for n, o in loc.items() if type(o) is VList and o.conc is None and seqinv(o) is not None and C.proved(zi(o.length()) == zi(loop.n))]
            for i, (n, a) in enumerate(ls):
                for m, b in ls[i + 1:]:
                    if not getattr(loop.info, "nopair", False):
                        self.pair = (snapshot(a), snapshot(b))

    def sources(self, loop):
        return self.s.seqs

    def hobj(self, loop, o):
        if o is self.map:
            self.P = Perm("pos")
            self.s.perms.append(self.P)
            setmap(o, self.P.f)
            return True
        return False

    def hvar(self, loop, name, v):
        if name == self.sv:
            s = self.s
            if not self.ready:
                return State(E.CTX.fresh("anystate")) if type(v) is State else Op([Fac("opaque", None, (), (), (), Term(E.CTX.fresh("P@")))])
            if type(v) is State:
                b = E.CTX.fresh("S@")
                s.layouts[b] = self.P.f if hasattr(self, "P") else None
                return State(b)
            return Op([Fac("relayout", None, (), (), (), (self.e0.g, self.P.f))])
        return None

    def closed(self, k, q):
        """positions after k exchanges of the entries of two lists"""
        a, b = self.pair
        e = self.entry
        ia, ib = seqinv(a)(q), seqinv(b)(q)
        return z3.If(z3.And(ia[0], ia[1] < k), e(zi(b.get(I(ia[1])))), z3.If(z3.And(ib[0], ib[1] < k), e(zi(a.get(I(ib[1])))), e(q)))

    def head(self, loop, new):
        C = E.CTX
        if not self.ready:
            return
        j = z3.Int(C.fresh("hj"))
        self.tg = []
        for t in self.targets:
            if t.key in getattr(loop.info, "notarget", ()):
                continue
            st = t.state()
            f = lambda x, st=st: zi(VDict.valat(st, I(x)))
            self.tg.append((t.key, f))
            C.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < loop.k.z), self.P.f(j) == f(j)), patterns=[self.P.f(j)]))
        if self.pair:
            C.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), self.P.f(j) == self.closed(loop.k.z, j)), patterns=[self.P.f(j)]))
        self.s.hints = list(self.s.hints) + [loop.k.z]

    def exit(self, loop, new):
        pass

    def back(self, loop, loc):
        s, C = self.s, E.CTX
        if not self.ready:
            if self.map is not None or self.sv is not None:
                raise Undecided("positions and exchanges are not changed together")
            return
        v = loc[self.sv]
        q = C.int("anyq")
        C.assume(z3.And(q.z >= 0, q.z < N))
        p = s.layout(v, q.z) if type(v) is State else s.move(self.entry(q.z), v.fs)
        if p is None:
            C.fact(False, "C19 nothing but exchanges is applied", repr(v))
            return
        val = zi(VDict.valat(self.map.state(), q))
        C.prove(val == p, "C19 the recorded positions are those the exchanges lead to")
        for key, f in self.tg:
            if not C.surely(z3.Implies(z3.And(0 <= q.z, q.z <= loop.k.z), val == f(q.z))):
                loop.info.notarget = set(getattr(loop.info, "notarget", ())) | {key}
                C.changed = True
                return
        if self.pair and not C.surely(val == self.closed(loop.k.z + 1, q.z)):
            loop.info.nopair = True
            C.changed = True


class Scan:
    """while loops of the exchange strategies: looking ahead over the circuit, and filling up to the number of local qubits"""
    def __init__(self, s, l):
        self.s, self.l = s, l
        self.fills = {}
        self.ready = False

    def enter(self, loop, loc):
        s, C = self.s, E.CTX
        self.loc = loc
        self.scan = [n for n in loop.info.mod_vars if type(loc.get(n)) is VSet]
        self.idx = [n for n, t in loop.info.mod_vars.items() if t == ("count", 1)]
        if len(self.scan) > 1:
            raise Undecided("several sets assigned in a loop")
        sets = [o for o in loop.objs0.values() if o.key in loop.info.mod_objs and type(o) is VSet]
        x = z3.Int(C.fresh("wx"))
        R = z3.And(x >= 0, x < N)
        if len(sets) == 2:
            ops = [loop.info.ops.get(o.key) for o in sets]
            if sorted(map(str, ops)) != ["add", "del"]:
                raise Undecided("sets modified in a loop")
            g, sh = sets if ops[0] == "add" else sets[::-1]
            inv(z3.And(z3.Implies(g.mem(I(x)), R), sh.mem(I(x)) == z3.And(R, z3.Not(g.mem(I(x))))), "complementary sets")
            inv(zi(s.setlen(g)) <= s.Lsz, "size of the local set")
            A = Z(C.fresh("local"), INT, BOOL)
            old = g.state()
            C.assume(z3.ForAll([x], z3.And(z3.Implies(A(x), R), z3.Implies(E.setmem(old, I(x)), A(x))), patterns=[A(x)]))
            self.fills = {id(g): lambda q: A(zi(q)), id(sh): lambda q: z3.And(zi(q) >= 0, zi(q) < N, z3.Not(A(zi(q))))}
            self.g, self.A, self.old = g, A, old
        if self.scan:
            n = self.scan[0]
            inv(z3.And(z3.Not(loc[n].mem(I(x))), zi(s.setlen(loc[n])) <= s.Lsz), "the set of qubits looked ahead is empty at first")
            if len(self.idx) != 1:
                return
            self.ready = True
            self.i0 = zi(loc[self.idx[0]])
            self.U = Z(C.fresh("ahead"), INT, INT, BOOL)
            C.assume(z3.ForAll([x], z3.Not(self.U(self.i0, x)), patterns=[self.U(self.i0, x)]))

    def sources(self, loop):
        return self.s.seqs

    def hobj(self, loop, o):
        f = self.fills.get(id(o))
        if f is None and type(o) is VSet:       # not everything the loop modifies is known yet
            A = Z(E.CTX.fresh("someset"), INT, BOOL)
            o.pred, o.ops, o.size0, o.elems0 = (lambda q: z3.And(zi(q) >= 0, zi(q) < N, A(zi(q)))), (), None, None
            self.partial = True
            return True
        if f is None:
            return False
        o.pred, o.ops, o.size0, o.elems0 = f, (), None, None
        if o is self.g:
            E.CTX.assume(zi(self.s.setlen(o)) <= self.s.Lsz)
        return True

    def hvar(self, loop, name, v):
        C = E.CTX
        if name in getattr(self, "scan", ()) and type(v) is VSet:
            if not self.ready:
                A = Z(C.fresh("someset"), INT, BOOL)
                return VSet("any", lambda q: z3.And(zi(q) >= 0, zi(q) < N, A(zi(q))))
            k = self.i0 + loop.k.z
            U = self.U
            x = z3.Int(C.fresh("sx"))
            C.assume(z3.ForAll([x], z3.Implies(U(k, x), z3.And(x >= 0, x < N)), patterns=[U(k, x)]))
            r = VSet("ahead", lambda q: U(k, zi(q)))
            n = zi(self.s.setlen(r))
            C.assume(n <= self.s.Lsz)
            if C.decide(loop.k.z == 0):
                C.assume(z3.And(n == 0, z3.ForAll([x], z3.Not(U(k, x)), patterns=[U(k, x)])))
            self.hs = r.state()
            # the operands of the first instruction looked at
            j = z3.Int(C.fresh("sj"))
            C.assume(z3.Implies(loop.k.z >= 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NQ(self.i0)), U(k, QB(self.i0, j))), patterns=[QB(self.i0, j)])))
            return r
        return None

    def head(self, loop, new):
        pass

    def exit(self, loop, new):
        pass

    def back(self, loop, loc):
        s, C = self.s, E.CTX
        if getattr(self, "partial", False):
            raise Undecided("sets modified in a loop")
        x = C.int("anyq")
        if getattr(self, "scan", None):
            v = loc[self.scan[0]]
            if type(v) is not VSet or not self.ready:
                raise Undecided("look-ahead")
            k = self.i0 + loop.k.z
            j = z3.Int(C.fresh("bj"))
            new = z3.Or(self.U(k, x.z), z3.Exists([j], z3.And(0 <= j, j < NQ(k), QB(k, j) == x.z)))
            inv(v.mem(x) == new, "the look-ahead collects the operands of the instructions passed")
            inv(zi(s.setlen(v)) <= s.Lsz, "the look-ahead stays within the number of local qubits")
        if self.fills:
            inv(z3.And(z3.Implies(E.setmem(self.old, x), self.g.mem(x)), zi(s.setlen(self.g)) <= s.Lsz), "the local set grows up to its size")
            sh = [o for o in C.objs if id(o) in self.fills and o is not self.g][0]
            inv(sh.mem(x) == z3.And(x.z >= 0, x.z < N, z3.Not(self.g.mem(x))), "complementary sets")


class Restore(Relayout):
    def run(self):
        C = E.CTX
        b = self.common()
        self.Lsz = N
        r, e = self.call(b.restore_swap, Term("MPI"), State("S0"), self.circ, self.map, B(z3.Bool("use_bcast")))
        if e is not None:
            return self.bad(e)
        st, d = r
        a = self.agrees(st, d)
        if a:
            C.prove(a[1] == a[0].z, "C19 at the end every qubit is at its own position")


class DoSwap(Relayout):
    def __init__(self, py, ver):
        super().__init__(py)
        self.ver = ver

    def run(self):
        C = E.CTX
        b = self.common()
        L = C.int("local_size")
        self.Lsz = L.z
        C.assume(z3.And(L.z >= 1, L.z <= N))
        cnt = C.int("count")
        C.assume(z3.And(cnt.z >= 0, cnt.z < LEN))
        M = self.M0
        use = B(z3.Bool("use_bcast"))
        x = z3.Int("lx")
        if self.ver == 1:
            base = lambda i: I(M.g(zi(i)))
            base.inv = lambda x: (z3.And(x >= 0, x < N, M.f(x) < L.z), M.f(x))
            loc = VList(None, "local_list", L, base)
            self.seqs.append(snapshot(loc))
            f = b.do_swap_v1
        else:
            loc = VSet("local_set", lambda q: z3.And(zi(q) >= 0, zi(q) < N, M.f(zi(q)) < L.z))
            C.assume(zi(self.setlen(loc)) == L.z)
            self.trusted.add("lemma: a permutation of 0..n-1 maps exactly m elements below m")
            f = b.do_swap_v2
        r, e = self.call(f, Term("MPI"), State("S0"), self.circ, cnt, loc, self.map, use)
        if e is not None:
            return self.bad(e)
        st, gl, lo, d = r
        a = self.agrees(st, d)
        if not a:
            return
        q, p = a
        m = lambda s: s.mem(q) if type(s) is VSet else self.listmem(s, q)
        C.prove(m(lo) == (p < L.z), "C19 the local qubits are those at local positions")
        C.prove(m(gl) == (p >= L.z), "C19 the other qubits are those at the other positions")
        j = C.int("operand")
        C.assume(z3.And(j.z >= 0, j.z < NQ(cnt.z), q.z == QB(cnt.z, j.z)))
        k = z3.Int(C.fresh("distinct"))
        if C.check() != z3.unsat:
            # as many operands as there are local positions
            C.assume(self.fits(cnt.z))
            C.prove(p < L.z, "C19 all qubits of the next operation are local afterwards")

    def fits(self, k):
        """the number of distinct operands is within the number of local qubits: what the first look-ahead step tests"""
        C = E.CTX
        j = z3.Int(C.fresh("fj"))
        s = VSet("operands", lambda x: z3.Exists([j], z3.And(0 <= j, j < NQ(k), QB(k, j) == zi(x))))
        return zi(self.setlen(s)) <= self.Lsz

    def listmem(self, s, q):
        iv = seqinv(seq(s))
        if type(s) is VList and s.conc is not None and not s.conc:
            return z3.BoolVal(False)
        if iv is None or not checkinv(seq(s), iv):
            raise Undecided("elements of the returned list")
        return iv(q.z)[0]


class EvaluateMPI(Sets, Layout, Evaluate):
    """_evaluate_circuit on a distributed state: gates act at the recorded positions, exchanges by the contracts above"""
    mpi = True
    finite = True

    def __init__(self, py, stable, kinds, ver="v1", auto=True, shots=True):
        super().__init__(py, stable, shots, kinds=kinds, prefix="C19")
        self.ver, self.auto = ver, auto

    def setup(self):
        C = E.CTX
        super().setup()
        self.G = z3.Int("global_qubits")
        self.SZ = E.POW2(self.G)
        C.assume(z3.And(self.G >= 0, self.G < N, E.POW2(N) > self.SZ))
        self.L = N - self.G
        self.options["use_mpi"], self.options["use_bcast"], self.options["use_auto_swap"], self.options["swap_ver"] = True, B(z3.Bool("use_bcast")), self.auto, self.ver
        comm = types.SimpleNamespace(bcast=lambda x, root=0: x, Get_size=lambda: I(self.SZ), Get_rank=lambda: C.int("rank"))
        self.MPI = types.SimpleNamespace(COMM_WORLD=comm)
        m = types.ModuleType("mpi4py")
        m.MPI = self.MPI
        sys.modules["mpi4py"] = m
        import math
        self.trusted.add("the number of processes is a power of two; math.log2 of it is exact")

        class M(types.ModuleType):
            def __getattr__(s, n):
                return getattr(math, n)

        mm = M("math")
        mm.log2 = lambda x: I(self.G) if type(x) is I and z3.eq(x.z, self.SZ) else math.log2(x)
        g = self.globals()
        g["math"] = mm
        cls = sys.modules["qdd.qdd_backend"].QddBackend
        cls.do_swap_v1 = lambda b, MPI, cur, circ, pos, loc, mp, use: self.exchange(cur, circ, pos, loc, mp, 1)
        cls.do_swap_v2 = lambda b, MPI, cur, circ, pos, loc, mp, use: self.exchange(cur, circ, pos, loc, mp, 2)
        cls.restore_swap = lambda b, MPI, cur, circ, mp, use: self.restore(cur, circ, mp)
        self.layouts["zero"] = lambda q: q

    # ---- contracts of the exchanges
    def current(self, st, mp):
        """precondition: the map is the layout of the state; returns the layout as a function and its inverse"""
        C = E.CTX
        if type(st) is not State or type(mp) is not VDict:
            raise Undecided("arguments of an exchange")
        q = C.int("anyq")
        p = self.layout(st, q.z)
        if p is None:
            raise Undecided(f"exchange in the middle of {st!r}")
        v = zi(VDict.valat(mp.state(), q))
        C.prove(z3.Implies(z3.And(q.z >= 0, q.z < N), v == p), "C19 the exchanges are given the current positions")

    def relayout(self, st, new):
        old = lambda q: self.layout(st, q)
        inv_ = Z(E.CTX.fresh("posof"), INT, INT)
        q = z3.Int(E.CTX.fresh("oq"))
        E.CTX.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), inv_(old(q)) == q), patterns=[new(q)] if z3.is_app(new(q)) and new(q).num_args() == 1 and new(q).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
        return State(st.base, st.fs + (Fac("relayout", None, (), (), (), (inv_, new)),))

    def exchange(self, st, circ, pos, loc, mp, ver):
        C = E.CTX
        self.current(st, mp)
        k = self.curs()[-1]
        C.prove(zi(pos) == k, "C19 the exchange looks ahead from the next operation")
        q = C.int("anyq")
        mem = loc.mem(q) if type(loc) is VSet else zb(E.seqcontains(loc, q))
        C.prove(z3.Implies(z3.And(q.z >= 0, q.z < N), mem == (zi(VDict.valat(mp.state(), q)) < self.L)), "C19 the exchange is given the qubits at local positions")
        P = Perm("pos")
        s2 = State(C.fresh("X@"))
        self.prev[s2.base] = (st, P)
        self.layouts[s2.base] = P.f
        kd = self.kind(k)
        m = kd["nt"] + kd["nc"]
        C.assume(z3.Implies(m <= self.L, z3.And(*[P.f(QB(k, j)) < self.L for j in range(m)])))
        if ver == 1:
            lo = lambda i: I(P.g(zi(i)))
            lo.inv = lambda x: (z3.And(x >= 0, x < N, P.f(x) < self.L), P.f(x))
            gl = lambda i: I(P.g(zi(i) + self.L))
            gl.inv = lambda x: (z3.And(x >= 0, x < N, P.f(x) >= self.L), P.f(x) - self.L)
            # the lists are in some order; only membership is used
            return (s2, VList(None, "global", I(self.G), gl), VList(None, "local", I(self.L), lo), newmap(P.f, "map"))
        lo = VSet("local", lambda q: z3.And(zi(q) >= 0, zi(q) < N, P.f(zi(q)) < self.L))
        gl = VSet("global", lambda q: z3.And(zi(q) >= 0, zi(q) < N, P.f(zi(q)) >= self.L))
        return (s2, gl, lo, newmap(P.f, "map"))

    def restore(self, st, circ, mp):
        C = E.CTX
        self.current(st, mp)
        s2 = State(C.fresh("X@"))
        self.prev[s2.base] = (st, None)
        self.layouts[s2.base] = lambda q: q
        return (s2, newmap(lambda q: q, "map"))

    def start(self):
        super().start()
        self.prev = {}

    def unfold(self, st):
        """factors since the loop head, each with the layout in force: [(factor, layout)]"""
        out = []
        fs, base = list(st.fs), st.base
        while base in self.prev:
            if [f for f in fs if f.kind == "relayout"]:
                raise Undecided("layout")
            out = [(f, self.layouts[base]) for f in fs] + out
            p = self.prev[base][0]
            fs, base = list(p.fs), p.base
        return base, [(f, self.layouts.get(base)) for f in fs] + out

    def layout(self, st, q):
        f = self.layouts.get(st.base)
        return None if f is None else f(q)

    # ---- the loop over the instructions
    def loop(self, loop):
        return Spec.loop(self, loop)

    def loop_shots(self, loop):
        return MPIShots(self, loop)

    def loop_data(self, loop):
        return MPILoop(self, loop)

    def hvar(self, loop, name, v):
        """variables of the outer loop over the shots: arbitrary but consistent values (they are set again before use)"""
        if isinstance(v, (VDict, VSet, VList)):
            return None
        return super().hvar(loop, name, v)

    def entered(self, dl, loop, loc):
        super().entered(dl, loop, loc)
        C = E.CTX
        q = z3.Int(C.fresh("eq"))
        R = z3.And(q >= 0, q < N)
        dl.kindof = {}
        for n in loop.info.mod_vars:
            v = loc.get(n)
            if type(v) is VDict:
                inv(z3.Implies(R, zi(VDict.valat(v.state(), I(q))) == q), "positions before the first instruction")
                dl.kindof[n] = "map"
            elif n in getattr(loop.info, "anyset", ()):
                continue
            elif type(v) in (VSet, VList):
                mem = v.mem(I(q)) if type(v) is VSet else zb(E.seqcontains(v, I(q)))
                if C.proved(z3.Implies(R, mem == (q < self.L))):
                    dl.kindof[n] = "local"
                elif C.proved(z3.Implies(R, mem == (q >= self.L))):
                    dl.kindof[n] = "global"
                else:
                    raise Undecided(f"initial value of {n}")
        dl.P = Perm("pos") if "map" in dl.kindof.values() else None

    def data_hvar(self, dl, loop, name, v):
        C = E.CTX
        k = dl.kindof.get(name)
        if k is None and name in getattr(loop.info, "anyset", ()):
            A, n = Z(C.fresh("someset"), INT, BOOL), C.int("somesize")
            if type(v) is VSet:
                return VSet("any", lambda q: z3.And(zi(q) >= 0, zi(q) < N, A(zi(q))))
            C.assume(n.z >= 0)
            e = Z(C.fresh("someelem"), INT, INT)
            return VList(None, "any", n, lambda i: I(e(zi(i))))
        if k is None:
            return None
        P = dl.P
        f = P.f if P else (lambda q: q)
        if k == "map":
            return newmap(f, "map")
        test = (lambda q: f(zi(q)) < self.L) if k == "local" else (lambda q: f(zi(q)) >= self.L)
        if type(v) is VSet:
            return VSet(k, lambda q: z3.And(zi(q) >= 0, zi(q) < N, test(q)))
        g = P.g if P else (lambda q: q)
        off = z3.IntVal(0) if k == "local" else self.L
        b = lambda i: I(g(zi(i) + off))
        b.inv = lambda x: (z3.And(x >= 0, x < N, test(I(x))), f(x) - off)
        return VList(None, k, I(self.L if k == "local" else self.G), b)

    def data_head(self, dl, loop, new):
        if hasattr(dl, "hs"):
            self.layouts[dl.hs.base] = dl.P.f if dl.P else (lambda q: q)

    def step(self, dl, loop, loc, k, kd, fs):
        C = E.CTX
        st = loc[dl.name]
        base, seq_ = self.unfold(st)
        lay = None
        for f, l in seq_:
            if lay is None:
                lay = l
            elif lay is not l:
                raise Undecided("exchange in the middle of an instruction")
        if lay is None:
            lay = self.layouts[st.base]
        self.pos = lambda q: I(z3.simplify(lay(zi(q))))
        m = kd["nt"] + kd["nc"]
        x = C.int("anyq")
        R = z3.And(x.z >= 0, x.z < N)
        if seq_:
            if kd["kind"] == "qdd":
                C.prove(z3.Implies(R, lay(x.z) == x.z), "C19 an operator on the whole register is applied with every qubit at its own position")
            elif self.auto:
                C.prove(z3.Implies(m <= self.L, z3.And(*[lay(QB(k, j)) < self.L for j in range(m)])), "C19 the qubits of an operation are local when it is applied")
        # the variables agree with the state
        fin = self.layouts[st.base]
        for n, kk in dl.kindof.items():
            v = loc[n]
            if kk == "map":
                C.prove(z3.Implies(R, zi(VDict.valat(v.state(), x)) == fin(x.z)), "C19 the recorded positions are those of the state")
            else:
                mem = v.mem(x) if type(v) is VSet else zb(E.seqcontains(v, x))
                if not C.surely(z3.Implies(R, mem == ((fin(x.z) < self.L) if kk == "local" else (fin(x.z) >= self.L)))):
                    loop.info.anyset = set(getattr(loop.info, "anyset", ())) | {n}       # not kept up to date: nothing is known about it
                    C.changed = True
                    raise PathEnd()
        if "map" not in dl.kindof.values():
            C.prove(z3.Implies(R, fin(x.z) == x.z), "C19 the recorded positions are those of the state")
        super().step(dl, loop, loc, k, kd, [f for f, l in seq_])

    def done(self, r):
        C = E.CTX
        edge = r.lookup("edge")[1]
        if type(edge) is State:
            base, seq_ = self.unfold(edge)
            q = C.int("anyq")
            C.prove(z3.Implies(z3.And(q.z >= 0, q.z < N), self.layouts[edge.base](q.z) == q.z), "C19 at the end every qubit is at its own position")
            if self.stable:
                Q.ops_equal("C19 after the last instruction only the global phase is applied", [f for f, l in seq_], [Fac("phase", None, (Rv(z3.Real("global_phase")),))])
                C.fact(self.final is not None and base == self.final.base, "C19 the final state is that after the last instruction", repr(edge))

    def sampled(self, s, w):
        C = E.CTX
        q = C.int("anyq")
        C.prove(z3.Implies(z3.And(q.z >= 0, q.z < N), self.layouts[s.base](q.z) == q.z), "C19 all qubits are at their own positions when they are read")
        super().sampled(s, w)


class MPILoop(DataLoop):
    def back(self, loop, loc):
        s, C = self.s, E.CTX
        if self.name is not None and type(loc.get(self.name)) is State and hasattr(self, "hs"):
            base, fs = s.unfold(loc[self.name])
            if base != self.hs.base:
                C.fact(False, s.lab("one instruction continues from the state before it"), repr(loc[self.name]))
                return
            it = loop.cur[1] if isinstance(loop.cur, tuple) else loop.cur
            k = it.k
            if not z3.eq(z3.simplify(k), z3.simplify(loop.k.z)):
                C.prove(k == loop.k.z, s.lab("instructions are processed in program order"))
            s.step(self, loop, loc, k, s.kind(k), [f for f, l in fs])
            return
        DataLoop.back(self, loop, loc)


class MPIShots(ShotLoop):
    """the loop over the shots of a run with mid-circuit measurement: after every shot the recorded positions are those of the state"""
    def sel(self, name, v):
        return not self.s.stable and (type(v) is State or (type(v) is VDict and v.has0 is not None))

    def hvar(self, loop, name, v):
        s = self.s
        if not self.sel(name, v):
            return None
        if not hasattr(self, "P"):
            self.P = Perm("pos")
        self.names = getattr(self, "names", set()) | {name}
        if type(v) is State:
            b = E.CTX.fresh("S@")
            s.layouts[b] = self.P.f
            return State(b)
        return newmap(self.P.f, "map")

    def back(self, loop, loc):
        s, C = self.s, E.CTX
        if s.stable:
            return ShotLoop.back(self, loop, loc)
        st = [v for n, v in loc.items() if type(v) is State]
        ms = [v for n, v in loc.items() if type(v) is VDict and v.has0 is not None and (n in loop.info.mod_vars or n in loop.info.born)]
        x = C.int("anyq")
        for a in st:
            for m in ms:
                C.prove(z3.Implies(z3.And(x.z >= 0, x.z < N), zi(VDict.valat(m.state(), x)) == s.layout(a, x.z)), "C19 after a shot the recorded positions are those of the state")
        ShotLoop.back(self, loop, loc)


SMALL = ["HGate", "UGate", "CXGate", "SwapGate", "measure", "barrier"]
DYN = ["HGate", "CXGate", "measure", "reset"]
REG = {"swap/restore": Restore, "swap/v1": lambda py: DoSwap(py, 1), "swap/v2": lambda py: DoSwap(py, 2),
       "evaluate/mpi/v1": lambda py: EvaluateMPI(py, True, SMALL, "v1"),
       "evaluate/mpi/v2": lambda py: EvaluateMPI(py, True, SMALL, "v2"),
       "evaluate/mpi/v1/qdd": lambda py: EvaluateMPI(py, True, ["HGate", "QDDGate"], "v1"),
       "evaluate/mpi/v2/qdd": lambda py: EvaluateMPI(py, True, ["HGate", "QDDGate"], "v2"),
       "evaluate/mpi/v1/three": lambda py: EvaluateMPI(py, True, ["CCXGate"], "v1"),
       "evaluate/mpi/v1/pairs": lambda py: EvaluateMPI(py, True, ["CUGate", "RZXGate"], "v1"),
       "evaluate/mpi/v2/three": lambda py: EvaluateMPI(py, True, ["CSwapGate"], "v2"),
       "evaluate/mpi/v2/unitary": lambda py: EvaluateMPI(py, True, ["UnitaryGate"], "v2"),
       "evaluate/mpi/noswap": lambda py: EvaluateMPI(py, True, SMALL + ["CUGate", "RZXGate", "QDDGate", "CCXGate", "CSwapGate", "UnitaryGate"], "v1", auto=False),
       "evaluate/mpi/dynamic/v1": lambda py: EvaluateMPI(py, False, DYN, "v1"),
       "evaluate/mpi/dynamic/v2": lambda py: EvaluateMPI(py, False, DYN, "v2")}
