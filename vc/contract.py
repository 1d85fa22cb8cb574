"""Contracts: the same requires/ensures text is assumed on entry / after a call and proved at a call / on exit."""
import re, time
import z3
from ir import Unsupported, DBL, PTR, I32, demangle
from poly import Poly, Atoms, ZERO, ONE, IU
from exe import VC, State, Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, Frame
from theory import E, NQ


class B:
    """boolean clause"""
    def __init__(self, label, c):
        self.label, self.c = label, c


class Q:
    """polynomial clause p == 0; lead orients it when it is assumed; guard restricts it"""
    def __init__(self, label, p, lead=None, L=None, guard=None, hint=None):
        self.label, self.p, self.lead, self.L, self.guard, self.hint = label, p, lead, L, guard, hint


class A:
    """a value parameter: kind, value, pointer passed (if any)"""
    def __init__(self, ty, val, ptr=None):
        self.ty, self.val, self.ptr = ty, val, ptr


def split_params(dem):
    """parameter types of a demangled signature"""
    i = dem.find("(")
    # skip "(anonymous namespace)" and operator()
    depth = 0
    start = None
    ang = 0
    for j, ch in enumerate(dem):
        if ch == "<" and not dem[max(0, j - 8):j].endswith("operator"):
            ang += 1
        elif ch == ">" and ang and not dem[max(0, j - 9):j].endswith("operator-"):
            ang -= 1
        elif ch == "(" and ang == 0 and not dem[j:].startswith("(anonymous") and not dem[:j].endswith("operator"):
            start = j
            break
    if start is None:
        return dem, []
    depth = 0
    out, cur = [], ""
    for ch in dem[start + 1:]:
        if ch in "(<[{":
            depth += 1
        if ch in ")>]}":
            if ch == ")" and depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return dem[:start], out


def basename(dem):
    h, _ = split_params(dem)
    h = h.strip()
    # drop return type of templates: last space outside <>
    d = 0
    for j in range(len(h) - 1, -1, -1):
        if h[j] == ">":
            d += 1
        elif h[j] == "<":
            d -= 1
        elif h[j] == " " and d == 0:
            h = h[j + 1:]
            break
    return h


EDGE = {"mEdge": "m", "vEdge": "v"}


class Contract:
    name = None
    params = None          # expected parameter types (normalised) or None
    value_determined = False

    def matches(self, dem):
        if basename(dem) != self.name:
            return False
        return self.params is None or [norm_ty(t) for t in split_params(dem)[1]] == self.params

    # -- to be given by the concrete contract
    def requires(self, T, st, a):
        return []

    def ensures(self, T, st, a, r):
        return []

    def decreases(self, T, st, a):
        return None

    def result(self, T, st, a, ins=None):
        return None

    def levels(self, T, a):
        return ()

    loops = False          # True: loops with an unknown trip count are cut (vc/loops.py)

    def candidates(self, vc, st, info):
        return []

    def wanted(self, info):
        return []

    def after_cut(self, vc, st, info):
        pass

    # -- plumbing
    def formals(self, vc, st, fn):
        """symbolic arguments for verifying the body"""
        dem = vc.demangled(fn.name)
        tys = [norm_ty(t) for t in split_params(dem)[1]]
        vals, args, ret = [], [], None
        ps = list(fn.params)
        if ps and "sret" in ps[0][1]:
            ret = Ptr(st.new(vc.mod.size(ps[0][1]["sret"]), "result"))
            vals.append(ret)
            ps = ps[1:]
        if self.is_method(dem):
            tys = [self.this_ty(dem)] + tys
        i = 0
        for n, ty in enumerate(tys):
            a, used = self.formal(vc, st, ty, ps[i:], n)
            args.append(a)
            i += used[0]
            vals.extend(used[1])
        if i != len(ps):
            raise Unsupported("parameter list of " + dem)
        return vals, args, ret

    def is_method(self, dem):
        return False

    def this_ty(self, dem):
        raise Unsupported("method")

    def formal(self, vc, st, ty, ps, n):
        T = vc.th
        nm = f"a{n}"
        if ty in EDGE or ty in ("mEdge&", "vEdge&", "mEdge const&", "vEdge const&"):
            k = ty[0]
            e = fresh_edge(T, st, k, nm)
            p = new_edge_obj(vc, st, e, nm)
            return A(ty, e, p), (1, [p])
        m = re.fullmatch(r"std::array<([mv])Edge, (\d+)> const&", ty)
        if m:
            k, c = m.group(1), int(m.group(2))
            es = [fresh_edge(T, st, k, f"{nm}[{i}]") for i in range(c)]
            p = Ptr(st.new(24 * c, nm))
            for i, e in enumerate(es):
                vc.wr_edge(st, Ptr(p.o, 24 * i), (e.w, e.n))
            return A(ty, es, p), (1, [p])
        if ty in ("int", "unsigned int"):
            v = z3.BitVec(nm, 32)
            return A(ty, v), (1, [v])
        if ty in ("unsigned long", "long"):
            v = z3.BitVec(nm, 64)
            return A(ty, v), (1, [v])
        if ty == "double":
            v = Poly.atom(Atoms.get(nm, (), "real"))
            return A(ty, v), (1, [v])
        if ty == "bool":
            v = z3.Bool(nm)
            return A(ty, v), (1, [v])
        if ty in ("Complex const&", "Complex&"):
            w = Poly.atom(Atoms.get(nm, (), "complex"))
            p = Ptr(st.new(16, nm))
            vc.wr_complex(st, p, w)
            return A(ty, w, p), (1, [p])
        if ty in ("Complex", "std::complex<double>"):
            w = Poly.atom(Atoms.get(nm, (), "complex"))
            return A(ty, w), (2, [w.re(), w.im()])
        raise Unsupported("parameter type " + ty)

    def actuals(self, vc, st, dem, vals, fn_params=None):
        tys = [norm_ty(t) for t in split_params(dem)[1]]
        vals = list(vals)
        ret = None
        if self.has_sret(vc, dem):
            ret = vals.pop(0)
        if self.is_method(dem):
            tys = [self.this_ty(dem)] + tys
        args = []
        for ty in tys:
            a, used = self.actual(vc, st, ty, vals)
            args.append(a)
            vals = vals[used:]
        return args, ret

    def has_sret(self, vc, dem):
        return self.retk in ("m", "v", "sret")

    retk = None

    def actual(self, vc, st, ty, vals):
        v = vals[0]
        if ty in EDGE or ty in ("mEdge&", "vEdge&", "mEdge const&", "vEdge const&"):
            w, n = vc.rd_edge(st, v)
            return A(ty, E(ty[0], w, n), v), 1
        m = re.fullmatch(r"std::array<([mv])Edge, (\d+)> const&", ty)
        if m:
            es = []
            for i in range(int(m.group(2))):
                w, n = vc.rd_edge(st, vc.gepc(v, 24 * i))
                es.append(E(m.group(1), w, n))
            return A(ty, es, v), 1
        if ty in ("Complex const&", "Complex&"):
            return A(ty, vc.rd_complex(st, v), v), 1
        if ty in ("Complex", "std::complex<double>"):
            return A(ty, vals[0] + vals[1] * IU), 2
        return A(ty, v), 1

    def apply(self, vc, st, vals, ins):
        T = vc.th
        dem = vc.demangled(ins.a[1].v)
        args, ret = self.actuals(vc, st, dem, vals)
        where = vc.where(st)
        for e in edges_of(args):
            check_edge(vc, st, e, where)
        for c in self.requires(T, st, args):
            prove_clause(vc, st, c, f"precondition of {self.name} at {where}: ")
        d = self.decreases(T, st, args)
        if d is not None and vc.top is self and vc.top_measure is not None:
            vc.oblige(st, f"recursion of {self.name} terminates (measure decreases)", T.prove_bool(st, d(vc.top_measure)), where)
        r = self.result(T, st, args, ins)
        self.assume_post(vc, st, args, r)
        return self.deliver(vc, st, ret, r)

    def assume_post(self, vc, st, args, r):
        for c in self.ensures(vc.th, st, args, r):
            assume_clause(vc, st, c)

    def deliver(self, vc, st, ret, r):
        if isinstance(r, E):
            vc.wr_edge(st, ret, (r.w, r.n))
            return None
        return r

    def read_result(self, vc, st, ret, v):
        if ret is not None and self.retk in ("m", "v"):
            w, n = vc.rd_edge(st, ret)
            return E(self.retk, w, n)
        return v

    # -- verification of the body
    def verify(self, vc, fnname):
        import loops
        for _ in range(30):
            vc.results = []
            vc.probes = []
            vc.paths = 0
            try:
                return self.verify1(vc, fnname)
            except loops.NeedCell as nc:
                # a value that survives a cut loop and is read behind it
                hit = False
                for k, live in loops.live_cells(vc).items():
                    if nc.key not in live:
                        live.add(nc.key)
                        hit = True
                if not hit:
                    raise Unsupported(f"loop-carried value {nc.key}")
        raise Unsupported("loop-carried values")

    def verify1(self, vc, fnname):
        T = vc.th
        fn = vc.mod.fn(fnname)
        st = State()
        vals, args, ret = self.formals(vc, st, fn)
        for e in edges_of(args):
            T.reffacts(st, e.k, e.n.ref)
        st.g = {**st.g, "levels": tuple(self.levels(T, args))}
        for c in self.requires(T, st, args):
            assume_clause(vc, st, c)
        self.entry(vc, st, args)
        vc.oblige(st, f"{self.name}: precondition is satisfiable", vc.feasible(st))
        vc.top = self
        vc.loopcon = self if self.loops else None
        vc.top_measure = args
        pre = snapshot(vc, st, args)
        vc.start_call(st, fnname, vals, None)
        seen = {"ret": 0}

        def done(s, v, kind):
            seen["ret"] += 1
            if ret is not None and ret.o in s.mem:
                pass
            try:
                r = self.read_result(vc, s, ret, v)
            except Unsupported as ex:
                raise
            self.check_post(vc, s, args, r, pre)
        vc.run(st, done)
        if not seen["ret"] and not getattr(self, "noreturn", False):
            vc.oblige(st, f"{self.name}: some path returns", False)
        if not seen["ret"] and getattr(self, "noreturn", False):
            vc.oblige(st, f"{self.name}: no path returns for the inputs of the contract", True)
        return vc.results

    def entry(self, vc, st, args):
        pass

    def check_post(self, vc, s, args, r, pre):
        T = vc.th
        where = "exit of " + self.name
        for e in edges_of_val(r):
            check_edge(vc, s, e, where)
        for c in self.ensures(T, s, args, r):
            prove_clause(vc, s, c, f"postcondition of {self.name}: ")
        for (p, cells, ty) in pre:
            o = s.mem[p.o]
            ok = o.cells.keys() == cells.keys() and all(samev(o.cells[k][0], cells[k][0]) for k in cells)
            vc.oblige(s, f"{self.name}: argument passed by const reference is unchanged", ok)


def samev(a, b):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a == b
    if isinstance(a, NodePtr) and isinstance(b, NodePtr):
        return a.off == b.off and a.ref.eq(b.ref)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and (a.off is b.off or a.off == b.off) is True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return hasattr(a, "eq") and hasattr(b, "eq") and a.eq(b)


def snapshot(vc, st, args):
    out = []
    for a in args:
        if isinstance(a.ptr, Ptr) and "const&" in a.ty and a.ptr.o:
            out.append((a.ptr, dict(st.mem[a.ptr.o].cells), a.ty))
    return out


def edges_of_val(v):
    if isinstance(v, E):
        return [v]
    if isinstance(v, (list, tuple)):
        return [e for x in v for e in edges_of_val(x)]
    return []


def edges_of(args):
    return [e for a in args for e in edges_of_val(a.val)]


def check_edge(vc, st, e, where):
    if isinstance(e.n, NodePtr) and e.n.off == 0 and e.n.k == e.k:
        vc.th.reffacts(st, e.k, e.n.ref)
        return
    vc.oblige(st, "edge refers to a stored node", False, f"{where}: node pointer is {e.n}")
    raise PathEnd("badedge")


def norm_ty(t):
    t = t.replace("ul>", ">").replace("ul,", ",")
    return t.strip()


def fresh_edge(T, st, k, nm):
    w = Poly.atom(Atoms.get(nm + ".w", (), "complex"))
    ref = z3.Const(nm + ".n", T.Sort[k])
    return E(k, w, NodePtr(k, ref, 0))


def new_edge(T, st, k, nm):
    n = st.sym(nm)
    e = fresh_edge(T, st, k, n)
    T.reffacts(st, k, e.n.ref)
    return e


def new_edge_obj(vc, st, e, nm):
    p = Ptr(st.new(24, nm))
    vc.wr_edge(st, p, (e.w, e.n))
    return p


def prove_clause(vc, st, c, prefix):
    T = vc.th
    if hasattr(c, "prove"):
        return vc.oblige(st, prefix + c.label, c.prove(vc, st))
    if isinstance(c, B):
        ok = T.prove_bool(st, c.c)
        det = ""
        if not ok:
            m = vc.solver.model(st.pc, z3.Not(c.c) if z3.is_expr(c.c) else z3.BoolVal(True))
            det = "countermodel: " + str(m)[:1500] if m is not None else "unknown"
        return vc.oblige(st, prefix + c.label, ok, det)
    s = st
    if c.guard is not None:
        s = st.copy()
        s.pc.append(c.guard)
        if not vc.feasible(s):
            return vc.oblige(st, prefix + c.label, True)
    p = c.p
    ok = T.prove_zero(s, p, c.L)
    det = ""
    if not ok:
        q, _ = T.reduce(s, p)
        det = f"residual {str(q)[:800]}"
    return vc.oblige(st, prefix + c.label, ok, det)


def assume_clause(vc, st, c):
    if hasattr(c, "prove"):
        c.assume(vc, st)
    elif isinstance(c, B):
        st.assume(c.c)
    else:
        vc.th.add_eq(st, c.p, c.lead, c.guard)


class Contracts:
    def __init__(self, cs):
        self.cs = cs
        self.cache = {}

    def for_fn(self, vc, name):
        if name not in self.cache:
            dem = vc.demangled(name)
            self.cache[name] = next((c for c in self.cs if c.matches(dem)), None)
        return self.cache[name]


# ------------------------------------------------------------------ library
class Lib:
    """library functions with assumed (trusted) meaning, matched by demangled name"""

    def __init__(self, rules):
        self.rules = [(re.compile(r), h, t) for r, h, t in rules]
        self.cache = {}

    def call(self, vc, st, name, dem, vals, ins, ats):
        if name not in self.cache:
            self.cache[name] = [(h, t) for r, h, t in self.rules if r.match(dem)]
        for h, t in self.cache[name]:
            r = h(vc, st, vals, ins, dem)
            if r is not NotImplemented:
                if t:
                    vc.trusted.add(t)
                return r
        return NotImplemented


def summarize(vc, st, name, args):
    """boolean result of a side-effect free function as one formula (no forking)"""
    s = st.copy()
    n0 = len(s.pc)
    s.frames = []
    sub = []
    saved = vc.results
    vc.results = []
    vc.start_call(s, name, args, None)

    def done(x, v, kind):
        sub.append((z3.And(*x.pc[n0:]) if len(x.pc) > n0 else z3.BoolVal(True), v, x))
    vc.run(s, done)
    bad = [r for r in vc.results if r[1] != "ok"]
    vc.results = saved
    if bad:
        raise Unsupported("predicate with side conditions")
    if len(sub) == 1:
        # axioms learned while evaluating hold unconditionally
        x = sub[0][2]
        st.pc.extend(x.pc[n0:])
        st.g = x.g
        v = sub[0][1]
        return v
    out = []
    for c, v, x in sub:
        out.append(z3.And(c, v if not isinstance(v, bool) else z3.BoolVal(v)))
    return z3.simplify(z3.Or(*out))


def lib_all_of(neg):
    def h(vc, st, vals, ins, dem):
        b, e = vals[0], vals[1]
        lam = find_lambda(vc, dem)
        n = span(b, e)
        rs = [summarize(vc, st, lam, [vals[2] if len(vals) > 2 else NULL, vc.gepc(b, i * es_of(dem))]) for i in range(n // es_of(dem))]
        if neg == "all":
            return conc(z3.And(*[r if z3.is_expr(r) else z3.BoolVal(r) for r in rs])) if rs else True
        r = z3.Or(*[r if z3.is_expr(r) else z3.BoolVal(r) for r in rs]) if rs else z3.BoolVal(False)
        if neg == "none":
            r = z3.Not(r)
        return conc(r)
    return h


def span(b, e):
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.o == e.o and isinstance(b.off, int) and isinstance(e.off, int):
        return e.off - b.off
    raise Unsupported("iterator range")


def es_of(dem):
    m = re.search(r"<([mv]Edge)( const)?\*", dem)
    if m:
        return 24
    raise Unsupported("element size " + dem[:60])


def template_args(dem):
    """template argument strings of the called function template"""
    h, _ = split_params(dem)
    i = h.find("<")
    # skip the return type
    b = basename(dem)
    i = b.find("<")
    d, out, cur = 0, [], ""
    for ch in b[i + 1:-1]:
        if ch in "<({[":
            d += 1
        if ch in ">)}]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def find_lambda(vc, dem, fp=None):
    from exe import FnPtr
    if isinstance(fp, FnPtr):
        return fp.name
    lam = template_args(dem)[-1]
    for n in vc.mod.fn_span:
        if "clE" in n:
            d = vc.demangled(n)
            if d.startswith(lam + "::operator()"):
                return n
    raise Unsupported("predicate " + lam[:80])


def lib_max_element(is_max):
    def h(vc, st, vals, ins, dem):
        b, e = vals[0], vals[1]
        lam = find_lambda(vc, dem)
        es = es_of(dem)
        n = span(b, e) // es
        self_p = vals[2] if len(vals) > 2 else NULL
        lt = {}

        def less(i, j):
            if (i, j) not in lt:
                v = summarize(vc, st, lam, [self_p, vc.gepc(b, i * es), vc.gepc(b, j * es)])
                lt[i, j] = v if z3.is_expr(v) else z3.BoolVal(v)
            return lt[i, j]
        conds = []
        for k in range(n):
            cs = []
            for j in range(n):
                if j == k:
                    continue
                if is_max:
                    cs.append(less(j, k) if j < k else z3.Not(less(k, j)))
                else:
                    cs.append(less(k, j) if j < k else z3.Not(less(j, k)))
            conds.append(z3.And(*cs) if cs else z3.BoolVal(True))
        feas = [k for k in range(n) if vc.feasible(st, conds[k])]
        if len(feas) > 1:
            raise Split([conds[k] for k in feas])
        if not feas:
            raise PathEnd("infeasible")
        st.assume(conds[feas[0]])
        return vc.gepc(b, feas[0] * es)
    return h


def lib_assert(vc, st, vals, ins, dem):
    vc.oblige(st, "assertion in the code holds", False, "assertion can fail at " + vc.where(st))
    raise PathEnd("assert")


def lib_abort(vc, st, vals, ins, dem):
    if getattr(vc.top, "nothrow", False):
        vc.oblige(st, "no exception for the inputs of the contract", False, vc.where(st))
    raise PathEnd("throw")
