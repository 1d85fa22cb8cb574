"""Loops whose trip count is not a constant: cut at the header with an inductive invariant.

The invariant is chosen among the candidate clauses the contract states (over whatever variables the loop changes - no variable names
appear), by removing candidates until the rest holds on entry and is preserved by one arbitrary iteration (Houdini).  Every candidate that holds
on entry but is not preserved and that the contract calls `essential` is reported as a failed obligation; the surviving ones are assumed behind
the loop.  Memory cells the loop changes are forgotten unless they are read again before being written."""
import z3
from ir import Unsupported, PTR
from poly import Poly, Atoms, ZERO, IU
from exe import Ptr, NodePtr, NULL, Split, PathEnd, conc, bv, UNDEF
from contract import B, Q, prove_clause, assume_clause
from theory import E


import os
DEBUG = bool(os.environ.get('VC_LOOP'))


class NeedCell(Exception):
    """a forgotten cell is read: it carries a value from one iteration to the next"""

    def __init__(self, key):
        self.key = key


def body_of(vc, fn, lbl):
    """blocks of the natural loop with header lbl"""
    heads = vc.loopinfo(fn)
    from exe import VC
    succ = VC._loops[id(fn)][2]
    pred = {}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    body = {lbl}
    work = list(heads[lbl])
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work.extend(pred.get(b, []))
    return body


def symbolic_header(vc, st, f, lbl, again=False):
    """is the loop condition anything but a constant?  (executes the header up to its first branch on a copy)"""
    s = st.copy()
    saved = vc.results
    vc.results = []
    try:
        n = len(s.frames)
        for _ in range(400):
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.idx]
            if ins.op == "cbr" and len(s.frames) == n:
                c = vc.val(s, ins.a[0])
                if isinstance(c, bool):
                    return False
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    return False
                # a loop decided by the path condition is cut when its condition comes up again (it may be decided every time round)
                return again or vc.feasible(s, c) and vc.feasible(s, z3.Not(c))
            if ins.op == "br" and len(s.frames) == n and ins.a[0] not in body_of(vc, f.fn, lbl):
                return False
            vc.step(s, 0)
        return False
    except Split:
        return True
    except (PathEnd, Unsupported):
        return False
    finally:
        vc.results = saved


class Probe:
    def __init__(self, depth, lbl, body, fn):
        self.depth, self.lbl, self.body, self.fn = depth, lbl, body, fn
        self.back = []


def okey(st, oid):
    """stable name of an object: (frame depth, alloca register) or a global / parameter name"""
    for d, f in enumerate(st.frames):
        for r, o in f.allocas.items():
            if o == oid:
                return (d, f.fn.name, r)
    return ("obj", st.mem[oid].name)


def changed(st, s2):
    """cells of objects that exist at the header and differ after an iteration"""
    out = {}
    gh = set()
    for oid, o in st.mem.items():
        o2 = s2.mem.get(oid)
        if o2 is None or o2 is o:
            continue
        if o.ghost is not o2.ghost:
            gh.add(oid)
        for a in set(o.cells) | set(o2.cells):
            x, y = o.cells.get(a), o2.cells.get(a)
            if x is y:
                continue
            if x is not None and y is not None and x[1] == y[1] and same(x[0], y[0]):
                continue
            out[oid, a] = (y or x)[1]
        if o.zero != o2.zero:
            for lo, hi in o2.zero:
                if (lo, hi) not in o.zero:
                    raise Unsupported("loop zero-fills an object")
    return out, gh


def same(a, b):
    from contract import samev
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if a is UNDEF or b is UNDEF:
        return a is b
    if hasattr(a, "v") and hasattr(b, "v") and type(a) is type(b):
        return same(a.v, b.v) if not (isinstance(a.v, int) and isinstance(b.v, int)) else a.v == b.v
    return samev(a, b) is True


class Cut:
    """one cut loop: what is live, which candidates survive"""


def run_probe(vc, st, f, lbl, body):
    """one arbitrary iteration from st (positioned after the header's phis); returns the states that reach the header again"""
    p = Probe(len(st.frames), lbl, body, f.fn)
    saved = vc.results, getattr(vc, "probes", [])
    vc.results = []
    vc.probes = saved[1] + [p]
    try:
        s = st.copy()
        vc.run(s, lambda s2, v, k: None)
    finally:
        vc.results, vc.probes = saved
    for s2 in p.back:
        s2.g = {**s2.g, "hdr": st}
    return p.back


def live_cells(vc):
    if not hasattr(vc, "livecells"):
        vc.livecells = {}
    return vc.livecells


def cut(vc, st, f, lbl, con):
    try:
        return cut1(vc, st, f, lbl, con)
    except Split:
        raise Unsupported("case split in a loop invariant")


def contradiction(vc, h, cur):
    h2 = h.copy()
    for c in cur:
        for cl in c.clauses(vc, h2):
            n = len(h2.pc)
            assume_clause(vc, h2, cl)
            if not vc.feasible(h2):
                print("CONTRADICTION at", c.label, cl.c if isinstance(cl, B) else cl.__dict__, "adding", h2.pc[n:], "to", h2.pc[-30:n])
                return


def cut1(vc, st, f, lbl, con):
    """st has just entered the header from outside.  Turns st into the arbitrary state at the header."""
    fn = f.fn
    body = body_of(vc, fn, lbl)
    T = vc.th
    key = (fn.name, lbl, len(st.frames))
    import arr
    live = live_cells(vc).setdefault(key, set())
    mod, names = {}, {}
    ghosts = set()
    # what changes in an iteration
    for _ in range(12):
        h, _info = havoc(vc, st, mod, ghosts, live, names)
        while True:
            try:
                back = run_probe(vc, h, f, lbl, body)
                break
            except NeedCell as nc:
                if nc.key in live:
                    raise Unsupported(f"loop-carried value {nc.key}")
                live.add(nc.key)
                h, _info = havoc(vc, st, mod, ghosts, live, names)
        m2, g2 = dict(mod), set(ghosts)
        for s2 in back:
            c, g = changed(h, s2)
            m2.update({k: v for k, v in c.items() if k not in m2})
            g2 |= g
            for oid in g:
                if isinstance(st.mem[oid].ghost, arr.RawG) and not isinstance(s2.mem[oid].ghost, arr.RawG):
                    arr.settype(vc, st, oid, 16 if isinstance(s2.mem[oid].ghost, arr.RowG) or len(s2.mem[oid].ghost.n) == 1 else 8)
        if m2 == mod and g2 == ghosts:
            break
        mod, ghosts = m2, g2
    else:
        raise Unsupported("loop changes too much")
    for _ in range(24):
        h, info = havoc(vc, st, mod, ghosts, live, names)
        cands = con.candidates(vc, st, info)
        init = []
        for c in cands:
            if DEBUG and c.group:
                print('TRY', c.label)
            if holds(vc, st, c):
                init.append(c)
        cur = init
        lost = []
        while True:
            h2 = h.copy()
            for c in cur:
                for cl in c.clauses(vc, h2):
                    assume_clause(vc, h2, cl)
            if not vc.feasible(h2):
                if DEBUG:
                    contradiction(vc, h, cur)
                raise Unsupported("loop invariant is contradictory")
            try:
                back = run_probe(vc, h2, f, lbl, body)
            except NeedCell as nc:
                if nc.key in live:
                    raise Unsupported(f"loop-carried value {nc.key}")
                live.add(nc.key)
                cur = None
                break
            m2, g2 = dict(mod), set(ghosts)
            for s2 in back:
                c, g = changed(h2, s2)
                m2.update({k: v for k, v in c.items() if k not in m2})
                g2 |= g
            if len(m2) != len(mod) or g2 != ghosts:
                # more is changed once the invariant lets the iteration get further
                mod, ghosts = m2, g2
                cur = None
                break
            keep = [c for c in cur if all(holds(vc, s2, c) for s2 in back)]
            lost += [c for c in cur if c not in keep]
            if len(keep) == len(cur):
                break
            cur = keep
        if DEBUG:
            print('LIVE', live, 'edges', info.edges, 'init', [c.label for c in init], 'lost', [c.label for c in lost])
        if cur is not None:
            break
    else:
        raise Unsupported("loop invariant")
    where = vc.demangled(fn.name).split("(")[0]
    good = {c.group for c in cur}
    for c in lost:
        if c.group is not None and c.group not in good:
            good.add(c.group)
            vc.oblige(st, f"{where}: loop preserves: {c.label}", False, "holds on entry, lost after one iteration")
    for c in cur:
        vc.oblige(st, f"{where}: loop invariant: {c.label}", True)
    if getattr(con, "strict", False):
        for c in cands:
            if c.group is not None and c.group not in good:
                good.add(c.group)
                vc.oblige(st, f"{where}: loop establishes: {c.label}", False, "does not hold when the loop is entered")
    for grp, name in con.wanted(info):
        if grp in good and grp not in {c.group for c in cur} and getattr(con, "strict", False):
            raise PathEnd("loop invariant lost")
        if grp not in good:
            raise Unsupported("no loop invariant for " + str(name))
    # the state behind the header
    h, info = havoc(vc, st, mod, ghosts, live, names)
    st.mem, st.cnt, st.noid, st.g = h.mem, h.cnt, h.noid, h.g
    st.pc[:] = h.pc
    st.eqs[:] = h.eqs
    for c in cur:
        for cl in c.clauses(vc, st):
            assume_clause(vc, st, cl)
    st.memo = []
    fr = st.frames[-1]
    fr.loops[lbl] = "cut"
    con.after_cut(vc, st, info)


class Cand:
    """a candidate clause; make(vc, st) reads the state and returns clauses (None: not applicable)"""

    def __init__(self, label, make, group=None):
        self.label, self.make, self.group = label, make, group

    def clauses(self, vc, st):
        r = self.make(vc, st)
        return r if r is not None else []      # not applicable here: nothing to assume


def holds(vc, st, c):
    s = st.copy()
    try:
        cls = c.make(vc, s)
    except Unsupported:
        return False
    if cls is None:
        return False
    for cl in cls:
        if hasattr(cl, "prove"):
            if not cl.prove(vc, s):
                if DEBUG and c.group:
                    print("  NOT", c.label, getattr(cl, "label", ""))
                return False
        elif isinstance(cl, B):
            if not vc.th.prove_bool(s, cl.c):
                if DEBUG and c.group:
                    print("  NOT", c.label, str(cl.c).replace("\n", " "))
                return False
        else:
            t = s
            if cl.guard is not None:
                t = s.copy()
                t.pc.append(cl.guard)
                if not vc.feasible(t):
                    continue
            if not vc.th.prove_zero(t, cl.p, cl.L, quick=True):
                if DEBUG and c.group:
                    print("  NOT", c.label, "guard", str(cl.guard).replace("\n", " "), "residual", vc.th.reduce(t, cl.p)[0])
                return False
    return True


class Info:
    """what the loop changes and carries on: ints [(oid, off, bits)], iters [(oid, off)], edges [(oid, off, kind, index in array)], reals"""

    def __init__(self):
        self.ints, self.iters, self.edges, self.reals, self.complexes, self.ghosts = [], [], [], [], [], []
        self.entry = {}


class Forgotten:
    """marker for a cell whose value is not known any more"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


def havoc(vc, st, mod, ghosts, live, names):
    """copy of st in which the modified cells are arbitrary (live ones) or forgotten"""
    h = st.copy()
    info = Info()
    byobj = {}
    for oid, a in mod:
        byobj.setdefault(oid, set()).add(a)
    for oid in ghosts:
        g = h.mem[oid].ghost
        if g is None or not hasattr(g, "havoc"):
            raise Unsupported("loop changes a container")
        h.wobj(oid).ghost = g.havoc(vc, h)
        info.ghosts.append(oid)
    n = 0
    for oid in sorted(byobj):
        if oid not in h.mem:
            continue
        o = h.wobj(oid)
        base = okey(st, oid)
        offs = sorted(byobj[oid])
        done = set()
        for a in offs:
            if a in done:
                continue
            k = base + (a,)
            c = st.mem[oid].cells.get(a)
            if k not in live or c is None:
                if k in live and c is None:
                    raise Unsupported(f"loop-carried value without initial value {k}")
                if a in o.cells:
                    sz = o.cells[a][1]
                else:
                    sz = mod[oid, a]
                o.cells[a] = (Forgotten(k), sz)
                continue
            v, sz = c
            n += 1
            nm = f"h!{base[-1]}!{a}!{st.cnt}"
            if isinstance(v, bool):
                o.cells[a] = (z3.Bool(nm), sz)
            elif isinstance(v, int) or z3.is_bv(v):
                o.cells[a] = (z3.BitVec(nm, 8 * sz), sz)
                info.ints.append((oid, a, 8 * sz))
                info.entry[oid, a] = v
            elif isinstance(v, (NodePtr,)) or (isinstance(v, Poly) and is_edge(st, oid, a)):
                b, kind = edge_base(st, oid, a)
                e = E(kind, Poly.atom(Atoms.get(nm + ".w", (), "complex")), NodePtr(kind, z3.Const(nm + ".n", vc.th.Sort[kind]), 0))
                vc.th.reffacts(h, kind, e.n.ref)
                for off, val in ((b, e.w.re()), (b + 8, e.w.im()), (b + 16, e.n)):
                    o.cells[off] = (val, 8)
                    done.add(off)
                info.edges.append((oid, b, kind))
            elif isinstance(v, Poly):
                o.cells[a] = (Poly.atom(Atoms.get(nm, (), "real")), sz)
                info.reals.append((oid, a))
            elif hasattr(v, "havoc"):
                o.cells[a] = (v.havoc(vc, h, nm), sz)
                info.iters.append((oid, a))
                info.entry[oid, a] = v
            else:
                raise Unsupported(f"loop-carried {type(v).__name__}")
    # array index of an edge among the edges of its object
    info.edges.sort()
    h.cnt = st.cnt + 1
    return h, info


def is_edge(st, oid, a):
    return edge_base(st, oid, a) is not None


def edge_base(st, oid, a):
    """offset of the edge the cell belongs to"""
    o = st.mem[oid]
    for b in (a, a - 8, a - 16):
        c = o.cells.get(b + 16)
        if c is not None and isinstance(c[0], NodePtr) and all(isinstance(o.cells.get(b + d, (None,))[0], Poly) for d in (0, 8)):
            return b, c[0].k
    return None


# ------------------------------------------------------------------ ready-made candidates
def getint(vc, st, x):
    oid, a, n = x
    v = st.mem[oid].cells[a][0]
    return bv(v, n)


def int_candidates(vc, st, info, bounds):
    out = []
    for x in info.ints:
        ent = bv(info.entry[x[0], x[1]], x[2])
        bs = [("its initial value", ent)] + [(n, b) for n, b in bounds if b.size() == x[2]]
        for n, b in bs:
            out.append(Cand(f"counter >= {n}", lambda vc, s, x=x, b=b: [B("", getint(vc, s, x) >= b)]))
            out.append(Cand(f"counter <= {n}", lambda vc, s, x=x, b=b: [B("", getint(vc, s, x) <= b)]))
    return out


def edge_at(vc, st, x):
    w, n = vc.rd_edge(st, Ptr(x[0], x[1]))
    if not isinstance(n, NodePtr):
        raise Unsupported("edge")
    vc.th.reffacts(st, n.k, n.ref)
    return E(n.k, w, n)


def edge_candidates(vc, st, info, formulas, offs=(-1, 0, -2)):
    """edge denotes formula(level) at level = counter + d; formulas: [(label, fn(level) -> Poly)]"""
    out = []
    T = vc.th
    marks = set().union(*[set(f[2]) for f in formulas if len(f) > 2] or [set()])
    for ei, e in enumerate(info.edges):
        # a formula that mentions none of the marked atoms the initial weight is made of cannot hold on entry
        w0 = vc.rd_edge(st, Ptr(e[0], e[1]))[0].atoms() & marks
        fs = [f[:2] for f in formulas if not w0 or len(f) > 2 and w0 & set(f[2])]
        for x in info.ints:
            if x[2] != 32:
                continue
            for d in offs:
                for fl, fm in fs:
                    def mk(vc, s, e=e, x=x, d=d, fm=fm, fl=fl):
                        l = getint(vc, s, x) + d
                        if not vc.entails(s, z3.And(l >= -1)):
                            return None
                        g = edge_at(vc, s, e)
                        return [B("", T.valid(g, l)), Q("", T.ent(g, l) - fm(vc, s, l), g.w * T.D(g.k, g.n.ref, l), l)]
                    out.append(Cand(f"edge denotes {fl}", mk, ("edge", e)))
    return out
