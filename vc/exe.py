"""Symbolic execution of the LLVM IR of /repo's functions, one function at a time, callees by contract or inlined.

Machine integers are exact bit vectors; doubles are real polynomials (rounding, NaN and overflow idealised away);
memory is a set of disjoint objects with byte offsets.  Anything outside this raises Unsupported: the function is then
reported as not decided, never as verified."""
import re, sys
from fractions import Fraction
import z3
from ir import Unsupported, Ty, Op, demangle, Module
from poly import Poly, Atoms, ZERO, ONE, normal_scale, mconj

sys.setrecursionlimit(10000)


class Split(Exception):
    """the current instruction must be re-executed once under each of these conditions"""

    def __init__(self, conds, why=""):
        self.conds, self.why = conds, why


class PathEnd(Exception):
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Violation(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return f"&{self.o}+{self.off}"


NULL = Ptr(0, 0)


class NodePtr:
    """pointer into a registered diagram node"""
    __slots__ = ("k", "ref", "off")

    def __init__(self, k, ref, off=0):
        self.k, self.ref, self.off = k, ref, off

    def __repr__(self):
        return f"{self.k}:{self.ref}+{self.off}"


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"fn:{self.name}"


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Obj:
    __slots__ = ("cells", "size", "name", "zero", "owner", "ghost", "const", "dead")

    def __init__(self, size, name, owner):
        self.cells, self.size, self.name, self.owner = {}, size, name, owner
        self.zero = []          # zero-filled ranges (lo, hi)
        self.ghost = None       # abstract value of a library container
        self.const = False
        self.dead = False

    def clone(self, owner):
        o = Obj(self.size, self.name, owner)
        o.cells, o.zero, o.ghost, o.const, o.dead = dict(self.cells), list(self.zero), self.ghost, self.const, self.dead
        return o


class Frame:
    __slots__ = ("fn", "regs", "blk", "idx", "prev", "ret_reg", "allocas", "retk", "unwind", "loops", "iters", "entry_args")

    def __init__(self, fn):
        self.fn, self.regs, self.blk, self.idx, self.prev = fn, {}, fn.entry, 0, None
        self.ret_reg, self.allocas, self.retk, self.unwind = None, {}, None, None
        self.loops, self.iters = {}, {}
        self.entry_args = None

    def clone(self):
        f = Frame(self.fn)
        f.regs, f.blk, f.idx, f.prev = dict(self.regs), self.blk, self.idx, self.prev
        f.ret_reg, f.allocas, f.retk, f.unwind = self.ret_reg, dict(self.allocas), self.retk, self.unwind
        f.loops, f.iters, f.entry_args = dict(self.loops), dict(self.iters), self.entry_args
        return f


class State:
    def __init__(self):
        self.mem, self.frames, self.pc, self.eqs = {}, [], [], []
        self.cnt, self.noid, self.glob, self.trace = 0, 1, {}, []
        self.g = {}             # ghost variables; never mutated in place (replaced by a new dict)
        self.memo = []          # results of value-determined calls

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.pc, s.eqs, s.trace = list(self.pc), list(self.eqs), list(self.trace)
        s.cnt, s.noid, s.glob = self.cnt, self.noid, dict(self.glob)
        s.g, s.memo = self.g, list(self.memo)
        return s

    # objects
    def new(self, size, name):
        oid = self.noid
        self.noid += 1
        self.mem[oid] = Obj(size, name, self)
        return oid

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self:
            o = o.clone(self)
            self.mem[oid] = o
        return o

    def sym(self, name):
        self.cnt += 1
        return f"{name}!{self.cnt}"

    def catom(self, name, kind="complex"):
        return Poly.atom(Atoms.get(self.sym(name), (), kind))

    def assume(self, *cs):
        for c in cs:
            if c is True:
                continue
            if c is False:
                c = z3.BoolVal(False)
            self.pc.append(c)


def bv(x, n):
    if isinstance(x, int) and not isinstance(x, bool):
        return z3.BitVecVal(x, n)
    return x


def sgn(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


def conc(e):
    """z3 bit vector -> int when it is a literal"""
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


class Solver:
    """one incremental solver kept in step with the path condition of the state being explored"""

    def __init__(self, timeout=10000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout)
        self.stack = []
        self.calls = 0
        self.time = 0.0
        self.cache = {}

    def sync(self, pc):
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
            n += 1
        while len(self.stack) > n:
            self.s.pop()
            self.stack.pop()
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)

    def check(self, pc, *extra):
        import time
        self.sync(pc)
        t = time.time()
        self.calls += 1
        if extra:
            self.s.push()
            for e in extra:
                self.s.add(e)
        r = self.s.check()
        if extra:
            self.s.pop()
        self.time += time.time() - t
        return str(r)

    def model(self, pc, *extra):
        self.sync(pc)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        m = self.s.model() if str(r) == "sat" else None
        self.s.pop()
        return m


class VC:
    """verification run of one function"""

    def __init__(self, mod, contracts, lib, theory, limits=None):
        self.mod, self.contracts, self.lib, self.th = mod, contracts, lib, theory
        self.solver = Solver()
        self.results = []          # (label, status, detail, path)
        self.paths = 0
        self.maxpaths = 4000
        self.maxsteps = 400000
        self.steps = 0
        self.top = None
        self.dem = {}
        self.inlined = set()
        self.used = set()
        self.trusted = set()
        self.deadline = None
        self.ginit = None
        self.probes = []
        self.loopcon = None        # contract that states loop invariant candidates
        th = theory
        if th is not None:
            th.vc = self

    def demangled(self, n):
        if n not in self.dem:
            self.dem[n] = demangle([n])[0]
        return self.dem[n]

    # -------------------------------------------------------------- logic
    def feasible(self, st, *c):
        r = self.solver.check(st.pc, *c)
        return r != "unsat"

    def entails(self, st, c):
        if c is True:
            return True
        if c is False:
            return not self.feasible(st)
        c = z3.simplify(c) if z3.is_expr(c) else c
        if z3.is_true(c):
            return True
        return self.solver.check(st.pc, z3.Not(c)) == "unsat"

    def decide(self, st, c):
        """truth value of c on this path; forks when open"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.feasible(st, c)
        f = self.feasible(st, z3.Not(c))
        if t and f:
            raise Split([c, z3.Not(c)])
        if not t and not f:
            raise PathEnd("infeasible")
        return t

    def concretize(self, st, e, n, limit=16):
        e = conc(e)
        if isinstance(e, int):
            return e
        vals = []
        extra = []
        while len(vals) <= limit:
            m = self.solver.model(st.pc, *extra)
            if m is None:
                break
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            extra.append(e != v)
        if len(vals) > limit:
            raise Unsupported(f"unbounded symbolic index {e}")
        if not vals:
            raise PathEnd("infeasible")
        if len(vals) == 1:
            return vals[0]
        raise Split([e == v for v in vals])

    def oblige(self, st, label, ok, detail=""):
        self.results.append((label, "ok" if ok else "fail", detail, list(st.trace) if not ok else None,
                             list(st.pc) if not ok else None))
        return ok

    # -------------------------------------------------------------- memory
    def ld(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if isinstance(p, NodePtr):
            return self.th.node_load(st, p, ty)
        if hasattr(p, "gepidx"):
            return p.load(self, st, ty)
        if not isinstance(p, Ptr):
            raise Unsupported(f"load through {p}")
        if p.o == 0:
            self.oblige(st, "null-dereference", False, "load through null")
            raise PathEnd("ub")
        off = self.concretize(st, p.off, 64) if not isinstance(p.off, int) else p.off
        o = st.mem[p.o]
        if o.dead:
            raise Unsupported("load from dead object")
        if o.ghost is not None and hasattr(o.ghost, "load"):
            return o.ghost.load(self, st, off, ty)
        if ty.k in ("struct", "arr"):
            if ty.k == "arr":
                es = self.mod.size(ty.b)
                return [self.ld(st, Ptr(p.o, off + i * es), ty.b) for i in range(ty.a)]
            return [self.ld(st, Ptr(p.o, off + self.mod.field_off(ty, i)), f) for i, f in enumerate(ty.a)]
        sz = self.mod.size(ty)
        c = o.cells.get(off)
        if c is not None and c[1] == sz:
            return self.coerce(c[0], ty)
        if c is None and not any(a < off + sz and off < a + s for a, (v, s) in o.cells.items()):
            for lo, hi in o.zero:
                if lo <= off and off + sz <= hi:
                    return self.zero_of(ty)
            if off < 0 or (o.size is not None and off + sz > o.size):
                self.oblige(st, "out-of-bounds", False, f"load at {o.name}+{off} size {sz} of {o.size}")
                raise PathEnd("ub")
            if getattr(o.ghost, "lazy", False):
                v = o.ghost.fresh(self, st, p.o, off, ty)
                st.wobj(p.o).cells[off] = (v, sz)
                return v
            raise Unsupported(f"uninitialised load {o.name}+{off}:{ty.k}")
        # smaller load out of a wider integer
        for a, (v, s) in o.cells.items():
            if a <= off and off + sz <= a + s and ty.k == "i" and not isinstance(v, (Poly, Ptr, NodePtr)):
                sh = (off - a) * 8
                if isinstance(v, int):
                    return (v >> sh) & ((1 << (8 * sz)) - 1)
                return conc(z3.Extract(sh + 8 * sz - 1, sh, v))
        # wider integer load made of smaller cells
        if ty.k == "i":
            parts = []
            x = off
            while x < off + sz:
                c = o.cells.get(x)
                if c is None or isinstance(c[0], (Poly, Ptr, NodePtr)):
                    zr = any(lo <= x < hi for lo, hi in o.zero)
                    if c is None and zr:
                        parts.append((0, 1)); x += 1
                        continue
                    raise Unsupported(f"mixed load {o.name}+{off}")
                parts.append(c)
                x += c[1]
            if all(isinstance(v, int) for v, s in parts):
                r, sh = 0, 0
                for v, s in parts:
                    r |= (v & ((1 << 8 * s) - 1)) << sh
                    sh += 8 * s
                return r
            return conc(z3.Concat(*[bv(v, 8 * s) for v, s in reversed(parts)]))
        raise Unsupported(f"mixed load {o.name}+{off}")

    def coerce(self, v, ty):
        if type(v).__name__ == "Forgotten":
            import loops
            raise loops.NeedCell(v.key)
        if v is UNDEF:
            raise Unsupported("undef value used")
        if ty.k in ("double", "float") and not isinstance(v, Poly):
            if isinstance(v, int) and v == 0:
                return ZERO
            raise Unsupported("int as double")
        if ty.k == "i" and isinstance(v, Poly):
            raise Unsupported("double as int")
        if ty.k == "ptr" and isinstance(v, int) and v == 0:
            return NULL
        if ty.k == "ptr" and isinstance(v, (int, z3.BitVecRef)):
            raise Unsupported("int as pointer")
        return v

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "i":
            return 0
        if ty.k in ("double", "float", "x86_fp80"):
            return ZERO
        if ty.k == "ptr":
            return NULL
        if ty.k == "struct":
            return [self.zero_of(f) for f in ty.a]
        if ty.k == "arr":
            return [self.zero_of(ty.b) for _ in range(ty.a)]
        raise Unsupported(f"zero {ty}")

    def st_(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if isinstance(p, NodePtr):
            return self.th.node_store(st, p, v, ty)
        if hasattr(p, "gepidx"):
            return p.store(self, st, v, ty)
        if not isinstance(p, Ptr):
            raise Unsupported(f"store through {p}")
        if p.o == 0:
            self.oblige(st, "null-dereference", False, "store through null")
            raise PathEnd("ub")
        off = self.concretize(st, p.off, 64) if not isinstance(p.off, int) else p.off
        if ty.k == "arr":
            es = self.mod.size(ty.b)
            for i in range(ty.a):
                self.st_(st, Ptr(p.o, off + i * es), v[i], ty.b)
            return
        if ty.k == "struct":
            for i, f in enumerate(ty.a):
                self.st_(st, Ptr(p.o, off + self.mod.field_off(ty, i)), v[i], f)
            return
        o = st.wobj(p.o)
        if o.const:
            self.oblige(st, "frame: " + str(o.name) + " is never written", False, f"store into {o.name}")
            raise PathEnd("frame")
        if o.ghost is not None and hasattr(o.ghost, "store"):
            return o.ghost.store(self, st, off, v, ty)
        sz = self.mod.size(ty)
        if off < 0 or (o.size is not None and off + sz > o.size):
            self.oblige(st, "out-of-bounds", False, f"store at {o.name}+{off} size {sz} of {o.size}")
            raise PathEnd("ub")
        self.clear(o, off, sz)
        o.cells[off] = (v, sz)

    def clear(self, o, off, sz):
        for a in [a for a, (v, s) in o.cells.items() if a < off + sz and off < a + s]:
            v, s = o.cells[a]
            if a >= off and a + s <= off + sz:
                del o.cells[a]
            elif isinstance(v, int):
                # split a partially overwritten integer into bytes
                del o.cells[a]
                for k in range(s):
                    if not (off <= a + k < off + sz):
                        o.cells[a + k] = ((v >> (8 * k)) & 255, 1)
            else:
                raise Unsupported("partial overwrite")

    def memcpy(self, st, d, s, n):
        n = self.concretize(st, n, 64)
        if n == 0:
            return
        if isinstance(s, NodePtr):
            cells = self.th.node_cells(st, s, n)
        elif hasattr(s, "gepidx"):
            cells = s.cells(self, st, n)
        else:
            if not isinstance(s, Ptr):
                raise Unsupported(f"memcpy from {s}")
            if s.o == 0 or d.o == 0:
                self.oblige(st, "null-dereference", False, "memcpy null")
                raise PathEnd("ub")
            so = self.concretize(st, s.off, 64) if not isinstance(s.off, int) else s.off
            o = st.mem[s.o]
            if o.ghost is not None and hasattr(o.ghost, "cells_at"):
                cells = o.ghost.cells_at(self, st, so, n)
            else:
                cells = []
                for a, (v, z) in o.cells.items():
                    if so <= a and a + z <= so + n:
                        cells.append((a - so, v, z))
                    elif a < so + n and so < a + z:
                        raise Unsupported("memcpy cuts a cell")
                for lo, hi in o.zero:
                    l, h = max(lo, so), min(hi, so + n)
                    x = l
                    while x < h:
                        c = o.cells.get(x)
                        if c:
                            x += c[1]
                            continue
                        if not any(a <= x < a + z for a, (v, z) in o.cells.items()):
                            step = 8 if x % 8 == 0 and x + 8 <= h and not any(x < a < x + 8 for a in o.cells) else 1
                            cells.append((x - so, 0, step))
                            x += step
                        else:
                            x += 1
        if isinstance(d, NodePtr):
            raise Unsupported("memcpy into node")
        if hasattr(d, "gepidx"):
            return d.store_cells(self, st, cells, n)
        do = self.concretize(st, d.off, 64) if not isinstance(d.off, int) else d.off
        w = st.wobj(d.o)
        if w.const:
            self.oblige(st, "frame: " + str(w.name) + " is never written", False, f"memcpy into {w.name}")
            raise PathEnd("frame")
        if w.ghost is not None and hasattr(w.ghost, "store_cells"):
            return w.ghost.store_cells(self, st, do, cells)
        if w.size is not None and do + n > w.size:
            self.oblige(st, "out-of-bounds", False, f"memcpy to {w.name}+{do} size {n} of {w.size}")
            raise PathEnd("ub")
        self.clear(w, do, n)
        for a, v, z in cells:
            w.cells[do + a] = (v, z)

    def memset(self, st, d, val, n):
        n = self.concretize(st, n, 64)
        val = self.concretize(st, val, 8)
        if n == 0:
            return
        if val != 0:
            raise Unsupported("memset nonzero")
        if hasattr(d, "gepidx"):
            if not hasattr(d, "memset"):
                raise Unsupported("memset")
            return d.memset(self, st, n)
        w = st.wobj(d.o)
        if w.ghost is not None and hasattr(w.ghost, "memset"):
            return w.ghost.memset(self, st, d.off, n)
        self.clear(w, d.off, n)
        w.zero.append((d.off, d.off + n))

    # -------------------------------------------------------------- operands
    def val(self, st, op):
        k = op.k
        if k == "reg":
            r = st.frames[-1].regs
            if op.v not in r:
                raise Unsupported(f"register {op.v}")
            return r[op.v]
        if k == "int":
            n = op.ty.a
            if n == 1:
                return bool(op.v & 1)
            return op.v & ((1 << n) - 1)
        if k == "fp":
            if isinstance(op.v, float):
                raise Unsupported("non-finite constant")
            return Poly.const(op.v)
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero_of(op.ty)
        if k == "global":
            return self.global_addr(st, op.v)
        if k == "agg":
            return [self.val(st, e) for e in op.v]
        if k == "cexpr":
            if op.v[0] == "gep":
                _, t, ops = op.v
                p = self.val(st, ops[0])
                return self.gep(st, t, p, [self.val(st, x) for x in ops[1:]], [x.ty for x in ops[1:]])
            if op.v[0] == "ptrtoint":
                return self.th.ptrtoint(st, self.val(st, op.v[1]))
        if k == "str":
            raise Unsupported("string value")
        raise Unsupported(f"operand {op}")

    def global_addr(self, st, name):
        if name in self.mod.fn_span or name in self.mod.decl:
            return FnPtr(name)
        sp = self.th.special_global(st, name) if self.th else None
        if sp is not None:
            return sp
        if name in st.glob:
            return Ptr(st.glob[name])
        if self.mod.alias_of(name):
            return self.global_addr(st, self.mod.alias_of(name))
        ty, init, const = self.mod.glob(name)
        oid = st.new(self.mod.size(ty) if self.mod.resolve(ty).k != "opaque" else None, "@" + name)
        st.glob[name] = oid
        o = st.mem[oid]
        g = self.th.global_ghost(st, name, ty) if self.th else None
        if g is not None:
            o.ghost = g
            return Ptr(oid)
        cells = self.ginit.get(name) if self.ginit is not None else None
        if cells is not None:
            o.cells = dict(cells[0])
            o.zero = list(cells[1])
            o.const = True
        elif init is not None:
            self.init_const(st, oid, 0, ty, init)
            st.mem[oid].const = const
        return Ptr(oid)

    def init_const(self, st, oid, off, ty, op):
        t = self.mod.resolve(ty)
        o = st.wobj(oid)
        if op.k == "zero":
            o.zero.append((off, off + self.mod.size(t)))
            return
        if op.k == "str":
            for i, b in enumerate(op.v):
                o.cells[off + i] = (b, 1)
            return
        if op.k == "undef":
            return
        if t.k == "struct":
            for i, f in enumerate(t.a):
                self.init_const(st, oid, off + self.mod.field_off(t, i), f, op.v[i])
            return
        if t.k == "arr":
            es = self.mod.size(t.b)
            for i in range(t.a):
                self.init_const(st, oid, off + i * es, t.b, op.v[i])
            return
        v = self.val(st, op)
        st.wobj(oid).cells[off] = (v, self.mod.size(t))

    # -------------------------------------------------------------- gep
    def gep(self, st, ty, p, idx, ityps):
        if hasattr(p, "gepidx"):
            return p.gepidx(self, st, ty, idx, ityps)
        off = 0
        t = ty
        for n, (i, it) in enumerate(zip(idx, ityps)):
            if n == 0:
                es = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t.k == "struct":
                    off = off + self.mod.field_off(t, i if isinstance(i, int) else conc(i))
                    t = t.a[i]
                    continue
                t = t.b
                es = self.mod.size(t)
            if isinstance(i, int):
                d = sgn(i, it.a) * es
            else:
                e = i if it.a == 64 else z3.SignExt(64 - it.a, i)
                d = conc(e * es)
                if isinstance(d, int):
                    d = sgn(d, 64)
            off = self.addoff(off, d)
        if isinstance(p, Ptr):
            return Ptr(p.o, self.addoff(p.off, off))
        if isinstance(p, NodePtr):
            if not isinstance(off, int):
                off = sgn(self.concretize(st, off, 64), 64)
            return NodePtr(p.k, p.ref, p.off + off)
        if hasattr(p, "advance"):
            return p.advance(self, st, off)
        raise Unsupported(f"gep on {p}")

    @staticmethod
    def addoff(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        r = conc(bv(a & (2**64 - 1) if isinstance(a, int) else a, 64) + bv(b & (2**64 - 1) if isinstance(b, int) else b, 64))
        return sgn(r, 64) if isinstance(r, int) else r

    # -------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, ty, fl):
        if op[0] == "f" and op in ("fadd", "fsub", "fmul", "fdiv"):
            if op == "fadd":
                return self.th.simp(st, a + b)
            if op == "fsub":
                return self.th.simp(st, a - b)
            if op == "fmul":
                return self.th.simp(st, a * b)
            b = self.th.simp(st, b)
            if b.is0():
                raise PathEnd("div0")
            return self.th.simp(st, a.div(b))
        n = ty.a
        if n == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b}[op]
            A = z3.BoolVal(a) if isinstance(a, bool) else a
            B = z3.BoolVal(b) if isinstance(b, bool) else b
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](A, B)
        m = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, n), sgn(b, n)
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return (a * b) & m
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op in ("shl", "lshr", "ashr"):
                if b >= n:
                    self.oblige(st, "shift-range", False, f"shift by {b} of {n}-bit value")
                    raise PathEnd("ub")
                if op == "shl": return (a << b) & m
                if op == "lshr": return a >> b
                return (sa >> b) & m
            if b == 0:
                self.oblige(st, "division-by-zero", False, "")
                raise PathEnd("ub")
            if op == "udiv": return a // b
            if op == "urem": return a % b
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            if op == "sdiv": return q & m
            if op == "srem": return (sa - q * sb) & m
        A, B = bv(a, n), bv(b, n)
        if op in ("shl", "lshr", "ashr") and not isinstance(b, int):
            ok = self.entails(st, z3.ULT(B, n))
            self.oblige(st, "shift amount is in range", ok, self.where(st))
            if not ok:
                raise PathEnd("ub")
        if op == "add": r = A + B
        elif op == "sub": r = A - B
        elif op == "mul": r = A * B
        elif op == "and": r = A & B
        elif op == "or": r = A | B
        elif op == "xor": r = A ^ B
        elif op == "shl": r = A << B
        elif op == "lshr": r = z3.LShR(A, B)
        elif op == "ashr": r = A >> B
        elif op == "udiv": r = z3.UDiv(A, B)
        elif op == "urem": r = z3.URem(A, B)
        elif op == "sdiv": r = A / B
        elif op == "srem": r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return conc(r)

    def icmp(self, st, p, a, b, ty):
        if ty.k == "ptr" or isinstance(a, (Ptr, NodePtr, FnPtr)) or isinstance(b, (Ptr, NodePtr, FnPtr)):
            return self.ptrcmp(st, p, a, b)
        n = ty.a
        if n == 1:
            A = z3.BoolVal(a) if isinstance(a, bool) else a
            B = z3.BoolVal(b) if isinstance(b, bool) else b
            r = A == B
            return conc(r if p == "eq" else z3.Not(r))
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
                p = "u" + p[1:]
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[p]
        A, B = bv(a, n), bv(b, n)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "slt": lambda: A < B, "sle": lambda: A <= B,
             "sgt": lambda: A > B, "sge": lambda: A >= B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B),
             "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B)}[p]()
        return conc(r)

    def ptrcmp(self, st, p, a, b):
        if p in ("eq", "ne"):
            if hasattr(a, "same"):
                r = a.same(self, st, b)
            elif hasattr(b, "same"):
                r = b.same(self, st, a)
            elif isinstance(a, NodePtr) and isinstance(b, NodePtr):
                if a.k != b.k or a.off != b.off:
                    r = False
                else:
                    r = conc(a.ref == b.ref)
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o != b.o:
                    r = False
                elif isinstance(a.off, int) and isinstance(b.off, int):
                    r = a.off == b.off
                else:
                    r = conc(bv(a.off, 64) == bv(b.off, 64))
            elif isinstance(a, FnPtr) and isinstance(b, FnPtr):
                r = a.name == b.name
            else:
                r = False
            if p == "ne":
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and isinstance(a.off, int) and isinstance(b.off, int):
            return {"ult": a.off < b.off, "ule": a.off <= b.off, "ugt": a.off > b.off, "uge": a.off >= b.off}[p]
        raise Unsupported("pointer order")

    def fcmp(self, st, p, a, b):
        d = a - b
        if p == "true":
            return True
        if p in ("ord",):
            return True
        if p in ("uno", "false"):
            return False
        q = p[1:]
        th = self.th
        if q == "eq":
            return th.Zc(st, d)
        if q == "ne":
            r = th.Zc(st, d)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if q == "lt":
            return th.Lt(st, a, b)
        if q == "gt":
            return th.Lt(st, b, a)
        if q == "le":
            r = th.Lt(st, b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if q == "ge":
            r = th.Lt(st, a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        raise Unsupported(f"fcmp {p}")

    def cast(self, st, op, v, sty, dty):
        sty, dty = self.mod.resolve(sty), self.mod.resolve(dty)
        if op in ("zext", "sext", "trunc"):
            n, m = sty.a, dty.a
            if n == 1:
                if isinstance(v, bool):
                    if op == "zext":
                        return int(v)
                    return ((1 << m) - 1) if v else 0
                one = 1 if op == "zext" else (1 << m) - 1
                return conc(z3.If(v, z3.BitVecVal(one, m), z3.BitVecVal(0, m)))
            if m == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                return conc(z3.Extract(0, 0, v) == 1)
            if isinstance(v, int):
                if op == "sext":
                    return sgn(v, n) & ((1 << m) - 1)
                return v & ((1 << m) - 1)
            if op == "zext":
                return conc(z3.ZeroExt(m - n, v))
            if op == "sext":
                return conc(z3.SignExt(m - n, v))
            return conc(z3.Extract(m - 1, 0, v))
        if op in ("sitofp", "uitofp"):
            n = sty.a
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return Poly.const(sgn(v, n) if op == "sitofp" else v)
            return self.th.int2real(st, v, n, op == "sitofp")
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("fptosi", "fptoui"):
            if v.isconst():
                c = v.constval()[0]
                return int(c) & ((1 << dty.a) - 1)
            return self.th.real2int(st, v, dty.a)
        if op == "ptrtoint":
            return self.th.ptrtoint(st, v)
        if op == "inttoptr":
            return self.th.inttoptr(st, v)
        if op == "bitcast":
            return v
        raise Unsupported(f"cast {op}")

    # -------------------------------------------------------------- running
    def start_call(self, st, name, args, ret_reg, unwind=None):
        fn = self.mod.fn(name)
        f = Frame(fn)
        f.ret_reg = ret_reg
        f.unwind = unwind
        for (t, a, r), v in zip(fn.params, args):
            if "byval" in a and isinstance(v, Ptr) and v.o:
                oid = st.new(self.mod.size(a["byval"]), f"byval.{r}")
                self.memcpy(st, Ptr(oid), v, self.mod.size(a["byval"]))
                v = Ptr(oid)
            f.regs[r] = v
        f.entry_args = args
        st.frames.append(f)

    def run(self, st0, on_return):
        """explore all paths from st0; on_return(st, value, kind) is called at the end of the outermost frame"""
        work = [st0]
        depth0 = len(st0.frames)
        import time
        while work:
            st = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.maxsteps:
                        raise Unsupported("step limit")
                    if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                        raise Unsupported("time limit")
                    snap = st.cnt, st.noid, len(st.pc), len(st.eqs), st.g, len(st.memo)
                    try:
                        r = self.step(st, depth0)
                    except Split as sp:
                        alts = []
                        base = st
                        base.cnt = snap[0]
                        # objects/assumptions created before the split are dropped with the re-execution
                        for oid in range(snap[1], base.noid):
                            base.mem.pop(oid, None)
                        gl = {k: v for k, v in base.glob.items() if v < snap[1]}
                        base.glob = gl
                        base.noid = snap[1]
                        del base.pc[snap[2]:]
                        del base.eqs[snap[3]:]
                        base.g = snap[4]
                        del base.memo[snap[5]:]
                        for c in sp.conds:
                            if self.feasible(base, c):
                                s2 = base.copy()
                                s2.pc.append(c)
                                s2.trace.append(self.where(base) + ": " + str(c)[:160].replace("\n", " "))
                                alts.append(s2)
                        work.extend(reversed(alts))
                        if len(work) > self.maxpaths:
                            raise Unsupported("path limit")
                        break
                    if r is not None:
                        kind, v = r
                        self.paths += 1
                        if self.paths > self.maxpaths:
                            raise Unsupported("path limit")
                        on_return(st, v, kind)
                        break
            except PathEnd as pe:
                if pe.kind == "loopcut":
                    self.paths += 1
                continue

    def where(self, st):
        f = st.frames[-1]
        b = f.fn.blocks[f.blk]
        i = b[f.idx] if f.idx < len(b) else None
        return f"{self.demangled(f.fn.name)[:60]}:{self.mod.line_of(i.dbg) if i is not None else '?'}"

    def jump(self, st, lbl):
        f = st.frames[-1]
        lp = self.loopinfo(f.fn)
        src = f.blk
        f.prev, f.blk, f.idx = f.blk, lbl, 0
        # phis
        blk = f.fn.blocks[lbl]
        vals = []
        for ins in blk:
            if ins.op != "phi":
                break
            t, inc = ins.a
            for v, l in inc:
                if l.strip('"') == src:
                    vals.append((ins.res, self.val(st, v)))
                    break
            else:
                raise Unsupported("phi")
            f.idx += 1
        for r, v in vals:
            f.regs[r] = v
        for p in self.probes:
            if p.depth == len(st.frames) and p.fn is f.fn:
                if lbl == p.lbl and src in lp[lbl]:
                    p.back.append(st)
                    raise PathEnd("probe")
                if lbl not in p.body:
                    raise PathEnd("probe-exit")
        if lbl in lp:
            if src in lp[lbl] and f.loops.get(lbl) == "cut":
                raise PathEnd("loopcut")
            if src not in lp[lbl] and self.loopcon is not None:
                f.loops.pop(lbl, None)
                import loops, arr
                if arr.ctor_loop(self, st, f, lbl):
                    return
                if loops.symbolic_header(self, st, f, lbl, getattr(self.loopcon, "nopeel", False)):
                    loops.cut(self, st, f, lbl, self.loopcon)
                    return
            if src in lp[lbl]:
                f.iters[lbl] = f.iters.get(lbl, 0) + 1
                if self.loopcon is not None:
                    # the first iterations were decided by the path condition, this one is not
                    import loops
                    if loops.symbolic_header(self, st, f, lbl, True):
                        loops.cut(self, st, f, lbl, self.loopcon)
                        return
                if f.iters[lbl] > 300:
                    raise Unsupported("loop without invariant")
            else:
                f.iters[lbl] = 0

    _loops = {}

    def loopinfo(self, fn):
        """header -> set of latch blocks, by DFS back edges"""
        key = id(fn)
        if key in VC._loops:
            return VC._loops[key][1]
        succ = {}
        for b, ins in fn.blocks.items():
            t = ins[-1]
            if t.op == "br":
                succ[b] = [t.a[0]]
            elif t.op == "cbr":
                succ[b] = [t.a[1], t.a[2]]
            elif t.op == "switch":
                succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == "invoke":
                succ[b] = [t.a[3], t.a[4]]
            else:
                succ[b] = []
        heads = {}
        color = {}
        stack = [(fn.entry, iter(succ[fn.entry]))]
        color[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.setdefault(s, set()).add(b)
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        VC._loops[key] = (fn, heads, succ)
        return heads

    def step(self, st, depth0):
        f = st.frames[-1]
        ins = f.fn.blocks[f.blk][f.idx]
        op = ins.op
        if op == "nop":
            f.idx += 1
            return None
        R = f.regs
        if op == "alloca":
            t, n = ins.a
            cnt = 1 if n is None else self.concretize(st, self.val(st, n), 64)
            oid = f.allocas.get(ins.res)
            if oid is None or n is not None:
                oid = st.new(self.mod.size(t) * cnt, f"{f.fn.name[:30]}.%{ins.res}")
                f.allocas[ins.res] = oid
            R[ins.res] = Ptr(oid)
        elif op == "load":
            R[ins.res] = self.ld(st, self.val(st, ins.a[1]), ins.a[0])
        elif op == "store":
            self.st_(st, self.val(st, ins.a[1]), self.val(st, ins.a[0]), ins.a[0].ty)
        elif op == "gep":
            t, p, idx = ins.a
            R[ins.res] = self.gep(st, t, self.val(st, p), [self.val(st, i) for i in idx], [i.ty for i in idx])
        elif op == "bin":
            o, a, b, fl = ins.a
            R[ins.res] = self.binop(st, o, self.val(st, a), self.val(st, b), self.mod.resolve(a.ty), fl)
        elif op == "fneg":
            R[ins.res] = -self.val(st, ins.a[0])
        elif op == "icmp":
            p, a, b = ins.a
            R[ins.res] = self.icmp(st, p, self.val(st, a), self.val(st, b), self.mod.resolve(a.ty))
        elif op == "fcmp":
            p, a, b = ins.a
            R[ins.res] = self.fcmp(st, p, self.val(st, a), self.val(st, b))
        elif op == "cast":
            o, a, t = ins.a
            R[ins.res] = self.cast(st, o, self.val(st, a), a.ty, t)
        elif op == "select":
            c, a, b = ins.a
            cv = self.val(st, c)
            if isinstance(cv, bool):
                R[ins.res] = self.val(st, a if cv else b)
            else:
                x, y = self.val(st, a), self.val(st, b)
                if a.ty.k == "i" and a.ty.a > 1:
                    R[ins.res] = conc(z3.If(cv, bv(x, a.ty.a), bv(y, a.ty.a)))
                else:
                    R[ins.res] = x if self.decide(st, cv) else y
        elif op == "extractvalue":
            v = self.val(st, ins.a[0])
            for i in ins.a[1]:
                v = v[i]
            R[ins.res] = v
        elif op == "insertvalue":
            v = self.val(st, ins.a[0])
            if v is UNDEF:
                v = self.undef_agg(ins.a[0].ty)
            x = self.val(st, ins.a[1])
            R[ins.res] = self.insv(v, ins.a[2], x)
        elif op == "freeze":
            R[ins.res] = self.val(st, ins.a[0])
        elif op == "br":
            self.jump(st, ins.a[0])
            return None
        elif op == "cbr":
            c = self.decide(st, self.val(st, ins.a[0]))
            self.jump(st, ins.a[1] if c else ins.a[2])
            return None
        elif op == "switch":
            v, d, cases = ins.a
            x = self.val(st, v)
            if not isinstance(x, int):
                for c, l in cases:
                    if self.decide(st, x == c.v):
                        self.jump(st, l)
                        return None
                self.jump(st, d)
                return None
            for c, l in cases:
                if (c.v & ((1 << c.ty.a) - 1)) == x:
                    self.jump(st, l)
                    return None
            self.jump(st, d)
            return None
        elif op == "ret":
            v = None if ins.a is None else self.val(st, ins.a)
            return self.do_ret(st, v, depth0)
        elif op in ("call", "invoke"):
            return self.do_call(st, f, ins, depth0)
        elif op == "unreachable":
            raise PathEnd("unreachable")
        elif op == "atomicrmw":
            o, p, v = ins.a
            ptr, x = self.val(st, p), self.val(st, v)
            old = self.ld(st, ptr, v.ty)
            new = {"xchg": lambda: x}.get(o)
            if new is None:
                if o in ("add", "sub", "and", "or", "xor"):
                    nv = self.binop(st, o, old, x, v.ty, [])
                else:
                    raise Unsupported("atomicrmw " + o)
            else:
                nv = new()
            self.st_(st, ptr, nv, v.ty)
            R[ins.res] = old
        elif op == "phi":
            raise Unsupported("phi position")
        elif op in ("landingpad", "resume"):
            raise Unsupported(op)
        elif op == "unsupported":
            raise Unsupported(ins.a)
        else:
            raise Unsupported(op)
        f.idx += 1
        return None

    def undef_agg(self, ty):
        t = self.mod.resolve(ty)
        if t.k == "struct":
            return [self.undef_agg(x) for x in t.a]
        if t.k == "arr":
            return [self.undef_agg(t.b) for _ in range(t.a)]
        return UNDEF

    def insv(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insv(v[idx[0]], idx[1:], x)
        return v

    def do_ret(self, st, v, depth0):
        f = st.frames[-1]
        if len(st.frames) == depth0:
            return ("ret", v)
        st.frames.pop()
        for oid in f.allocas.values():
            # locals die with the frame (a later use is a dangling pointer and reported as unsupported)
            st.mem.pop(oid, None)
        c = st.frames[-1]
        ins = c.fn.blocks[c.blk][c.idx]
        if ins.res is not None:
            c.regs[ins.res] = v
        if ins.op == "invoke":
            self.jump(st, ins.a[3])
        else:
            c.idx += 1
        return None

    def do_call(self, st, f, ins, depth0):
        rt, cal, args = ins.a[0], ins.a[1], ins.a[2]
        if cal.k == "reg":
            fp = self.val(st, cal)
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            name = fp.name
        elif cal.k == "global":
            name = cal.v
        else:
            raise Unsupported("callee")
        vals = [self.val(st, a) for a, at in args if not at.get("meta")]
        ats = [at for a, at in args if not at.get("meta")]
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.memcpy(st, vals[0], vals[1], vals[2]); r = None
            elif name.startswith("llvm.memset"):
                self.memset(st, vals[0], vals[1], vals[2]); r = None
            elif name.startswith(("llvm.lifetime", "llvm.stackrestore", "llvm.assume", "llvm.experimental.noalias")):
                r = None
            elif name.startswith("llvm.stacksave"):
                r = NULL
            elif name.startswith("llvm.fabs"):
                r = self.th.fabs(st, vals[0])
            elif name.startswith("llvm.fmuladd") or name.startswith("llvm.fma"):
                r = self.th.simp(st, vals[0] * vals[1] + vals[2])
            elif name.startswith("llvm.sqrt"):
                r = self.th.sqrt(st, vals[0])
            elif name.startswith("llvm.trap"):
                self.oblige(st, "trap reached", False, self.where(st))
                raise PathEnd("trap")
            elif name.startswith("llvm.umul.with.overflow.i64"):
                a, b = vals[0], vals[1]
                if isinstance(a, int) and isinstance(b, int):
                    r = [(a * b) & (2**64 - 1), a * b >= 2**64]
                else:
                    if not isinstance(b, int):
                        raise Unsupported(name)
                    c = z3.UGT(bv(a, 64), (2**64 - 1) // b)
                    r = [conc(bv(a, 64) * b), conc(c) if self.feasible(st, c) else False]
            elif name.startswith("llvm.is.constant"):
                r = False
            else:
                raise Unsupported(name)
            return self.after_call(st, f, ins, r)
        dem = self.demangled(name)
        res = self.lib.call(self, st, name, dem, vals, ins, ats)
        if res is not NotImplemented:
            return self.after_call(st, f, ins, res)
        con = self.contracts.for_fn(self, name) if self.contracts else None
        if con is not None:
            self.used.add(con.name)
            r = con.apply(self, st, vals, ins)
            return self.after_call(st, f, ins, r)
        if not self.mod.has_body(name) and not self.mod.alias_of(name):
            raise Unsupported("external function " + dem)
        if len(st.frames) > 60:
            raise Unsupported("recursion without contract: " + dem)
        if sum(1 for g in st.frames if g.fn.name == name) > 3:
            raise Unsupported("recursion without contract: " + dem)
        self.inlined.add(dem)
        self.start_call(st, name, vals, ins.res)
        return None

    def after_call(self, st, f, ins, r):
        if ins.res is not None:
            f.regs[ins.res] = r
        if ins.op == "invoke":
            self.jump(st, ins.a[3])
        else:
            f.idx += 1
        return None

    # -------------------------------------------------------------- struct helpers
    def rd_complex(self, st, p):
        from ir import DBL
        r = self.ld(st, self.gepc(p, 0), DBL)
        i = self.ld(st, self.gepc(p, 8), DBL)
        return r + i * Poly.const((0, 1))

    def gepc(self, p, d):
        if isinstance(p, Ptr):
            return Ptr(p.o, self.addoff(p.off, d))
        if hasattr(p, "gepidx"):
            return p.gepc(d)
        return NodePtr(p.k, p.ref, p.off + d)

    def wr_complex(self, st, p, w):
        from ir import DBL
        self.st_(st, self.gepc(p, 0), w.re(), DBL)
        self.st_(st, self.gepc(p, 8), w.im(), DBL)

    def rd_edge(self, st, p):
        from ir import PTR
        return (self.rd_complex(st, p), self.ld(st, self.gepc(p, 16), PTR))

    def wr_edge(self, st, p, e):
        from ir import PTR
        self.wr_complex(st, p, e[0])
        self.st_(st, self.gepc(p, 16), e[1], PTR)
