"""Contracts of the distributed form (dd.cpp compiled with isMPI)."""
import z3
from poly import ZERO
from theory import E, NQ
from contract import *

M = z3.BitVec("local_qubits", 32)      # ghost: qubits of a process's slice
I32S = z3.BitVecSort(32)
# at(row, col, ws, n): the row and column bits M..n-1 of the entry looked at are the binary digits of row and col (recursive definition, unfolded at() below)
AT = z3.Function("at_block", I32S, I32S, I32S, I32S, z3.BoolSort())


def i32(x):
    return x if z3.is_expr(x) else bv(x, 32)


class Block(Contract):
    """getMPIGate: the block (row, col) of an operator on n qubits seen as world_size x world_size blocks"""
    name = "getMPIGate"
    retk = "m"

    def __init__(self, default=False):
        self.default = default
        self.tag = "getMPIGate" + ("/default" if default else "")

    def parts(self, T, a):
        root, row, col, ws = (x.val for x in a[:4])
        row, col, ws = i32(row), i32(col), i32(ws)
        n = T.var["m"](root.n.ref) + 1 if self.default or len(a) < 5 else i32(a[4].val)
        return root, row, col, ws, n

    def requires(self, T, st, a):
        root, row, col, ws, n = self.parts(T, a)
        out = []
        if len(a) > 4:
            t = i32(a[4].val)
            out.append(B("a number of qubits is given" if not self.default else "no number of qubits is given", t < 0 if self.default else t >= 0))
        return out + [B("the number of processes is a power of two, at most the dimension", z3.And(M >= 0, M <= n, n <= NQ, ws == (bv(1, 32) << (n - M)))),
                      B("the block exists", z3.And(row >= 0, row < ws, col >= 0, col < ws)),
                      B("the operator is a diagram on the register", T.valid(root, n - 1))]

    def levels(self, T, a):
        root, row, col, ws, n = self.parts(T, a)
        return (n - 1, M - 1)

    def decreases(self, T, st, a):
        ws = self.parts(T, a)[3]
        return lambda top: z3.And(ws < self.parts(T, top)[3], ws >= 0)

    def result(self, T, st, a, ins=None):
        return new_edge(T, st, "m", "block")

    def entry(self, vc, st, args):
        T = vc.th
        root, row, col, ws, n = self.parts(T, args)
        h = ws / bv(2, 32)
        st.assume(AT(row, col, ws, n))
        # definition of at_block, one step
        st.assume(z3.Implies(ws > 1, z3.And(T.rb(T.lv(n - 1)) == (row >= h), T.cb(T.lv(n - 1)) == (col >= h), AT(z3.SRem(row, h), z3.SRem(col, h), h, n - 1))))

    def ensures(self, T, st, a, r):
        root, row, col, ws, n = self.parts(T, a)
        return [B("the block is zero or a diagram on the qubits of a slice", z3.Or(T.Zraw(r.w), T.valid(r, M - 1))),
                Q("entry of the block is the entry of the operator at the block's row and column", T.ent(r, M - 1) - T.ent(root, n - 1), r.w * T.D("m", r.n.ref, M - 1), n - 1, AT(row, col, ws, n))]


def mpi_contracts():
    return [Block(), Block(True)]
