"""C13: the steps of the reduction of tensor product bases."""
import numpy as np

import lie_nn as lie
import lie_nn._src.reduced_tensor_product as R
from vlib.sym.contract import contract

from .labels import o3

T = "lie_nn._src.reduced_tensor_product."
NB = "at most three blocks; any multiplicities, irreps and sizes"


def blocks(c, n, lead, t=""):
    irs = [o3(c, t + str(k)) for k in range(n)]
    muls = [c.int("mul" + t + str(k), 1, sample=(1, 4)) for k in range(n)]
    xs = [c.tensor("x" + t + str(k), *lead, m, r.dim) for k, (m, r) in enumerate(zip(muls, irs))]
    b = c.obj(R.IrrepsArray, irreps=tuple([c.obj(lie.MulIrrep, mul=m, rep=r) for m, r in zip(muls, irs)]), list=xs)
    return irs, muls, xs, b


def well_formed(c, b):
    """each block has one copy of its irrep per multiplicity"""
    c.ensure("as many blocks as irreps", len(b.irreps) == len(b.list))
    for m, x in zip(b.irreps, b.list):
        c.ensure("shape of the blocks", (x.shape[-2] == m.mul) & (x.shape[-1] == m.rep.dim))


@contract("C13", samples=30, targets=[T + "IrrepsArray.simplify", T + "IrrepsArray.__init__"], bounded=NB)
def simplify_blocks(c):
    """simplify() describes the same array, with no two equal irreps next to each other"""
    n = c.choose("blocks", [1, 2, 3])
    lead = [c.int("e" + str(i), 1, sample=(1, 3)) for i in range(2)]
    irs, muls, xs, b = blocks(c, n, lead)
    r = c.call(R.IrrepsArray.simplify, b)
    well_formed(c, r)
    runs = [[0]]
    for k in range(1, n):
        if (irs[k].l == irs[k - 1].l) & (irs[k].p == irs[k - 1].p):
            runs[-1] = runs[-1] + [k]
        else:
            runs = runs + [[k]]
    c.ensure("neighbours with equal irreps are merged, and no others", len(r.irreps) == len(runs))
    for m, y, run in zip(r.irreps, r.list, runs):
        c.ensure("the irrep", (m.rep.l == irs[run[0]].l) & (m.rep.p == irs[run[0]].p) & (m.mul == sum([muls[k] for k in run])))
        c.equal("all the copies, in order", y, np.concatenate([xs[k] for k in run], axis=-2))


@contract("C13", samples=30, targets=[T + "IrrepsArray.array"], bounded=NB)
def array_of_blocks(c):
    """array: the blocks next to each other, the copies outermost"""
    n = c.choose("blocks", [1, 2, 3])
    lead = [c.int("e" + str(i), 1, sample=(1, 3)) for i in range(2)]
    irs, muls, xs, b = blocks(c, n, lead)
    c.equal("the blocks next to each other", b.array, np.concatenate([x.reshape(lead[0], lead[1], m * i.dim) for x, m, i in zip(xs, muls, irs)], axis=-1))


@contract("C13", samples=30, targets=[T + "IrrepsArray.sorted"], bounded=NB)
def sorted_blocks(c):
    """sorted() contains the same blocks in the order of the irreps"""
    n = c.choose("blocks", [1, 2, 3])
    lead = [c.int("e" + str(i), 1, sample=(1, 3)) for i in range(2)]
    irs, muls, xs, b = blocks(c, n, lead)
    r = c.call(R.IrrepsArray.sorted, b)
    well_formed(c, r)
    c.ensure("as many", len(r.irreps) == n)
    for k in range(n - 1):
        c.ensure("sorted", c.iff(r.irreps[k + 1].rep < r.irreps[k].rep, False))
    used = [0] * n
    for m, y in zip(r.irreps, r.list):
        k = [i for i in range(n) if y is xs[i]]
        c.ensure("one of the blocks", len(k) == 1)
        used[k[0]] += 1
        c.ensure("with its irrep", (m.rep.l == irs[k[0]].l) & (m.rep.p == irs[k[0]].p) & (m.mul == muls[k[0]]))
    c.ensure("each block once", used == [1] * n)


@contract("C13", samples=30, targets=[T + "IrrepsArray.reshape"], bounded=NB)
def reshape_blocks(c):
    """reshape() of the leading dimensions"""
    n = c.choose("blocks", [1, 2, 3])
    lead = [c.int("e" + str(i), 1, sample=(1, 3)) for i in range(2)]
    irs, muls, xs, b = blocks(c, n, lead)
    r = c.call(R.IrrepsArray.reshape, b, (lead[0], 1, lead[1], -1))
    well_formed(c, r)
    for x, y in zip(xs, r.list):
        c.equal("the same entries", y[:, 0], x)


@contract("C13", samples=20, targets=[T + "reduce_basis_product"], bounded="one block each; any multiplicities, irreps, selection rules, coefficients and sizes",
          assumes=["sorted() and simplify() describe the same blocks in another order (proved: sorted_blocks, simplify_blocks)"])
def basis_product(c):
    """every irrep of the product of two blocks, with the coefficients applied to all pairs of copies"""
    lead = [c.int("e" + str(i), 1, sample=(1, 3)) for i in range(2)]
    m1, m2 = c.int("mul1", 1, sample=(1, 3)), c.int("mul2", 1, sample=(1, 3))
    r1, r2 = c.irrep_pair()
    x1, x2 = c.tensor("x1", lead[0], 1, m1, r1.dim), c.tensor("x2", 1, lead[1], m2, r2.dim)
    a = c.obj(R.IrrepsArray, irreps=(c.obj(lie.MulIrrep, mul=m1, rep=r1),), list=[x1])
    b = c.obj(R.IrrepsArray, irreps=(c.obj(lie.MulIrrep, mul=m2, rep=r2),), list=[x2])

    def init(self, *, irreps, list):
        self.irreps = irreps
        self.list = list

    c.override(R.IrrepsArray.__init__, init)
    c.override(R.IrrepsArray.sorted, lambda self: self)
    c.override(R.IrrepsArray.simplify, lambda self: self)
    r = c.call(R.reduce_basis_product, a, b)
    outs = r1 * r2
    if not c.symbolic:
        outs = list(outs)
    muls = [m1 * m2 * lie.clebsch_gordan(r1, r2, z).shape[0] for z in outs]
    c.same_sequence("irreps", [m.mul for m in r.irreps], muls)
    z = c.int("z", 0, len(outs))
    C = r1.clebsch_gordan(r1, r2, outs[z])
    c.shape("shape", r.list[z], lead[0], lead[1], m1 * m2 * C.shape[0], outs[z].dim)
    c.equal("coefficients applied to all pairs of copies", r.list[z], np.einsum("aui,bvj,wijk->abwuvk", x1[:, 0], x2[0], C).reshape(lead[0], lead[1], C.shape[0] * m1 * m2, outs[z].dim))
