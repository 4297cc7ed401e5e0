"""C23: irreps of a direct product of groups."""
import numpy as np

import lie_nn as lie
from lie_nn._src.group_product import TabulatedIrrepProduct
from vlib.sym.contract import contract

from .constructions import commutes, group_product_spec, kron_l, kron_r
from .labels import o3, sl2c, so3, su2, z2

G = "lie_nn._src.group_product."
T = G + "TabulatedIrrepProduct."


def two_irreps(c):
    A1 = c.algebra("A1", c.int("n1", 0))
    A2 = c.algebra("A2", c.int("n2", 0))
    return c.anyirrep("1", A1, c.int("m1", 0)), c.anyirrep("2", A2, c.int("m2", 0))


@contract("C23", targets=[G + "group_product", T + "continuous_generators", T + "discrete_generators", T + "algebra", T + "dim"])
def product_irrep_generators(c):
    a, b = two_irreps(c)
    r = c.call(lie.group_product, a, b)
    c.ensure("class", isinstance(r, TabulatedIrrepProduct))
    group_product_spec(c, r, a, b)


@contract("C23", targets=[G + "group_product"])
def product_bracket(c):
    """the product of two representations represents the product algebra"""
    A1, A2 = c.algebra("A1", c.int("n1", 0)), c.algebra("A2", c.int("n2", 0))
    a, b = c.rep("1", A1, c.int("m1", 0)), c.rep("2", A2, c.int("m2", 0))
    r = c.call(lie.group_product, a, b)
    n1, X1, X2 = A1.shape[0], r.X[: A1.shape[0]], r.X[A1.shape[0] :]
    commutes(c, "first group", A1, X1)
    commutes(c, "second group", A2, X2)
    c.equal("the groups commute", np.einsum("iab,jbc->ijac", X1, X2), np.einsum("jab,ibc->ijac", X2, X1))


@contract("C23", targets=[G + "group_product"])
def product_of_three(c):
    a, b = two_irreps(c)
    d = c.anyirrep("3", c.algebra("A3", c.int("n3", 0)), c.int("m3", 0))
    r = c.call(lie.group_product, a, b, d)
    c.ensure("class", isinstance(r, TabulatedIrrepProduct))
    group_product_spec(c, r, c.call(lie.group_product, a, b), d)


@contract("C23", targets=[G + "group_product"])
def product_of_three_generic(c):
    reps = [c.rep(str(i), c.algebra(f"A{i}", c.int(f"n{i}", 0)), c.int(f"m{i}", 0)) for i in (1, 2, 3)]
    r = c.call(lie.group_product, *reps)
    group_product_spec(c, r, c.call(lie.group_product, reps[0], reps[1]), reps[2])


@contract("C23", targets=[G + "group_product"])
def product_associative(c):
    a, b, d = [c.rep(str(i), c.algebra(f"A{i}", c.int(f"n{i}", 0)), c.int(f"m{i}", 0)) for i in (1, 2, 3)]
    l = c.call(lie.group_product, c.call(lie.group_product, a, b), d)
    r = c.call(lie.group_product, a, c.call(lie.group_product, b, d))
    c.equal("A", l.A, r.A)
    c.equal("X", l.X, r.X)
    c.equal("H", l.H, r.H)


@contract("C23", targets=[T + "__mul__"])
def product_selection(c):
    f, g = c.choose("groups", [(su2, o3), (o3, z2), (sl2c, su2)])
    a1, b1, x1 = f(c, "1"), f(c, "2"), f(c, "3")
    a2, b2, x2 = g(c, "4"), g(c, "5"), g(c, "6")
    a, b, x = (c.call(lie.group_product, *p) for p in ((a1, a2), (b1, b2), (x1, x2)))
    c.ensure("cartesian product", c.iff(c.member(a * b, x), c.member(a1 * b1, x1) & c.member(a2 * b2, x2)))


@contract("C23", targets=[T + "__mul__"])
def product_selection_order(c):
    """the sequence of products, in order: first factor outermost"""
    p, q = c.irrep_product("p"), c.irrep_product("q")
    a, b = c.call(lie.group_product, p[0], q[0]), c.call(lie.group_product, p[1], q[1])
    c.same_sequence("cartesian product", a * b, [TabulatedIrrepProduct(x, y) for x in p[0] * p[1] for y in q[0] * q[1]])


@contract("C23", targets=[T + "clebsch_gordan"])
def product_cg(c):
    p, q = c.irrep_triple("p"), c.irrep_triple("q")
    r1, r2, r3 = (c.call(lie.group_product, x, y) for x, y in zip(p, q))
    C = c.call(lie.clebsch_gordan, r1, r2, r3)
    C1, C2 = c.call(lie.clebsch_gordan, *p), c.call(lie.clebsch_gordan, *q)
    n = C1.shape[0] * C2.shape[0]
    c.shape("shape", C, n, r1.dim, r2.dim, r3.dim)
    c.equal("product coefficients, all pairs of paths", C, np.einsum("aikm,bjln->abijklmn", C1, C2).reshape(n, r1.dim, r2.dim, r3.dim))


@contract("C23", targets=[T + "clebsch_gordan"])
def product_cg_intertwines(c):
    p, q = c.irrep_triple("p"), c.irrep_triple("q")
    r1, r2, r3 = (c.call(lie.group_product, x, y) for x, y in zip(p, q))
    C = c.call(lie.clebsch_gordan, r1, r2, r3)
    c.equal(
        "continuous",
        np.einsum("sijk,alk->saijl", C, r3.X),
        np.einsum("api,spjl->saijl", r1.X, C) + np.einsum("apj,sipl->saijl", r2.X, C),
    )
    c.equal("discrete", np.einsum("sijk,alk->saijl", C, r3.H), np.einsum("api,aqj,spql->saijl", r1.H, r2.H, C))


@contract("C23", targets=[T + "__lt__"])
def product_order(c):
    f, g = c.choose("groups", [(su2, o3), (so3, z2), (o3, su2)])
    a1, b1 = f(c, "1"), f(c, "2")
    a2, b2 = g(c, "4"), g(c, "5")
    a, b = c.call(lie.group_product, a1, a2), c.call(lie.group_product, b1, b2)
    c.ensure("lexicographic", c.iff(a < b, (a1 < b1) | ((a1 == b1) & (a2 < b2))))
