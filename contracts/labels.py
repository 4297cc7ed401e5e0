"""C02, C04: selection rules, dimensions, orders and enumerations of the tabulated irreps, for all labels."""
import numpy as np

import lie_nn as lie
from lie_nn._src.irreps.sun import SU2_, SU3, SU4
from vlib.sym.contract import contract

SU2, SU2Real, SO3, O3, Z2, SL2C, SO13 = (lie.irreps.SU2, lie.irreps.SU2Real, lie.irreps.SO3, lie.irreps.O3, lie.irreps.Z2, lie.irreps.SL2C, lie.irreps.SO13)
M = "lie_nn._src.irreps."


def triangle(a, b, x, step):
    return (abs(a - b) <= x) & (x <= a + b) & ((a + b + x) % step == 0)


def selection(c, a, b, x, spec, real=True):
    """x occurs in a * b exactly when spec, each label once, and the dimensions add up"""
    c.ensure("selection rule", c.iff(c.member(a * b, x), spec))
    c.distinct("each label once", a * b)
    if real:
        c.total("dimensions add up", a * b, lambda r: r.dim, a.dim * b.dim)


# --- arbitrary valid labels ----------------------------------------------------------------------


def su2(c, s):
    return c.obj(SU2, j=c.int("j" + s, 0, sample=(0, 30)))


def su2real(c, s):
    return c.obj(SU2Real, j=c.int("n" + s, 0, sample=(0, 16)) / 2)


def so3(c, s):
    return c.obj(SO3, l=c.int("l" + s, 0, sample=(0, 14)))


def o3(c, s):
    return c.obj(O3, l=c.int("l" + s, 0), p=c.sign("p" + s))


def z2(c, s):
    return c.obj(Z2, p=c.sign("p" + s))


def sl2c(c, s):
    return c.obj(SL2C, l=c.int("l" + s, 0), k=c.int("k" + s, 0))


def so13(c, s):
    l, q = c.int("l" + s, 0), c.int("q" + s, 0)
    return c.obj(SO13, l=l, k=l % 2 + 2 * q)


# --- selection rules and dimensions ------------------------------------------------------------------


@contract("C02 C01", targets=[M + "su2.SU2.__mul__", M + "su2.SU2.dim"])
def su2_selection(c):
    a, b, x = su2(c, "1"), su2(c, "2"), su2(c, "3")
    c.ensure("dim", a.dim == a.j + 1)
    selection(c, a, b, x, triangle(a.j, b.j, x.j, 2))


@contract("C02 C01", targets=[M + "su2_real.SU2Real.__mul__", M + "su2_real.SU2Real.dim"])
def su2real_selection(c):
    n1, n2, n3 = c.int("n1", 0), c.int("n2", 0), c.int("n3", 0)
    a, b, x = c.obj(SU2Real, j=n1 / 2), c.obj(SU2Real, j=n2 / 2), c.obj(SU2Real, j=n3 / 2)
    if n1 % 2 == 0:
        c.ensure("dim (integer spin)", a.dim == n1 + 1)
    else:
        c.ensure("dim (half-integer spin)", a.dim == 2 * (n1 + 1))
    selection(c, a, b, x, triangle(n1, n2, n3, 2), real=False)
    if (n1 % 2 == 0) & (n2 % 2 == 0):
        c.total("dimensions add up", a * b, lambda r: r.dim, a.dim * b.dim)


@contract("C02 C01", targets=[M + "so3_real.SO3.__mul__", M + "so3_real.SO3.dim"])
def so3_selection(c):
    a, b, x = so3(c, "1"), so3(c, "2"), so3(c, "3")
    c.ensure("dim", a.dim == 2 * a.l + 1)
    selection(c, a, b, x, triangle(a.l, b.l, x.l, 1))


@contract("C02 C01", targets=[M + "o3_real.O3.__mul__", M + "o3_real.O3.dim"])
def o3_selection(c):
    a, b, x = o3(c, "1"), o3(c, "2"), o3(c, "3")
    c.ensure("dim", a.dim == 2 * a.l + 1)
    selection(c, a, b, x, triangle(a.l, b.l, x.l, 1) & (x.p == a.p * b.p))


@contract("C02 C01", targets=[M + "z2.Z2.__mul__", M + "z2.Z2.dim"])
def z2_selection(c):
    a, b, x = z2(c, "1"), z2(c, "2"), z2(c, "3")
    c.ensure("dim", a.dim == 1)
    selection(c, a, b, x, x.p == a.p * b.p)


@contract("C02 C01", targets=[M + "sl2c.SL2C.__mul__", M + "sl2c.SL2C.dim"])
def sl2c_selection(c):
    a, b, x = sl2c(c, "1"), sl2c(c, "2"), sl2c(c, "3")
    c.ensure("dim", a.dim == (a.l + 1) * (a.k + 1))
    selection(c, a, b, x, triangle(a.l, b.l, x.l, 2) & triangle(a.k, b.k, x.k, 2))


@contract("C02 C01", targets=[M + "so13.SO13.__mul__", M + "so13.SO13.dim"])
def so13_selection(c):
    a, b, x = so13(c, "1"), so13(c, "2"), so13(c, "3")
    c.ensure("dim", a.dim == (a.l + 1) * (a.k + 1))
    selection(c, a, b, x, triangle(a.l, b.l, x.l, 2) & triangle(a.k, b.k, x.k, 2))


# --- order and enumeration -----------------------------------------------------------------------------


def order(c, make, trivial, fields):
    a, b, d = make(c, "1"), make(c, "2"), make(c, "3")
    same = True
    for f in fields:
        same = same & (getattr(a, f) == getattr(b, f))
    c.ensure("== compares the labels", c.iff(a == b, same))
    c.ensure("!= is the negation", c.iff(a != b, not (a == b)))
    if a == b:
        c.ensure("irreflexive", not (a < b))
    elif a < b:
        c.ensure("asymmetric", not (b < a))
        if b < d:
            c.ensure("transitive", a < d)
    else:
        c.ensure("total", b < a)
    cls = type(a)
    c.increasing("enumerated in increasing order", cls.iterator())
    c.ensure("every label is enumerated", c.member(cls.iterator(), a))
    first = cls.create_trivial()
    for f in fields:
        c.ensure("trivial label", getattr(first, f) == trivial[f])
    again = a.create_trivial()
    c.ensure("create_trivial of an instance", again == first)
    c.ensure("the trivial irrep comes first", not (a < first))


def scalar(c, a, trivial):
    c.ensure("is_scalar", c.iff(a.is_scalar(), trivial))


@contract("C04", targets=[M + "su2.SU2.__lt__", M + "su2.SU2.iterator"])
def su2_order(c):
    order(c, su2, dict(j=0), ["j"])


@contract("C04", targets=[M + "su2_real.SU2Real.__lt__", M + "su2_real.SU2Real.iterator"])
def su2real_order(c):
    order(c, su2real, dict(j=0), ["j"])


@contract("C04", targets=[M + "so3_real.SO3.__lt__", M + "so3_real.SO3.iterator"])
def so3_order(c):
    order(c, so3, dict(l=0), ["l"])


@contract("C04", targets=[M + "o3_real.O3.__lt__", M + "o3_real.O3.iterator"])
def o3_order(c):
    order(c, o3, dict(l=0, p=1), ["l", "p"])


@contract("C04", targets=[M + "z2.Z2.__lt__", M + "z2.Z2.iterator"])
def z2_order(c):
    order(c, z2, dict(p=1), ["p"])


@contract("C04", targets=[M + "sl2c.SL2C.__lt__", M + "sl2c.SL2C.iterator"])
def sl2c_order(c):
    order(c, sl2c, dict(l=0, k=0), ["l", "k"])


@contract("C04", targets=[M + "so13.SO13.__lt__", M + "so13.SO13.iterator"])
def so13_order(c):
    order(c, so13, dict(l=0, k=0), ["l", "k"])


def row(c, cls, s):
    """an arbitrary weakly decreasing row that ends with 0"""
    d = [c.int(f"d{i}{s}", 0, sample=(0, 8)) for i in range(SIZE[cls] - 1)]
    S = [0]
    for x in d:
        S = [S[0] + x] + S
    return c.obj(cls, S=tuple(S))


SIZE = {SU2_: 2, SU3: 3, SU4: 4}


def sun_order(c, cls):
    n = SIZE[cls]
    a, b, d = row(c, cls, "1"), row(c, cls, "2"), row(c, cls, "3")
    same = True
    for i in range(n):
        same = same & (a.S[i] == b.S[i])
    c.ensure("== compares the rows", c.iff(a == b, same))
    if a == b:
        c.ensure("irreflexive", not (a < b))
    elif a < b:
        c.ensure("asymmetric", not (b < a))
        if b < d:
            c.ensure("transitive", a < d)
    else:
        c.ensure("total", b < a)
    c.increasing("enumerated in increasing order", cls.iterator())
    c.ensure("every row is enumerated", c.member(cls.iterator(), a))
    first = a.create_trivial()
    c.ensure("the trivial irrep", first.S == (0,) * n)
    c.ensure("is_scalar", c.iff(a.is_scalar(), a.S == (0,) * n))
    c.ensure("the trivial irrep comes first", not (a < first))


@contract("C04", targets=[M + "sun.SUN.__lt__", M + "sun.SUN.__eq__", M + "sun.SUN.is_scalar", M + "sun.SU2_.iterator"])
def su2_rows_order(c):
    sun_order(c, SU2_)


@contract("C04", targets=[M + "sun.SUN.__lt__", M + "sun.SUN.__eq__", M + "sun.SUN.is_scalar", M + "sun.SU3.iterator"])
def su3_order(c):
    sun_order(c, SU3)


@contract("C04", targets=[M + "sun.SUN.__lt__", M + "sun.SUN.__eq__", M + "sun.SUN.is_scalar", M + "sun.SU4.iterator"])
def su4_order(c):
    sun_order(c, SU4)


@contract("C04", targets=[M + "su2.SU2.is_scalar", M + "o3_real.O3.is_scalar", M + "sl2c.SL2C.is_scalar", M + "so13.SO13.is_scalar"])
def scalars(c):
    a = su2(c, "1")
    scalar(c, a, a.j == 0)
    a = sl2c(c, "3")
    scalar(c, a, (a.l == 0) & (a.k == 0))
    a = so13(c, "4")
    scalar(c, a, (a.l == 0) & (a.k == 0))


# --- labels out of range are refused ---------------------------------------------------------------------


@contract("C04", targets=[M + "su2.SU2.__post_init__", M + "sl2c.SL2C.__post_init__", M + "so13.SO13.__post_init__", M + "su2_real.SU2Real.__post_init__"])
def invalid_labels(c):
    j, l, k = c.int("j", 1), c.int("l", 0), c.int("k", 0)
    c.raises("negative SU2 label", AssertionError, SU2, j=-j)
    c.raises("negative SU2Real label", AssertionError, SU2Real, j=-j / 2)
    c.raises("negative SL2C label", AssertionError, SL2C, l=-j, k=k)
    c.raises("negative SL2C label", AssertionError, SL2C, l=l, k=-j)
    c.raises("negative SO13 label", AssertionError, SO13, l=-j, k=j)
    c.assume((l + k) % 2 == 1)
    c.raises("odd SO13 label", AssertionError, SO13, l=l, k=k)
