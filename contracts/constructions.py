"""C05, C06, C08, C10: constructions of representations, for arbitrary representations of arbitrary dimension."""
import numpy as np

import lie_nn as lie
from lie_nn import util
from lie_nn._src.reduced_rep import MulIrrep, ReducedRep
from vlib.sym.contract import contract


def commutes(c, name, A, X):
    """[X_i, X_j] = A_ijk X_k"""
    c.equal(
        name,
        np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X),
        np.einsum("ijk,kab->ijab", A, X),
    )


def kron2(a, b):
    """Kronecker product of the last two axes, batched over the first"""
    r = np.einsum("nij,nkl->nikjl", a, b)
    return r.reshape(a.shape[0], a.shape[1] * b.shape[1], a.shape[2] * b.shape[2])


def kron_r(a, d):
    """a_n (x) 1_d"""
    r = np.einsum("nij,kl->nikjl", a, np.eye(d))
    return r.reshape(a.shape[0], a.shape[1] * d, a.shape[2] * d)


def kron_l(d, a):
    """1_d (x) a_n"""
    r = np.einsum("ij,nkl->nikjl", np.eye(d), a)
    return r.reshape(a.shape[0], d * a.shape[1], d * a.shape[2])


def blocks(c, name, out, A, B):
    """out = diag(A, B) (last two axes)"""
    m, n = A.shape[-2:]
    p, q = B.shape[-2:]
    c.ensure(name + ": shape", (out.shape[-2] == m + p) & (out.shape[-1] == n + q))
    c.equal(name + ": upper left", out[..., :m, :n], A)
    c.equal(name + ": lower right", out[..., m:, n:], B)
    c.zero(name + ": upper right", out[..., :m, n:])
    c.zero(name + ": lower left", out[..., m:, :n])


@contract("C05", targets=["lie_nn._src.tensor_product.tensor_product"])
def tensor_product_generic(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    r2 = c.anyrep("2", A, m)
    r = c.call(lie.tensor_product, r1, r2)
    d1, d2 = r1.X.shape[1], r2.X.shape[1]
    c.ensure("dim", r.dim == d1 * d2)
    c.equal("algebra", r.A, A)
    c.equal("X = X1 x 1 + 1 x X2", r.X, kron_r(r1.X, d2) + kron_l(d1, r2.X))
    c.equal("H = H1 x H2", r.H, kron2(r1.H, r2.H))
    commutes(c, "bracket", r.A, r.X)


@contract("C05", targets=["lie_nn._src.direct_sum.direct_sum", "lie_nn._src.util.direct_sum"])
def direct_sum_generic(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    r2 = c.anyrep("2", A, m)
    r = c.call(lie.direct_sum, r1, r2)
    c.ensure("dim", r.dim == r1.X.shape[1] + r2.X.shape[1])
    c.equal("algebra", r.A, A)
    blocks(c, "X", r.X, r1.X, r2.X)
    blocks(c, "H", r.H, r1.H, r2.H)
    commutes(c, "bracket", r.A, r.X)


@contract("C05", targets=["lie_nn._src.conjugate.conjugate"])
def conjugate_generic(c):
    A = c.realalgebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    r = c.call(lie.conjugate, r1)
    c.equal("algebra", r.A, A)
    c.equal("real part of X", np.real(r.X), np.real(r1.X))
    c.equal("imaginary part of X", np.imag(r.X), -np.imag(r1.X))
    c.equal("real part of H", np.real(r.H), np.real(r1.H))
    c.equal("imaginary part of H", np.imag(r.H), -np.imag(r1.H))
    commutes(c, "bracket", r.A, r.X)


@contract("C05 C06", targets=["lie_nn._src.change_basis.change_basis"])
def change_basis_generic(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    d = r1.X.shape[1]
    Q = c.invertible("Q", d)
    r = c.call(lie.change_basis, r1, Q)
    c.equal("algebra", r.A, A)
    c.shape("shape of X", r.X, A.shape[0], d, d)
    c.equal("X' Q = Q X", np.einsum("nij,jk->nik", r.X, Q), np.einsum("ij,njk->nik", Q, r1.X))
    c.equal("H' Q = Q H", np.einsum("nij,jk->nik", r.H, Q), np.einsum("ij,njk->nik", Q, r1.H))
    commutes(c, "bracket", r.A, r.X)


@contract("C05", targets=["lie_nn._src.change_algebra.change_algebra"])
def change_algebra_generic(c):
    A = c.algebra()
    n = A.shape[0]
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    Q = c.invertible("Q", n)
    r = c.call(lie.change_algebra, r1, Q)
    c.shape("shape of A", r.A, n, n, n)
    c.equal("X'_i = Q_ia X_a", r.X, np.einsum("ia,auv->iuv", Q, r1.X))
    c.equal("H", r.H, r1.H)
    c.equal("A'_ijk Q_kl = Q_ia Q_jb A_abl", np.einsum("ijk,kl->ijl", r.A, Q), np.einsum("ia,jb,abl->ijl", Q, Q, A))
    commutes(c, "bracket", r.A, r.X)


@contract("C05 C23", targets=["lie_nn._src.group_product.group_product"])
def group_product_generic(c):
    A1 = c.algebra("A1", c.int("n1", 0))
    m1 = c.int("m1", 0)
    r1 = c.anyrep("1", A1, m1)
    A2 = c.algebra("A2", c.int("n2", 0))
    m2 = c.int("m2", 0)
    r2 = c.anyrep("2", A2, m2)
    r = c.call(lie.group_product, r1, r2)
    group_product_spec(c, r, r1, r2)


def group_product_spec(c, r, r1, r2):
    n1, n2 = r1.A.shape[0], r2.A.shape[0]
    d1, d2 = r1.X.shape[1], r2.X.shape[1]
    m1 = r1.H.shape[0]
    c.ensure("dim", r.dim == d1 * d2)
    c.ensure("lie_dim", r.lie_dim == n1 + n2)
    c.equal("A of the first group", r.A[:n1, :n1, :n1], r1.A)
    c.equal("A of the second group", r.A[n1:, n1:, n1:], r2.A)
    c.zero("the groups commute 1", r.A[:n1, n1:, :])
    c.zero("the groups commute 2", r.A[n1:, :n1, :])
    c.zero("first group closes", r.A[:n1, :n1, n1:])
    c.zero("second group closes", r.A[n1:, n1:, :n1])
    c.equal("X of the first group", r.X[:n1], kron_r(r1.X, d2))
    c.equal("X of the second group", r.X[n1:], kron_l(d1, r2.X))
    c.shape("number of X", r.X, n1 + n2, d1 * d2, d1 * d2)
    c.equal("H of the first group", r.H[:m1], kron_r(r1.H, d2))
    c.equal("H of the second group", r.H[m1:], kron_l(d1, r2.H))
    c.shape("number of H", r.H, m1 + r2.H.shape[0], d1 * d2, d1 * d2)


@contract("C05 C10", targets=["lie_nn._src.util.direct_sum"], samples=12)
def direct_sum_two(c):
    """block assembly of two (batched, rectangular, possibly empty) matrices"""
    rank = c.choose("batch", ["none", "one", "left", "right", "unit", "two"])
    b = c.int("b", 0)
    e = c.int("e", 0)
    ba, bb = {"none": ((), ()), "one": ((b,), (b,)), "left": ((b,), ()), "right": ((), (b,)), "unit": ((1,), (b,)), "two": ((b, e), (e,))}[rank]
    m, n, p, q = c.int("m", 0), c.int("n", 0), c.int("p", 0), c.int("q", 0)
    A = c.tensor("A", *ba, m, n)
    B = c.tensor("B", *bb, p, q)
    out = c.call(util.direct_sum, A, B)
    full = {"none": (), "one": (b,), "left": (b,), "right": (b,), "unit": (b,), "two": (b, e)}[rank]
    blocks(c, "direct_sum", out, np.broadcast_to(A, full + (m, n)), np.broadcast_to(B, full + (p, q)))


@contract("C05 C06 C10", targets=["lie_nn._src.util.direct_sum"])
def direct_sum_many(c):
    """direct_sum(A, *L) = diag(A, direct_sum(*L)) for a list L of any length >= 1 (induction step); direct_sum(A) = A"""
    m, n = c.int("m", 0), c.int("n", 0)
    A = c.tensor("A", m, n)
    c.equal("one argument", c.call(util.direct_sum, A), A)
    k = c.int("k", 1)
    L = c.seq("L", k, lambda i: c.vtensor("L", (i,), (c.family("rows", i), c.family("cols", i))))
    P, Q = c.int("P", 0), c.int("Q", 0)
    R = c.tensor("R", P, Q) if c.symbolic else c.call_rest(util.direct_sum, L)

    def rest(*args):
        c.same_sequence("the recursive call gets the remaining list", args, L)
        return R

    c.recursion(util.direct_sum, rest)
    out = c.call_rest(util.direct_sum, A, L)
    blocks(c, "direct_sum", out, A, R)


@contract("C10", targets=["lie_nn._src.util.kron", "lie_nn._src.util.commutator"])
def kron_commutator(c):
    m, n, p, q, r, s = c.int("m", 0), c.int("n", 0), c.int("p", 0), c.int("q", 0), c.int("r", 0), c.int("s", 0)
    A, B, D = c.tensor("A", m, n), c.tensor("B", p, q), c.tensor("D", r, s)
    c.equal("one argument", c.call(util.kron, A), A)
    c.equal("two arguments", c.call(util.kron, A, B), np.einsum("ij,kl->ikjl", A, B).reshape(m * p, n * q))
    c.equal("three arguments", c.call(util.kron, A, B, D), np.einsum("ij,kl,uv->ikujlv", A, B, D).reshape(m * p * r, n * q * s))
    E, F = c.tensor("E", p, m, m), c.tensor("F", p, m, m)
    c.equal("commutator", c.call(util.commutator, E, F), np.einsum("zij,zjk->zik", E, F) - np.einsum("zij,zjk->zik", F, E))


@contract("C10", targets=["lie_nn._src.util.kron"])
def kron_many(c):
    """kron(A, *L) = A (x) kron(*L) for a list L of any length >= 1 (induction step)"""
    m, n = c.int("m", 0), c.int("n", 0)
    A = c.tensor("A", m, n)
    k = c.int("k", 1)
    L = c.seq("L", k, lambda i: c.vtensor("L", (i,), (c.family("rows", i), c.family("cols", i))))
    P, Q = c.int("P", 0), c.int("Q", 0)
    R = c.tensor("R", P, Q) if c.symbolic else c.call_rest(util.kron, L)

    def rest(*args):
        c.same_sequence("the recursive call gets the remaining list", args, L)
        return R

    c.recursion(util.kron, rest)
    out = c.call_rest(util.kron, A, L)
    c.equal("kron", out, np.einsum("ij,kl->ikjl", A, R).reshape(m * R.shape[0], n * R.shape[1]))


@contract("C10", targets=["lie_nn._src.util.block_diagonal"])
def block_diagonal_any(c):
    """block_diagonal of any number of equally batched real stacks"""
    k = c.int("k", 1)
    b = c.int("b", 0)
    L = c.seq("L", k, lambda i: c.vtensor("L", (i,), (b, c.family("rows", i), c.family("cols", i)), real=True))
    out = c.call(util.block_diagonal, L)
    c.equal("block diagonal", out, c.block_diag(L, batch=1))


@contract("C06", targets=["lie_nn._src.reduced_rep.MulIrrep"])
def mulirrep(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    mul = c.int("mul", 0)
    c.override(util.direct_sum, c.block_diag_args)
    r = c.new(MulIrrep, mul=mul, rep=r1)
    d = r1.X.shape[1]
    c.ensure("dim", r.dim == mul * d)
    c.equal("algebra", r.A, A)
    c.ensure("lie_dim", r.lie_dim == A.shape[0])
    c.equal("X = 1_mul x X", r.X, kron_l(mul, r1.X))
    c.equal("H = 1_mul x H", r.H, kron_l(mul, r1.H))


@contract("C06", targets=["lie_nn._src.reduced_rep.ReducedRep"])
def reducedrep(c):
    A = c.algebra()
    m = c.int("m", 0)
    k = c.int("k", 1)
    irreps = c.mulirreps("r", k, A, m)
    c.override(util.direct_sum, c.block_diag_args)
    X = c.block_diag([r.X for r in irreps], batch=1)
    H = c.block_diag([r.H for r in irreps], batch=1)
    D = X.shape[1]
    r = c.new(ReducedRep, A, irreps)
    c.equal("algebra", r.A, A)
    c.equal("X without Q", r.X, X)
    c.equal("H without Q", r.H, H)
    c.ensure("dim", r.dim == D)
    Q = c.invertible("Q", D)
    r = c.new(ReducedRep, A, irreps, Q)
    c.equal("X Q = Q D", np.einsum("nij,jk->nik", r.X, Q), np.einsum("ij,njk->nik", Q, X))
    c.equal("H Q = Q D", np.einsum("nij,jk->nik", r.H, Q), np.einsum("ij,njk->nik", Q, H))
    c.ensure("dim with Q", r.dim == D)
    S = c.invertible("S", D)
    s = c.call(lie.change_basis, r, S)
    c.ensure("change_basis keeps the irreps", s.irreps is r.irreps)
    c.equal("change_basis composes", s.Q, np.einsum("ij,jk->ik", S, Q))
    c.equal("change_basis keeps the algebra", s.A, A)
    t = c.call(lie.change_basis, c.new(ReducedRep, A, irreps), S)
    c.equal("change_basis of the identity", t.Q, S)
    c.ensure("change_basis keeps the irreps 2", t.irreps is irreps)


@contract("C06", targets=["lie_nn._src.change_basis.change_basis"])
def change_basis_mul(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.anyrep("1", A, m)
    mul = c.int("mul", 1)
    mi = c.new(MulIrrep, mul=mul, rep=r1)
    Q = c.invertible("Q", mul * r1.X.shape[1])
    r = c.call(lie.change_basis, mi, Q)
    c.ensure("class", isinstance(r, ReducedRep))
    c.ensure("irreps", (len(r.irreps) == 1) and (r.irreps[0] is mi))
    c.equal("Q", r.Q, Q)
    c.equal("algebra", r.A, A)


@contract("C10", targets=["lie_nn._src.util.regular_representation"])
def regular_representation(c):
    """D(g)|h> = |gh>"""
    n = c.int("n", 1, sample=(1, 6))
    table = c.table("table", n)
    D = c.call(util.regular_representation, table)
    c.shape("one matrix per element", D, n, n, n)
    g, h = c.int("g", 0, n), c.int("h", 0, n)
    c.equal("D(g)|h> = |gh>", D[g] @ np.eye(n)[:, h], np.eye(n)[:, table[g, h]])


def _product(x, y):
    return x @ y


def _both(x, y):
    return x @ y, x


def _twice(x):
    return 2 * x


def _take(a, i, axis):
    return a[i] if axis == 0 else a[:, i] if axis == 1 else a[:, :, i]


@contract("C10", targets=["lie_nn._src.util.vmap"])
def mapping(c):
    """vmap(f, in_axes, out_axes): slice i of the result is f of the slices i of the arguments"""
    n = c.int("n", 1, sample=(1, 5))
    ax, ay, out = c.choose("in_axes", [0, 1, 2]), c.choose("second", [0, 1, 2, None]), c.choose("out_axes", [0, 1, 2, -1])
    p, q, r = c.int("p", 1, sample=(1, 4)), c.int("q", 1, sample=(1, 4)), c.int("r", 1, sample=(1, 4))
    dims = lambda ax, *d: d if ax is None else d[:ax] + (n,) + d[ax:]  # noqa: E731
    x = c.tensor("x", *dims(ax, p, q))
    y = c.tensor("y", *dims(ay, q, r))
    i = c.int("i", 0, n)
    xi, yi = _take(x, i, ax), y if ay is None else _take(y, i, ay)
    f = c.choose("function", [_product, _both])
    got = c.call(util.vmap(f, (ax, ay), out), x, y)
    if f is _both:
        c.ensure("a tuple", len(got) == 2)
        c.equal("second slice", _take(got[1], i, out % 3), xi)
        got = got[0]
    c.equal("slice", _take(got, i, out % 3), xi @ yi)


@contract("C10", targets=["lie_nn._src.util.vmap"])
def mapping_of_nothing(c):
    """vmap of inputs of length zero: an array of the given shape with an axis of length zero at out_axes"""
    ax, out = c.choose("in_axes", [0, 1, 2]), c.choose("out_axes", [0, 1, 2, -1, -2, -3])
    p, q, r, s = [c.int(k, 1, sample=(1, 4)) for k in "pqrs"]
    x = c.tensor("x", *((p, q)[:ax] + (0,) + (p, q)[ax:]))
    shape = (r, s)
    got = c.call(util.vmap(_twice, ax, out, out_shape=shape), x)
    at = out % 3
    c.ensure("rank", got.ndim == 3)
    c.ensure("nothing", got.shape[at] == 0)
    c.ensure("shape", got.shape == shape[:at] + (0,) + shape[at:])
