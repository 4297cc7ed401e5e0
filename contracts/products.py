"""C07: reduced tensor products equal the generic Kronecker construction."""
import numpy as np

import lie_nn as lie
from lie_nn import util
from lie_nn._src.irrep import TabulatedIrrep
from lie_nn._src.reduced_rep import MulIrrep, ReducedRep
from lie_nn._src.rep import GenericRep, Rep
from lie_nn._src.tensor_product import tensor_power
from vlib.sym.contract import contract

from .constructions import commutes, kron2, kron_l, kron_r

T = "lie_nn._src.tensor_product.tensor_product"


def assembly(c):
    """contracts of the callees: util.direct_sum (direct_sum_two, direct_sum_many) and MulIrrep (mulirrep)"""
    c.override(util.direct_sum, c.block_diag_args)
    if c.symbolic:
        c.override(MulIrrep.continuous_generators, lambda s: kron_l(s.mul, s.rep.continuous_generators()))
        c.override(MulIrrep.discrete_generators, lambda s: kron_l(s.mul, s.rep.discrete_generators()))


def is_kron(c, name, r, r1, r2):
    X1, X2, H1, H2 = r1.X, r2.X, r1.H, r2.H
    d1, d2 = X1.shape[1], X2.shape[1]
    c.shape(name + "shape of X", r.X, X1.shape[0], d1 * d2, d1 * d2)
    c.equal(name + "X = X1 x 1 + 1 x X2", r.X, kron_r(X1, d2) + kron_l(d1, X2))
    c.shape(name + "shape of H", r.H, H1.shape[0], d1 * d2, d1 * d2)
    c.equal(name + "H = H1 x H2", r.H, kron2(H1, H2))


@contract("C07", targets=[T])
def tensor_product_irreps(c):
    r1, r2 = c.irrep_pair()
    assembly(c)
    r = c.call(lie.tensor_product, r1, r2)
    c.ensure("class", isinstance(r, ReducedRep))
    c.ensure("dim", r.dim == r1.dim * r2.dim)
    c.equal("algebra", r.A, r1.A)
    is_kron(c, "", r, r1, r2)


@contract("C07", targets=[T])
def tensor_product_mulirreps(c):
    r1, r2 = c.irrep_pair()
    assembly(c)
    m1, m2 = c.int("m1", 1), c.int("m2", 1)
    a, b = c.new(MulIrrep, mul=m1, rep=r1), c.new(MulIrrep, mul=m2, rep=r2)
    r = c.call(lie.tensor_product, a, b)
    c.ensure("class", isinstance(r, ReducedRep))
    c.ensure("dim", r.dim == m1 * r1.dim * m2 * r2.dim)
    c.equal("algebra", r.A, r1.A)
    V = c.call(np.concatenate, [mul_block(r1, r2, z, m1, m2) for z in r1 * r2])
    c.has_inverse("change of basis", r.Q, V)
    is_kron(c, "", r, a, b)


def mul_block(r1, r2, z, m1, m2):
    """the rows of the inverse change of basis that belong to the constituent z"""
    C = lie.clebsch_gordan(r1, r2, z)
    C = np.einsum("sijk,ru,tv->rtskuivj", C, np.eye(m1), np.eye(m2))
    return C.reshape(C.shape[0] * C.shape[1] * C.shape[2] * C.shape[3], m1 * r1.dim * m2 * r2.dim)


def flat_blocks(c, irreps1, irreps2, block):
    """the matrix with the given blocks over all pairs (irrep of 1, irrep of 2), in order"""
    return c.block_diag([block(a, b) for a in irreps1 for b in irreps2], batch=1)


def reduced_pair(c):
    """two ReducedReps with symbolic lists of MulIrreps, and their tensor product computed by the code; the
    product of two MulIrreps by its contract (tensor_product_mulirreps)"""
    A = c.algebra()
    m = c.int("m", 0)
    irreps1 = c.mulirreps("1", c.int("K1", 1), A, m)
    irreps2 = c.mulirreps("2", c.int("K2", 1), A, m)
    assembly(c)
    P = c.mul_tensor_product(A, m)
    c.override_impl(lie.tensor_product, (MulIrrep, MulIrrep), P.tp)
    D1 = sum(r.dim for r in irreps1)
    D2 = sum(r.dim for r in irreps2)
    q1 = c.choose("Q1", [None, c.invertible("Q1", D1)])
    q2 = c.choose("Q2", [None, c.invertible("Q2", D2)])
    r1, r2 = c.new(ReducedRep, A, irreps1, q1), c.new(ReducedRep, A, irreps2, q2)
    r = c.call(lie.tensor_product, r1, r2)
    return A, P, irreps1, irreps2, q1, q2, r1, r2, r, D1, D2


@contract("C07", targets=[T])
def tensor_product_reducedreps_X(c):
    if not c.symbolic:
        return reducedreps_concrete(c)
    A, P, irreps1, irreps2, q1, q2, r1, r2, r, D1, D2 = reduced_pair(c)
    Q = c.effective(r.Q, D1 * D2)
    X1, X2 = r1.X, r2.X
    c.equal("(X1 + X2) Q = Q D", (kron_r(X1, D2) + kron_l(D1, X2)) @ Q, Q @ flat_blocks(c, irreps1, irreps2, P.D))


@contract("C07", targets=[T])
def tensor_product_reducedreps_H(c):
    if not c.symbolic:
        return reducedreps_concrete(c)
    A, P, irreps1, irreps2, q1, q2, r1, r2, r, D1, D2 = reduced_pair(c)
    Q = c.effective(r.Q, D1 * D2)
    c.equal("H1 H2 Q = Q D", kron2(r1.H, r2.H) @ Q, Q @ flat_blocks(c, irreps1, irreps2, P.DH))


@contract("C07", targets=[T])
def tensor_product_reducedreps_Q(c):
    if not c.symbolic:
        return reducedreps_concrete(c)
    A, P, irreps1, irreps2, q1, q2, r1, r2, r, D1, D2 = reduced_pair(c)
    c.equal("algebra", r.A, A)
    c.same_sequence("irreps", r.irreps, [x for a in irreps1 for b in irreps2 for x in P.tp(a, b).irreps])
    Q = c.effective(r.Q, D1 * D2)
    V = np.zeros((D1 * D2, D1, D2), dtype=complex)
    i = k = 0
    for a in irreps1:
        j = 0
        for b in irreps2:
            V[k : k + a.dim * b.dim, i : i + a.dim, j : j + b.dim] = P.V(a, b).reshape(a.dim * b.dim, a.dim, b.dim)
            j += b.dim
            k += a.dim * b.dim
        i += a.dim
    i1 = np.eye(D1) if q1 is None else np.linalg.inv(q1)
    i2 = np.eye(D2) if q2 is None else np.linalg.inv(q2)
    V = np.einsum("kij,ip,jq->kpq", V, i1, i2).reshape(D1 * D2, D1 * D2)
    c.has_inverse("change of basis", Q, V)


def kron_rep(c):
    """the contract of the tensor product, as an executable specification"""

    def model(a, b):
        X1, X2, H1, H2 = a.X, b.X, a.H, b.H
        return c.new(GenericRep, A=a.A, X=kron_r(X1, X2.shape[1]) + kron_l(X1.shape[1], X2), H=kron2(H1, H2))

    return model


def wrapper(target, kind1, kind2):
    """a dispatch that only wraps its operands: given the contract of the implementation it calls, it is the Kronecker
    product of the operands it was given"""

    def fn(c):
        r1, r2 = c.irrep_pair()
        assembly(c)
        c.override_impl(lie.tensor_product, target, kron_rep(c))
        ops = []
        for n, kind, r in (("1", kind1, r1), ("2", kind2, r2)):
            if kind is MulIrrep:
                r = c.new(MulIrrep, mul=c.int("m" + n, 1), rep=r)
            elif kind is ReducedRep:
                m = c.new(MulIrrep, mul=c.int("m" + n, 1), rep=r)
                q = c.invertible("Q" + n, m.dim)
                r = c.new(ReducedRep, A=r.A, irreps=(m,), Q=q)
            ops.append(r)
        r = c.call(lie.tensor_product, *ops)
        c.equal("algebra", r.A, r1.A)
        is_kron(c, "", r, *ops)

    fn.__name__ = f"tensor_product_{kind1.__name__}_{kind2.__name__}".lower()
    fn.__module__ = __name__
    return contract("C07", targets=[T])(fn)


wrapper((MulIrrep, MulIrrep), MulIrrep, TabulatedIrrep)
wrapper((MulIrrep, MulIrrep), TabulatedIrrep, MulIrrep)
wrapper((ReducedRep, ReducedRep), MulIrrep, ReducedRep)
wrapper((ReducedRep, ReducedRep), ReducedRep, MulIrrep)
wrapper((ReducedRep, MulIrrep), ReducedRep, TabulatedIrrep)
wrapper((MulIrrep, ReducedRep), TabulatedIrrep, ReducedRep)


@contract("C07", targets=[T])
def tensor_product_associative(c):
    """(with the unit) the law that makes tensor powers add up"""
    A = c.algebra()
    m = c.int("m", 0)
    a, b, d = c.rep("1", A, m), c.rep("2", A, m), c.rep("3", A, m)
    l = c.call(lie.tensor_product, c.call(lie.tensor_product, a, b), d)
    r = c.call(lie.tensor_product, a, c.call(lie.tensor_product, b, d))
    c.equal("X", l.X, r.X)
    c.equal("H", l.H, r.H)


@contract("C07", targets=[T, "lie_nn._src.rep.GenericRep.create_trivial"])
def tensor_product_unit(c):
    A = c.algebra()
    m = c.int("m", 0)
    a = c.rep("1", A, m)
    t = c.call(a.create_trivial)
    c.equal("algebra", t.A, A)
    for name, r in (("right", c.call(lie.tensor_product, a, t)), ("left", c.call(lie.tensor_product, t, a))):
        c.equal(f"X, {name}", r.X, a.X)
        c.equal(f"H, {name}", r.H, a.H)


@contract("C07", targets=["lie_nn._src.tensor_product.tensor_power"])
def tensor_power_exponent(c):
    if not c.symbolic:
        return tensor_power_concrete(c)
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.rep("1", A, m)
    S = c.powers(A, r1.X, r1.H)
    n = c.int("n", 0)
    c.override_impl(lie.tensor_product, (Rep, Rep), S.product)

    def inv(v):
        return [
            ("exponent of result + n * exponent of rep = power", S.exponent(v["result"]) + S.exponent(v["rep"]) * v["n"] == n),
            ("n >= 0", v["n"] >= 0),
        ]

    def havoc(v):
        return dict(result=S.power(c.int("e_result", 0)), rep=S.power(c.int("e_rep", 0)), n=c.int("n_loop", 0))

    c.loop(tensor_power, "binary powering", inv, havoc, lambda v: v["n"])
    r = c.call(tensor_power, S.power(1), n)
    c.ensure("the n-th power", S.exponent(r) == n)


def tensor_power_concrete(c):
    A = c.algebra()
    m = c.int("m", 0)
    r1 = c.rep("1", A, m)
    n = c.int("n", 0, 4)
    r = c.call(tensor_power, r1, n)
    X, H = np.zeros((A.shape[0], 1, 1)), np.ones((m, 1, 1))
    for _ in range(n):
        X, H = kron_r(X, r1.X.shape[1]) + kron_l(X.shape[1], r1.X), kron2(H, r1.H)
    c.equal("X", r.X, X)
    c.equal("H", r.H, H)


def reducedreps_concrete(c):
    signs = c.choose("one-dimensional", [True, False, False])
    r1, r2 = (lie.irreps.Z2(p=1), lie.irreps.Z2(p=-1)) if signs else c.irrep_pair()
    m1, m2, k1, k2 = (c.int(n, 1, 3) for n in ("m1", "m2", "k1", "k2"))
    reps = []
    for n, a, b, m, k in (("1", r1, r2, m1, k1), ("2", r2, r1, m2, k2)):
        irreps = [MulIrrep(mul=m, rep=a)] + [MulIrrep(mul=1, rep=b)] * (k - 1)
        r = ReducedRep.from_irreps(irreps)
        if c.choose("Q" + n, [True, False]):
            Q = c.invertible("matrix" + n, r.dim)
            e = c.choose("scale" + n, [0, 0, 1e-2, 1e-4])
            if signs:
                Q = np.eye(r.dim) + c.choose("distance" + n, [1e-2, 1e-4]) * Q / abs(Q).max()
            elif e:  # almost the identity, or almost real
                Q = c.choose("kind" + n, [np.eye(r.dim) + e * Q, np.eye(r.dim) + Q.real / (2 * r.dim * abs(Q).max()) + 1j * e * Q.imag])
            r = ReducedRep.from_irreps(irreps, Q)
        reps.append(r)
    r = c.call(lie.tensor_product, *reps)
    c.equal("algebra", r.A, r1.A)
    is_kron(c, "", r, *reps)
