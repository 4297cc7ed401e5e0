"""C20: root systems of type A, B, C, D of every rank."""
import numpy as np

from lie_nn._src import lie_algebra_utils as LA
from lie_nn._src.irreps import spn as spn_module
from lie_nn._src.irreps.spn import SPN
from vlib.sym.contract import contract

M = "lie_nn._src.lie_algebra_utils."


def simple(c, name, R, last, n):
    """e_i - e_(i+1) for i < n - 1, then the last root"""
    I = np.eye(n)
    c.equal(name + "simple roots e_i - e_(i+1)", R[: n - 1], I[:-1] - I[1:])
    if last is not None:
        c.equal(name + "last simple root", R[n - 1], last)


@contract("C20", targets=[M + "RootsWeightsA"])
def roots_A(c):
    r = c.int("rank", 1, sample=(1, 8))
    R, P, F, top, _ = c.call(LA.RootsWeightsA, r)
    I = np.eye(r + 1)
    c.shape("number of simple roots", R, r, r + 1)
    simple(c, "", R, None, r + 1)
    c.shape("number of positive roots", P, r * (r + 1) / 2, r + 1)
    c.equal("positive roots", P, np.concatenate([[I[j] - I[i] for j in range(i)] for i in range(1, r + 1)], axis=0))
    F = np.stack(F)
    c.shape("number of fundamental weights", F, r, r + 1)
    c.equal("fundamental weights dual to the coroots", F @ R.T, np.eye(r))
    c.equal("orthogonal to (1, ..., 1)", F @ np.ones(r + 1), np.zeros(r))
    c.equal("highest root", top, I[0] - I[r])
    c.equal("Weyl vector", sum(P), 2 * sum(F))
    # e_j - e_i = R_j + ... + R_(i-1)
    J = np.eye(r)
    N = np.concatenate([[sum(J[k] for k in range(j, i)) for j in range(i)] for i in range(1, r + 1)], axis=0)
    c.equal("positive roots are sums of simple roots", P, N @ R)


def pairs(I, r, f):
    """f(i, j) for 0 <= j < i < r"""
    return [f(i, j) for i in range(1, r) for j in range(i)]


@contract("C20", targets=[M + "RootsWeightsB"])
def roots_B(c):
    r = c.int("rank", 2, sample=(2, 8))
    R, P, F, top, _ = c.call(LA.RootsWeightsB, r)
    I = np.eye(r)
    c.shape("number of simple roots", R, r, r)
    simple(c, "", R, I[r - 1], r)
    c.shape("number of positive roots", P, r * r, r)
    want = np.concatenate((pairs(I, r, lambda i, j: I[j] + I[i]), pairs(I, r, lambda i, j: I[j] - I[i]), I))
    c.equal("positive roots", P, want)
    c.shape("number of fundamental weights", F, r, r)
    D = np.concatenate([np.ones(r - 1), np.ones(1) / 2])
    c.equal("fundamental weights dual to the coroots", F @ R.T, np.diag(D))
    c.equal("highest root", top, I[0] + I[1])
    c.equal("Weyl vector", sum(P), 2 * sum(F))
    s = lambda j, i: sum(I[k] for k in range(j, i))
    N = np.concatenate((pairs(I, r, lambda i, j: s(j, r) + s(i, r)), pairs(I, r, lambda i, j: s(j, i)), [s(j, r) for j in range(r)]))
    c.equal("positive roots are sums of simple roots", P, N @ R)


@contract("C20", targets=[M + "RootsWeightsC"])
def roots_C(c):
    r = c.int("rank", 2, sample=(2, 8))
    R, P, F, top, _ = c.call(LA.RootsWeightsC, r)
    I = np.eye(r)
    c.shape("number of simple roots", R, r, r)
    simple(c, "", R, 2 * I[r - 1], r)
    c.shape("number of positive roots", P, r * r, r)
    want = np.concatenate((pairs(I, r, lambda i, j: I[j] + I[i]), pairs(I, r, lambda i, j: I[j] - I[i]), 2 * I))
    c.equal("positive roots", P, want)
    F = np.stack(F)
    c.shape("number of fundamental weights", F, r, r)
    D = np.concatenate([np.ones(r - 1), np.ones(1) * 2])
    c.equal("fundamental weights dual to the coroots", F @ R.T, np.diag(D))
    c.equal("highest root", top, 2 * I[0])
    c.equal("Weyl vector", sum(P), 2 * sum(F))
    s = lambda j, i: sum(I[k] for k in range(j, i))
    N = np.concatenate(
        (
            pairs(I, r, lambda i, j: s(j, i) + 2 * s(i, r - 1) + I[r - 1]),
            pairs(I, r, lambda i, j: s(j, i)),
            [2 * s(j, r - 1) + I[r - 1] for j in range(r)],
        )
    )
    c.equal("positive roots are sums of simple roots", P, N @ R)


@contract("C20", targets=[M + "RootsWeightsD"])
def roots_D(c):
    r = c.int("rank", 2, sample=(2, 8))
    R, P, F, top, _ = c.call(LA.RootsWeightsD, r)
    I = np.eye(r)
    c.shape("number of simple roots", R, r, r)
    simple(c, "", R, I[r - 2] + I[r - 1], r)
    c.shape("number of positive roots", P, r * (r - 1), r)
    want = np.concatenate((pairs(I, r, lambda i, j: I[j] + I[i]), pairs(I, r, lambda i, j: I[j] - I[i])))
    c.equal("positive roots", P, want)
    c.shape("number of fundamental weights", F, r, r)
    c.equal("fundamental weights dual to the coroots", F @ R.T, np.eye(r))
    c.equal("highest root", top, I[0] + I[1])
    c.equal("Weyl vector", sum(P), 2 * sum(F))
    s = lambda j, i: sum(I[k] for k in range(j, i))
    # e_j + e_i = (e_j - e_(r-2)) + (e_i - e_(r-2)) + (e_(r-2) - e_(r-1)) + (e_(r-2) + e_(r-1)) for i < r - 1
    up = lambda i, j: s(j, r - 2) + (s(i, r - 1) if i < r - 1 else np.zeros(r)) + I[r - 1]
    N = np.concatenate((pairs(I, r, up), pairs(I, r, lambda i, j: s(j, i))))
    c.equal("positive roots are sums of simple roots", P, N @ R)


@contract("C20", targets=[M + "cartan_matrix"])
def cartan(c):
    n, d = c.int("n", 1, sample=(1, 4)), c.int("d", 1, sample=(3, 5))
    R = c.tensor("R", n, d, real=True)
    c.nonzero("squared lengths", np.einsum("ik,ik->i", R, R))
    C = c.call(LA.cartan_matrix, R)
    c.shape("square", C, n, n)
    G = R @ R.T
    i, j = c.int("i", 0), c.int("j", 0)
    c.assume(i < n and j < n)
    c.equal("2 (a_i, a_j) / (a_i, a_i)", C[i, j] * G[i, i], 2 * G[i, j])


def abstract_roots(c, k, r):
    n, m = c.int("n" + k, 1, sample=(2, 4)), c.int("m" + k, 1, sample=(2, 4))
    R, P, F = [c.tensor(x + k, d, n, real=True) for x, d in (("R", r), ("P", m), ("F", r))]
    return R, P, F, c.tensor("T" + k, n, real=True), "0---0"


@contract("C20", targets=[M + "structure_algebra"], assumes=["RootsWeightsA..D (proved by roots_A..D)", "cartan_matrix (proved by cartan)"])
def structure_algebra(c):
    r = c.int("rank", 2, sample=(2, 5))
    fs = [LA.RootsWeightsA, LA.RootsWeightsB, LA.RootsWeightsC, LA.RootsWeightsD]
    kinds = ["A", "B", "C", "D"]
    # arbitrary tables for each type: the function must use those of its type, whatever they are
    for k, f in zip(kinds, fs):
        c.override(f, lambda rank, k=k: abstract_roots(c, k, rank))
    which = c.choose("type", [0, 1, 2, 3])
    kind = kinds[which]
    R, P, F, top, _ = c.call(fs[which], r)
    c.override(LA.cartan_matrix, c.opaque("C", R, (r, r)))
    Cm = c.call(LA.cartan_matrix, R)
    d = c.call(LA.structure_algebra, kind, r)
    c.equal("simple roots", d["SimpleRoots"], R)
    c.equal("positive roots", d["PositiveRoots"], P)
    c.equal("fundamental weights", d["FundamentalWeights"], F)
    c.equal("highest root", d["MaximalRoots"], top)
    c.equal("Weyl vector", 2 * d["WeylVector"], np.sum(P, axis=0))
    c.equal("Cartan matrix", d["CartanMatrix"], Cm)
    c.equal("Coxeter number", d["CoxeterNumber"] * r, np.array(2 * P.shape[0]))


@contract("C20", targets=[M + "weyl_dim"], assumes=["np.prod"])
def weyl_dimension(c):
    n, m = c.int("n", 1, sample=(2, 4)), c.int("m", 1, sample=(2, 4))
    P, rho, w = c.tensor("P", m, n, real=True), c.tensor("rho", n, real=True), c.tensor("w", n, real=True)
    c.nonzero("(rho, beta)", P @ rho)
    d = c.call(LA.weyl_dim, w, P, rho)
    c.product("(w + rho, beta) / (rho, beta) for each positive root", d, (P @ w + P @ rho) / (P @ rho))


@contract(
    "C20",
    targets=["lie_nn._src.irreps.spn.weights", "lie_nn._src.irreps.spn.root_weights", "lie_nn._src.irreps.spn.SPN.dim"],
    assumes=["RootsWeightsC (proved by roots_C)", "weyl_dim (proved by weyl_dimension)", "round and int: the number is an integer already"],
)
def spn(c):
    r = c.int("rank", 2, sample=(2, 4))
    S = c.labels("S", r)
    c.override(LA.RootsWeightsC, lambda rank: abstract_roots(c, "C", rank))
    _, P, F, _, _ = c.call(LA.RootsWeightsC, r)
    rep = c.call(SPN, S)
    w = np.array(S) @ F
    c.equal("weight with Dynkin labels S", c.call(spn_module.weights, rep), w)
    c.override(LA.weyl_dim, c.opaque_scalar("dim", w, P, np.sum(P, axis=0) / 2))
    c.equal("Weyl dimension of that weight", rep.dim, c.call(LA.weyl_dim, w, P, np.sum(P, axis=0) / 2))
