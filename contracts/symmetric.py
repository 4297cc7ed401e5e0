"""C15: representations of the symmetric group, for every n."""
import numpy as np

import lie_nn as lie
from lie_nn import finite
from lie_nn._src import finite as F
from vlib.sym.contract import contract

M = "lie_nn._src.finite."


@contract("C15", targets=[M + "Sn_natural.discrete_generators", M + "_transposition_matrix", M + "_permutation_matrix"])
def sn_natural(c):
    n = c.int("n", 3, sample=(3, 9))
    r = c.call(finite.Sn_natural, n)
    H = r.discrete_generators()
    c.shape("two generators", H, 2, n, n)
    c.shape("no Lie algebra", r.algebra(), 0, 0, 0)
    c.shape("no continuous generators", r.continuous_generators(), 0, n, n)
    c.equal("t swaps e_0 and e_1", H[0] @ np.eye(n)[:, 0], np.eye(n)[:, 1])
    c.equal("t swaps e_1 and e_0", H[0] @ np.eye(n)[:, 1], np.eye(n)[:, 0])
    j = c.int("j", 2)
    c.assume(j < n)
    c.equal("t fixes the others", H[0] @ np.eye(n)[:, j], np.eye(n)[:, j])
    k = c.int("k", 0)
    c.assume(k < n - 1)
    c.equal("c maps e_k to e_k+1", H[1] @ np.eye(n)[:, k], np.eye(n)[:, k + 1])
    c.equal("c maps the last to e_0", H[1] @ np.eye(n)[:, n - 1], np.eye(n)[:, 0])


@contract("C15", targets=[M + "Sn_standard.discrete_generators"])
def sn_standard(c):
    """the standard representation is the natural one on the span of f_i = e_i - e_0"""
    n = c.int("n", 3, sample=(3, 9))
    r = c.call(finite.Sn_standard, n)
    H, N = r.discrete_generators(), c.call(finite.Sn_natural, n).discrete_generators()
    c.shape("two generators", H, 2, n - 1, n - 1)
    c.shape("no Lie algebra", r.algebra(), 0, 0, 0)
    c.shape("no continuous generators", r.continuous_generators(), 0, n - 1, n - 1)
    B = np.concatenate([-np.ones((1, n - 1)), np.eye(n - 1)], axis=0)
    c.equal("transposition", N[0] @ B, B @ H[0])
    c.equal("cycle", N[1] @ B, B @ H[1])


@contract("C15", targets=[M + "Sn_natural.discrete_generators", M + "Sn_standard.discrete_generators", M + "Sn_trivial.discrete_generators"])
def sn_small(c):
    """n = 1 and n = 2, and the trivial representation for every n"""
    c.shape("natural, n = 1", c.call(finite.Sn_natural, 1).discrete_generators(), 0, 1, 1)
    c.equal("natural, n = 2", c.call(finite.Sn_natural, 2).discrete_generators(), np.array([[[0.0, 1.0], [1.0, 0.0]]]))
    c.equal("standard, n = 2", c.call(finite.Sn_standard, 2).discrete_generators(), np.array([[[-1.0]]]))
    n = c.int("n", 1, sample=(1, 9))
    r = c.call(finite.Sn_trivial, n)
    c.shape("no continuous generators", r.continuous_generators(), 0, 1, 1)
    c.shape("no Lie algebra", r.algebra(), 0, 0, 0)
    c.equal("identity", r.discrete_generators(), np.ones((0 if n == 1 else 1 if n == 2 else 2, 1, 1)))


@contract("C15", targets=[M + "Sn_natural.create_trivial", M + "Sn_standard.create_trivial", M + "Sn_trivial.create_trivial"])
def sn_create_trivial(c):
    n = c.int("n", 2, sample=(2, 9))
    cls = c.choose("class", [finite.Sn_natural, finite.Sn_standard, finite.Sn_trivial])
    r = c.call(cls, n)
    t = c.call(r.create_trivial)
    c.shape("no continuous generators", t.X, 0, 1, 1)
    c.shape("no Lie algebra", t.A, 0, 0, 0)
    c.equal("identity", t.H, np.ones((r.H.shape[0], 1, 1)))


def rotation(n, k):
    """e_j -> e_(j + k mod n), 0 <= k <= n"""
    return np.concatenate([np.eye(n)[:, k:], np.eye(n)[:, :k]], axis=1)


def keep_first(M):
    """diag(1, M)"""
    n = M.shape[0]
    M = np.concatenate([np.zeros((n, 1)), M], axis=1)
    return np.concatenate([np.eye(n + 1)[:1], M], axis=0)


def swap(c, n, k):
    """e_k <-> e_(k+1)"""
    E = np.eye(n)
    return np.concatenate([E[:, :k], E[:, k + 1 : k + 2], E[:, k : k + 1], E[:, k + 2 :]], axis=1)


@contract("C15", targets=[M + "Sn_natural.discrete_generators"])
def sn_relations(c):
    """c^n = 1, t^2 = 1, (t c)^(n-1) = 1 and t commutes with c^k t c^-k, 2 <= k <= n-2 (each by induction on the power)"""
    n = c.int("n", 3, sample=(4, 9))
    T, C = c.call(finite.Sn_natural, n).discrete_generators()
    c.equal("t t = 1", T @ T, np.eye(n))
    k = c.int("k", 0)
    c.assume(k < n)
    c.equal("c^0", rotation(n, 0), np.eye(n))
    c.equal("c c^k = c^(k+1)", C @ rotation(n, k), rotation(n, k + 1))
    c.equal("c^n", rotation(n, n), np.eye(n))
    D = T @ C
    u = c.int("u", 0)
    c.assume(u < n - 1)
    c.equal("t c (t c)^u = (t c)^(u+1)", D @ keep_first(rotation(n - 1, u)), keep_first(rotation(n - 1, u + 1)))
    c.equal("(t c)^0", keep_first(rotation(n - 1, 0)), np.eye(n))
    c.equal("(t c)^(n-1)", keep_first(rotation(n - 1, n - 1)), np.eye(n))


@contract("C15", targets=[M + "Sn_natural.discrete_generators"])
def sn_commutation(c):
    n = c.int("n", 3, sample=(4, 9))
    T, C = c.call(finite.Sn_natural, n).discrete_generators()
    c.equal("t", T, swap(c, n, 0))
    k = c.int("k", 0)
    c.assume(k < n - 2)
    c.equal("c s_k = s_(k+1) c", C @ swap(c, n, k), swap(c, n, k + 1) @ C)
    j = c.int("j", 2)
    c.assume(j < n - 1)
    c.equal("t s_j = s_j t", T @ swap(c, n, j), swap(c, n, j) @ T)
