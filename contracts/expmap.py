"""C08: exp_map."""
import numpy as np
import scipy.linalg

import lie_nn as lie
from vlib.sym.contract import contract


@contract("C08", targets=["lie_nn._src.rep.Rep.exp_map"])
def exp_map(c):
    """exp_map(t, n) = H_0^n_0 ... H_(m-1)^n_(m-1) expm(sum_a t_a X_a) for any number m of discrete generators: the product is
    V(m), V(0) = expm, V(k+1) = H_(m-1-k)^n_(m-1-k) V(k)"""
    A = c.algebra()
    m = c.int("m", 0)
    r = c.anyrep("1", A, m)
    d = r.X.shape[1]
    t = c.tensor("t", A.shape[0], real=True)
    n = c.seq("n", m, lambda i: c.family("n", i, -2))
    if not c.symbolic:
        want = scipy.linalg.expm(sum((a * x for a, x in zip(t, r.X)), np.zeros((d, d))))
        for k, h in list(zip(n, r.H))[::-1]:
            h = np.linalg.inv(h) if k < 0 else h
            for _ in range(abs(k)):
                want = h @ want
        return c.equal("product", c.call(r.exp_map, t, n), want)
    E = c.tensor("E", d, d)
    W = lambda i: c.vtensor("W", (i,), (d, d))  # noqa: E731 (the power n_i of H_i)

    def expm(x):
        c.equal("argument of expm", x, np.einsum("a,aij->ij", t, r.X))
        return E

    def matrix_power(h, k):
        i = c.index_of(k)
        c.equal("base of the power", h, r.H[i])
        return W(i)

    c.override(scipy.linalg.expm, expm)
    c.override(np.linalg.matrix_power, matrix_power)
    V = c.fold(lie.Rep.exp_map, "product over the discrete generators", E, lambda k, v: W(m - 1 - k) @ v, d, d)
    c.equal("product", c.call(r.exp_map, t, n), V.at(m))
