"""C24: is_real and make_explicitly_real."""
import numpy as np
import scipy.linalg as la

import lie_nn as lie
from lie_nn._src import real
from vlib.sym.contract import contract

INV = "_contains_invertible(S) is true exactly if a combination of the S_i is invertible (a random one is tried)"


def self_conjugacy(c, rep, st):
    """contracts of infer_change_of_basis (proved: rep_intertwiners) and of _contains_invertible"""

    def infer(a, b, *args, **k):
        st["ab"] = a, b
        c.equal("the continuous generators are conjugated", b.X, np.conj(rep.X))
        c.equal("the discrete generators are conjugated", b.H, np.conj(rep.H))
        c.equal("the representation itself: X", a.X, rep.X)
        c.equal("the representation itself: H", a.H, rep.H)
        st["S"] = c.tensor("S", c.int("count", 0), rep.dim, rep.dim)
        return st["S"]

    def invertible(S):
        c.equal("all the intertwiners are considered", S, st["S"])
        st["invertible"] = c.choose("a combination of the S_i is invertible", [True, False])
        return st["invertible"]

    c.override(lie.infer_change_of_basis, infer)
    c.override(real._contains_invertible, invertible)


def sample(c, A, r):
    """concretely: irreducible or reducible representations of real, complex and quaternionic type"""
    irs = [lie.irreps.SU2(j=c.choose("2j", [0, 1, 2, 3, 4])), lie.irreps.SL2C(l=1, k=1), lie.irreps.SL2C(l=1, k=0), lie.irreps.SO3(l=2), lie.irreps.SU3((1, 0, 0)), lie.irreps.SU3((2, 1, 0))]
    r = irs[int(c.rng.integers(0, len(irs)))]
    c.inputs["rep"] = repr(r)
    return r


@contract("C24", targets=["lie_nn._src.real.is_real"], assumes=[INV, "the contract of infer_change_of_basis (proved: rep_intertwiners)"], samples=10)
def is_real(c):
    """true exactly if an invertible intertwiner of the representation and its conjugate exists"""
    A = c.algebra("A")
    r = c.rep("r", A, c.int("m", 0), dlo=1)
    if not c.symbolic:
        r = sample(c, A, r)
        W = c.rng.normal(size=r.lie_dim) * 0.7
        ok = all(abs(np.trace(g).imag) < 1e-8 for g in [la.expm(np.einsum("i,iab->ab", w, r.X)) for w in (W, W[::-1], W**2)])
        c.ensure("exactly if the character is real", bool(c.call(lie.is_real, r)) == ok)
        return
    st = {}
    self_conjugacy(c, r, st)
    res = c.call(lie.is_real, r)
    c.ensure("exactly if there is an invertible one", bool(res) == st["invertible"])


@contract("C24", targets=["lie_nn._src.real.make_explicitly_real"], assumes=[INV, "scipy.linalg.sqrtm(M) is invertible for an invertible M"], samples=10)
def make_explicitly_real(c):
    """a result is a change of basis of the representation, and has no imaginary part; ValueError without invertible intertwiner"""
    A = c.algebra("A")
    r = c.rep("r", A, c.int("m", 0), dlo=1)
    if not c.symbolic:
        r = sample(c, A, r)
        try:
            s = c.call(lie.make_explicitly_real, r)
        except ValueError:
            c.ensure("never for integer spins", not (isinstance(r, lie.irreps.SU2) and r.j % 2 == 0))
            return
        c.ensure("it is real", lie.is_real(r))
        c.zero("no imaginary part", np.imag(s.X))
        c.equal("the same algebra", s.A, r.A)
        W = c.rng.normal(size=r.lie_dim)
        e = [la.expm(np.einsum("i,iab->ab", W, x.X)) for x in (r, s)]
        c.equal("the same characters", np.trace(e[0]), np.trace(e[1]))
        return
    st = {}
    self_conjugacy(c, r, st)
    R = c.invertible("R", r.dim)

    def sqrtm(M, *a, **k):
        c.equal("the square root of a multiple of the intertwiner", M, (M[0, 0] * 0 + 1j) * st["S"][0])
        return R

    def norm(x, *a, **k):
        st["x"] = np.copy(x)
        return c.real("nu", 0)

    c.override(la.sqrtm, sqrtm)
    c.override(np.linalg.norm, norm)
    c.assume(c.int("count", 0) == 1)
    try:
        s = c.call(lie.make_explicitly_real, r)
    except ValueError:
        c.ensure("only if it is not real, or the result is not", not st["invertible"] or "x" in st)
        return
    c.ensure("there is an invertible intertwiner", st["invertible"])
    c.equal("the same algebra", s.A, r.A)
    c.equal("X' R = R X", np.einsum("aij,jk->aik", s.X, R), np.einsum("ij,ajk->aik", R, r.X))
    c.equal("H' R = R H", np.einsum("aij,jk->aik", s.H, R), np.einsum("ij,ajk->aik", R, r.H))
    c.equal("the imaginary part is checked", st["x"], np.imag(s.X))
