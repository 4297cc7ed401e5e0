"""C01: generators of the tabulated irreps, for all labels."""
import numpy as np
import scipy.linalg

import lie_nn as lie
from lie_nn import util
from lie_nn._src.irreps import so3_real, su2_real
from vlib.sym.contract import contract

from .constructions import commutes
from .labels import M, O3, SL2C, SO3, SO13, SU2, SU2Real, Z2, o3, sl2c, so3, so13, su2, su2real, z2


def commutes_each(c, name, A, X, n):
    """the same relations, one pair at a time"""
    for i in range(n):
        for j in range(n):
            want = np.zeros(X[0].shape)
            for k in range(n):
                if A[i, j, k] != 0:
                    want = want + A[i, j, k] * X[k]
            c.equal(name, X[i] @ X[j] - X[j] @ X[i], want)


def shapes(c, r, n, m):
    X, H = r.continuous_generators(), r.discrete_generators()
    c.shape("shape of X", X, n, r.dim, r.dim)
    c.shape("shape of H", H, m, r.dim, r.dim)
    c.shape("shape of A", r.algebra(), n, n, n)
    return X, H


@contract("C01", targets=[M + "su2.SU2.continuous_generators", M + "su2.SU2.discrete_generators", M + "su2.SU2.algebra"])
def su2_generators(c):
    r = su2(c, "1")
    X, H = shapes(c, r, 3, 0)
    commutes(c, "bracket", r.algebra(), X)
    c.equal("antihermitian", np.swapaxes(np.conj(X), 1, 2), -X)


@contract("C01 C03", targets=[M + "so3_real.change_basis_real_to_complex", M + "su2_real.change_basis_real_to_complex"])
def real_to_complex_unitary(c):
    l = c.int("l", 0)
    f = c.choose("module", [so3_real, su2_real]).change_basis_real_to_complex
    Q = f(l)
    c.shape("shape", Q, 2 * l + 1, 2 * l + 1)
    c.equal("Q Q^H = 1", Q @ np.conj(Q.T), np.eye(2 * l + 1))
    c.equal("Q^H Q = 1", np.conj(Q.T) @ Q, np.eye(2 * l + 1))


def any_unitary(c, module):
    """contract of change_basis_real_to_complex: a unitary matrix (real_to_complex_unitary); the result is real (so3_real)"""
    c.override(module.change_basis_real_to_complex, lambda l: c.unitary("Q", 2 * l + 1))
    c.assume_checks("contract so3_realness")


@contract("C01", targets=[M + "so3_real.SO3.continuous_generators"])
def so3_generators(c):
    r = so3(c, "1")
    any_unitary(c, so3_real)
    c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
    X, H = shapes(c, r, 3, 0)
    commutes(c, "bracket", r.algebra(), X)


@contract("C01", targets=[M + "so3_real.SO3.continuous_generators"])
def so3_realness(c):
    r = so3(c, "1")
    X = r.continuous_generators()
    c.shape("shape", X, 3, r.dim, r.dim)


@contract("C01", targets=[M + "su2_real.SU2Real.continuous_generators"])
def su2real_realness(c):
    r = c.obj(SU2Real, j=c.int("l1", 0))
    X = r.continuous_generators()
    c.shape("shape", X, 3, r.dim, r.dim)


@contract("C01", targets=[M + "su2_real.SU2Real.continuous_generators", M + "su2_real.SU2Real.algebra"])
def su2real_generators(c):
    r = su2real(c, "1")
    any_unitary(c, su2_real)
    c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
    X, H = shapes(c, r, 3, 0)
    commutes(c, "bracket", r.algebra(), X)


@contract("C01", targets=[M + "o3_real.O3.continuous_generators", M + "o3_real.O3.discrete_generators"])
def o3_generators(c):
    r = o3(c, "1")
    any_unitary(c, so3_real)
    c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
    X, H = shapes(c, r, 3, 1)
    commutes(c, "bracket", r.algebra(), X)
    c.equal("parity", H[0], r.p * np.eye(r.dim))


@contract("C01", targets=[M + "z2.Z2.continuous_generators", M + "z2.Z2.discrete_generators"])
def z2_generators(c):
    r = z2(c, "1")
    X, H = shapes(c, r, 0, 1)
    c.ensure("parity", H[0, 0, 0] == r.p)
    c.ensure("square", H[0, 0, 0] * H[0, 0, 0] == 1)


CG_UNITARY = "SL2C.clebsch_gordan((l,0), (0,k), (l,k)) is an orthogonal matrix (proved: sl2c_spin_basis)"


def sl2c_cg(c):
    def cg(r1, r2, r3):
        d = r1.dim * r2.dim
        return c.unitary("C", d).reshape(1, r1.dim, r2.dim, d)

    c.override(SL2C.clebsch_gordan, cg)


@contract("C01", targets=[M + "sl2c.SL2C.continuous_generators", M + "sl2c.SL2C.algebra"], assumes=[CG_UNITARY])
def sl2c_generators(c):
    r = sl2c(c, "1")
    sl2c_cg(c)
    c.generators_by_contract(SU2, lambda r: r.j + 1, 3, SU2.algebra())
    X, H = shapes(c, r, 6, 0)
    A, B = SU2.algebra(), r.algebra()
    commutes_each(c, "bracket", B, X, 6)
    for i in range(2):
        for j in range(2):
            for k in range(2):
                want = A if (i + j + k) % 2 == 0 else np.zeros((3, 3, 3))
                c.equal("structure constants", B[3 * i : 3 * i + 3, 3 * j : 3 * j + 3, 3 * k : 3 * k + 3], want)


@contract(
    "C01",
    targets=[M + "so13.SO13.continuous_generators", M + "so13.SO13.algebra"],
    assumes=["scipy.linalg.sqrtm of the conjugating matrix of a self-conjugate irrep is invertible and makes the generators real (evaluated with bounds)"],
)
def so13_generators(c):
    r = so13(c, "1")
    A0 = SL2C.algebra()
    c.generators_by_contract(SL2C, lambda r: (r.l + 1) * (r.k + 1), 6, A0)

    def intertwiners(X1, X2, round_fn):
        if r.l == r.k:
            return c.tensor("S", 1, r.dim, r.dim)
        return c.tensor("S", 0, r.dim, r.dim)

    c.override(util.infer_change_of_basis, intertwiners)
    c.override(scipy.linalg.sqrtm, lambda S: c.invertible("W", r.dim))
    c.override(util.round_to_sqrt_rational, lambda x: x)
    c.assume_real("see assumes")
    X, H = shapes(c, r, 6, 0)
    commutes_each(c, "bracket", r.algebra(), X, 6)
    B = r.algebra()
    for i in range(6):
        for j in range(6):
            for k in range(6):
                # K = i Y: [K,K] = -[Y,Y]
                s = -1 if i >= 3 and j >= 3 else 1
                c.ensure("structure constants", B[i, j, k] == s * A0[i, j, k])
