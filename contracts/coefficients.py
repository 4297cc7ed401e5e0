"""C03: Clebsch-Gordan coefficients of the tabulated irreps, for all labels."""
import numpy as np

import lie_nn as lie
from lie_nn._src.irreps import o3_real, sl2c as sl2c_module, so3_real, su2 as su2_module, su2_real
from lie_nn._src.irreps.su2 import clebsch_gordanSU2mat
from vlib.sym.contract import contract

from .labels import M, O3, SL2C, SO3, SU2, SU2Real, Z2, triangle

SU2MAT = "contract of clebsch_gordanSU2mat(j1, j2, j3): real, conserves the weight, intertwines, orthonormal, symmetric under m -> -m up to (-1)^(j1+j2-j3) (Racah; evaluated with bounds)"
S = (0, 5)


def equation(r1, r2, r3, C):
    """sum_k C_zijk X3_lk = rho1 and rho2 on the other indices, axes (z, g, l, i, j)"""
    X1, X2, X3 = r1.continuous_generators(), r2.continuous_generators(), r3.continuous_generators()
    return np.einsum("glk,zijk->zglij", X3, C), np.einsum("gai,zajl->zglij", X1, C) + np.einsum("gbj,zibl->zglij", X2, C)


def coefficients(c, r1, r2, r3, C):
    """the postcondition of clebsch_gordan(r1, r2, r3)"""
    n = C.shape[0]
    c.shape("shape", C, n, r1.dim, r2.dim, r3.dim)
    c.ensure("a path exactly when selected", c.iff(n >= 1, c.member(r1 * r2, r3)))
    c.equal("equivariant", *equation(r1, r2, r3, C))
    H1, H2, H3 = r1.discrete_generators(), r2.discrete_generators(), r3.discrete_generators()
    c.equal("equivariant under the discrete generators", np.einsum("glk,zijk->zglij", H3, C), np.einsum("gai,gbj,zabl->zglij", H1, H2, C))
    c.equal("orthonormal", np.einsum("zijk,wijl->zwkl", C, c.conj(C)), np.einsum("zw,kl->zwkl", np.eye(n), np.eye(r3.dim)))


def su2_mat(c, module):
    """contract of clebsch_gordanSU2mat"""

    def mat(a, b, e):
        r = [c.obj(SU2, j=int(2 * x)) for x in (a, b, e)]
        C = c.tensor("C", 2 * a + 1, 2 * b + 1, 2 * e + 1, real=True)
        X1, X2, X3 = [x.continuous_generators() for x in r]
        c.hyp("C intertwines", np.einsum("glk,ijk->glij", X3, C), np.einsum("gai,ajl->glij", X1, C) + np.einsum("gbj,ibl->glij", X2, C))
        c.hyp("C orthonormal", np.einsum("ijk,ijl->kl", C, C), np.eye(r[2].dim))
        return C

    c.override(module.clebsch_gordanSU2mat, mat)


@contract("C03", targets=[M + "su2.SU2.clebsch_gordan"], assumes=[SU2MAT])
def su2_coefficients(c):
    r1, r2, r3 = [c.obj(SU2, j=c.int(f"j{i}", 0, sample=S)) for i in "123"]
    if c.symbolic:
        c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
        su2_mat(c, su2_module)
    coefficients(c, r1, r2, r3, c.call(SU2.clebsch_gordan, r1, r2, r3))


REAL = "contract real_coefficients (the assertion of the code that the coefficients are real holds)"


def so3_pack(c, module):
    """contract of change_basis_real_to_complex: a unitary matrix for each l (real_to_complex_unitary)"""
    memo = []

    def unitary(l):
        for k, Q in memo:
            if c.entails(k == l):
                return Q
        Q = c.unitary(f"Q{len(memo)}", 2 * l + 1)
        memo.append((l, Q))
        return Q

    c.override(module.change_basis_real_to_complex, unitary)
    c.assume_checks(REAL)
    c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
    su2_mat(c, su2_module)


@contract("C03", targets=[M + "so3_real.SO3.clebsch_gordan"], assumes=[SU2MAT, REAL])
def so3_coefficients(c):
    r1, r2, r3 = [c.obj(SO3, l=c.int(f"l{i}", 0, sample=(0, 3))) for i in "123"]
    if c.symbolic:
        so3_pack(c, so3_real)
    coefficients(c, r1, r2, r3, c.call(SO3.clebsch_gordan, r1, r2, r3))


@contract("C03", targets=[M + "su2_real.SU2Real.clebsch_gordan"], assumes=[SU2MAT, REAL])
def su2real_coefficients(c):
    r1, r2, r3 = [c.obj(SU2Real, j=c.int(f"l{i}", 0, sample=(0, 3))) for i in "123"]
    if c.symbolic:
        so3_pack(c, su2_real)
    coefficients(c, r1, r2, r3, c.call(SU2Real.clebsch_gordan, r1, r2, r3))


@contract("C03", targets=[M + "o3_real.O3.clebsch_gordan"], assumes=[SU2MAT, REAL])
def o3_coefficients(c):
    r1, r2, r3 = [c.obj(O3, l=c.int(f"l{i}", 0, sample=(0, 3)), p=c.sign(f"p{i}")) for i in "123"]
    if c.symbolic:
        so3_pack(c, so3_real)
    coefficients(c, r1, r2, r3, c.call(O3.clebsch_gordan, r1, r2, r3))


@contract("C03", targets=[M + "z2.Z2.clebsch_gordan"])
def z2_coefficients(c):
    r1, r2, r3 = [c.obj(Z2, p=c.sign(f"p{i}")) for i in "123"]
    coefficients(c, r1, r2, r3, c.call(Z2.clebsch_gordan, r1, r2, r3))


def su2_reality(c):
    """contract of clebsch_gordanSU2mat: real, conserves the weight, C(-m1,-m2,-m3) = (-1)^(j1+j2-j3) C(m1,m2,m3)"""

    def mat(a, b, e):
        C = c.tensor("C", 2 * a + 1, 2 * b + 1, 2 * e + 1, real=True)
        c.reversal("C symmetric", C, (-1) ** (a + b - e))
        return c.only(C, lambda i, j, k: i + j - k == a + b - e)

    c.override(su2_module.clebsch_gordanSU2mat, mat)


@contract("C03", targets=[M + "so3_real.change_basis_real_to_complex", M + "su2_real.change_basis_real_to_complex"])
def real_to_complex_conjugation(c):
    l = c.int("l", 0)
    f = c.choose("module", [so3_real, su2_real]).change_basis_real_to_complex
    Q = f(l)
    c.equal("conj Q[i, j] = (-1)^i Q[2l-i, j]", np.conj(Q), (-1) ** np.arange(2 * l + 1)[:, None] * Q[::-1])


@contract("C03", targets=[M + "so3_real.SO3.clebsch_gordan", M + "su2_real.SU2Real.clebsch_gordan"], assumes=[SU2MAT])
def real_coefficients(c):
    """the coefficients are real in the real basis (the assertion of the code holds)"""
    F = c.choose("family", [SO3, SU2Real])
    ls = [c.int(f"l{i}", 0, sample=(0, 3)) for i in "123"]
    r1, r2, r3 = [c.obj(SO3, l=l) if F is SO3 else c.obj(SU2Real, j=l) for l in ls]
    if c.symbolic:
        su2_reality(c)
        memo = []

        def basis(l):
            """contract of change_basis_real_to_complex (real_to_complex_conjugation)"""
            Q = c.tensor(f"Q{len(memo)}", 2 * l + 1, 2 * l + 1)
            memo.append(l)
            c.hyp(f"conj Q{len(memo)}", np.conj(Q), (-1) ** np.arange(2 * l + 1)[:, None] * Q[::-1], with_conj=False)
            return Q

        c.override(so3_real.change_basis_real_to_complex, basis)
        c.override(su2_real.change_basis_real_to_complex, basis)
    C = c.call(F.clebsch_gordan, r1, r2, r3)
    c.shape("shape", C, C.shape[0], r1.dim, r2.dim, r3.dim)


# --- SL(2, C) ------------------------------------------------------------------------------------------

COMPLETE = "the matrices clebsch_gordanSU2mat(a, b, .) together form an orthogonal matrix; coupling with spin 0 is the identity"


def su2_systems(c):
    """contract of clebsch_gordanSU2mat for the pairs of labels (integers, twice the spins)"""
    memo = []

    def system(a, b):
        for x, y, t in memo:
            if c.entails((x == a) & (y == b)):
                return t
        t = f"B{len(memo)}"
        lo = abs(a - b)

        def f(n):
            return c.vtensor(t, (n,), (a + 1, b + 1, lo + 2 * n + 1), real=True)

        c.complete_system(t, f, lambda n: lo + 2 * n + 1, (a + b - lo) // 2 + 1, (a + 1, b + 1))
        memo.append((a, b, t))
        return t

    def mat(x, y, z):
        a, b, e = 2 * x, 2 * y, 2 * z
        if c.entails(b == 0):
            return np.eye(a + 1)[:, None, :]
        if c.entails(a == 0):
            return np.eye(b + 1)[None]
        return c.vtensor(system(a, b), ((e - abs(a - b)) // 2,), (a + 1, b + 1, e + 1), real=True)

    c.override(sl2c_module.clebsch_gordanSU2mat, mat)


@contract("C03 C01", targets=[M + "sl2c.SL2C.clebsch_gordan", M + "sl2c.clebsch_gordansl2mat"], assumes=[SU2MAT, COMPLETE])
def sl2c_spin_basis(c):
    """the coefficients (l, 0) x (0, k) -> (l, k), which define the generators, form an orthogonal matrix"""
    l, k = c.int("l", 0, sample=(0, 4)), c.int("k", 0, sample=(0, 4))
    if c.symbolic:
        su2_systems(c)
    C = c.call(SL2C.clebsch_gordan, c.obj(SL2C, l=l, k=0), c.obj(SL2C, l=0, k=k), c.obj(SL2C, l=l, k=k))
    c.shape("shape", C, 1, l + 1, k + 1, (l + 1) * (k + 1))
    C = C[0]
    c.equal("C^T C = 1", np.einsum("xyi,xyj->ij", C, C), np.eye(C.shape[2]))
    c.equal("C C^T = 1", np.einsum("xyi,uvi->xyuv", C, C), np.einsum("xu,yv->xyuv", np.eye(l + 1), np.eye(k + 1)))


@contract("C03", targets=[M + "sl2c.SL2C.clebsch_gordan", M + "sl2c.clebsch_gordansl2mat"], assumes=[SU2MAT, COMPLETE])
def sl2c_coefficients(c):
    l1, l2, k1, k2 = [c.int(t, 0, sample=(0, 3)) for t in ("l1", "l2", "k1", "k2")]
    if c.symbolic:
        l, k = c.int("l", 0), c.int("k", 0)
    else:
        l, k = abs(l1 - l2) + 2 * c.int("n", 0, sample=(0, min(l1, l2) + 1)), abs(k1 - k2) + 2 * c.int("m", 0, sample=(0, min(k1, k2) + 1))
    c.assume(triangle(l1, l2, l, 2) & triangle(k1, k2, k, 2))
    r1, r2, r3 = c.obj(SL2C, l=l1, k=k1), c.obj(SL2C, l=l2, k=k2), c.obj(SL2C, l=l, k=k)
    if c.symbolic:
        c.generators_by_contract(SU2, lambda r: r.j + 1, 3)
        su2_systems(c)
        for a, b, e in ((l1, l2, l), (k1, k2, k)):
            X1, X2, X3 = [c.obj(SU2, j=x).continuous_generators() for x in (a, b, e)]
            B = clebsch_gordanSU2mat(a / 2, b / 2, e / 2)
            c.hyp("B intertwines", np.einsum("glk,ijk->glij", X3, B), np.einsum("gai,ajl->glij", X1, B) + np.einsum("gbj,ibl->glij", X2, B))
    C = c.call(SL2C.clebsch_gordan, r1, r2, r3)
    c.shape("shape", C, 1, r1.dim, r2.dim, r3.dim)
    c.equal("equivariant", *equation(r1, r2, r3, C))
    c.equal("orthonormal", np.einsum("zijk,wijl->zwkl", C, c.conj(C)), np.eye(r3.dim)[None, None])
