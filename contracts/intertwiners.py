"""C09 (and C16, C19, C22): intertwiners of two sets of matrices and of two representations."""
import numpy as np

import lie_nn as lie
from lie_nn._src import util
from vlib.sym.contract import contract

U = "lie_nn._src.util."


def kernel(c, st):
    """contract of nullspace as used by its callers: Z Z^dagger = 1, A Z^T = 0 (and completeness, used with c.hyp)"""

    def model(A, *a, **k):
        r = c.int("r", 0)
        Z = c.tensor_like("Z", [r, (A, 1)], real=A.dtype == np.float64)
        c.hyp("Z orthonormal", np.einsum("aj,bj->ab", Z, np.conj(Z)), np.eye(r))
        st["A"], st["Z"] = np.copy(A), Z
        return Z

    c.override(util.nullspace, model)


def dimension(X1, X2):
    """concretely: the dimension of the space of the S with X1 S = S X2"""
    d1, d2 = X1.shape[1], X2.shape[1]
    K = [np.zeros((1, d1 * d2))] + [np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T) for x1, x2 in zip(X1, X2)]
    return d1 * d2 - np.linalg.matrix_rank(np.concatenate(K), tol=1e-4)


def separated(c, X1, X2):
    """concretely: the nonzero singular values are well above the tolerance (which is on their squares)"""
    d1, d2 = X1.shape[1], X2.shape[1]
    sigma = np.linalg.svd(np.concatenate([np.zeros((1, d1 * d2))] + [np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T) for x1, x2 in zip(X1, X2)]), compute_uv=False)
    c.assume(not np.any((1e-6 < sigma) & (sigma < 0.1)))


def related(c, X1, X2):
    """concretely: two sets of matrices with a common part"""
    d1, d2 = X1.shape[-1], X2.shape[-1]
    k = int(c.rng.integers(0, min(d1, d2) + 1))
    Y = X1[:, :k, :k].copy()
    out = []
    for X in (X1, X2):
        X = X.astype(complex) if np.iscomplexobj(Y) else X.copy()
        d = X.shape[-1]
        X[:, :k, :k], X[:, :k, k:], X[:, k:, :k] = Y, 0, 0
        P = c.rng.normal(size=(d, d)) + 2 * np.eye(d)
        if np.iscomplexobj(X):
            P = P + 1j * c.rng.normal(size=(d, d))
        out.append(np.linalg.inv(P) @ X @ P)
    return out[0], out[1], k


@contract("C09", targets=[U + "infer_change_of_basis"], samples=12)
def intertwiners(c):
    """S = infer_change_of_basis(X1, X2): X1 S_z = S_z X2, the S_z are orthonormal and each intertwiner is a combination of them"""
    n, d1, d2 = c.int("n", 1), c.int("d1", 1, sample=(1, 4)), c.int("d2", 1, sample=(1, 4))
    X1 = c.tensor("X1", n, d1, d1, real=c.choose("dtype of X1", [True, False]))
    X2 = c.tensor("X2", n, d2, d2, real=c.choose("dtype of X2", [True, False]))
    if not c.symbolic:
        X1, X2, k = related(c, X1, X2)
        separated(c, X1, X2)
    st = {}
    if c.symbolic:
        kernel(c, st)
    S = c.call(util.infer_change_of_basis, X1, X2)
    if not c.symbolic:
        c.shape("all the intertwiners", S, dimension(X1, X2), d1, d2)
    left, right = np.einsum("nij,zjk->znik", X1, S), np.einsum("zij,njk->znik", S, X2)
    if c.symbolic:
        A, Z = st["A"], st["Z"]
        r = Z.shape[0]
        c.shape("shape", S, r, d1, d2)
        c.equal("S is the null space", S, Z.reshape((r, d1, d2)))
        c.given("A Z^T = 0", np.moveaxis((A @ Z.T).reshape((n, d1, d2, r)), 3, 0), left, right)
    c.equal("X1 S = S X2", left, right)
    if not c.symbolic:
        return
    c.equal("orthonormal", np.einsum("aij,bij->ab", S, np.conj(S)), np.eye(r))
    T = c.tensor("T", d1, d2)
    c.hyp("X1 T = T X2", np.einsum("nij,jk->nik", X1, T), np.einsum("ij,njk->nik", T, X2))
    c.zero("an intertwiner is in the null space", A @ T.reshape(-1))
    c.hyp("x = (x Z^dagger) Z", np.einsum("p,ap,aq->q", T.reshape(-1), np.conj(Z), Z), T.reshape(-1))
    c.equal("an intertwiner is in the span", np.einsum("ij,aij,akl->kl", T, np.conj(S), S), T)


@contract("C22", targets=[U + "sequential_nullspace"], samples=16)
def sequential_nullspace(c):
    """Z = sequential_nullspace([A_0, A_1, ...], dim): Z Z^dagger = 1 and there is an h such that A_i Z^T = 0 for i < h, each x with
    A_i x = 0 for i < h is a combination of the rows of Z; Z has at most dim rows. Otherwise ValueError."""
    K, n, dim = c.int("K", 0, sample=(1, 3)), c.int("n", 0, sample=(1, 6)), c.int("dim", 0, sample=(0, 4))
    real = c.choose("dtype", [True, False])
    if not c.symbolic:
        As = [c.tensor(f"A{i}", c.int(f"m{i}", 0), n, real=real) for i in range(K)]
        if c.choose("reachable dimension", [True, True, False]):
            dim = max(0, n - sum(len(A) for A in As))
        try:
            S = c.call(util.sequential_nullspace, As, dim)
        except ValueError:
            c.ensure("not enough constraints", n - np.linalg.matrix_rank(np.concatenate(As)) > dim if As else True)
            return
        c.ensure("at most dim vectors", len(S) <= dim)
        c.equal("orthonormal rows", S @ np.conj(S.T), np.eye(len(S)))
        h = min(h for h in range(1, K + 1) if n - np.linalg.matrix_rank(np.concatenate(As[:h])) <= dim)
        A = np.concatenate(As[:h])
        c.equal("null space", A @ S.T, np.zeros((len(A), len(S))))
        c.ensure("dimension", len(S) == n - np.linalg.matrix_rank(A))
        return
    ms = lambda i: c.family("m", i)
    item = lambda i: c.vtensor("A", [i], [ms(i), n], real=real)
    gen = c.seq("A", K, item)
    st = {}

    def entry(v):
        c.ensure("nothing at first", v["S"] is None)

    def state(k):
        st["k"] = k
        if k == 0:
            st["S"] = None
        else:
            r = c.int("r", 0)
            c.assume(r > dim)
            st["S"] = c.tensor("S", r, n, real=real)
        return {"S": st["S"], "n": c.int("count", 0), "m": c.int("rows", 0)}

    def null(A, *a, **k):
        d = A.shape[1]
        r = c.int("rZ", 0)
        Z = c.tensor("Z", r, d, real=real)
        st["A"], st["Z"] = np.copy(A), Z
        return Z

    def one_more(S):
        """the invariant for k + 1"""
        k, Z, A = st["k"], st["Z"], item(st["k"])
        r = Z.shape[0]
        c.hyp("Z orthonormal", np.einsum("aj,bj->ab", Z, np.conj(Z)), np.eye(r))
        c.shape("shape", S, r, n)
        if k == 0:
            c.given("A Z^T = 0", st["A"] @ Z.T, A @ S.T, np.zeros((ms(k), r)))
        else:
            W = st["S"]
            s = W.shape[0]
            c.hyp("W orthonormal", np.einsum("aj,bj->ab", W, np.conj(W)), np.eye(s))
            c.given("A Z^T = 0", st["A"] @ Z.T, A @ S.T, np.zeros((ms(k), r)))
            i = c.int("i", 0, k)
            c.hyp("A_i W^T = 0", item(i) @ W.T, np.zeros((ms(i), s)))
            c.zero("the former equations hold", item(i) @ S.T)
        c.equal("orthonormal rows", S @ np.conj(S.T), np.eye(r))
        c.zero("one more equation holds", A @ S.T)
        x = c.tensor("x", n, real=real)
        if k == 0:
            c.hyp("A x = 0", st["A"] @ x, np.zeros(ms(k)))
            y = x
        else:
            c.hyp("A x = 0", A @ x, np.zeros(ms(k)))
            y = x @ np.conj(W.T)
            c.hyp("x is in the span of W", np.einsum("i,ai,aj->j", x, np.conj(W), W), x)
            c.zero("null vector", st["A"] @ y)
        c.hyp("y is in the span of Z", np.einsum("i,ai,aj->j", y, np.conj(Z), Z), y)
        c.equal("complete", np.einsum("i,ai,aj->j", x, np.conj(S), S), x)

    def check(k, v):
        one_more(v["S"])
        c.ensure("more than dim vectors", v["S"].shape[0] > dim)

    c.override(util.nullspace, null)
    c.forloop(util.sequential_nullspace, "equations", ["S", "n", "m"], state, check, entry)
    try:
        S = c.call(util.sequential_nullspace, gen, dim)
    except ValueError:
        c.ensure("not enough constraints", True if st["S"] is None else st["S"].shape[0] > dim)
        return
    c.ensure("at most dim vectors", S.shape[0] <= dim)
    one_more(S)


def common_change_of_basis(c, st, S_rules):
    """contract of util.infer_change_of_basis(X1, X2) for its callers: X1 S = S X2, S orthonormal (complete: see `complete`)"""

    def model(X1, X2, *a, **k):
        r = c.int("r", 0)
        S = c.tensor("S", r, X1.shape[1], X2.shape[1], real=X1.dtype == np.float64 and X2.dtype == np.float64)
        c.hyp("S orthonormal", np.einsum("aij,bij->ab", S, np.conj(S)), np.eye(r))
        st["S"] = S
        S_rules(S, np.einsum("gij,zjk->zgik", X1, S) - np.einsum("zij,gjk->zgik", S, X2))
        st["args"] = np.copy(X1), np.copy(X2)
        return S

    c.override(util.infer_change_of_basis, model)


@contract("C09", targets=["lie_nn._src.infer_change_of_basis.infer_change_of_basis"])
def rep_intertwiners(c):
    n, m = c.int("n", 0), c.int("m", 0)
    c.assume(n + m >= 1)
    A = c.algebra("A", n)
    r1, r2 = c.rep("1", A, m, dlo=1), c.rep("2", A, m, dlo=1)
    st = {}

    def rules(S, eq0):
        c.given("X2 S = S X1", eq0[:, :n], np.einsum("gij,zjk->zgik", r2.X, S), np.einsum("zij,gjk->zgik", S, r1.X))
        c.given("H2 S = S H1", eq0[:, n:], np.einsum("gij,zjk->zgik", r2.H, S), np.einsum("zij,gjk->zgik", S, r1.H))

    if c.symbolic:
        common_change_of_basis(c, st, rules)
    else:
        separated(c, np.concatenate([r2.X, r2.H]), np.concatenate([r1.X, r1.H]))
    Q = c.call(lie.infer_change_of_basis, r1, r2)
    c.equal("Q X1 = X2 Q", np.einsum("zij,gjk->zgik", Q, r1.X), np.einsum("gij,zjk->zgik", r2.X, Q))
    c.equal("Q H1 = H2 Q", np.einsum("zij,gjk->zgik", Q, r1.H), np.einsum("gij,zjk->zgik", r2.H, Q))
    d1, d2 = r1.dim, r2.dim
    c.shape("shape", Q, Q.shape[0], d2, d1)
    c.equal("orthogonal, of squared norm dim2", np.einsum("zij,wij->zw", Q, np.conj(Q)), d2 * np.eye(Q.shape[0]))
    if not c.symbolic:
        c.shape("all the intertwiners", Q, dimension(np.concatenate([r2.X, r2.H]), np.concatenate([r1.X, r1.H])), d2, d1)
        return
    S = st["S"]
    T = c.tensor("T", d2, d1)
    c.hyp("X2 T = T X1", np.einsum("gij,jk->gik", r2.X, T), np.einsum("ij,gjk->gik", T, r1.X))
    c.hyp("H2 T = T H1", np.einsum("gij,jk->gik", r2.H, T), np.einsum("ij,gjk->gik", T, r1.H))
    c.zero("an intertwiner of the representations is one of the generators", np.einsum("gij,jk->gik", st["args"][0], T) - np.einsum("ij,gjk->gik", T, st["args"][1]))
    c.hyp("complete", np.einsum("ij,zij,zkl->kl", T, np.conj(S), S), T)
    c.equal("an intertwiner is in the span", np.einsum("ij,zij,zkl->kl", T, np.conj(Q), Q), d2 * T)


@contract("C09 C03", targets=["lie_nn._src.clebsch_gordan.clebsch_gordan"])
def generic_clebsch_gordan(c):
    """C = clebsch_gordan(r1, r2, r3) for representations that are not tabulated: equivariant, orthogonal, complete"""
    n, m = c.int("n", 0), c.int("m", 0)
    c.assume(n + m >= 1)
    A = c.algebra("A", n)
    r1, r2, r3 = c.rep("1", A, m, dlo=1), c.rep("2", A, m, dlo=1), c.rep("3", A, m, dlo=1)
    d1, d2, d3 = r1.dim, r2.dim, r3.dim
    st = {}

    def model(a, b, *args, **k):
        """contract of infer_change_of_basis: Q rho_a = rho_b Q (proved: rep_intertwiners)"""
        r = c.int("r", 0)
        Q = c.tensor_like("Q", [r, (b.X, 1), (a.X, 1)])
        c.hyp("Q orthogonal", np.einsum("zij,wij->zw", Q, np.conj(Q)), b.dim * np.eye(r))
        for name, x, y, z in (("X", a.X, b.X, 0), ("H", a.H, b.H, 1)):
            eq0 = np.einsum("gij,zjk->zgik", y, Q) - np.einsum("zij,gjk->zgik", Q, x)
            eq0 = eq0.reshape((r, y.shape[0], d3, d1, d2))
            C = np.moveaxis(Q.reshape((r, d3, d1, d2)), 1, 3)
            c.given(name + "3 C = C " + name + "12", eq0, *equation(C, z))
        st["Q"], st["a"], st["b"] = Q, a, b
        return Q

    def equation(C, z):
        """sum_k C_zijk rho3_lk = rho1 and rho2 on the other indices, axes (z, g, l, i, j)"""
        if z == 0:
            right = np.einsum("gai,zajl->zglij", r1.X, C) + np.einsum("gbj,zibl->zglij", r2.X, C)
            return np.einsum("glk,zijk->zglij", r3.X, C), right
        return np.einsum("glk,zijk->zglij", r3.H, C), np.einsum("gai,gbj,zabl->zglij", r1.H, r2.H, C)

    if c.symbolic:
        c.override(lie.infer_change_of_basis, model)
    else:
        t = lie.tensor_product(r1, r2)
        separated(c, np.concatenate([r3.X, r3.H]), np.concatenate([t.X, t.H]))
    C = c.call(lie.clebsch_gordan, r1, r2, r3)
    r = C.shape[0]
    c.shape("shape", C, r, d1, d2, d3)
    c.equal("equivariant", *equation(C, 0))
    c.equal("equivariant under the discrete generators", *equation(C, 1))
    c.equal("orthogonal, of squared norm dim3", np.einsum("zijk,wijk->zw", C, np.conj(C)), d3 * np.eye(r))
    if not c.symbolic:
        t = lie.tensor_product(r1, r2)
        c.shape("all the equivariant maps", C, dimension(np.concatenate([r3.X, r3.H]), np.concatenate([t.X, t.H])), d1, d2, d3)
        return
    Q, a, b = st["Q"], st["a"], st["b"]
    T = c.tensor("T", d1, d2, d3)
    for name, z in (("X", 0), ("H", 1)):
        c.hyp("T equivariant", *[e[0] for e in equation(T[None], z)])
    M = np.moveaxis(T, 2, 0).reshape((d3, d1 * d2))
    for x, y in ((a.X, b.X), (a.H, b.H)):
        c.zero("an equivariant map is an intertwiner", np.einsum("gij,jk->gik", y, M) - np.einsum("ij,gjk->gik", M, x))
    c.hyp("complete", np.einsum("ij,zij,zkl->kl", M, np.conj(Q), Q), d3 * M)
    c.equal("an equivariant map is in the span", np.einsum("ijk,zijk,zlmn->lmn", T, np.conj(C), C), d3 * T)
