"""C22 (and C09, C16): orthonormal bases, null spaces, intertwiners.

Numerical ranks are taken to be exact: a norm or an eigenvalue below the tolerance of the code is 0 (assumption of C22: the nonzero
singular values are well above it); arithmetic is exact."""
import numpy as np

from lie_nn._src import util
from vlib.sym.contract import contract

U = "lie_nn._src.util."
RANK = "a remainder of norm at most epsilon is 0 (ranks are decided exactly)"


def matrix(c, name, n, d):
    """an arbitrary real or complex matrix; concretely one of small rank"""
    real = c.choose("dtype of " + name, [True, False])
    A = c.tensor(name, n, d, real=real)
    if not c.symbolic and min(A.shape) > 1:
        A = A.copy()
        A[-1] = A[0] * (2 if real else 2j)
        A[A.shape[0] // 2] *= int(c.choose("zero row", [0, 1, -1]))
    return A


def norms(c, st):
    """contract of np.linalg.norm of a vector x: nu >= 0 with nu^2 = sum |x|^2"""

    def norm(x, *a, **k):
        st["x"] = np.copy(x)
        st["nu"] = c.real("nu", 0)
        return st["nu"]

    c.override(np.linalg.norm, norm)


def orthonormalisation(c, f, A, st, eps):
    """annotation of the loop of gram_schmidt: before the iteration k, Q is a list of r orthonormal rows W = B A (with r and B
    arbitrary) whose span contains the rows A_i with i < k"""
    n, d = A.shape
    norms(c, st)

    def entry(v):
        c.ensure("no row at first", len(v["Q"]) == 0)

    def state(k):
        r = c.int("r", 0)
        W = c.tensor("W", r, d, real=A.dtype == np.float64)
        st["r"], st["W"], st["B"] = r, W, c.tensor("B", r, n)
        c.hyp("W orthonormal", np.einsum("aj,bj->ab", W, np.conj(W)), np.eye(r))
        st["Q"] = c.seq("W", r, lambda a: W[a])
        return {"Q": list(st["Q"])}

    def check(k, v):
        r, W, x, nu = st["r"], st["W"], st["x"], st["nu"]
        row = A[k]
        proj = (row @ np.conj(W.T)) @ W
        c.equal("the norm is that of the remainder of the row", x, row - proj)
        if c.entails(len(v["Q"]) == r):
            c.ensure("only a remainder of norm 0 is dropped", nu <= eps)
            c.same_sequence("rows are kept", v["Q"], st["Q"])
            return
        T = np.stack(v["Q"])
        c.shape("one row is added", T, r + 1, d)
        c.ensure("a remainder of norm 0 is not used", nu > 0)
        c.equal("rows are kept", T[:r], W)
        c.equal("the new row is the remainder, of norm 1", T[r] * nu, x)
        c.equal("the new row is orthogonal to the others", x @ np.conj(W.T), np.zeros(r))
        c.equal("the row is in the span", proj + T[r] * nu, row)
        c.hyp("W = B A", W, st["B"] @ A)
        c.equal("the new row is a combination of rows of A", x, row - ((row @ np.conj(W.T)) @ st["B"]) @ A)

    c.forloop(f, "rows", ["Q"], state, check, entry)


def projection(c, f, st, name="v"):
    """annotation of the loop that removes the components of v along the rows of W: v(k) = v(0) - (v(0) W[:k]^dagger) W[:k]"""

    def rest(k):
        W = st["W"][:k]
        return {name: st["v0"] - (st["v0"] @ np.conj(W.T)) @ W}

    def entry(v):
        st["v0"] = np.copy(v[name])

    def check(k, v):
        c.equal("one more component is removed", v[name], rest(k + 1)[name])

    c.forloop(f, "projection", [name], rest, check, entry)


@contract("C22 C09", targets=[U + "gram_schmidt"], assumes=[RANK])
def gram_schmidt(c):
    """Z = gram_schmidt(A): Z Z^dagger = 1, A = (A Z^dagger) Z and Z = B A"""
    n, d = c.int("n", 0), c.int("d", 0)
    A = matrix(c, "A", n, d)
    st = {}
    if c.symbolic:
        orthonormalisation(c, util.gram_schmidt, A, st, 1e-4)
        projection(c, util.gram_schmidt, st)
    Z = c.call(util.gram_schmidt, A)
    if c.symbolic:
        c.equal("the rows found are returned", Z, st["W"])
    c.equal("orthonormal rows", Z @ np.conj(Z.T), np.eye(Z.shape[0]))
    if not c.symbolic:
        c.equal("the rows of A are in the span", A @ np.conj(Z.T) @ Z, A)
        c.ensure("no other dimension", Z.shape[0] == (np.linalg.matrix_rank(A) if A.size else 0))


def orthonormal_rows(c, name, A):
    """contract of gram_schmidt as used by its callers: Z Z^dagger = 1, Z = B A, A = (A Z^dagger) Z"""
    r = c.int("r" + name, 0)
    n, d = A.shape
    Z = c.tensor(name, r, d, real=A.dtype == np.float64)
    c.hyp(name + " orthonormal", np.einsum("aj,bj->ab", Z, np.conj(Z)), np.eye(r))
    return Z


@contract("C22", targets=[U + "extend_basis"], assumes=[RANK, "a matrix with orthonormal rows and orthonormal columns is square"])
def extend_basis(c):
    """Q = extend_basis(A): Q Q^dagger = 1 = Q^dagger Q, the first rows are gram_schmidt(A) and the others are E"""
    m, n = c.int("m", 0), c.int("n", 1)
    A = matrix(c, "A", m, n)
    what = c.choose("returns", ["Q", "E"])
    st = {}

    def gs(M, *a, **k):
        c.equal("the rows of A are orthonormalised", M, A)
        st["Z"] = orthonormal_rows(c, "Z", M)
        return st["Z"]

    if c.symbolic:
        c.override(util.gram_schmidt, gs)
        norms(c, st)

        def entry(v):
            c.same_sequence("the rows of gram_schmidt at first", v["Q"], c.seq("Z", st["Z"].shape[0], lambda a: st["Z"][a]))
            c.ensure("no row added at first", len(v["E"]) == 0)

        def state(k):
            Z = st["Z"]
            p, e = Z.shape[0], c.int("e", 0)
            W = c.tensor("W", p + e, n, real=A.dtype == np.float64)
            st["e"], st["W"] = e, W
            c.hyp("W orthonormal", np.einsum("aj,bj->ab", W, np.conj(W)), np.eye(p + e))
            if c.entails(k == n):
                c.hyp("all the unit vectors are in the span", np.einsum("ai,aj->ij", np.conj(W), W), np.eye(n))
                c.assume(p + e == n)
            st["Q"], st["E"] = c.seq("W", p + e, lambda a: W[a]), c.seq("E", e, lambda a: W[p + a])
            return {"Q": list(st["Q"]), "E": list(st["E"])}

        def check(k, v):
            r, W, x, nu = st["W"].shape[0], st["W"], st["x"], st["nu"]
            row = np.eye(n)[k]
            proj = (row @ np.conj(W.T)) @ W
            c.equal("the norm is that of the remainder of the unit vector", x, row - proj)
            if c.entails(len(v["Q"]) == r):
                c.ensure("only a remainder of norm 0 is dropped", nu <= 1e-4)
                c.same_sequence("rows are kept", v["Q"], st["Q"])
                c.same_sequence("added rows are kept", v["E"], st["E"])
                return
            T, E = np.stack(v["Q"]), np.stack(v["E"])
            c.shape("one row is added", T, r + 1, n)
            c.shape("one added row is added", E, st["e"] + 1, n)
            c.ensure("a remainder of norm 0 is not used", nu > 0)
            c.equal("rows are kept", T[:r], W)
            c.equal("the added rows are the last ones", E, T[st["Z"].shape[0]:])
            c.equal("the new row is the remainder, of norm 1", T[r] * nu, x)
            c.equal("the new row is orthogonal to the others", x @ np.conj(W.T), np.zeros(r))
            c.equal("the unit vector is in the span", proj + T[r] * nu, row)

        c.forloop(util.extend_basis, "unit vectors", ["Q", "E"], state, check, entry)
        projection(c, util.extend_basis, st)
    R = c.call(util.extend_basis, A, returns=what)
    if c.symbolic:
        if what == "Q":
            c.equal("all rows are returned", R, st["W"])
            c.equal("orthonormal rows", R @ np.conj(R.T), np.eye(R.shape[0]))
            c.equal("a basis of the whole space", np.conj(R.T) @ R, np.eye(n))
        else:
            c.equal("the added rows are returned", R, st["W"][st["Z"].shape[0]:])
        return
    Z = util.gram_schmidt(A)
    Q = R if what == "Q" else np.concatenate([Z, R])
    c.shape("square", Q, n, n)
    c.equal("orthonormal rows", Q @ np.conj(Q.T), np.eye(n))
    c.equal("the first rows span the rows of A", Q[: len(Z)], Z)


def eigh(c, st):
    """contract of np.linalg.eigh of a Hermitian matrix M: M = V diag(w) V^dagger with V unitary and w real"""

    def model(M, *a, **k):
        n = M.shape[0]
        c.equal("eigh of a Hermitian matrix", M, np.conj(M.T))
        real = M.dtype == np.float64
        w, V = c.tensor("w", n, real=True), c.tensor("V", n, n, real=real)
        st["M"], st["w"], st["V"] = np.copy(M), w, V
        c.hyp("V unitary", np.einsum("ia,ib->ab", np.conj(V), V), np.eye(n))
        c.hyp("V unitary'", np.einsum("ia,ja->ij", V, np.conj(V)), np.eye(n))
        return w, V

    c.override(np.linalg.eigh, model)


def kernel_mask(c, st, eps, q=None):
    """the selected eigenvectors are those of eigenvalue 0: indicator u with u w = 0 and 1 - u = w / w where w != 0"""
    sel = c.selections()
    c.ensure("one selection", len(sel) == 1)
    mask, u = sel[0]
    w = st["w"]
    n = w.shape[0]
    c.shape("all eigenvectors are considered", mask, n)
    q = c.int("q", 0, n) if q is None else q
    c.ensure("selected eigenvalues are 0", c.implies(mask[q], np.abs(w[q]) <= eps))
    c.ensure("eigenvalues 0 are selected", c.implies(w[q] == 0, mask[q]))
    c.hyp("u w = 0", u * w, np.zeros(n))
    iw = c.tensor("1/w", n, real=True)
    c.hyp("w / w = 1 - u", iw * w, 1 - u)
    st["u"], st["iw"] = u, iw


@contract("C22 C09", targets=[U + "nullspace"], assumes=[RANK.replace("a remainder of norm", "an eigenvalue of modulus"), "sum |x|^2 = 0 only for x = 0"])
def nullspace(c):
    """Z = nullspace(A): Z Z^dagger = 1, A Z^T = 0, and x = (x Z^dagger) Z for each x with A x^T = 0"""
    m, n = c.int("m", 0), c.int("n", 0)
    A = matrix(c, "A", m, n)
    st = {}
    if c.symbolic:
        eigh(c, st)

        def gs(M, *a, **k):
            st["X"] = np.copy(M)
            st["Z"] = orthonormal_rows(c, "Z", M)
            return st["Z"]

        c.override(util.gram_schmidt, gs)
    Z = c.call(util.nullspace, A)
    if not c.symbolic:
        r = np.linalg.matrix_rank(A) if A.size else 0
        c.shape("dimension", Z, n - r, n)
        c.equal("A Z^T = 0", A @ Z.T, np.zeros((m, n - r)))
        c.equal("orthonormal rows", Z @ np.conj(Z.T), np.eye(n - r))
        return
    c.equal("orthonormal rows", Z @ np.conj(Z.T), np.eye(Z.shape[0]))
    c.equal("the orthonormal basis is returned", Z, st["Z"])
    c.equal("the eigenvectors of A^dagger A", st["M"], np.conj(A.T) @ A)
    kernel_mask(c, st, 1e-4)
    w, V, u = st["w"], st["V"], st["u"]
    # the rows that are orthonormalised span the conjugates of the selected eigenvectors ...
    K = np.einsum("iq,jq,q->ij", np.conj(V), V, u)
    c.equal("projector on the selected eigenvectors", st["X"], K)
    # ... on which A is 0: |A v_q|^2 = v_q^dagger M v_q = w_q
    c.hyp("M V = V w", np.einsum("li,lj,jq->iq", np.conj(A), A, V), V * w)
    c.zero("A is 0 on the selected eigenvectors", np.einsum("li,iq,lj,jq,q->q", A, V, np.conj(A), np.conj(V), u))
    c.hyp("A V u = 0", np.einsum("li,iq,q->lq", A, V, u), np.zeros((m, n)))
    B = c.tensor("B", Z.shape[0], n)
    c.zero("A Z^T = 0", A @ (B @ K).T)
    c.drop("A V u = 0")
    # completeness: M x = 0, thus w (V^dagger x) = 0, thus x is a combination of the selected eigenvectors
    x = c.tensor("x", n)
    y = np.einsum("iq,i->q", np.conj(V), x)
    T = np.einsum("iq,li,lj,j->q", np.conj(V), np.conj(A), A, x)
    c.equal("V^dagger M x = w V^dagger x", T, w * y)
    c.drop("M V = V w")
    c.hyp("A x = 0", A @ x, np.zeros(m))
    c.zero("V^dagger M x = 0", T)
    rest = np.einsum("iq,q,q,q->i", V, st["iw"], w, y)
    c.equal("x is a combination of the eigenvectors", rest + x @ K, x)
    c.drop("w / w = 1 - u")
    c.hyp("w V^dagger x = 0", np.einsum("q,iq,i->q", w, np.conj(V), x), np.zeros(n))
    c.zero("x is a combination of the selected ones", rest)
    c.hyp("K = (K Z^dagger) Z", np.einsum("ij,aj,ak->ik", K, np.conj(Z), Z), K)
    c.equal("x is in the span", ((x @ K) @ np.conj(Z.T)) @ Z, x @ K)


@contract("C22", targets=[U + "basis_intersection"], assumes=["an eigenvalue below epsilon of a positive matrix is 0", "sum |x|^2 = 0 only for x = 0"])
def basis_intersection(c):
    """P1, P2 = basis_intersection(B1, B2): each row of P1 B1 is in the span of B2; y = a B1 = b B2 implies a = (a P1^dagger) P1;
    and the same with 1 and 2 exchanged; orthonormal rows"""
    n1, n2 = c.int("n1", 1, sample=(1, 4)), c.int("n2", 1, sample=(1, 4))
    dims = c.choose("shape of the vectors", [("d",), ("d", "e")])
    dims = [c.int(d, 1, sample=(2, 3)) for d in dims]
    real = c.choose("dtype", [True, False])
    B1, B2 = c.tensor("B1", n1, *dims, real=real), c.tensor("B2", n2, *dims, real=real)
    st = {"Z": []}
    if c.symbolic:
        eigh(c, st)

        def gs(M, *a, **k):
            Z = orthonormal_rows(c, "Z" + str(len(st["Z"]) + 1), M)
            st["Z"].append((np.copy(M), Z))
            return Z

        c.override(util.gram_schmidt, gs)
    else:
        k = int(c.rng.integers(0, min(n1, n2) + 1))
        if k:
            B2 = B2.copy()
            B2[:k] = np.tensordot(c.rng.normal(size=(k, n1)), B1, 1)
    P1, P2 = c.call(util.basis_intersection, B1, B2)
    if not c.symbolic:
        F1, F2 = B1.reshape(n1, -1), B2.reshape(n2, -1)
        r1, r2, r = (np.linalg.matrix_rank(F) for F in (F1, F2, np.concatenate([F1, F2])))
        if r1 == n1 and r2 == n2:
            for P, F, G, rG in ((P1, F1, F2, r2), (P2, F2, F1, r1)):
                c.shape("dimension", P, r1 + r2 - r, len(F))
                c.equal("orthonormal rows", P @ np.conj(P.T), np.eye(len(P)))
                c.ensure("in the other span", np.linalg.matrix_rank(np.concatenate([P @ F, G]), tol=1e-7) == rG)
        return
    F1, F2 = B1.reshape((n1, -1)), B2.reshape((n2, -1))
    C = np.concatenate([F1, -F2], axis=0)
    c.ensure("two bases are orthonormalised", len(st["Z"]) == 2)
    c.equal("orthonormal rows of P1", P1 @ np.conj(P1.T), np.eye(P1.shape[0]))
    c.equal("orthonormal rows of P2", P2 @ np.conj(P2.T), np.eye(P2.shape[0]))
    (M1, Z1), (M2, Z2) = st["Z"]
    c.equal("P1", P1, Z1)
    c.equal("P2", P2, Z2)
    M, w, V = st["M"], st["w"], st["V"]
    c.equal("the Gram matrix of the vectors of B1 and of the opposites of B2", M, C @ np.conj(C.T))
    # for all matrices G with M = G G^dagger: the selected eigenvectors are those of eigenvalue 0, they are a basis of the x with
    # G^dagger x = 0
    n, d = C.shape
    G = c.tensor("G", n, F1.shape[1], real=real)
    c.hyp("M V = V w", np.einsum("ip,jp,jq->iq", G, np.conj(G), V), V * w)
    D = np.conj(G.T) @ V
    c.equal("w = |G^dagger v|^2", np.einsum("pq,pq->q", np.conj(D), D), w)
    c.drop("M V = V w")
    q = c.int("q", 0, n)
    c.assume(w[q] >= 0)
    kernel_mask(c, st, 1e-5, q)
    u = st["u"]
    c.hyp("M V = V w", np.einsum("ip,jp,jq->iq", G, np.conj(G), V), V * w)
    c.zero("G^dagger is 0 on the selected eigenvectors", np.einsum("pq,pq,q->q", np.conj(D), D, u))
    x = c.tensor("x", n)
    y = np.einsum("iq,i->q", np.conj(V), x)
    T = np.einsum("iq,ip,jp,j->q", np.conj(V), G, np.conj(G), x)
    c.equal("V^dagger M x = w V^dagger x", T, w * y)
    c.drop("M V = V w")
    c.hyp("G^dagger x = 0", np.conj(G.T) @ x, np.zeros(G.shape[1]))
    c.zero("V^dagger M x = 0", T)
    K = np.einsum("iq,jq,q->ij", V, np.conj(V), u)
    rest = np.einsum("iq,q,q,q->i", V, st["iw"], w, y)
    c.equal("x is a combination of the eigenvectors", rest + K @ x, x)
    c.drop("w / w = 1 - u")
    c.hyp("w V^dagger x = 0", np.einsum("q,iq,i->q", w, np.conj(V), x), np.zeros(n))
    c.zero("x is a combination of the selected ones", rest)
    c.drop("w V^dagger x = 0", "u w = 0", "V unitary", "V unitary'", "G^dagger x = 0")
    # this for G = C; V1 and V2 are the components of the selected eigenvectors: B1^dagger V1 = B2^dagger V2
    V1, V2 = c.tensor("V1", n1, n, real=real), c.tensor("V2", n2, n, real=real)
    c.hyp("V1", V[:n1], V1)
    c.hyp("V2", V[n1:], V2)
    Vu = V * u
    eq0 = np.conj(C.T) @ Vu
    for P, F, (M, Z), W, E, U_ in ((P1, F1, (M1, Z1), V1, F2, V2), (P2, F2, (M2, Z2), V2, F1, V1)):
        c.equal("the rows orthonormalised are those of the projector", M, np.einsum("iq,jq,q->ij", W, np.conj(W), u))
        K = np.einsum("iq,jq,q->ij", W, np.conj(W), u)
        r, m = P.shape
        # the rows of P are combinations of those of K, P = B K, thus P F = B W u U^dagger E
        c.given("F^dagger W u = E^dagger U u", eq0, np.conj(F.T) @ (W * u), np.conj(E.T) @ (U_ * u))
        B = c.tensor("B", r, m)
        c.equal("in the span of the other family", (B @ K) @ F, (B @ (W * u) @ np.conj(U_.T)) @ E)
        c.drop("F^dagger W u = E^dagger U u")
        eq0 = -eq0
        # a F = b E: (a, b)^dagger is a combination of the selected eigenvectors, thus a is a combination of the conjugate columns of W
        c.hyp("K = (K Z^dagger) Z", np.einsum("ij,aj,ak->ik", K, np.conj(Z), Z), K)
        Pi = np.conj(Z.T) @ Z
        R = np.conj((W * u).T) - np.conj((W * u).T) @ Pi
        c.zero("the sum of squares of W^dagger (1 - Z^dagger Z)", np.einsum("qk,qk->k", np.conj(R), R))
        c.drop("K = (K Z^dagger) Z")
        c.hyp("W^dagger (1 - Z^dagger Z) = 0", np.einsum("jq,q,aj,ak->qk", np.conj(W), u, np.conj(Z), Z), np.conj((W * u).T))
        a = np.einsum("q,jq,q->j", c.tensor("y", n), np.conj(W), u)
        c.equal("the coefficients of a common vector are in the span", (a @ np.conj(Z.T)) @ Z, a)
        c.drop("W^dagger (1 - Z^dagger Z) = 0")
