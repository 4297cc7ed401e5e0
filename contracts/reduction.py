"""C19: decomposition of a representation into irreducible ones."""
import numpy as np

import lie_nn as lie
from lie_nn._src import util
from vlib.sym.contract import contract

from .subspaces import orthonormal_rows

U = "lie_nn._src.util."
GENERIC = "the eigenspaces of a random element of the commutant of a completely reducible representation are irreducible (almost surely)"


def reducible(c, n):
    """concretely: n matrices that are completely reducible, as the generators of SU2 (n = 3) or of a finite group; the blocks"""
    rng = c.rng
    kind = int(rng.integers(0, 3))
    if kind == 0:
        Y = [lie.irreps.SU2(int(rng.integers(0, 3))).X for _ in range(int(rng.integers(1, 4)))]
    elif kind == 1:
        Y = [lie.irreps.SO3(int(rng.integers(0, 3))).X for _ in range(int(rng.integers(1, 3)))]
    else:
        Y = [np.array([[[-1.0]], [[1.0]]]), np.ones((2, 1, 1)), lie.finite.Sn_standard(3).H][: int(rng.integers(1, 4))]
    d = sum(y.shape[1] for y in Y)
    X = np.zeros((len(Y[0]), d, d), complex)
    o = 0
    for y in Y:
        k = y.shape[1]
        X[:, o : o + k, o : o + k] = y
        o += k
    M = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    if rng.integers(0, 2):
        M, _ = np.linalg.qr(M)
    return M @ X @ np.linalg.inv(M), Y


@contract("C19", targets=[U + "decompose_rep_into_irreps"], samples=12, assumes=[GENERIC])
def decompose(c):
    """each block Y = conj(B) X B^T, with the orthonormal rows of B spanning an eigenspace of an element of the commutant, satisfies
    X B^T = B^T Y"""
    if not c.symbolic:
        X, blocks = reducible(c, 3)
        Ys = c.call(util.decompose_rep_into_irreps, X)
        c.ensure("dimensions", sorted(y.shape[1] for y in Ys) == sorted(y.shape[1] for y in blocks))
        for i, M in enumerate(X):
            c.equal("characters", np.trace(M), sum(np.trace(y[i]) for y in Ys), 1e-5)
            c.equal("characters of products", np.trace(M @ X[0]), sum(np.trace(y[i] @ y[0]) for y in Ys), 1e-5)
        for y in Ys:
            c.ensure("irreducible", util.is_irreducible(y))
        return
    n, d = c.int("n", 1), c.int("d", 1)
    X = c.tensor("X", n, d, d)
    st = {}

    def common(X1, X2, *a, **k):
        r = c.int("r", 0)
        Q = c.tensor("Q", r, d, d)
        left, right = np.einsum("zij,njk->znik", Q, X), np.einsum("nij,zjk->znik", X, Q)
        c.equal("the commutant of X", X1, X)
        c.equal("the commutant of X", X2, X)
        c.hyp("Q X = X Q", left, right)
        st["Q"] = Q
        return Q

    def rand(r):
        c.ensure("one coefficient for each element of the basis", r == st["Q"].shape[0])
        st["w"] = c.tensor("w", r, real=True)
        return st["w"]

    def eig(M):
        c.equal("an element of the commutant", M, np.einsum("n,nij->ij", st["w"], st["Q"]))
        st["val"], st["vec"] = c.tensor("val", d), c.tensor("vec", d, d)
        return st["val"], st["vec"]

    K = c.int("K", 0)
    m = lambda i: c.family("m", i)
    W = lambda i: c.vtensor("W", [i], [d, m(i)])
    mu = lambda i: c.vtensor("mu", [i], [])[()]
    Y = lambda i: c.vtensor("Y", [i], [n, c.family("y", i), c.family("y", i)])

    def spaces(val, vec, *a, **k):
        c.ensure("the eigenvectors", c.is_same(val, st["val"]) and c.is_same(vec, st["vec"]))
        return c.seq("spaces", K, lambda i: (mu(i), W(i)))

    def gs(A, *a, **k):
        B = orthonormal_rows(c, "B" + str(len(st["B"])), A)
        st["B"].append((np.copy(A), B))
        return B

    def entry(v):
        c.ensure("no block at first", len(v["Ys"]) == 0)

    def state(k):
        st["k"], st["B"] = k, []
        st["Ys"] = c.seq("Y", k, Y)
        return {"Ys": list(st["Ys"])}

    def check(k, v):
        Ys = v["Ys"]
        c.ensure("one more block", len(Ys) == k + 1)
        i = c.int("i", 0, k)
        c.equal("the blocks are kept", Ys[i], Y(i))
        (A1, B1), (A2, B) = st["B"]
        w, Q = st["w"], st["Q"]
        c.equal("the first orthonormal rows are those of the eigenspace", A1, W(k).T)
        P = np.conj(B1.T) @ B1
        c.equal("the second ones are those of its projector", A2, P)
        r1, r = B1.shape[0], B.shape[0]
        C1, C = c.tensor("C1", r1, m(k)), c.tensor("C", r, d)
        c.hyp("M W = W mu", np.einsum("n,nij,ja->ia", w, Q, W(k)), W(k) * mu(k))
        c.hyp("B = C P", B, C @ P)
        c.hyp("B1 = C1 W^T", B1, C1 @ W(k).T)
        c.zero("the rows of B are eigenvectors", np.einsum("n,nij,aj->ai", w, Q, B) - B * mu(k))
        c.drop("B = C P", "B1 = C1 W^T", "M W = W mu")
        c.hyp("M B^T = B^T mu", np.einsum("n,nij,aj->ia", w, Q, B), B.T * mu(k))
        T = X @ B.T
        c.zero("the generators keep the eigenspace", np.einsum("n,nij,gja->gia", w, Q, T) - T * mu(k))
        c.drop("M B^T = B^T mu", "Q X = X Q")
        c.hyp("T = X B^T, of rows in the eigenspace, spanned by the rows of B1", T, P.T @ c.tensor("T", n, d, r))
        c.hyp("P = P B^dagger B", P @ np.conj(B.T) @ B, P)
        c.shape("shape", Ys[k], n, r, r)
        c.equal("X B^T = B^T Y", X @ B.T, B.T @ Ys[k])

    c.override(util.infer_change_of_basis, common)
    c.override(np.random.rand, rand)
    c.override(np.linalg.eig, eig)
    c.override(util.eigenspaces, spaces)
    c.override(util.gram_schmidt, gs)
    c.forloop(util.decompose_rep_into_irreps, "eigenspaces", ["Ys"], state, check, entry)
    c.call(util.decompose_rep_into_irreps, X)


@contract("C19", targets=[U + "eigenspaces"], assumes=["eigenvalues are equal if they are in the same cluster (unique_with_tol), clusters are distinct", "np.linalg.eig: the eigenvectors are a basis (the matrix is diagonalisable)"])
def eigenspaces(c):
    """(mu, W) of the list: M W = mu W, and each u with M u = mu u is a combination of the columns of W"""
    if not c.symbolic:
        d = c.int("d", 1, sample=(1, 5))
        val = c.rng.integers(-1, 2, size=d) * (1.0 if c.choose("dtype", [True, False]) else 1j)
        vec = c.tensor("vec", d, d, real=not np.iscomplexobj(val))
        M = vec @ np.diag(val) @ np.linalg.inv(vec)
        out = c.call(util.eigenspaces, val, vec)
        c.ensure("one for each eigenvalue", sorted((np.round(x, 3).real, np.round(x, 3).imag) for x, W in out) == sorted({(x.real, x.imag) for x in val}))
        for x, W in out:
            c.equal("eigenvectors", M @ W, x * W)
            c.ensure("all of them", W.shape[1] == np.sum(np.abs(val - x) < 1e-9) and np.linalg.matrix_rank(W) == W.shape[1])
        return
    n, K = c.int("n", 1), c.int("K", 0)
    real = c.choose("dtype", [True, False])
    val, vec = c.tensor("val", n, real=real), c.tensor("vec", n, n, real=real)
    st = {}

    def unique(a, *x, **k):
        c.equal("the eigenvalues are compared", a, val)
        st["mu"] = c.tensor("mu", K, real=real)
        st["inv"] = c.int_array("inverses", n)
        return st["mu"], st["inv"]

    c.override(util.unique_with_tol, unique)
    out = c.call(util.eigenspaces, val, vec)
    c.ensure("one for each cluster", len(out) == K)
    k = c.int("k", 0, K)
    (mask, u), = c.selections(k)
    mu, W = out[k]
    q = c.int("q", 0, n)
    c.ensure("the eigenvectors of the cluster", c.iff(mask[q], st["inv"][q] == k))
    c.equal("the eigenvalue", mu, st["mu"][k])
    M = c.tensor("M", n, n)
    c.hyp("M V = V val", np.einsum("ij,jq->iq", M, vec), vec * val)
    c.hyp("val = mu in the cluster", u * val, u * mu)
    c.zero("eigenvectors", (M @ W - W * mu) @ np.conj(W.T))
    c.drop("M V = V val", "val = mu in the cluster")


@contract("C19", targets=["lie_nn._src.reduce.reduce"], samples=12, assumes=["the intertwiners of the irreducible components are a basis of a completely reducible representation (Schur's lemma)"])
def reduce_rep(c):
    """reduce(rep) = ReducedRep(A, ((mul_i, Y_i)), Q): Q intertwines, Y_i is one of the irreducible blocks, and there is no intertwiner
    between the Y_i (each block left out has an intertwiner with one of them)"""
    if not c.symbolic:
        X, blocks = reducible(c, 3)
        if len(X) == 3:
            su2 = np.array([[[0, 0, 0], [0, 0, 1], [0, -1, 0]], [[0, 0, -1], [0, 0, 0], [1, 0, 0]], [[0, 1, 0], [-1, 0, 0], [0, 0, 0]]], dtype=float)
            rep = lie.GenericRep(su2, X, np.zeros((0,) + X.shape[1:]))
        else:
            rep = lie.GenericRep(np.zeros((0, 0, 0)), X[:0], X)
        r = c.call(lie.reduce, rep)
        c.equal("X", r.X, rep.X, 1e-5)
        c.equal("H", r.H, rep.H, 1e-5)
        c.equal("A", r.A, rep.A)
        c.ensure("dimensions", sorted(m.rep.dim for m in r.irreps for _ in range(m.mul)) == sorted(y.shape[1] for y in blocks))
        for i, a in enumerate(r.irreps):
            c.ensure("irreducible", lie.is_irreducible(a.rep))
            for b in r.irreps[:i]:
                c.ensure("inequivalent", len(lie.infer_change_of_basis(a.rep, b.rep)) == 0)
        return
    from lie_nn._src.reduced_rep import MulIrrep

    n, m = c.int("n", 0), c.int("m", 0)
    A = c.algebra("A", n)
    rep = c.anyrep("", A, m, dlo=1)
    X, H, d = rep.X, rep.H, rep.dim
    K = c.int("K", 1)
    st = {}

    def blocks(M, *a, **k):
        """contract of decompose_rep_into_irreps (proved: decompose)"""
        c.equal("all the generators are decomposed", M, np.concatenate([X, H]))
        y = lambda i: c.family("y", i, 1)
        return c.seq("blocks", K, lambda i: c.vtensor("Y", [i], [n + m, y(i), y(i)]))

    def intertwiners(a, b, *x, **k):
        """contract of infer_change_of_basis (proved: rep_intertwiners)"""
        if b is not rep:
            i = c.tag(b)
            st["tested"] = st.get("tested", 0) + 1
            st["ir"] = a
            return c.vtensor("T", [i], [c.family2("t", st["k"], i), b.dim, a.dim])
        r = c.int("r", 0)
        Q = c.tensor("Q", r, d, a.dim)
        c.hyp("Q Y = X Q", np.einsum("zij,gjk->zgik", Q, a.X), np.einsum("gij,zjk->zgik", X, Q))
        c.hyp("Q G = H Q", np.einsum("zij,gjk->zgik", Q, a.H), np.einsum("gij,zjk->zgik", H, Q))
        st["Q"], st["ir"] = Q, a
        return Q

    mul, dim = (lambda i: c.family("mul", i)), (lambda i: c.family("dim", i, 1))
    kX = lambda i: c.vtensor("kX", [i], [n, dim(i), dim(i)])
    kH = lambda i: c.vtensor("kH", [i], [m, dim(i), dim(i)])
    W = lambda i: c.vtensor("W", [i], [d, mul(i), dim(i)]).reshape((d, mul(i) * dim(i)))

    def kept(i):
        ir = c.obj(lie.GenericRep, _A=A, _X=kX(i), _H=kH(i), **{"=index": i})
        return c.obj(MulIrrep, mul=mul(i), rep=ir)

    def entry(v):
        c.ensure("nothing at first", len(v["Qs"]) == 0 and len(v["irs"]) == 0)

    def state(k):
        N = c.int("N", 0)
        c.assume(c.implies(k >= 1, N >= 1))
        st.clear()
        st["k"], st["N"] = k, N
        st["Qs"], st["irs"] = c.seq("W", N, W), c.seq("irs", N, kept)
        return {"Qs": c.mutable(st["Qs"]), "irs": c.mutable(st["irs"])}

    def check(k, v):
        N, Qs, irs = st["N"], v["Qs"], v["irs"]
        c.ensure("at least one irrep", len(irs) >= 1)
        if c.entails(len(irs) == N):
            c.same_sequence("irreps are kept", irs, st["irs"])
            c.same_sequence("Qs are kept", Qs, st["Qs"])
            c.ensure("a block that is left out is compared with the others", st.get("tested", 0) == 1 and "Q" not in st)
            return
        c.ensure("one more irrep", len(irs) == N + 1 and len(Qs) == N + 1)
        ir, Q = irs[N].rep, Qs[N]
        w = irs[N].mul
        c.ensure("the intertwiners of the block are used", ir is st["ir"])
        c.ensure("the multiplicity is the number of intertwiners", w == st["Q"].shape[0])
        c.equal("Q X = X Q", X @ Q, np.einsum("imj,gjk->gimk", Q.reshape((d, w, ir.dim)), ir.X).reshape((n, d, w * ir.dim)))
        c.equal("Q H = H Q", H @ Q, np.einsum("imj,gjk->gimk", Q.reshape((d, w, ir.dim)), ir.H).reshape((m, d, w * ir.dim)))
        i = c.int("i", 0, N)
        c.ensure("no intertwiner with the others", c.family2("t", k, i) == 0)

    c.override(util.decompose_rep_into_irreps, blocks)
    c.override(lie.infer_change_of_basis, intertwiners)
    c.forloop(lie.reduce.dispatch(lie.Rep), "blocks", ["Qs", "irs"], state, check, entry)
    r = c.call(lie.reduce, rep)
    c.same_sequence("irreps", r.irreps, st["irs"])
    c.equal("Q", r.Q, np.concatenate(st["Qs"], axis=1))
    c.equal("A", r.A, A)
    # the generators of the ReducedRep: X Q = Q D, with the block diagonal matrices D
    i = c.int("i", 0, st["N"])
    V = c.vtensor("W", [i], [d, mul(i), dim(i)])
    for name, Z, kZ in (("X", X, kX), ("H", H, kH)):
        c.hyp(name + " W = W k" + name, np.einsum("gij,jmk->gimk", Z, V), np.einsum("imj,gjk->gimk", V, kZ(i)), forall=[i])
        D = c.block_diag(c.seq("D", st["N"], lambda i: c.block_diag(c.seq("D2", mul(i), lambda j: kZ(i)), 1)), 1)
        c.equal(name + " Q = Q D", Z @ r.Q, r.Q @ D)


@contract("C19", targets=["lie_nn._src.reduce.reduce"])
def reduce_reduced(c):
    """reduced representations are unchanged: reduce of a ReducedRep, of a MulIrrep and of an irrep"""
    from lie_nn._src.reduced_rep import MulIrrep, ReducedRep

    n, m = c.int("n", 0), c.int("m", 0)
    A = c.algebra("A", n)
    c.override(util.direct_sum, c.block_diag_args)
    k = c.int("k", 1)
    irreps = c.mulirreps("irs", k, A, m)
    r = ReducedRep(A, irreps, None)
    if c.choose("with Q", [False, True]):
        r = ReducedRep(A, irreps, c.invertible("Q", r.dim))
    out = c.call(lie.reduce, r)
    c.same_sequence("irreps", out.irreps, irreps)
    c.ensure("Q", (out.Q is None) == (r.Q is None))
    c.equal("X", out.X, r.X)
    c.equal("H", out.H, r.H)
    c.equal("A", out.A, A)


@contract("C19", targets=["lie_nn._src.reduce.reduce"])
def reduce_mulirrep(c):
    from lie_nn._src.reduced_rep import MulIrrep, ReducedRep

    n, m = c.int("n", 0), c.int("m", 0)
    A = c.algebra("A", n)
    c.override(util.direct_sum, c.block_diag_args)
    x = MulIrrep(c.int("mul", 1), c.anyrep("", A, m, dlo=1))
    out = c.call(lie.reduce, x)
    c.ensure("class", isinstance(out, ReducedRep))
    c.equal("X", out.X, x.X)
    c.equal("H", out.H, x.H)
    c.equal("A", out.A, A)
    c.ensure("one term", len(out.irreps) == 1 and out.irreps[0].mul == x.mul and out.irreps[0].rep is x.rep)
