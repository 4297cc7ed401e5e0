"""C16: checkers and inference. A comparison (numpy.allclose) is true exactly for equal arrays (its tolerance is taken to be exact)."""
import contextlib
import io

import numpy as np

import lie_nn as lie
from lie_nn._src import util
from vlib.sym.contract import contract

U = "lie_nn._src.util."
TOL = "numpy.allclose holds exactly for equal arrays"


def bracket(A, X):
    """[X_i, X_j] - A_ijk X_k"""
    return np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X) - np.einsum("ijk,kab->ijab", A, X)


def maybe_wrong(c, A, X):
    """concretely: sometimes one component is wrong"""
    A, X = A.copy(), X.copy()
    k = c.choose("wrong component", ["A", "X", "", ""])
    if k == "A" and A.size:
        A[tuple(c.rng.integers(0, s) for s in A.shape)] += 0.5
    if k == "X" and X.size:
        X[tuple(c.rng.integers(0, s) for s in X.shape)] += 0.5
    return A, X


class NoPaths(lie.TabulatedIrrep):
    """an irrep with the generators of a representation, whose coefficients are those of different irreps"""

    def __init__(self, rep):
        object.__setattr__(self, "rep", rep)

    dim = property(lambda s: s.rep.dim)
    algebra = lambda s: s.rep.A
    continuous_generators = lambda s: s.rep.X
    discrete_generators = lambda s: s.rep.H
    clebsch_gordan = lambda s, a, b, x: np.zeros((0, a.dim, b.dim, x.dim))


class WithPaths(NoPaths):
    """an irrep with given coefficients"""

    def __init__(self, rep, cg):
        object.__setattr__(self, "rep", rep)
        object.__setattr__(self, "cg", cg)

    clebsch_gordan = lambda s, a, b, x: s.cg


def within_tolerance(c, tol):
    if c.symbolic and tol:
        for t in c.tolerances():
            c.ensure("compared with the requested tolerances", t == (tol["rtol"], tol["atol"]))


def tolerance_is_used(c, A, X, check):
    """a small error of the generators is accepted with a large tolerance, and rejected with a small one"""
    A, X = np.asarray(A), np.asarray(X)
    if not np.allclose(bracket(A, X), 0, atol=1e-11) or X.size == 0:
        return
    Y = X * (1 + 1e-6)
    err = np.abs(bracket(A, Y)).max()
    if err < 1e-7:
        return

    def ok(**t):
        try:
            r = check(A, Y, **t)
        except AssertionError:
            return False
        return r is None or bool(r)

    c.ensure("accepted within the requested tolerance", ok(atol=10 * err, rtol=1e-12))
    c.ensure("accepted within the requested relative tolerance", ok(atol=1e-9, rtol=1e-1))
    c.ensure("rejected outside the requested tolerance", not ok(atol=1e-10, rtol=1e-10))


@contract("C16", targets=[U + "check_algebra_vs_generators"], assumes=[TOL], samples=12)
def check_algebra(c):
    """the result (or the absence of an exception) is the outcome of the comparison of [X_i, X_j] with A_ijk X_k"""
    n, d = c.int("n", 0), c.int("d", 0)
    raising = c.choose("assert_", [True, False])
    if c.symbolic:
        A, X = c.tensor("A", n, n, n), c.tensor("X", n, d, d)
    else:
        A = c.algebra("A")
        A, X = maybe_wrong(c, A, c.rep("r", A).X)
    tol = {} if c.choose("tolerances", ["default", "given"]) == "default" else dict(rtol=2e-9, atol=3e-9)
    try:
        r = c.call(util.check_algebra_vs_generators, A, X, assert_=raising, **tol)
    except AssertionError:
        c.ensure("an exception only with assert_", raising)
        r = None
    within_tolerance(c, tol)
    if not c.symbolic:
        tolerance_is_used(c, A, X, lambda A, X, **t: util.check_algebra_vs_generators(A, X, assert_=True, **t))
        good = np.allclose(bracket(A, X), 0, atol=1e-9)
        c.ensure("accepted exactly when the brackets hold", bool(r) == good)
        c.ensure("raises exactly when they do not", (r is None) == (raising and not good))
        return
    seen = c.comparisons()
    c.ensure("something is compared", len(seen) > 0)
    for diff, outcome in seen:
        c.equal("the brackets are compared", diff, bracket(A, X))
    if r is None:
        c.ensure("rejected", not seen[0][1])
    else:
        for diff, outcome in seen:
            c.ensure("the result is that of the comparison", r == outcome)
        if raising:
            c.ensure("accepted", r)


@contract("C16", targets=["lie_nn._src.rep.Rep.check_algebra_vs_generators"], assumes=[TOL], samples=12)
def check_algebra_method(c):
    """raises exactly when the brackets do not hold"""
    n, d = c.int("n", 0), c.int("d", 0)
    if c.symbolic:
        A, X = c.tensor("A", n, n, n), c.tensor("X", n, d, d)
    else:
        A = c.algebra("A")
        A, X = maybe_wrong(c, A, c.rep("r", A).X)
    r = c.obj(lie.GenericRep, _A=A, _X=X, _H=c.tensor("H", 0, d, d))
    ok = True
    tol = {} if c.choose("tolerances", ["default", "given"]) == "default" else dict(rtol=2e-9, atol=3e-9)
    try:
        c.call(lie.GenericRep.check_algebra_vs_generators, r, **tol)
    except AssertionError:
        ok = False
    within_tolerance(c, tol)
    if not c.symbolic:
        tolerance_is_used(c, A, X, lambda A, X, **t: lie.GenericRep(A, X, r.H).check_algebra_vs_generators(**t))
        c.ensure("accepted exactly when the brackets hold", ok == np.allclose(bracket(A, X), 0, atol=1e-9))
        return
    seen = c.comparisons()
    c.ensure("something is compared", len(seen) > 0)
    for diff, outcome in seen:
        c.equal("the brackets are compared", diff, bracket(A, X))
        c.ensure("the verdict is that of the comparison", ok == outcome)


@contract("C16", targets=[U + "infer_algebra_from_generators"], assumes=[TOL], samples=12)
def infer_algebra(c):
    """independent X: the result is the A with [X_i, X_j] = A_ijk X_k if there is one; it is None only if the brackets of the
    coefficients of [X_i, X_j] on X do not hold (i.e. if there is none)"""
    n, d = c.int("n", 1), c.int("d", 1)
    closes = c.choose("closes", [True, False])
    if c.symbolic:
        X = c.tensor("X", n, d, d, real=c.choose("dtype", [True, False]))
    else:
        A0 = c.algebra("A")
        X = c.rep("r", A0).X
        if not closes:
            X = X + c.rng.normal(size=X.shape)
        n, d = X.shape[:2]
        if n * d == 0 or np.linalg.matrix_rank(X.reshape(n, -1)) < n:
            return
        A = c.call(util.infer_algebra_from_generators, X)
        C = np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)
        sol = np.linalg.lstsq(X.reshape(n, -1).T, C.reshape(n * n, -1).T, rcond=None)[0]
        good = np.allclose(X.reshape(n, -1).T @ sol, C.reshape(n * n, -1).T, atol=1e-8) and np.allclose(sol.imag, 0, atol=1e-9)
        c.ensure("found exactly when the brackets close", (A is not None) == good)
        if A is not None:
            c.zero("the brackets", bracket(A, X))
        return
    F = X.reshape((n, d * d))
    A0 = c.tensor("A", n, n, n, real=True)
    if closes:
        c.bracket_rule("X", A0, X, n, d)
        M = A0 + np.swapaxes(A0, 0, 1)
        c.zero("(A + A') X = 0", np.einsum("ijk,kp->ijp", M, F))
    P = c.right_inverse("P", F)
    if closes:
        c.drop("A·X antisymmetric", "A·X diagonal")
        c.equal("(A + A') X P = A + A'", np.einsum("ijk,kp,pl->ijl", M, F, P), M)
        c.antisymmetric("A = -A'", A0)
    R = c.call(util.infer_algebra_from_generators, X)
    seen = c.comparisons()
    c.ensure("something is compared", len(seen) > 0)
    if closes:
        c.ensure("accepted", R is not None)
        c.equal("the structure constants are found", R, A0)
        return
    C = np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)
    B = np.einsum("ijac,acl->ijl", C, P.reshape((d, d, n)))
    if X.dtype != np.float64:
        B = np.real(B)
    for diff, outcome in seen:
        c.equal("the brackets of the coefficients of [X_i, X_j] are compared", diff, bracket(B, X))
        c.ensure("the verdict is that of the comparison", (R is not None) == outcome)
    if R is not None:
        c.equal("the coefficients are returned", R, B)


@contract("C16", targets=[U + "infer_algebra_from_generators"], assumes=[TOL], samples=12)
def infer_algebra_rounded(c):
    """whatever round_fn does: it is applied to the coefficients of [X_i, X_j] on X, and what it returns is what is verified and returned"""
    n, d = c.int("n", 1), c.int("d", 1)
    if not c.symbolic:
        A0 = c.algebra("A")
        X = c.rep("r", A0).X
        n, d = X.shape[:2]
        if n * d == 0 or np.linalg.matrix_rank(X.reshape(n, -1)) < n:
            return
        e = c.choose("the rounding adds", [0.0, 0.3])
        R = c.call(util.infer_algebra_from_generators, X, round_fn=lambda a: a + e)
        good = e == 0.0
        c.ensure("found exactly when the rounded coefficients hold", (R is not None) == good)
        return
    X = c.tensor("X", n, d, d, real=c.choose("dtype", [True, False]))
    T = c.tensor("T", n, n, n, real=True)
    P = c.right_inverse("P", X.reshape((n, d * d)))
    st = {}

    def rounded(a):
        st["a"] = a
        return T

    R = c.call(util.infer_algebra_from_generators, X, round_fn=rounded)
    C = np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)
    B = np.einsum("ijac,acl->ijl", C, P.reshape((d, d, n)))
    if X.dtype != np.float64:
        B = np.real(B)
    c.equal("the coefficients are rounded", st["a"], B)
    seen = c.comparisons()
    c.ensure("something is compared", len(seen) > 0)
    for diff, outcome in seen:
        c.equal("the brackets of the rounded coefficients are compared", diff, bracket(T, X))
        c.ensure("the verdict is that of the comparison", (R is not None) == outcome)
    if R is not None:
        c.equal("the rounded coefficients are returned", R, T)


@contract("C16", targets=["lie_nn._src.properties.is_unitary"], assumes=[TOL], samples=12)
def is_unitary(c):
    """true exactly when X + X^dagger = 0 and H H^dagger = 1"""
    A = c.algebra("A")
    m = c.int("m", 0)
    r = c.rep("r", A, m)
    if not c.symbolic and r.dim:
        unit = c.choose("unitary", [0, 1, 2, 3])
        X, H = r.X, r.H
        if unit & 1:
            X = X - np.conj(np.swapaxes(X, 1, 2))
        if unit & 2:
            H = np.linalg.qr(H)[0]
        w = c.choose("one wrong component of", ["", "", "X", "H", "hermitian part"])
        e = complex(c.rng.choice([1, -1, 1j, -1j])) * 10.0 ** -int(c.rng.integers(0, 5))
        Y = dict(X=X, H=H).get(w[:1], X) + 0j
        if w and Y.size:
            g, i, j = (int(c.rng.integers(0, k)) for k in Y.shape)
            Y[g, i, j] += e
            if w == "hermitian part" and i != j:
                Y[g, j, i] += np.conj(e)
        X, H = (X, Y) if w == "H" else (Y, H)
        r = lie.GenericRep(A, X, H)
    res = c.call(lie.is_unitary, r)
    X, H = r.X, r.H
    dX = X + np.conj(np.swapaxes(X, 1, 2))
    dH = np.einsum("gij,gkj->gik", H, np.conj(H)) - np.eye(r.dim)[None]
    if not c.symbolic:
        c.ensure("exactly for unitary representations", bool(res) == bool(np.allclose(dX, 0) and np.allclose(dH, 0)))
        return
    both(c, res, [dX, dH])


def both(c, res, conditions):
    """the result is true exactly when all the arrays are 0: they are the only ones compared with 0; the result is false as soon as
    one of them is not 0 (comparisons that are not made do not matter then), true if all are"""
    ok = True
    made = []
    for diff, outcome in c.comparisons():
        k = [i for i, t in enumerate(conditions) if c.is_same(diff, t)]
        c.ensure("only the defining equations are compared", len(k) == 1)
        made = made + k
        ok = ok and outcome
    c.ensure("the verdict is the conjunction", res == ok)
    for i in range(len(conditions)):
        c.ensure("all the equations are compared, unless one does not hold", i in made or not ok)


@contract("C16", targets=["lie_nn._src.rep.Rep.is_trivial"], samples=12)
def is_trivial(c):
    """true exactly when the dimension is 1, X = 0 and H = 1"""
    A = c.algebra("A")
    m = c.int("m", 0)
    r = c.rep("r", A, m, dlo=1)
    if not c.symbolic:
        k = c.choose("kind", ["any", "trivial", "sign", "X", "zeros"])
        if k != "any":
            n = A.shape[0]
            d = 2 if k == "zeros" else 1
            X, H = np.zeros((n, d, d)), np.ones((m, d, d))
            if k == "sign" and m:
                H[int(c.rng.integers(0, m))] = -1
            if k == "X" and n:
                X[int(c.rng.integers(0, n))] = 0.5
            r = lie.GenericRep(A, X, H)
    res = c.call(lie.GenericRep.is_trivial, r)
    c.ensure("exactly for the trivial representation", bool(res) == bool(r.dim == 1 and np.all(r.X == 0) and np.all(r.H == 1)))


@contract("C16", targets=["lie_nn._src.is_irreducible.is_irreducible", U + "is_irreducible"], assumes=["the contract of infer_change_of_basis (proved: intertwiners)"], samples=12)
def is_irreducible(c):
    """true exactly when the space of the matrices that commute with all the generators, continuous and discrete, has dimension 1"""
    A = c.algebra("A")
    n, m = A.shape[0], c.int("m", 0)
    r = c.rep("r", A, m, dlo=1)
    if not c.symbolic:
        if r.X.shape[0] + m == 0:
            return
        if c.choose("irreducible", [True, False]) and n >= 3:
            r = lie.GenericRep(A, r.X[:, : r.dim], np.random.default_rng(0).normal(size=(m, r.dim, r.dim)))
        G = np.concatenate([r.X, r.H])
        K = np.concatenate([np.kron(g, np.eye(r.dim)) - np.kron(np.eye(r.dim), g.T) for g in G])
        ok = r.dim**2 - np.linalg.matrix_rank(K, tol=1e-5) == 1
        c.ensure("exactly when only scalars commute", bool(c.call(lie.is_irreducible, r)) == ok)
        return
    st = {}

    def model(X1, X2, *a, **k):
        st["args"], st["r"] = (np.copy(X1), np.copy(X2)), c.int("dimension", 0)
        return c.tensor("S", st["r"], X1.shape[1], X2.shape[1])

    c.override(util.infer_change_of_basis, model)
    res = c.call(lie.is_irreducible, r)
    for x in st["args"]:
        c.shape("all the generators", x, n + m, r.dim, r.dim)
        c.equal("the continuous generators", x[:n], r.X)
        c.equal("the discrete generators", x[n:], r.H)
    c.ensure("exactly when the dimension is 1", bool(res) == bool(st["r"] == 1))


@contract("C16", targets=["lie_nn._src.rep.check_representation_triplet"], assumes=[TOL], samples=12)
def triplet(c):
    """silent exactly when the algebras agree, the three are representations, and sum_k C_zijk X3_lk = X1 and X2 on the other indices"""
    if not c.symbolic:
        return concrete_triplet(c)
    A = [c.algebra("A")]
    n = A[0].shape[0]
    A += [c.tensor("A2", n, n, n), c.tensor("A3", n, n, n)]
    ds = [c.int("d" + str(i), 1) for i in range(3)]
    X = [c.tensor("X" + str(i), n, d, d) for i, d in enumerate(ds)]
    reps = [c.obj(lie.GenericRep, _A=a, _X=x, _H=c.tensor("H", 0, d, d)) for a, x, d in zip(A, X, ds)]
    C = c.tensor("C", c.int("paths", 0), *ds)
    st = {}
    left = np.einsum("zijk,glk->zgijl", C, X[2])
    right = np.einsum("gai,zajl->zgijl", X[0], C) + np.einsum("gbj,zibl->zgijl", X[1], C)

    def solutions(k):
        st["z"] = k
        return {}

    def generators(k):
        st["g"] = k
        return {}

    def compared():
        diff, outcome = c.comparisons()[-1]
        c.equal("the equivariance of this path under this generator is compared", diff, (left - right)[st["z"], st["g"]])
        return outcome

    def check(k, v):
        c.ensure("accepted only if it holds", compared())

    def all_generators(k, v):
        if "g" in st:
            c.ensure("all the generators are visited", st["g"] == n)

    nothing = lambda *a: None
    f = lie.check_representation_triplet
    c.override_impl(lie.clebsch_gordan, (lie.Rep, lie.Rep, lie.Rep), lambda *a, **k: C)
    c.forloop(f, "paths", [], solutions, all_generators, nothing)
    c.forloop(f, "generators", [], generators, check, nothing)
    ok = True
    tol = dict(rtol=2e-9, atol=3e-9)
    try:
        c.call(f, *reps, **tol)
    except AssertionError:
        ok = False
    within_tolerance(c, tol)
    defining = [A[0] - A[1], A[0] - A[2]] + [bracket(a, x) for a, x in zip(A, X)]
    seen = c.comparisons()
    if not ok and "g" in st:
        c.ensure("rejected if the coefficients do not intertwine", not compared())
        return
    if ok and "z" in st:
        c.ensure("all the paths are visited", st["z"] == C.shape[0])
    made, all_ = [], True
    for diff, outcome in seen:
        k = [i for i, t in enumerate(defining) if c.is_same(diff, t)]
        c.ensure("only the defining equations are compared", len(k) >= 1)
        made = made + k
        all_ = all_ and outcome
    c.ensure("the verdict is the conjunction", ok == all_)
    for i in range(len(defining)):
        c.ensure("all the equations are compared, unless one does not hold", i in made or not ok)


def quiet(c, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return c.call(lie.check_representation_triplet, *a, **k)


def concrete_triplet(c):
    A = c.algebra("A")
    if A.shape[0] == 0:
        return
    a, b = c.rep("1", A, 0, dlo=1), c.rep("2", A, 0, dlo=1)
    r = lie.tensor_product(a, b)
    reps = [a, b, lie.GenericRep(A, r.X, r.H)]
    for k in range(3):
        def check(A_, X, **t):
            q = [NoPaths(x) for x in reps[:k] + [lie.GenericRep(A_, X, reps[k].H)] + reps[k + 1 :]]
            lie.check_representation_triplet(*q, **t)

        tolerance_is_used(c, A, reps[k].X, check)
    C = lie.clebsch_gordan(*reps)
    if len(C) > 0 and c.choose("coefficients", ["right", "wrong"]) == "wrong":
        # the equivariance fails on some paths, or under some generators only
        bad = C.copy()
        k = int(c.rng.integers(0, len(C)))
        bad[k] += c.rng.normal(size=C[k].shape)
        err = np.einsum("zijk,glk->zgijl", bad, reps[2].X) - np.einsum("gai,zajl->zgijl", a.X, bad) - np.einsum("gbj,zibl->zgijl", b.X, bad)
        try:
            quiet(c, *[WithPaths(x, bad) for x in reps], rtol=1e-7, atol=1e-7)
            ok = True
        except AssertionError:
            ok = False
        c.ensure("silent exactly for equivariant coefficients", ok == np.allclose(err, 0, atol=1e-7))
    x = c.rng.normal(size=len(A)) * (c.rng.uniform(size=len(A)) < 0.5)
    line = [lie.GenericRep(np.zeros_like(A), t[:, None, None], np.zeros((0, 1, 1))) for t in (0 * x, 0 * x, x)]
    try:
        quiet(c, *[WithPaths(q, np.ones((1, 1, 1, 1))) for q in line], rtol=1e-7, atol=1e-7)
        ok = True
    except AssertionError:
        ok = False
    c.ensure("silent exactly for equal characters", ok == np.allclose(x, 0, atol=1e-7))
    k, w = int(c.rng.integers(0, 3)), c.choose("what is wrong", ["A", "X", ""])
    A_, X = maybe_wrong(c, reps[k].A, reps[k].X) if w else (reps[k].A, reps[k].X)
    reps[k] = lie.GenericRep(A_, X, reps[k].H)
    good = all(np.allclose(bracket(x.A, x.X), 0, atol=1e-8) for x in reps) and np.allclose(A_, A)
    try:
        quiet(c, *reps, rtol=1e-7, atol=1e-7)
        ok = True
    except AssertionError:
        ok = False
    c.ensure("silent exactly for representations of one algebra", ok == good)
