"""C05-C09, C16, C19, C24: representations given by arrays, sums, products, maps."""
import itertools
import numpy as np
import lie_nn as lie
from vlib.harness import group
from ._kit import *


@group("C07", [dict(e=e) for e in (3e-2, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6)])
def almost(K, rng, e):
    """changes of basis that are almost the identity, or almost real"""
    Z, S = lie.irreps.Z2, lie.irreps.SO3
    for irreps, other in (([Z(1), Z(-1)], [Z(1)]), ([Z(1), MulIrrep(2, Z(-1))], [Z(-1)]), ([S(0), S(0)], [S(1)]), ([S(1), S(0)], [S(0)]), ([S(1), S(0)], [S(1)])):
        d = ReducedRep.from_irreps(irreps).dim
        for R in (rng.normal(size=(d, d)), 1j * rng.normal(size=(d, d))):
            for Q in (np.eye(d) + e * R, np.linalg.qr(rng.normal(size=(d, d)))[0] + e * R):
                a, b = ReducedRep.from_irreps(irreps, Q), ReducedRep.from_irreps(other)
                same_rep(K, lie.tensor_product(a, b), tp_ref(a, b), "almost the identity, or real", 1e-9)
                same_rep(K, lie.tensor_product(b, a), tp_ref(b, a), "almost the identity, or real (second)", 1e-9)
                same_rep(K, lie.direct_sum(a, a), lie.direct_sum(GenericRep.from_rep(a), GenericRep.from_rep(a)), "direct_sum, almost the identity, or real", 1e-9)


@group("C05", [dict(kind=k, i=i) for k in KINDS + ["complexA"] for i in range(4)])
def constructions(K, rng, kind, i):
    a, b = generic_rep(rng, kind), generic_rep(rng, kind)
    if kind == "complexA":
        b = GenericRep(a.A, a.X.conj() * 0, a.H)  # same algebra, zero generators
        b = GenericRep(a.A, np.zeros((3, 2, 2), complex), np.zeros((0, 2, 2)))
    d1, d2, n, h = a.dim, b.dim, len(a.X), len(a.H)
    s = lie.direct_sum(a, b)
    K.close(s.X, np.array([blockdiag([x, y]) for x, y in zip(a.X, b.X)]).reshape(n, d1 + d2, d1 + d2), "direct_sum X")
    K.close(s.H, np.array([blockdiag([x, y]) for x, y in zip(a.H, b.H)]).reshape(h, d1 + d2, d1 + d2), "direct_sum H")
    K.close(s.A, a.A, "direct_sum A")
    K.check(s.dim == d1 + d2 and s.lie_dim == n, "direct_sum dim")
    t = lie.tensor_product(a, b)
    same_rep(K, t, tp_ref(a, b), "tensor_product", 1e-9)
    K.check(t.dim == d1 * d2, "tensor_product dim")
    c = lie.conjugate(a)
    K.close(c.X, np.conj(a.X), "conjugate X")
    K.close(c.H, np.conj(a.H), "conjugate H")
    K.close(c.A, a.A, "conjugate A")
    for cplx in (False, True):
        Q = rmat(rng, d1, cplx)
        iQ = np.linalg.inv(Q)
        r = lie.change_basis(a, Q)
        K.close(r.X, np.einsum("ij,ajk,kl->ail", Q, a.X, iQ), "change_basis X", 1e-8)
        K.close(r.H, np.einsum("ij,ajk,kl->ail", Q, a.H, iQ), "change_basis H", 1e-8)
        K.close(r.A, a.A, "change_basis A")
        if kind != "complexA":
            is_rep(K, r, "change_basis")
        if n:
            P = rmat(rng, n, cplx)
            iP = np.linalg.inv(P)
            r = lie.change_algebra(a, P)
            K.close(r.A, np.einsum("ia,jb,abc,ck->ijk", P, P, a.A, iP), "change_algebra A", 1e-8)
            K.close(r.X, np.einsum("ia,auv->iuv", P, a.X), "change_algebra X", 1e-8)
            K.close(r.H, a.H, "change_algebra H")
            is_rep(K, r, "change_algebra")
    if n:  # axes of different scales
        for scale in (1e2, 1e4):
            P = rmat(rng, n)
            P[0] *= scale
            iP = np.linalg.inv(P)
            r = lie.change_algebra(a, P)
            K.close(r.A / scale, np.einsum("ia,jb,abc,ck->ijk", P, P, a.A, iP) / scale, "change_algebra A, scaled", 1e-6)
            K.close(r.X / scale, np.einsum("ia,auv->iuv", P, a.X) / scale, "change_algebra X, scaled", 1e-9)
        Q = rmat(rng, d1)
        Q[0] *= 1e4
        r = lie.change_basis(a, Q)
        K.close(r.X @ Q / 1e4, Q @ a.X / 1e4, "change_basis X, scaled", 1e-6)
    for r, m in ((s, "direct_sum"), (t, "tensor_product")) + (((c, "conjugate"),) if kind != "complexA" else ()):
        is_rep(K, r, m)
    # group_product
    k2 = KINDS[(KINDS.index(kind) + 1 + i) % len(KINDS)] if kind in KINDS else "o3"
    e = generic_rep(rng, k2)
    for u, v in ((a, e), (e, a)):
        g = lie.group_product(u, v)
        n1, n2, D1, D2 = len(u.X), len(v.X), u.dim, v.dim
        K.check(g.dim == D1 * D2 and g.lie_dim == n1 + n2, "group_product dim")
        K.close(g.X, np.array([np.kron(x, np.eye(D2)) for x in u.X] + [np.kron(np.eye(D1), x) for x in v.X]).reshape(-1, D1 * D2, D1 * D2), "group_product X")
        K.close(g.H, np.array([np.kron(x, np.eye(D2)) for x in u.H] + [np.kron(np.eye(D1), x) for x in v.H]).reshape(-1, D1 * D2, D1 * D2), "group_product H")
        A = np.zeros((n1 + n2,) * 3, dtype=complex)
        A[:n1, :n1, :n1] = u.A
        A[n1:, n1:, n1:] = v.A
        K.close(g.A, A, "group_product A")
        is_rep(K, g, "group_product")
        f = generic_rep(rng, KINDS[i % 4])
        same_rep(K, lie.group_product(u, v, f), lie.group_product(g, f), "three factors")


@group("C05", [dict(pool=p) for p in POOLS + ["Sn3", "Sn4"]])
def constructions_on_classes(K, rng, pool):
    """the constructions do not depend on the class of their arguments"""
    R = rep_pool(rng, pool)
    for a in R:
        ga = gen(a)
        same_rep(K, lie.conjugate(a), GenericRep(ga.A, np.conj(ga.X), np.conj(ga.H)), "conjugate", 1e-9)
        Q = rmat(rng, a.dim, True)
        same_rep(K, lie.change_basis(a, Q), lie.change_basis(ga, Q), "change_basis", 1e-8)
        if a.lie_dim:
            P = rmat(rng, a.lie_dim)
            same_rep(K, lie.change_algebra(a, P), lie.change_algebra(ga, P), "change_algebra", 1e-9)
        tr = a.create_trivial()
        K.check(tr.is_trivial() and len(tr.H) == len(ga.H) and tr.lie_dim == a.lie_dim, "create_trivial")
        for b in R:
            if a.dim * b.dim <= 60:
                same_rep(K, lie.direct_sum(a, b), lie.direct_sum(ga, gen(b)), "direct_sum", 1e-9)
    for a, b in itertools.product(R[:3], repeat=2):
        same_rep(K, lie.group_product(a, gen(b)), lie.group_product(gen(a), b), "group_product", 1e-9)


@group("C05", [dict()])
def mismatched_algebras(K, rng):
    a = SU2(1)
    b = lie.change_algebra(SU2(1), np.diag([1.0, 2.0, 1.0]))
    for f in (lie.direct_sum, lie.tensor_product):
        K.raises(AssertionError, lambda: f(gen(a), b), "different algebras")
        K.raises(AssertionError, lambda: f(b, a), "different algebras")
    c = GenericRep(a.A, a.X, np.eye(2)[None])
    for f in (lie.direct_sum, lie.tensor_product):
        K.raises(AssertionError, lambda: f(gen(a), c), "different numbers of discrete generators")


@group("C05", [dict()])
def generic_trivial(K, rng):
    for kind in KINDS:
        a = generic_rep(rng, kind)
        t = a.create_trivial()
        K.check(t.dim == 1 and t.is_trivial(), "create_trivial")
        K.close(t.A, a.A, "A")
        K.close(t.H, np.ones((len(a.H), 1, 1)), "H")
        K.close(t.X, np.zeros((len(a.X), 1, 1)), "X")


# ---------------------------------------------------------------- C06
@group("C06", [dict(pool=p, i=i) for p in POOLS + ["Sn3", "Sn4"] for i in range(3)])
def reduced(K, rng, pool, i):
    if pool.startswith("Sn"):
        n = int(pool[-1])
        irs = [Sn_standard(n), Sn_trivial(n), Sn_natural(n)]
    else:
        irs = [mk(pool, l) for l in labels(pool, 4)]
    for r in irs:
        for m in (0, 1, 2, 3):
            M = MulIrrep(m, r)
            K.check(M.dim == m * r.dim and M.lie_dim == r.lie_dim, "MulIrrep dim")
            K.close(M.X, ref_mul(np.asarray(r.X), m), "MulIrrep X", 1e-10)
            K.close(M.H, ref_mul(np.asarray(r.H), m), "MulIrrep H", 1e-10)
            K.close(M.A, r.A, "MulIrrep A")
    for cplx in (None, False, True):
        terms = []
        for _ in range(int(rng.integers(1, 5))):
            terms.append((int(rng.integers(0, 3)), irs[int(rng.integers(0, len(irs)))]))
        if i == 2:
            terms.append((0, irs[-1]))
            terms.append((2, irs[0]))
        D = sum(m * r.dim for m, r in terms)
        if D > 40:
            continue
        Q = None if cplx is None else rmat(rng, D, cplx)
        if D == 0:
            continue
        spec = []
        for m, r in terms:
            k = rng.integers(0, 3)
            spec.append(r if (m == 1 and k == 0) else (m, r) if k == 1 else MulIrrep(m, r))
        R = ReducedRep.from_irreps(spec, Q)
        K.check([(x.mul, x.rep) for x in R.irreps] == terms, "from_irreps keeps order and multiplicities", R)
        K.check(R.dim == D and R.lie_dim == irs[0].lie_dim, "dim")
        X, H = ref_reduced(terms, Q, "X"), ref_reduced(terms, Q, "H")
        K.close(R.X, X, "ReducedRep X", 1e-8)
        K.close(R.H, H, "ReducedRep H", 1e-8)
        K.close(R.A, irs[0].A, "ReducedRep A")
        is_rep(K, R, "ReducedRep")
        for c2 in (False, True):
            P = rmat(rng, D, c2)
            iP = np.linalg.inv(P)
            S = lie.change_basis(R, P)
            K.check(isinstance(S, ReducedRep) and [(x.mul, x.rep) for x in S.irreps] == terms, "change_basis keeps irreps")
            K.close(S.X, np.einsum("ij,ajk,kl->ail", P, X, iP), "change_basis X", 1e-7)
            K.close(S.H, np.einsum("ij,ajk,kl->ail", P, H, iP), "change_basis H", 1e-7)
            P2 = rmat(rng, D, not c2)
            S2 = lie.change_basis(S, P2)
            same_rep(K, S2, lie.change_basis(gen(R), P2 @ P), "two changes of basis", 1e-6)
    r = irs[0] if irs[0].dim > 1 else irs[1 % len(irs)]
    if isinstance(r, lie.TabulatedIrrep):
        P = rmat(rng, r.dim, True)
        same_rep(K, lie.change_basis(r, P), lie.change_basis(gen(r), P), "change_basis of an irrep", 1e-8)
    M = MulIrrep(2, r)
    P = rmat(rng, M.dim, True)
    same_rep(K, lie.change_basis(M, P), lie.change_basis(gen(M), P), "change_basis of a MulIrrep", 1e-8)


@group("C06", [dict()])
def reduced_reject(K, rng):
    K.raises(Exception, lambda: ReducedRep.from_irreps([SU2(1), SL2C(1, 0)]), "different algebras")
    K.raises(Exception, lambda: ReducedRep.from_irreps([SU2(0), gen(lie.change_algebra(SU2(1), 2 * np.eye(3)))]), "different algebras")
    K.raises(Exception, lambda: ReducedRep.from_irreps([SU2(0), SU2(1), gen(lie.change_algebra(SU2(1), 2 * np.eye(3)))]), "different algebras")
    K.raises(Exception, lambda: ReducedRep.from_irreps([(-1, SU2(1))]), "negative multiplicity")
    K.raises(Exception, lambda: ReducedRep.from_irreps([SU2(0), (2, SU2(1)), (-2, SU2(1))]), "negative multiplicity")
    K.raises(Exception, lambda: ReducedRep.from_irreps([SU2(1)], np.eye(3)), "wrong shape of Q")
    K.raises(Exception, lambda: ReducedRep.from_irreps([(2, SU2(1)), SU2(0)], np.zeros((5, 4))), "wrong shape of Q")
    K.raises(Exception, lambda: ReducedRep.from_irreps([(2, SU2(1)), SU2(0)], np.zeros((4, 5))), "wrong shape of Q")


# ---------------------------------------------------------------- C07
@group("C07", [dict(pool=p, i=i) for p in POOLS for i in range(7)])
def products(K, rng, pool, i):
    R = rep_pool(rng, pool)
    a = R[i % len(R)]
    for b in R:
        if a.dim * b.dim > (48 if pool in ("SU3", "SO13") else 80):
            continue
        t = lie.tensor_product(a, b)
        same_rep(K, t, tp_ref(gen(a), gen(b)), f"tensor_product({type(a).__name__}, {type(b).__name__})", 1e-8)
        K.check(t.lie_dim == a.lie_dim, "lie_dim")


@group("C07", [dict(pool=p) for p in ("SU2", "SO3", "O3", "SL2C", "Z2", "SU3")])
def products_mul(K, rng, pool):
    """multiplicities, all-to-all; zero multiplicity"""
    irs = [mk(pool, l) for l in labels(pool, 3)]
    for _ in range(6):
        def rr():
            t = [(int(rng.integers(0, 4)), irs[int(rng.integers(0, len(irs)))]) for _ in range(int(rng.integers(1, 4)))]
            return t
        t1, t2 = rr(), rr()
        d1, d2 = sum(m * r.dim for m, r in t1), sum(m * r.dim for m, r in t2)
        if d1 * d2 == 0 or d1 * d2 > 90:
            continue
        q1 = rmat(rng, d1, rng.random() < 0.5) if rng.random() < 0.6 else None
        q2 = rmat(rng, d2, rng.random() < 0.5) if rng.random() < 0.6 else None
        a, b = ReducedRep.from_irreps(t1, q1), ReducedRep.from_irreps(t2, q2)
        same_rep(K, lie.tensor_product(a, b), tp_ref(gen(a), gen(b)), "reduced x reduced", 1e-7)
        m1, m2 = MulIrrep(3, irs[-1]), MulIrrep(2, irs[1])
        if m1.dim * m2.dim <= 100:
            same_rep(K, lie.tensor_product(m1, m2), tp_ref(gen(m1), gen(m2)), "mul x mul", 1e-8)
        for u, v in ((m2, irs[-1]), (irs[-1], m2), (a, m2), (m2, a), (a, irs[1]), (irs[1], a)):
            if u.dim * v.dim <= 100:
                same_rep(K, lie.tensor_product(u, v), tp_ref(gen(u), gen(v)), f"{type(u).__name__} x {type(v).__name__}", 1e-7)


@group("C07", [dict(pool=p, i=i) for p in POOLS for i in range(7)])
def powers(K, rng, pool, i):
    R = rep_pool(rng, pool)
    a = R[i % len(R)]
    g = gen(a)
    ref = GenericRep(g.A, np.zeros((len(g.X), 1, 1)), np.ones((len(g.H), 1, 1)))
    for n in range(0, 7):
        if ref.dim > (30 if pool in ("SU3", "SO13", "SL2C") else 90):
            break
        t = lie.tensor_power(a, n)
        same_rep(K, t, ref, f"tensor_power(., {n}) of {a}", 1e-7)
        ref = tp_ref(ref, g)


@group("C07", [dict(n=n) for n in range(0, 14)])
def powers_small(K, rng, n):
    """high powers of one- and two-dimensional representations"""
    for r in (Z2(-1), O3(0, -1), MulIrrep(1, Z2(-1)), GenericRep(np.zeros((2, 2, 2)), rng.normal(size=(2, 1, 1)), np.array([[[2.0]]]))):
        g = gen(r)
        t = lie.tensor_power(r, n)
        K.close(t.X, n * g.X, "X of the power", 1e-9)
        K.close(t.H, g.H**n, "H of the power", 1e-9)


# ---------------------------------------------------------------- C08
@group("C08", [dict(kind=k, i=i) for k in KINDS for i in range(4)])
def exp_generic(K, rng, kind, i):
    r = generic_rep(rng, kind)
    n, h = len(r.X), len(r.H)
    if h:  # non commuting discrete generators
        q = rmat(rng, r.dim, True)
        H = np.stack([rmat(rng, r.dim) for _ in range(h)])
        r = GenericRep(r.A, r.X, H)
    for _ in range(6):
        t = rng.normal(size=n)
        k = rng.integers(-4, 6, size=h)
        ref = np.eye(r.dim)
        for m, e in zip(r.H, k):
            ref = ref @ np.linalg.matrix_power(m, int(e))
        ref = ref @ scipy.linalg.expm(np.einsum("a,aij->ij", t, r.X))
        K.close(r.exp_map(t, k), ref, "exp_map", 1e-7)
    z = np.zeros(h, dtype=int)
    K.close(r.exp_map(np.zeros(n), z), np.eye(r.dim), "identity")
    t = rng.normal(size=n) * 0.5
    K.close(r.exp_map(0.3 * t, z) @ r.exp_map(0.6 * t, z), r.exp_map(0.9 * t, z), "one-parameter group", 1e-7)


@group("C08", [dict(pool=p) for p in POOLS + ["Sn3", "Sn4"]])
def exp_classes(K, rng, pool):
    R = rep_pool(rng, pool)
    for a in R:
        n, h = a.lie_dim, len(a.H)
        t, k = rng.normal(size=n), rng.integers(-3, 5, size=h)
        ga = a.exp_map(t, k)
        K.check(ga.shape == (a.dim, a.dim), "shape")
        ref = np.eye(a.dim)
        for m, e in zip(a.H, k):
            ref = ref @ np.linalg.matrix_power(m, int(e))
        ref = ref @ (scipy.linalg.expm(np.einsum("a,aij->ij", t, a.X)) if n else np.eye(a.dim))
        K.close(ga, ref, "exp_map", 1e-7)
        if pool in ("SU2", "SO3", "O3", "SU3", "SU2_") and isinstance(a, lie.TabulatedIrrep):
            K.close(ga @ np.conj(ga.T), np.eye(a.dim), "unitary", 1e-8)
        Q = rmat(rng, a.dim, True)
        K.close(lie.change_basis(a, Q).exp_map(t, k), Q @ ga @ np.linalg.inv(Q), "change of basis", 1e-6)
        for b in R[:4]:
            gb = b.exp_map(t, k)
            K.close(lie.direct_sum(a, b).exp_map(t, k), blockdiag([ga, gb]), "direct sum", 1e-6)
            if a.dim * b.dim <= 40:
                K.close(lie.tensor_product(a, b).exp_map(t, k), np.kron(ga, gb), "tensor product", 1e-6)


# ---------------------------------------------------------------- C09
def check_intertwiners(K, r1, r2, S, msg, norm):
    K.check(S.ndim == 3 and S.shape[1:] == (r2.dim, r1.dim), msg + ": shape", S.shape)
    Y1 = np.concatenate([r1.X, r1.H])
    Y2 = np.concatenate([r2.X, r2.H])
    K.close(np.einsum("mij,ajk->maik", S, Y1), np.einsum("aij,mjk->maik", Y2, S), msg + ": S rho1 = rho2 S", 1e-6)
    m = commutant_dim(Y2, Y1)
    K.check(S.shape[0] == m, msg + ": incomplete or redundant", S.shape[0], m)
    G = np.einsum("mij,nij->mn", np.conj(S), S)
    K.close(G, norm * np.eye(m), msg + ": orthogonality/normalisation", 1e-6)


@group("C09", [dict(pool=p) for p in POOLS + ["Sn3", "Sn4"]])
def intertwiners(K, rng, pool):
    R = [r for r in rep_pool(rng, pool) if r.dim <= 9]
    for a in R:
        for b in R:
            S = lie.infer_change_of_basis(a, b)
            check_intertwiners(K, a, b, S, "infer_change_of_basis", b.dim)
        Q = rmat(rng, a.dim, True)
        b = lie.change_basis(gen(a), Q)
        check_intertwiners(K, a, b, lie.infer_change_of_basis(a, b), "changed basis", b.dim)
        check_intertwiners(K, b, a, lie.infer_change_of_basis(b, a), "changed basis", a.dim)


@group("C09", [dict(kind=k, i=i) for k in KINDS for i in range(3)])
def intertwiners_generic(K, rng, kind, i):
    a, b = generic_rep(rng, kind), generic_rep(rng, kind)
    s = lie.direct_sum(a, b)
    for u, v in ((a, a), (a, b), (s, a), (a, s), (s, s)):
        check_intertwiners(K, u, v, lie.infer_change_of_basis(u, v), "infer_change_of_basis", v.dim)
    K.raises(AssertionError, lambda: lie.infer_change_of_basis(SU2(1), lie.change_algebra(SU2(1), 2 * np.eye(3))), "different algebras")


@group("C09", [dict(i=i) for i in range(6)])
def util_infer(K, rng, i):
    U = lie.util
    n = int(rng.integers(1, 4))
    d1, d2 = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    e1 = [np.diag(rng.integers(-1, 2, size=d1).astype(float)) for _ in range(n)]
    e2 = [np.diag(rng.integers(-1, 2, size=d2).astype(float)) for _ in range(n)]
    q1, q2 = runi(rng, d1, i % 2 == 0), runi(rng, d2, i % 3 == 0)
    X1 = np.stack([q1 @ e @ np.conj(q1.T) for e in e1]) + 0.0
    X2 = np.stack([q2 @ e @ np.conj(q2.T) for e in e2]) + 0.0
    S = U.infer_change_of_basis(X1, X2)
    m = commutant_dim(X1, X2)
    K.check(S.shape == (m, d1, d2), "shape / completeness", S.shape, m)
    K.close(np.einsum("aij,mjk->maik", X1, S), np.einsum("mij,ajk->maik", S, X2), "X1 S = S X2", 1e-6)
    K.close(np.einsum("mij,nij->mn", np.conj(S), S), np.eye(m), "orthonormal", 1e-6)
    S1 = U.infer_change_of_basis(X1[0], X2[0])
    K.check(S1.shape[0] == commutant_dim(X1[:1], X2[:1]), "2D inputs")
    A = rng.normal(size=(2, 3, 3))
    K.check(U.infer_change_of_basis(A, A).shape[0] == commutant_dim(A, A), "commutant")
    K.check(U.infer_change_of_basis(A, rng.normal(size=(2, 3, 3))).shape[0] == 0, "inequivalent")


@group("C09", [dict(pool=p) for p in ("SU2", "SO3", "O3", "SL2C", "Z2", "SU3")])
def generic_cg(K, rng, pool):
    R = [r for r in rep_pool(rng, pool) if r.dim <= 5]
    for a, b, c in itertools.product(R, R, R[:4]):
        if a.dim * b.dim * c.dim > 60:
            continue
        C = lie.clebsch_gordan(gen(a), b, c)
        K.check(C.ndim == 4 and C.shape[1:] == (a.dim, b.dim, c.dim), "shape", C.shape)
        t = tp_ref(gen(a), gen(b))
        Y, Z = np.concatenate([t.X, t.H]), np.concatenate([c.X, c.H])
        m = commutant_dim(Z, Y)
        K.check(C.shape[0] == m, "number of paths", C.shape[0], m)
        S = np.moveaxis(C, 3, 1).reshape(m, c.dim, a.dim * b.dim)
        K.close(np.einsum("mij,ajk->maik", S, Y), np.einsum("aij,mjk->maik", Z, S), "equivariant map", 1e-6)
        K.close(np.einsum("mij,nij->mn", np.conj(S), S), c.dim * np.eye(m), "orthogonality", 1e-6)


# ---------------------------------------------------------------- C16
@group("C16", [dict(kind=k, i=i) for k in ("su2c", "o3", "abelian", "real") for i in range(4)])
def checker(K, rng, kind, i):
    U = lie.util
    r = generic_rep(rng, kind)
    A, X = np.asarray(r.A), np.asarray(r.X)
    K.check(U.check_algebra_vs_generators(A, X, 1e-8, 1e-8), "accepts a representation")
    K.check(U.check_algebra_vs_generators(A, X, 1e-8, 1e-8, assert_=True), "accepts a representation (assert_)")
    r.check_algebra_vs_generators(1e-8, 1e-8)
    n = len(X)
    for _ in range(12):
        j = tuple(rng.integers(0, n, size=3))
        B = A.copy()
        B[j] += rng.choice([0.5, -1.0, 1e-3])
        bad = GenericRep(B, X, r.H)
        truth = bracket_defect(B, X) < 1e-9
        K.check(bool(U.check_algebra_vs_generators(B, X, 1e-8, 1e-8)) == truth, "verdict on a modified A", j)
        if not truth:
            K.raises(AssertionError, lambda: U.check_algebra_vs_generators(B, X, 1e-8, 1e-8, assert_=True), "wrong A")
            K.raises(AssertionError, lambda: bad.check_algebra_vs_generators(), "wrong A (method)")
        Y = X.astype(complex).copy()
        e = tuple(rng.integers(0, s) for s in X.shape)
        Y[e] += rng.choice([0.5, 1j, 1e-3])
        truth = bracket_defect(A, Y) < 1e-9
        K.check(bool(U.check_algebra_vs_generators(A, Y, 1e-8, 1e-8)) == truth, "verdict on a modified X", e)
        if not truth:
            K.raises(AssertionError, lambda: GenericRep(A, Y, r.H).check_algebra_vs_generators(), "wrong X")


@group("C16", [dict(i=i) for i in range(6)])
def inference(K, rng, i):
    U = lie.util
    for r in (SU2(1), SU2(2), SO3(1), SL2C(1, 0), SU3((1, 0, 0)), SO13(1, 1), O3(2, 1)):
        P = rmat(rng, r.lie_dim)
        Q = rmat(rng, r.dim, i % 2 == 1)
        X = np.einsum("ij,ajk,kl->ail", Q, np.einsum("ia,auv->iuv", P, r.X), np.linalg.inv(Q))
        A = U.infer_algebra_from_generators(X, rtol=1e-8, atol=1e-8)
        K.check(A is not None, "closes", r)
        K.check(A.shape == (r.lie_dim,) * 3, "shape")
        K.check(bracket_defect(A, X) < 1e-6 * (1 + np.max(np.abs(X)) ** 2), "inferred algebra is wrong", r)
        if np.linalg.matrix_rank(X.reshape(len(X), -1), tol=1e-6) == len(X):
            K.close(A, np.einsum("ia,jb,abc,ck->ijk", P, P, r.A, np.linalg.inv(P)), "inferred algebra", 1e-6)
        Y = X[:-1]
        if bracket_closed(Y) > 1e-6:
            K.check(U.infer_algebra_from_generators(Y) is None, "does not close", r)
            K.check(GenericRep.from_generators(Y) is None, "does not close", r)
        Z = X.astype(complex).copy()
        Z[0] += 0.1 * rng.normal(size=Z[0].shape)
        if r.dim > 1 and bracket_closed(Z) > 1e-6:
            K.check(U.infer_algebra_from_generators(Z) is None, "perturbed generators do not close", r)
        g = GenericRep.from_generators(r.X, round_fn=U.round_to_sqrt_rational)
        K.check(g is not None, "from_generators")
        if np.linalg.matrix_rank(np.asarray(r.X).reshape(len(r.X), -1), tol=1e-6) == len(r.X):
            K.close(g.A, r.A, "from_generators A", 1e-7)
        K.close(g.X, r.X, "from_generators X")
        K.check(g.H.shape == (0, r.dim, r.dim), "from_generators H", g.H.shape)
        H = rng.normal(size=(2, r.dim, r.dim))
        K.close(GenericRep.from_generators(r.X, H).H, H, "from_generators H")


def bracket_closed(X):
    n = len(X)
    C = (np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)).reshape(n * n, -1)
    M = X.reshape(n, -1)
    sol = np.linalg.lstsq(M.T, C.T, rcond=None)[0]
    return float(np.max(np.abs(M.T @ sol - C.T)))


@group("C16", [dict(fam=f) for f in ("SU2", "SO3", "O3", "SL2C", "SU3", "SO13")])
def triplet(K, rng, fam):
    L = labels(fam, 3)
    chk = lie.check_representation_triplet
    for la, lb in ((L[1], L[1]), (L[1], L[2]), (L[2], L[1])):
        a, b = mk(fam, la), mk(fam, lb)
        for c in list(a * b)[:2] + [a]:
            chk(a, b, c, 1e-7, 1e-7)
            chk(gen(a), b, c, 1e-7, 1e-7)
    a, b = mk(fam, L[1]), mk(fam, L[2])
    c = list(a * b)[0]
    other = lie.change_algebra(gen(a), 2 * np.eye(a.lie_dim))
    for args in ((other, b, c), (a, other, c), (a, b, other)):
        K.raises(AssertionError, lambda: chk(*[gen(x) for x in args]), "different algebras")
    for pos in range(3):
        args = [gen(a), gen(b), gen(c)]
        X = args[pos].X.astype(complex).copy()
        if X.shape[1] < 2:
            continue
        X[0, 0, 1] += 0.3
        args[pos] = GenericRep(args[pos].A, X, args[pos].H)
        K.raises(AssertionError, lambda: chk(*args), "not a representation", )


@group("C16", [dict()])
def triplet_wrong_cg(K, rng):
    """coefficients that do not intertwine, on any path and any generator, are rejected"""
    from dataclasses import dataclass

    from lie_nn import TabulatedIrrep
    good = SU2.clebsch_gordan(SU2(2), SU2(1), SU2(1))
    X0, A0 = SU2(2).X, SU2(2).A

    class Fake(lie.TabulatedIrrep):
        def __init__(self, ir, cg):
            object.__setattr__(self, "ir", ir)
            object.__setattr__(self, "cg", cg)

        dim = property(lambda s: s.ir.dim)

        def algebra(self):
            return self.ir.A

        def continuous_generators(self):
            return self.ir.X

        def discrete_generators(self):
            return self.ir.H

        def clebsch_gordan(self, *a):
            return self.cg

    def trip(cg):
        return [Fake(SU2(2), cg), Fake(SU2(1), cg), Fake(SU2(1), cg)]

    lie.check_representation_triplet(*trip(good))
    lie.check_representation_triplet(*trip(np.concatenate([good, 2 * good])))
    lie.check_representation_triplet(*trip(good[:0]))
    for k in range(good.size):
        bad = good.copy().reshape(-1)
        bad[k] += 0.1
        bad = bad.reshape(good.shape)
        K.raises(AssertionError, lambda: lie.check_representation_triplet(*trip(bad)), "wrong coefficient")
        K.raises(AssertionError, lambda: lie.check_representation_triplet(*trip(np.concatenate([good, bad]))), "wrong second path")
    K.raises(AssertionError, lambda: lie.check_representation_triplet(*trip(good[0])), "wrong rank")
    # coefficients that fail under one generator only
    for n in (1, 3, 4, 6, 9):
        A, H = np.zeros((n, n, n)), np.zeros((0, 1, 1))
        for g in range(n):
            X = np.zeros((n, 1, 1))
            X[g] = 1
            for pos in range(3):
                args = [Fake(GenericRep(A, X if i == pos else 0 * X, H), np.ones((2, 1, 1, 1))) for i in range(3)]
                K.raises(AssertionError, lambda: lie.check_representation_triplet(*args), "wrong under one generator")


@group("C16", [dict()])
def inference_rounding(K, rng):
    """what round_fn returns is verified"""
    U = lie.util
    for r in (SU2(1), SO3(1), SL2C(1, 0), SU3((1, 0, 0))):
        K.close(U.infer_algebra_from_generators(r.X, round_fn=lambda a: np.round(a, 6)), r.A, "harmless rounding", 1e-5) if r.lie_dim == 3 else None
        K.check(U.infer_algebra_from_generators(0.4 * r.X, round_fn=np.round) is None, "rounded to something wrong", r)
        K.check(GenericRep.from_generators(r.X, round_fn=lambda a: a + 0.1) is None, "rounded to something wrong", r)


@group("C16", [dict(pool=p) for p in POOLS + ["Sn3", "Sn4"]])
def predicates(K, rng, pool):
    for r in rep_pool(rng, pool):
        X, H = np.asarray(r.X), np.asarray(r.H)
        if r.dim <= 9:
            Y = np.concatenate([X, H])
            K.check(bool(lie.is_irreducible(r)) == (commutant_dim(Y, Y) == 1), "is_irreducible", r)
        u = all(np.allclose(h @ np.conj(h.T), np.eye(r.dim), atol=1e-11) for h in H) and all(np.allclose(x, -np.conj(x.T), atol=1e-11) for x in X)
        v = all(np.allclose(h @ np.conj(h.T), np.eye(r.dim), atol=1e-6) for h in H) and all(np.allclose(x, -np.conj(x.T), atol=1e-6) for x in X)
        w = bool(lie.is_unitary(r))
        K.check(w in (u, v), "is_unitary", r, w)
        K.check(bool(r.is_trivial()) == (r.dim == 1 and not np.any(X) and bool(np.all(H == 1))), "is_trivial", r)


@group("C16", [dict()])
def predicates_discrete(K, rng):
    A, X = np.zeros((0, 0, 0)), np.zeros((0, 2, 2))
    rot = np.array([[0.0, -1], [1, 0]])
    ref = np.diag([1.0, -1])
    K.check(not lie.is_irreducible(GenericRep(A, X, ref[None])), "one reflection is reducible")
    K.check(bool(lie.is_irreducible(GenericRep(A, X, np.stack([ref, rot])))), "dihedral group is irreducible")
    K.check(not lie.is_irreducible(GenericRep(A, X, np.stack([ref, -ref]))), "reducible")
    K.check(bool(lie.is_unitary(GenericRep(A, X, np.stack([ref, rot])))), "unitary")
    K.check(not lie.is_unitary(GenericRep(A, X, np.stack([ref, 2 * rot]))), "not unitary (second generator)")
    K.check(not lie.is_unitary(GenericRep(A, X, np.array([[[1, 1.0], [0, 1]]]))), "not unitary")
    x = SU2(1)
    K.check(not lie.is_unitary(GenericRep(x.A, x.X, 1.5 * np.eye(2)[None])), "not unitary because of H")
    K.check(not lie.is_unitary(GenericRep(x.A, x.X + 0j, np.array([[[1, 1e-3], [0, 1]]]))), "not unitary because of H")
    K.check(bool(lie.is_unitary(GenericRep(x.A, x.X, 1j * np.eye(2)[None]))), "unitary with a phase")
    t = GenericRep(x.A, np.zeros((3, 1, 1)), np.array([[[1.0]], [[-1.0]]]))
    K.check(not t.is_trivial(), "sign representation is not trivial")
    K.check(not GenericRep(x.A, np.zeros((3, 2, 2)), np.zeros((0, 2, 2))).is_trivial(), "two-dimensional is not trivial")
    K.check(not GenericRep(np.zeros((1,) * 3), np.array([[[1e-3]]]), np.zeros((0, 1, 1))).is_trivial(), "nonzero generator")
    for n in (2, 3, 4):
        K.check(bool(lie.is_irreducible(Sn_standard(n))), "standard representation is irreducible")
        K.check(not lie.is_irreducible(Sn_natural(n)), "natural representation is reducible")
    K.check(bool(lie.util.is_irreducible(SU2(2).X)) and not lie.util.is_irreducible(lie.direct_sum(SU2(1), SU2(1)).X), "util.is_irreducible")
    K.check(not lie.util.is_irreducible(lie.direct_sum(SU2(1), SU2(2)).X), "util.is_irreducible")


# ---------------------------------------------------------------- C19
C19CASES = [dict(fam="SO3", terms=[[1, 0], [1, 1], [1, 2]]), dict(fam="SO3", terms=[[2, 1], [1, 0]]), dict(fam="SU2", terms=[[1, 1], [1, 2]]),
            dict(fam="SU2", terms=[[2, 1], [2, 0]]), dict(fam="SU2", terms=[[3, 1]]), dict(fam="O3", terms=[[1, (1, -1)], [1, (1, 1)], [1, (0, -1)]]),
            dict(fam="SU3", terms=[[1, (1, 0, 0)], [1, (1, 1, 0)]]), dict(fam="SL2C", terms=[[1, (1, 0)], [1, (0, 1)]]), dict(fam="Z2", terms=[[2, 1], [2, -1]]),
            dict(fam="SO3", terms=[[1, 1]]), dict(fam="SU2", terms=[[1, 3], [2, 1]])]


@group("C19", [dict(mode=m, **c) for c in C19CASES for m in ("id", "orth", "unit", "gen")])
def reduce_(K, rng, fam, terms, mode):
    ts = [(m, mk(fam, _tt(l))) for m, l in terms]
    R = ReducedRep.from_irreps(ts)
    d = R.dim
    if mode == "orth":
        R = lie.change_basis(R, runi(rng, d))
    if mode == "unit":
        R = lie.change_basis(R, runi(rng, d, True))
    if mode == "gen":
        R = lie.change_basis(R, rmat(rng, d))
    r = gen(R)
    s = lie.reduce(r)
    check_reduced(K, r, s)
    got = sorted((m.mul, m.rep.dim) for m in s.irreps)
    K.check(got == sorted((m, x.dim) for m, x in ts), "multiplicities and dimensions", got)
    Ys = lie.util.decompose_rep_into_irreps(np.concatenate([r.X, r.H]))
    K.check(sorted(Y.shape[1] for Y in Ys) == sorted(x.dim for m, x in ts for _ in range(m)), "block dimensions")
    for a in range(len(r.X) + len(r.H)):
        M = np.concatenate([r.X, r.H])[a]
        K.check(abs(sum(np.trace(Y[a]) for Y in Ys) - np.trace(M)) < 1e-6, "characters")
        K.check(abs(sum(np.trace(Y[a] @ Y[a]) for Y in Ys) - np.trace(M @ M)) < 1e-5, "characters")
    for Y in Ys:
        K.check(commutant_dim(Y, Y) == 1, "irreducible block")


def _tt(l):
    return tuple(l) if isinstance(l, list) else l


def check_reduced(K, r, s):
    K.check(isinstance(s, ReducedRep), "class")
    K.check(s.dim == r.dim, "dim")
    K.close(s.X, r.X, "reduce X", 1e-5)
    K.close(s.H, r.H, "reduce H", 1e-5)
    K.close(s.A, r.A, "reduce A")
    Y = [np.concatenate([m.rep.X, m.rep.H]) for m in s.irreps]
    for i in range(len(Y)):
        K.check(commutant_dim(Y[i], Y[i]) == 1, "irreducible summand")
        for j in range(i):
            K.check(commutant_dim(Y[i], Y[j]) == 0, "inequivalent summands")


@group("C19", [dict(i=i) for i in range(6)])
def reduce_products(K, rng, i):
    r = [tp_ref(gen(SU2(1)), gen(SU2(1))), tp_ref(gen(SO3(1)), gen(SO3(1))), tp_ref(gen(SU2(2)), gen(SU2(1))), gen(Sn_natural(3)), gen(Sn_natural(4)),
         tp_ref(tp_ref(gen(SU2(1)), gen(SU2(1))), gen(SU2(1)))][i]
    check_reduced(K, r, lie.reduce(r))
    R = ReducedRep.from_irreps([(2, SU2(1))], rmat(rng, 4))
    same_rep(K, lie.reduce(R), R, "reduced representations are unchanged", 1e-9)
    m = MulIrrep(3, SO3(1))
    same_rep(K, lie.reduce(m), m, "MulIrrep", 1e-9)
    K.check(isinstance(lie.reduce(m), ReducedRep), "class")
    check_reduced(K, gen(SU2(2)), lie.reduce(SU2(2)))


# ---------------------------------------------------------------- C24
def real_type(Y):
    """Frobenius-Schur type of a unitary irrep from its (unique) intertwiner with the conjugate"""
    d = Y.shape[1]
    M = np.concatenate([np.kron(np.conj(y), np.eye(d)) - np.kron(np.eye(d), y.T) for y in Y]) if len(Y) else np.zeros((1, d * d))
    _, sv, vh = np.linalg.svd(M, full_matrices=True)
    S = np.conj(vh[-1]).reshape(d, d)  # conj(Y) S = S Y
    return np.real(np.trace(np.conj(S) @ S)) > 0


@group("C24", [dict(fam="SU2", lab=j) for j in range(12)] + [dict(fam=f, lab=l) for f in ("SO3", "O3", "SL2C", "SU3", "SO13", "SU2_", "SU4") for l in labels(f, 4)])
def real_(K, rng, fam, lab):
    lab = _tt(lab)
    r = mk(fam, lab)
    Y = np.concatenate([r.X, r.H])
    truth = commutant_dim(np.conj(Y), Y) > 0
    K.check(bool(lie.is_real(r)) == truth, "is_real", fam, lab)
    if not truth:
        K.raises(ValueError, lambda: lie.make_explicitly_real(r), "not real")
        return
    try:
        s = lie.make_explicitly_real(r)
    except ValueError:
        K.check(not real_type(Y), "make_explicitly_real refuses a real irrep", fam, lab)
        return
    K.check(real_type(Y), "pseudo-real irreps have no real form")
    K.check(np.max(np.abs(np.imag(s.X)), initial=0) < 1e-8, "imaginary part")
    is_rep(K, s, "make_explicitly_real", 1e-6)
    K.close(s.A, r.A, "A")
    K.check(commutant_dim(np.concatenate([s.X, s.H]), Y) > 0, "equivalent to the input")


@group("C24", [dict(i=i) for i in range(4)])
def real_basis(K, rng, i):
    r = lie.change_basis(gen(SU2(2 * (i % 3))), runi(rng, 2 * (i % 3) + 1, True))
    K.check(bool(lie.is_real(r)), "is_real in any unitary basis")
    s = lie.make_explicitly_real(r)
    K.check(np.max(np.abs(np.imag(s.X)), initial=0) < 1e-8, "imaginary part")
    Y, Z = np.asarray(r.X), np.asarray(s.X)
    K.check(commutant_dim(Z, Y) > 0, "equivalent")
    z = GenericRep(np.zeros((1, 1, 1)), np.array([[[1j]]]), np.zeros((0, 1, 1)))
    K.check(not lie.is_real(z), "a phase is not real")
    h = GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 1, 1)), np.array([[[1j]]]))
    K.check(not lie.is_real(h), "a discrete phase is not real")


@group("C24", [dict(parts=p) for p in (["1", "3"], ["1", "1", "3"], ["3", "6"], ["1", "1", "3", "3"], ["8", "3"])])
def real_reducible_not(K, rng, parts):
    """a part that is not equivalent to its conjugate, without that conjugate"""
    S = {"1": (0, 0, 0), "3": (1, 0, 0), "3b": (1, 1, 0), "6": (2, 0, 0), "8": (2, 1, 0)}
    r = sum_of(parts, S, rng)
    K.check(not lie.is_real(r), "is_real of a sum with an unpaired complex part", parts)
    K.raises(ValueError, lambda: lie.make_explicitly_real(r), "not real")


@group("C24", [dict(parts=p) for p in (["1", "1"], ["1", "8"], ["3", "3b"], ["3", "3b", "1"], ["3", "3", "3b", "3b"])])
def real_reducible(K, rng, parts):
    S = {"1": (0, 0, 0), "3": (1, 0, 0), "3b": (1, 1, 0), "6": (2, 0, 0), "8": (2, 1, 0)}
    r = sum_of(parts, S, rng)
    K.check(bool(lie.is_real(r)), "is_real of a real sum", parts)


def sum_of(parts, S, rng):
    r = None
    for p in parts:
        x = gen(lie.irreps.SU3(S=S[p]))
        r = x if r is None else lie.direct_sum(r, x)
    return lie.change_basis(r, runi(rng, r.dim, True))
