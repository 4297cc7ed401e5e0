"""Shared generators and independent oracles for the bounded contract evaluation."""
import itertools
import numpy as np
import scipy.linalg
import lie_nn as lie
from lie_nn import GenericRep, MulIrrep, ReducedRep
from lie_nn.irreps import SU2, SU2Real, SO3, O3, SL2C, SO13, SU2_, SU3, SU4, Z2
from lie_nn.finite import Sn_natural, Sn_standard, Sn_trivial

FAMS = dict(SU2=SU2, SU2Real=SU2Real, SO3=SO3, O3=O3, SL2C=SL2C, SO13=SO13, SU2_=SU2_, SU3=SU3, SU4=SU4, Z2=Z2)


def rows(n, top):
    """weakly decreasing rows with last entry 0"""
    return [r + (0,) for r in itertools.product(range(top + 1), repeat=n - 1) if all(a >= b for a, b in zip(r, r[1:]))]


def mk(fam, lab):
    lab = tuple(lab) if isinstance(lab, (list, tuple)) else lab
    C = FAMS[fam]
    if fam in ("SU2_", "SU3", "SU4"):
        return C(S=lab)
    if fam in ("O3", "SL2C", "SO13"):
        return C(*lab)
    return C(lab)


def wdim(fam, lab):
    """dimension announced by the label (independent formula)"""
    if fam == "SU2":
        return lab + 1
    if fam == "SU2Real":
        return int(2 * lab + 1) * (1 if float(lab).is_integer() else 2)
    if fam == "SO3":
        return 2 * lab + 1
    if fam == "O3":
        return 2 * lab[0] + 1
    if fam in ("SL2C", "SO13"):
        return (lab[0] + 1) * (lab[1] + 1)
    if fam == "Z2":
        return 1
    from fractions import Fraction

    d = Fraction(1)
    S = lab
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            d *= Fraction(S[i] - S[j] + j - i, j - i)
    return int(d)


def labels(fam, n):
    """the first n labels (own enumeration, by size)"""
    if fam in ("SU2", "SO3"):
        return list(range(n))
    if fam == "SU2Real":
        return [k / 2 for k in range(n)]
    if fam == "O3":
        return [(l, p) for l in range(n) for p in (1, -1)][:n]
    if fam == "SL2C":
        return [(l, s - l) for s in range(n) for l in range(s + 1)][:n]
    if fam == "SO13":
        return [(l, s - l) for s in range(0, 2 * n, 2) for l in range(s + 1)][:n]
    if fam == "Z2":
        return [1, -1][:n]
    N = {"SU2_": 2, "SU3": 3, "SU4": 4}[fam]
    R = rows(N, n)
    return sorted(R, key=lambda r: (wdim(fam, r), r))[:n]


def gen(r):
    return GenericRep.from_rep(r)


def rint(rng, *s):
    return rng.normal(size=s)


def rmat(rng, d, cplx=False, cond=True):
    """random well conditioned invertible matrix"""
    q = rng.normal(size=(d, d)) + (1j * rng.normal(size=(d, d)) if cplx else 0)
    q, _ = np.linalg.qr(q)
    if cond:
        s = rng.uniform(0.6, 1.6, size=d)
        p, _ = np.linalg.qr(rng.normal(size=(d, d)))
        q = q @ np.diag(s) @ p
    return q


def runi(rng, d, cplx=False):
    return rmat(rng, d, cplx, cond=False)


def bracket_defect(A, X):
    n = len(X)
    if n == 0:
        return 0.0
    L = np.einsum("iab,jbc->ijac", X, X) - np.einsum("jab,ibc->ijac", X, X)
    R = np.einsum("ijk,kab->ijab", A, X)
    return float(np.max(np.abs(L - R))) if L.size else 0.0


def is_rep(K, r, msg, tol=1e-7):
    A, X, H = np.asarray(r.A), np.asarray(r.X), np.asarray(r.H)
    n = A.shape[0]
    K.check(A.shape == (n, n, n), msg + ": shape of A", A.shape)
    d = r.dim
    K.check(X.shape == (n, d, d), msg + ": shape of X", X.shape, (n, d, d))
    K.check(H.ndim == 3 and H.shape[1:] == (d, d), msg + ": shape of H", H.shape)
    s = 1 + (np.max(np.abs(X)) ** 2 if X.size else 0)
    K.check(bracket_defect(A, X) <= tol * s, msg + ": [X_i,X_j] != A_ijk X_k", bracket_defect(A, X))


def same_rep(K, a, b, msg, tol=1e-7):
    K.close(a.A, b.A, msg + ": A", tol)
    K.check(a.dim == b.dim, msg + ": dim", a.dim, b.dim)
    K.close(a.X, b.X, msg + ": X", tol)
    K.close(a.H, b.H, msg + ": H", tol)


def commutant_dim(X, Y, tol=1e-6):
    """dim of {S : X_a S = S Y_a for all a}"""
    d1, d2 = X.shape[1], Y.shape[1]
    if len(X) == 0:
        return d1 * d2
    M = np.concatenate([np.kron(x, np.eye(d2)) - np.kron(np.eye(d1), y.T) for x, y in zip(X, Y)])
    s = np.linalg.svd(M, compute_uv=False)
    return d1 * d2 - int(np.sum(s > tol))


def blockdiag(ms):
    """block diagonal of 2D matrices, by explicit placement"""
    r = sum(m.shape[0] for m in ms)
    c = sum(m.shape[1] for m in ms)
    out = np.zeros((r, c), dtype=complex)
    i = j = 0
    for m in ms:
        out[i : i + m.shape[0], j : j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out


def ref_mul(X, m):
    n, d = X.shape[0], X.shape[1]
    return np.stack([blockdiag([x] * m) for x in X]) if n else np.zeros((0, m * d, m * d))


def ref_reduced(irreps, Q, which):
    """reference generators of Q (+_i m_i rho_i) Q^-1; irreps: list of (mul, rep)"""
    G = [ref_mul(np.asarray(getattr(r, which)), m) for m, r in irreps]
    n = G[0].shape[0]
    D = sum(g.shape[1] for g in G)
    if n == 0:
        return np.zeros((0, D, D))
    M = np.stack([blockdiag([g[k] for g in G]) for k in range(n)])
    if Q is not None:
        M = np.einsum("ij,ajk,kl->ail", Q, M, np.linalg.inv(Q))
    return M


def tp_ref(a, b):
    """generic Kronecker construction, by np.kron"""
    d1, d2 = a.dim, b.dim
    X = [np.kron(x, np.eye(d2)) + np.kron(np.eye(d1), y) for x, y in zip(a.X, b.X)]
    H = [np.kron(x, y) for x, y in zip(a.H, b.H)]
    D = d1 * d2
    return GenericRep(a.A, np.array(X).reshape(len(X), D, D), np.array(H).reshape(len(H), D, D))


GROUP_ALG = {}


def rep_pool(rng, g):
    """representations (of several classes) of one group, small dimensions"""
    c = rng.integers
    if g == "Sn3" or g == "Sn4":
        n = int(g[-1])
        base = [Sn_natural(n), Sn_standard(n), Sn_trivial(n)]
        return base + [gen(base[1])] + [ReducedRep.from_irreps([(2, base[1]), base[2]])]
    fams = dict(SU2="SU2", SO3="SO3", O3="O3", SL2C="SL2C", SO13="SO13", SU3="SU3", Z2="Z2", SU2_="SU2_")
    f = fams[g]
    L = labels(f, 4)
    irs = [mk(f, l) for l in L]
    a, b = irs[1 % len(irs)], irs[0]
    e = irs[2 % len(irs)]
    out = [a, e, MulIrrep(2, a), ReducedRep.from_irreps([(1, b), (2, a)]), gen(e)]
    rr = ReducedRep.from_irreps([a, b])
    out.append(ReducedRep.from_irreps([a, b], rmat(rng, rr.dim)))
    out.append(ReducedRep.from_irreps([b, (1, a)], rmat(rng, rr.dim, True)))
    return out


POOLS = ["SU2", "SO3", "O3", "SL2C", "SO13", "SU3", "Z2", "SU2_"]


def generic_rep(rng, kind):
    """a random representation given by plain arrays (possibly complex basis, discrete generators)"""
    if kind == "su2c":
        r = SU2(int(rng.integers(1, 4)))
        q = rmat(rng, r.dim, True)
        return GenericRep(r.A, np.einsum("ij,ajk,kl->ail", q, r.X, np.linalg.inv(q)), np.zeros((0, r.dim, r.dim)))
    if kind == "o3":
        r = O3(int(rng.integers(0, 3)), int(rng.choice([1, -1])))
        q = rmat(rng, r.dim, True)
        iq = np.linalg.inv(q)
        return GenericRep(r.A, np.einsum("ij,ajk,kl->ail", q, r.X, iq), np.einsum("ij,ajk,kl->ail", q, r.H, iq))
    if kind == "abelian":
        d = int(rng.integers(1, 4))
        q = rmat(rng, d, True)
        iq = np.linalg.inv(q)
        X = np.stack([q @ np.diag(rng.normal(size=d) + 1j * rng.normal(size=d)) @ iq for _ in range(2)])
        H = np.stack([q @ np.diag(rng.choice([1, -1, 1j], size=d)) @ iq for _ in range(3)])
        return GenericRep(np.zeros((2, 2, 2)), X, H)
    if kind == "finite":
        d = int(rng.integers(1, 4))
        q = rmat(rng, d, True)
        H = np.stack([q @ np.diag(rng.choice([1, -1], size=d)) @ np.linalg.inv(q) for _ in range(2)])
        return GenericRep(np.zeros((0, 0, 0)), np.zeros((0, d, d)), H)
    if kind == "real":
        r = SO3(int(rng.integers(0, 3)))
        q = runi(rng, r.dim)
        return GenericRep(r.A, np.einsum("ij,ajk,lk->ail", q, r.X, q), np.zeros((0, r.dim, r.dim)))
    if kind == "complexA":  # complex structure constants
        r = SU2(int(rng.integers(1, 3)))
        P = rmat(rng, 3, True)
        iP = np.linalg.inv(P)
        A = np.einsum("ia,jb,abc,ck->ijk", P, P, r.A, iP)
        X = np.einsum("ia,auv->iuv", P, r.X)
        return GenericRep(A, X, np.zeros((0, r.dim, r.dim)))
    raise KeyError(kind)


KINDS = ["su2c", "o3", "abelian", "finite", "real"]
