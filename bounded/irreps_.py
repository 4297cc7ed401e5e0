"""C01-C04, C18, C23: tabulated irreps."""
import itertools
import numpy as np
import lie_nn as lie
from vlib.harness import get, group
from ._kit import *
from lie_nn._src.irreps import sun

COMPACT = {"SU2", "SU2Real", "SO3", "O3", "SU2_", "SU3", "SU4"}
REALF = {"SU2Real", "SO3", "O3"}
NLAB = dict(SU2=14, SU2Real=11, SO3=9, O3=12, SL2C=12, SO13=9, SU2_=9, SU3=12, SU4=8, Z2=2)


def alg_ref(fam):
    A = None
    return np.asarray(mk(fam, labels(fam, 2)[-1]).A)


def _c01(K, rng, fam, lab):
    lab = tuple(lab) if isinstance(lab, list) else lab
    r = mk(fam, lab)
    d = wdim(fam, lab)
    K.check(r.dim == d, "dimension announced by the label", r.dim, d)
    A, X, H = np.asarray(r.A), np.asarray(r.X), np.asarray(r.H)
    K.close(A, alg_ref(fam), "algebra depends on the label", 1e-9)
    n = A.shape[0]
    K.check(A.shape == (n,) * 3 and r.lie_dim == n, "shape of A")
    K.check(X.shape == (n, d, d), "shape of X", X.shape)
    nh = 1 if fam in ("O3", "Z2") else 0
    K.check(H.shape == (nh, d, d), "shape of H", H.shape)
    s = 1 + (np.max(np.abs(X)) ** 2 if X.size else 0)
    K.check(bracket_defect(A, X) < 1e-8 * s, "[X_i,X_j] != A_ijk X_k", bracket_defect(A, X))
    if nh:
        p = lab[1] if fam == "O3" else lab
        K.close(H[0], p * np.eye(d), "parity generator", 1e-12)
    if fam in COMPACT:
        K.close(X, -np.conj(np.swapaxes(X, 1, 2)), "anti-Hermitian", 1e-10)
    if fam in REALF or (fam == "SO13" and lab[0] == lab[1]):
        K.close(np.imag(X), np.zeros(X.shape), "real generators", 1e-10)
    if d <= 27 and not (fam == "SU2Real" and lab % 1):
        K.check(commutant_dim(np.concatenate([X, H]), np.concatenate([X, H])) == 1, "irreducible")


group("C01", [dict(fam=f, lab=l) for f in FAMS for l in labels(f, NLAB[f])]
      + [dict(fam="SU2", lab=j) for j in (25, 40)] + [dict(fam="SO3", lab=13), dict(fam="O3", lab=(11, -1)),
         dict(fam="SU2Real", lab=7.5), dict(fam="SL2C", lab=(5, 3)), dict(fam="SL2C", lab=(0, 9)), dict(fam="SL2C", lab=(8, 0)),
         dict(fam="SO13", lab=(4, 4)), dict(fam="SO13", lab=(5, 1)), dict(fam="SO13", lab=(1, 5)), dict(fam="SU3", lab=(5, 2, 0)),
         dict(fam="SU3", lab=(6, 6, 0)), dict(fam="SU4", lab=(3, 1, 0, 0)), dict(fam="SU4", lab=(2, 2, 1, 0))],
      [dict(fam=f, lab=l) for f in FAMS for l in labels(f, NLAB[f] + 8)[NLAB[f]:]])(_c01)


@group("C01", [dict(N=n) for n in (1, 2, 3, 4, 5)])
def sun_any_n(K, rng, N):
    """the SU(N) family beyond the exported classes"""
    from lie_nn._src.irreps import sun
    from vlib.harness import get

    SUN = get(sun, "SUN")
    for S in ([(0,)] if N == 1 else rows(N, 1) + ([(2,) + (0,) * (N - 1)] if N < 5 else [])):
        r = SUN(S)
        is_rep(K, r, f"SUN{S}", 1e-8)
        K.close(r.X, -np.conj(np.swapaxes(r.X, 1, 2)), "anti-Hermitian", 1e-10)


@group("C01", [dict(fam=f) for f in FAMS])
def inequivalent(K, rng, fam):
    """different labels are inequivalent: characters at a random group element differ"""
    L = labels(fam, min(NLAB[fam], 10))
    n = mk(fam, L[0]).A.shape[0]
    t = rng.normal(size=n) * 0.7
    ch = []
    for l in L:
        r = mk(fam, l)
        g = scipy.linalg.expm(np.einsum("a,aij->ij", t, r.X)) if n else np.eye(r.dim)
        ch.append((np.trace(g),) + tuple(np.trace(h @ g) for h in r.H))
    for (a, ca), (b, cb) in itertools.combinations(list(zip(L, ch)), 2):
        K.check(max(abs(x - y) for x, y in zip(ca, cb)) > 1e-7, "equivalent irreps with different labels", a, b)


@group("C01", [dict()])
def four_vector(K, rng):
    r = SO13.four_vector()
    is_rep(K, r, "four_vector", 1e-10)
    K.check(commutant_dim(r.X, SO13(1, 1).X) == 1, "four-vector is SO13(1,1)")


# ---------------------------------------------------------------- C02 / C03
PAIRS = {}
for f, n in dict(SU2=9, SU2Real=7, SO3=6, O3=6, SL2C=8, SO13=6, SU2_=5, SU3=6, SU4=4, Z2=2).items():
    L = labels(f, n)
    PAIRS[f] = [(a, b) for a in L for b in L if wdim(f, a) * wdim(f, b) <= {"SO13": 60, "SU3": 64, "SU4": 40}.get(f, 120)]
EXTRA = dict(SU2=[(12, 7), (15, 15), (1, 20)], SO3=[(7, 4), (1, 9)], O3=[((5, -1), (4, 1))], SL2C=[((3, 2), (2, 3)), ((4, 0), (1, 3))],
             SO13=[((2, 2), (1, 1)), ((3, 1), (0, 2)), ((2, 2), (2, 2))], SU3=[((2, 1, 0), (2, 1, 0)), ((3, 1, 0), (2, 1, 0)), ((3, 3, 0), (2, 0, 0))],
             SU4=[((2, 1, 1, 0), (1, 0, 0, 0)), ((1, 1, 0, 0), (1, 1, 0, 0)), ((2, 1, 0, 0), (1, 0, 0, 0))], SU2_=[((6, 0), (5, 0))], SU2Real=[(4.0, 3.0)])
for f, e in EXTRA.items():
    PAIRS[f] += [p for p in e if p not in PAIRS[f]]
HALF = lambda fam, *ls: fam == "SU2Real" and any(l % 1 for l in ls)


def chunks(fam, size):
    P = PAIRS[fam]
    return [dict(fam=fam, pairs=P[i:i + size]) for i in range(0, len(P), size)]


ALLP = sum((chunks(f, {"SO13": 3, "SU3": 3, "SU4": 2}.get(f, 12)) for f in PAIRS), [])


def _t(l):
    return tuple(l) if isinstance(l, list) else l


@group("C02", ALLP)
def selection(K, rng, fam, pairs):
    for la, lb in pairs:
        la, lb = _t(la), _t(lb)
        a, b = mk(fam, la), mk(fam, lb)
        out = list(a * b)
        keys = [repr(c.__dict__) for c in out]
        K.check(len(set(keys)) == len(keys), "duplicate in selection rule", la, lb, out)
        tot = 0
        gx = tp_ref(gen(a), gen(b))
        for c in out:
            cg = type(a).clebsch_gordan(a, b, c)
            K.check(cg.ndim == 4 and cg.shape[1:] == (a.dim, b.dim, c.dim), "shape of clebsch_gordan", cg.shape)
            K.check(cg.shape[0] > 0, "selection rule lists an irrep without path", la, lb, c)
            if not HALF(fam, la, lb) and a.dim * b.dim * c.dim <= 400:
                m = commutant_dim(np.concatenate([gx.X, gx.H]), np.concatenate([c.X, c.H]))
                K.check(m == cg.shape[0], "number of paths != multiplicity", la, lb, c, m, cg.shape[0])
            tot += cg.shape[0] * c.dim
        if not HALF(fam, la, lb):
            K.check(tot == wdim(fam, la) * wdim(fam, lb), "dimensions do not add up", la, lb, tot)
        # irreps not listed have no path
        others = [mk(fam, l) for l in labels(fam, 8)]
        if fam == "SU2":
            others += [SU2(la + lb + 2), SU2(la + lb + 1), SU2(abs(la - lb) + 1)] + ([SU2(abs(la - lb) - 2)] if abs(la - lb) >= 2 else [])
        for c in others:
            if c.dim * a.dim * b.dim > 1500:
                continue
            listed = any(c == o for o in out)
            K.check((c in list(a * b)) == listed, "membership")
            n = type(a).clebsch_gordan(a, b, c).shape[0]
            K.check((n > 0) == listed, "paths for an unlisted irrep (or none for a listed one)", la, lb, c, n)


def row_weights(S):
    """the weights of the irrep of SU(N) with the row S, with multiplicities"""
    out = {}

    def rec(row, w):
        if len(row) == 1:
            k = (row[0],) + w
            out[k] = out.get(k, 0) + 1
            return
        for nxt in itertools.product(*[range(y, x + 1) for x, y in zip(row, row[1:])]):
            rec(nxt, (sum(row) - sum(nxt),) + w)

    rec(tuple(S), ())
    return out


def klimyk(S1, S2):
    """multiplicities of the rows in the product of two irreps of SU(N): signed shifts of the second row by the weights of the first one"""
    N = len(S1)
    out = {}
    for w, m in row_weights(S1).items():
        v = [x + y + N - 1 - i for i, (x, y) in enumerate(zip(S2, w))]
        if len(set(v)) < N:
            continue
        sign = (-1) ** sum(v[i] < v[j] for i in range(N) for j in range(i + 1, N))
        r = [x - (N - 1 - i) for i, x in enumerate(sorted(v, reverse=True))]
        r = tuple(x - r[-1] for x in r)
        out[r] = out.get(r, 0) + sign * m
    return {r: m for r, m in out.items() if m}


@group("C02", [dict(fam=f) for f in ("SU2", "SU2Real", "SO3", "O3", "SL2C", "SO13", "SU2_", "SU3", "SU4", "SU5", "SU6")])
def selection_large(K, rng, fam):
    """the rule alone, on large labels"""
    tri = lambda x, y, step: range(abs(x - y), x + y + 1, step)
    for _ in range(40 if fam not in ("SU4", "SU5", "SU6") else 12):
        m = int(rng.choice([5, 15, 40]))
        x = [int(t) for t in rng.integers(0, m + 1, size=4)]
        if fam == "SU2":
            la, lb = x[:2]
            exp = list(tri(la, lb, 2))
        elif fam == "SU2Real":
            la, lb = x[0] / 2, x[1] / 2
            exp = [t / 2 for t in tri(x[0], x[1], 2)]
        elif fam == "SO3":
            la, lb = x[:2]
            exp = list(tri(la, lb, 1))
        elif fam == "O3":
            p, q = (int(t) for t in rng.choice([1, -1], size=2))
            la, lb = (x[0], p), (x[1], q)
            exp = [(t, p * q) for t in tri(x[0], x[1], 1)]
        elif fam in ("SL2C", "SO13"):
            if fam == "SO13":
                x[1] += (x[0] + x[1]) % 2
                x[3] += (x[2] + x[3]) % 2
            la, lb = tuple(x[:2]), tuple(x[2:])
            exp = [(s, t) for s in tri(x[0], x[2], 2) for t in tri(x[1], x[3], 2)]
        else:
            N, m = {"SU2_": (2, 30), "SU3": (3, 8), "SU4": (4, 4), "SU5": (5, 2), "SU6": (6, 1)}[fam]
            la, lb = (tuple(sorted((int(t) for t in rng.integers(0, m + 1, size=N - 1)), reverse=True)) + (0,) for _ in range(2))
            SUN = get(sun, "SUN")
            exp = list(klimyk(la, lb))
            got = [ir.S for ir in SUN(la) * SUN(lb)]
            K.check(sorted(got) == sorted(exp), "selection rule", fam, la, lb)
            continue
        got = list(mk(fam, la) * mk(fam, lb))
        exp = [mk(fam, l) for l in exp]
        K.check(sorted(got) == sorted(exp), "selection rule", fam, la, lb)


def check_cg(K, a, b, c, cg, fam, msg, ortho=True):
    K.check(cg.ndim == 4 and cg.shape[1:] == (a.dim, b.dim, c.dim), msg + ": shape", cg.shape)
    left = np.einsum("zijk,dlk->zdijl", cg, c.X)
    right = np.einsum("dil,zijk->zdljk", a.X, cg) + np.einsum("djl,zijk->zdilk", b.X, cg)
    K.close(left, right, msg + ": intertwining", 1e-8)
    left = np.einsum("zijk,dlk->zdijl", cg, c.H)
    right = np.einsum("dim,djn,zijk->zdmnk", a.H, b.H, cg)
    K.close(left, right, msg + ": discrete intertwining", 1e-8)
    if ortho:
        G = np.einsum("zijk,wijl->zkwl", np.conj(cg), cg)
        n = cg.shape[0] * c.dim
        K.close(G.reshape(n, n), np.eye(n), msg + ": orthonormality", 1e-8)


@group("C03", ALLP)
def cg(K, rng, fam, pairs):
    for la, lb in pairs:
        la, lb = _t(la), _t(lb)
        a, b = mk(fam, la), mk(fam, lb)
        cols = []
        outs = list(a * b)
        for c in outs:
            C = type(a).clebsch_gordan(a, b, c)
            check_cg(K, a, b, c, C, fam, f"{fam} {la} {lb} {c}", ortho=not HALF(fam, la, lb))
            if fam in COMPACT:
                K.check(np.isrealobj(C), "complex coefficients", la, lb)
            C2 = lie.clebsch_gordan(a, b, c)
            K.close(C2, C, "lie.clebsch_gordan on tabulated irreps", 1e-9)
            cols.append(np.moveaxis(C, 0, 2).reshape(a.dim * b.dim, -1))
        if not HALF(fam, la, lb):
            M = np.concatenate(cols, axis=1)
            K.check(M.shape[0] == M.shape[1], "completeness", la, lb, M.shape)
            K.close(np.conj(M.T) @ M, np.eye(M.shape[1]), "unitary change of basis", 1e-8)


@group("C03", [dict(fam="SU2", t=t) for t in ((60, 60, 60), (100, 100, 2), (41, 40, 39), (90, 45, 65), (120, 2, 120), (80, 80, 0))] + [dict(fam="SO3", t=t) for t in ((12, 12, 12), (30, 30, 1), (20, 20, 2))])
def cg_large(K, rng, fam, t):
    """large spins: orthonormal, equivariant"""
    a, b, c = (mk(fam, x) for x in t)
    C = type(a).clebsch_gordan(a, b, c)
    K.check(C.shape == (1, a.dim, b.dim, c.dim), "shape", fam, t, C.shape)
    C = C[0]
    M = C.reshape(-1, c.dim)
    K.close(M.T @ M, np.eye(c.dim), f"orthonormal {fam} {t}", 1e-11)
    for x, y, z in zip(a.X, b.X, c.X):
        left = np.tensordot(x, C, (1, 0)) + np.moveaxis(np.tensordot(y, C, (1, 1)), 0, 1)
        # C transforms the products of the states into the states: sum_i x_ai C_ibc + sum_j y_bj C_ajc = sum_k C_abk z_kc
        K.close(left, C @ z, f"equivariant {fam} {t}", 1e-8)


@group("C03", [dict(fam=f) for f in ("SU2", "SO3", "O3", "SL2C", "SO13", "SU3", "SU2_")])
def cg_generic(K, rng, fam):
    """the generic solver on plain-array representations"""
    L = labels(fam, 3)
    for la in L:
        for lb in L:
            a, b = mk(fam, la), mk(fam, lb)
            for lc in labels(fam, 4):
                c = mk(fam, lc)
                C = lie.clebsch_gordan(gen(a), b, c)
                check_cg(K, a, b, c, C, fam, f"generic {fam} {la} {lb} {lc}")
                n = sum(1 for o in a * b if o == c)
                if n == 0:
                    K.check(C.shape[0] == 0, "path to an absent irrep")
                else:
                    K.check(C.shape[0] == type(a).clebsch_gordan(a, b, c).shape[0], "number of paths")


# ---------------------------------------------------------------- C04
ORD = dict(SU2=40, SU2Real=40, SO3=40, O3=40, SL2C=40, SO13=36, SU2_=30, SU3=40, SU4=40, Z2=2)


def expected_set(fam, n):
    """labels that must appear among the first n iterated ones, sorted by the documented size key"""
    if fam in ("SU2", "SO3"):
        return list(range(n))
    if fam == "SU2Real":
        return [k / 2 for k in range(n)]
    if fam == "Z2":
        return [1, -1]
    if fam == "O3":
        return [(k // 2, (-1) ** (k // 2) * (1 if k % 2 == 0 else -1)) for k in range(n)]
    if fam == "SL2C":
        return sorted([(l, s - l) for s in range(n) for l in range(s + 1)], key=lambda x: (x[0] + x[1], x[0]))[:n]
    if fam == "SO13":
        return sorted([(l, s - l) for s in range(0, 2 * n, 2) for l in range(s + 1)], key=lambda x: (x[0] + x[1], x[0]))[:n]
    N = {"SU2_": 2, "SU3": 3, "SU4": 4}[fam]
    return sorted(rows(N, {2: n, 3: 9, 4: 5}[N]))[:n]


@group("C04", [dict(fam=f) for f in FAMS])
def enumeration(K, rng, fam):
    n = ORD[fam]
    C = FAMS[fam]
    irs = list(itertools.islice(C.iterator(), n))
    K.check(len(irs) == (2 if fam == "Z2" else n), "iterator ended")
    exp = [mk(fam, l) for l in expected_set(fam, n)]
    K.check(all(x == y for x, y in zip(irs, exp)) and len(irs) == len(exp), "enumeration skips, repeats or misplaces an irrep", fam, irs[:8])
    K.check(irs[0].is_trivial() and irs[0].dim == 1, "first is trivial")
    for k, r in enumerate(irs[:12]):
        K.check(r.is_trivial() == (k == 0), "is_trivial", r)
        t = r.create_trivial()
        K.check(t == irs[0] and t.is_trivial(), "create_trivial from an instance")
        if hasattr(r, "is_scalar"):
            K.check(bool(r.is_scalar()) == (r.dim == 1 and not np.any(r.X)), "is_scalar", r)
    K.check(C.create_trivial() == irs[0], "create_trivial")
    for i, a in enumerate(irs):
        for j, b in enumerate(irs):
            K.check(bool(a < b) == (i < j), "order is not the enumeration order", a, b)
            K.check((a == b) == (i == j), "equality", a, b)
            if i == j:
                K.check(hash(a) == hash(b), "hash")
    again = list(itertools.islice(C.iterator(), n))
    for a, b in zip(irs, again):
        K.check(a == b and hash(a) == hash(b), "equal irreps have equal hashes")
    sh = list(irs)
    rng.shuffle(sh)
    K.check(sorted(sh) == irs, "sorting")


@group("C04", [dict(fam=f) for f in FAMS if f != "Z2"])
def long_enumeration(K, rng, fam):
    """a few thousand irreps: every label, once, in the documented order"""
    C = FAMS[fam]
    if fam in ("SU2", "SO3", "SU2Real", "O3"):
        exp = expected_set(fam, 5000)
    elif fam in ("SL2C", "SO13"):
        exp = [(l, s - l) for s in range(0, 100, 1 if fam == "SL2C" else 2) for l in range(s + 1)]
    else:
        N, m = {"SU2_": (2, 2000), "SU3": (3, 80), "SU4": (4, 25)}[fam]
        exp = sorted(rows(N, m))
    exp = [mk(fam, l) for l in exp]
    irs = itertools.islice(C.iterator(), len(exp))
    bad = next(((x, y) for x, y in itertools.zip_longest(irs, exp) if x is None or y is None or x != y), None)
    K.check(bad is None, "enumeration skips, repeats or misplaces an irrep", fam, bad)
    # the order far from the trivial irrep
    for _ in range(300):
        i, j = (int(x) for x in rng.integers(0, len(exp), size=2))
        K.check((exp[i] < exp[j]) == (i < j), "order is not the enumeration order", exp[i], exp[j])


@group("C04", [dict(fam=f) for f in FAMS])
def big_order(K, rng, fam):
    """order on large random labels: totality, antisymmetry, transitivity"""
    def rl():
        m = 10 ** int(rng.integers(1, 4))
        if fam in ("SU2", "SO3"):
            return int(rng.integers(0, m))
        if fam == "SU2Real":
            return int(rng.integers(0, m)) / 2
        if fam == "O3":
            return (int(rng.integers(0, m)), int(rng.choice([1, -1])))
        if fam == "SL2C":
            return (int(rng.integers(0, m)), int(rng.integers(0, m)))
        if fam == "SO13":
            a, b = int(rng.integers(0, m)), int(rng.integers(0, m))
            return (a, b + (a + b) % 2)
        if fam == "Z2":
            return int(rng.choice([1, -1]))
        N = {"SU2_": 2, "SU3": 3, "SU4": 4}[fam]
        return tuple(sorted((int(x) for x in rng.integers(0, m, size=N - 1)), reverse=True)) + (0,)

    def key(l):
        if fam == "O3":
            return (l[0], -((-1) ** (l[0] % 2)) * l[1])
        if fam in ("SL2C", "SO13"):
            return (l[0] + l[1], l[0])
        return -l if fam == "Z2" else l

    for _ in range(300):
        a, b = rl(), rl()
        if rng.random() < 0.2:
            b = a
        A, B = mk(fam, a), mk(fam, b)
        K.check(bool(A < B) == (key(a) < key(b)), "order", a, b)
        K.check((A == B) == (a == b), "equality", a, b)
        if a == b:
            K.check(hash(A) == hash(B), "hash")


@group("C04", [dict()])
def product_order(K, rng):
    L1 = [SU2(j) for j in range(4)]
    L2 = [O3(l, p) for l in range(2) for p in (1, -1)]
    o2 = sorted(L2)
    P = [lie.group_product(a, b) for a in L1 for b in o2]
    for i, a in enumerate(P):
        for j, b in enumerate(P):
            K.check(bool(a < b) == (i < j), "lexicographic order of product irreps", a, b)
            K.check((a == b) == (i == j), "equality of product irreps")
            if i == j:
                K.check(hash(a) == hash(b), "hash")


# ---------------------------------------------------------------- C18
@group("C18", [dict()])
def parse(K, rng):
    for n in list(range(25)) + [int(x) for x in rng.integers(0, 5000, size=25)]:
        K.check(SU2.from_string(str(n)) == SU2(n), "SU2", n)
        K.check(SO3.from_string(str(n)) == SO3(n), "SO3", n)
        for p, s in ((1, "e"), (-1, "o")):
            for pad in ("", " ", "  "):
                K.check(O3.from_string(f"{pad}{n}{s}{pad}") == O3(n, p), "O3", n, s)
        m = int(rng.integers(0, 40))
        for pad in ("", " "):
            K.check(SL2C.from_string(f"{pad}({n},{m}){pad}") == SL2C(n, m), "SL2C", n, m)
            e = m + (n + m) % 2
            K.check(SO13.from_string(f"{pad}({n},{e}){pad}") == SO13(n, e), "SO13", n, e)
        K.check(isinstance(SO13.from_string("(2,0)"), SO13), "class")
        for cls, N in ((SU2_, 2), (SU3, 3), (SU4, 4)):
            S = tuple(sorted((int(x) for x in rng.integers(0, 30, size=N - 1)), reverse=True)) + (0,)
            x = cls.from_string("(" + ",".join(map(str, S)) + ")")
            K.check(x == cls(S) and type(x) is cls and x.S == S, "SU(N)", S, x)
    K.check(Z2.from_string("e") == Z2(1) and Z2.from_string(" o ") == Z2(-1), "Z2")


@group("C18", [dict()])
def parse_lists(K, rng):
    mkstr = {
        "O3": lambda r: f"{r.l}{'e' if r.p == 1 else 'o'}",
        "SU2": lambda r: str(r.j),
        "SO3": lambda r: str(r.l),
        "SL2C": lambda r: f"({r.l},{r.k})",
        "SO13": lambda r: f"({r.l},{r.k})",
        "SU3": lambda r: "(" + ",".join(map(str, r.S)) + ")",
        "Z2": lambda r: "e" if r.p == 1 else "o",
    }
    for fam, f in mkstr.items():
        C = FAMS[fam]
        irs = [mk(fam, l) for l in labels(fam, 6)]
        for _ in range(12):
            n = int(rng.integers(1, 6))
            terms, exp = [], []
            for _ in range(n):
                r = irs[int(rng.integers(0, len(irs)))]
                m = int(rng.integers(0, 13))
                explicit = rng.random() < 0.6
                if not explicit:
                    m = 1
                pad = " " if fam in ("O3", "Z2") and rng.random() < 0.3 else ""
                terms.append((f"{m}x" if explicit else "") + f(r) + pad)
                exp.append((m, r))
            mi = MulIrrep.from_string(terms[0], C)
            K.check((mi.mul, mi.rep) == exp[0], "MulIrrep.from_string", terms[0], mi)
            R = ReducedRep.from_string("+".join(terms), C)
            K.check([(m.mul, m.rep) for m in R.irreps] == exp, "ReducedRep.from_string", terms, R)
            K.check(all(isinstance(m, MulIrrep) and isinstance(m.mul, int) for m in R.irreps), "types")
            K.check(R.Q is None and R.dim == sum(m * r.dim for m, r in exp), "dim", terms)
    q = rmat(rng, 4)
    R = ReducedRep.from_string("0e+1o", O3, q)
    K.close(R.Q, q, "Q")
    K.check(R.irreps[1].rep == O3(1, -1) and R.irreps[1].mul == 1, "order")


# ---------------------------------------------------------------- C23
PF = [("SU2", "SO3"), ("O3", "SU2"), ("Z2", "O3"), ("Z2", "Z2"), ("SU3", "O3"), ("SL2C", "SU2"), ("SO3", "SO3"), ("SU2", "Z2")]


@group("C23", [dict(f1=a, f2=b) for a, b in PF])
def product_irreps(K, rng, f1, f2):
    L1, L2 = labels(f1, 3), labels(f2, 3)
    prods = []
    for l1 in L1:
        for l2 in L2:
            a, b = mk(f1, l1), mk(f2, l2)
            r = lie.group_product(a, b)
            d1, d2, n1, n2 = a.dim, b.dim, a.lie_dim, b.lie_dim
            K.check(isinstance(r, lie.TabulatedIrrep), "class")
            K.check(r.dim == d1 * d2 and r.lie_dim == n1 + n2, "dim", r.dim)
            X = [np.kron(x, np.eye(d2)) for x in a.X] + [np.kron(np.eye(d1), x) for x in b.X]
            H = [np.kron(x, np.eye(d2)) for x in a.H] + [np.kron(np.eye(d1), x) for x in b.H]
            K.close(r.X, np.array(X).reshape(-1, d1 * d2, d1 * d2), "X", 1e-10)
            K.close(r.H, np.array(H).reshape(-1, d1 * d2, d1 * d2), "H", 1e-10)
            A = np.zeros((n1 + n2,) * 3)
            A[:n1, :n1, :n1] = a.A
            A[n1:, n1:, n1:] = b.A
            K.close(r.A, A, "A", 1e-10)
            g = lie.group_product(gen(a), gen(b))
            same_rep(K, r, g, "tabulated and generic group_product agree", 1e-10)
            g2 = lie.group_product(a, gen(b))
            same_rep(K, r, g2, "mixed group_product", 1e-10)
            prods.append((l1, l2, r))
    for i, (a1, a2, r) in enumerate(prods):
        for j, (b1, b2, s) in enumerate(prods):
            k1, k2 = mk(f1, a1), mk(f2, a2)
            m1, m2 = mk(f1, b1), mk(f2, b2)
            lt = k1 < m1 or (k1 == m1 and k2 < m2)
            K.check(bool(r < s) == lt, "lexicographic order", r, s)
            K.check((r == s) == (k1 == m1 and k2 == m2), "equality", r, s)
            if (i + 3 * j) % 4 == 0 and r.dim * s.dim <= 80:
                out = list(r * s)
                exp = [lie.group_product(x, y) for x in k1 * m1 for y in k2 * m2]
                K.check(len(out) == len(exp) and all(any(o == e for o in out) for e in exp), "selection rule", r, s)
                tot = 0
                cols = []
                for c in out:
                    C = c.clebsch_gordan(r, s, c)
                    check_cg(K, r, s, c, C, "", "product CG")
                    n = type(c.rep1).clebsch_gordan(k1, m1, c.rep1).shape[0] * type(c.rep2).clebsch_gordan(k2, m2, c.rep2).shape[0]
                    K.check(C.shape[0] == n, "path pairs")
                    tot += n * c.dim
                    K.close(lie.clebsch_gordan(r, s, c), C, "dispatch")
                K.check(tot == r.dim * s.dim, "dimension count", r, s)


@group("C23", [dict()])
def product_multiplicity(K, rng):
    """several paths in both factors"""
    a = SU3((2, 1, 0))
    p = lie.group_product(a, SU2(1))
    c = lie.group_product(a, SU2(2))
    C = c.clebsch_gordan(p, p, c)
    K.check(C.shape == (2, 16, 16, 24), "paths", C.shape)
    check_cg(K, p, p, c, C, "", "octet x doublet")
    C1 = SU3.clebsch_gordan(a, a, a)
    C2 = SU2.clebsch_gordan(SU2(1), SU2(1), SU2(2))
    ref = np.einsum("aikm,bjln->abijklmn", C1, C2).reshape(2, 16, 16, 24)
    K.close(C, ref, "product coefficients", 1e-10)


@group("C23", [dict(k=k) for k in range(4)])
def product_three(K, rng, k):
    fs = [("SU2", "O3", "Z2"), ("Z2", "Z2", "SO3"), ("SO3", "SU2", "O3"), ("O3", "Z2", "SL2C")][k]
    rs = [mk(f, labels(f, 3)[-1 if f == "Z2" else 1]) for f in fs]
    t = lie.group_product(*rs)
    u = lie.group_product(lie.group_product(rs[0], rs[1]), rs[2])
    g = lie.group_product(*[gen(r) for r in rs])
    same_rep(K, t, u, "three factors", 1e-10)
    same_rep(K, t, g, "three factors, generic", 1e-10)
    v = lie.group_product(rs[0], lie.group_product(rs[1], rs[2]))
    same_rep(K, t, v, "associativity", 1e-10)
    is_rep(K, t, "three factors")


@group("C23", [dict(k=k) for k in range(4)])
def product_in_reduced(K, rng, k):
    f1, f2 = [("SU2", "O3"), ("Z2", "SO3"), ("SO3", "SU2"), ("O3", "Z2")][k]
    irs = [lie.group_product(mk(f1, a), mk(f2, b)) for a in labels(f1, 2) for b in labels(f2, 2)]
    a, b = irs[1], irs[3 if irs[3].dim < 7 else 2]
    same_rep(K, lie.tensor_product(a, b), tp_ref(gen(a), gen(b)), "tensor_product of product irreps", 1e-9)
    R = ReducedRep.from_irreps([(2, a), irs[0]])
    K.close(R.X, ref_reduced([(2, a), (1, irs[0])], None, "X"), "ReducedRep", 1e-10)
    if R.dim * b.dim < 80:
        same_rep(K, lie.tensor_product(R, b), tp_ref(gen(R), gen(b)), "tensor_product with a ReducedRep", 1e-9)
        same_rep(K, lie.tensor_product(b, MulIrrep(2, a)), tp_ref(gen(b), gen(MulIrrep(2, a))), "with MulIrrep", 1e-9)
