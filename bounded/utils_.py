"""Bounded contract evaluation for C10-C15, C20-C22."""
import itertools
import math
from fractions import Fraction
import numpy as np
import lie_nn as lie
import lie_nn._src.util as U
import lie_nn._src.discrete_groups.perm as P
import lie_nn._src.lie_algebra_utils as LA
import lie_nn._src.irreps.sun as SUNM
import lie_nn._src.irreps.spn as SPNM
from lie_nn import ReducedRep, MulIrrep, GenericRep
from lie_nn.finite import Sn_natural, Sn_standard, Sn_trivial
from vlib.harness import group, get
from ._kit import *


def cx(rng, shape, cplx):
    return rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0)


# ------------------------------------------------------------------ C10
@group("C10", [dict(i=i) for i in range(12)])
def assembly(K, rng, i):
    f = lie.util.direct_sum
    for batch in ((), (2,), (3, 2), (0,)):
        for n in (1, 2, 3, 5):
            ms = []
            for _ in range(n):
                s = tuple(rng.integers(0, 4, size=2))
                b = tuple(1 if rng.random() < 0.3 else x for x in batch)
                if rng.random() < 0.2 and n > 1:
                    b = b[1:]
                ms.append(cx(rng, b + s, i % 2))
            out = f(*ms)
            if n == 1:
                K.close(out, ms[0], "direct_sum of one matrix")
                continue
            bs = np.broadcast_shapes(*[m.shape[:-2] for m in ms])
            r, c = sum(m.shape[-2] for m in ms), sum(m.shape[-1] for m in ms)
            ref = np.zeros(bs + (r, c), dtype=complex)
            for idx in np.ndindex(*bs):
                ref[idx] = blockdiag([np.broadcast_to(m, bs + m.shape[-2:])[idx] for m in ms])
            K.close(out, ref, f"direct_sum {[m.shape for m in ms]}", 1e-12)
    g = lie.util.block_diagonal
    for n in (1, 2, 4):
        z = int(rng.integers(0, 4))
        ms = [rng.normal(size=(z,) + tuple(rng.integers(0, 4, size=2))) for _ in range(n)]
        r, c = sum(m.shape[1] for m in ms), sum(m.shape[2] for m in ms)
        ref = np.zeros((z, r, c))
        for a in range(z):
            ref[a] = blockdiag([m[a] for m in ms]).real
        K.close(g(ms), ref, "block_diagonal", 1e-12)
    for n in (1, 2, 3, 4):
        ms = [cx(rng, tuple(rng.integers(1, 4, size=2)), i % 2) for _ in range(n)]
        ref = ms[0]
        for m in ms[1:]:
            a, b = ref, m
            ref = np.array(
                [
                    [a[x // b.shape[0], y // b.shape[1]] * b[x % b.shape[0], y % b.shape[1]] for y in range(a.shape[1] * b.shape[1])]
                    for x in range(a.shape[0] * b.shape[0])
                ]
            )
        K.close(lie.util.kron(*ms), ref, "kron", 1e-12)
    d = int(rng.integers(1, 5))
    for b in ((), (3,), (2, 3)):
        A, B = cx(rng, b + (d, d), i % 2), cx(rng, b + (d, d), i % 2)
        K.close(lie.util.commutator(A, B), np.einsum("...ij,...jk->...ik", A, B) - np.einsum("...ij,...jk->...ik", B, A), "commutator", 1e-12)


@group("C10", [dict(i=i) for i in range(6)])
def vmap_(K, rng, i):
    vm = lie.util.vmap
    x = rng.normal(size=(4, 4, 4))
    y = rng.normal(size=(4, 4, 3))
    y2 = rng.normal(size=(4, 3))
    for ax in (0, 1, 2):
        for oa in (0, 1, 2, -1):
            out = vm(lambda a: 2 * a + 1, ax, oa)(x)
            K.close(out, np.stack([2 * np.take(x, k, ax) + 1 for k in range(4)], axis=oa), f"vmap {ax} {oa}", 1e-12)
        for ay in (0, None):
            def fn(a, b):
                return a @ b
            out = vm(fn, (ax, ay), 0)(x, y2 if ay is None else y)
            if ay is None:
                ref = np.stack([np.take(x, k, ax) @ y2 for k in range(4)])
            else:
                ref = np.stack([np.take(x, k, ax) @ y[k] for k in range(4)])
            K.close(out, ref, f"vmap two arguments {ax} {ay}", 1e-12)
    o = vm(lambda a, b: (a + b, a[0], 3.0), (0, 0), 0)(x[:, 0], x[:, 1])
    K.check(isinstance(o, tuple) and len(o) == 3, "vmap: tuple output")
    K.close(o[0], x[:, 0] + x[:, 1], "vmap tuple 0", 1e-12)
    K.close(o[1], x[:, 0, 0], "vmap tuple 1", 1e-12)
    K.close(o[2], np.full(4, 3.0), "vmap tuple 2", 1e-12)
    o = vm(lambda a: (a, a.T @ a), 0, 1)(x)
    K.close(o[1], np.stack([m.T @ m for m in x], axis=1), "vmap tuple out_axes", 1e-12)
    for oa, shp in ((0, (0, 3, 2)), (1, (3, 0, 2)), (2, (3, 2, 0)), (-1, (3, 2, 0)), (-2, (3, 0, 2)), (-3, (0, 3, 2))):
        out = vm(lambda a: a, 0, oa, out_shape=(3, 2))(np.zeros((0, 3, 2)))
        K.check(out.shape == shp, "vmap: zero-length", out.shape, shp)
        out = vm(lambda a: a, 0, oa, out_shape=(3, 2))
        K.check(out(np.zeros((0, 3, 2))).shape == shp and out(np.zeros((0, 3, 2))).shape == shp, "vmap: reused zero-length")
        K.close(out(np.ones((2, 3, 2))), np.ones(tuple(k or 2 for k in shp)), "vmap: out_shape ignored when mapped")
    # single element
    K.close(vm(lambda a, b: a * b, (1, None), 0)(x[:, :1], 3.0), 3.0 * np.moveaxis(x[:, :1], 1, 0), "vmap length 1")


def cayley(rng, n):
    """multiplication tables of some groups of order n (as permutation groups)"""
    gens = {1: [], 2: [(1, 0)], 3: [(1, 2, 0)], 4: [(1, 0, 2, 3), (0, 1, 3, 2)], 5: [(1, 2, 3, 4, 0)], 6: [(1, 0, 2), (1, 2, 0)], 8: [(1, 2, 3, 0), (3, 2, 1, 0)], 24: [(1, 0, 2, 3), (1, 2, 3, 0)]}[n]
    m = len(gens[0]) if gens else 1
    G = {tuple(range(m))}
    while True:
        H = G | {tuple(a[b[i]] for i in range(m)) for a in G for b in list(G) + gens} | set(gens)
        if H == G:
            break
        G = H
    G = sorted(G)
    idx = [int(v) for v in rng.permutation(len(G))]
    G = [G[v] for v in idx]
    pos = {g: k for k, g in enumerate(G)}
    return np.array([[pos[tuple(a[b[i]] for i in range(m))] for b in G] for a in G])


@group("C10", [dict(n=n, i=i) for n in (1, 2, 3, 4, 5, 6, 8, 24) for i in range(2)])
def regular(K, rng, n, i):
    t = cayley(rng, n)
    D = lie.util.regular_representation(t)
    K.check(D.shape == (n, n, n), "regular: shape")
    for g in range(n):
        for h in range(n):
            e = np.zeros(n)
            e[t[g, h]] = 1
            K.close(D[g][:, h], e, f"regular: D({g})|{h}> != |gh>")


# ------------------------------------------------------------------ C11
def lim(n, d, m):
    f = Fraction(int(n), int(d)).limit_denominator(int(m))
    return f.numerator, f.denominator


@group("C11", [dict(i=i) for i in range(24)])
def limit_den(K, rng, i):
    f = lie.util.limit_denominator
    hi = [10, 100, 5000, 2**20, 2**31, 2**40, 2**52, 2**52][i % 8]
    N = 400
    n = rng.integers(-hi, hi, size=N)
    d = rng.integers(1, hi, size=N)
    if i % 3 == 1:  # small denominators mixed with large ones
        d[::2] = rng.integers(1, 50, size=len(d[::2]))
    if i % 3 == 2:  # near rationals, and near the bound
        b = rng.integers(1, 200, size=N)
        a = rng.integers(0, 200, size=N)
        s = hi // 400 + 1
        n, d = a * s + rng.integers(-1, 2, size=N), b * s + rng.integers(0, 2, size=N)
        d = np.maximum(d, 1)
    g = np.gcd(n, d)
    n, d = n // g, d // g
    for m in (1, 2, 3, 7, 10, 100, 4097, 2**12, 2**24 if hi > 2**31 else 2**16, int(np.median(d)) if np.median(d) < 2**24 else 1000, 4096**2 + 1):
        # the comparison in the code multiplies |n0|,d0 by denominators: stay within the stated bounds
        p, q = f(n, d, m)
        for k in range(N):
            K.check((int(p[k]), int(q[k])) == lim(n[k], d[k], m), f"limit_denominator({n[k]},{d[k]},{m})", (int(p[k]), int(q[k])), lim(n[k], d[k], m))
    # scalars, empty, shapes
    p, q = f(np.int64(n[0]), np.int64(d[0]), 50)
    K.check((int(p), int(q)) == lim(n[0], d[0], 50), "scalar limit_denominator")
    p, q = f(n.reshape(20, 20), d.reshape(20, 20), 50)
    p1, q1 = f(n, d, 50)
    K.check(p.shape == (20, 20) and np.array_equal(p.ravel(), p1) and np.array_equal(q.ravel(), q1), "limit_denominator: shape")


@group("C11", [dict()])
def limit_den_small(K, rng):
    """exhaustively for small fractions, each bound, all lanes together"""
    f = lie.util.limit_denominator
    prs = [(a, b) for b in range(1, 61) for a in range(-70, 71) if math.gcd(a, b) == 1]
    n, d = np.array(prs).T
    for m in range(1, 62):
        p, q = f(n, d, m)
        for k in range(len(prs)):
            K.check((int(p[k]), int(q[k])) == lim(n[k], d[k], m), f"limit_denominator({n[k]},{d[k]},{m})", (int(p[k]), int(q[k])))


@group("C11", [dict(i=i) for i in range(4)])
def air(K, rng, i):
    f = lie.util.as_approx_integer_ratio
    xs = np.concatenate(
        [
            rng.normal(size=300),
            rng.normal(size=100) * 10.0 ** rng.integers(-6, 6, size=100),
            np.array([0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1 / 3, -1 / 3, 3.0, 1e6, 1e-6]),
            rng.integers(-1000, 1000, size=200) / rng.integers(1, 1000, size=200),
        ]
    )
    n, d = f(xs)
    for x, a, b in zip(xs, n, d):
        a, b = int(a), int(b)
        K.check(b > 0 and math.gcd(a, b) == 1, f"as_approx_integer_ratio({x!r}) not normalised", a, b)
        if x == 0:
            K.check((a, b) == (0, 1), "zero")
        else:
            K.check(abs(Fraction(a, b) / Fraction(float(x)) - 1) <= Fraction(1, 2**50), f"as_approx_integer_ratio({x!r}) inaccurate", a, b)


@group("C11", [dict(i=i) for i in range(6)])
def sqrt_rational(K, rng, i):
    f = lie.util.round_to_sqrt_rational
    M = [1, 5, 20, 64, 300, 4096][i]
    B = M**2 + 1
    x = np.concatenate([rng.normal(size=60), np.sqrt(rng.integers(0, 50, size=60) / rng.integers(1, M**2 + 1, size=60)) * rng.choice([1, -1], size=60), [0.0, 1.0, -1.0]])
    y = f(x, M)
    K.check(y.shape == x.shape and y.dtype == np.float64, "round: shape and dtype")
    for a, b in zip(x, y):
        ex = Fraction(float(a * a))
        r = ex.limit_denominator(B)
        v = math.copysign(math.sqrt(r), a) if a else 0.0
        # as_approx_integer_ratio is approximate: accept an equally close neighbour
        got = Fraction(float(b * b)).limit_denominator(B)
        ok = abs(b - v) <= 1e-12 * (1 + abs(v)) or (
            got.denominator <= B and abs(float(got) - b * b) <= 1e-13 * (1 + b * b) and abs(abs(got - ex) - abs(r - ex)) <= ex * Fraction(1, 2**48)
        )
        K.check(ok, f"round_to_sqrt_rational({a!r}, {M})", b, v)
        K.check(a == 0 or b == 0 or (a > 0) == (b > 0), "round: sign")
    K.close(f(-x, M), -y, "odd", 1e-14)
    K.close(f(y, M), y, "idempotent", 1e-12)
    qs = rng.integers(1, M**2 + 1, size=80)
    ps = rng.integers(0, 60, size=80)
    z = np.sqrt(ps / qs)
    K.close(f(z, M), z, "sqrt of a rational with bounded denominator unchanged", 1e-11)
    w = z[:40] + 1j * z[40:]
    K.close(f(w, M), w, "complex unchanged", 1e-11)
    c = x[:60].reshape(3, 4, 5) + 1j * x[60:120].reshape(3, 4, 5)
    o = f(c, M)
    K.close(o, y[:60].reshape(3, 4, 5) + 1j * y[60:120].reshape(3, 4, 5), "complex: separately on both parts, any shape", 1e-13)
    s = f(np.float64(x[0]), M)
    K.check(np.shape(s) == () and s == y[0], "scalar")
    K.check(f(np.zeros((0, 3)), M).shape == (0, 3), "empty")
    if M == 4096:
        K.close(f(x), y, "default max_denominator is 4096", 1e-14)
        g = f(x.astype(complex))
        K.close(g, y, "complex dtype with zero imaginary part", 1e-14)
    sy = get(lie.util, "round_to_sqrt_rational_sympy")
    import sympy as sp

    for a, b in list(zip(x[40:70], y[40:70])):
        v = sp.sympify(sy(np.float64(a), M))
        K.close(complex(v), b, "sympy version", 1e-11)
        r2 = sp.expand(v**2)
        K.check(r2.is_Rational and r2.q <= B, "sympy version is an exact square root", v)
    v = complex(sp.sympify(sy(np.complex128(z[0] - 1j * z[1]), M)))
    K.close(v, z[0] - 1j * z[1], "sympy complex", 1e-11)


# ------------------------------------------------------------------ C12
def psign(p):
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


@group("C12", [dict(n=n) for n in range(0, 7)], [dict(n=7)])
def perms(K, rng, n):
    S = list(itertools.permutations(range(n)))
    for k, p in enumerate(S):
        inv = P.inverse(p)
        K.check(isinstance(inv, tuple) and all(inv[p[i]] == i and p[inv[i]] == i for i in range(n)) and len(inv) == n, "inverse", p, inv)
        K.check(P.sign(p) == psign(p), "sign", p, P.sign(p))
        if n:
            K.check(lie.util.permutation_sign(p) == psign(p), "permutation_sign", p)
            K.check(lie.util.permutation_sign(list(p)) == psign(p), "permutation_sign list", p)
        K.check(P.is_perm(p), "is_perm", p)
        m = P.to_int(p)
        K.check(0 <= m < math.factorial(n) and P.from_int(m, n) == p, "from_int(to_int)", p, m)
        q = P.from_int(k, n)
        K.check(P.is_perm(q) and P.to_int(q) == k, "to_int(from_int)", k, q)
        cyc = P.to_cycles(p)
        ref = set()
        seen = set()
        for i in range(n):
            if i not in seen:
                c = [i]
                while p[c[-1]] != i:
                    c.append(p[c[-1]])
                seen.update(c)
                if len(c) > 1:
                    ref.add(tuple(c))
        canon = lambda c: tuple(c[c.index(min(c)) :] + c[: c.index(min(c))])  # noqa
        K.check({canon(c) for c in cyc} == ref and len(cyc) == len(ref), "to_cycles", p, cyc)
    T = S if n <= 4 else [S[int(v)] for v in rng.integers(0, len(S), size=60)]
    for p in T:
        for q in T:
            c = P.compose(p, q)
            K.check(c == tuple(p[q[i]] for i in range(n)), "compose", p, q, c)
    K.check(P.identity(n) == tuple(range(n)), "identity")
    if n <= 6:
        K.check(set(P.group(n)) == set(S) and len(P.group(n)) == len(S), "group(n)")
    for _ in range(20):
        r = P.rand(n)
        K.check(tuple(r) in set(S), "rand", r)
    if n >= 2:
        K.check({P.rand(n) for _ in range(40 * math.factorial(n))} == set(S) if n <= 3 else True, "rand covers the group")


def closure(gens, n):
    G = {tuple(range(n))}
    fr = list(G)
    while fr:
        nx = []
        for a in fr:
            for b in gens:
                c = tuple(a[b[i]] for i in range(n))
                if c not in G:
                    G.add(c)
                    nx.append(c)
        fr = nx
    return G


@group("C12", [dict(n=n) for n in range(1, 6)])
def groups(K, rng, n):
    S = list(itertools.permutations(range(n)))
    for k in range(12):
        g = {S[int(v)] for v in rng.integers(0, len(S), size=int(rng.integers(1, 4)))}
        c = P.germinate(set(g))
        K.check(set(c) == closure(g, n), "germinate", sorted(g))
        K.check(P.is_group(c), "is_group(closure)")
        if len(c) > 1:
            x = sorted(c)[int(rng.integers(0, len(c)))]
            rest = set(c) - {x}
            K.check(not P.is_group(rest), "is_group accepts a proper subset of size |G|-1", sorted(c), x) if len(c) > 2 or x == tuple(range(n)) else None
    for k in range(min(len(S), 20)):
        a = S[int(rng.integers(0, len(S)))]
        sub = {tuple(range(n)), a}
        K.check(bool(P.is_group(sub)) == (closure(sub, n) == sub), "is_group of two elements", a)
        b = S[int(rng.integers(0, len(S)))]
        sub = {tuple(range(n)), a, b, tuple(np.argsort(a)), tuple(np.argsort(b))}
        sub = {tuple(int(v) for v in s) for s in sub}
        K.check(bool(P.is_group(sub)) == (closure(sub, n) == sub), "is_group", sorted(sub))
        sub2 = {a, b}
        K.check(bool(P.is_group(sub2)) == (closure(sub2, n) == sub2), "is_group without identity", sorted(sub2))
    K.check(not P.is_group(set()), "the empty set is not a group")
    for p in itertools.product(range(n + 1), repeat=n):
        K.check(bool(P.is_perm(p)) == (sorted(p) == list(range(n))), "is_perm", p)


# ------------------------------------------------------------------ C13
def check_basis(K, name, ins, out, perms, unitary=True):
    d_in = [r.dim for r in ins]
    arr = out.array
    K.check(arr.shape == tuple(d_in) + (out.rep.dim,), f"{name}: shape", arr.shape)
    B = arr.reshape(-1, arr.shape[-1])
    if unitary:
        K.close(B.conj().T @ B, np.eye(B.shape[1]), f"{name}: orthonormal", 1e-6)
    else:
        K.check(np.linalg.matrix_rank(B, tol=1e-6) == B.shape[1], f"{name}: linearly independent")
    g = gen(ins[0])
    for r in ins[1:]:
        g = tp_ref(g, gen(r))
    X, H = np.asarray(out.rep.X), np.asarray(out.rep.H)
    K.close(np.einsum("ij,aik->ajk", B, g.X), np.einsum("aji,ki->ajk", X, B), f"{name}: equivariance (X)", 1e-5)
    K.close(np.einsum("ij,aik->ajk", B, g.H), np.einsum("aji,ki->ajk", H, B), f"{name}: equivariance (H)", 1e-5)
    N = B.shape[0]
    idx = np.arange(N).reshape(d_in)
    tr = 0.0
    for s, p in perms:
        M = idx.transpose(p).ravel()
        K.close(s * B[M], B, f"{name}: symmetry {s} {p}", 1e-5)
        tr += s * np.sum(M == np.arange(N))
    K.check(round(tr / len(perms)) == B.shape[1], f"{name}: complete", tr / len(perms), B.shape[1])
    irs = [m.rep for m in out.rep.irreps]
    K.check(all(a < b for a, b in zip(irs, irs[1:])), f"{name}: irreps sorted and grouped", out.rep)
    K.check(out.rep.Q is None, f"{name}: returned representation is block diagonal")
    K.check(len(out.list) == len(irs), f"{name}: list")
    for m, x in zip(out.rep.irreps, out.list):
        K.check(x.shape == tuple(d_in) + (m.mul, m.rep.dim), f"{name}: list shapes", x.shape)
    K.close(np.concatenate([x.reshape(x.shape[:-2] + (-1,)) for x in out.list], axis=-1), arr, f"{name}: list and array agree")


def signed_group(formula):
    """own closure of the formula"""
    parts = formula.split("=")
    f0 = parts[0]
    gens = []
    for f in parts:
        s = -1 if f.startswith("-") else 1
        f = f.replace("-", "")
        # T[f0] = s T[f]: T_{f0} = s T_{f}
        gens.append((s, tuple(f.index(c) for c in f0)))
    n = len(f0)
    G = {(1, tuple(range(n)))}
    while True:
        H = G | {(s * t, tuple(p[q[i]] for i in range(n))) for s, p in G for t, q in gens}
        if H == G:
            return sorted(G)
        G = H


def zero_dim(ins, perms):
    N = int(np.prod([r.dim for r in ins]))
    idx = np.arange(N).reshape([r.dim for r in ins])
    tr = sum(s * np.sum(idx.transpose(p).ravel() == np.arange(N)) for s, p in perms)
    return round(tr / len(perms)) == 0


FORMULAS = ["ij=ji", "ij=-ji", "ijk=jik=ikj", "ijk=-jik=-ikj", "ijk=jki", "ijk=jik", "ijk=-ikj", "ijkl=jikl=klij", "ijkl=-jikl=-ijlk=klij", "ij", "i", "ijkl=jilk", "ijkl=-klij", "ijk=kji", "ijkl=jkli", "ijkl=-jikl=ijlk", "zyx=xyz", "ijk=-jik=ikj", "ijkl=lijk=jikl"]


def reds13(rng, fam):
    L = [mk(fam, l) for l in labels(fam, 3)]
    out = [ReducedRep.from_irreps([L[1]])]
    if len(L) > 2:
        out.append(ReducedRep.from_irreps([L[0], (2, L[1])]))
        out.append(ReducedRep.from_irreps([L[2], L[1], L[2]]))
    r = ReducedRep.from_irreps([L[1], L[0]])
    out.append(ReducedRep.from_irreps([L[1], L[0]], sqrtQ(rng, r.dim, False)))
    out.append(ReducedRep.from_irreps([L[1], L[0]], sqrtQ(rng, r.dim, True)))
    return out


def sqrtQ(rng, d, cplx):
    """random orthogonal/unitary matrix whose entries are square roots of rationals"""
    q = np.eye(d, dtype=complex if cplx else float)[rng.permutation(d)]
    i, j = (int(v) for v in rng.choice(d, size=2, replace=False))
    p = int(rng.integers(1, 5))
    c, s = math.sqrt(p / 5), math.sqrt(1 - p / 5)
    g = np.eye(d, dtype=q.dtype)
    g[i, i], g[j, j], g[i, j], g[j, i] = c, c, s, -s
    if cplx:
        ph = np.diag(rng.choice([1, -1, 1j, -1j], size=d))
        return g @ q @ ph
    return g @ q


C13P = [dict(fam=f, k=k, c=c) for f in ("SU2", "SO3", "O3", "SL2C", "SO13", "Z2", "SU2_", "SU3") for k in range(5) for c in range(3)]


@group("C13", C13P, [dict(big=1, **p) for p in C13P])
def reduced_basis(K, rng, fam, k, c, big=0):
    lim = 300 if big else 40 if fam == "SO13" else 130
    rs = reds13(rng, fam)
    if k >= len(rs):
        return
    r = rs[k]
    for fi, formula in enumerate(FORMULAS):
        if fi % 3 != c:
            continue
        n = len(formula.split("=")[0])
        if r.dim**n > lim:
            continue
        G = signed_group(formula)
        if zero_dim([r] * n, G):
            continue
        keys = sorted(set(formula) - set("=-"))
        out = lie.reduced_tensor_product_basis(formula, **{v: r for v in keys})
        check_basis(K, f"{fam} {r} {formula}", [r] * n, out, G)
        if formula == "ijk=jki":  # only one index given: related indices share the representation
            out2 = lie.reduced_tensor_product_basis(formula, i=r)
            K.close(out2.array, out.array, "index inferred from related ones")
    for n in range(1, 5):
        if n % 3 != c or r.dim**n > lim:
            continue
        out = lie.reduced_symmetric_tensor_product_basis(r, n)
        check_basis(K, f"{fam} {r} sym {n}", [r] * n, out, [(1, p) for p in itertools.permutations(range(n))])
    for j, s in enumerate(rs):
        if j % 3 != c:
            continue
        if r.dim * s.dim <= min(lim, 80):
            check_basis(K, f"{fam} list {r} {s}", [r, s], lie.reduced_tensor_product_basis([r, s]), [(1, (0, 1))])
        if r.dim * r.dim * s.dim <= lim:
            check_basis(K, f"{fam} list {r} {s} {r}", [r, s, r], lie.reduced_tensor_product_basis([r, s, r]), [(1, (0, 1, 2))])
            out = lie.reduced_tensor_product_basis("ijk=kji", i=r, j=s)
            check_basis(K, f"{fam} ijk=kji {r} {s}", [r, s, r], out, [(1, (0, 1, 2)), (1, (2, 1, 0))])
            if not zero_dim([s, r, r], [(1, (0, 1, 2)), (-1, (0, 2, 1))]):
                out = lie.reduced_tensor_product_basis("ijk=-ikj", i=s, k=r)
                check_basis(K, f"{fam} ijk=-ikj {s} {r}", [s, r, r], out, [(1, (0, 1, 2)), (-1, (0, 2, 1))])


@group("C13", [dict(fam=f) for f in ("SO3", "O3", "SU2", "SU3")])
def basis_inputs(K, rng, fam):
    a, b = [mk(fam, l) for l in labels(fam, 2)]
    check_basis(K, "irrep inputs", [b, MulIrrep(2, a)], lie.reduced_tensor_product_basis([b, MulIrrep(2, a)]), [(1, (0, 1))])
    if b.dim <= 3:
        check_basis(K, "irrep sym", [b] * 3, lie.reduced_symmetric_tensor_product_basis(b, 3), [(1, p) for p in itertools.permutations(range(3))])
        check_basis(K, "MulIrrep sym", [MulIrrep(2, b)] * 2, lie.reduced_symmetric_tensor_product_basis(MulIrrep(2, b), 2), [(1, (0, 1)), (1, (1, 0))])


@group("C13", [dict(fam=f) for f in ("SO3", "O3", "SU2", "SL2C", "Z2")])
def general_bases(K, rng, fam):
    """changes of basis which are not unitary: everything but the orthonormality"""
    L = [mk(fam, l) for l in labels(fam, 3)]
    for ir in ([L[0], L[1]], [(2, L[1])], [L[1], L[0], L[0]]):
        r = ReducedRep.from_irreps(ir)
        for t in range(2):
            Q = np.eye(r.dim) + np.triu(rng.integers(-1, 2, size=(r.dim, r.dim)), 1)
            if t:
                Q = Q @ np.diag(rng.choice([1, 2, 0.5], size=r.dim)) @ np.eye(r.dim)[rng.permutation(r.dim)]
            r = ReducedRep.from_irreps(ir, Q)
            check_basis(K, f"{fam} {r} i", [r], lie.reduced_tensor_product_basis([r]), [(1, (0,))], False)
            check_basis(K, f"{fam} {r} ij", [r, r], lie.reduced_tensor_product_basis([r, r]), [(1, (0, 1))], False)
            for formula in ("ij=ji", "ij=-ji", "ijk=jki"):
                n = len(formula.split("=")[0])
                if not t and r.dim**n <= 130 and not zero_dim([r] * n, signed_group(formula)):
                    check_basis(K, f"{fam} {r} {formula}", [r] * n, lie.reduced_tensor_product_basis(formula, i=r), signed_group(formula), False)
            s = ReducedRep.from_irreps([L[1]])
            check_basis(K, f"{fam} {s} {r}", [s, r], lie.reduced_tensor_product_basis([s, r]), [(1, (0, 1))], False)


@group("C13", [dict(n=n) for n in (2, 3, 4)])
def many_copies(K, rng, n):
    """trivial groups of large dimension: all the symmetries are seen"""
    Z2 = lie.irreps.Z2
    for ir in ([(4, Z2(1))], [(3, Z2(1)), (2, Z2(-1))], [(2, Z2(-1)), (2, Z2(1))]):
        r = ReducedRep.from_irreps(ir)
        check_basis(K, f"sym {n} {r}", [r] * n, lie.reduced_symmetric_tensor_product_basis(r, n), [(1, p) for p in itertools.permutations(range(n))])
        if n < 4:
            for formula in {2: ["ij=ji", "ij=-ji"], 3: ["ijk=-jik=-ikj", "ijk=jki", "ijk=jik"]}[n]:
                check_basis(K, f"{formula} {r}", [r] * n, lie.reduced_tensor_product_basis(formula, **{v: r for v in "ijk"[:n]}), signed_group(formula))


@group("C13", [dict()])
def formulas_(K, rng):
    import lie_nn._src.reduced_tensor_product as R

    f = R.germinate_perm_repr
    for formula in FORMULAS + ["ijklm=jiklm=jklmi", "ijklm=jklmi", "ijklm=-jiklm=jklmi", "ijklm=-jiklm=-ikjlm=-ijlkm=-ijkml", "ijklmn=jklmni=nmlkji", "ijkl=jikl=ikjl=ijlk", "ijklmn=-klijmn=mnijkl"]:
        f0, g = f(formula)
        K.check(f0 == formula.split("=")[0], "germinate: reference formula")
        K.check(sorted(g) == signed_group(formula), "germinate_perm_repr", formula, sorted(g))
    so3 = lie.irreps.SO3
    r1, r2 = ReducedRep.from_irreps([so3(1)]), ReducedRep.from_irreps([so3(2)])
    B = lie.reduced_tensor_product_basis
    for bad in ("ij=jk", "ij=jii", "ij=i", "iij=jii", "ij=ji=jj"):
        K.raises(Exception, lambda: B(bad, i=r1, j=r1, k=r1), f"formula {bad}")
    K.raises(Exception, lambda: B("-ij=ji", i=r1), "negative reference")
    K.raises(Exception, lambda: B("ij", i=r1), "missing index")
    K.raises(Exception, lambda: B("ij=ji", i=r1, k=r1), "superfluous index")
    K.raises(Exception, lambda: B("ij=ji", i=r1, j=r2), "conflicting indices")
    K.raises(Exception, lambda: B("ijk=jki", i=r1, k=r2), "conflicting indices")
    K.raises(Exception, lambda: B("ij=ji", ij=r1), "long index name")


# ------------------------------------------------------------------ C14
def patterns(S):
    """own enumeration of GT patterns"""
    if len(S) == 1:
        return [(tuple(S),)]
    out = []
    for row in itertools.product(*[range(S[i + 1], S[i] + 1) for i in range(len(S) - 1)]):
        out += [(tuple(S),) + m for m in patterns(row)]
    return out


C14S = [r for n in (1, 2, 3, 4) for r in rows(n, {1: 1, 2: 6, 3: 4, 4: 2}[n])] + [(3, 3, 1, 1), (2, 2), (5, 3, 1), (1, 0, 0, 0, 0), (1, 1, 0, 0, 0), (2, 1, 0, 0, 0),
                                                                                (1, -1), (-1, -3), (0, -1, -2), (-1, -1, -1), (2, 0, -1), (1, 0, 0, -1)]
C14BIG = [(10**6, 0), (10**17 + 3, 5), (10**6, 10**3, 0), (10**9 + 7, 12345, 1), (3 * 10**5, 10**5 + 1, 77, 0), (2000, 1500, 900, 400, 0), (40, 31, 20, 11, 7, 3, 0), (2**62, 2**31, 1, 0)]


@group("C14", [dict(S=list(s)) for s in C14BIG])
def gt_big(K, rng, S):
    """rows that cannot be enumerated: Weyl's formula, and the recursion over rows (in the last entry) by exact integers"""
    S = tuple(S)
    d = get(SUNM, "dim")
    num = den = 1
    for i in range(len(S)):
        for j in range(i + 1, len(S)):
            num *= S[i] - S[j] + j - i
            den *= j - i
    K.check(num % den == 0 and d(S) == num // den and isinstance(d(S), int), "dim", S, d(S))
    T = tuple(x + 5 for x in S)
    K.check(d(T) == d(S), "dim of a shifted row", S)
    K.check(d(tuple(-x for x in reversed(S))) == d(S), "dim of the dual row", S)
    if d(S) < 10**8:
        for k in (0, d(S) // 3, d(S) - 1):
            M = get(SUNM, "index_to_M")(S, k)
            K.check(M[0] == S and get(SUNM, "M_to_index")(M) == k, "index of a pattern of a large row", S, k)


@group("C14", [dict(S=list(s)) for s in C14S])
def gt(K, rng, S):
    S = tuple(S)
    dim, Ss, Ms = get(SUNM, "dim"), get(SUNM, "S_to_Ss"), get(SUNM, "S_to_Ms")
    i2m, m2i = get(SUNM, "index_to_M"), get(SUNM, "M_to_index")
    ref = patterns(S)
    K.check(dim(S) == len(ref) == wdim("SUN", S) and isinstance(dim(S), int), "dim", S, dim(S), len(ref))
    L = list(Ms(S))
    K.check(len(L) == len(ref) and set(L) == set(ref), "S_to_Ms enumerates every pattern once", S)
    if len(S) > 1:
        rr = list(itertools.product(*[range(S[i + 1], S[i] + 1) for i in range(len(S) - 1)]))
        ss = list(Ss(S))
        K.check(len(ss) == len(rr) and set(ss) == set(rr), "S_to_Ss", S)
    for k, M in enumerate(L):
        K.check(i2m(S, k) == M, "index_to_M agrees with the enumeration", S, k)
        K.check(m2i(M) == k, "M_to_index agrees with the enumeration", S, k)


@group("C14", [dict(S=list(s)) for s in C14S if wdim("SUN", s) <= 45])
def ladder(K, rng, S):
    S = tuple(S)
    n = len(S)
    Jp, Jm, Jz = (np.asarray(get(SUNM, f)(S)) for f in ("upper_ladder_matrices", "lower_ladder_matrices", "Jz_matrices"))
    d = wdim("SUN", S)
    for J in (Jp, Jm, Jz):
        K.check(J.shape == (n - 1, d, d), "ladder: shape", J.shape)
    K.close(Jp, np.swapaxes(Jm, 1, 2), "J+ is the transpose of J-", 1e-9)
    c = lambda a, b: a @ b - b @ a  # noqa
    for l in range(n - 1):
        K.close(c(Jp[l], Jm[l]), 2 * Jz[l], f"[J+,J-]=2Jz {S} {l}", 1e-9)
        K.close(c(Jz[l], Jp[l]), Jp[l], f"[Jz,J+]=J+ {S} {l}", 1e-9)
        K.close(c(Jz[l], Jm[l]), -Jm[l], f"[Jz,J-]=-J- {S} {l}", 1e-9)
        for m in range(n - 1):
            K.close(c(Jz[l], Jz[m]), 0 * Jz[l], "[Jz,Jz]", 1e-9)
            if m != l:
                K.close(c(Jp[l], Jm[m]), 0 * Jp[l], f"[J+_l,J-_m]=0 {S}", 1e-9)
                K.close(c(Jz[l], Jp[m]), (-0.5 if abs(l - m) == 1 else 0) * Jp[m], f"[Jz_l,J+_m] {S}", 1e-9)
            if abs(l - m) > 1:
                K.close(c(Jp[l], Jp[m]), 0 * Jp[l], "distant ladders commute", 1e-9)
                K.close(c(Jm[l], Jm[m]), 0 * Jp[l], "distant ladders commute", 1e-9)
            if abs(l - m) == 1:
                K.close(c(Jp[l], c(Jp[l], Jp[m])), 0 * Jp[l], f"Serre {S}", 1e-9)
                K.close(c(Jm[l], c(Jm[l], Jm[m])), 0 * Jp[l], f"Serre {S}", 1e-9)


# ------------------------------------------------------------------ C15
@group("C15", [dict(n=n) for n in range(1, 11)])
def sn(K, rng, n):
    reps = [("natural", Sn_natural, n), ("trivial", Sn_trivial, 1)]
    if n >= 2:
        reps.append(("standard", Sn_standard, n - 1))
    ng = {1: 0, 2: 1}.get(n, 2)
    cyc = tuple((i + 1) % n for i in range(n))
    D = {}
    for name, C, d in reps:
        r = C(n)
        K.check(r.dim == d, f"{name}: dim", r.dim)
        K.check(r.lie_dim == 0 and np.shape(r.X) == (0, d, d) and np.shape(r.A) == (0, 0, 0), f"{name}: no continuous generators")
        H = np.asarray(r.H)
        K.check(H.shape == (ng, d, d), f"{name}: number of generators", H.shape)
        D[name] = H
        I = np.eye(d)
        if ng >= 1:
            K.close(H[0] @ H[0], I, f"{name}: t^2", 1e-12)
        if ng == 2:
            t, c = H
            mp = np.linalg.matrix_power
            K.close(mp(c, n), I, f"{name}: c^n", 1e-12)
            K.close(mp(t @ c, n - 1), I, f"{name}: (tc)^(n-1)", 1e-12)
            ci = np.linalg.inv(c)
            K.close(mp(t @ (ci @ t @ c), 3), I, f"{name}: (t c^-1 t c)^3", 1e-9)
            for j in range(2, n - 1):
                u = mp(ci, j) @ t @ mp(c, j)
                K.close(mp(t @ u, 2), I, f"{name}: distant transpositions commute", 1e-9)
        tr = r.create_trivial()
        K.check(tr.dim == 1 and np.shape(tr.X) == (0, 1, 1) and np.shape(tr.A) == (0, 0, 0), f"{name}: create_trivial")
        K.close(tr.H, np.ones((ng, 1, 1)), f"{name}: create_trivial generators")
    nat = D["natural"]
    ps = [tuple([1, 0] + list(range(2, n))), cyc][:ng]
    for H, p in zip(nat, ps):
        M = np.zeros((n, n))
        for i in range(n):
            M[p[i], i] = 1
        K.close(H, M, "natural: permutation matrices e_i -> e_p(i)")
    if n >= 2:
        # natural = trivial + standard, through e0, e_i - e_0 ... : basis (sum e_i, e_i - e_0)
        T = np.zeros((n, n))
        T[:, 0] = 1
        for i in range(1, n):
            T[i, i], T[0, i] = 1, -1
        for a in range(ng):
            K.close(np.linalg.inv(T) @ nat[a] @ T, blockdiag([D["trivial"][a], D["standard"][a]]), "natural = trivial + standard", 1e-9)
    if n >= 1:
        f = get(lie._src.finite, "_permutation_matrix")
        for _ in range(5):
            p = tuple(int(v) for v in rng.permutation(n))
            q = tuple(int(v) for v in rng.permutation(n))
            M = f(p)
            K.check(all(M[p[i], i] == 1 for i in range(n)) and M.sum() == n, "_permutation_matrix")
            K.close(f(p) @ f(q), f(tuple(p[q[i]] for i in range(n))), "_permutation_matrix homomorphism")
            if n > 1:
                K.check(round(np.linalg.det(M)) == P.sign(p), "sign is the determinant")
        nt = get(lie._src.finite, "_num_transpositions")
        K.check(nt(n) == n * (n - 1) // 2, "_num_transpositions")


# ------------------------------------------------------------------ C20
def rs_ref(g, r):
    """independent description: positive roots as integer vectors"""
    e = np.eye(r + 1 if g == "A" else r, dtype=int)
    pos = []
    m = len(e)
    for i in range(m):
        for j in range(i + 1, m):
            pos.append(e[i] - e[j])
            if g != "A":
                pos.append(e[i] + e[j])
        if g == "B":
            pos.append(e[i])
        if g == "C":
            pos.append(2 * e[i])
    simple = [e[i] - e[i + 1] for i in range(m - 1)]
    if g == "B":
        simple.append(e[-1])
    if g == "C":
        simple.append(2 * e[-1])
    if g == "D":
        simple.append(e[-1] + e[-2])
    return np.array(simple), np.array(pos)


def exact_dim(g, r, S):
    simple, pos = rs_ref(g, r)
    # fundamental weights from the coroots, exactly, within the span of the roots
    import sympy

    G = sympy.Matrix(simple.tolist())
    gram = G * G.T
    # weights w_i = sum_j c_ij simple_j with 2<w_i,s_j>/<s_j,s_j> = delta_ij
    D = sympy.diag(*[gram[k, k] / sympy.Integer(2) for k in range(r)])
    Cm = D * gram.inv()
    W = Cm * G
    lam = sum((S[i] * W[i, :] for i in range(r)), sympy.zeros(1, G.shape[1]))
    rho = sum((W[i, :] for i in range(r)), sympy.zeros(1, G.shape[1]))
    d = sympy.Integer(1)
    for p in pos:
        p = sympy.Matrix([p.tolist()])
        d *= ((lam + rho) * p.T)[0] / (rho * p.T)[0]
    assert d.q == 1
    return int(d)


RANKS = [dict(g=g, r=r) for g in "ABCD" for r in range(1 if g == "A" else 2, 9)]


@group("C20", RANKS)
def roots(K, rng, g, r):
    s = get(LA, "structure_algebra")(g, r)
    R, Pp, F, M, rho = (np.array(s[k], dtype=float) for k in ("SimpleRoots", "PositiveRoots", "FundamentalWeights", "MaximalRoots", "WeylVector"))
    simple, pos = rs_ref(g, r)
    K.check(R.shape == simple.shape, "number of simple roots", R.shape)
    K.close(R, simple, f"{g}{r}: simple roots")
    K.check({tuple(p) for p in Pp} == {tuple(float(v) for v in p) for p in pos} and len(Pp) == len(pos), f"{g}{r}: positive roots")
    K.check(F.shape == R.shape, f"{g}{r}: number of fundamental weights", F.shape)
    co = 2 * R / np.sum(R * R, 1)[:, None]
    K.close(F @ co.T, np.eye(r), f"{g}{r}: fundamental weights dual to the coroots", 1e-9)
    K.close(rho, F.sum(0), f"{g}{r}: Weyl vector is the sum of the fundamental weights", 1e-9)
    K.close(rho, Pp.sum(0) / 2, f"{g}{r}: Weyl vector is half the sum of positive roots", 1e-9)
    C = 2 * (R @ R.T) / np.sum(R * R, 1)[:, None]
    K.close(s["CartanMatrix"], C, f"{g}{r}: Cartan matrix", 1e-9)
    K.close(s["CoxeterNumber"], 2 * len(pos) / r, f"{g}{r}: Coxeter number")
    coef = np.linalg.lstsq(R.T, Pp.T, rcond=None)[0].T
    K.close(coef @ R, Pp, "positive roots in the span", 1e-9)
    K.check(np.all(coef > -1e-9) and np.allclose(coef, np.round(coef)), f"{g}{r}: non-negative integer combinations")
    K.check(tuple(M) in {tuple(p) for p in Pp}, f"{g}{r}: highest root is a root", M)
    if not (g == "D" and r == 2):
        cm = np.linalg.lstsq(R.T, M, rcond=None)[0]
        K.check(np.all(cm - coef >= -1e-9), f"{g}{r}: highest root dominates", M)
    K.check(np.all(R @ M >= -1e-9), "highest root is dominant")


DIMS = [dict(g=g, r=r) for g in "ABCD" for r in range(1 if g == "A" else 2, 6)]


@group("C20", DIMS)
def dims(K, rng, g, r):
    s = get(LA, "structure_algebra")(g, r)
    wd = get(LA, "weyl_dim")
    F = np.array(s["FundamentalWeights"])
    for k in range(8):
        S = [int(v) for v in rng.integers(0, 4, size=r)] if k else [0] * r
        if k == 1:
            S = [1] + [0] * (r - 1)
        e = exact_dim(g, r, S)
        v = wd(sum(S[i] * F[i] for i in range(r)), s["PositiveRoots"], s["WeylVector"])
        K.check(abs(v - e) <= 1e-9 * e, f"weyl_dim {g}{r} {S}", v, e)
        if g == "A":  # cross-check with the Gelfand-Tsetlin count
            row = [sum(S[i:]) for i in range(r)] + [0]
            K.check(e == wdim("SUN", row), "Weyl vs GT", S)


@group("C20", [dict(r=r, k=k) for r in (2, 3, 4) for k in range(4)])
def spn(K, rng, r, k):
    SPN = get(SPNM, "SPN")
    A = list(itertools.product(range(4 if r < 4 else 3), repeat=r))
    for S in A[k::4]:
        e = exact_dim("C", r, S)
        d = SPN(tuple(S)).dim
        K.check(d == e and isinstance(d, int), f"SPN{S}.dim", d, e)
    for _ in range(60):  # large weights
        S = tuple(int(10 ** rng.uniform(0, 3)) for _ in range(r))
        e = exact_dim("C", r, S)
        if e < 2**48:
            d = SPN(S).dim
            K.check(d == e and isinstance(d, int), f"SPN{S}.dim", d, e)


# ------------------------------------------------------------------ C21
@group("C21", [dict(i=i) for i in range(4)])
def jaxpow(K, rng, i):
    import jax
    import jax.numpy as jnp
    import lie_nn._src.jax_utils as J

    for d in (1, 2, 3):
        F = rng.normal(size=(d, d))
        F = (F / max(1.0, np.max(np.abs(np.linalg.eigvals(F))))).astype(np.float32)
        if i == 1:
            q, _ = np.linalg.qr(F)
            F = q.astype(np.float32)
        for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 33, 64, 100, 255, 1000] + [int(v) for v in rng.integers(0, 200, size=6)]:
            ref = np.linalg.matrix_power(F.astype(np.float64), n)
            K.close(np.asarray(J.matrix_power(jnp.asarray(F), n)), ref, f"matrix_power n={n}", 2e-3 if n > 100 else 2e-4)
            if n in (0, 1, 3, 6):
                K.close(np.asarray(jax.jit(J.matrix_power)(F, n)), ref, f"jit matrix_power n={n}", 2e-4)
        if i == 2:
            ns = np.array([0, 1, 5, 8])
            out = jax.vmap(J.matrix_power)(np.stack([F] * 4), ns)
            for k, n in enumerate(ns):
                K.close(np.asarray(out[k]), np.linalg.matrix_power(F.astype(np.float64), int(n)), "vmap matrix_power", 2e-4)
    # integer and complex matrices
    for F in (rng.integers(-1, 2, size=(3, 3)), np.linalg.qr(rng.normal(size=(3, 3)) + 1j * rng.normal(size=(3, 3)))[0]):
        for n in range(7):
            K.close(np.asarray(J.matrix_power(F, n)), np.linalg.matrix_power(F, n), f"matrix_power n={n} {F.dtype}", 1e-3)
    # a nilpotent and a non-invertible matrix, an involution with a huge exponent
    N = np.array([[0, 1], [0, 0]], dtype=np.float32)
    for n, ref in ((0, np.eye(2)), (1, N), (2, 0 * N), (7, 0 * N)):
        K.close(np.asarray(J.matrix_power(N, n)), ref, f"nilpotent power {n}", 1e-6)
    for n in (10**6, 10**6 + 1, 2**30, 2**31 - 1):
        T = np.array([[0, 1], [1, 0]], dtype=np.float32)
        K.close(np.asarray(J.matrix_power(T, n)), np.linalg.matrix_power(T.astype(float), n % 2), f"involution power {n}", 1e-5)


@group("C21", [dict(fam=f) for f in ("SO3", "O3", "SU2", "SO13", "SL2C", "Z2")])
def jaxexp(K, rng, fam):
    import jax
    import jax.numpy as jnp
    import lie_nn._src.jax_utils as J

    for lab in labels(fam, 3):
        r = mk(fam, lab)
        for k in range(2):
            t = 0.7 * rng.normal(size=r.lie_dim)
            n = rng.integers(0, 4, size=len(r.H))
            a = np.asarray(J.exp_map(r, jnp.asarray(t, dtype=jnp.float32), jnp.asarray(n)))
            ref = r.exp_map(t, n)
            K.close(a, ref, f"jax exp_map {r} {n}", 5e-4)
            b = np.asarray(jax.jit(lambda x, y: J.exp_map(r, x, y))(jnp.asarray(t, dtype=jnp.float32), jnp.asarray(n)))
            K.close(b, ref, f"jit jax exp_map {r} {n}", 5e-4)
    g = generic_noncommuting(rng)
    for n in ([1, 2], [2, 1], [3, 0], [0, 1], [1, 1], [5, 6]):
        t = np.zeros(0)
        a = np.asarray(J.exp_map(Discrete(g), jnp.zeros((0,)), jnp.asarray(n)))
        K.close(a, GenericRep(np.zeros((0, 0, 0)), np.zeros((0, 3, 3)), g).exp_map(t, np.array(n)), f"order of the discrete factors {n}", 1e-4)


def generic_noncommuting(rng):
    return np.stack([np.linalg.qr(rng.normal(size=(3, 3)))[0] for _ in range(2)])


class Discrete:
    def __init__(self, H):
        self.H = H

    def discrete_generators(self):
        return self.H

    def continuous_generators(self):
        return np.zeros((0,) + self.H.shape[1:])

    def algebra(self):
        return np.zeros((0, 0, 0))

    @property
    def dim(self):
        return self.H.shape[1]


@group("C21", [dict()])
def pytree(K, rng):
    import jax
    import lie_nn._src.jax_utils as J

    @J.static_jax_pytree
    class Thing:
        l: int
        p: int

    for l in range(4):
        x = Thing(l, -1)
        leaves, td = jax.tree_util.tree_flatten(x)
        K.check(leaves == [], "pytree: no leaves", leaves)
        y = jax.tree_util.tree_unflatten(td, leaves)
        K.check(y == x and hash(y) == hash(x) and y.l == l, "pytree: round trip")
        K.check(td == jax.tree_util.tree_flatten(Thing(l, -1))[1], "pytree: static structure equal")
        K.check(td != jax.tree_util.tree_flatten(Thing(l + 1, -1))[1], "pytree: static structure distinguishes values")
        z = jax.jit(lambda t, v: v * t.l)(x, 2.0)
        K.close(float(z), 2.0 * l, "pytree under jit", 1e-6)
        K.raises(Exception, lambda: setattr(x, "l", 3), "pytree: frozen")


# ------------------------------------------------------------------ C22
def well(rng, m, n, r, cplx):
    """m x n of rank r with singular values in [0.5, 2]"""
    a, _ = np.linalg.qr(cx(rng, (m, m), cplx))
    b, _ = np.linalg.qr(cx(rng, (n, n), cplx))
    return a[:, :r] @ np.diag(rng.uniform(0.5, 2, size=r)) @ b[:r]


def proj(B):
    """projector on the row span"""
    u, s, vh = np.linalg.svd(B, full_matrices=False)
    v = vh[s > 1e-6]
    return v.conj().T @ v


@group("C22", [dict(i=i) for i in range(40)])
def subspaces(K, rng, i):
    cplx = bool(i % 2)
    u = lie.util
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 7))
    r = int(rng.integers(0, min(m, n) + 1))
    A = well(rng, m, n, r, cplx)
    if not cplx:
        A = A.real
    A0 = A.copy()
    G = u.gram_schmidt(A)
    K.check(G.shape == (r, n), "gram_schmidt: shape", G.shape, r)
    K.close(G @ G.conj().T, np.eye(r), "gram_schmidt: orthonormal", 1e-7)
    if r:
        K.close(proj(G), proj(A), "gram_schmidt: row space", 1e-6)
    K.close(A, A0, "input unchanged", 0)
    Q = u.extend_basis(A, returns="Q")
    K.check(Q.shape == (n, n), "extend_basis: shape", Q.shape)
    K.close(Q @ Q.conj().T, np.eye(n), "extend_basis: orthonormal", 1e-6)
    if r:
        K.close(Q[:r], G, "extend_basis: starts with the basis of the row space", 1e-9)
    E = u.extend_basis(A, returns="E")  # no row for a full rank
    K.check(E.shape == (n - r, n), "extend_basis: shape of E", E.shape)
    K.close(E, Q[r:], "extend_basis: E are the added rows", 1e-9)
    N = u.nullspace(A)
    K.check(N.shape == (n - r, n), "nullspace: dimension", N.shape, n - r)
    K.close(N @ N.conj().T, np.eye(n - r), "nullspace: orthonormal", 1e-6)
    K.close(A @ N.T, np.zeros((m, n - r)), "nullspace: A X^T = 0", 1e-6)
    # sequential
    parts = [well(rng, int(rng.integers(1, 4)), n, 1, cplx) for _ in range(3)]
    if not cplx:
        parts = [p.real for p in parts]
    full = np.concatenate(parts)
    sv = np.linalg.svd(full, compute_uv=False)
    if np.all((sv > 0.05) | (sv < 1e-9)):
        dn = n - int(np.sum(sv > 0.05))
        S = u.sequential_nullspace(iter(parts), dn)
        K.check(S.shape == (dn, n), "sequential_nullspace: dimension", S.shape, dn)
        if dn == n - np.linalg.matrix_rank(full) and S.shape[0] == dn:
            K.close(full @ S.T, np.zeros((len(full), dn)), "sequential_nullspace: joint null space", 1e-5)
            K.close(S @ S.conj().T, np.eye(dn), "sequential_nullspace: orthonormal", 1e-5)
        if dn > 0:
            K.raises(ValueError, lambda: u.sequential_nullspace(iter(parts), dn - 1), "sequential_nullspace: never reached")
        S2 = u.sequential_nullspace(iter(parts), n)  # reached after the first matrix at the latest
        K.close(parts[0] @ S2.T, np.zeros((len(parts[0]), len(S2))), "sequential_nullspace: first matrix", 1e-5)
    K.raises(ValueError, lambda: u.sequential_nullspace(iter([]), 0), "sequential_nullspace: nothing given")


@group("C22", [dict(i=i) for i in range(40)])
def intersections(K, rng, i):
    cplx = bool(i % 2)
    n = int(rng.integers(2, 7))
    q, _ = np.linalg.qr(cx(rng, (n, n), cplx))
    c = int(rng.integers(0, n))  # common
    a = int(rng.integers(0, n - c + 1))
    b = int(rng.integers(0, n - c - a + 1))
    if c + a == 0 or c + b == 0:
        a, b, c = 1, 0, 1
    com, ea, eb = q[:c], q[c : c + a], q[c + a : c + a + b]
    B1 = rmat(rng, c + a, cplx) @ np.concatenate([com, ea])
    B2 = rmat(rng, c + b, cplx) @ np.concatenate([com, eb])
    shape = (n,)
    if n % 2 == 0 and i % 4 < 2:
        B1, B2 = B1.reshape(-1, 2, n // 2), B2.reshape(-1, 2, n // 2)
    P1, P2 = lie.util.basis_intersection(B1, B2)
    F1, F2 = B1.reshape(len(B1), -1), B2.reshape(len(B2), -1)
    K.check(P1.shape == (c, len(F1)) and P2.shape == (c, len(F2)), f"basis_intersection: dimension {shape}", P1.shape, P2.shape, c)
    K.close(P1 @ P1.conj().T, np.eye(c), "basis_intersection: orthonormal P1", 1e-5)
    K.close(P2 @ P2.conj().T, np.eye(c), "basis_intersection: orthonormal P2", 1e-5)
    if c:
        K.close(proj(P1 @ F1), proj(com), "basis_intersection: P1 B1 spans the intersection", 1e-4)
        K.close(proj(P2 @ F2), proj(com), "basis_intersection: P2 B2 spans the intersection", 1e-4)
    else:
        # families that do not meet
        K.check(P1.shape[0] == 0 and P2.shape[0] == 0, "empty intersection")


@group("C22", [dict(i=i) for i in range(12)])
def clusters(K, rng, i):
    f = lie.util.unique_with_tol
    k = int(rng.integers(1, 5))
    shape = [(), (2,), (2, 3)][i % 3]
    cent = rng.normal(size=(k,) + shape)
    cent = cent + 5 * np.arange(k).reshape((k,) + (1,) * len(shape))
    idx = rng.integers(0, k, size=int(rng.integers(1, 12)))
    a = cent[idx] + 1e-5 * rng.normal(size=(len(idx),) + shape)
    if i % 2:
        a = a.astype(complex)
    c, inv = f(a, tol=1e-2)
    order = []
    for v in idx:
        if v not in order:
            order.append(v)
    K.check(list(inv) == [order.index(v) for v in idx], "unique_with_tol: stable index map", list(inv))
    ref = np.stack([a[idx == v].mean(axis=0) for v in order])
    K.close(c, ref, "unique_with_tol: means", 1e-9)
    K.raises(ValueError, lambda: f(np.array([0.0, 1.0, 0.5]) if i % 2 else np.array([0.0, 2.0, 1.0]), tol=0.7 if i % 2 else 1.2), "overlapping clusters")
    val = np.array([1.0, 2.0, 1.0, 3.0])
    vec = rng.normal(size=(5, 4))
    es = get(U, "eigenspaces")(val, vec)
    K.check(len(es) == 3 and [float(np.real(e[0])) for e in es] == [1.0, 2.0, 3.0], "eigenspaces: values")
    for v, W in es:
        K.close(W, vec[:, val == v], "eigenspaces: columns", 1e-12)
