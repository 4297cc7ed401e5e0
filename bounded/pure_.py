"""Bounded contract evaluation for C17: purity and history independence."""
import itertools
import numpy as np
import lie_nn as lie
import lie_nn._src.util as U
import lie_nn._src.discrete_groups.perm as P
import lie_nn._src.irreps.sun as SUNM
import lie_nn._src.reduced_tensor_product as R
from lie_nn import ReducedRep, MulIrrep, GenericRep
from lie_nn.finite import Sn_natural, Sn_standard, Sn_trivial
from vlib.harness import group, get
from ._kit import *
from .utils_ import sqrtQ, cx


def snap(x, depth=0):
    """a deep, comparable copy of a value"""
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, x.dtype.kind, x.copy())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return ("dict", [(k, snap(x[k], depth + 1)) for k in sorted(x, key=str)])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, lie.Rep):
        s = ["rep", type(x).__name__, repr(x) if isinstance(x, lie.TabulatedIrrep) else ""]
        for a in ("A", "X", "H", "dim"):
            try:
                s.append(snap(getattr(x, a), depth + 1))
            except (NotImplementedError, AttributeError):
                s.append(None)
        if isinstance(x, ReducedRep):
            s.append(snap(x.Q, depth + 1))
            s.append([(m.mul, repr(m.rep)) for m in x.irreps])
        if isinstance(x, MulIrrep):
            s.append((x.mul, repr(x.rep)))
        return tuple(s)
    if hasattr(x, "irreps") and hasattr(x, "list"):
        return ("IA", [(m.mul, repr(m.rep)) for m in x.irreps], snap(x.list))
    if isinstance(x, (int, float, complex, str, bytes, type(None), np.generic)):
        return x
    return repr(type(x))


def same(a, b, tol=1e-7):
    if isinstance(a, tuple) and len(a) == 4 and a[0] == "arr":
        return (
            isinstance(b, tuple)
            and len(b) == 4
            and a[1] == b[1]
            and (a[3].size == 0 or bool(np.allclose(a[3], b[3], rtol=tol, atol=tol, equal_nan=True)))
        )
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.generic)) and not isinstance(a, (bool, np.bool_)):
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return a == b


def call(f, args):
    try:
        return f(*args)
    except Exception as e:  # a failing call is part of the history too
        return ("raised", type(e).__name__)


def operations(rng):
    """(name, function, arguments, comparable) - public operations on random but reproducible arguments"""
    u = lie.util
    ops = []
    add = lambda name, f, *a, cmp=True: ops.append((name, f, a, cmp))  # noqa
    A = rng.normal(size=(2, 3, 3))
    B = rng.normal(size=(2, 2, 4))
    cA = cx(rng, (3, 3), True)
    fams = ["SU2", "SO3", "O3", "SL2C", "SO13", "SU3", "SU2_", "Z2", "SU2Real"]
    irs = {f: [mk(f, l) for l in labels(f, 3)] for f in fams}
    for f in fams:
        x, y = irs[f][1 % len(irs[f])], irs[f][-1]
        for p in ("A", "X", "H", "dim", "lie_dim"):
            add(f"{f}.{p}", lambda r, p=p: getattr(r, p), y)
        for p in ("algebra", "continuous_generators", "discrete_generators", "is_trivial", "create_trivial"):
            if hasattr(y, p):
                add(f"{f}.{p}()", lambda r, p=p: getattr(r, p)(), y)
        add(f"{f} iterator", lambda C: list(itertools.islice(C.iterator(), 6)), type(y))
        add(f"{f} mul", lambda a, b: list(a * b), x, y)
        if f != "SU2Real":
            z = list(x * y)[0]
            add(f"{f} cg", lambda a, b, c: type(a).clebsch_gordan(a, b, c), x, y, z)
        add(f"{f} exp_map", lambda r, t, n: r.exp_map(t, n), y, 0.5 * rng.normal(size=y.lie_dim), rng.integers(0, 3, size=len(y.H)))
    so3, su2, su3 = lie.irreps.SO3, lie.irreps.SU2, lie.irreps.SU3
    for b in (so3, su2):
        r = ReducedRep.from_irreps([(1, b(0)), (2, b(1)), b(2)])
        rq = ReducedRep.from_irreps([b(1), b(0)], sqrtQ(rng, b(0).dim + b(1).dim, b is su2))
        g = GenericRep.from_rep(rq)
        reps = [r, rq, g, b(1), MulIrrep(2, b(1))]
        for k, s in enumerate(reps):
            n = f"{b.__name__}#{k}"
            for p in ("A", "X", "H", "dim", "lie_dim"):
                add(f"{n}.{p}", lambda q, p=p: getattr(q, p), s)
            add(f"{n} change_basis", lie.change_basis, s, rmat(rng, s.dim, True))
            add(f"{n} change_algebra", lie.change_algebra, s, rmat(rng, s.lie_dim))
            add(f"{n} conjugate", lie.conjugate, s)
            add(f"{n} tp", lie.tensor_product, s, reps[(k + 1) % 5])
            add(f"{n} tpg", lie.tensor_product, s, g)
            if s.dim < 5:
                add(f"{n} power", lie.tensor_power, s, 2)
            add(f"{n} direct_sum", lie.direct_sum, s, reps[(k + 2) % 5])
            add(f"{n} infer", lie.infer_change_of_basis, s, s)
            add(f"{n} unitary", lie.is_unitary, s)
            add(f"{n} trivial", lambda q: q.is_trivial(), s)
            add(f"{n} create_trivial", lambda q: q.create_trivial(), s)
            add(f"{n} is_irreducible", lie.is_irreducible, s)
            add(f"{n} is_real", lie.is_real, s)
            add(f"{n} explicit", lie.make_explicitly_real, s)
            add(f"{n} reduce", lambda q: lie.reduce(q).dim, s)
            add(f"{n} exp", lambda q, t: q.exp_map(t, np.zeros(0, dtype=int)), s, rng.normal(size=3))
            add(f"{n} rmul", lambda q: (2 * q) if hasattr(q, "__rmul__") else None, s)
        add("cg generic", lambda a, c: lie.clebsch_gordan(a, a, c), g, GenericRep.from_rep(b(0)))
        add("rtp", lambda q: lie.reduced_tensor_product_basis("ij=ji", i=q).array, r if b is so3 else rq)
        add("rtp-", lambda q: lie.reduced_tensor_product_basis("ijk=-jik=-ikj", i=q).array, ReducedRep.from_irreps([b(2)]))
        add("rtp list", lambda q, s: lie.reduced_tensor_product_basis([q, s]).array, rq, r)
        add("sym", lambda q: lie.reduced_symmetric_tensor_product_basis(q, 3).array, ReducedRep.from_irreps([b(1)]))
        add("failing rtp", lambda q: lie.reduced_tensor_product_basis("ij=jk", i=q), rq)
        add("failing rtp2", lambda q: lie.reduced_tensor_product_basis("ij=ji", i=q, k=q), rq)
    add("mismatch", lie.tensor_product, so3(1), su3((1, 0, 0)))
    add("mismatch2", lie.direct_sum, so3(1), lie.irreps.Z2(1))
    pr = lie.group_product(so3(1), lie.irreps.O3(1, -1))
    add("group_product.X", lambda q: (q.A, q.X, q.H), pr)
    add("group_product", lambda a, b: (lambda q: (q.A, q.X, q.H))(lie.group_product(a, b)), GenericRep.from_rep(so3(1)), GenericRep.from_rep(lie.irreps.Z2(-1)))
    for n in (1, 2, 3, 4):
        for C in (Sn_natural, Sn_standard, Sn_trivial):
            if n == 1 and C is Sn_standard:
                continue
            add(f"{C.__name__}{n}", lambda q: (q.H, q.X, q.A), C(n))
    add("util.direct_sum", u.direct_sum, A, B)
    add("util.block_diagonal", u.block_diagonal, [A, B])
    add("util.kron", u.kron, A[0], B[0], cA)
    add("util.commutator", u.commutator, A, A[::-1].copy())
    for nm, M in (("r", A[0]), ("c", cA)):
        add(f"gram_schmidt {nm}", u.gram_schmidt, M)
        add(f"extend_basis {nm}", u.extend_basis, M[:2].copy())
        add(f"extend_basisE {nm}", lambda m: u.extend_basis(m, returns="E"), M[:2].copy())
        add(f"nullspace {nm}", u.nullspace, M[:2].copy())
        add(f"nullspace round {nm}", lambda m: u.nullspace(m, round_fn=u.round_to_sqrt_rational), np.round(M[:1]))
        add(f"seq {nm}", lambda a, b: u.sequential_nullspace([a, b], 1), M[:1].copy(), M[1:2].copy())
        add(f"seq fail {nm}", lambda a: u.sequential_nullspace([a], 0), M[:1].copy())
        add(f"inter {nm}", u.basis_intersection, M[:2].copy(), M[1:].copy())
    add("unique", lambda v: u.unique_with_tol(v, tol=0.1), np.array([[1.0, 2], [3, 4], [1.0, 2]]))
    add("round", u.round_to_sqrt_rational, A)
    add("round c", u.round_to_sqrt_rational, cA)
    add("ratio", u.as_approx_integer_ratio, A)
    add("limit", lambda n, d: u.limit_denominator(n, d, 17), np.array([355, -22, 1]), np.array([113, 7, 3]))
    add("infer_algebra", u.infer_algebra_from_generators, np.asarray(so3(1).X).copy())
    add("check_algebra", u.check_algebra_vs_generators, np.asarray(so3(1).A).copy(), np.asarray(so3(1).X).copy())
    add("regular", u.regular_representation, np.array([[0, 1], [1, 0]]))
    add("decompose", lambda X: sorted(len(y[0]) for y in u.decompose_rep_into_irreps(X)), np.asarray(ReducedRep.from_irreps([so3(1), so3(0)]).X).copy())
    add("vmap0", lambda x: u.vmap(lambda a: a, out_shape=[3])(x), np.zeros((0, 3)))
    shp = [3, 2]
    add("vmap shape list", lambda s, x: u.vmap(lambda a: a, out_shape=s)(x), shp, np.zeros((0, 3, 2)))
    add("perm", lambda p, q: (P.compose(p, q), P.inverse(p), P.sign(p), sorted(P.to_cycles(p)), P.to_int(p)), (2, 0, 1, 3), (1, 0, 3, 2))
    add("germinate", lambda s: sorted(P.germinate(s)), {(1, 2, 0)})
    add("is_group", P.is_group, {(0, 1, 2), (1, 0, 2)})
    for S in ((2, 1, 0), (2, 0), (1, 1, 0, 0)):
        for nm in ("dim", "upper_ladder_matrices", "lower_ladder_matrices", "Jz_matrices", "generators", "algebra"):
            if hasattr(SUNM, nm):
                add(f"sun.{nm}{S}", getattr(SUNM, nm), S)
        add(f"sun.Ms{S}", lambda s: list(SUNM.S_to_Ms(s)), S)
    add("sun cg", lambda a, b, c: SUNM.clebsch_gordan_matrix(a, b, c), (1, 0, 0), (1, 1, 0), (2, 1, 0))
    add("from_string", lambda s: ReducedRep.from_string(s, so3).dim, "2x0 + 1")
    add("from_string fail", lambda s: ReducedRep.from_string(s, so3), "2x")
    return ops


# results that legitimately depend on random numbers or may differ in their choice of basis
def _arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _arrays(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from _arrays(y)
    elif isinstance(x, lie.Rep):
        for a in ("A", "X", "H"):
            try:
                v = getattr(x, a)
            except Exception:
                continue
            if isinstance(v, np.ndarray):
                yield v
        if isinstance(x, ReducedRep) and isinstance(x.Q, np.ndarray):
            yield x.Q


@group("C17", [dict(part=k) for k in range(8)])
def purity(K, rng, part):
    rng = np.random.default_rng(5)
    ops = operations(rng)
    for k, (name, f, args, cmp) in enumerate(ops):
        if k % 8 != part:
            continue
        before = snap(list(args))
        r1 = call(f, args)
        s1 = snap(r1)
        K.check(same(before, snap(list(args)), 0), f"{name} modifies its arguments")
        r2 = call(f, args)
        K.check(same(s1, snap(r2)), f"{name}: second call gives another result")
        K.check(same(s1, snap(r1), 0), f"{name}: result changed by the second call")
        K.check(same(before, snap(list(args)), 0), f"{name} modifies its arguments (second call)")
        # scribbling over the returned arrays must not change later results or the arguments,
        # unless the array is the argument itself (views of the arguments are allowed)
        own = [id(b) for x in args for b in _arrays(x)] if False else []
        mem = [b for x in args for b in _arrays(x)]
        wrote = False
        for a in _arrays(r2):
            if any(np.shares_memory(a, b) for b in mem) or a.size == 0 or not a.flags.writeable:
                continue
            try:
                a[...] = a + 1
                wrote = True
            except Exception:
                pass
        if wrote:
            r3 = call(f, args)
            K.check(same(s1, snap(r3)), f"{name}: writing into a returned array changes later results")
        del own


@group("C17", [dict(i=i) for i in range(8)])
def history(K, rng, i):
    """each operation gives the same result after a random history of other operations"""
    base = [snap(call(f, a)) for (_, f, a, _) in operations(np.random.default_rng(100 + i))]
    ops = operations(np.random.default_rng(100 + i))
    order = [int(v) for v in rng.permutation(len(ops))]
    for k in order:
        name, f, a, _ = ops[k]
        K.check(same(base[k], snap(call(f, a))), f"{name}: depends on earlier calls")


@group("C17", [dict(i=i) for i in range(4)])
def failing_history(K, rng, i):
    """caches and class-level state survive failing calls and mutation by the caller"""
    f = R.germinate_perm_repr
    a = f("ijk=jik=ikj")
    for bad in ("ij=jk", "ii=ii", "ij=kl"):
        call(f, (bad,))
    K.check(f("ijk=jik=ikj") == a, "germinate_perm_repr after failures")
    so3 = lie.irreps.SO3
    r = ReducedRep.from_irreps([(2, so3(1))])
    o1 = lie.reduced_tensor_product_basis("ij=ji", i=r)
    c1 = o1.array.copy()
    for x in o1.list:
        if x.flags.writeable:
            x *= 0
    if o1.array.flags.writeable:
        o1.array[...] = 7
    o2 = lie.reduced_tensor_product_basis("ij=ji", i=r)
    K.close(o2.array, c1, "reduced_tensor_product_basis after its result was overwritten")
    for _ in range(2):
        call(lie.reduced_tensor_product_basis, ("ij=jj",))
    K.close(lie.reduced_tensor_product_basis("ij=ji", i=r).array, c1, "after failures")
    # iterators are independent of each other
    it1, it2 = so3.iterator(), so3.iterator()
    next(it1), next(it1)
    K.check(next(it2) == so3(0), "iterators are independent")
    # equality and hash
    for fam in FAMS:
        for l in labels(fam, 4):
            x, y = mk(fam, l), mk(fam, l)
            K.check(x == y and hash(x) == hash(y), "equal labels are equal and hash alike", fam, l)


@group("C17", [dict(i=i) for i in range(2)])
def cached_bases(K, rng, i):
    """the cached permutation bases are the same after any calls; the steps of the reduction do not modify their arguments"""
    irreps = [lie.irreps.SO3(1), lie.irreps.SU2(1), O3(1, -1)]
    seen = []
    for formula in ("ij=ji", "ij=-ji", "ijk=jik=kij", "ijk=-jik=kij", "ijk=jki"):
        f0, g = R.germinate_perm_repr(formula)
        for dims in ((2,) * len(f0), (3,) * len(f0)):
            b = R.reduce_permutation_base(g, dims)
            m = R.reduce_permutation_matrix(b, dims)
            s = R.reduce_subgroup_permutation(frozenset(range(len(f0))), g, dims)
            seen.append((formula, dims, g, b, m, m.copy(), s, s.copy(), frozenset(b), R.full_base_fn(dims), list(R.full_base_fn(dims))))
    for ir in irreps:
        for formula in ("ij=-ji", "ij=ji", "ijk=-jik=kij", "ijk=jki"):
            call(lambda: lie.reduced_tensor_product_basis(formula, i=ReducedRep.from_irreps([ir])), ())
        lie.reduced_symmetric_tensor_product_basis(ReducedRep.from_irreps([ir]), 2)
    for formula, dims, g, b, m, m0, s, s0, b0, fb, fb0 in seen:
        K.check(np.array_equal(m, m0) and np.array_equal(s, s0) and b == b0 and fb == fb0, "a cached basis was modified", formula, dims)
        K.check(np.array_equal(R.reduce_permutation_matrix(b, dims), m0), "reduce_permutation_matrix gives another result", formula, dims)

    def basis(p):
        w = np.linalg.qr(rng.normal(size=(len(p), len(p))))[0]
        l = [np.einsum("pij,pud->ijud", p, w[:, : mul * d].reshape(len(p), mul, d)) for mul, d in ((2, 1), (1, 3))]
        return R.IrrepsArray(irreps=(lie.MulIrrep(2, lie.irreps.SO3(0)), lie.MulIrrep(1, lie.irreps.SO3(1))), list=l)

    for formula in ("ij=ji", "ij=-ji"):
        _, g = R.germinate_perm_repr(formula)
        p = R.reduce_permutation_matrix(R.reduce_permutation_base(g, (3, 3)), (3, 3)).copy() * -1
        a, b = basis(p), basis(p)
        before = [x.copy() for x in a.list + b.list + [p]]
        ia = a.irreps
        R.constrain_rotation_basis_by_permutation_basis(a, p)
        R.reduce_basis_product(a, b)
        a.sorted(), a.simplify(), a.reshape((9, -1)), a.array
        K.check(all(np.array_equal(x, y) for x, y in zip(before, a.list + b.list + [p])) and a.irreps == ia, "a step of the reduction modifies its arguments", formula)
