"""C12: permutations and the groups they generate."""
import itertools

import lie_nn._src.reduced_tensor_product as rtp
from lie_nn._src.discrete_groups import perm
from vlib.sym.contract import contract

M = "lie_nn._src.discrete_groups.perm."


def closure(s):
    """oracle: all products of the elements of a set of permutations"""
    out, new = set(s), set(s)
    while new:
        new = {tuple(p[i] for i in q) for p in out for q in s} - out
        out |= new
    return out


@contract("C12 C13", samples=20, targets=[M + "germinate"], assumes=["compose and inverse (proved: composition, inversion)", "a set contains no fewer elements than its subsets, and no more only if equal"])
def germinate(c):
    """the smallest set that contains the given one and is closed under products and inverses"""
    if not c.symbolic:
        n = c.choose("n", [1, 2, 3, 4, 5])
        points = list(itertools.permutations(range(n)))
        s = {points[c.int(f"p{k}", 0, len(points), sample=(0, len(points)))] for k in range(c.choose("size", [1, 2, 3]))}
        before = set(s)
        t = perm.germinate(s)
        c.ensure("the given set", s == before)
        c.ensure("the group", set(t) == closure(s))
        return
    compose, inverse = lambda p, q: c.operation("compose", p, q), lambda p: c.operation("inverse", p)
    c.override(perm.compose, compose)
    c.override(perm.inverse, inverse)
    S, G, T = c.abstract_set("S"), c.abstract_set("G"), c.abstract_set("T")
    ops = ((compose, 2), (inverse, 1))
    # G: any closed set that contains S
    c.assume(S.issubset(G))
    c.assume(c.closed_under(G, *ops))
    most = c.int("N", 1)  # n!

    def inv(w):
        return [("the given elements", S.issubset(w["subset"])), ("generated elements", w["subset"].issubset(G))]

    c.loop(perm.germinate, "closure", inv, lambda w: {"subset": T}, facts=lambda w: c.assume(len(T) <= most),
           step=lambda w, z: [("more elements", len(z["subset"]) > len(w["subset"]))])
    R = c.call(perm.germinate, S)
    c.ensure("contains the given set", S.issubset(R))
    c.ensure("no other elements than the generated ones", R.issubset(G))
    c.ensure("closed", c.closed_under(R, *ops))


def _compose(p, q):
    return tuple(p[i] for i in q)


@contract("C12", samples=60, targets=[M + "is_group"], assumes=["compose, inverse and identity (proved: composition, inversion, identity)"])
def recognise_groups(c):
    """is_group accepts exactly the nonempty sets of permutations of one degree that contain the identity, inverses and products"""
    if not c.symbolic:
        n = c.choose("n", [1, 2, 3, 4])
        points = list(itertools.permutations(range(n)))
        g = {points[c.int(f"p{k}", 0, len(points), sample=(0, len(points)))] for k in range(c.choose("size", [0, 1, 2, 3]))}
        g = c.choose("kind", [frozenset, closure])(g)
        lost = c.choose("without", [None, 0, 1, 2])
        if lost is not None:
            g = frozenset(sorted(g)[:lost] + sorted(g)[lost + 1 :])
        before = set(g)
        good = tuple(range(n)) in g and all(_compose(p, q) in g for p in g for q in g)
        c.ensure("exactly the groups", c.call(perm.is_group, g) == good)
        c.ensure("the argument", set(g) == before)
        return
    compose, inverse = lambda p, q: c.operation("compose", p, q), lambda p: c.operation("inverse", p)
    one = c.operation("identity", 0)
    c.override(perm.compose, compose)
    c.override(perm.inverse, inverse)
    n = c.int("n", 1)

    def identity(m):
        c.ensure("identity of the degree", m == n)
        return one

    c.override(perm.identity, identity)
    G = c.abstract_set("G", n)
    r = c.call(perm.is_group, G)
    good = c.member(G, one) & c.closed_under(G, (compose, 2), (inverse, 1))
    c.ensure("exactly the groups", c.iff(r, good))


FORMULAS = ["ij=ji", "ij=-ji", "abc=bac=bca", "ijk=-jik=-ikj", "ijkl=jikl=klij", "ijkl=-jikl=-ijlk=klij", "ijkl=-ijkl", "ijk=jki", "ijklm=-jiklm=jklmi"]


def generators(formula):
    """the signed permutations p with f0[i] = f[p[i]] up to the sign, for each formula f (f0: the first one)"""
    out = []
    fs = formula.split("=")
    for f in fs:
        s, g = (-1, f[1:]) if f[0] == "-" else (1, f)
        out += [(s, tuple([k for x in fs[0] for k in range(len(g)) if g[k] == x]))]
    return out


def code(p):
    out = 0
    for x in p:
        out = 10 * out + x + 1
    return out


@contract("C13", samples=30, targets=["lie_nn._src.reduced_tensor_product.germinate_perm_repr"], bounded="the formulas listed there and the random ones of the samples (their closure: any number of rounds)",
          assumes=["compose and inverse (proved: composition, inversion)", "a set contains no fewer elements than its subsets, and no more only if equal"])
def germinate_formula(c):
    """the smallest set of signed permutations that contains those of the formula and is closed under products and inverses"""
    if not c.symbolic:
        n = c.choose("n", [1, 2, 3, 4, 5])
        points = list(itertools.permutations("ijklm"[:n]))
        fs = ["ijklm"[:n]] + ["".join(points[c.int(f"p{k}", 0, len(points), sample=(0, len(points)))]) for k in range(c.choose("size", [0, 1, 2]))]
        fs = fs[:1] + [c.choose(f"s{k}", ["", "-"]) + f for k, f in enumerate(fs[1:])]
        gens = set(generators("=".join(fs)))
        group, new = set(gens), set(gens)
        while new:
            new = {(s * t, _compose(p, q)) for s, p in group for t, q in gens} - group
            group |= new
        f0, got = c.call(rtp.germinate_perm_repr, "=".join(fs))
        c.ensure("reference", f0 == fs[0])
        c.ensure("the group", got == group)
        return
    compose, inverse = lambda p, q: c.operation("compose", p, q), lambda p: c.operation("inverse", p)
    c.override(perm.compose, compose)
    c.override(perm.inverse, inverse)
    formula = c.choose("formula", FORMULAS)
    gens = [(s, code(p)) for s, p in generators(formula)]
    T = c.signed_set("T")
    product, inverses = (lambda x, y: (x[0] * y[0], compose(x[1], y[1])), 2), (lambda x: (x[0], inverse(x[1])), 1)
    closed = formula == FORMULAS[0] and c.choose("closed", [True, False])
    if not closed:
        G = c.signed_set("G")  # any closed set that contains the generators
        for x in gens:
            c.assume(c.member(G, x))
        c.assume(c.closed_signed(G, product, inverses))
    most = c.int("N", 1)  # 2 n!

    def inv(w):
        W = c.signed_points(w["perm_repr"], code)
        if closed:
            return []
        return [("the formulas", c.member(W, x)) for x in gens] + [("generated elements", W.issubset(G))]

    c.loop(rtp.germinate_perm_repr, "closure", inv, lambda w: {"perm_repr": T}, facts=lambda w: c.assume(len(T) <= most),
           step=lambda w, z: [("more elements", len(z["perm_repr"]) > len(w["perm_repr"]))])
    f0, R = c.call(rtp.germinate_perm_repr, formula)
    c.ensure("reference", f0 == formula.split("=")[0])
    if closed:
        c.lemma("nothing new in the last round", R.issubset(T))
        c.ensure("inverses", c.closed_signed(R, inverses))
        c.ensure("products", c.closed_signed(R, product))
    else:
        for x in gens:
            c.ensure("contains the formulas", c.member(R, x))
        c.ensure("no other elements than the generated ones", R.issubset(G))


@contract("C12 C13", targets=[M + "compose"], assumes=["is_perm(p) is true for a permutation (evaluated with bounds)"])
def composition(c):
    """compose(p, q)(i) = p(q(i))"""
    n = c.int("n", 1, sample=(1, 7))
    c.override(perm.is_perm, lambda p: True)
    p, q = c.permutation("p", n), c.permutation("q", n)
    r = c.call(perm.compose, p, q)
    c.ensure("length", len(r) == n)
    i = c.int("i", 0, n)
    c.ensure("p(q(i))", r[i] == p[q[i]])
    m = c.int("m", 1, sample=(1, 7))
    c.assume(m != n)
    c.raises("of different lengths", AssertionError, perm.compose, p, c.permutation("o", m))


@contract("C12 C13", targets=[M + "inverse"])
def inversion(c):
    n = c.int("n", 1, sample=(1, 7))
    p = c.permutation("p", n)
    r = c.call(perm.inverse, p)
    c.ensure("length", len(r) == n)
    i = c.int("i", 0, n)
    c.ensure("p(inverse(i)) = i", p[r[i]] == i)
    c.ensure("inverse(p(i)) = i", r[p[i]] == i)


@contract("C12", targets=[M + "identity"])
def identity(c):
    n = c.int("n", 1, sample=(1, 7))
    r = c.call(perm.identity, n)
    c.ensure("length", len(r) == n)
    i = c.int("i", 0, n)
    c.ensure("i", r[i] == i)


@contract("C12", targets=[M + "is_perm"], bounded="tuples of at most 4 integers (arbitrary ones)", samples=40)
def recognise(c):
    """is_perm accepts exactly the tuples in which each of 0, ..., n - 1 occurs"""
    n = c.choose("n", [1, 2, 3, 4])
    p = tuple(c.int(f"p{i}", sample=(-1, n + 1)) for i in range(n))
    spec = True
    for i in range(n):
        spec = spec & c.member(p, i)
    r = c.call(perm.is_perm, p)
    c.ensure("exactly the permutations", c.iff(r, spec))
