"""C14: Gelfand-Tsetlin patterns."""
from fractions import Fraction

import numpy as np

from lie_nn._src.irreps import sun
from vlib.sym.contract import contract

M = "lie_nn._src.irreps.sun."


def row(c, n, lo=None):
    """a weakly decreasing row of n integers"""
    S = [c.int("s", lo, sample=(-3, 4))]
    for i in range(n - 1):
        S.append(S[-1] + c.int(f"a{i}", 0, sample=(0, 4)))
    return tuple(S[::-1])


def weyl(S):
    d = 1
    for j in range(len(S)):
        for i in range(j):
            d = d * (S[i] - S[j] + j - i) / (j - i)
    return d


@contract("C14 C01", targets=[M + "dim"], bounded="rows of at most 5 integers (arbitrary ones)")
def dimension(c):
    S = row(c, c.choose("N", [1, 2, 3, 4, 5]))
    c.ensure("Weyl's formula", sun.dim(S) == weyl(S))


@contract("C14", targets=[M + "S_to_Ss"], bounded="rows of at most 5 integers (arbitrary ones)")
def next_rows(c):
    """S_to_Ss(S): exactly the rows that interlace S, each once; their dimensions add up to that of S, i.e. dim(S) is the number of
    patterns, by induction"""
    n = c.choose("N", [2, 3, 4, 5])
    S = row(c, n)
    x = tuple(c.int(f"x{i}", sample=(-3, 6)) for i in range(n - 1))
    spec = True
    for i in range(n - 1):
        spec = spec & (S[i] >= x[i]) & (x[i] >= S[i + 1])
    out = c.call(sun.S_to_Ss, S)
    if not c.symbolic:
        out = list(out)
    c.ensure("interlacing rows", c.iff(c.member(out, x), spec))
    c.distinct("each row once", out)
    c.total("dimensions add up", out, sun.dim, sun.dim(S))


def enumeration(c, n):
    """the contract of S_to_Ss (proved: next_rows): K different rows r(k), and their dimensions add up: before(k) is the number of the
    patterns with a second row r(q), q < k"""
    K = c.int("K", 1)
    before = (lambda k: k) if n == 2 else (lambda k: c.family("before", k))

    def r(k):
        x = [c.family(f"r{n - 2}", k, None)]
        for i in range(n - 2):
            x.append(x[-1] + c.family(f"r{n - 3 - i}", k))
        return tuple(x[::-1])

    c.override(sun.S_to_Ss, lambda S: c.seq("rows", K, r))
    c.override(sun.dim, lambda S: before(K) if len(S) == n else before(c.index_of(S[-1]) + 1) - before(c.index_of(S[-1])))
    c.assume(before(0) == 0)
    # the contracts for shorter rows; the third and the following rows of a pattern are represented by their index
    c.recursion(sun.S_to_Ms, lambda S: [(S,)] if n == 2 else c.seq("patterns", before(c.index_of(S[-1]) + 1) - before(c.index_of(S[-1])), lambda i: (S, i)))
    c.recursion(sun.index_to_M, lambda S, j: (S,) if n == 2 else (S, j))
    c.recursion(sun.M_to_index, lambda M: 0 if n == 2 else M[1])
    return K, before, r


def nothing(*a):
    pass


def subtract(c, before, i, facts=lambda q: None):
    """the loop of index_to_M: the patterns of the rows so far are skipped"""

    def state(q):
        c.assume(before(q) <= i)
        facts(q)
        return {"index": i - before(q)}

    def check(q, v):
        c.ensure("index: rows so far subtracted", v["index"] == i - before(q + 1))
        c.ensure("index: not negative", v["index"] >= 0)

    c.forloop(sun.index_to_M, "rows", ["index"], state, check, lambda v: c.ensure("index: start", v["index"] == i))


def add(c, before, r, k):
    """the loop of M_to_index(M), where the second row of M is r(k): the patterns of the rows before it are counted"""

    def state(q):
        c.assume(q <= k)
        c.assume(c.implies(r(q) == r(k), q == k))
        return {"index": before(q)}

    def check(q, v):
        c.ensure("dimensions so far added", v["index"] == before(q + 1))
        c.ensure("the row is still to come", q + 1 <= k)

    c.forloop(sun.M_to_index, "rows", ["index"], state, check, lambda v: c.ensure("start", v["index"] == 0))


@contract("C14", targets=[M + "index_to_M", M + "M_to_index"], bounded="rows of at most 5 integers (arbitrary ones)",
          assumes=["S_to_Ss and dim (proved: next_rows)"])
def pattern_of_index(c):
    """M_to_index(index_to_M(S, i)) = i, assuming it for shorter rows (induction)"""
    n = c.choose("N", [1, 2, 3, 4, 5])
    S = row(c, n)
    if n == 1 or not c.symbolic:
        i = c.int("i", 0, sun.dim(S))
    else:
        K, before, r = enumeration(c, n)
        i = c.int("i", 0, before(K))
        subtract(c, before, i)
    m = c.call(sun.index_to_M, S, i)
    c.ensure("a pattern", m is not None)
    c.ensure("its first row", m[0] == S)
    if n > 1 and c.symbolic:
        add(c, before, r, c.index_of(m[1][-1]))
    c.ensure("M_to_index(index_to_M(S, i)) = i", c.call(sun.M_to_index, m) == i)


@contract("C14", targets=[M + "index_to_M", M + "M_to_index"], bounded="rows of at most 5 integers (arbitrary ones)",
          assumes=["S_to_Ss and dim (proved: next_rows)"])
def index_of_pattern(c):
    """index_to_M(S, M_to_index(M)) = M for every pattern M with first row S, assuming it for shorter rows (induction)"""
    n = c.choose("N", [1, 2, 3, 4, 5])
    S = row(c, n)
    if n == 1 or not c.symbolic:
        m = list(sun.S_to_Ms(S))[c.int("i", 0, sun.dim(S))] if n > 1 else (S,)
    else:
        K, before, r = enumeration(c, n)
        k = c.int("k", 0, K)
        i = c.int("i", 0, before(k + 1) - before(k))
        m = (S, r(k)) if n == 2 else (S, r(k), i)
        add(c, before, r, k)
    j = c.call(sun.M_to_index, m)
    c.ensure("an index", j is not None)
    if n > 1 and c.symbolic:
        c.ensure("patterns of the rows before, then those of the same row", j == before(k) + i)

        def increasing(q):  # dimensions are positive
            c.assume(c.implies(q < k, before(q + 1) <= before(k)))
            c.assume(c.implies(k < q, before(k + 1) <= before(q)))

        increasing(K)
        subtract(c, before, j, increasing)
    c.ensure("in range", (0 <= j) & (j < c.call(sun.dim, S)))
    back = c.call(sun.index_to_M, S, j)
    c.ensure("the same first row", back[0] == S)
    if n > 1:
        c.ensure("the same second row", back[1] == m[1])
    if n > 2:
        c.ensure("the same rest", back[2] == i if c.symbolic else back == m)


@contract("C14", targets=[M + "S_to_Ms"], bounded="rows of at most 5 integers (arbitrary ones)", assumes=["S_to_Ss (proved: next_rows)"])
def all_patterns(c):
    """S_to_Ms(S) is the sequence of the patterns in the order of their indices: those of the first next row, of the second, ..."""
    n = c.choose("N", [1, 2, 3, 4, 5])
    S = row(c, n)
    if c.symbolic and n > 1:
        K, before, r = enumeration(c, n)
        size = lambda k: before(k + 1) - before(k)
        expected = [(S, r(k)) for k in range(K)] if n == 2 else [(S, r(k), i) for k in range(K) for i in c.seq("index", size(k), lambda i: i)]
        c.same_sequence("patterns", c.call(sun.S_to_Ms, S), expected)
    else:
        out = [m for m in sun.S_to_Ms(S)]
        c.ensure("patterns", out == [sun.index_to_M(S, i) for i in range(sun.dim(S))])


def pattern(c, n):
    """a Gelfand-Tsetlin pattern: each row interlaces the one above"""
    m = [row(c, n)]
    for i in range(1, n):
        m.append(tuple(c.int(f"m{i}{j}", m[i - 1][j + 1], m[i - 1][j] + 1) for j in range(n - i)))
    return tuple(m)


@contract("C14", targets=[M + "compute_coeff_upper", M + "compute_coeff_lower"], bounded="rows of at most 4 integers (arbitrary ones)", samples=40)
def coefficients(c):
    """lowering back the raised pattern has the same coefficient: the matrices of J+ and J- are transposes of each other"""
    n = c.choose("N", [2, 3, 4])
    l = c.choose("row", list(range(1, n)))
    k = c.choose("column", list(range(n - l)))
    m = pattern(c, n)
    up = c.call(sun.M_add_at_lk, m, l, k, 1)
    # the entry may grow: it is less than the one above, and than the one below on its left
    fits = (m[l][k] < m[l - 1][k]) & ((m[l][k] < m[l + 1][k - 1]) if k > 0 else True)
    c.ensure("a pattern or nothing", c.iff(fits, up is not None))
    if up is None:
        return
    c.ensure("only this entry changes", up == tuple(tuple(m[i][j] + (1 if (i, j) == (l, k) else 0) for j in range(n - i)) for i in range(n)))
    c.equal("transposes", c.call(sun.compute_coeff_upper, m, l, k), c.call(sun.compute_coeff_lower, up, l, k))


@contract("C14", targets=[M + "M_to_z_weight"], bounded="rows of at most 5 integers (arbitrary ones)", samples=20)
def weights(c):
    """J+(l) raises the weight of a pattern by half the row l of the Cartan matrix"""
    n = c.choose("N", [2, 3, 4, 5])
    l = c.choose("row", list(range(1, n)))
    k = c.choose("column", list(range(n - l)))
    m = pattern(c, n)
    for step in (1, -1):
        up = c.call(sun.M_add_at_lk, m, l, k, step)
        if up is not None:
            z, z2 = c.call(sun.M_to_z_weight, m), c.call(sun.M_to_z_weight, up)
            c.ensure("one weight per ladder", (len(z) == n - 1) & (len(z2) == n - 1))
            for a in range(n - 1):
                c.ensure("weight", 2 * (z2[a] - z[a]) == step * (2 if a == l - 1 else -1 if abs(a - l + 1) == 1 else 0))


@contract("C14", targets=[M + "upper_ladder", M + "lower_ladder"], bounded="rows of at most 4 integers (arbitrary ones)", samples=30)
def ladders(c):
    """<N| J(l)+- |M> is the coefficient of the entry of row l in which the patterns N and M differ by one, and 0 if there is none"""
    n = c.choose("N", [2, 3, 4])
    l = c.choose("row", list(range(1, n)))
    k = c.choose("column", list(range(n - l)))
    step = c.choose("step", [1, -1])
    m = pattern(c, n)
    ladder, coefficient = (sun.upper_ladder, sun.compute_coeff_upper) if step == 1 else (sun.lower_ladder, sun.compute_coeff_lower)
    if c.symbolic:
        c.override(coefficient, lambda M, l, k: c.real(f"c{l}{k}"))
    up = c.call(sun.M_add_at_lk, m, l, k, step)
    if up is not None:
        c.equal("coefficient", c.call(ladder, l - 1, up, m), c.call(coefficient, m, l, k))
    other = pattern(c, n)
    differ = True
    for j in range(n - l):
        e = tuple(tuple(m[a][b] + (step if (a, b) == (l, j) else 0) for b in range(n - a)) for a in range(n))
        if other == e:
            differ = False
    if differ:
        c.ensure("otherwise 0", c.call(ladder, l - 1, other, m) == 0)


@contract("C14", targets=[M + "compute_coeff_upper", M + "compute_coeff_lower"], bounded="rows of at most 4 integers (arbitrary ones)", samples=40)
def exchange(c):
    """raising one entry and lowering another one commute: the matrices J+(l), J-(l') of different rows commute, and the commutators of
    the same row are diagonal"""
    n = c.choose("N", [2, 3, 4])
    l, l2 = c.choose("row", list(range(1, n))), c.choose("row2", list(range(1, n)))
    k, k2 = c.choose("column", list(range(n - l))), c.choose("column2", list(range(n - l2)))
    if (l, k) == (l2, k2):
        return
    m = pattern(c, n)
    up, down = c.call(sun.M_add_at_lk, m, l, k, 1), c.call(sun.M_add_at_lk, m, l2, k2, -1)
    both = c.call(sun.M_add_at_lk, up, l2, k2, -1) if up is not None else None
    both2 = c.call(sun.M_add_at_lk, down, l, k, 1) if down is not None else None
    c.ensure("both orders or none", (both is None) == (both2 is None))
    if both is not None and both2 is not None:
        c.ensure("the same pattern", both == both2)
        u, d = sun.compute_coeff_upper, sun.compute_coeff_lower
        c.same_products("the same coefficient", [c.call(u, m, l, k), c.call(d, up, l2, k2)], [c.call(d, m, l2, k2), c.call(u, down, l, k)])


def commutator(c, n, l):
    m = pattern(c, n)
    x = 0
    zeros = []
    for k in range(n - l):
        if c.call(sun.M_add_at_lk, m, l, k, -1) is not None:
            x = x + c.call(sun.compute_coeff_lower, m, l, k) ** 2
        elif m[l][k] == m[l - 1][k + 1]:  # by cases
            zeros.append(m[l][k] - m[l - 1][k + 1])
        elif k < n - l - 1:
            zeros.append(m[l][k] - m[l + 1][k])
        if c.call(sun.M_add_at_lk, m, l, k, 1) is not None:
            x = x - c.call(sun.compute_coeff_upper, m, l, k) ** 2
        elif m[l][k] == m[l - 1][k]:
            zeros.append(m[l][k] - m[l - 1][k])
        elif k > 0:
            zeros.append(m[l][k] - m[l + 1][k - 1])
    z = c.call(sun.M_to_z_weight, m)
    c.rational_zero("[J+, J-] = 2 Jz", x - 2 * z[l - 1], zeros + [m[l][a] - m[l + 1][b] for a in range(n - l) for b in range(n - l - 1)])


@contract("C14", targets=[M + "compute_coeff_upper", M + "compute_coeff_lower"], bounded="rows of at most 4 integers (arbitrary ones)", samples=40)
def diagonal(c):
    """<M| J+ J- - J- J+ |M> is twice the weight"""
    n = c.choose("N", [2, 3, 4])
    l = c.choose("row", list(range(1 if n < 4 else 2, n)))
    commutator(c, n, l)


@contract("C14", targets=[M + "compute_coeff_upper", M + "compute_coeff_lower"], bounded="rows of 4 integers (arbitrary ones)", samples=10, cost="thorough")
def diagonal_row_of_three(c):
    """the same for the entries of the second row of patterns of 4 rows"""
    commutator(c, 4, 1)
