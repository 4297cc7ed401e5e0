"""C11: rational rounding.

limit_denominator is vectorised; it is specified for one lane of its arrays, all other lanes being arbitrary (they only decide how
long the loop goes on after this lane has stopped)."""
from fractions import Fraction

import numpy as np

from lie_nn._src import util
from vlib.sym.contract import contract

U = "lie_nn._src.util."


def farey_inputs(c):
    """a fraction n0/d0 in lowest terms (Bezout: u n0 + v d0 = 1) and a bound M >= 1 on the denominator"""
    n0, d0 = c.int("n0", sample=(-50, 50)), c.int("d0", 1, sample=(1, 60))
    M = c.int("M", 1, sample=(1, 30))
    return n0, d0, M


@contract("C11", targets=[U + "limit_denominator"])
def limit_denominator_small(c):
    n0, d0, M = farey_inputs(c)
    c.lane()
    if not c.symbolic:
        return limit_concrete(c, n0, d0, M)
    c.assume(d0 <= M)
    # the state never changes: nothing to keep
    c.loop(
        util.limit_denominator,
        "continued fraction",
        lambda v: [("state", (v["n"] == n0) & (v["d"] == d0) & (v["p0"] == 0) & (v["q0"] == 1) & (v["p1"] == 1) & (v["q1"] == 0))],
        lambda v: dict(n=c.int("n"), d=c.int("d"), p0=c.int("p0"), q0=c.int("q0"), p1=c.int("p1"), q1=c.int("q1")),
    )
    N, D = c.call(util.limit_denominator, np.array(n0), np.array(d0), M)
    c.ensure("unchanged", (N == n0) & (D == d0))


def limit_concrete(c, n0, d0, M):
    k = np.gcd(n0, d0)
    n0, d0 = n0 // k, d0 // k
    # this lane between others that take more or fewer steps
    n = np.array([0, n0, 1, 355, n0])
    d = np.array([1, d0, 1, 113, d0])
    N, D = c.call(util.limit_denominator, n, d, M)
    want = [Fraction(int(a), int(b)).limit_denominator(M) for a, b in zip(n, d)]
    c.equal("numerators", N, [f.numerator for f in want])
    c.equal("denominators", D, [f.denominator for f in want])


@contract("C11", targets=[U + "limit_denominator"])
def limit_denominator_large(c):
    """d0 > M: the result is in lowest terms, its denominator is at most M and no fraction with such a denominator is closer to
    n0/d0; the two candidates are the Farey neighbours of n0/d0, and of two equally close ones it is the one with denominator q1"""
    n0, d0, M = farey_inputs(c)
    c.lane()
    if not c.symbolic:
        return limit_concrete(c, n0, d0, M)
    u, v = c.int("u"), c.int("v")
    c.assume(u * n0 + v * d0 == 1)
    c.assume(M < d0)
    st = {}

    def havoc(w):
        for k in ("n", "d", "p0", "q0", "p1", "q1"):
            st[k] = c.int(k)
        return st

    def facts(w):
        n, d, p0, q0, p1, q1 = [w[k] for k in ("n", "d", "p0", "q0", "p1", "q1")]
        # if the remainder is 0 then d divides n0 and d0, hence 1
        a = n // d
        c.valid("a positive divisor of 1 is 1", lambda x, y: (x <= 0) | (x * y != 1) | (x == 1), d, u * (a * p1 + p0) + v * (a * q1 + q0))

    def inv(w):
        n, d, p0, q0, p1, q1 = [w[k] for k in ("n", "d", "p0", "q0", "p1", "q1")]
        s = p1 * q0 - p0 * q1
        return [
            ("0 < d", d > 0),
            ("n0 = p1 n + p0 d", n0 == p1 * n + p0 * d),
            ("d0 = q1 n + q0 d", d0 == q1 * n + q0 * d),
            ("determinant", (s == 1) | (s == -1)),
            ("denominators", ((q0 == 1) & (q1 == 0)) | ((q0 >= 0) & (q1 >= 1) & (n > d))),
            ("bounds", (q0 <= M) & (q1 <= M)),
        ]

    c.loop(util.limit_denominator, "continued fraction", inv, havoc, facts=facts, step=lambda w, z: [("d decreases unless this lane has stopped", z["stop"] | (z["d"] < w["d"]))])
    N, D = c.call(util.limit_denominator, np.array(n0), np.array(d0), M)
    n, d, p0, q0, p1, q1 = [st[k] for k in ("n", "d", "p0", "q0", "p1", "q1")]
    # the Farey neighbours n1/d1 and n2/d2 = p1/q1 of n0/d0
    s = p1 * q0 - p0 * q1
    c.lemma("q1 >= 1", q1 >= 1)
    k = (M - q0) // q1
    n1, d1, n2, d2 = p0 + k * p1, q0 + k * q1, p1, q1
    c.lemma("k < n // d", k < n // d)
    c.lemma("n > k d", n > k * d)
    c.lemma("denominators", (d1 >= 1) & (d1 <= M) & (d2 >= 1) & (d2 <= M) & (d1 + d2 > M))
    c.lemma("neighbours", s * (n2 * d1 - n1 * d2) == 1)
    e1, e2 = s * (n1 * d0 - n0 * d1), s * (n2 * d0 - n0 * d2)
    c.lemma("n1/d1 is on one side", e1 == k * d - n)
    c.lemma("n2/d2 is on the other side", e2 == d)
    first, second = (N == n1) & (D == d1), (N == n2) & (D == d2)
    c.lemma("the closer one", (first & (d1 * e2 > -d2 * e1)) | (second & (d1 * e2 <= -d2 * e1)))
    # any other fraction p/q = (al n1 + be n2) / (al d1 + be d2)
    p, q = c.int("p"), c.int("q")
    c.assume((q >= 1) & (q <= M))
    x = s * (p * d0 - n0 * q)
    al, be = s * (n2 * q - p * d2), s * (p * d1 - n1 * q)
    farey = lambda al, be, d1, d2, M, q, k, d, n, x, N, D: [
        d1 >= 1,
        d2 >= 1,
        d1 + d2 > M,
        n > k * d,
        d >= 1,
        q == al * d1 + be * d2,
        q >= 1,
        q <= M,
        x == al * (k * d - n) + be * d,
    ]
    closer2 = lambda *a: farey(*a) + [a[2] * a[7] <= a[3] * (a[8] - a[6] * a[7])]
    closer1 = lambda *a: farey(*a) + [a[2] * a[7] >= a[3] * (a[8] - a[6] * a[7])]
    args = (al, be, d1, d2, M, q, k, d, n, x, N, D)
    if d1 * d <= d2 * (n - k * d):
        c.apply("no fraction between Farey neighbours (n2/d2 is closer)", closer2, lambda *a: [abs(a[9]) * a[3] >= a[7] * a[5]], *args)
        c.ensure("no fraction with denominator at most M is closer", (N == n2) & (D == d2) & (abs(x) * d2 >= abs(e2) * q))
    else:
        c.apply("no fraction between Farey neighbours (n1/d1 is closer)", closer1, lambda *a: [abs(a[9]) * a[2] >= (a[8] - a[6] * a[7]) * a[5]], *args)
        c.ensure("no fraction with denominator at most M is closer", (N == n1) & (D == d1) & (abs(x) * d1 >= abs(e1) * q))


@contract("C11", targets=[U + "normalize_integer_ratio"], assumes=["np.gcd is the positive greatest common divisor"])
def normalize(c):
    """g x / (g y) with x, y coprime and y != 0 becomes x / y with a positive denominator"""
    c.lane()
    g, x, y = c.int("g", 1, sample=(1, 9)), c.int("x", sample=(-9, 9)), c.int("y", sample=(-9, 9))
    if not c.symbolic:
        k = max(1, np.gcd(x, y))
        x, y = x // k, y // k
    c.assume(y != 0)

    def gcd(a, b):
        c.ensure("gcd of numerator and denominator", ((a == g * x) & (b == g * y)) | ((b == g * x) & (a == g * y)))
        return g

    c.override(np.gcd, gcd)
    N, D = c.call(util.normalize_integer_ratio, np.array(g * x), np.array(g * y))
    c.ensure("numerator", N * y == x * D)
    c.ensure("denominator", D == abs(y))


@contract("C11", targets=[U + "_round_to_sqrt_rational"], assumes=["as_approx_integer_ratio (bounded)", "limit_denominator (proved by limit_denominator_small / _large)"])
def round_real(c):
    c.lane()
    m = c.int("max_denominator", 1, sample=(1, 20))
    x = c.real("x")
    n0, d0, N0, D0 = c.int("n0", 0), c.int("d0", 1), c.int("N0", 0), c.int("D0", 1)

    def approx(a):
        c.ensure("the square is approximated", a == x**2)
        return n0, d0

    def limited(a, b, bound):
        c.ensure("fraction", (a == n0) & (b == d0))
        c.ensure("bound on the denominator", bound == m**2 + 1)
        return N0, D0

    c.override(util.as_approx_integer_ratio, approx)
    c.override(util.limit_denominator, limited)
    N, D = c.call(util.limit_denominator, *c.call(util.as_approx_integer_ratio, np.array(x) ** 2), m**2 + 1)
    y = c.call(util._round_to_sqrt_rational, np.array(x), m)
    c.equal("sign(x) sqrt(N / D)", y, np.sign(x) * np.sqrt(N / D))


@contract("C11", targets=[U + "round_to_sqrt_rational"], assumes=["_round_to_sqrt_rational (round_real)"])
def round_no_imaginary_part(c):
    n = c.int("n", 1, sample=(1, 6))
    x, a = c.tensor("x", n, real=True), c.tensor("a", n, real=True)
    m = c.int("max_denominator", 1, sample=(1, 20))

    def part(z, bound):
        c.ensure("bound", bound == m)
        c.equal("argument", z, x)
        return a

    c.override(np.iscomplex, lambda z: np.zeros(n) == 1)
    c.override(util._round_to_sqrt_rational, part)
    c.equal("the array is rounded", c.call(util.round_to_sqrt_rational, x, m), c.call(util._round_to_sqrt_rational, x, m))


@contract("C11", targets=[U + "round_to_sqrt_rational"], assumes=["_round_to_sqrt_rational (round_real)"])
def round_complex(c):
    """an array with some entry that is not real: both parts are rounded"""
    n = c.int("n", 1, sample=(1, 6))
    x, y = c.tensor("x", n, real=True), c.tensor("y", n, real=True)
    a, b = c.tensor("a", n, real=True), c.tensor("b", n, real=True)
    m = c.int("max_denominator", 1, sample=(1, 20))

    def part(z, bound):
        c.ensure("bound", bound == m)
        if c.is_same(z, x):
            return a
        c.equal("real or imaginary part", z, y)
        return b

    c.override(np.iscomplex, lambda z: np.ones(n) == 1)
    c.override(util._round_to_sqrt_rational, part)
    r = c.call(util.round_to_sqrt_rational, x + 1j * y, m)
    c.equal("real and imaginary part are rounded separately", r, c.call(util._round_to_sqrt_rational, x, m) + 1j * c.call(util._round_to_sqrt_rational, y, m))
