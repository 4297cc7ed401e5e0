"""Symbolic scalars, conditions and the solver facade of the deductive layer.

P   polynomial with rational coefficients over hashable atoms (exact real/complex/integer semantics):
      ('i', name)              integer symbol          ('r', name)  real symbol
      ('I',)                   the imaginary unit, I^2 = -1
      ('sqrt', P)              principal square root, s^2 = P
      ('inv', P)               1/P
      ('abs', P) ('fdiv', P, Q) ('mod', P, Q) ('min', P, Q) ('max', P, Q)
      ('arr', name, conj, args) entry of an uninterpreted array;  ('fn', name, args) uninterpreted integer function
C   conditions (booleans) over P.
"""
from __future__ import annotations

import threading
import math
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class Unsupported(Exception):
    """The engine has no rule for this construct: the obligation is undecided (never a violation)."""


NONZERO = set()  # names of uninterpreted arrays whose entries are all different from 0
REAL_ARRAYS = set()  # names of uninterpreted arrays known to be real
INT_FNS = set()  # names of uninterpreted functions
NONNEG_FNS = set()

_akey_cache = {}


def akey(a):
    """a total order on atoms"""
    k = _akey_cache.get(a)
    if k is None:
        k = _akey_cache[a] = repr(a)
    return k


class P:
    __slots__ = ("d", "_h", "_r")

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self._h = None
        self._r = None

    # --- construction -------------------------------------------------------------------------
    @staticmethod
    def of(x):
        if isinstance(x, P):
            return x
        if isinstance(x, bool):
            return P({(): Fraction(int(x))}) if x else P()
        if isinstance(x, int):
            return P({(): Fraction(x)}) if x else P()
        if isinstance(x, Fraction):
            return P({(): x}) if x else P()
        if isinstance(x, float):
            return exact_float(x)
        if isinstance(x, complex):
            return P.of(x.real) + P.of(x.imag) * IMAG
        import numpy as np

        if isinstance(x, np.generic):
            return P.of(x.item())
        raise Unsupported(f"not a scalar: {type(x).__name__}")

    @staticmethod
    def atom(a):
        return P({((a, 1),): Fraction(1)})

    # --- arithmetic ---------------------------------------------------------------------------
    def __add__(self, o):
        o = P.of(o)
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P.of(o))

    def __rsub__(self, o):
        return P.of(o) + (-self)

    def __mul__(self, o):
        o = P.of(o)
        if self.is_const():
            c = self.const()
            return P({m: c * x for m, x in o.d.items()}) if c else P()
        if o.is_const():
            c = o.const()
            return P({m: c * x for m, x in self.d.items()}) if c else P()
        out = P()
        plain = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, extra = mono_mul(m1, m2)
                c = c1 * c2
                if extra is None:
                    s = plain.get(m, 0) + c
                    if s:
                        plain[m] = s
                    else:
                        plain.pop(m, None)
                else:
                    out = out + P({m: c}) * extra
        return out + P(plain) if out.d else P(plain)

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, P) and n.is_const():
            n = n.const()
        if n == Fraction(1, 2):
            return sqrt(self)
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if not isinstance(n, int):
            raise Unsupported("symbolic exponent")
        if n < 0:
            return inv(self) ** (-n)
        r = P.of(1)
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return self * inv(P.of(o))

    def __rtruediv__(self, o):
        return P.of(o) * inv(self)

    # --- queries ------------------------------------------------------------------------------
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def is_zero(self):
        return not self.d

    def __eq__(self, o):
        if not isinstance(o, P):
            try:
                o = P.of(o)
            except Unsupported:
                return NotImplemented
        return self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def deep_atoms(self, acc=None):
        acc = set() if acc is None else acc
        for m in self.d:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    for x in a[1:]:
                        if isinstance(x, P):
                            x.deep_atoms(acc)
                        elif isinstance(x, tuple):
                            for y in x:
                                if isinstance(y, P):
                                    y.deep_atoms(acc)
        return acc

    def subst(self, s):
        """s: dict atom -> P"""
        if not (self.deep_atoms() & s.keys()):
            return self
        out = P()
        for m, c in self.d.items():
            t = P.of(c)
            for a, e in m:
                t = t * (atom_subst(a, s) ** e)
            out = out + t
        return out

    def conj(self):
        out = P()
        for m, c in self.d.items():
            t = P.of(c)
            for a, e in m:
                t = t * (atom_conj(a) ** e)
            out = out + t
        return out

    def is_int(self):
        """syntactically integer valued"""
        for m, c in self.d.items():
            if c.denominator != 1:
                return False
            for a, _ in m:
                if not atom_is_int(a):
                    return False
        return True

    def integer_valued(self, limit=20000):
        """a polynomial in integers all whose values are integers: they are those of its Newton series, thus it suffices to evaluate it
        at 0, ..., deg in each variable"""
        if self.is_int():
            return True
        import itertools

        deg = {}
        for m, c in self.d.items():
            for a, k in m:
                if not atom_is_int(a) or k < 0 or k != int(k):
                    return False
                deg[a] = max(deg.get(a, 0), int(k))
        if not all(isinstance(c, (int, Fraction)) for c in self.d.values()):
            return False
        vs = sorted(deg, key=akey)
        n = 1
        for a in vs:
            n *= deg[a] + 1
        if n > limit:
            return False
        den = 1
        for c in self.d.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        terms = [(int(c * den), [(vs.index(a), int(k)) for a, k in m]) for m, c in self.d.items()]
        for pt in itertools.product(*[range(deg[a] + 1) for a in vs]):
            t = 0
            for c, m in terms:
                for i, k in m:
                    c = c * pt[i] ** k
                t += c
            if t % den:
                return False
        return True

    def is_real(self):
        return all(atom_is_real(a) for a in self.atoms())

    def lin(self, a):
        """(coefficient, rest) if self = coefficient*a + rest with a rational coefficient and a not in rest"""
        co = Fraction(0)
        rest = {}
        for m, c in self.d.items():
            if m == ((a, 1),):
                co = c
            else:
                rest[m] = c
        r = P(rest)
        if a in r.deep_atoms():
            return None
        return co, r

    def __repr__(self):
        if self._r is None:
            if not self.d:
                self._r = "0"
            else:
                parts = []
                for m in sorted(self.d, key=lambda m: tuple((akey(a), e) for a, e in m)):
                    c = self.d[m]
                    f = "*".join(atom_str(a) + (f"^{e}" if e > 1 else "") for a, e in m)
                    parts.append(f"{c}" if not f else (f if c == 1 else f"{c}*{f}"))
                self._r = " + ".join(parts)
        return self._r


def atom_str(a):
    k = a[0]
    if k in ("i", "r"):
        return a[1]
    if k == "I":
        return "I"
    if k in ("arr",):
        return f"{a[1]}{'~' if a[2] else ''}[{','.join(map(str, a[3]))}]"
    if k == "fn":
        return f"{a[1]}({','.join(map(str, a[2]))})"
    return f"{k}({','.join(map(str, a[1:]))})"


def atom_is_int(a):
    k = a[0]
    if k == "i":
        return True
    if k == "fn":
        return True
    if k in ("abs", "min", "max", "mod"):
        return all(x.is_int() for x in a[1:])
    if k in ("fdiv",):
        return True
    return False


def atom_is_real(a):
    k = a[0]
    if k in ("i", "r", "fn", "abs", "fdiv", "mod", "min", "max"):
        return True
    if k == "arr":
        return a[1] in REAL_ARRAYS
    if k == "sqrt":
        return False if not a[1].is_const() else a[1].const() >= 0
    if k == "inv":
        return a[1].is_real()
    return False


NONNEG_SQRT = set()  # arguments of square roots proved non-negative in the current context


def atom_conj(a):
    k = a[0]
    if k == "I":
        return -P.atom(a)
    if k == "arr":
        if a[1] in REAL_ARRAYS:
            return P.atom(a)
        return P.atom(("arr", a[1], not a[2], a[3]))
    if k == "sqrt":
        if a[1].is_const() and a[1].const() < 0:
            return -P.atom(a)
        # callers establish non-negativity (obligation 'sqrt-arg'), see np.sqrt model
        return P.atom(a)
    if k == "inv":
        return inv(a[1].conj())
    return P.atom(a)


def atom_subst(a, s):
    if a in s:
        return s[a]
    k = a[0]
    if k in ("i", "r", "I"):
        return P.atom(a)
    if k == "arr":
        return P.atom(("arr", a[1], a[2], tuple(x.subst(s) for x in a[3])))
    if k == "fn":
        return fn(a[1], *[x.subst(s) for x in a[2]])
    args = [x.subst(s) if isinstance(x, P) else x for x in a[1:]]
    return BUILD[k](*args)


def mono_mul(m1, m2):
    """product of monomials: (monomial, extra polynomial factor or None)"""
    d = dict(m1)
    extra = None
    for a, e in m2:
        e = d.get(a, 0) + e
        if a[0] == "I" and e >= 2:
            extra = P.of(-1) if extra is None else -extra
            e -= 2
        elif a[0] == "sqrt" and e >= 2:
            f = a[1] ** (e // 2)
            extra = f if extra is None else extra * f
            e = e % 2
        elif a[0] == "mod" and e >= 2 and a[2].is_const() and a[2].const() == 2 and a[1].is_int():
            e = 1
        if e:
            d[a] = e
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda t: akey(t[0]))), extra


IMAG = P.atom(("I",))
_exact = {}


def exact_float(v):
    """exact meaning of a float constant: itself if it is a short dyadic number, otherwise the small rational or square root of
    a small rational it is the correctly rounded value of (floats are treated as reals: stated in the evidence)"""
    if v in _exact:
        return _exact[v]
    if v != v or v in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float")
    fr = Fraction(v)
    r = P({(): fr}) if fr else P()
    if fr.denominator > 64:
        lim = fr.limit_denominator(1000)
        if abs(float(lim) - v) <= 4e-16 * max(abs(v), 1e-30):
            r = P({(): lim})
        else:
            sq = Fraction(v * v).limit_denominator(1000)
            if sq and abs(float(sq) - v * v) <= 1e-15 * v * v:
                r = sqrt(sq) * (1 if v > 0 else -1)
    _exact[v] = r
    return r


def isqrt_frac(c):
    from math import isqrt

    n, d = c.numerator, c.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None


def squarefree(c):
    """c = s^2 * r with r squarefree integer (c>0)"""
    n, d = c.numerator, c.denominator
    n, s = n * d, Fraction(1, d)
    f = 2
    while f * f <= n:
        while n % (f * f) == 0:
            n //= f * f
            s *= f
        f += 1
        if f > 10000:
            break
    return s, n


def sqrt(p):
    p = P.of(p)
    if p.is_const():
        c = p.const()
        if c == 0:
            return P()
        if c < 0:
            return IMAG * sqrt(-p)
        s, n = squarefree(c)
        return P.of(s) if n == 1 else P.of(s) * P.atom(("sqrt", P.of(n)))
    return P.atom(("sqrt", p))


def inv(p):
    p = P.of(p)
    if p.is_zero():
        raise Unsupported("division by zero")
    if p.is_const():
        return P.of(1 / p.const())
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = P.of(1 / c)
        for a, e in m:
            if a[0] == "I":
                f = -IMAG
            elif a[0] == "sqrt" and a[1].is_const():
                f = P.atom(a) * inv(a[1])
            elif a[0] == "inv":
                f = a[1]
            else:
                f = P.atom(("inv", P.atom(a)))
            out = out * f**e
        return out
    return P.atom(("inv", p))


def pabs(p):
    p = P.of(p)
    if p.is_const():
        return P.of(abs(p.const()))
    den = math.lcm(*[x.denominator for x in p.d.values() if isinstance(x, Fraction)])
    if den > 1:
        return pabs(p * den) / den
    # canonical sign
    q = -p
    return P.atom(("abs", p if repr(p) <= repr(q) else q))


def fdiv(p, q):
    p, q = P.of(p), P.of(q)
    if p.is_const() and q.is_const():
        return P.of(p.const() // q.const())
    if q.is_const() and p.is_int() and q.const().denominator == 1:
        c = q.const()
        whole = P({m: x // c for m, x in p.d.items() if x % c == 0})
        rest = P({m: x for m, x in p.d.items() if x % c != 0})
        if rest.is_zero():
            return whole
        return whole + P.atom(("fdiv", rest, q))
    return P.atom(("fdiv", p, q))


def pmod(p, q):
    p, q = P.of(p), P.of(q)
    if p.is_const() and q.is_const():
        return P.of(p.const() % q.const())
    if q.is_const() and p.is_int() and q.const().denominator == 1:
        c = q.const()
        p = P({m: x % c for m, x in p.d.items() if x % c != 0})
        if p.is_const():
            return P.of(p.const() % c)
    return P.atom(("mod", p, q))


def pmin(p, q):
    p, q = P.of(p), P.of(q)
    if (p - q).is_const():
        return p if (p - q).const() <= 0 else q
    p, q = sorted((p, q), key=repr)
    return P.atom(("min", p, q))


def pmax(p, q):
    return -pmin(-P.of(p), -P.of(q)) if False else _pmax(P.of(p), P.of(q))


def _pmax(p, q):
    if (p - q).is_const():
        return p if (p - q).const() >= 0 else q
    p, q = sorted((p, q), key=repr)
    return P.atom(("max", p, q))


def fn(name, *args):
    return P.atom(("fn", name, tuple(P.of(a) for a in args)))


BUILD = dict(sqrt=sqrt, inv=inv, abs=pabs, fdiv=fdiv, mod=pmod, min=pmin, max=pmax)


def isym(name):
    return P.atom(("i", name))


def rsym(name):
    return P.atom(("r", name))


_fresh = [0]


def fresh(prefix="k"):
    _fresh[0] += 1
    return P.atom(("i", f"{prefix}!{_fresh[0]}"))


def the_atom(p):
    (m, c), = p.d.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


# ---------------------------------------------------------------------------------------------------
# conditions


class C:
    """('t',) ('f',) ('le', P): P <= 0   ('eq', P): P == 0   ('not', C) ('and', Cs) ('or', Cs) ('b', name, args) ('ex', vars, C) ('all', vars, C)"""

    __slots__ = ("t", "_h")

    def __init__(self, *t):
        self.t = t
        self._h = hash(t)

    def __eq__(self, o):
        return isinstance(o, C) and self.t == o.t

    def __hash__(self):
        return self._h

    def __repr__(self):
        k = self.t[0]
        if k in ("t", "f"):
            return {"t": "true", "f": "false"}[k]
        if k == "le":
            return f"({self.t[1]} <= 0)"
        if k == "eq":
            return f"({self.t[1]} == 0)"
        if k == "not":
            return f"!{self.t[1]}"
        if k in ("and", "or"):
            return "(" + f" {k} ".join(map(repr, self.t[1])) + ")"
        return str(self.t)

    def subst(self, s):
        k = self.t[0]
        if k in ("t", "f"):
            return self
        if k == "le":
            return c_le(self.t[1].subst(s), 0)
        if k == "eq":
            return c_eq(self.t[1].subst(s), 0)
        if k == "not":
            return c_not(self.t[1].subst(s))
        if k == "and":
            return c_and(*[x.subst(s) for x in self.t[1]])
        if k == "or":
            return c_or(*[x.subst(s) for x in self.t[1]])
        if k == "b":
            return C("b", self.t[1], tuple(x.subst(s) for x in self.t[2]))
        if k in ("ex", "all"):
            return C(k, self.t[1], self.t[2].subst({a: p for a, p in s.items() if a not in self.t[1]}))
        raise AssertionError(k)

    def deep_atoms(self, acc=None):
        acc = set() if acc is None else acc
        k = self.t[0]
        if k in ("le", "eq"):
            self.t[1].deep_atoms(acc)
        elif k == "not":
            self.t[1].deep_atoms(acc)
        elif k in ("and", "or"):
            for x in self.t[1]:
                x.deep_atoms(acc)
        elif k == "b":
            for x in self.t[2]:
                x.deep_atoms(acc)
        elif k in ("ex", "all"):
            self.t[2].deep_atoms(acc)
        return acc


TRUE, FALSE = C("t"), C("f")


def c_le(a, b):
    p = P.of(a) - P.of(b)
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    if p.is_int():
        # normalise integer inequality: divide by gcd
        from math import gcd

        g = 0
        for m, c in p.d.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            k = p.const()
            q = P({m: c / g for m, c in p.d.items() if m != ()})
            # q*g + k <= 0  <=>  q <= floor(-k/g)
            p = q - ((-k) // g)
    return C("le", p)


def c_lt(a, b):
    p, q = P.of(a), P.of(b)
    if (p - q).is_int():
        return c_le(p + 1, q)
    return c_not(c_le(q, p))


def c_eq(a, b):
    p = P.of(a) - P.of(b)
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    if len(p.d) == 2:
        # indices of one structured axis are equal iff their components are
        (m1, c1), (m2, c2) = p.d.items()
        if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            x, y = m1[0][0], m2[0][0]
            if x[0] == y[0] == "fn" and x[1] == y[1] and x[1].startswith("fuse") and len(x[2]) == len(y[2]):
                k = int(x[1].split(":")[1])
                if x[2][k:] == y[2][k:]:
                    return c_and(*[c_eq(u, v) for u, v in zip(x[2][:k], y[2][:k])])
    # canonical sign and scale
    m = min((m for m in p.d if m != ()), key=lambda m: tuple((akey(x), e) for x, e in m))
    c = p.d[m]
    p = P({k: v / c for k, v in p.d.items()})
    return C("eq", p)


def c_not(a):
    k = a.t[0]
    if k == "t":
        return FALSE
    if k == "f":
        return TRUE
    if k == "not":
        return a.t[1]
    if k == "le" and a.t[1].is_int():
        return c_le(1 - a.t[1], 0)
    return C("not", a)


def c_and(*xs):
    out = []
    for x in xs:
        if x.t[0] == "t":
            continue
        if x.t[0] == "f":
            return FALSE
        for y in x.t[1] if x.t[0] == "and" else (x,):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else C("and", tuple(out))


def c_or(*xs):
    out = []
    for x in xs:
        if x.t[0] == "f":
            continue
        if x.t[0] == "t":
            return TRUE
        for y in x.t[1] if x.t[0] == "or" else (x,):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else C("or", tuple(out))


def c_imp(a, b):
    return c_or(c_not(a), b)


def c_iff(a, b):
    return c_and(c_imp(a, b), c_imp(b, a))


def c_ne(a, b):
    return c_not(c_eq(a, b))


def in_range(i, lo, hi):
    return c_and(c_le(lo, i), c_lt(i, hi))


def exists(vs, c):
    vs = list(vs)
    done = False
    while not done and c.t[0] == "and":  # v = t and ...: the value of v is known
        done = True
        for z in c.t[1]:
            if z.t[0] != "eq":
                continue
            for v in vs:
                a = the_atom(v)
                k = z.t[1].d.get(((a, 1),))
                if k is None or abs(k) != 1 or a[0] != "i":
                    continue
                t = P.atom(a) - z.t[1] * (1 / k)
                if a in t.deep_atoms() or not t.is_int():
                    continue
                c, vs, done = c.subst({a: t}), [w for w in vs if the_atom(w) != a], False
                break
            if not done:
                break
    if not vs:
        return c
    return C("ex", tuple(the_atom(v) for v in vs), c)


def forall(vs, c):
    return C("all", tuple(the_atom(v) for v in vs), c)


# ---------------------------------------------------------------------------------------------------
# z3


FN_LO = {}  # integer functions with a declared lower bound


FUSE_RANGE = None  # set by tensor.py: fuse atom -> (condition that the components are in range, dimension)


class Solver:
    """decides conditions; every query is counted and timed."""

    def __init__(self, timeout_ms=4000):
        self.timeout_ms = timeout_ms
        self.axioms = []  # C, assumed in every query
        self.stats = dict(queries=0, time=0.0, unknown=0)
        self._cache = {}
        self.opaque_products = False  # products of integers as an arbitrary operation (on factors in their order in a monomial)

    def z_atom(self, a, env):
        if a in env:
            return env[a]
        k = a[0]
        if k == "i":
            r = z3.Int(a[1])
        elif k == "r":
            r = z3.Real(a[1])
        elif k == "arr":
            f = z3.Function(f"{a[1]}{'~' if a[2] else ''}/{len(a[3])}", *([z3.IntSort()] * len(a[3])), z3.RealSort())
            r = f(*[self.z_int(x, env) for x in a[3]]) if a[3] else z3.Real(a[1])
        elif k == "fn":
            f = z3.Function(f"{a[1]}/{len(a[2])}", *([z3.IntSort()] * len(a[2])), z3.IntSort())
            r = f(*[self.z_int(x, env) for x in a[2]])
            if a[1] in FN_LO and not env:
                self.side.append(r >= FN_LO[a[1]])
            if a[1].startswith("fuse:") and not env:
                # the flat position of an index that is in range is in range
                inside, n = FUSE_RANGE(a)
                if n is not None:
                    self.side.append(z3.Implies(self.zc(inside, env), z3.And(r >= 0, r < self.z_int(n, env))))
        elif k == "abs":
            x = self.z(a[1], env)
            r = z3.If(x >= 0, x, -x)
        elif k in ("min", "max"):
            x, y = self.z2(a[1], a[2], env)
            r = z3.If(x <= y, x, y) if k == "min" else z3.If(x >= y, x, y)
        elif k in ("fdiv", "mod"):
            if a[1].is_int() and a[2].is_int():
                x, y = self.z_int(a[1], env), self.z_int(a[2], env)
                # python floor semantics: z3 div/mod is euclidean, equal for positive divisors
                if a[2].is_const() and a[2].const() > 0:
                    r = x / y if k == "fdiv" else x % y
                else:
                    d, m = x / y, x % y
                    fd = z3.If(z3.And(y < 0, m != 0), d - 1 + 0, d)
                    # for y<0: x = y*d + m, 0<=m<|y|; python: m' = m + y if m != 0 else 0, d' = d - 1 ... x = y*(d-1) + (m+y)
                    r = fd if k == "fdiv" else z3.If(z3.And(y < 0, m != 0), m + y, m)
            else:
                raise Unsupported("floor division of reals")
        elif k == "sqrt":
            x = self.zr(a[1], env)
            r = z3.Real(f"sqrt<{a[1]!r}>")
            self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif k == "inv":
            x = self.zr(a[1], env)
            r = z3.Real(f"inv<{a[1]!r}>")
            self.side.append(z3.Implies(x != 0, r * x == 1))
        elif k == "I":
            raise Unsupported("complex in a condition")
        else:
            raise Unsupported(f"atom {k}")
        return r

    def z(self, p, env):
        if p.is_int():
            return self.z_int(p, env)
        return self.zr(p, env)

    def z2(self, p, q, env):
        if p.is_int() and q.is_int():
            return self.z_int(p, env), self.z_int(q, env)
        return self.zr(p, env), self.zr(q, env)

    def z_int(self, p, env):
        out = None
        for m, c in p.d.items():
            t = z3.IntVal(int(c)) if (c != 1 or not m) else None
            if c.denominator != 1:
                raise Unsupported(f"non-integer index {p}")
            if self.opaque_products and sum(e for _, e in m) > 1:
                xs = [x for a, e in m for x in [self.z_atom(a, env)] * e]
                mul = z3.Function("product/2", z3.IntSort(), z3.IntSort(), z3.IntSort())
                x = xs[0]
                for y in xs[1:]:
                    x = mul(x, y)
                x = x if t is None else t * x
                out = x if out is None else out + x
                continue
            for a, e in m:
                x = self.z_atom(a, env)
                for _ in range(e):
                    t = x if t is None else t * x
            out = t if out is None else out + t
        return z3.IntVal(0) if out is None else out

    def zr(self, p, env):
        out = None
        for m, c in p.d.items():
            t = z3.RealVal(str(c)) if (c != 1 or not m) else None
            for a, e in m:
                x = self.z_atom(a, env)
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                for _ in range(e):
                    t = x if t is None else t * x
            out = t if out is None else out + t
        return z3.RealVal(0) if out is None else out

    def zc(self, c, env):
        k = c.t[0]
        if k == "t":
            return z3.BoolVal(True)
        if k == "f":
            return z3.BoolVal(False)
        if k in ("le", "eq"):
            p = c.t[1]
            # clear denominators so that integer polynomials stay in integer arithmetic
            den = 1
            for x in p.d.values():
                den = den * x.denominator // __import__("math").gcd(den, x.denominator)
            p = p * den
            x = self.z(p, env)
            return x <= 0 if k == "le" else x == 0
        if k == "not":
            return z3.Not(self.zc(c.t[1], env))
        if k == "and":
            return z3.And(*[self.zc(x, env) for x in c.t[1]])
        if k == "or":
            return z3.Or(*[self.zc(x, env) for x in c.t[1]])
        if k == "b":
            f = z3.Function(f"{c.t[1]}/{len(c.t[2])}", *([z3.IntSort()] * len(c.t[2])), z3.BoolSort())
            return f(*[self.z_int(x, env) for x in c.t[2]]) if c.t[2] else z3.Bool(c.t[1])
        if k in ("ex", "all"):
            e2 = dict(env)
            vs = []
            for a in c.t[1]:
                v = z3.Int(a[1] + "'q")
                e2[a] = v
                vs.append(v)
            body = self.zc(c.t[2], e2)
            return z3.Exists(vs, body) if k == "ex" else z3.ForAll(vs, body)
        raise AssertionError(k)

    def check(self, conds, want_model=False, timeout_ms=None):
        """'unsat' | 'sat' | 'unknown' (and the model)"""
        conds = tuple(c for c in conds if c.t[0] != "t")
        if any(c.t[0] == "f" for c in conds):
            return ("unsat", None) if want_model else "unsat"
        key = (frozenset(conds), len(self.axioms))
        if not want_model and key in self._cache:
            return self._cache[key]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", timeout_ms or self.timeout_ms)
        s.set("random_seed", 0)
        self.side = []
        for c in self.axioms:
            s.add(self.zc(c, {}))
        for c in conds:
            s.add(self.zc(c, {}))
        for x in self.side:
            s.add(x)
        for again in (False, True):
            # z3 does not always keep to its time limit
            watch = threading.Timer((timeout_ms or self.timeout_ms) / 1000 * 1.5 + 1, s.ctx.interrupt)
            watch.daemon = True
            watch.start()
            try:
                r = str(s.check())
            except z3.Z3Exception:
                r = "unknown"
            finally:
                watch.cancel()
            if again or r != "unknown" or not self.opaque_products:
                break
            s.set("smt.mbqi", False)  # many quantifiers: instantiation by patterns only
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t0
        if r == "unknown":
            self.stats["unknown"] += 1
        if want_model:
            return r, (s.model() if r == "sat" else None)
        self._cache[key] = r
        return r

    def entails(self, conds, goal, timeout_ms=None):
        """True: proved.  False: not proved (refuted or unknown)"""
        if goal.t[0] == "t" or goal in conds:
            return True
        if goal.t[0] == "and":
            return all(self.entails(conds, g, timeout_ms) for g in goal.t[1])
        r = self.check(tuple(conds) + (c_not(goal),), timeout_ms=timeout_ms)
        if r == "unknown":
            # with fewer hypotheses: only those about the symbols of the goal
            syms = {a for a in goal.deep_atoms() if a[0] in ("i", "r")}
            few = tuple(c for c in conds if {a for a in c.deep_atoms() if a[0] in ("i", "r")} <= syms)
            if len(few) < len(tuple(conds)):
                r = self.check(few + (c_not(goal),), timeout_ms=timeout_ms)
        return r == "unsat"

    def feasible(self, conds):
        """False only if proved infeasible"""
        return self.check(tuple(conds)) != "unsat"
