"""Tensors with symbolic shapes: a list of axes and an entry function; entries are sums of guarded products."""
from __future__ import annotations

from . import core
import itertools
from fractions import Fraction

from .core import (
    FN_LO, C, IMAG, P, TRUE, Unsupported, c_and, c_eq, c_le, c_lt, c_not, fn, fresh, in_range, isym, the_atom,
)

# ---------------------------------------------------------------------------------------------------
# sums


class S:
    """sum of terms (coef: P, guards: tuple of C, bounds: tuple of (atom, lo, hi));
    a term means  sum over bounds of [all guards] * coef"""

    __slots__ = ("ts",)

    def __init__(self, ts=()):
        self.ts = tuple(ts)

    @staticmethod
    def of(x):
        if isinstance(x, S):
            return x
        p = P.of(x)
        return S() if p.is_zero() else S([(p, (), ())])

    def __add__(self, o):
        return S(self.ts + S.of(o).ts)

    __radd__ = __add__

    def __neg__(self):
        return S([(-c, g, b) for c, g, b in self.ts])

    def __sub__(self, o):
        return self + (-S.of(o))

    def __rsub__(self, o):
        return S.of(o) + (-self)

    def __mul__(self, o):
        o = S.of(o)
        out = []
        for c1, g1, b1 in self.ts:
            for t2 in o.ts:
                c2, g2, b2 = rename(t2) if (b1 and t2[2]) else t2
                out.append((c1 * c2, g1 + tuple(g for g in g2 if g not in g1), b1 + b2))
        return S(out)

    __rmul__ = __mul__

    def scalar(self):
        """a plain P if there are no guards and sums"""
        if all(not g and not b for _, g, b in self.ts):
            p = P()
            for c, _, _ in self.ts:
                p = p + c
            return p
        return None

    def subst(self, s):
        return S([t_subst(t, s) for t in self.ts])

    def conj(self):
        return S([(c.conj(), g, b) for c, g, b in self.ts])

    def guard(self, *cs):
        c = c_and(*cs)
        if c.t[0] == "t":
            return self
        if c.t[0] == "f":
            return S()
        gs = c.t[1] if c.t[0] == "and" else (c,)
        return S([(co, g + tuple(x for x in gs if x not in g), b) for co, g, b in self.ts])

    def sum(self, bounds):
        return S([(c, g, tuple(bounds) + b) for c, g, b in self.ts])

    def __repr__(self):
        return " + ".join(
            (f"SUM{[(x[1], str(l), str(h)) for x, l, h in b]}" if b else "") + ("".join(f"[{x}]" for x in g)) + f"({c})" for c, g, b in self.ts
        ) or "0"


def t_subst(t, s):
    c, g, b = t
    return (c.subst(s), tuple(x.subst(s) for x in g), tuple((a, lo.subst(s), hi.subst(s)) for a, lo, hi in b))


def rename(t):
    c, g, b = t
    s = {}
    nb = []
    for a, lo, hi in b:
        f = fresh("s")
        nb.append((the_atom(f), lo.subst(s), hi.subst(s)))
        s[a] = f
    return (c.subst(s), tuple(x.subst(s) for x in g), tuple(nb))


# ---------------------------------------------------------------------------------------------------
# axes


class Axis:
    pass


class Atom(Axis):
    def __init__(self, n):
        self.n = P.of(n)

    def dim(self):
        return self.n

    def key(self):
        return repr(self.n)

    def bounds(self):
        v = fresh("b")
        return v, [(the_atom(v), P(), self.n)]

    def range(self, i):
        return in_range(i, 0, self.n)

    def fresh(self, name="i"):
        return fresh(name)


class Prod(Axis):
    def __init__(self, parts):
        fl = []
        for a in parts:
            fl += a.parts if isinstance(a, Prod) else [a]
        self.parts = fl

    def dim(self):
        r = P.of(1)
        for a in self.parts:
            r = r * a.dim()
        return r

    def key(self):
        return "(" + "|".join(a.key() for a in self.parts) + ")"

    def bounds(self):
        i, b = [], []
        for a in self.parts:
            x, y = a.bounds()
            i.append(x)
            b += y
        return tuple(i), b

    def range(self, i):
        return c_and(*[a.range(x) for a, x in zip(self.parts, i)])

    def fresh(self, name="i"):
        return tuple(a.fresh(name) for a in self.parts)


class Sig(Axis):
    """concatenation over an iteration space: space = [(atom, lo, hi)], inner axis (may depend on the atoms)"""

    def __init__(self, space, inner):
        self.space = list(space)
        self.inner = inner  # function: list of P -> Axis

    def inst(self, ks):
        return self.inner(list(ks))

    def dim(self):
        ks, b, _ = self.fresh_space("d")
        return sym_sum(b, self.inst(ks).dim())

    def fresh_space(self, name="k"):
        s, ks, b = {}, [], []
        for a, lo, hi in self.space:
            f = fresh(name)
            b.append((the_atom(f), lo.subst(s), hi.subst(s)))
            s[a] = f
            ks.append(f)
        return ks, b, s

    def key(self):
        from .core import isym

        ks = [isym(f"κ{n}") for n in range(len(self.space))]
        s, out = {}, []
        for k, (a, lo, hi) in zip(ks, self.space):
            out.append(f"{lo.subst(s)}..{hi.subst(s)}")
            s[a] = k
        return f"Σ[{';'.join(out)}]{self.inst(ks).key()}"

    def bounds(self):
        ks, b, _ = self.fresh_space("b")
        x, y = self.inst(ks).bounds()
        return (tuple(ks), x), b + y

    def range(self, i):
        ks, x = i
        s, cs = {}, []
        for k, (a, lo, hi) in zip(ks, self.space):
            cs.append(in_range(k, lo.subst(s), hi.subst(s)))
            s[a] = k
        return c_and(*cs, self.inst(ks).range(x))

    def fresh(self, name="i"):
        ks, _, _ = self.fresh_space("k")
        return (tuple(ks), self.inst(ks).fresh(name))


class AltIdx(tuple):
    """index of a part of an Alt axis: (part number, index in the part)"""


class Alt(Axis):
    """concatenation of finitely many axes of which some are structured"""

    def __init__(self, parts):
        fl = []
        for a in parts:
            fl += a.parts if isinstance(a, Alt) else [a]
        self.parts = fl

    def dim(self):
        r = P()
        for a in self.parts:
            r = r + a.dim()
        return r

    def key(self):
        return "[" + "+".join(a.key() for a in self.parts) + "]"

    def offset(self, n):
        r = P()
        for a in self.parts[:n]:
            r = r + a.dim()
        return r

    def bounds(self):
        raise Unsupported("one iteration over a concatenation of structured axes")

    fresh = bounds

    def range(self, i):
        return self.parts[i[0]].range(i[1])


def all_bounds(a):
    """[(index, bounds)] that together run over the axis"""
    if isinstance(a, Alt):
        return [(AltIdx((n, i)), b) for n, x in enumerate(a.parts) for i, b in all_bounds(x)]
    if isinstance(a, Prod) and any(isinstance(x, Alt) for x in a.parts):
        out = [((), [])]
        for x in a.parts:
            out = [(i + (j,), b + c) for i, b in out for j, c in all_bounds(x)]
        return out
    return [a.bounds()]


# sum of s^e for 0 <= s < n
FAULHABER = {
    1: lambda n: n * (n - 1) * Fraction(1, 2),
    2: lambda n: n * (n - 1) * (2 * n - 1) * Fraction(1, 6),
    3: lambda n: n * n * (n - 1) * (n - 1) * Fraction(1, 4),
}


def sym_sum(bounds, body):
    """sum of an integer polynomial over a (dependent) iteration space as a canonical term"""
    from .core import isym

    bounds = list(bounds)
    # innermost first: drop variables the body does not depend on
    a, lo, hi = bounds[-1]
    if a not in body.deep_atoms():
        r = body * (hi - lo)
    else:
        cano = isym("σ")
        b = body.subst({a: cano})
        # split linear parts so that sums are additive
        r = P()
        for m, c in b.d.items():
            outer, inner_m = [], []
            for at, e in m:
                (inner_m if the_atom(cano) in P.atom(at).deep_atoms() else outer).append((at, e))
            co = P({tuple(outer): c})
            if not inner_m:
                r = r + co * (hi - lo)
            else:
                body_m = P({tuple(inner_m): c / c})
                if len(inner_m) == 1 and inner_m[0][0] == the_atom(cano) and inner_m[0][1] in FAULHABER:
                    g = FAULHABER[inner_m[0][1]]  # closed form, for lo <= hi (as above)
                    r = r + co * (g(hi) - g(lo))
                    continue
                name = f"Σσ∈[..).{body_m!r}"
                if all(at[0] == "fn" and FN_LO.get(at[1], -1) >= 0 for at, _ in inner_m):
                    FN_LO[name] = 0
                r = r + co * fn(name, lo, hi, *free_ints(body_m, cano))
    if len(bounds) == 1:
        return r
    return sym_sum(bounds[:-1], r)


def sig_offset(a, ks):
    """the flat position of the first element of block ks of a concatenation"""
    off, sub = P(), {}
    for n, (x, lo, hi) in enumerate(a.space):
        lo = lo.subst(sub)
        inner = [P.of(k) for k in ks[:n]]
        f = fresh("o")
        b = [(the_atom(f), lo, P.of(ks[n]))]
        s2 = dict(sub)
        s2[x] = f
        inner.append(f)
        for y, l, h in a.space[n + 1 :]:
            g = fresh("o")
            b.append((the_atom(g), l.subst(s2), h.subst(s2)))
            s2[y] = g
            inner.append(g)
        off = off + sym_sum(b, a.inst(inner).dim())
        sub[x] = P.of(ks[n])
    return off


def free_ints(p, cano):
    return [P.atom(a) for a in sorted((a for a in p.deep_atoms() if a[0] == "i" and a != the_atom(cano)), key=repr)]


def flat(axis, idx):
    """the flat integer index of a structured index"""
    if isinstance(axis, Atom):
        return idx
    if isinstance(axis, Prod):
        parts = [(a, i) for a, i in zip(axis.parts, idx) if not (a.dim() == P.of(1))]
        if len(parts) == 0:
            return P()
        if len(parts) == 1:
            return flat(*parts[0])
        if all(a.dim().is_const() and isinstance(a, Atom) for a, _ in parts[1:]) and all(flat(a, i).is_const() for a, i in parts):
            r = P()
            for a, i in parts:
                r = r * a.dim() + flat(a, i)
            return r
        # position in a product: the indices, then the dimensions
        return fn(f"fuse:{len(parts)}", *[flat(a, i) for a, i in parts], *[a.dim() for a, _ in parts])
    if isinstance(axis, Alt):
        return axis.offset(idx[0]) + flat(axis.parts[idx[0]], idx[1])
    # position in a concatenation: the block and the position in it, then the parameters of the structure
    ks, x = idx
    from .interp import ax_subst
    from .npmodel import _axis_atoms

    free = sorted((a for a in _axis_atoms(axis) if a[0] == "i"), key=repr)
    canon = ax_subst(axis, {a: isym(f"φ{n}") for n, a in enumerate(free)})
    text = f"fuse:{len(ks) + 1}:{canon.key()}"
    FUSE_AXES.setdefault(text, canon)
    return fn(text, *ks, flat(axis.inst(ks), x), *[P.atom(a) for a in free])


FUSE_AXES = {}  # name -> canonical axis (parameters φ0, φ1, ...)


def fuse_axis(a):
    """the axis of a fuse atom"""
    from .interp import ax_subst

    k = fuse_rank(a)
    if a[1].count(":") == 1:
        return Prod([Atom(d) for d in a[2][k:]])
    return ax_subst(FUSE_AXES[a[1]], {the_atom(isym(f"φ{n}")): p for n, p in enumerate(a[2][k:])})


def fuse_bounds(a):
    """[(component, lo, hi)] of a fuse atom"""
    ax = fuse_axis(a)
    k = fuse_rank(a)
    if isinstance(ax, Prod):
        return [(i, P(), d.dim()) for i, d in zip(a[2][:k], ax.parts)]
    sub, out = {}, []
    for i, (x, lo, hi) in zip(a[2][:k], ax.space):
        out.append((i, lo.subst(sub), hi.subst(sub)))
        sub[x] = i
    out.append((a[2][k - 1], P(), ax.inst(list(a[2][: k - 1])).dim()))
    return out


def fuse_range(a):
    return c_and(*[in_range(i, lo, hi) for i, lo, hi in fuse_bounds(a)]), fuse_axis(a).dim()


core.FUSE_RANGE = fuse_range


def idx_eq(axis, i, j):
    if isinstance(axis, Atom):
        return flat_eq(i, j)
    if isinstance(axis, Prod):
        return c_and(*[idx_eq(a, x, y) for a, x, y in zip(axis.parts, i, j)])
    if isinstance(axis, Alt):
        return idx_eq(axis.parts[i[0]], i[1], j[1]) if i[0] == j[0] else FALSE
    (k, x), (l, y) = i, j
    c = c_and(*[c_eq(a, b) for a, b in zip(k, l)])
    return c_and(c, c_eq(flat(axis.inst(k), x), flat(axis.inst(k), y))) if not isinstance(axis.inst(k), (Prod, Sig)) else c_and(c, idx_eq(axis.inst(k), x, y))


def flat_eq(i, j):
    """equality of flat indices; injectivity of fuse"""
    a = only_fuse(i)
    b = only_fuse(j)
    if a is not None and b is not None and a[1] == b[1]:
        k = fuse_rank(a)
        if a[2][k:] == b[2][k:]:
            return c_and(*[flat_eq(x, y) for x, y in zip(a[2][:k], b[2][:k])])
    return c_eq(i, j)


def fuse_rank(a):
    return int(a[1].split(":")[1])


def only_fuse(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "fn" and m[0][0][1].startswith("fuse"):
            return m[0][0]
    return None


# ---------------------------------------------------------------------------------------------------
# tensors


class Tensor:
    def __init__(self, axes, f, dtype="complex", view=False):
        self.axes = [a if isinstance(a, Axis) else Atom(a) for a in axes]
        self.f = f
        self.dtype = dtype  # 'int', 'real', 'complex', 'bool' (bool entries: f returns C)
        self.view = view
        self.views = []  # (view, function of the entry function): aliases, updated together
        self.parent = None  # the array this one is a view of
        self.owner = None  # "input" for an array that the code under proof may not modify

    def root(self):
        t = self
        while t.parent is not None:
            t = t.parent
        return t

    def update(self, f):
        """in-place change of the entries, seen through the aliases"""
        self.f = f
        for v, build in self.views:
            v.update(build(f))

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.dim() for a in self.axes)

    def at(self, *idx):
        return self.f(*idx)

    def key(self):
        return tuple(a.key() for a in self.axes)

    def __repr__(self):
        return f"Tensor({', '.join(map(str, self.shape))})"


def make_view(t, axes, build):
    v = Tensor(axes, build(t.f), t.dtype, True)
    t.views.append((v, build))
    v.parent = t
    return v


def real_name(name):
    """a name is either that of a real array or that of a complex one"""
    return name if name.endswith("ʳ") else name + "ʳ"


def uninterpreted(name, dims, real=False, dtype=None):
    from .core import REAL_ARRAYS

    if real:
        name = real_name(name)
        REAL_ARRAYS.add(name)
    axes = [a if isinstance(a, Axis) else Atom(a) for a in dims]

    def f(*idx):
        return S.of(P.atom(("arr", name, False, tuple(flat(a, i) for a, i in zip(axes, idx)))))

    return Tensor(axes, f, dtype or ("real" if real else "complex"))


def refine(t, k, axis):
    """view axis k (an Atom of the same dimension) through a structured axis"""
    old = t.axes[k]
    if old.key() == axis.key():
        return t
    f = t.f
    if isinstance(old, Atom):

        def g(*idx):
            i = list(idx)
            i[k] = flat(axis, i[k])
            return f(*i)

    elif isinstance(old, Alt) and isinstance(axis, Alt) and len(old.parts) == len(axis.parts):

        def g(*idx):
            i = list(idx)
            n, x = i[k]
            # the part as a tensor of its own
            part = Tensor(t.axes[:k] + [old.parts[n]] + t.axes[k + 1 :], lambda *j: f(*j[:k], AltIdx((n, j[k])), *j[k + 1 :]), t.dtype)
            i[k] = x
            return re_axis(part, k, axis.parts[n]).f(*i)

    elif isinstance(old, Prod) and isinstance(axis, Prod):
        cut = regroup(old.parts, axis.parts)

        def g(*idx):
            i = list(idx)
            i[k] = cut(i[k])
            return f(*i)

    elif isinstance(old, Sig) and same_space(old, axis):
        re_sig(old, axis, [x[0] for x in old.fresh_space()[1]])  # fails here if at all

        def g(*idx):
            i = list(idx)
            i[k] = re_sig(old, axis, i[k][0])(i[k])
            return f(*i)

    else:
        raise Unsupported(f"axis structure {old.key()} against {axis.key()}")
    axes = list(t.axes)
    axes[k] = axis
    r = Tensor(axes, g, t.dtype, t.view)
    r.parent = t if t.view else None
    return r


def same_space(a, b):
    if not (isinstance(a, Sig) and isinstance(b, Sig) and len(a.space) == len(b.space)):
        return False
    ks, bounds, _ = a.fresh_space()
    sub = {}
    for k, (_, lo, hi), (x, l, h) in zip(ks, bounds, b.space):
        if not (lo == l.subst(sub) and hi == h.subst(sub)):
            return False
        sub[x] = k
    return True


def re_sig(old, new, ks):
    """index on a refined concatenation -> index on the coarser one"""
    ks = [P.of(k) if isinstance(k, P) else P.atom(k) for k in ks]
    a, b = old.inst(ks), new.inst(ks)
    if a.key() == b.key():
        return lambda i: i
    if isinstance(a, Atom):
        return lambda i: (i[0], flat(b, i[1]))
    if isinstance(a, Prod) and isinstance(b, Prod):
        cut = regroup(a.parts, b.parts)
        return lambda i: (i[0], cut(i[1]))
    raise Unsupported(f"axis structures {a.key()} against {b.key()}")


def regroup(src, dst):
    """map an index tuple on dst factors to one on src factors, each src factor being an Atom equal to a product of dst factors"""
    groups = []
    j = 0
    for a in src:
        n = P.of(1)
        g = []
        while not (n == a.dim()) or not g:
            if j >= len(dst):
                raise Unsupported("incompatible axis structure")
            n = n * dst[j].dim()
            g.append(j)
            j += 1
            if len(g) > 8:
                raise Unsupported("incompatible axis structure")
        groups.append(g)
    if j != len(dst):
        raise Unsupported("incompatible axis structure")

    def cut(idx):
        out = []
        for a, g in zip(src, groups):
            if len(g) == 1 and dst[g[0]].key() == a.key():
                out.append(idx[g[0]])
            elif isinstance(a, Atom):
                out.append(flat(Prod([dst[q] for q in g]), tuple(idx[q] for q in g)))
            else:
                raise Unsupported("incompatible axis structure")
        return tuple(out)

    return cut


def common_axis(a, b, same):
    """the finer of two axes of provably equal dimension"""
    if a.key() == b.key():
        return a
    if not same(a.dim(), b.dim()):
        raise ShapeError(f"{a.dim()} against {b.dim()}")
    if isinstance(a, Atom):
        return b
    if isinstance(b, Atom):
        return a
    if isinstance(a, Alt) and isinstance(b, Alt) and len(a.parts) == len(b.parts):
        return Alt([common_axis(x, y, same) for x, y in zip(a.parts, b.parts)])
    if isinstance(a, Prod) and isinstance(b, Prod):
        r = merge_parts(a.parts, b.parts)
        if r is not None:
            return Prod(r)
        return a if len(a.parts) >= len(b.parts) else b
    if same_space(a, b):
        ks, bounds, _ = a.fresh_space()
        x, y = a.inst(ks), b.inst(ks)
        c = common_axis(x, y, lambda p, q: p == q)
        if c.key() == x.key():
            return a
        if c.key() == y.key():
            return b
        return Sig(a.space, lambda ks: common_axis(a.inst(ks), b.inst(ks), lambda p, q: p == q))
    raise Unsupported(f"axis structures {a.key()} and {b.key()}")


def merge_parts(a, b):
    """the common refinement of two products, if every factor of one is a product of factors of the other"""
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        for src, k, dst, q in ((a, i, b, j), (b, j, a, i)):
            n, e = P.of(1), q
            while e < len(dst):
                n = n * dst[e].dim()
                e += 1
                if n == src[k].dim():
                    break
            else:
                continue
            part = dst[q:e]
            if len(part) == 1 and isinstance(part[0], Atom):
                part = [src[k]]
            elif not isinstance(src[k], Atom) and not (len(part) == 1 and part[0].key() == src[k].key()):
                return None
            out += part
            if src is a:
                i, j = i + 1, e
            else:
                j, i = j + 1, e
            break
        else:
            return None
    return out if i == len(a) and j == len(b) else None


class ShapeError(Exception):
    pass


def re_axis(t, k, axis):
    if t.axes[k].key() == axis.key():
        return t
    if isinstance(t.axes[k], Atom) or isinstance(axis, Alt) or (isinstance(t.axes[k], Prod) and isinstance(axis, Prod)) or same_space(t.axes[k], axis):
        return refine(t, k, axis)
    raise Unsupported(f"axis structures {t.axes[k].key()} and {axis.key()}")


def is_one(a):
    return a.dim() == P.of(1)


def zero_idx(a):
    if isinstance(a, Atom):
        return P()
    if isinstance(a, Prod):
        return tuple(zero_idx(x) for x in a.parts)
    raise Unsupported("index 0 of a concatenation")


def lift(x):
    """python scalar / P / S / Tensor -> Tensor"""
    if isinstance(x, Tensor):
        return x
    if isinstance(x, S):
        return Tensor([], lambda: x)
    if isinstance(x, C):
        return Tensor([], lambda: x, "bool")
    p = P.of(x)
    dt = "int" if isinstance(x, int) or (isinstance(x, P) and x.is_int()) else ("real" if p.is_real() else "complex")
    return Tensor([], lambda: S.of(p), dt)


ORDER = dict(bool=0, int=1, real=2, complex=3)


def join_dtype(*ts):
    return max((t.dtype for t in ts), key=lambda d: ORDER[d])


def broadcast(ts, same):
    n = max(t.ndim for t in ts)
    axes = []
    for k in range(n):
        ax = None
        for t in ts:
            q = k - (n - t.ndim)
            if q < 0 or is_one(t.axes[q]):
                continue
            ax = t.axes[q] if ax is None else common_axis(ax, t.axes[q], same)
        axes.append(ax if ax is not None else Atom(1))
    out = []
    for t in ts:
        off = n - t.ndim
        u = Tensor(t.axes, t.f, t.dtype)
        ones = []
        for q in range(t.ndim):
            if is_one(t.axes[q]) and not is_one(axes[off + q]):
                ones.append(q)
            else:
                u = re_axis(u, q, axes[off + q])

        def f(*idx, uf=u.f, ua=u.axes, off=off, ones=tuple(ones)):
            i = list(idx[off:])
            for q in ones:
                i[q] = zero_idx(ua[q])
            return uf(*i)

        out.append(f)
    return axes, out


def elementwise(op, *ts, same, dtype=None):
    ts = [lift(t) for t in ts]
    axes, fs = broadcast(ts, same)
    return Tensor(axes, lambda *i: op(*[f(*i) for f in fs]), dtype or join_dtype(*ts))


def einsum(spec, ts, same):
    spec = spec.replace(" ", "")
    lhs, arrow, rhs = spec.partition("->")
    ins = lhs.split(",")
    if not arrow:
        letters = [c for c in lhs if c.isalpha()]
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
        if "..." in lhs:
            rhs = "..." + rhs
    ts = [lift(t) for t in ts]
    if len(ins) != len(ts):
        raise ShapeError("einsum operands")
    nd = 0
    ins2 = []
    for s, t in zip(ins, ts):
        if "..." in s:
            n = t.ndim - len(s.replace("...", ""))
            nd = max(nd, n)
    for s, t in zip(ins, ts):
        if "..." in s:
            n = t.ndim - len(s.replace("...", ""))
            s = s.replace("...", "".join(f"{q}" for q in range(nd - n, nd)))
        if len(s) != t.ndim:
            raise ShapeError(f"einsum {spec}: operand of {t.ndim} axes")
        ins2.append(s)
    rhs = rhs.replace("...", "".join(f"{q}" for q in range(nd)))
    ax = {}
    for s, t in zip(ins2, ts):
        for k, c in enumerate(s):
            a = t.axes[k]
            if c not in ax or (c.isdigit() and is_one(ax[c])):
                ax[c] = a
            elif not (c.isdigit() and is_one(a)):
                ax[c] = common_axis(ax[c], a, same)
    if len(set(rhs)) != len(rhs) or any(c not in ax for c in rhs):
        raise ShapeError(f"einsum {spec}")
    us = []
    for s, t in zip(ins2, ts):
        ones = set()
        for k, c in enumerate(s):
            if c.isdigit() and is_one(t.axes[k]) and not is_one(ax[c]):
                ones.add(k)
            else:
                t = re_axis(t, k, ax[c])
        us.append((s, Tensor(t.axes, t.f, t.dtype), ones))
    summed = sorted(c for c in ax if c not in rhs)

    def f(*idx):
        out = S()
        for alt in itertools.product(*[all_bounds(ax[c]) for c in summed]):
            env = dict(zip(rhs, idx))
            b = []
            for c, (i, bb) in zip(summed, alt):
                env[c] = i
                b += bb
            r = S.of(1)
            for s, t, ones in us:
                r = r * t.f(*[zero_idx(t.axes[k]) if k in ones else env[c] for k, c in enumerate(s)])
            out = out + (r.sum(b) if b else r)
        return out

    return Tensor([ax[c] for c in rhs], f, join_dtype(*ts))


def matmul(a, b, same):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul of a scalar")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", [a, b], same)
    if a.ndim == 1:
        return einsum("i,...ij->...j", [a, b], same)
    if b.ndim == 1:
        return einsum("...ij,j->...i", [a, b], same)
    return einsum("...ij,...jk->...ik", [a, b], same)


def transpose(t, perm):
    inv = [0] * len(perm)
    for n, p in enumerate(perm):
        inv[p] = n
    return make_view(t, [t.axes[p] for p in perm], lambda f: lambda *i: f(*[i[inv[k]] for k in range(len(perm))]))


def reshape(t, dims, same):
    """dims: list of P, at most one None (-1)"""
    dims = list(dims)
    facs = []
    for k, a in enumerate(t.axes):
        if isinstance(a, Prod):
            for q, p in enumerate(a.parts):
                facs.append((k, q, p))
        else:
            facs.append((k, None, a))
    facs = [f for f in facs if not is_one(f[2])]
    if None in dims:
        at = dims.index(None)
        # match from both ends
        tail_dims = dims[at + 1 :]
        head, used_h = _group(facs, dims[:at], same)
        rest = facs[used_h:]
        tail, used_t = _group(rest[::-1], tail_dims[::-1], same, rev=True)
        mid = rest[: len(rest) - used_t]
        plan = head + [("join", mid)] + tail[::-1]
    else:
        plan, used = _group(facs, dims, same)
        if any(not is_one(f[2]) for f in facs[used:]):
            raise ShapeError("reshape: sizes differ")
    axes = []
    for p in plan:
        if p[0] == "join":
            fs = p[1]
            axes.append(Atom(1) if not fs else (fs[0][2] if len(fs) == 1 else Prod([x[2] for x in fs])))
        else:
            axes.append(p[2])
    # which source factor is produced from which target index
    def build(f0):
        return lambda *idx: f0(*locate(idx))

    def locate(idx):
        val = {}
        splits = {}
        for p, i in zip(plan, idx):
            if p[0] == "join":
                fs = p[1]
                if len(fs) == 1:
                    val[fs[0][:2]] = i
                elif len(fs) > 1:
                    # nested Prods were flattened
                    pos = 0
                    for x in fs:
                        n = len(x[2].parts) if isinstance(x[2], Prod) else None
                        if n is None:
                            val[x[:2]] = i[pos]
                            pos += 1
                        else:
                            val[x[:2]] = tuple(i[pos : pos + n])
                            pos += n
            else:
                splits.setdefault(p[1][:2], []).append((p[2], i))
        for key, parts in splits.items():
            val[key] = flat(Prod([a for a, _ in parts]), tuple(x for _, x in parts))
        out = []
        for k, a in enumerate(t.axes):
            if isinstance(a, Prod):
                out.append(tuple(val.get((k, q), zero_idx(p) if is_one(p) else None) for q, p in enumerate(a.parts)))
            else:
                out.append(val[(k, None)] if (k, None) in val else zero_idx(a))
        return out

    return make_view(t, axes, build)


def _group(facs, dims, same, rev=False):
    """plan for each target dimension: ('join', factors) or ('split', factor, axis)"""
    plan = []
    j = 0
    k = 0
    while k < len(dims):
        d = dims[k]
        if d == P.of(1):
            plan.append(("join", []))
            k += 1
            continue
        if j >= len(facs):
            raise ShapeError("reshape: sizes differ")
        # join (syntactic equality first: sizes that may be 0 are equal for many reasons)
        for eq in ((lambda x, y: x == y), same):
            n = P.of(1)
            g = []
            q = j
            while q < len(facs):
                n = n * facs[q][2].dim()
                g.append(facs[q])
                q += 1
                if eq(n, d):
                    break
            else:
                g = None
            if g is not None:
                break
        if g is not None:
            plan.append(("join", g[::-1] if rev else g))
            j = q
            k += 1
            continue
        # split: several target dimensions make one Atom factor
        fac = facs[j]
        if isinstance(fac[2], Atom):
            n = P.of(1)
            m = k
            while m < len(dims):
                n = n * dims[m]
                m += 1
                if n == fac[2].dim() or same(n, fac[2].dim()):
                    break
            else:
                raise Unsupported(f"reshape: {fac[2].dim()} into {dims[k:]}")
            for q in range(k, m):
                plan.append(("split", fac, Atom(dims[q])))
            j += 1
            k = m
            continue
        raise Unsupported(f"reshape of {fac[2].key()} into {d}")
    return plan, j


def eye(axis):
    axis = axis if isinstance(axis, Axis) else Atom(axis)
    return Tensor([axis, axis], lambda i, j: S.of(1).guard(idx_eq(axis, i, j)), "real")


def const(axes, v, dtype=None):
    t = Tensor(axes, lambda *i: S.of(v), dtype or lift(v).dtype)
    t.const = v
    return t


def sub_axis_index(t, k, i):
    """t[..., i, ...] on axis k"""
    axes = t.axes[:k] + t.axes[k + 1 :]
    return make_view(t, axes, lambda f: lambda *idx: f(*idx[:k], i, *idx[k:]))


def sub_axis_slice(t, k, lo, n):
    axes = list(t.axes)
    axes[k] = Atom(n)

    def build(f):
        def g(*idx):
            i = list(idx)
            i[k] = i[k] + lo
            return f(*i)

        return g

    return make_view(t, axes, build)
