"""Models of the numpy functions and builtins used by lie_nn (the trusted base: each is the documented numpy semantics over
exact arithmetic)."""
from __future__ import annotations

import builtins
import functools
import itertools
import math
import re
import operator
from fractions import Fraction

import numpy as np

from .core import (
    FALSE, TRUE, C, IMAG, P, Unsupported, c_and, c_eq, c_le, c_lt, c_not, c_or, exists, fdiv, fn, forall, fresh,
    in_range, inv, isym, pabs, pmax, pmin, pmod, rsym, sqrt, the_atom,
)
from . import tensor as tn
from .tensor import S, Atom, Axis, Prod, ShapeError, Sig, Tensor, sym_sum


def from_numpy(a):
    a = np.asarray(a)
    if a.dtype == object:
        raise Unsupported("object array")
    kind = {"b": "bool", "i": "int", "u": "int", "f": "real", "c": "complex"}[a.dtype.kind]
    if a.size > 20000:
        raise Unsupported("large concrete array")
    nz = None

    def f(*idx):
        nonlocal nz
        if all(isinstance(i, P) and i.is_const() for i in idx):
            k = tuple(int(i.const()) for i in idx)
            if not all(0 <= x < n for x, n in zip(k, a.shape)):
                return FALSE if kind == "bool" else S()
            v = a[k]
            return (TRUE if v else FALSE) if kind == "bool" else S.of(exact(v))
        if any(not isinstance(i, P) for i in idx):
            raise Unsupported("structured index into a concrete array")
        if nz is None:
            nz = [(k, a[tuple(k)]) for k in np.argwhere(a)]
        if kind == "bool":
            return c_or(*[c_and(*[c_eq(i, int(x)) for i, x in zip(idx, k)]) for k, v in nz])
        out = S()
        for k, v in nz:
            out = out + S.of(exact(v)).guard(*[c_eq(i, int(x)) for i, x in zip(idx, k)])
        return out

    t = Tensor([Atom(n) for n in a.shape], f, kind)
    t.concrete = a
    return t


def exact(v):
    return P.of(v)


def as_tensor(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, np.ndarray):
        return from_numpy(x)
    if isinstance(x, (list, tuple)):
        return nested(x)
    if isinstance(x, np.generic):
        return from_numpy(np.asarray(x))
    if isinstance(x, float):
        return tn.lift(exact(x))
    if isinstance(x, complex):
        return tn.lift(exact(x))
    if type(x).__name__ == "Seq":
        return seq_tensor(x, 0, None)
    if type(x).__name__ == "Cat":
        return cat_tensor(x, 0, None)
    return tn.lift(x)


def cat_tensor(xs, axis, same):
    """np.stack over a list that is put together from several symbolic parts"""
    same = same or (lambda a, b: a == b)
    parts = []
    for p in xs.parts:
        if isinstance(p, list):
            if p:
                parts.append(stack_list([as_tensor(x) for x in p], axis, same))
        else:
            parts.append(seq_tensor(p, axis, same))
    return concat_list(parts, axis, same)


def nested(x, dtype=None):
    items = [as_tensor(v) for v in x]
    if not items:
        return Tensor([Atom(0)], lambda i: S(), dtype or "real")
    return stack_list(items, 0, lambda a, b: a == b)


def stack_list(items, axis, same):
    nd = items[0].ndim
    if any(t.ndim != nd for t in items):
        raise ShapeError("stack: ranks differ")
    if axis < 0:
        axis += nd + 1
    axes = list(items[0].axes)
    for t in items[1:]:
        axes = [tn.common_axis(a, b, same) for a, b in zip(axes, t.axes)]
    ts = []
    for t in items:
        for k in range(nd):
            t = tn.re_axis(t, k, axes[k])
        ts.append(t)
    dt = tn.join_dtype(*items)
    fs = [t.f for t in ts]

    def f(*idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1 :]
        if k.is_const():
            n = int(k.const())
            return fs[n](*rest) if 0 <= n < len(fs) else (FALSE if dt == "bool" else S())
        if dt == "bool":
            return c_or(*[c_and(c_eq(k, n), g(*rest)) for n, g in enumerate(fs)])
        out = S()
        for n, g in enumerate(fs):
            out = out + S.of(g(*rest)).guard(c_eq(k, n))
        return out

    axes.insert(axis, Atom(len(items)))
    return Tensor(axes, f, dt)


def concat_list(items, axis, same):
    nd = items[0].ndim
    if nd == 0 or any(t.ndim != nd for t in items):
        raise ShapeError("concatenate: ranks differ")
    if axis < 0:
        axis += nd
    axes = list(items[0].axes)
    for t in items[1:]:
        axes = [a if k == axis else tn.common_axis(a, b, same) for k, (a, b) in enumerate(zip(axes, t.axes))]
    ts = []
    dt = tn.join_dtype(*items)
    for t in items:
        for k in range(nd):
            if k != axis:
                t = tn.re_axis(t, k, axes[k])
        ts.append(t)
    if not all(is_flat(t.axes[axis]) for t in ts):
        # some parts have a structure of their own
        pick = []
        for t in ts:
            a = t.axes[axis]
            if isinstance(a, tn.Alt):
                pick += [(t.f, n, b) for n, b in enumerate(a.parts)]
            else:
                pick.append((t.f, None, a))

        def h(*idx):
            i = list(idx)
            n, x = i[axis]
            g, m, _ = pick[n]
            i[axis] = x if m is None else tn.AltIdx((m, x))
            return g(*i)

        axes = list(axes)
        axes[axis] = tn.Alt([a for _, _, a in pick])
        return Tensor(axes, h, dt)
    ts = [flat_axis(t, axis) for t in ts]
    offs, o = [], P()
    for t in ts:
        offs.append(o)
        o = o + t.axes[axis].dim()
    parts = [(t.f, off, off + t.axes[axis].dim()) for t, off in zip(ts, offs)]

    def f(*idx):
        i = idx[axis]
        out = S()
        cs = []
        for n, (g, lo, hi) in enumerate(parts):
            j = list(idx)
            j[axis] = i - lo
            cond = c_and(*([c_le(lo, i)] if n else []), *([c_lt(i, hi)] if n + 1 < len(parts) else []))
            if cond.t[0] == "f":
                continue
            v = g(*j)
            if dt == "bool":
                cs.append(c_and(cond, v))
            else:
                out = out + S.of(v).guard(cond)
        return c_or(*cs) if dt == "bool" else out

    axes = list(axes)
    axes[axis] = Atom(o)
    return Tensor(axes, f, dt)


def is_flat(a):
    return isinstance(a, Atom) or (isinstance(a, Prod) and all(isinstance(x, Atom) for x in a.parts))


def flat_axis(t, k):
    """index axis k by its flat position"""
    a = t.axes[k]
    if isinstance(a, Atom):
        return t
    if isinstance(a, Prod) and all(isinstance(x, Atom) for x in a.parts):
        return unflatten(t, k, a)
    raise Unsupported("flat index of a structured axis")


def unflatten(t, k, a):
    """flat index -> (div, mod) digits"""
    f0 = t.f

    def f(*idx):
        i = list(idx)
        r = i[k]
        out = []
        for x in reversed(a.parts):
            n = x.dim()
            out.append(pmod(r, n))
            r = fdiv(r, n)
        out.reverse()
        if len(out) > 0:
            pass
        i[k] = tuple(out)
        return f0(*i)

    axes = list(t.axes)
    axes[k] = Atom(a.dim())
    return Tensor(axes, f, t.dtype)


def cat_axis(space, inner):
    """axis of the concatenation over an iteration space"""
    from .interp import ax_subst

    atoms = [a for a, _, _ in space]
    if len(atoms) == 1 and space[0][1].is_zero() and atoms[0] not in _axis_atoms(inner):
        return Prod([Atom(space[0][2]), inner])
    return Sig(space, lambda ks: ax_subst(inner, dict(zip(atoms, ks))))


def seq_tensor(seq, axis, same, cat=False):
    """np.stack / np.concatenate over a symbolic sequence of arrays"""
    from .interp import freshen, vsubst

    seq = freshen(seq)
    if not seq.single():
        raise Unsupported("stack of a guarded sequence")
    el = as_tensor(seq.items[0][1])
    atoms = [a for a, _, _ in seq.space]
    if not cat:
        if len(atoms) > 1 and all(hi is not None for _, _, hi in seq.space):
            from .interp import Seq

            inner = seq_tensor(Seq(seq.space[-1:], seq.items), axis, same)
            return seq_tensor(Seq(seq.space[:-1], [(TRUE, inner)]), axis, same, cat=True)
        if len(atoms) != 1 or seq.space[0][2] is None:
            raise Unsupported("stack over a nested space")
        a, lo, hi = seq.space[0]
        if axis < 0:
            axis += el.ndim + 1
        for x in el.axes:
            if a in _axis_atoms(x):
                raise Unsupported("stack of arrays with varying shapes")
        f0 = el.f

        def f(*idx):
            k = idx[axis] + lo
            rest = idx[:axis] + idx[axis + 1 :]
            return subst_entry(f0, rest, {a: k})

        axes = list(el.axes)
        axes.insert(axis, Atom(hi - lo))
        return Tensor(axes, f, el.dtype)
    if axis < 0:
        axis += el.ndim
    for k, x in enumerate(el.axes):
        if k != axis and set(atoms) & _axis_atoms(x):
            raise Unsupported("concatenation of arrays with varying shapes")
    inner = el.axes[axis]
    cat = cat_axis(seq.space, inner)
    f0 = el.f
    if isinstance(cat, Prod):
        # equal sizes: a product axis

        def h(*idx):
            i = list(idx)
            k, x = idx[axis][0], idx[axis][1:]
            i[axis] = tuple(x) if isinstance(inner, Prod) else x[0]
            return subst_entry(f0, i, {atoms[0]: k})

        axes = list(el.axes)
        axes[axis] = cat
        return Tensor(axes, h, el.dtype)

    def g(*idx):
        ks, x = idx[axis]
        i = list(idx)
        i[axis] = x
        return subst_entry(f0, i, dict(zip(atoms, ks)))

    axes = list(el.axes)
    axes[axis] = cat
    return Tensor(axes, g, el.dtype)


def _axis_atoms(x):
    if isinstance(x, Atom):
        return x.n.deep_atoms()
    if isinstance(x, Prod):
        s = set()
        for a in x.parts:
            s |= _axis_atoms(a)
        return s
    if isinstance(x, tn.Alt):
        return set().union(*[_axis_atoms(a) for a in x.parts])
    ks, b, _ = x.fresh_space("q")
    s = _axis_atoms(x.inst(ks)) - {the_atom(k) for k in ks}
    for _, lo, hi in x.space:
        s |= lo.deep_atoms() | hi.deep_atoms()
    return s - {a for a, _, _ in x.space}


def subst_entry(f, idx, s):
    from .interp import idx_place

    back = {}
    hold = [idx_place(i, back) for i in idx]
    r = f(*hold).subst(s)
    return r.subst(back)


def dt_of(d, default="real"):
    if d is None:
        return default
    if isinstance(d, np.dtype) or isinstance(d, type) or isinstance(d, str):
        k = np.dtype(d).kind
        return {"b": "bool", "i": "int", "u": "int", "f": "real", "c": "complex"}.get(k) or _u("dtype")
    raise Unsupported("dtype")


def _u(m):
    raise Unsupported(m)


NPDT = dict(bool=np.dtype(bool), int=np.dtype(np.int64), real=np.dtype(np.float64), complex=np.dtype(np.complex128))


def scalar_of(x):
    """P of a scalar-like value"""
    if isinstance(x, P):
        return x
    if isinstance(x, Tensor) and x.ndim == 0:
        e = x.at()
        if isinstance(e, S):
            p = e.scalar()
            if p is not None:
                return p
        raise Unsupported("scalar with sums")
    if isinstance(x, (bool, int, Fraction, np.generic, float, complex)):
        return exact(x) if isinstance(x, (float, complex, np.floating, np.complexfloating)) else P.of(x)
    raise Unsupported(f"scalar expected: {type(x).__name__}")


def cast_scalar(p, t):
    k = dt_of(t)
    if k == "int" and not p.is_int():
        raise Unsupported("cast to integer")
    return p


# ---------------------------------------------------------------------------------------------------
# indexing


def norm_index(it, t, idx):
    """per axis: ('i', P) | ('s', lo, n) | ('all',) | ('t', Tensor) and the positions of new axes"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    n_real = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if n_real > t.ndim:
        raise PyRaise_()(IndexError, "too many indices")
    if any(x is Ellipsis for x in idx):
        k = next(n for n, x in enumerate(idx) if x is Ellipsis)
        idx[k : k + 1] = [slice(None)] * (t.ndim - n_real)
    else:
        idx += [slice(None)] * (t.ndim - n_real)
    out = []
    ax = 0
    for x in idx:
        if x is None:
            out.append(("new",))
            continue
        a = t.axes[ax]
        ax += 1
        if isinstance(x, slice):
            out.append(norm_slice(it, a, x))
        elif isinstance(x, (bool, np.bool_, C)):
            raise Unsupported("boolean index")
        elif isinstance(x, (int, np.integer, P)):
            i = P.of(x)
            out.append(("i", norm_int(it, a, i)))
        elif isinstance(x, (Tensor, np.ndarray, list, tuple)):
            y = as_tensor(list(x) if isinstance(x, tuple) else x)
            if y.dtype == "bool":
                if y.ndim != 1:
                    raise Unsupported("boolean mask of several dimensions")
                out.append(("t", selection(it, y, a)))
                continue
            if y.ndim == 0:
                out.append(("i", norm_int(it, a, scalar_of(y))))
            else:
                out.append(("t", y))
        elif type(x).__name__ in ("Seq", "SymRange", "Cat") or isinstance(x, range):
            if isinstance(x, range):
                y = as_tensor(list(x))
            else:
                y = it.models[np.stack](x if type(x).__name__ != "SymRange" else it.seq_of(x))
            if y.ndim != 1:
                raise Unsupported("index sequence")
            out.append(("t", y))
        else:
            raise Unsupported(f"index {type(x).__name__}")
    return out


def PyRaise_():
    from .interp import PyRaise

    return PyRaise


def norm_int(it, a, i):
    n = a.dim()
    if not i.is_int():
        raise Unsupported("non-integer index")
    if i.is_const() and i.const() < 0:
        j = n + i
        if n.is_const() and j.const() < 0:
            raise PyRaise_()(IndexError, "index out of range")
        if not n.is_const() and not it.entails(c_le(0, j)):
            raise Unsupported("negative index not provably in range")
        i = j
    elif i.is_const() and n.is_const():
        if i.const() >= n.const():
            raise PyRaise_()(IndexError, "index out of range")
    elif not it.entails(in_range(i, 0, n)):
        # python wraps negative indices
        if it.entails(c_and(c_le(-n, i), c_lt(i, 0))):
            i = i + n
        elif it.branch(in_range(i, 0, n)):
            pass
        elif it.branch(c_and(c_le(-n, i), c_lt(i, 0))):
            i = i + n
        else:
            raise PyRaise_()(IndexError, "index out of range")
    if not isinstance(a, Atom):
        if isinstance(a, Prod) and all(isinstance(x, Atom) for x in a.parts):
            r, out = i, []
            for x in reversed(a.parts):
                out.append(pmod(r, x.dim()))
                r = fdiv(r, x.dim())
            return tuple(reversed(out))
        raise Unsupported("integer index on a structured axis")
    return i


def norm_slice(it, a, x):
    st, en, step = x.start, x.stop, x.step
    if st is None and en is None and step in (None, 1):
        return ("all",)
    n = a.dim()
    if step == -1 and st is None and en is None and isinstance(a, Atom):
        return ("r", n)
    if step not in (None, 1):
        if isinstance(step, int) and step > 1 and en is None and n.is_const():
            s0 = int(P.of(st or 0).const())
            cnt = len(range(s0, int(n.const()), step))
            return ("st", P.of(s0), step, P.of(cnt))
        raise Unsupported("slice step")
    if st is None:
        st = P()
    else:
        st = scalar_of(st)
    en = n if en is None else scalar_of(en)
    if isinstance(a, tn.Alt):
        cuts = [a.offset(n) for n in range(len(a.parts) + 1)]
        for lo in range(len(cuts)):
            for hi in range(lo + 1, len(cuts)):
                if it.same(cuts[lo], st) and it.same(cuts[hi], en):
                    return ("all",) if hi - lo == len(a.parts) else ("alt", lo, hi, a)
    if isinstance(a, tn.Sig):
        r = slice_sig(it, a, st, en)
        if r is not None:
            return r
        if it.skip_stores:
            return ("lazy", en - st)

    def clip(v):
        if v.is_const() and v.const() < 0:
            v = n + v
            if n.is_const():
                return P.of(max(0, v.const()))
            if not it.entails(c_le(0, v)):
                raise Unsupported("slice bound")
            return v
        if v.is_const() and n.is_const():
            return P.of(min(v.const(), n.const()))
        if v.is_const() and v.const() == 0:
            return v
        if v == n:
            return v
        if it.entails(in_range(v, 0, n + 1)):
            return v
        # python semantics, case by case
        if it.branch(c_lt(v, 0)):
            v = v + n
            return v if it.branch(c_le(0, v)) else P()
        return v if it.branch(c_le(v, n)) else n

    lo, hi = clip(st), clip(en)
    if not it.entails(c_le(lo, hi)):
        if not it.branch(c_le(lo, hi)):
            hi = lo
    if lo.is_zero() and hi == n:
        return ("all",)
    if not isinstance(a, Atom):
        raise Unsupported("slice of a structured axis")
    return ("s", lo, hi - lo)


def slice_sig(it, a, st, en):
    """[prefix(k), prefix(k) + n_k) of a concatenation is its block k"""
    import itertools

    st, en = P.of(st), P.of(en)
    cand = [P.atom(x) for x in sorted(st.deep_atoms(), key=repr) if x[0] == "i"]
    for ks in itertools.product(*[[P.of(lo)] + cand for _, lo, _ in a.space]):
        ks = list(ks)
        if tn.sig_offset(a, ks) != st:
            continue
        sub, rng = {}, []
        for k, (x, lo, hi) in zip(ks, a.space):
            rng.append(in_range(k, lo.subst(sub), hi.subst(sub)))
            sub[x] = k
        inner = a.inst(ks)
        if en - st == inner.dim() and it.entails(c_and(*rng)):
            return ("sig", ks, inner)
    return None


def getitem(it, t, idx):
    ns = norm_index(it, t, idx)
    if any(x[0] == "t" for x in ns):
        return gather(it, t, ns)
    axes, plan = [], []
    ax = 0
    for x in ns:
        if x[0] == "new":
            axes.append(Atom(1))
            plan.append(("skip",))
            continue
        a = t.axes[ax]
        ax += 1
        if x[0] == "i":
            plan.append(x)
        elif x[0] == "all":
            axes.append(a)
            plan.append(x)
        elif x[0] == "r":
            axes.append(a)
            plan.append(x)
        elif x[0] == "st":
            axes.append(Atom(x[3]))
            plan.append(x)
        elif x[0] == "sig":
            axes.append(x[2])
            plan.append(x)
        elif x[0] == "alt":
            axes.append(x[3].parts[x[1]] if x[2] == x[1] + 1 else tn.Alt(x[3].parts[x[1] : x[2]]))
            plan.append(x)
        elif x[0] == "lazy":
            axes.append(Atom(x[1]))
            plan.append(x)
        else:
            axes.append(Atom(x[2]))
            plan.append(x)

    def build(f):
        def g(*idx):
            src, k = [], 0
            for x in plan:
                if x[0] == "skip":
                    k += 1
                elif x[0] == "i":
                    src.append(x[1])
                else:
                    i = idx[k]
                    k += 1
                    if x[0] == "lazy":
                        raise Unsupported("slice of a structured axis")
                    if x[0] == "sig":
                        src.append((list(x[1]), i))
                        continue
                    if x[0] == "alt":
                        src.append(tn.AltIdx((x[1], i)) if x[2] == x[1] + 1 else tn.AltIdx((x[1] + i[0], i[1])))
                        continue
                    src.append(i if x[0] == "all" else (i + x[1] if x[0] == "s" else (x[1] - 1 - i if x[0] == "r" else x[1] + x[2] * i)))
            return f(*src)

        return g

    r = tn.make_view(t, axes, build)
    r.base = t
    if not axes:
        e = r.f()
        if isinstance(e, S):
            p = e.scalar()
            if p is not None:
                return p
        elif isinstance(e, C):
            return e
    return r


def selection(it, mask, axis):
    """the positions where the mask is True, in order: the positions s(0) < ... < s(m - 1) of a fresh m, with the indicator u"""
    if not isinstance(axis, Atom) or not it.same(axis.n, mask.axes[0].dim()):
        raise Unsupported("mask of a structured axis")
    for known, idx, u in it.selections:
        if known is mask:
            return idx
    from .prove import Rule

    from . import core

    k = len(it.selections)
    q = isym("?q")
    params = mask_parameters(mask, q)
    if params:
        ps = [P.atom(a) for a in params]
        m = fn(f"m·mask{k}", *ps)
        core.FN_LO[f"m·mask{k}"] = 0
        core.INT_FNS |= {f"sel·{k}", f"m·mask{k}"}
        idx = Tensor([Atom(m)], lambda i: S.of(fn(f"sel·{k}", *ps, i)), "int")
        U = tn.uninterpreted(f"u·{k}", [Atom(P.of(1)) for _ in ps] + [Atom(axis.n)], real=True)
        u = Tensor([Atom(axis.n)], lambda i: U.f(*ps, i), "real")
        vs = [isym(f"?p{i}") for i in range(len(ps))]
        it.prover.add(Rule("0/1", U.f(*vs, q) * U.f(*vs, q), U.f(*vs, q)))
        it.prover.selections[f"m·mask{k}"] = (f"sel·{k}", lambda pv, i: U.f(*pv, i), axis.n)
        it.select_fns[f"sel·{k}"] = axis.n
        it.selections.append((mask, idx, u))
        return idx
    m = isym(f"m·mask{k}")
    core.INT_FNS.add(f"sel·{k}")
    it.assume(c_le(0, m), c_le(m, axis.n))
    idx = Tensor([Atom(m)], lambda i: S.of(fn(f"sel·{k}", i)), "int")
    u = tn.uninterpreted(f"u·{k}", [Atom(axis.n)], real=True)
    it.prover.add(Rule("0/1", u.f(q) * u.f(q), u.f(q)))
    it.prover.selections[the_atom(m)] = (f"sel·{k}", u, axis.n)
    it.select_fns[f"sel·{k}"] = axis.n
    it.selections.append((mask, idx, u))
    return idx


def mask_parameters(mask, q):
    """the variables the condition depends on, apart from the position q"""
    from .core import C

    c = mask.f(q)
    out = set()
    for x in [c] if isinstance(c, C) else [y for t in S.of(c).ts for y in (t[0], *t[1])]:
        x.deep_atoms(out)
    return sorted((a for a in out if a[0] == "i" and P.atom(a) != q and "!" in a[1]), key=repr)


def gather(it, t, ns):
    """advanced indexing: all index arrays broadcast together; result axes at the place of the first one if adjacent"""
    if any(x[0] == "new" for x in ns):
        raise Unsupported("newaxis with index arrays")
    pos = [k for k, x in enumerate(ns) if x[0] in ("t", "i")]
    ts = [tn.lift(x[1]) if x[0] == "i" else x[1] for x in (ns[k] for k in pos)]
    if any(isinstance(ns[k][1], tuple) for k in pos):
        raise Unsupported("index")
    adjacent = pos == list(range(pos[0], pos[-1] + 1))
    baxes, bfs = tn.broadcast(ts, it.same)
    for k, g in zip(pos, bfs):
        check_in_range(it, baxes, g, t.axes[k].dim())
    rest = [k for k in range(len(ns)) if k not in pos]
    first = pos[0] if adjacent else 0
    sub_axes = {}
    for k in rest:
        sub_axes[k] = t.axes[k] if ns[k][0] == "all" else Atom(ns[k][2])
        if ns[k][0] not in ("all", "s"):
            raise Unsupported("index mix")
    before = [k for k in rest if k < first] if adjacent else []
    after = [k for k in rest if k not in before]
    axes = [sub_axes[k] for k in before] + baxes + [sub_axes[k] for k in after]
    f0 = t.f
    nb, nm = len(before), len(baxes)

    def f(*idx):
        src = [None] * len(ns)
        mid = idx[nb : nb + nm]
        for k, g in zip(pos, bfs):
            p = g(*mid).scalar()
            if p is None:
                raise Unsupported("index with sums")
            src[k] = p
        for k, i in list(zip(before, idx[:nb])) + list(zip(after, idx[nb + nm :])):
            src[k] = i if ns[k][0] == "all" else i + ns[k][1]
        return f0(*src)

    return Tensor(axes, f, t.dtype)


def generic_indices(axes):
    """[(index, range)] that together stand for every index"""

    def one(a):
        if isinstance(a, tn.Alt):
            return [(tn.AltIdx((n, i)), r) for n, x in enumerate(a.parts) for i, r in one(x)]
        i = a.fresh("g")
        return [(i, a.range(i))]

    return [(tuple(i for i, _ in q), c_and(*[r for _, r in q])) for q in itertools.product(*[one(a) for a in axes])]


def generic_index(axes):
    idx = [a.fresh("g") for a in axes]
    return idx, c_and(*[a.range(i) for a, i in zip(axes, idx)])


def check_in_range(it, axes, g, n):
    idx, rng = generic_index(axes)
    p = g(*idx).scalar()
    if p is not None and len(p.d) == 1:
        a = next(iter(p.atoms()), None)
        if a is not None and a[0] == "fn" and p == P.atom(a) and it.select_fns.get(a[1]) == n:
            return
    if p is None:
        raise Unsupported("index with sums")
    if not it.solver.entails(tuple(it.pc) + (rng,), in_range(p, 0, n)):
        raise Unsupported("index array not provably in range")


def coerce(t_dtype, v):
    """value stored into an array of the given dtype"""
    from .interp import real_part

    if tn.ORDER[v.dtype] <= tn.ORDER[t_dtype]:
        if v.dtype == "bool" and t_dtype != "bool":
            f = v.f
            return Tensor(v.axes, lambda *i: S.of(1).guard(f(*i)), t_dtype)
        return v
    if t_dtype == "real" and v.dtype == "complex":
        f = v.f
        return Tensor(v.axes, lambda *i: real_part(f(*i)), "real")
    if t_dtype == "int" and v.dtype == "real":
        if v.ndim == 0:
            p = v.f().scalar()
            if p is not None and p.is_int():
                return v
    raise Unsupported(f"storing {v.dtype} into {t_dtype}")


def setitem(it, t, idx, v):
    if t.root().owner:
        it.frame("an array that belongs to the caller is modified in place")
    elif t.view:
        raise Unsupported("store through a view")
    if it.skip_stores and getattr(t, "loopvar", False):
        return
    ns = norm_index(it, t, idx)
    v = coerce(t.dtype, as_tensor(v))
    if any(x[0] == "t" for x in ns):
        return scatter(it, t, ns, v)
    if any(x[0] in ("new", "r", "st", "sig", "lazy") for x in ns):
        raise Unsupported("store index")
    dst = [k for k, x in enumerate(ns) if x[0] != "i"]
    daxes = [t.axes[k] if ns[k][0] == "all" else Atom(ns[k][2]) for k in dst]
    while v.ndim > len(daxes) and tn.is_one(v.axes[0]):
        v = getitem(it, v, 0)
        v = as_tensor(v)
    if v.ndim > len(daxes):
        raise ShapeError("store: too many dimensions")
    off = len(daxes) - v.ndim
    ones = []
    for q in range(v.ndim):
        a, b = v.axes[q], daxes[off + q]
        if tn.is_one(a) and not tn.is_one(b):
            ones.append(q)
            continue
        c = tn.common_axis(b, a, it.same)
        if c.key() != b.key():
            k = dst[off + q]
            if ns[k][0] != "all":
                # keep the destination flat: address the source by flat positions
                v = flat_axis(v, q)
                continue
            if t.views:
                raise Unsupported("restructuring an aliased array")
            r = tn.re_axis(t, k, c)
            t.axes, t.f = r.axes, r.f
            daxes[off + q] = c
        v = tn.re_axis(v, q, c)
    vf, vaxes, nv = v.f, v.axes, v.ndim

    def val(sub):
        j = list(sub[off:])
        for q in ones:
            j[q] = tn.zero_idx(vaxes[q])
        return vf(*j)

    if getattr(t, "loopvar", False):
        t.log.append(([], [norm_region(x) for x in ns], val))
    f0 = t.f
    t.update(store_fn(f0, ns, val, t.dtype))


def norm_region(x):
    return x


def store_fn(f0, ns, val, dtype):
    def f(*idx):
        conds, sub = [], []
        for i, x in zip(idx, ns):
            if x[0] == "i":
                conds.append(c_eq(i, x[1]) if isinstance(i, P) and isinstance(x[1], P) else _eqidx(i, x[1]))
            elif x[0] == "all":
                sub.append(i)
            else:
                conds.append(in_range(i, x[1], x[1] + x[2]))
                sub.append(i - x[1])
        c = c_and(*conds)
        if c.t[0] == "f":
            return f0(*idx)
        v = val(sub)
        if c.t[0] == "t":
            return v
        if dtype == "bool":
            return c_or(c_and(c, v), c_and(c_not(c), f0(*idx)))
        return f0(*idx).guard(c_not(c)) + S.of(v).guard(c)

    return f


def _eqidx(i, j):
    return c_and(*[_eqidx(a, b) if isinstance(a, tuple) else c_eq(a, b) for a, b in zip(i, j)])


def scatter(it, t, ns, v):
    """t[index arrays] = v"""
    pos = [k for k, x in enumerate(ns) if x[0] in ("t", "i")]
    if len(pos) != len(ns) or getattr(t, "loopvar", False):
        raise Unsupported("store with partial index arrays")
    ts = [tn.lift(ns[k][1]) if ns[k][0] == "i" else ns[k][1] for k in pos]
    baxes, bfs = tn.broadcast(ts, it.same)
    for k, g in zip(pos, bfs):
        check_in_range(it, baxes, g, t.axes[k].dim())
    vb = tn.broadcast([v, Tensor(baxes, lambda *i: S())], it.same)
    if [a.key() for a in vb[0]] != [a.key() for a in baxes]:
        raise Unsupported("store shapes")
    vf = vb[1][0]
    f0 = t.f
    probe = [a.fresh("u") for a in baxes]
    images = []
    for g in bfs:
        p = g(*probe).scalar()
        if p is None:
            raise Unsupported("index with sums")
        images.append(p)
    sol = {}
    for m, p in enumerate(images):
        for q, u in enumerate(probe):
            if isinstance(u, P) and p == u and q not in sol:
                sol[q] = m
    if len(sol) != len(probe):
        # the position does not determine the source element: last write wins unless the value is constant
        raise Unsupported("store with non-invertible index arrays")

    def f(*idx):
        s = {the_atom(probe[q]): idx[m] for q, m in sol.items()}
        conds = [c_eq(p.subst(s), idx[m]) for m, p in enumerate(images)]
        conds += [a.range(idx[sol[q]]) for q, a in enumerate(baxes)]
        c = c_and(*conds)
        val = vf(*[idx[sol[q]] for q in range(len(probe))])
        return f0(*idx).guard(c_not(c)) + S.of(val).guard(c)

    t.update(f)


def block_space(it, space, start, size, axis):
    """the loops whose prefix sum of block sizes is the start of the block, provided that the blocks fill the axis"""
    import itertools

    atoms = {a for a, _, _ in space}
    used = (start.deep_atoms() | size.deep_atoms()) & atoms
    for r in range(1, len(space) + 1):
        for sp in itertools.combinations(space, r):
            mine = {a for a, _, _ in sp}
            if not used <= mine or any(((lo.deep_atoms() | hi.deep_atoms()) & atoms) - mine for _, lo, hi in sp):
                continue
            sp = list(sp)
            names = [a for a, _, _ in sp]
            g = Sig(sp, lambda ks: Atom(size.subst(dict(zip(names, ks)))))
            if it.same(tn.sig_offset(g, [P.atom(a) for a in names]), start) and it.same(g.dim(), axis.dim()):
                return sp
    return None


def region_solver(it, entries, space, axes):
    """entries: (cond, region, val).  Returns (new axes, locate(region, idx) -> (cond, substitution, sub-index))"""
    atoms = [a for a, _, _ in space]
    newaxes = list(axes)
    sig_axes = {}
    for c, region, val in entries:
        for k, x in enumerate(region):
            if x[0] == "s" and ((x[1].deep_atoms() | x[2].deep_atoms()) & set(atoms)):
                # block addressed by a prefix sum over (some of) the loops
                sp = block_space(it, space, x[1], x[2], axes[k])
                if sp is None:
                    raise Unsupported("blocks are not addressed by a prefix sum that fills the axis")
                mine = [a for a, _, _ in sp]
                n = x[2]
                newaxes[k] = Sig(sp, lambda ks, n=n, mine=mine: Atom(n.subst(dict(zip(mine, ks)))))
                sig_axes[k] = mine

    def locate(region, idx):
        sub, conds, s = [], [], {}
        eqs = []
        for k, (x, i) in enumerate(zip(region, idx)):
            if k in sig_axes:
                (kk, xx) = i
                for a, y in zip(sig_axes[k], kk):
                    if a in s:
                        conds.append(c_eq(s[a], y))
                    else:
                        s[a] = y
                sub.append(xx)
            elif x[0] == "i":
                eqs.append((x[1], i))
            elif x[0] == "all":
                sub.append(i)
            else:
                if (x[1].deep_atoms() | x[2].deep_atoms()) & set(atoms):
                    raise Unsupported("store region")
                conds.append(in_range(i, x[1], x[1] + x[2]))
                sub.append(i - x[1])
        work = list(eqs)
        changed = True
        while changed:
            changed = False
            for p, i in list(work):
                q = p.subst(s) - i
                un = [a for a in atoms if a not in s and a in q.deep_atoms()]
                if not un:
                    conds.append(c_eq(q, 0))
                    work.remove((p, i))
                    changed = True
                    continue
                for a in un:
                    r = q.lin(a)
                    if r is not None and abs(r[0]) == 1 and not (set(r[1].deep_atoms()) & (set(atoms) - set(s))):
                        s[a] = r[1] * (-1 / r[0])
                        work.remove((p, i))
                        changed = True
                        break
                if changed:
                    break
        if work or any(a not in s for a in atoms):
            raise Unsupported("store position does not determine the iteration")
        for a, lo, hi in space:
            conds.append(in_range(s[a], lo.subst(s), hi.subst(s)))
        return c_and(*conds), s, sub

    return newaxes, locate


# ---------------------------------------------------------------------------------------------------
# attributes of arrays


def tensor_attr(it, t, name):
    from .interp import Bound, real_part

    if name == "shape":
        return tuple(int(d.const()) if d.is_const() else d for d in t.shape)
    if name == "ndim":
        return t.ndim
    if name == "size":
        r = P.of(1)
        for d in t.shape:
            r = r * d
        return r
    if name == "dtype":
        return NPDT[t.dtype]
    if name == "T":
        r = tn.transpose(t, list(range(t.ndim))[::-1])
        return r
    if name == "real":
        return m_real(it, t)
    if name == "imag":
        return m_imag(it, t)
    if name in ("all", "any", "conj", "conjugate", "copy", "reshape", "dot", "astype", "transpose", "item", "sum", "flatten", "ravel"):
        fnm = {
            "all": lambda i, s, *a, **k: m_all(i, s, *a, **k),
            "any": lambda i, s, *a, **k: m_any(i, s, *a, **k),
            "conj": lambda i, s: m_conj(i, s),
            "conjugate": lambda i, s: m_conj(i, s),
            "copy": lambda i, s: Tensor(s.axes, s.f, s.dtype),
            "reshape": lambda i, s, *d: m_reshape(i, s, d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d),
            "dot": lambda i, s, o: tn.matmul(s, as_tensor(o), i.same),
            "astype": lambda i, s, d, **k: m_astype(i, s, d),
            "transpose": lambda i, s, *p: tn.transpose(s, list(p[0]) if len(p) == 1 and isinstance(p[0], (tuple, list)) else (list(p) or list(range(s.ndim))[::-1])),
            "item": lambda i, s: scalar_of(s),
            "sum": lambda i, s, *a, **k: m_sum(i, s, *a, **k),
            "flatten": lambda i, s: m_reshape(i, s, (-1,)),
            "ravel": lambda i, s: m_reshape(i, s, (-1,)),
        }[name]
        return Bound(fnm, t, model=True)
    raise Unsupported(f"array attribute {name}")


def m_astype(it, t, d):
    k = dt_of(d)
    if tn.ORDER[k] >= tn.ORDER[t.dtype]:
        if t.dtype == "bool" and k != "bool":
            f = t.f
            return Tensor(t.axes, lambda *i: S.of(1).guard(f(*i)), k)
        return Tensor(t.axes, t.f, k)
    raise Unsupported("narrowing cast")


def m_reshape(it, t, dims):
    t = as_tensor(t)
    if isinstance(dims, (int, P)):
        dims = (dims,)
    ds = []
    for d in dims:
        p = scalar_of(d)
        ds.append(None if p.is_const() and p.const() == -1 else p)
    # an empty or zero-size array reshapes to anything of size zero; -1 is inferred
    return tn.reshape(t, ds, it.same)


def unary(t, op, dtype=None):
    f = t.f
    return Tensor(t.axes, lambda *i: op(f(*i)), dtype or t.dtype)


def m_conj(it, x):
    if isinstance(x, P):
        return x.conj()
    x = as_tensor(x)
    if x.dtype != "complex":
        return Tensor(x.axes, x.f, x.dtype)
    return unary(x, lambda s: s.conj())


def m_real(it, x):
    from .interp import real_part

    if isinstance(x, P):
        return it.getattr(x, "real")
    x = as_tensor(x)
    if x.dtype != "complex" or getattr(x, "known_real", False) or getattr(getattr(it, "ctx", None), "realness", ""):
        return Tensor(x.axes, x.f, x.dtype if x.dtype != "complex" else "real")
    return unary(x, real_part, "real")


def m_imag(it, x):
    if isinstance(x, P):
        return (x - x.conj()) * (-IMAG) * Fraction(1, 2)
    x = as_tensor(x)
    if x.dtype != "complex":
        return Tensor(x.axes, lambda *i: S(), "real")
    r = unary(x, lambda s: (s - s.conj()) * S.of(-IMAG * Fraction(1, 2)), "real")
    r.imag_of = x
    return r


class AbsT:
    """|T| of a tensor whose entries carry sums: only comparisons with a positive constant are meaningful"""

    vsym = True

    def __init__(self, t):
        self.t = t


class Near0:
    """elementwise |T| < eps"""

    vsym = True

    def __init__(self, t):
        self.t = t


def m_abs(it, x):
    if isinstance(x, P):
        if not x.is_real():
            raise Unsupported("modulus of a complex number")
        return norm_abs(it, x)
    x = as_tensor(x)
    idx, rng = generic_index(x.axes)
    if x.f(*idx).scalar() is None or x.dtype == "complex" or getattr(x, "imag_of", None) is not None:
        return AbsT(x)
    return unary(x, lambda s: S.of(pabs(s.scalar())) if s.scalar() is not None else _u("abs of a sum"), "real" if x.dtype == "complex" else x.dtype)


def norm_abs(it, x):
    if x.is_const():
        return pabs(x)
    if it.entails(c_le(0, x)):
        return x
    if it.entails(c_le(x, 0)):
        return -x
    return pabs(x)


def prove_tensor_zero(it, t):
    """every entry is exactly zero, for all indices"""
    from .prove import prove_zero, Fail

    idx, rng = generic_index(t.axes)
    try:
        prove_zero(it.prover, t.f(*idx), tuple(it.pc) + (rng,))
        return True
    except Fail as e:
        it.last_residual = str(e)
        return False


def m_all(it, x, axis=None):
    if axis is not None:
        raise Unsupported("all along an axis")
    if isinstance(x, C) or isinstance(x, bool):
        if it.lane:
            # one lane of an array: all() true implies this lane true, all() false says nothing about this lane
            if it.choice():
                it.assume(x if isinstance(x, C) else (TRUE if x else FALSE))
                if it.solver.check(tuple(it.pc)) == "unsat":
                    from .interp import PathDead

                    raise PathDead()
                return True
            return False
        return x
    if isinstance(x, Near0):
        if prove_tensor_zero(it, x.t):
            return True
        if it.ctx.closeness:
            t = getattr(x.t, "imag_of", None)
            if t is not None:
                t.known_real = True
            return True
        raise Unsupported("np.all(np.abs(..) < eps) not provable: " + getattr(it, "last_residual", "")[:4000])
    if isinstance(x, (list, tuple)):
        return it.conj_list([v if isinstance(v, (bool, C)) else it.truth(v) for v in x])
    x = as_tensor(x)
    if x.dtype != "bool":
        x = it.equal(x, 0)
        f = x.f
        x = Tensor(x.axes, lambda *i: c_not(f(*i)), "bool")
    idx, rng = generic_index(x.axes)
    e = x.f(*idx)
    if it.solver.entails(tuple(it.pc) + (rng,), e):
        return True
    vs = [v for v in flat_syms(idx)]
    c = forall(vs, c_or(c_not(rng), e)) if vs else e
    return c


def flat_syms(idx):
    for i in idx:
        if isinstance(i, P):
            yield i
        else:
            yield from flat_syms(i)


def m_any(it, x, axis=None):
    if axis is not None:
        raise Unsupported("any along an axis")
    if isinstance(x, C):
        return x
    if isinstance(x, (list, tuple)):
        return it.disj([v if isinstance(v, (bool, C)) else it.truth(v) for v in x])
    x = as_tensor(x)
    idx, rng = generic_index(x.axes)
    e = x.f(*idx)
    if it.solver.entails(tuple(it.pc) + (rng,), c_not(e)):
        return False
    vs = list(flat_syms(idx))
    return exists(vs, c_and(rng, e)) if vs else e


def m_sum(it, x, axis=None, **k):
    if k:
        raise Unsupported("sum options")
    x = as_tensor(x)
    axs = list(range(x.ndim)) if axis is None else ([axis] if isinstance(axis, int) else list(axis))
    axs = [a + x.ndim if a < 0 else a for a in axs]
    keep = [a for a in range(x.ndim) if a not in axs]
    f0, axes = x.f, x.axes

    def f(*idx):
        out = []
        for alt in itertools.product(*[tn.all_bounds(axes[a]) for a in axs]):
            src = [None] * len(axes)
            for a, i in zip(keep, idx):
                src[a] = i
            b = []
            for a, (i, bb) in zip(axs, alt):
                src[a] = i
                b += bb
            e = f0(*src)
            if isinstance(e, C):
                e = S.of(1).guard(e)
            out.append(e.sum(b) if b else e)
        return out[0] if len(out) == 1 else sum(out, S())

    r = Tensor([axes[a] for a in keep], f, "int" if x.dtype == "bool" else x.dtype)
    return r


# ---------------------------------------------------------------------------------------------------


def build(it):
    from .interp import (
        Bound, Cat, Closure, LoopList, Obj, Opaque, PathDead, PyRaise, Seq, StarSeq, SymRange, SymSet, as_c, chunks_to_value, freshen, vsubst, is_sym,
    )
    from .strings import Text, regex

    M = {}

    def model(*fs, always=False, star=False):
        def deco(g):
            g.always = always
            g.star = star
            for f in fs:
                M[f] = g
            return g

        return deco

    def dims_of(shape):
        if isinstance(shape, (int, np.integer, P)):
            shape = (shape,)
        out = []
        for d in shape:
            p = scalar_of(d)
            if not p.is_int():
                raise Unsupported(f"non-integer shape {p}")
            if not p.is_const() and not it.entails(c_le(0, p)):
                if it.branch(c_lt(p, 0)):
                    raise PyRaise(ValueError, "negative dimensions")
            out.append(p)
        return out

    def filled(v):
        def g(shape, dtype=None, **k):
            if k:
                raise Unsupported("array creation options")
            return tn.const([Atom(d) for d in dims_of(shape)], v, dt_of(dtype))

        return g

    M[np.zeros] = filled(0)
    M[np.ones] = filled(1)

    @model(np.empty)
    def _(shape, dtype=None):
        ds = dims_of(shape)
        if not any(d.is_zero() for d in ds):
            if not any(it.entails(c_eq(d, 0)) for d in ds):
                from .tensor import uninterpreted

                f = fresh("empty")
                return uninterpreted(f"uninit{the_atom(f)[1]}", [Atom(d) for d in ds], dtype=dt_of(dtype))
        return tn.const([Atom(d) for d in ds], 0, dt_of(dtype))

    @model(np.full)
    def _(shape, v, dtype=None):
        return tn.const([Atom(d) for d in dims_of(shape)], scalar_of(v), dt_of(dtype) if dtype else None)

    def like(v):
        def g(x, dtype=None):
            if isinstance(x, P):
                return P.of(v)
            x = as_tensor(x)
            return tn.const(x.axes, v, dt_of(dtype, x.dtype))

        return g

    M[np.zeros_like] = like(0)
    M[np.ones_like] = like(1)

    @model(np.eye)
    def _(n, m=None, dtype=None, k=0):
        if (m is not None and not it.same(scalar_of(n), scalar_of(m))) or k != 0:
            raise Unsupported("rectangular identity")
        r = tn.eye(Atom(dims_of(n)[0]))
        r.dtype = dt_of(dtype)
        return r

    M[np.identity] = M[np.eye]

    @model(np.array)
    def _(x, dtype=None, **k):
        if isinstance(x, P):
            return x if dtype is None else tn.lift(x)
        if isinstance(x, (Seq, Cat)):
            return M[np.stack](x)
        t = as_tensor(x)
        return Tensor(t.axes, t.f, dt_of(dtype, t.dtype))

    @model(np.asarray)
    def _(x, dtype=None):
        if isinstance(x, Tensor):
            return x if dtype is None else m_astype(it, x, dtype)
        return M[np.array](x, dtype)

    @model(np.einsum)
    def _(spec, *ts, **k):
        if any(key != "optimize" for key in k):
            raise Unsupported("einsum options")
        if isinstance(spec, Opaque):
            raise Unsupported("einsum specification")
        return tn.einsum(spec, [as_tensor(t) for t in ts], it.same)

    @model(np.matmul)
    def _(a, b):
        return it.tensor_op(__import__("ast").MatMult, as_tensor(a), as_tensor(b))

    @model(np.dot)
    def _(a, b):
        a, b = as_tensor(a), as_tensor(b)
        if a.ndim == 0 or b.ndim == 0:
            return tn.elementwise(lambda x, y: x * y, a, b, same=it.same)
        if b.ndim <= 2:
            return tn.matmul(a, b, it.same)
        raise Unsupported("dot")

    @model(np.stack)
    def _(xs, axis=0):
        if isinstance(xs, Tensor):
            xs = [it.getitem(xs, k) for k in range(int(xs.axes[0].dim().const()))] if xs.axes[0].dim().is_const() else it.seq_of(xs)
        items = it.concrete_items(xs)
        if items is not None:
            if not items:
                raise PyRaise(ValueError, "need at least one array to stack")
            return stack_list([as_tensor(x) for x in items], axis, it.same)
        if isinstance(xs, Cat):
            return cat_tensor(xs, axis, it.same)
        s = it.seq_of(xs)
        n = seq_len(s)
        if not it.entails(c_lt(0, n)):
            if it.branch(c_le(n, 0)):
                raise PyRaise(ValueError, "need at least one array to stack")
        return seq_tensor(s, axis, it.same)

    @model(np.concatenate)
    def _(xs, axis=0):
        items = it.concrete_items(xs)
        if items is not None:
            if not items:
                raise PyRaise(ValueError, "need at least one array to concatenate")
            return concat_list([as_tensor(x) for x in items], axis, it.same)
        if isinstance(xs, Cat) and not xs.parts[1:]:
            xs = xs.parts[0]
        if isinstance(xs, Cat):
            parts = []
            for p in xs.parts:
                if isinstance(p, list):
                    parts += [as_tensor(x) for x in p]
                else:
                    parts.append(seq_tensor(it.seq_of(p), axis, it.same, cat=True))
            return concat_list(parts, axis, it.same)
        s = it.seq_of(xs)
        n = seq_len(s)
        if not it.entails(c_lt(0, n)):
            if it.branch(c_le(n, 0)):
                raise PyRaise(ValueError, "need at least one array to concatenate")
        return seq_tensor(s, axis, it.same, cat=True)

    @model(np.hstack)
    def _(xs):
        items = [as_tensor(x) for x in it.concrete_items(xs)]
        items = [getitem(it, t, (None,)) if t.ndim == 0 else t for t in items]
        return concat_list(items, 0 if items[0].ndim == 1 else 1, it.same)

    @model(np.vstack)
    def _(xs):
        items = [as_tensor(x) for x in it.concrete_items(xs)]
        if items[0].ndim < 2:
            raise Unsupported("vstack")
        return concat_list(items, 0, it.same)

    @model(np.reshape)
    def _(x, dims):
        return m_reshape(it, x, dims)

    @model(np.transpose)
    def _(x, axes=None):
        x = as_tensor(x)
        return tn.transpose(x, [a % x.ndim for a in axes] if axes is not None else list(range(x.ndim))[::-1])

    @model(np.swapaxes)
    def _(x, a, b):
        x = as_tensor(x)
        p = list(range(x.ndim))
        p[a], p[b] = p[b], p[a]
        return tn.transpose(x, p)

    @model(np.moveaxis)
    def _(x, src, dst):
        x = as_tensor(x)
        n = x.ndim
        src = [src] if isinstance(src, int) else list(src)
        dst = [dst] if isinstance(dst, int) else list(dst)
        src, dst = [s % n for s in src], [d % n for d in dst]
        order = [k for k in range(n) if k not in src]
        for d, s in sorted(zip(dst, src)):
            order.insert(d, s)
        return tn.transpose(x, order)

    @model(np.expand_dims)
    def _(x, axis):
        x = as_tensor(x)
        axis = axis % (x.ndim + 1)
        return getitem(it, x, tuple([slice(None)] * axis + [None]))

    M[np.conj] = lambda x: m_conj(it, x)
    M[np.conjugate] = M[np.conj]
    M[np.real] = lambda x: m_real(it, x)
    M[np.imag] = lambda x: m_imag(it, x)
    M[np.abs] = lambda x: m_abs(it, x)
    M[builtins.abs] = M[np.abs]
    M[np.all] = lambda x, axis=None: m_all(it, x, axis)
    M[np.any] = lambda x, axis=None: m_any(it, x, axis)
    M[np.sum] = lambda x, axis=None, **k: m_sum(it, x, axis, **k)

    @model(np.sqrt, math.sqrt)
    def _(x):
        if isinstance(x, P):
            if not x.is_const() and not it.entails(c_le(0, x)):
                it.oblige("the argument of a square root is not negative", c_le(0, x))
                it.assume(c_le(0, x))
            return sqrt(x)
        x = as_tensor(x)
        idx, rng = generic_index(x.axes)
        p = x.f(*idx).scalar()
        if p is None:
            raise Unsupported("square root of a sum")
        if not it.solver.entails(tuple(it.pc) + (rng,), c_le(0, p)):
            n = len(it.pc)
            it.assume(rng)
            try:
                it.oblige("the argument of a square root is not negative", c_le(0, p))
            finally:
                del it.pc[n:]
        return unary(x, lambda s: S.of(sqrt(s.scalar())), "real")

    @model(np.sign)
    def _(x):
        if isinstance(x, P):
            if it.branch(c_lt(0, x)):
                return P.of(1)
            return P.of(-1) if it.branch(c_lt(x, 0)) else P.of(0)
        raise Unsupported("sign")

    @model(np.kron)
    def _(a, b):
        a, b = as_tensor(a), as_tensor(b)
        if a.ndim != 2 or b.ndim != 2:
            raise Unsupported("kron")
        r = tn.einsum("ij,kl->ikjl", [a, b], it.same)
        out = tn.reshape(r, [a.axes[0].dim() * b.axes[0].dim(), a.axes[1].dim() * b.axes[1].dim()], it.same)
        out.tag = ("kron", a, b)
        return out

    @model(np.diag)
    def _(v, k=0):
        v = as_tensor(v)
        if v.ndim == 1:
            if not isinstance(v.axes[0], Atom):
                raise Unsupported("diag")
            n = v.axes[0].n
            f0 = v.f
            r, c = max(0, -k), max(0, k)
            return Tensor([Atom(n + abs(k))] * 2, lambda i, j: S.of(f0(i - r)).guard(c_eq(i - r, j - c), *([c_le(r, i)] if r else []), *([c_le(c, j)] if c else [])), v.dtype)
        raise Unsupported("diag of a matrix")

    @model(np.arange)
    def _(*a, dtype=None):
        a = [scalar_of(x) for x in a]
        st, en, step = (P(), a[0], P.of(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else P.of(1))
        if not step == P.of(1):
            raise Unsupported("arange step")
        n = en - st
        if not n.is_int():
            # ceil
            n = it.ctx.resolve(n)
            c = n.const()
            D = math.lcm(*[x.denominator for x in n.d.values()])
            if (n - c).is_int():
                n = (n - c) + P.of(math.ceil(c))
            elif (n * D).is_int():
                n = -fdiv(-n * D, D)
            else:
                raise Unsupported("arange length")
        if not n.is_const() and not it.entails(c_le(0, n)):
            if it.branch(c_lt(n, 0)):
                n = P()
        elif n.is_const():
            n = P.of(max(0, n.const()))
        return Tensor([Atom(n)], lambda i: S.of(st + i), "int" if st.is_int() and dtype is None else dt_of(dtype))

    @model(np.meshgrid)
    def _(*xs, indexing="xy"):
        if indexing != "ij":
            raise Unsupported("meshgrid")
        xs = [as_tensor(x) for x in xs]
        axes = [x.axes[0] for x in xs]
        return [Tensor(axes, lambda *i, k=k, g=x.f: g(i[k]), x.dtype) for k, x in enumerate(xs)]

    @model(np.broadcast_shapes)
    def _(*shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = P.of(1)
            for s in shapes:
                q = k - (n - len(s))
                if q >= 0:
                    e = scalar_of(s[q])
                    if e == P.of(1):
                        continue
                    if d == P.of(1):
                        d = e
                    elif not it.same(d, e):
                        raise PyRaise(ValueError, "shapes do not broadcast")
            out.append(int(d.const()) if d.is_const() else d)
        return tuple(out)

    @model(np.broadcast_to)
    def _(x, shape):
        x = as_tensor(x)
        ds = [scalar_of(d) for d in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        off = len(ds) - x.ndim
        if off < 0:
            raise ShapeError("broadcast_to")
        axes = []
        for k, d in enumerate(ds):
            if k < off:
                axes.append(Atom(d))
                continue
            a = x.axes[k - off]
            if it.same(a.dim(), d):
                axes.append(a)
            elif tn.is_one(a):
                axes.append(Atom(d))
            else:
                raise ShapeError("broadcast_to")
        ones = [k for k in range(x.ndim) if tn.is_one(x.axes[k]) and not tn.is_one(axes[off + k])]
        xa = x.axes

        def bld(f):
            def g(*idx):
                i = list(idx[off:])
                for q in ones:
                    i[q] = tn.zero_idx(xa[q])
                return f(*i)

            return g

        return tn.make_view(x, axes, bld)

    @model(np.take)
    def _(x, i, axis=None):
        x = as_tensor(x)
        if axis is None:
            raise Unsupported("take")
        return getitem(it, x, tuple([slice(None)] * (axis % x.ndim) + [i]))

    @model(np.copy)
    def _(x):
        x = as_tensor(x)
        return Tensor(x.axes, x.f, x.dtype)

    @model(np.trace)
    def _(x):
        return tn.einsum("ii->", [as_tensor(x)], it.same)

    @model(np.outer)
    def _(a, b):
        return tn.einsum("i,j->ij", [as_tensor(a), as_tensor(b)], it.same)

    @model(np.where)
    def _(c, a=None, b=None):
        if a is None:
            raise Unsupported("where with one argument")
        if isinstance(c, (C, bool, np.bool_)) and not (isinstance(a, Tensor) or isinstance(b, Tensor)):
            return pick(c, a, b)
        c = c if isinstance(c, Tensor) else as_tensor(c)
        if c.dtype != "bool":
            raise Unsupported("where condition")
        a, b = as_tensor(a), as_tensor(b)
        dt = tn.join_dtype(a, b)
        return tn.elementwise(lambda x, y, z: y.guard(x) + z.guard(c_not(x)) if isinstance(x, C) else _u("where"), c, a, b, same=it.same, dtype=dt)

    def pick(c, a, b):
        v = a if it.truth(c) else b
        return tuple(v) if isinstance(v, (tuple, list)) else v

    @model(np.allclose)
    def _(a, b, rtol=1e-05, atol=1e-08, **k):
        return allclose(a, b, rtol, atol)

    @model(np.array_equal)
    def _(a, b):
        a, b = as_tensor(a), as_tensor(b)
        if a.ndim != b.ndim or any(not it.same(x, y) for x, y in zip(a.shape, b.shape)):
            if a.ndim != b.ndim:
                return False
            raise Unsupported("array_equal of different shapes")
        return allclose(a, b)

    def allclose(a, b, rtol=0, atol=0):
        a, b = as_tensor(a), as_tensor(b)
        if getattr(it, "ctx", None) is not None:
            it.ctx.tols.append((rtol, atol))
        if isinstance(rtol, P) or isinstance(atol, P) or rtol > 1e-4 or atol > 1e-6:  # too loose to mean equality
            try:
                if prove_tensor_zero(it, tn.elementwise(lambda x, y: x - y, a, b, same=it.same)):
                    return True
            except Unsupported:
                pass
            return it.choice()
        r = close(a, b)
        ctx = getattr(it, "ctx", None)
        if ctx is not None:
            ctx.compared.append((tn.elementwise(lambda x, y: x - y, a, b, same=it.same), r))
        return r

    def close(a, b):
        d = tn.elementwise(lambda x, y: x - y, a, b, same=it.same)
        # exact equality proved: true
        try:
            if prove_tensor_zero(it, d):
                return True
        except Unsupported:
            pass
        # two outcomes; on the true branch the equality may be used
        hook = getattr(it, "on_close", None)
        if hook is None:
            raise Unsupported("allclose undecided")
        return hook(a, b)

    @model(np.testing.assert_allclose)
    def _(a, b, rtol=1e-07, atol=0, **k):
        r = allclose(a, b, rtol, atol)
        if not it.truth(r):
            raise PyRaise(AssertionError, "assert_allclose")

    @model(np.linalg.inv)
    def _(q):
        return it.inverse(as_tensor(q))

    @model(np.linalg.pinv)
    def _(q):
        return it.inverse(as_tensor(q), pinv=True)

    @model(np.linalg.matrix_power)
    def _(h, k):
        h = as_tensor(h)
        k = scalar_of(k)
        if k.is_const() and 0 <= k.const() <= 6:
            r = tn.eye(h.axes[-1])
            for _ in range(int(k.const())):
                r = tn.matmul(r, h, it.same)
            return r
        return it.matrix_fn("matrix_power", h, k)

    import scipy.linalg

    @model(scipy.linalg.expm)
    def _(x):
        return it.matrix_fn("expm", as_tensor(x), None)

    @model(np.linalg.norm)
    def _(x, axis=None):
        return it.norm(as_tensor(x), axis)

    @model(np.prod)
    def _(x, axis=None, **k):
        if isinstance(x, (Tensor, np.ndarray)):
            x = as_tensor(x)
            if x.ndim != 1 or k or axis not in (None, 0, -1):
                raise Unsupported("prod")
            if not x.axes[0].dim().is_const():
                return it.prod_hook(x)
            x = [it.getitem(x, k) for k in range(int(x.axes[0].dim().const()))]
        items = it.concrete_items(x)
        if items is None:
            return M[np.prod](as_tensor(x), axis, **k)
        r = P.of(1)
        for v in items:
            r = r * scalar_of(v)
        return r

    M[math.prod] = M[np.prod]

    @model(np.gcd, math.gcd)
    def _(a, b):
        return fn("gcd", scalar_of(a), scalar_of(b))

    @model(np.round, builtins.round, np.floor, math.floor)
    def _(x, nd=None):
        p = scalar_of(x)
        if p.is_int():
            return p
        raise Unsupported("rounding")

    def rnd(x, nd=None):
        p = scalar_of(x)
        if p.is_int():
            return p
        c = p.const()
        whole = p - c
        if whole.is_int():
            fl = math.floor(c)
            fr = c - fl
            b = whole + fl
            if fr < Fraction(1, 2):
                return b
            if fr > Fraction(1, 2):
                return b + 1
            return b + pmod(b, 2)
        if (p * 2).is_int():
            # a half-integer: case on the parity of 2p
            if it.branch(c_eq(pmod(p * 2, 2), 0)):
                return fdiv(p * 2, 2)
            b = fdiv(p * 2, 2)
            return b + pmod(b, 2)
        raise Unsupported("rounding")

    M[builtins.round] = rnd
    M[np.round] = rnd

    def flr(x):
        p = scalar_of(x)
        if p.is_int():
            return p
        c = p.const()
        if (p - c).is_int():
            return (p - c) + math.floor(c)
        raise Unsupported("floor")

    M[np.floor] = flr
    M[math.floor] = flr

    @model(builtins.int, np.int64, np.int32)
    def _(x):
        if isinstance(x, C):
            return P.of(1) if it.branch(x) else P.of(0)
        if isinstance(x, Opaque):
            raise Unsupported("int of text")
        if isinstance(x, Text):
            return x.to_int(it)
        if isinstance(x, str):
            return int(x)
        p = scalar_of(x)
        if p.is_int():
            return p
        c = p.const()
        if (p - c).is_int():
            w = (p - c) + math.floor(c)
            # truncation towards zero
            return w if it.entails(c_le(0, p)) or it.branch(c_le(0, p)) else w + (0 if c.denominator == 1 else 1)
        if p.integer_valued():
            return p
        if (p * 2).is_int():
            if it.branch(c_le(0, p)):
                return fdiv(p * 2, 2)
            return -fdiv(-(p * 2), 2)
        raise Unsupported("int of a fraction")

    @model(builtins.float, np.float64)
    def _(x):
        return scalar_of(x)

    @model(builtins.bool)
    def _(x):
        return it.truth(x)

    from fractions import Fraction as Fr

    @model(Fr)
    def _(a, b=1):
        a, b = scalar_of(a), scalar_of(b)
        if b.is_const() and b.const() == 0:
            raise PyRaise(ZeroDivisionError, "")
        return a * inv(b)

    @model(builtins.range)
    def _(*a):
        a = [scalar_of(x) for x in a]
        for x in a:
            if not x.is_int():
                raise Unsupported("range of non-integers")
        lo, hi = (P(), a[0]) if len(a) == 1 else (a[0], a[1])
        step = 1
        if len(a) == 3:
            if not a[2].is_const():
                raise Unsupported("symbolic range step")
            step = int(a[2].const())
        if lo.is_const() and hi.is_const():
            return builtins.range(int(lo.const()), int(hi.const()), step)
        if step in (1, -1):
            # an empty range: make the bounds ordered
            d = hi - lo if step == 1 else lo - hi
            if not d.is_const() and not it.entails(c_le(0, d)):
                if it.branch(c_lt(d, 0)):
                    return builtins.range(0)
            elif d.is_const() and d.const() < 0:
                return builtins.range(0)
        return SymRange(lo, hi, step)

    def seq_len(s):
        if any(hi is None for _, _, hi in s.space):
            raise Unsupported("length of an infinite sequence")
        total = P()
        for g, _ in s.items:
            if g.t[0] != "t":
                raise Unsupported("length of a filtered sequence")
            total = total + (sym_sum(s.space, P.of(1)) if s.space else P.of(1))
        return total

    it.seq_len = seq_len

    def to_set(x=()):
        if isinstance(x, SymSet):
            return x
        items = it.concrete_items(x)
        if items is not None and not is_sym(items):
            return set(items)
        if items is not None and builtins.len(items) <= 5 and builtins.all(
            isinstance(v, (P, int)) or isinstance(v, tuple) and builtins.all(isinstance(y, (P, int)) for y in v) for v in items
        ):
            out = []  # by cases
            for v in items:
                if not builtins.any(it.truth(it.equal(v, w)) for w in out):
                    out.append(v)
            return set(out)
        return SymSet(it, lambda y: as_c(it.contains(x, y)))

    model(builtins.set)(to_set)
    model(builtins.frozenset)(to_set)

    @model(builtins.len)
    def _(x):
        if isinstance(x, Tensor):
            if x.ndim == 0:
                raise PyRaise(TypeError, "len() of unsized object")
            d = x.axes[0].dim()
            return int(d.const()) if d.is_const() else d
        if isinstance(x, LoopList):
            return x.length()
        if isinstance(x, (list, tuple, dict, str, set, frozenset, np.ndarray)):
            return builtins.len(x)
        if isinstance(x, SymSet):
            return x.size
        if isinstance(x, Seq):
            return seq_len(x)
        if isinstance(x, SymRange):
            return seq_len(it.seq_of(x))
        if isinstance(x, Cat):
            r = P()
            for p in x.parts:
                r = r + (builtins.len(p) if isinstance(p, list) else seq_len(p))
            return r
        if isinstance(x, Obj):
            return it.call(it.getattr(x, "__len__"), [])
        if isinstance(x, P) and it.element_length is not None:
            return it.element_length
        raise Unsupported("len")

    @model(builtins.sum)
    def _(x, start=0):
        if isinstance(x, Tensor) and x.ndim == 1:
            r = m_sum(it, x)
            return r
        if isinstance(x, Tensor) and not x.axes[0].dim().is_const():
            return m_sum(it, x, axis=0)
        items = it.concrete_items(x)
        if items is not None:
            r = start
            for v in items:
                if isinstance(v, C):
                    v = S.of(1).guard(v)
                if isinstance(v, S) or isinstance(r, S):
                    r = S.of(r) + S.of(v)
                else:
                    r = it.binop(__import__("ast").Add, r, v)
            return r
        if isinstance(x, Cat):
            r = P.of(start)
            for p in x.parts:
                v = M[builtins.sum](p)
                r = it.binop(__import__("ast").Add, r, v)
            return r
        s = freshen(it.seq_of(x))
        if any(hi is None for _, _, hi in s.space):
            raise Unsupported("infinite sum")
        out = S.of(start) if not isinstance(start, S) else start
        plain = P.of(start) if isinstance(start, (int, P)) else None
        for g, v in s.items:
            if isinstance(v, Tensor) and v.ndim > 0:
                f0 = v.f
                if len(s.items) != 1 or g.t[0] != "t":
                    raise Unsupported("guarded sum of arrays")
                return Tensor(v.axes, lambda *i: f0(*i).sum(s.space), v.dtype)
            if isinstance(v, C):
                v, g = P.of(1), c_and(g, v)
            if isinstance(v, bool):
                v = P.of(int(v))
            e = v.at() if isinstance(v, Tensor) else S.of(v)
            p = e.scalar()
            if g.t[0] == "t" and p is not None and p.is_int() and plain is not None:
                plain = plain + sym_sum(s.space, p)
            else:
                plain = None
            out = out + e.guard(g).sum(s.space)
        if plain is not None:
            return plain
        return Tensor([], lambda: out, "complex")

    def minmax(fold, op):
        def g(*a, key=None, default=None):
            if key is not None:
                raise Unsupported("min/max with key")
            if len(a) == 1:
                items = it.concrete_items(a[0])
                if items is None:
                    raise Unsupported("min/max of a symbolic sequence")
            else:
                items = a
            if not items:
                raise PyRaise(ValueError, "empty sequence")
            r = scalar_of(items[0])
            for v in items[1:]:
                p = scalar_of(v)
                if it.entails(c_le(r, p)):
                    r = r if op == "min" else p
                elif it.entails(c_le(p, r)):
                    r = p if op == "min" else r
                else:
                    r = fold(r, p)
            return r

        return g

    M[builtins.min] = minmax(pmin, "min")
    M[builtins.max] = minmax(pmax, "max")
    M[np.minimum] = lambda a, b: M[builtins.min](a, b)
    M[np.maximum] = lambda a, b: M[builtins.max](a, b)

    def tensor_minmax(op, kind):
        def g(a, b):
            if not isinstance(a, (Tensor, np.ndarray)) and not isinstance(b, (Tensor, np.ndarray)):
                return M[kind](a, b)

            def f(x, y):
                x, y = x.scalar(), y.scalar()
                if x is None or y is None:
                    raise Unsupported("minimum of sums")
                # by cases on the order
                c = c_le(x, y)
                lo, hi = (x, y) if op == "min" else (y, x)
                return S.of(lo).guard(c) + S.of(hi).guard(c_not(c))

            return tn.elementwise(f, as_tensor(a), as_tensor(b), same=it.same)

        return g

    M[np.minimum] = tensor_minmax("min", builtins.min)
    M[np.maximum] = tensor_minmax("max", builtins.max)

    @model(np.clip)
    def _(x, lo=None, hi=None, **k):
        lo, hi = k.get("a_min", k.get("min", lo)), k.get("a_max", k.get("max", hi))
        if lo is not None and hi is not None and isinstance(x, (Tensor, np.ndarray)):

            def f(v, a, b):
                v, a, b = v.scalar(), a.scalar(), b.scalar()
                if v is None or a is None or b is None:
                    raise Unsupported("clip of a sum")
                under, over = c_lt(v, a), c_lt(b, v)
                return S.of(a).guard(under, c_not(over)) + S.of(b).guard(over) + S.of(v).guard(c_not(under), c_not(over))

            y = tn.elementwise(lambda a, b: f(a, b, S.of(scalar_of(hi))), as_tensor(x), as_tensor(lo), same=it.same)
            return y
        if lo is not None:
            x = M[np.maximum](x, lo)
        if hi is not None:
            x = M[np.minimum](x, hi)
        return x

    @model(np.ravel)
    def _(x):
        return it.call(np.reshape, [as_tensor(x), -1])

    @model(np.block)
    def _(xs):
        rows = [it.concrete_items(r) for r in it.concrete_items(xs)]
        return M[np.vstack]([M[np.concatenate](r, axis=-1) for r in rows])

    @model(np.tensordot)
    def _(a, b, axes=2):
        a, b = as_tensor(a), as_tensor(b)
        if isinstance(axes, int):
            ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            ia, ib = [[x] if isinstance(x, int) else list(x) for x in axes]
        ia, ib = [x % a.ndim for x in ia], [x % b.ndim for x in ib]
        letters = "abcdefghijklmnopqrstuvwxyz"
        la = list(letters[: a.ndim])
        lb = list(letters[a.ndim : a.ndim + b.ndim])
        for x, y in zip(ia, ib):
            lb[y] = la[x]
        out = [l for k, l in enumerate(la) if k not in ia] + [l for k, l in enumerate(lb) if k not in ib]
        return tn.einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), [a, b], it.same)

    @model(builtins.zip)
    def _(*xs):
        its = [it.concrete_items(x) for x in xs]
        if any(i is not None for i in its):
            n = builtins.min(builtins.len(i) for i in its if i is not None)
            cols = []
            for x, i in builtins.zip(xs, its):
                if i is None:
                    s = it.seq_of(x)
                    if any(hi is not None for _, _, hi in s.space):
                        k = P.of(n)
                        if not (it.same(seq_len(s), k) or it.entails(c_le(k, seq_len(s)))):
                            raise Unsupported("zip of sequences of unknown lengths")
                    i = [it.getitem(s if isinstance(s, Seq) else x, q) for q in builtins.range(n)]
                cols.append(i[:n])
            return [tuple(r) for r in builtins.zip(*cols)]
        ss = [freshen(it.seq_of(x)) for x in xs]
        if any(len(s.space) != 1 or not s.single() for s in ss):
            raise Unsupported("zip of nested sequences")
        a, lo, hi = ss[0].space[0]
        vals = [ss[0].items[0][1]]
        for s in ss[1:]:
            b, l, h = s.space[0]
            if h is None and hi is None:
                pass
            elif h is None:
                pass
            elif hi is None:
                raise Unsupported("zip with an infinite sequence")
            elif not it.same(h - l, hi - lo):
                raise Unsupported("zip of sequences of different lengths")
            vals.append(vsubst(s.items[0][1], {b: P.atom(a) - lo + l}))
        return Seq([(a, lo, hi)], [(TRUE, tuple(vals))])

    @model(builtins.enumerate)
    def _(x, start=0):
        items = it.concrete_items(x)
        if items is not None:
            return [(k + start, v) for k, v in builtins.enumerate(items)]
        s = freshen(it.seq_of(x))
        if len(s.space) != 1 or not s.single():
            raise Unsupported("enumerate")
        a, lo, hi = s.space[0]
        return Seq(s.space, [(TRUE, (P.atom(a) - lo + start, s.items[0][1]))])

    @model(builtins.reversed)
    def _(x):
        items = it.concrete_items(x)
        if items is not None:
            return items[::-1]
        s = freshen(it.seq_of(x))
        if len(s.space) != 1 or not s.single() or s.space[0][2] is None:
            raise Unsupported("reversed")
        a, lo, hi = s.space[0]
        return Seq(s.space, [(TRUE, vsubst(s.items[0][1], {a: lo + hi - 1 - P.atom(a)}))])

    @model(builtins.list)
    def _(x=()):
        items = it.concrete_items(x)
        if items is not None:
            return builtins.list(items)
        return x

    @model(builtins.tuple)
    def _(x=()):
        items = it.concrete_items(x)
        if items is not None:
            return builtins.tuple(items)
        if isinstance(x, Seq):
            return Seq(x.space, x.items, "tuple")
        if isinstance(x, SymRange):
            s = it.seq_of(x)
            s.kind = "tuple"
            return s
        return x

    @model(builtins.iter)
    def _(x):
        return x

    @model(builtins.next)
    def _(x, *d):
        if isinstance(x, Seq):
            return it.first(x)
        if isinstance(x, SymSet):
            if it.branch(c_le(x.size, 0)):
                raise PyRaise(StopIteration, "")
            y = fresh("element")
            it.assume(x.member(y))
            return y
        items = it.concrete_items(x)
        if items is not None and items:
            return items[0]
        raise Unsupported("next")

    @model(builtins.sorted)
    def _(x, key=None, reverse=False):
        items = it.concrete_items(x)
        if items is None and isinstance(x, Seq) and x.single() and builtins.len(x.space) == 1 and x.space[0][2] is not None:
            # some items of x, as many as there are (the order is not described)
            from . import core
            from .interp import vsubst

            a, lo, hi = x.space[0]
            k = core.fresh("n")
            name = "sort·" + str(the_atom(k)[1])
            core.INT_FNS.add(name)
            core.FN_LO[name] = 0
            return Seq([(the_atom(k), P(), hi - lo)], [(TRUE, vsubst(x.items[0][1], {a: lo + core.fn(name, k)}))])
        if items is None:
            raise Unsupported("sorting a symbolic sequence")
        import ast as _ast

        out = []
        for v in items:
            kv = it.call(key, [v]) if key is not None else v
            n = builtins.len(out)
            while n > 0 and it.truth(it.compare(_ast.Lt if not reverse else _ast.Gt, kv, out[n - 1][0])):
                n -= 1
            out.insert(n, (kv, v))
        return [v for _, v in out]

    @model(builtins.all)
    def _(x):
        items = it.concrete_items(x)
        if items is not None:
            acc = TRUE
            for v in items:
                if isinstance(v, C):
                    acc = c_and(acc, v)
                elif not it.truth(v):
                    return False
            return acc if acc.t[0] not in ("t", "f") else acc.t[0] == "t"
        s = freshen(it.seq_of(x))
        vs = [P.atom(a) for a, _, _ in s.space]
        rng = c_and(*[in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in s.space])
        return c_and(*[forall(vs, c_or(c_not(c_and(rng, g)), as_c(v))) for g, v in s.items])

    @model(builtins.any)
    def _(x):
        items = it.concrete_items(x)
        if items is not None:
            acc = FALSE
            for v in items:
                if isinstance(v, C):
                    acc = c_or(acc, v)
                elif it.truth(v):
                    return True
            return acc if acc.t[0] not in ("t", "f") else acc.t[0] == "t"
        s = freshen(it.seq_of(x))
        vs = [P.atom(a) for a, _, _ in s.space]
        rng = c_and(*[in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in s.space])
        return c_or(*[exists(vs, c_and(rng, g, as_c(v))) for g, v in s.items])

    @model(builtins.map)
    def _(f, *xs):
        its = [it.concrete_items(x) for x in xs]
        if any(i is None for i in its):
            if builtins.len(xs) == 1:
                s = freshen(it.seq_of(xs[0]))
                return Seq(s.space, [(g, it.call(f, [v])) for g, v in s.items])
            raise Unsupported("map")
        return [it.call(f, builtins.list(a)) for a in builtins.zip(*its)]

    @model(builtins.isinstance)
    def _(x, t):
        ty = it.type_of(x)
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(x, P):
            return any(q in (int, float, complex, object) and (q is int or q is float) and ((q is int) == x.is_int()) for q in ts)
        return issubclass(ty, tuple(ts))

    @model(builtins.type)
    def _(x):
        return it.type_of(x)

    for how in ("match", "fullmatch"):

        @model(getattr(re, how))
        def _(pattern, x, how=how):
            if not isinstance(x, Text):
                raise Unsupported("regular expression")
            return regex(how, pattern, x)

    @model(builtins.repr, builtins.str)
    def _(x=""):
        if isinstance(x, Text):
            return x
        if isinstance(x, P) and x.is_const() and x.const().denominator == 1:
            return str(int(x.const()))
        if isinstance(x, int):
            return str(x)
        return Opaque("text")

    @model(builtins.print)
    def _(*a, **k):
        return None

    @model(builtins.hash)
    def _(x):
        raise Unsupported("hash")

    @model(builtins.getattr)
    def _(o, n, *d):
        try:
            return it.getattr(o, n)
        except PyRaise:
            if d:
                return d[0]
            raise

    @model(functools.reduce)
    def _(f, xs, *init):
        items = it.concrete_items(xs)
        if items is None:
            raise Unsupported("reduce over a symbolic sequence")
        items = builtins.list(items)
        acc = init[0] if init else items.pop(0)
        for v in items:
            acc = it.call(f, [acc, v])
        return acc

    M[functools.reduce].always = False

    @model(math.factorial)
    def _(n):
        n = scalar_of(n)
        return fn("factorial", n)

    for opf, node in ((operator.add, "Add"), (operator.mul, "Mult"), (operator.matmul, "MatMult"), (np.multiply, "Mult"), (np.add, "Add"), (np.subtract, "Sub"), (operator.sub, "Sub"), (np.divide, "Div"), (np.power, "Pow")):
        M[opf] = lambda a, b, node=node: it.binop(getattr(__import__("ast"), node), a, b)

    @model(itertools.product)
    def _(*xs, repeat=1):
        its = [it.concrete_items(x) for x in xs]
        if all(i is not None for i in its):
            return [t for t in itertools.product(*its, repeat=repeat)]
        if repeat != 1:
            raise Unsupported("product repeat")
        ss = [freshen(it.seq_of(x)) for x in xs]
        if any(builtins.len(s.items) != 1 for s in ss):
            raise Unsupported("product of multi-item sequences")
        space, gs, vals = [], TRUE, []
        for s in ss:
            space += s.space
            gs = c_and(gs, s.items[0][0])
            vals.append(s.items[0][1])
        return Seq(space, [(gs, builtins.tuple(vals))])

    for k, g in builtins.list(M.items()):
        if not hasattr(g, "always"):
            g.always = False
            g.star = False
    return M
