"""Equality prover for guarded sums: delta elimination, range absorption, case split, rewriting with hypotheses."""
from __future__ import annotations

import itertools
import time

from . import core
from .core import (
    C, IMAG, P, TRUE, Solver, Unsupported, c_and, c_eq, c_le, c_lt, c_not, in_range, inv, isym, the_atom, akey,
)
from .tensor import FAULHABER, S, rename, t_subst, fuse_axis, fuse_bounds, fuse_rank, only_fuse


class Fail(Exception):
    def __init__(self, msg, leaf=None, residual=None):
        super().__init__(msg)
        self.leaf = leaf
        self.residual = residual


class Rule:
    """lhs (one term, coefficient 1) -> rhs, for all values of the pattern variables"""

    def __init__(self, name, lhs, rhs, cond=None, with_conj=True, vars=None):
        self.name = name
        self.vars = vars  # the pattern variables, besides the bound ones; None: all atomic indices
        (t,) = S.of(lhs).ts
        c, g, b = t
        assert not g and len(c.d) == 1
        (m, co), = c.d.items()
        assert co == 1
        self.pat = []
        for a, e in m:
            assert a[0] == "arr", a
            self.pat += [a] * e
        self.bound = {x[0]: (x[1], x[2]) for x in b}
        self.rhs = S.of(rhs)
        self.cond = cond
        self.with_conj = with_conj  # the conjugated rule is used as well
        self.where = TRUE  # the range of the variables, if it may be smaller than that of the arrays on the left

    def conjugated(self):
        r = Rule.__new__(Rule)
        r.name = self.name + "*"
        r.vars = self.vars
        r.pat = [the_atom(P.atom(a).conj()) for a in self.pat]
        r.bound = self.bound
        r.rhs = self.rhs.conj()
        r.cond = self.cond
        r.where = self.where
        r.with_conj = self.with_conj
        return r


class Prover:
    def __init__(self, solver, rules=(), max_leaves=4000, deadline=None):
        self.solver = solver
        self.rules = []
        for r in rules:
            self.add(r)
        self.max_leaves = max_leaves
        self.leaves = 0
        self.deadline = deadline
        self.limit = None
        self.selections = {}  # number of selected positions -> (selection function, indicator, number of positions)

    def add(self, r):
        self.rules.append(r)
        rc = r.conjugated()
        if r.with_conj and rc.pat != r.pat:
            self.rules.append(rc)

    # --- entry point --------------------------------------------------------------------------
    def zero(self, d, ctx):
        """raise Fail if the sum is not provably zero under ctx (a tuple of conditions)"""
        self.leaves = 0
        ts = []
        raw = list(d.ts)
        if any(len(t[1]) > 5 for t in raw):
            raw = self.prune([(c, self.flat(gs), b) for c, gs, b in raw], tuple(ctx))
        for t in raw:
            ts += self.norm_term(t, ctx)
        if len(ts) > 4:
            ts = self.prune(ts, tuple(ctx))
        self.split(ts, tuple(ctx), [])

    def flat(self, gs):
        out = []
        for g in gs:
            out += g.t[1] if g.t[0] == "and" else [] if g.t[0] == "t" else [g]
        return tuple(dict.fromkeys(out))

    def prune(self, ts, ctx):
        """drop impossible terms, and guards that follow from the other guards"""
        out = []
        for c, gs, b in ts:
            if len(gs) < 5:
                out.append((c, gs, b))
                continue
            rng = tuple(in_range(P.atom(x), lo, hi) for x, lo, hi in b)
            if self.solver.check(ctx + rng + tuple(gs)) == "unsat":
                continue
            keep = list(gs)
            for g in sorted(gs, key=lambda g: (g.t[0] != "not", -len(repr(g)))):
                if g.t[0] == "eq":
                    continue
                rest = [x for x in keep if x is not g]
                if self.solver.check(ctx + rng + tuple(rest) + (c_not(g),)) == "unsat":
                    keep = rest
            out.append((c, tuple(keep), b))
        return out

    def split(self, ts, ctx, done):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("deadline")
        # a guard over free variables, undecided
        g = None
        for c, gs, b in ts:
            bv = {x[0] for x in b}
            for x in gs:
                if not (x.deep_atoms() & bv):
                    y = x
                    while y.t[0] in ("not", "and", "or"):
                        y = y.t[1] if y.t[0] == "not" else y.t[1][0]
                    g = y
                    break
            if g is not None:
                break
        if g is None:
            self.leaf(ts, ctx)
            return
        for val in (g, c_not(g)):
            nctx = ctx + (val,)
            if self.solver.check(nctx) == "unsat":
                continue
            nts = []
            for c, gs, b in ts:
                out, dead = [], False
                for x in gs:
                    y = assume(x, g, val is g)
                    if y.t[0] == "f":
                        dead = True
                        break
                    if y.t[0] == "and":
                        out += y.t[1]
                    elif y.t[0] != "t":
                        out.append(y)
                if not dead:
                    nts.append((c, tuple(out), b))
            self.split(nts, nctx, done)

    # --- normalisation of one term ------------------------------------------------------------
    def norm_term(self, t, ctx):
        c, gs, bs = t
        if c.is_zero():
            return []
        # flatten guards
        out = []
        for g in gs:
            if g.t[0] == "f":
                return []
            out += g.t[1] if g.t[0] == "and" else ([] if g.t[0] == "t" else [g])
        gs = tuple(dict.fromkeys(out))
        bvars = [x[0] for x in bs]
        bset = set(bvars)
        # or-guards with bound variables: split [a or b] = [a] + [not a][b]
        for k, g in enumerate(gs):
            if g.t[0] == "or" and (g.deep_atoms() & bset):
                a, rest = g.t[1][0], g.t[1][1:]
                from .core import c_or

                r = c_or(*rest)
                base = gs[:k] + gs[k + 1 :]
                return self.norm_term((c, base + (a,), bs), ctx) + self.norm_term((c, base + (c_not(a), r), bs), ctx)
            if g.t[0] == "not" and g.t[1].t[0] == "eq" and (g.deep_atoms() & bset):
                base = gs[:k] + gs[k + 1 :]
                return self.norm_term((c, base, bs), ctx) + self.norm_term((-c, base + (g.t[1],), bs), ctx)
            if g.t[0] == "not" and g.t[1].t[0] in ("and", "or") and (g.deep_atoms() & bset):
                from .core import c_or

                inner = [c_not(x) for x in g.t[1].t[1]]
                y = c_or(*inner) if g.t[1].t[0] == "and" else c_and(*inner)
                base = gs[:k] + gs[k + 1 :]
                return self.norm_term((c, base + (y,), bs), ctx)
        # lower bounds to 0
        for k, (v, lo, hi) in enumerate(bs):
            if not lo.is_zero():
                s = {v: P.atom(v) + lo}
                nb = bs[:k] + ((v, P(), hi - lo),) + tuple((a, l.subst(s), h.subst(s)) for a, l, h in bs[k + 1 :])
                return self.norm_term((c.subst(s), tuple(x.subst(s) for x in gs), nb), ctx)
        # a variable that only occurs reversed in the last array (by name) it occurs in: reverse the sum
        for k, (v, lo, hi) in enumerate(bs):
            if not reversed_sum(c, v):
                continue
            s = {v: hi - 1 - P.atom(v)}
            nb = bs[: k + 1] + tuple((a, l.subst(s), h.subst(s)) for a, l, h in bs[k + 1 :])
            return self.norm_term((c.subst(s), tuple(x.subst(s) for x in gs), nb), ctx)
        # a sum over selected positions is a sum over all positions with the indicator
        for k, (v, lo, hi) in enumerate(bs):
            top = next(iter(hi.atoms()), None) if self.selections and len(hi.d) == 1 else None
            if top is None or hi != P.atom(top):
                continue
            par = top[2] if top[0] == "fn" else ()
            sel = self.selections.get(top[1] if par else top)
            if not sel:
                continue
            name, u, n = sel
            f, q = ("fn", name, (*par, P.atom(v))), core.fresh("q")
            u_q = u(par, q) if par else u.f(q)
            s = {f: q}
            c2, gs2, nb = c.subst(s), tuple(x.subst(s) for x in gs), tuple((a, l.subst(s), h.subst(s)) for a, l, h in bs[:k] + bs[k + 1 :])
            left = c2.deep_atoms()
            if the_atom(q) not in left:
                continue
            for x in gs2:
                x.deep_atoms(left)
            for a, l, h in nb:
                l.deep_atoms(left), h.deep_atoms(left)
            if v in left:
                raise Unsupported("position in a selection used as a number")
            return self.norm_term((c2 * u_q.scalar(), gs2, ((the_atom(q), P(), n),) + nb), ctx)
        # delta elimination
        for g in gs:
            if g.t[0] != "eq":
                continue
            for k, (v, lo, hi) in enumerate(bs):
                if v not in g.t[1].deep_atoms():
                    continue
                r = g.t[1].lin(v)
                if r is None or r[0] == 0:
                    continue
                e = r[1] * (-1 / r[0])
                if not e.is_int():
                    continue
                # bounds of v must not depend on later variables appearing in e in a cyclic way: ranges become guards
                s = {v: e}
                ng = tuple(x.subst(s) for x in gs if x is not g) + (in_range(e, lo, hi),)
                rest = bs[:k] + bs[k + 1 :]
                nb = tuple((a, l.subst(s), h.subst(s)) for a, l, h in rest)
                # a bound of another variable may now mention a variable declared after it: reject
                ok = True
                seen = set()
                allv = {a for a, _, _ in nb}
                for a, l, h in nb:
                    if ((l.deep_atoms() | h.deep_atoms()) & allv) - seen:
                        ok = False
                    seen.add(a)
                if not ok:
                    continue
                return self.norm_term((c.subst(s), ng, nb), ctx)
        # sum over a whole structured axis of a delta of the flat position
        bdict = {x[0]: (x[1], x[2]) for x in bs}
        for g in gs:
            if g.t[0] != "eq":
                continue
            for m, co in g.t[1].d.items():
                if abs(co) != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "fn" or not m[0][0][1].startswith("fuse:"):
                    continue
                f = m[0][0]
                vs = bound_vars_of(P.atom(f), bdict)
                if not vs:
                    continue
                e = (g.t[1] - P({m: co})) * (-1 / co)
                if e.deep_atoms() & set(vs) or not e.is_int():
                    continue
                s = {f: e}
                c2, gs2 = c.subst(s), tuple(x.subst(s) for x in gs if x is not g)
                nb = tuple((a, l.subst(s), h.subst(s)) for a, l, h in bs if a not in vs)
                left = c2.deep_atoms()
                for x in gs2:
                    x.deep_atoms(left)
                for a, l, h in nb:
                    l.deep_atoms(left), h.deep_atoms(left)
                if left & set(vs):
                    continue
                n = self.full_range(f, bdict)
                if n is None:
                    continue
                return self.norm_term((c2, gs2 + (in_range(e, 0, n),), nb), ctx)
        # range absorption
        rng = self.range_conds(bs)
        for k, g in enumerate(gs):
            if not (g.deep_atoms() & bset):
                continue
            others = gs[:k] + gs[k + 1 :]
            free_g = tuple(x for x in others)
            if self.solver.entails(tuple(ctx) + rng + free_g, g):
                return self.norm_term((c, others, bs), ctx)
            if self.solver.check(tuple(ctx) + rng + free_g + (g,)) == "unsat":
                return []
            if g.t[0] == "le":
                for q, (v, lo, hi) in enumerate(bs):
                    r = g.t[1].lin(v)
                    if r is None or r[0] == 0 or v not in g.t[1].deep_atoms():
                        continue
                    later = {a for a, _, _ in bs[q:]}
                    if r[1].deep_atoms() & later:
                        continue
                    if abs(r[0]) != 1:
                        continue
                    rc = tuple(ctx) + rng + free_g
                    if r[0] == 1:  # v + rest <= 0  -> v < 1 - rest
                        nh = 1 - r[1]
                        cases = [(c_le(nh, hi), nh)]
                    else:  # v >= rest -> lower bound
                        nl = r[1]
                        cases = None
                    if cases is not None:
                        if self.solver.entails(tuple(ctx) + self.range_conds(bs[:q]) + self.guard_only(others, {a for a, _, _ in bs[q:]}), c_and(c_le(nh, hi))):
                            # an empty range must not become negative: keep the condition that there is something
                            nb = bs[:q] + ((v, lo, nh),) + bs[q + 1 :]
                            return self.norm_term((c, others + (() if self.solver.entails(rc_without(ctx, rng), c_le(0, nh)) else (c_lt(0, nh),)), nb), ctx)
                    else:
                        if self.solver.entails(tuple(ctx) + self.range_conds(bs[:q]) + self.guard_only(others, {a for a, _, _ in bs[q:]}), c_and(c_le(0, nl))):
                            nb = bs[:q] + ((v, nl, hi),) + bs[q + 1 :]
                            return self.norm_term((c, others + (() if self.solver.entails(rc_without(ctx, rng), c_le(nl, hi)) else (c_lt(nl, hi),)), nb), ctx)
        return [(c, gs, bs)]

    def guard_only(self, gs, excl):
        return tuple(g for g in gs if not (g.deep_atoms() & excl))

    def range_conds(self, bs):
        return tuple(in_range(P.atom(v), lo, hi) for v, lo, hi in bs)

    # --- leaf -----------------------------------------------------------------------------------
    def leaf(self, ts, ctx):
        self.leaves += 1
        self._ctx = ctx
        if self.leaves > self.max_leaves:
            raise Unsupported("too many cases")
        if not ts:
            return
        sub = solve_eqs(ctx)
        plain = P()
        todo = []
        for c, gs, bs in ts:
            t = t_subst((c, gs, bs), sub) if sub else (c, gs, bs)
            todo.append(t)
        res = self.collect(todo, ctx, sub)
        if not res:
            return
        if "mod(" in repr(res):
            self.bits = True
            try:
                res = self.collect(todo, ctx, sub)
            finally:
                self.bits = False
            if not res:
                return
        if self.solver.check(ctx, timeout_ms=10000) == "unsat":
            return
        # numbers: residual without sums may vanish for reasons the normal form does not see
        if all(not k[0] for k in res) and self.vanishes(res, ctx):
            return
        peeled = self.peel(todo, ctx)
        if peeled is not None:
            return self.leaf(peeled, ctx)
        raise Fail("residual " + " ; ".join(f"{k} * {v}" for k, v in list(res.items())[:16]), ctx, res)

    def peel(self, ts, ctx):
        """split off the last term of a sum to h + 1 when another sum goes to h"""
        ts = [u for t in ts for u in self.norm_term(t, ctx)]
        his = {hi for _, _, bs in ts for _, lo, hi in bs}
        for n, (c, gs, bs) in enumerate(ts):
            for k, (v, lo, hi) in enumerate(bs):
                if any((hi - h).is_const() and (hi - h).const() > 0 for h in his) and lo.is_zero() and not hi.is_const():
                    inner = {x[0] for x in bs[:k]}
                    e = hi - 1
                    if e.deep_atoms() & inner or not self.solver.entails(ctx, c_le(0, e)):
                        continue
                    s = {v: e}
                    last = (c.subst(s), tuple(g.subst(s) for g in gs), bs[:k] + tuple((a, l.subst(s), h.subst(s)) for a, l, h in bs[k + 1 :]))
                    return ts[:n] + [last, (c, gs, bs[:k] + ((v, lo, e),) + bs[k + 1 :])] + ts[n + 1 :]
        return None

    def collect(self, terms, ctx, sub):
        """canonical multiset of monomials: key (bounds, guards, monomial) -> coefficient"""
        res = {}
        work = list(terms)
        steps = 0
        while work:
            steps += 1
            if steps > 20000 or (self.deadline and time.time() > self.deadline):
                raise Unsupported("rewriting does not terminate")
            t = work.pop()
            norm = self.norm_term(t, ctx)
            if len(norm) != 1 or norm[0] != t:
                # new free guards may appear: decide them here
                for u in norm:
                    v = self.decide(u, ctx)
                    if v is not None:
                        if sub:
                            v = t_subst(v, sub)
                        if v == t:
                            work.append(None) if False else self.emit(v, ctx, res, work, sub)
                        else:
                            work.append(v)
                continue
            if t[1]:
                t = self.decide(t, ctx)
                if t is None:
                    continue
            self.emit(t, ctx, res, work, sub)
        return {k: v for k, v in res.items() if v != 0}

    def decide(self, t, ctx):
        c, gs, bs = t
        bset = {x[0] for x in bs}
        out = []
        for g in gs:
            if g.deep_atoms() & bset:
                out.append(g)
                continue
            if self.solver.entails(ctx, g):
                continue
            if self.solver.entails(ctx, c_not(g)):
                return None
            raise NeedSplit(g)
        return (c, tuple(out), bs)

    bits = False  # parities of sums in terms of the parities of the summands

    def emit(self, t, ctx, res, work, sub):
        c, gs, bs = t
        if self.bits:
            c = parities(c)
        if not bs and not gs:
            new = []
            for m, co in c.d.items():
                r = self.rewrite(m, co, (), (), ctx)
                if r is None:
                    key = ((), (), m)
                    res[key] = res.get(key, 0) + co
                else:
                    new += r
            work.extend(new)
            return
        for m, co in c.d.items():
            mats = P({m: P.of(1).const()}).deep_atoms()
            used = set(mats)
            for g in gs:
                g.deep_atoms(used)
            for _, lo, hi in bs:
                lo.deep_atoms(used)
                hi.deep_atoms(used)
            un = [x for x in bs if x[0] not in used]
            if un:
                v, lo, hi = un[-1]
                rest = tuple(x for x in bs if x[0] != v)
                work.append((P({m: co}) * (hi - lo), gs, rest))
                continue
            # a bound variable that is only a factor of the monomial: closed form of the power sum
            hit = None
            for v, lo, hi in reversed(bs):
                e = dict(m).get(v)
                if e not in FAULHABER:
                    continue
                rest_m = tuple(x for x in m if x[0] != v)
                rest = tuple(x for x in bs if x[0] != v)
                other = set(P({rest_m: P.of(1).const()}).deep_atoms())
                for g in gs:
                    g.deep_atoms(other)
                for _, l, h in rest:
                    l.deep_atoms(other)
                    h.deep_atoms(other)
                if v not in other:
                    g = FAULHABER[e]
                    hit = (P({rest_m: co}) * (g(hi) - g(lo)), gs, rest)
                    break
            if hit is not None:
                work.append(hit)
                continue
            # distribute: variables that are only in the coefficient as polynomials stay in the monomial
            r = self.rewrite(m, co, gs, bs, ctx)
            if r is not None:
                work.extend(r)
                continue
            key = canon(m, gs, bs)
            res[key] = res.get(key, 0) + co

    # --- rewriting ------------------------------------------------------------------------------
    def rewrite(self, m, co, gs, bs, ctx):
        atoms = []
        d = dict(m)
        for a, e in m:
            if a[0] == "arr":
                atoms += [a] * e
            elif a[0] == "inv" and a[1].d and len(a[1].d) == 1:
                ((y, f),) = next(iter(a[1].d))[:1] if len(next(iter(a[1].d))) == 1 else ((None, 0),)
                if f == 1 and y in d and y[0] != "arr" and self.solver.entails(ctx, c_not(c_eq(P.atom(y), 0))):
                    q = a[1].d[((y, 1),)]
                    for b in (a, y):
                        d[b] -= 1
                        if not d[b]:
                            del d[b]
                    return [(P({tuple(sorted(d.items(), key=lambda t: akey(t[0]))): co / q}), gs, bs)]
        if not atoms:
            return None
        for a in atoms:
            if a[1] in core.NONZERO and ("inv", P.atom(a)) in d:
                # x * inv(x) = 1
                for b in (a, ("inv", P.atom(a))):
                    d[b] -= 1
                    if not d[b]:
                        del d[b]
                return [(P({tuple(sorted(d.items(), key=lambda t: akey(t[0]))): co}), gs, bs)]
        for rule in self.rules:
            names = {}
            for a in atoms:
                names[(a[1], a[2])] = names.get((a[1], a[2]), 0) + 1
            need = {}
            for a in rule.pat:
                need[(a[1], a[2])] = need.get((a[1], a[2]), 0) + 1
            if any(names.get(k, 0) < n for k, n in need.items()):
                continue
            for pick in matches(rule.pat, atoms):
                b = self.match(rule, pick, m, gs, bs, ctx)
                if b is None:
                    continue
                env, killed = b
                rest = dict(m)
                for a in pick:
                    rest[a] -= 1
                    if not rest[a]:
                        del rest[a]
                if rule.cond is not None and not rule.cond(env, self.order_key(rest, gs, bs, pick)):
                    continue
                if rule.where.t[0] != "t" and not self.solver.entails(tuple(ctx) + tuple(in_range(P.atom(x), lo, hi) for x, lo, hi in bs) + tuple(gs), rule.where.subst(env)):
                    continue
                nb = tuple(x for x in bs if x[0] not in killed)
                base = S([(P({tuple(sorted(rest.items(), key=lambda t: akey(t[0]))): co}), gs, nb)])
                rhs = S([rename(t) for t in rule.rhs.ts]).subst(env)
                # rhs bound variables are fresh; multiply keeps outer bounds first
                return list((base * rhs).ts)
        return None

    def order_key(self, rest, gs, bs, pick=()):
        """a total preorder on index values that does not depend on the names of bound variables: a bound variable is
        ordered by its occurrences in the rest of the term (terms symmetric in two variables need no reordering)"""
        vs = {x[0]: x for x in bs}
        mono = P({tuple(sorted(rest.items(), key=lambda t: akey(t[0]))): P.of(1).const()})
        anon, mark = isym("β?"), isym("β!")

        def key(y):
            bv = [a for a in y.deep_atoms() if a in vs]
            if not bv:
                return (0, repr(y), "")
            s = {w: (mark if w in bv else anon) for w in vs}
            return (1, repr(y.subst(s)), repr(mono.subst(s)), tuple(sorted(repr(g.subst(s)) for g in gs)), tuple(repr(vs[w][1]) + repr(vs[w][2]) for w in bv))

        return key

    def match(self, rule, pick, m, gs, bs, ctx):
        env = {}
        bvars = {x[0]: (x[1], x[2]) for x in bs}
        for pa, ta in zip(rule.pat, pick):
            if len(pa[3]) != len(ta[3]):
                return None
            for x, y in zip(pa[3], ta[3]):
                if x.is_const():
                    if x != y:
                        return None
                    continue
                if rule.vars is not None:
                    f = x.deep_atoms()
                    if not (f & rule.vars) and not (f & set(rule.bound)):
                        if x != y and (y.deep_atoms() & set(bvars) or not self.solver.entails(ctx, c_eq(x, y))):
                            return None
                        continue
                v = the_atom(x)
                if v in env:
                    if env[v] != y:
                        return None
                else:
                    env[v] = y
        killed = set()
        for v, (lo, hi) in rule.bound.items():
            y = env[v]
            fv = bound_vars_of(y, bvars)
            if fv is None:
                return None
            # complete range
            if not self.covers(y, fv, bvars, lo.subst(env), hi.subst(env)):
                return None
            killed |= set(fv)
        if not killed:
            return (env, killed) if not rule.bound else None
        # killed variables occur nowhere else
        cnt = list(pick)
        for a, e in m:
            n = e
            while a in cnt and n:
                cnt.remove(a)
                n -= 1
            if n and (P.atom(a).deep_atoms() & killed):
                return None
        for v, y in env.items():
            if v not in rule.bound and (y.deep_atoms() & killed):
                return None
        for g in gs:
            if g.deep_atoms() & killed:
                return None
        for x, lo, hi in bs:
            if x not in killed and ((lo.deep_atoms() | hi.deep_atoms()) & killed):
                return None
        return env, killed

    def covers(self, y, fv, bvars, lo, hi):
        if len(y.d) == 1 and y == P.atom(fv[0]) and len(fv) == 1 and only_fuse(y) is None:
            l, h = bvars[fv[0]]
            return l == lo and (h == hi or self.solver.entails(self.cur_ctx(), c_eq(h, hi)))
        f = only_fuse(y)
        n = self.full_range(f, bvars)
        return lo.is_zero() and n is not None and (n == hi or self.solver.entails(self.cur_ctx(), c_eq(n, hi)))

    def full_range(self, f, bvars):
        """the dimension of the structured axis if the components of the fuse atom run over exactly all of it, else None"""
        for x, lo, hi in fuse_bounds(f):
            v = bound_vars_of(x, bvars)
            if v is None or not self.covers(x, v, bvars, lo, hi):
                return None
        return fuse_axis(f).dim()

    _ctx = ()

    def cur_ctx(self):
        return self._ctx

    def vanishes(self, res, ctx):
        p = P()
        for (b, g, m), co in res.items():
            p = p + P({m: co})
        for _ in range(6):
            if p.is_zero():
                return True
            invs = [a for a in p.atoms() if a[0] == "inv"]
            if not invs:
                break
            a = invs[0]
            if not self.solver.entails(ctx, c_not(c_eq(a[1], 0))):
                return False
            # multiply by the denominator and reduce inv(x)*x = 1
            q = P()
            for m, co in p.d.items():
                d = dict(m)
                if d.get(a, 0):
                    d[a] -= 1
                    if not d[a]:
                        del d[a]
                    q = q + P({tuple(sorted(d.items(), key=lambda t: akey(t[0]))): co})
                else:
                    q = q + P({m: co}) * a[1]
            p = q
        if p.is_zero():
            return True
        # complex: real and imaginary parts
        parts = {0: P(), 1: P()}
        for m, co in p.d.items():
            d = dict(m)
            k = d.pop(("I",), 0)
            parts[k] = parts[k] + P({tuple(sorted(d.items(), key=lambda t: akey(t[0]))): co})
        for a in p.deep_atoms():
            if a[0] == "arr" and not a_real(a):
                return False
        try:
            return all(q.is_zero() or self.solver.entails(ctx, c_eq(q, 0), timeout_ms=8000) for q in parts.values())
        except Unsupported:
            return False


class NeedSplit(Exception):
    def __init__(self, g):
        self.g = g


def a_real(a):
    from .core import REAL_ARRAYS

    return a[1] in REAL_ARRAYS


def rc_without(ctx, rng):
    return tuple(ctx) + tuple(rng)


def bound_vars_of(y, bvars):
    """the bound variables of y if y is a bound variable or a fuse of distinct bound variables"""
    f = only_fuse(y)
    if f is None:
        if len(y.d) == 1:
            (m, c), = y.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in bvars:
                return [m[0][0]]
        return None
    out = []
    for x in f[2][: fuse_rank(f)]:
        r = bound_vars_of(x, bvars)
        if r is None:
            return None
        out += r
    return out if len(set(out)) == len(out) else None


def matches(pat, atoms):
    """injective assignments of pattern atoms to term atoms of the same array"""
    def rec(k, used):
        if k == len(pat):
            yield []
            return
        for n, a in enumerate(atoms):
            if n in used or a[1] != pat[k][1] or a[2] != pat[k][2]:
                continue
            for r in rec(k + 1, used | {n}):
                yield [a] + r

    return rec(0, frozenset())


def assume(x, g, val):
    """simplify condition x knowing that the atomic condition g is val"""
    from .core import FALSE, c_or

    if x == g:
        return TRUE if val else FALSE
    k = x.t[0]
    if k == "not":
        return c_not(assume(x.t[1], g, val))
    if k == "and":
        return c_and(*[assume(y, g, val) for y in x.t[1]])
    if k == "or":
        return c_or(*[assume(y, g, val) for y in x.t[1]])
    if k == "le" and g.t[0] == "le" and x == c_not(g):
        return FALSE if val else TRUE
    return x


def solve_eqs(ctx):
    """triangular substitution from the equalities of the context"""
    sub = {}
    work = []
    for c in ctx:
        work += c.t[1] if c.t[0] == "and" else [c]
    for c in work:
        if c.t[0] != "eq":
            continue
        p = c.t[1].subst(sub)
        if p.is_const():
            continue
        best = None
        for a in sorted(p.atoms(), key=lambda a: (len(a) > 1 and str(a[1]).startswith("g!"), akey(a)), reverse=True):
            if a[0] not in ("i", "r"):
                continue
            r = p.lin(a)
            if r is None or r[0] == 0:
                continue
            e = r[1] * (-1 / r[0])
            if a[0] == "i" and not e.is_int():
                continue
            best = (a, e)
            break
        if best is None:
            continue
        a, e = best
        sub = {k: v.subst({a: e}) for k, v in sub.items()}
        sub[a] = e
    return sub


def parities(c):
    """(x + y) % 2 = x % 2 + y % 2 - 2 (x % 2) (y % 2)"""
    out = P()
    for m, co in c.d.items():
        t = P.of(co)
        for a, e in m:
            if a[0] == "mod" and a[2].is_const() and a[2].const() == 2 and a[1].is_int() and 1 < len(a[1].d) <= 8 and all(x.denominator == 1 for x in a[1].d.values()):
                p = P()
                for k, x in a[1].d.items():
                    q = core.pmod(P({k: x}), 2)
                    p = p + q - p * q * 2
                t = t * p
            else:
                t = t * P({((a, e),): 1})
        out = out + t
    return out


def reversed_sum(c, v):
    """does the variable occur only with the coefficient -1 in the indices of the last array (by name) that contains it"""
    best, signs = None, set()
    for m in c.d:
        for a, _ in m:
            if a[0] != "arr":
                continue
            for x in a[3]:
                if v not in x.atoms():
                    continue
                r = x.lin(v)
                if r is None:
                    return False
                if best is None or a[1] > best:
                    best, signs = a[1], set()
                if a[1] == best:
                    signs.add(r[0].const() if r[0].is_const() else 0) if isinstance(r[0], P) else signs.add(r[0])
    return signs == {-1}


def canon(m, gs, bs):
    """canonical key of a monomial under sums: bound variables renamed, minimised over orders compatible with dependencies"""
    n = len(bs)
    names = [isym(f"β{k}") for k in range(n)]
    vs = [b[0] for b in bs]
    mono = P({m: P.of(1).const()})
    if n == 0:
        return ((), tuple(sorted(map(repr, gs))), m)
    # signature to cut the number of permutations
    anon = isym("β?")
    sig = {}
    for v in vs:
        s = {v: isym("β!")}
        for w in vs:
            if w != v:
                s[w] = anon
        sig[v] = (repr(mono.subst(s)), tuple(sorted(repr(g.subst(s)) for g in gs)))
    groups = {}
    for v in vs:
        groups.setdefault(sig[v], []).append(v)
    keys = sorted(groups)
    perms = [list(itertools.permutations(groups[k])) for k in keys]
    total = 1
    for p in perms:
        total *= len(p)
    if total > 5040:
        raise Unsupported("too many symmetric bound variables")
    best = None
    for combo in itertools.product(*perms):
        order = [v for grp in combo for v in grp]
        s = {v: names[k] for k, v in enumerate(order)}
        bb = {b[0]: b for b in bs}
        key = (
            tuple((repr(bb[v][1].subst(s)), repr(bb[v][2].subst(s))) for v in order),
            tuple(sorted(repr(g.subst(s)) for g in gs)),
            repr(mono.subst(s)),
        )
        if best is None or key < best[0]:
            best = (key, s)
    return best[0]


def prove_equal(prover, lhs, rhs, ctx):
    d = S.of(lhs) - S.of(rhs)
    return prove_zero(prover, d, ctx)


def prove_zero(prover, d, ctx, depth=0):
    try:
        prover.zero(d, tuple(ctx))
    except NeedSplit as e:
        if depth > 12:
            raise Unsupported("too many case splits")
        for g in (e.g, c_not(e.g)):
            n = tuple(ctx) + (g,)
            if prover.solver.check(n) == "unsat":
                continue
            prove_zero(prover, d, n, depth + 1)
