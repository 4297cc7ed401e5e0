"""Contracts: functions over a context `c`, executed symbolically (all inputs) and concretely (replay on the real code)."""
from __future__ import annotations

import ast
import itertools
import math
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from .core import (
    FALSE, TRUE, C, IMAG, P, Solver, Unsupported, c_and, c_eq, c_le, c_lt, c_not, c_or, fresh, in_range, isym, rsym,
    the_atom,
)
from . import core, npmodel, strings, tensor as tn
from .npmodel import flat_syms
from .interp import Closure, ContinueEx, Poison, assigned_names, carried, contents, mutated_names, held_unchanged, Bound, Cat, Interp, Obj, Opaque, PathDead, PyRaise, Seq, StarSeq, SymSet, as_c, freshen, func_ast, is_sym, qual, unwrap, vsubst
from .prove import Fail, Prover, Rule, prove_zero
from .tensor import S, Atom, Prod, ShapeError, Sig, Tensor

CONTRACTS = []
DEBUG = False


class Contract:
    def __init__(self, fn, props, name, targets, bounded="", cost="quick", assumes=(), samples=6):
        self.fn, self.props, self.name, self.targets, self.bounded, self.cost = fn, props, name, targets, bounded, cost
        self.assumes = list(assumes)
        self.samples = samples


def contract(props, targets=(), name=None, bounded="", cost="quick", assumes=(), samples=6):
    def deco(fn):
        CONTRACTS.append(Contract(fn, props.split(), name or fn.__name__, targets, bounded, cost, assumes, samples))
        return fn

    return deco


class Skip(Exception):
    """concrete sample outside the precondition"""


class Violated(Exception):
    pass


# ---------------------------------------------------------------------------------------------------


class SymInterp(Interp):
    def __init__(self, repo=None, deadline=None):
        solver = Solver()
        super().__init__(solver=solver, repo=repo, prover=Prover(solver, [], deadline=deadline))
        self.inverses = []  # (q: Tensor, iq: Tensor)
        self.matrix_fns = {}
        self.ctx = None
        self.deadline = deadline

    def oblige(self, name, cond):
        self.ctx.ensure(name, cond)

    def is_repo(self, g):
        return super().is_repo(g)

    # --- matrix inverse: q iq = 1 = iq q is the trusted contract of numpy.linalg.inv/pinv on invertible matrices ----------
    def inverse(self, q, pinv=False):
        if q.ndim != 2:
            raise Unsupported("inverse of a stack")
        for known, iq in self.inverses:
            if known is q:
                return iq
        for known, iq in self.inverses:
            if self.tensor_equal(q, known):
                return Tensor(iq.axes, iq.f, iq.dtype)
        tag = getattr(q, "tag", None)
        if tag and tag[0] == "prod" and not pinv or (tag and tag[0] == "prod" and self.invertible(tag[1]) and self.invertible(tag[2])):
            return tn.matmul(self.inverse(tag[2]), self.inverse(tag[1]), self.same)
        if tag and tag[0] == "kron":
            return self.models[np.kron](self.inverse(tag[1]), self.inverse(tag[2]))
        raise Unsupported("inverse of a matrix not known to be invertible")

    def invertible(self, q):
        try:
            self.inverse(q)
            return True
        except Unsupported:
            return False

    def tensor_equal(self, a, b):
        if a.ndim != b.ndim:
            return False
        try:
            if any(not self.same(x, y) for x, y in zip(a.shape, b.shape)):
                return False
            d = tn.elementwise(lambda x, y: x - y, a, b, same=self.same)
            return self.np.prove_tensor_zero(self, d)
        except (Unsupported, ShapeError):
            return False

    def on_close(self, a, b):
        d = tn.elementwise(lambda x, y: x - y, a, b, same=self.same)
        for e, r in self.ctx.compared:  # the same comparison again
            if self.tensor_equal(d, e):
                return r
        if self.ctx.closeness or self.choice():
            t = getattr(a, "imag_of", None)
            if t is not None:
                t.known_real = True
            self.ctx.closed.append((a, b))
            return True
        return False

    def matrix_fn(self, name, x, k):
        h = self.matrix_fns.get(name)
        if h is None:
            raise Unsupported(name)
        return h(self, x, k)

    def norm(self, x, axis):
        h = self.matrix_fns.get("norm")
        if h is None:
            raise Unsupported("norm")
        return h(self, x, axis)


class LoopSpec:
    """invariant, variant and frame of a while loop: havoc replaces the variables the loop changes by arbitrary values"""

    def __init__(self, name, inv, havoc, variant, facts=None, step=None, kind=ast.While):
        self.name, self._inv, self._havoc, self._variant, self._facts, self._step, self.kind = name, inv, havoc, variant, facts, step, kind

    def matches(self, s):
        return isinstance(s, self.kind)

    def enter(self, it, env):
        self.start = dict(env.vars)

    def inv(self, it, env):
        return [(n, as_c(c)) for n, c in it.call(self._inv, [dict(env.vars)])]

    def havoc(self, it, env):
        new = it.call(self._havoc, [dict(env.vars)])
        for n, v in new.items():
            if n not in env.vars:
                raise Unsupported(f"{self.name}: no variable {n}")
            env.vars[n] = v
        return set(new)

    def variant(self, it, env):
        return self._variant and it.call(self._variant, [dict(env.vars)])

    def leave(self, it, env, why):
        pass


class FoldSpec:
    """a for loop that computes a fold of `step` over its iterations"""

    def __init__(self, name, init, step, state):
        self.name, self.init, self.step, self.state = name, init, step, state

    def matches(self, s):
        return isinstance(s, ast.For)

    def for_loop(self, it, s, env, iterable):
        seq = freshen(it.seq_of(iterable))
        changed = assigned_names(s.body) | mutated_names(s.body)
        names = [n for n in changed if env.has(n) and carried(s.body, n)]
        if len(seq.space) != 1 or not seq.single() or seq.space[0][2] is None or s.orelse or len(names) != 1:
            raise Unsupported(f"{self.name}: not a fold")
        (a, lo, hi), (name,) = seq.space[0], names
        it.ctx.equal(f"{self.name}: initial value", env.get(name), self.init)
        if it.choice():
            it.assume(in_range(P.atom(a), lo, hi))
            k = P.atom(a) - lo
            v = self.state(k)
            env.assign_up(name, v)
            it.assign(s.target, seq.items[0][1], env)
            held = contents(env, {name})
            it.exec_block(s.body, env)
            held_unchanged(held)
            it.ctx.equal(f"{self.name}: iteration", env.get(name), it.call(self.step, [k, v]))
            raise PathDead()
        for n in changed - {name}:
            env.assign_up(n, Poison())
        env.assign_up(name, self.state(hi - lo))


class ForSpec:
    """invariant of a for loop: state(k) are the variables it carries before the iteration k (arbitrary values that satisfy the
    invariant), check(k, variables after the iteration k) states the invariant for k + 1, entry(variables) for k = 0"""

    def __init__(self, name, keys, state, check, entry):
        self.name, self.keys, self.state, self.check, self.entry, self.active = name, keys, state, check, entry, False

    def matches(self, s):
        return isinstance(s, ast.For)

    def view(self, env, names):
        return {k: env.get(n) for k, n in names.items()}

    def put(self, it, env, names, k):
        for key, v in it.call(self.state, [k]).items():
            old = env.get(names[key])
            if isinstance(v, Tensor) and isinstance(old, Tensor):
                v = Tensor(v.axes, v.f, v.dtype, view=old.view)
                v.parent = old.parent
            env.assign_up(names[key], v)

    def for_loop(self, it, s, env, iterable):
        seq = freshen(it.seq_of(iterable))
        if not seq.space:
            items = [v for g, v in seq.items]
            a, lo, hi = None, P(), P.of(len(items))
            if items:
                raise Unsupported(f"{self.name}: a loop over a list")
            item = None
        elif len(seq.space) != 1 or not seq.single() or seq.space[0][2] is None:
            raise Unsupported(f"{self.name}: iteration")
        else:
            (a, lo, hi), item = seq.space[0], seq.items[0][1]
        if s.orelse:
            raise Unsupported(f"{self.name}: for/else")
        changed = (assigned_names(s.body) | mutated_names(s.body)) - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        loop = sorted(n for n in changed if env.has(n) and carried(s.body, n))
        keys = list(self.keys)
        if set(keys) == set(loop):
            names = {k: k for k in keys}
        elif len(keys) == len(loop) == 1:
            names = {keys[0]: loop[0]}
        else:
            raise Unsupported(f"{self.name}: the loop carries {loop}, the invariant is about {keys}")
        it.call(self.entry, [self.view(env, names)])
        self.active = True
        try:
            if a is not None and it.choice():
                it.assume(in_range(P.atom(a), lo, hi))
                k = P.atom(a) - lo
                self.put(it, env, names, k)
                it.assign(s.target, item, env)
                held = contents(env, set(names.values()))
                try:
                    it.exec_block(s.body, env)
                except ContinueEx:
                    pass
                held_unchanged(held)
                it.call(self.check, [k, self.view(env, names)])
                raise PathDead()
        finally:
            self.active = False
        for n in changed - set(names.values()):
            env.assign_up(n, Poison())
        self.put(it, env, names, hi - lo)


def primitive(f):
    """f = c g with the coefficient of the first monomial of g equal to 1"""
    f = P.of(f)
    if f.is_const():
        return P.of(1), f.const()
    c = f.d[min(f.d, key=repr)]
    return f / c, c


class Result:
    def __init__(self):
        self.obl = {}  # name -> dict(status, paths, detail)
        self.paths = 0
        self.aborted = []
        self.functions = {}
        self.stats = {}
        self.time = 0.0
        self.model = None

    def add(self, name, status, detail=""):
        o = self.obl.setdefault(name, dict(status="proved", paths=0, detail=""))
        o["paths"] += 1
        order = dict(proved=0, undecided=1, refuted=2)
        if order[status] > order[o["status"]]:
            o["status"], o["detail"] = status, str(detail)[:1500]


class SymCtx:
    """the symbolic execution context of a contract"""

    vsym_ctx = True
    vsym = True
    symbolic = True

    def __init__(self, it, res):
        self.it, self.res = it, res
        it.ctx = self
        self.reset()

    def reset(self):
        for q in getattr(self, "local_overrides", ()):
            self.it.overrides.pop(q, None)
        self.local_overrides = []
        self.products = {}
        self.it.prod_hook = self.record_product
        self.it.lib_overrides.clear()
        for k in getattr(self, "local_loops", ()):
            self.it.invariants.pop(k, None)
        self.local_loops = []
        self.it.framed.clear()
        self.it.lazy.clear()
        self.it.selections.clear()
        self.it.select_fns.clear()
        self.it.prover.selections.clear()
        self.closed = []
        self.compared = []
        self.tols = []
        self.closeness = ""
        self.realness = ""
        self.names = {}

    # --- inputs ---------------------------------------------------------------------------------
    def int(self, name, lo=None, hi=None, sample=None):
        v = isym(name)
        if lo is not None:
            self.it.assume(c_le(lo, v))
        if hi is not None:
            self.it.assume(c_lt(v, hi))
        return v

    def real(self, name, lo=None, sample=None):
        v = rsym(name)
        if lo is not None:
            self.it.assume(c_le(lo, v))
        return v

    def sign(self, name):
        """1 or -1"""
        b = isym(name + "_bit")
        self.it.assume(in_range(b, 0, 2))
        return 1 - 2 * b

    def choose(self, name, options):
        """a case split over finitely many alternatives"""
        for o in options[:-1]:
            if self.it.choice():
                return o
        return options[-1]

    def tensor(self, name, *dims, real=False):
        t = tn.uninterpreted(name, [d if isinstance(d, tn.Axis) else Atom(P.of(d)) for d in dims], real=real)
        t.owner = "input"
        return t

    def tensor_like(self, name, like, real=False):
        """an arbitrary array with the axes of the given ones (array, axis) or dimensions; a combined axis is not flattened"""
        axes = [self.it.np.as_tensor(d[0]).axes[d[1]] if isinstance(d, tuple) else Atom(P.of(d)) for d in like]
        if real:
            name = tn.real_name(name)
            core.REAL_ARRAYS.add(name)

        def parts(a, i):
            if isinstance(a, tn.Prod):
                return [y for b, x in zip(a.parts, i) for y in parts(b, x)]
            return [tn.flat(a, i)]

        def f(*idx):
            return S.of(P.atom(("arr", name, False, tuple(y for a, i in zip(axes, idx) for y in parts(a, i)))))

        t = Tensor(axes, f, "real" if real else "complex")
        t.owner = "input"
        return t

    def vtensor(self, name, args, dims, real=False):
        """a family of tensors indexed by integer arguments"""
        if real:
            name = tn.real_name(name)
            core.REAL_ARRAYS.add(name)
        axes = [Atom(P.of(d)) for d in dims]
        args = tuple(P.of(a) for a in args)

        def f(*idx):
            return S.of(P.atom(("arr", name, False, args + tuple(tn.flat(a, i) for a, i in zip(axes, idx)))))

        t = Tensor(axes, f, "real" if real else "complex")
        t.owner = "input"
        return t

    def rule(self, r):
        self.it.prover.add(r)

    def matrix_powers(self, name, d):
        """the powers of an arbitrary d x d matrix F: e -> F^e for e >= 0, with F^a F^b = F^(a + b) and F^0 = 1"""
        V = lambda e: self.vtensor("power·" + name, (e,), (d, d))  # noqa: E731
        a, b, i, j, k = (isym(f"?{x}") for x in "abijk")
        f = lambda *x: S.of(V(x[0]).f(*x[1:]))  # noqa: E731
        self.rule(Rule("F^a F^b", (f(a, i, k) * f(b, k, j)).sum([(the_atom(k), P(), P.of(d))]), f(a + b, i, j)))
        self.rule(Rule("F^0", f(P(), i, j), S.of(1).guard(c_eq(i, j))))
        return types.MethodType(lambda ctx, e: V(e), self)

    def nonzero(self, name, t):
        """the entries of t (sums of products) are not 0: they can be divided by"""
        t = self.it.np.as_tensor(t)
        L = self.tensor(name, *t.shape, real=True)
        core.NONZERO.add(tn.real_name(name))
        idx = [isym(f"?{n}") for n in range(t.ndim)]
        self.rule(Rule(name + " != 0", t.f(*idx), S.of(L.f(*idx))))

    def invertible(self, name, n, real=False):
        q = self.tensor(name, n, n, real=real)
        iq = self.tensor("inv·" + name, n, n, real=real)
        self.add_inverse(name, q, iq, P.of(n))
        return q

    def numeric_bracket_rules(self, name, A, X, d):
        """[X_a, X_b] = sum_c A_abc X_c for a numeric A"""
        i, j, k = (isym(f"?{x}") for x in "ijk")
        kb = [(the_atom(k), P(), d)]
        n = A.shape[0]
        for a in range(n):
            for b in range(a):
                lhs = (S.of(X.f(P.of(a), i, k)) * X.f(P.of(b), k, j)).sum(kb)
                rhs = (S.of(X.f(P.of(b), i, k)) * X.f(P.of(a), k, j)).sum(kb)
                for e in range(n):
                    if A[a, b, e]:
                        rhs = rhs + S.of(X.f(P.of(e), i, j)) * core.exact_float(float(A[a, b, e]))
                self.rule(Rule(f"[{name}{a},{name}{b}]", lhs, rhs))

    def generators_by_contract(self, cls, d, n, concrete=None):
        """calls of cls.continuous_generators / cls.algebra use their contract: X of shape (n, d(r), d(r)) with
        [X_i, X_j] = A_ijk X_k for the tensor A returned by algebra"""
        A = self.tensor("A" + cls.__name__, n, n, n, real=True) if concrete is None else None
        memo = {}

        def gens(it, r):
            dim = P.of(it.call(d, [r]))
            for k, x in memo.items():
                if k == dim:
                    return x
            X = self.tensor(f"X{cls.__name__}{len(memo)}", n, dim, dim)
            if A is None:
                self.numeric_bracket_rules(f"X{cls.__name__}{len(memo)}", concrete, X, dim)
            else:
                self.bracket_rule(f"X{cls.__name__}{len(memo)}", A, X, P.of(n), dim)
            memo[dim] = X
            return X

        for f, m in ((cls.continuous_generators, gens), (cls.algebra, lambda it, r=None: A if concrete is None else concrete)):
            q = qual(unwrap(f))
            self.it.overrides[q] = m
            self.local_overrides.append(q)

    def assume_checks(self, why):
        """the numerical self-checks (assert ... close) of the code pass, by `why` (another contract)"""
        self.closeness = why

    def assume_real(self, why):
        """the real parts taken by the code lose nothing (stated assumption of the contract)"""
        self.realness = why

    def unitary(self, name, n):
        """an arbitrary unitary matrix"""
        q = self.tensor(name, n, n)
        iq = Tensor([q.axes[1], q.axes[0]], lambda i, j: S.of(q.f(j, i)).conj(), "complex")
        self.add_inverse(name, q, iq, P.of(n))
        return q

    def add_inverse(self, name, q, iq, n):
        i, j, k = isym("?i"), isym("?j"), isym("?k")
        bound = [(the_atom(k), P(), n)]
        d = S.of(1).guard(c_eq(i, j))
        self.rule(Rule(f"{name} inv", (q.f(i, k) * iq.f(k, j)).sum(bound), d))
        self.rule(Rule(f"inv {name}", (iq.f(i, k) * q.f(k, j)).sum(bound), d))
        self.it.inverses.append((q, iq))

    def has_inverse(self, name, q, v):
        """obligation: q v = 1 = v q; from here on v is the inverse of q"""
        q, v = self.it.np.as_tensor(q), self.it.np.as_tensor(v)
        self.equal(name + " Q V = 1", tn.matmul(q, v, self.it.same), tn.eye(q.axes[0]))
        self.equal(name + " V Q = 1", tn.matmul(v, q, self.it.same), tn.eye(q.axes[1]))
        self.it.inverses.append((q, v))

    def conj(self, A):
        """the complex conjugate, entry by entry, also of an array whose dtype is real because the code took its real part"""
        A = self.it.np.as_tensor(A)
        return Tensor(A.axes, lambda *i: S.of(A.f(*i)).conj(), A.dtype)

    def only(self, A, cond):
        """the array that equals A where cond(indices), and is zero elsewhere"""
        A = self.it.np.as_tensor(A)
        return Tensor(A.axes, lambda *i: S.of(A.f(*i)).guard(as_c(self.it.call(cond, list(i)))), A.dtype)

    def complete_system(self, name, f, width, K, dims):
        """hypothesis: the arrays f(n), 0 <= n < K, of shape dims + (width(n),), side by side, form an orthogonal matrix"""
        d, e = (P.of(x) for x in dims)
        n, m, x, y, u, v, i, j = (isym(f"?{t}") for t in ("n", "m", "x", "y", "u", "v", "i", "j"))
        w = P.of(self.it.call(width, [n]))
        F, G = self.it.call(f, [n]).f, self.it.call(f, [m]).f
        self.rule(Rule(name + " orthonormal", (S.of(F(x, y, i)) * G(x, y, j)).sum([(the_atom(x), P(), d), (the_atom(y), P(), e)]), S.of(1).guard(c_eq(n, m), c_eq(i, j))))
        self.rule(Rule(name + " complete", (S.of(F(x, y, i)) * F(u, v, i)).sum([(the_atom(n), P(), P.of(K)), (the_atom(i), P(), w)]), S.of(1).guard(c_eq(x, u), c_eq(y, v))))

    def reversal(self, name, A, sign):
        """hypothesis: A[n0-1-i0, n1-1-i1, ...] = sign * A[i0, i1, ...] (sign*sign = 1)"""
        A = self.it.np.as_tensor(A)
        idx = [isym(f"?r{i}") for i in range(A.ndim)]
        rev = [P.of(n) - P.of(1) - i for n, i in zip(A.shape, idx)]

        def cond(env, key):
            old = [env[the_atom(i)] for i in idx]
            new = [P.of(n) - P.of(1) - i for n, i in zip(A.shape, old)]
            return tuple(key(x) for x in new) < tuple(key(x) for x in old)

        self.rule(Rule(name, S.of(A.f(*idx)), S.of(A.f(*rev)) * sign, cond))

    def antisymmetric(self, name, A):
        """hypothesis: A[a,b,c] = -A[b,a,c]"""
        a, b, c_ = (isym(f"?{x}") for x in "abc")
        A = self.it.np.as_tensor(A)
        self.rule(Rule(name, S.of(A.f(a, b, c_)), -S.of(A.f(b, a, c_)), lambda env, key: key(env[the_atom(a)]) > key(env[the_atom(b)])))
        self.rule(Rule(name + " diagonal", S.of(A.f(a, a, c_)), S()))

    def right_inverse(self, name, q):
        """q has independent rows: its pseudo-inverse p (contract of numpy.linalg.pinv), q p = 1"""
        q = self.it.np.as_tensor(q)
        p = self.tensor_like(name, [(q, 1), q.shape[0]], real=q.dtype == "real")
        p.owner = None
        self.hyp(name + " is a right inverse", tn.matmul(q, p, self.it.same), tn.eye(q.axes[0]))
        self.it.inverses.append((q, p))
        return p

    def algebra(self, name="A", n=None):
        n = self.int("n", 0) if n is None else P.of(n)
        return self.tensor(name, n, n, n)

    def bracket_rule(self, name, A, X, n, d):
        """hypothesis: sum_k X[a,i,k] X[b,k,j] - X[b,i,k] X[a,k,j] = sum_c A[a,b,c] X[c,i,j]"""
        a, b, i, j, k, c_ = (isym(f"?{x}") for x in "abijkc")
        kb = [(the_atom(k), P(), d)]
        cb = [(the_atom(c_), P(), n)]
        lhs = (S.of(X.f(a, i, k)) * X.f(b, k, j)).sum(kb)
        rhs = (S.of(X.f(b, i, k)) * X.f(a, k, j)).sum(kb) + (S.of(A.f(a, b, c_)) * X.f(c_, i, j)).sum(cb)

        def cond(env, key):
            return key(env[the_atom(a)]) > key(env[the_atom(b)])

        self.rule(Rule(f"[{name},{name}]", lhs, rhs, cond))
        # consequence: A[a,b,c] X[c] is antisymmetric in a, b
        lhs2 = (S.of(A.f(a, b, c_)) * X.f(c_, i, j)).sum(cb)
        rhs2 = -(S.of(A.f(b, a, c_)) * X.f(c_, i, j)).sum(cb)
        self.rule(Rule(f"A·{name} antisymmetric", lhs2, rhs2, cond))
        # and vanishes for a = b
        self.rule(Rule(f"A·{name} diagonal", (S.of(A.f(a, a, c_)) * X.f(c_, i, j)).sum(cb), S(), None))

    def rep(self, name, A, m=0, d=None, dlo=0):
        """an arbitrary GenericRep (A, X, H) whose X satisfies the bracket relations of A; m arbitrary discrete generators"""
        import lie_nn as lie

        n = A.axes[0].dim()
        d = self.int("d" + name, dlo) if d is None else P.of(d)
        X = self.tensor("X" + name, n, d, d)
        H = self.tensor("H" + name, m, d, d)
        self.bracket_rule("X" + name, A, X, n, d)
        return self.frozen(Obj(lie.GenericRep, dict(_A=A, _X=X, _H=H)))

    def frozen(self, o):
        o.frozen = True
        return o

    def anyrep(self, name, A, m=0, hyp=True, dlo=0):
        """an arbitrary instance of an unknown subclass of Rep, given by the contract of the class only"""
        o = self.rep(name, A, m, dlo=dlo)
        return abstract_rep(self.it, AnyRep, o.attrs["_A"], o.attrs["_X"], o.attrs["_H"])

    def anyirrep(self, name, A, m=0):
        """an arbitrary instance of an unknown subclass of TabulatedIrrep"""
        o = self.rep(name, A, m, dlo=1)
        return abstract_rep(self.it, AnyIrrep, A, o.attrs["_X"], o.attrs["_H"], dict(dim=o.attrs["_X"].axes[1].dim()))

    def irrep_product(self, t):
        """two arbitrary irreps of one family (only their selection rule: a sequence of K irreps)"""
        A, m = self.algebra("A" + t, self.int("n" + t, 0)), self.int("m" + t, 0)
        n, K = A.axes[0].dim(), self.int("K" + t, 1)

        def out(z):
            d = self.family("dim" + t, z, 1)
            return abstract_rep(self.it, AnyIrrep, A, self.vtensor("Xz" + t, (z,), (n, d, d)), self.vtensor("Hz" + t, (z,), (m, d, d)), dict(dim=d))

        meth = dict(__mul__=lambda it_, s, o: self.seq("z" + t, K, out))
        return tuple(abstract_rep(self.it, AnyIrrep, A, r.attrs["_X"], r.attrs["_H"], dict(dim=r.attrs["_X"].axes[1].dim()), meth) for r in (self.rep("1" + t, A, m, dlo=1), self.rep("2" + t, A, m, dlo=1)))

    def irrep_triple(self, t):
        """three arbitrary irreps of one family; clebsch_gordan(r1, r2, r3) has n paths (n = 0 possible) and intertwines"""
        A, m = self.algebra("A" + t, self.int("n" + t, 0)), self.int("m" + t, 0)
        n, np_ = A.axes[0].dim(), self.int("paths" + t, 0)
        ds = [self.int(f"d{i}{t}", 1) for i in (1, 2, 3)]
        X = [self.tensor(f"X{i}{t}", n, d, d) for i, d in zip((1, 2, 3), ds)]
        H = [self.tensor(f"H{i}{t}", m, d, d) for i, d in zip((1, 2, 3), ds)]
        C = self.tensor("C" + t, np_, *ds)
        reps = []

        def cg(it_, s, a, b, c):
            if [a, b, c] != reps:
                raise Unsupported("clebsch_gordan of other irreps")
            return C

        reps += [abstract_rep(self.it, AnyIrrep, A, x, h, dict(dim=d), dict(clebsch_gordan=cg)) for x, h, d in zip(X, H, ds)]
        a, h, i, j, k, l, p, s_, u = (isym(f"?{x}") for x in "ahijklpsu")
        lhs = (S.of(X[2].f(a, l, k)) * C.f(s_, i, j, k)).sum([(the_atom(k), P(), ds[2])])
        rhs = (S.of(X[0].f(a, p, i)) * C.f(s_, p, j, l)).sum([(the_atom(p), P(), ds[0])]) + (S.of(X[1].f(a, p, j)) * C.f(s_, i, p, l)).sum([(the_atom(p), P(), ds[1])])
        self.rule(Rule(f"CG {t} intertwines X", lhs, rhs))
        lhs = (S.of(H[2].f(h, l, k)) * C.f(s_, i, j, k)).sum([(the_atom(k), P(), ds[2])])
        rhs = (S.of(H[0].f(h, p, i)) * H[1].f(h, u, j) * C.f(s_, p, u, l)).sum([(the_atom(p), P(), ds[0]), (the_atom(u), P(), ds[1])])
        self.rule(Rule(f"CG {t} intertwines H", lhs, rhs))
        return tuple(reps)

    def irrep_pair(self):
        """two arbitrary irreps of one family, given by the contracts of the family: ir1 * ir2 lists irreps c_z, z < K;
        clebsch_gordan(ir1, ir2, c_z) has n_z paths and intertwines; all of them together form an invertible matrix"""
        it = self.it
        A = self.algebra()
        n = A.axes[0].dim()
        m = self.int("m", 0)
        K = self.int("K", 1)
        d1, d2 = self.int("d1", 1), self.int("d2", 1)
        X1, X2 = self.tensor("X1", n, d1, d1), self.tensor("X2", n, d2, d2)
        H1, H2 = self.tensor("H1", m, d1, d1), self.tensor("H2", m, d2, d2)

        def mul(z):
            return self.family("paths", z)

        def out(z):
            d = self.family("dim", z, 1)
            X = self.vtensor("Xz", (z,), (n, d, d))
            H = self.vtensor("Hz", (z,), (m, d, d))
            o = abstract_rep(it, AnyIrrep, A, X, H, dict(dim=d), dict(clebsch_gordan=cg))  # a class method
            o.attrs["=index"] = P.of(z)
            return o

        def cg(it_, s, a, b, c):
            z = c.attrs["=index"]
            if a is not r1 or b is not r2:
                raise Unsupported("clebsch_gordan of other irreps")
            return self.vtensor("C", (z,), (mul(z), d1, d2, self.family("dim", z, 1)))

        def prod(it_, s, o):
            if s is not r1 or o is not r2:
                raise Unsupported("product of other irreps")
            return self.seq("z", K, out)

        meth = dict(clebsch_gordan=cg, __mul__=prod)
        r1 = abstract_rep(it, AnyIrrep, A, X1, H1, dict(dim=d1), meth)
        r2 = abstract_rep(it, AnyIrrep, A, X2, H2, dict(dim=d2), meth)
        z = isym("?z")
        nz, dz = mul(z), self.family("dim", z, 1)
        a, h, i, j, k, l, p, s_, t, u = (isym(f"?{x}") for x in "ahijklpstu")
        zb = (the_atom(z), P(), K)
        C = self.vtensor("C", (z,), (nz, d1, d2, dz)).f
        # intertwining of the continuous generators: sum_k C[s,i,j,k] Xz[a,l,k] = sum_p X1[a,p,i] C[s,p,j,l] + X2[a,p,j] C[s,i,p,l]
        Xz = self.vtensor("Xz", (z,), (n, dz, dz)).f
        Hz = self.vtensor("Hz", (z,), (m, dz, dz)).f
        lhs = (S.of(Xz(a, l, k)) * C(s_, i, j, k)).sum([(the_atom(k), P(), dz)])
        rhs = (S.of(X1.f(a, p, i)) * C(s_, p, j, l)).sum([(the_atom(p), P(), d1)]) + (S.of(X2.f(a, p, j)) * C(s_, i, p, l)).sum([(the_atom(p), P(), d2)])
        self.rule(Rule("CG intertwines X", lhs, rhs))
        lhs = (S.of(Hz(h, l, k)) * C(s_, i, j, k)).sum([(the_atom(k), P(), dz)])
        rhs = (S.of(H1.f(h, p, i)) * H2.f(h, u, j) * C(s_, p, u, l)).sum([(the_atom(p), P(), d1), (the_atom(u), P(), d2)])
        self.rule(Rule("CG intertwines H", lhs, rhs))
        # the matrix of all of them, and its two-sided inverse W
        el = self.vtensor("C", (z,), (nz, d1, d2, dz))
        rows = Sig([zb], lambda ks: Prod([Atom(nz.subst({the_atom(z): ks[0]})), Atom(dz.subst({the_atom(z): ks[0]}))]))
        cols = Prod([Atom(d1), Atom(d2)])
        self.irrep_axes = (rows, cols)

        def Wf(i_, j_, z_, s__, k_):
            return P.atom(("arr", "W", False, (i_, j_, z_, s__, k_)))

        i2, j2 = isym("?i2"), isym("?j2")
        z2, s2, k2 = isym("?z2"), isym("?s2"), isym("?k2")
        self.rule(Rule("W C", (S.of(Wf(i, j, z, s_, k)) * C(s_, i2, j2, k)).sum([zb, (the_atom(s_), P(), nz), (the_atom(k), P(), dz)]), S.of(1).guard(c_eq(i, i2), c_eq(j, j2))))
        self.rule(Rule("C W", (S.of(C(s_, i, j, k)) * Wf(i, j, z2, s2, k2)).sum([(the_atom(i), P(), d1), (the_atom(j), P(), d2)]), S.of(1).guard(c_eq(z, z2), c_eq(s_, s2), c_eq(k, k2))))

        def cat(x):
            (zz,), (sk) = x[0], x[1]
            return zz, sk[0], sk[1]

        def qf(x, y):
            zz, s__, k_ = cat(x)
            return S.of(P.atom(("arr", "C", False, (zz, s__, y[0], y[1], k_))))

        def wf(y, x):
            zz, s__, k_ = cat(x)
            return S.of(Wf(y[0], y[1], zz, s__, k_))

        q = Tensor([rows, cols], qf, "complex")
        w = Tensor([cols, rows], wf, "complex")
        it.inverses.append((q, w))
        it.inverses.append((w, q))
        self.assume(c_eq(rows.dim(), d1 * d2))
        return r1, r2

    def obj(self, cls, **attrs):
        """an instance of a repository class with the given field values (any instance: fields are the inputs)"""
        return self.frozen(Obj(cls, dict(attrs)))

    def new(self, cls, *a, **k):
        return self.it.instantiate(cls, list(a), k)

    def call(self, f, *a, **k):
        return self.it.call(f, list(a), k)

    def call_rest(self, f, *a):
        """f(*a[:-1], *a[-1]) for a sequence of symbolic length"""
        return self.it.call_star(f, list(a[:-1]) + [StarSeq(a[-1])], {})

    def override(self, f, model):
        """use the contract `model` of the callee f instead of its body (in this contract only)"""
        drop = 0
        if isinstance(f, types.MethodType) and not isinstance(f.__func__, types.FunctionType):  # of the libraries (np.random.rand)
            self.it.lib_overrides[f] = lambda it, *a, **k: it.call(model, list(a), k)
            return
        if isinstance(f, (Bound, types.MethodType)):
            f, drop = getattr(f, "func", None) or f.__func__, 1
        h = lambda it, *a, **k: it.call(model, list(a)[drop:], k)  # noqa: E731
        if not drop and not isinstance(f, str) and (f in self.it.models):
            self.it.lib_overrides[f] = h
            return
        q = qual(unwrap(f)) if not isinstance(f, str) else f
        self.it.overrides[q] = h
        self.local_overrides.append(q)

    def opaque(self, name, arg, shape, real=True):
        """contract of a pure function of one array: an arbitrary array for `arg`; its argument must be that array"""
        out = self.tensor("value·" + name, *shape, real=real)

        def model(x):
            self.equal(f"argument of {name}", x, arg)
            return out

        return types.MethodType(lambda ctx, x: model(x), self)

    def opaque_scalar(self, name, *want, integer=True):
        """contract of a pure function of some arrays: an arbitrary number (an integer) for the arguments `want`"""
        out = isym("value·" + name) if integer else rsym("value·" + name)

        def model(ctx, *args):
            for n, (x, y) in enumerate(zip(args, want)):
                self.equal(f"argument {n} of {name}", x, y)
            return out

        return types.MethodType(model, self)

    def labels(self, name, r):
        """a tuple of r nonnegative integers"""
        core.INT_FNS.add(name)
        core.FN_LO[name] = 0
        return self.seq(name, r, lambda i: core.fn(name, P.of(i)))

    def mutable(self, seq):
        """a list with the items of the sequence"""
        o = Cat([seq])
        o.mutable = True
        return o

    def tag(self, o):
        """the index of an object given as c.obj(..., **{"=index": k})"""
        return o.attrs["=index"]

    def abstract_set(self, name, length=None):
        """an arbitrary finite set of abstract elements (of the given length)"""
        out = SymSet(self.it, lambda x: c_and(c_le(0, P.of(x)), C("b", name, (P.of(x),))))
        if length is not None:
            self.it.element_length = P.of(length)
            x = fresh("x")
            self.it.assume(c_or(c_le(1, out.size), core.forall([x], c_not(out.member(x)))))
            self.it.assume(core.forall([x], c_or(c_le(1, out.size), c_not(out.member(x)))))
        return out

    def signed_set(self, name):
        """an arbitrary finite set of pairs (integer, abstract element); nothing is known about the products of integers"""
        self.it.solver.opaque_products = True
        return SymSet(self.it, lambda x: c_and(c_le(-1, x[0]), c_le(-1, x[1]), C("b", name, tuple(x))), arity=2)

    def signed_points(self, s, code):
        """a set of pairs (sign, tuple of integers), the tuples given as abstract elements: code(tuple), different for different tuples"""
        if isinstance(s, SymSet):
            return s
        if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) for x in s):
            raise Unsupported("a set of other things than signed tuples")
        pts = [(k, P.of(self.it.call(code, [p]))) for k, p in sorted(s)]
        return SymSet(self.it, lambda x: c_or(*[c_and(c_eq(x[0], k), c_eq(x[1], p)) for k, p in pts]), arity=2)

    def closed_signed(self, s, *ops):
        out = []
        for f, k in ops:
            xs = [s.element() for _ in range(k)]
            y = self.it.call(f, xs)
            out.append(core.forall([z for x in xs for z in x], c_or(*[c_not(s.member(x)) for x in xs], as_c(self.it.contains(s, y)))))
        return c_and(*out)

    def has_element(self, s):
        """the abstract set is not empty"""
        return c_le(1, s.size)

    def closed_under(self, s, *ops):
        """the abstract set is closed under the functions (of one or of two elements)"""
        out = []
        for f, k in ops:
            xs = [fresh("x") for _ in range(k)]
            out.append(core.forall(xs, c_or(*[c_not(s.member(x)) for x in xs], s.member(P.of(self.it.call(f, xs))))))
        return c_and(*out)

    def permutation(self, name, n):
        """an arbitrary permutation of n points"""
        n, back = P.of(n), "inverse·" + name
        core.INT_FNS.update((name, back))
        f, g = lambda x: core.fn(name, x), lambda x: core.fn(back, x)
        x = fresh("x")
        inside = in_range(x, P(), n)
        for c in (in_range(f(x), P(), n), in_range(g(x), P(), n), c_eq(f(g(x)), x), c_eq(g(f(x)), x)):
            self.it.solver.axioms.append(core.forall([x], core.c_imp(inside, c)))
        s = self.seq(name, n, f)
        s.index_fn = g
        return s

    def operation(self, name, *x):
        """the value of an arbitrary operation on abstract elements"""
        core.INT_FNS.add(name)
        return core.fn(name, *[P.of(y) for y in x])

    def int_array(self, name, *dims):
        """an array of arbitrary integers"""
        core.INT_FNS.add(name)
        return Tensor([Atom(P.of(n)) for n in dims], lambda *i: S.of(core.fn(name, *i)), "int")

    def table(self, name, n):
        """the multiplication table of an arbitrary operation on n points"""
        core.INT_FNS.add(name)
        n = P.of(n)
        i, j = fresh("i"), fresh("j")
        self.it.solver.axioms.append(core.forall([i, j], core.c_imp(c_and(in_range(i, P(), n), in_range(j, P(), n)), in_range(core.fn(name, i, j), P(), n))))
        return Tensor([Atom(n), Atom(n)], lambda i, j: S.of(core.fn(name, i, j)), "int")

    def product(self, name, v, factors):
        """v is the product of the factors"""
        got = self.products.get(repr(v))
        if got is None:
            self.res.add(name, "undecided", "not the value of a call of prod")
            return
        self.equal(name, got, factors)

    def record_product(self, t):
        v = rsym(f"Π#{len(self.products)}")
        self.products[repr(v)] = t
        return v

    def fold(self, f, name, init, step, *shape):
        """specify the for loop of f (in this contract only): its one loop variable runs through V(0) = init,
        V(k + 1) = step(k, V(k)), where V(k) is an array of the given shape; returns V"""
        V = lambda k: self.vtensor("fold·" + name, (k,), shape)  # noqa: E731
        key = (qual(unwrap(f)), name)
        self.it.invariants[key] = FoldSpec(name, init, step, V)
        self.local_loops.append(key)
        return Spec(at=V)

    def index_of(self, v):
        """the k of the value `family(name, k)`"""
        v = P.of(v)
        a = the_atom(v) if len(v.d) == 1 else None
        if a is None or a[0] != "fn":
            raise Unsupported("not a member of a family")
        return a[2][0]

    def loop(self, f, name, inv, havoc, variant=None, facts=None, step=None):
        """annotate the while loop of f (in this contract only)"""
        key = (qual(unwrap(f)), name)
        self.it.invariants[key] = LoopSpec(name, inv, havoc, variant, facts, step)
        self.local_loops.append(key)

    def forloop(self, f, name, keys, state, check, entry):
        """annotate a for loop of f (in this contract only); the specs of one function are used by its loops from outside in"""
        key = (qual(unwrap(f)), name)
        self.it.invariants[key] = ForSpec(name, keys, state, check, entry)
        self.local_loops.append(key)

    def given(self, name, eq0, lhs, rhs, cond=None):
        """the hypothesis eq0 = 0 (an array) in the form lhs = rhs: obligation eq0 = lhs - rhs; from here on lhs is replaced by rhs"""
        t = self.it.np.as_tensor
        if eq0 is not None:
            d = tn.elementwise(lambda x, y: x - y, t(lhs), t(rhs), same=self.it.same)
            self.equal(name + " (the equation solved)", eq0, d)
            if self.res.obl[name + " (the equation solved)"]["status"] != "proved":
                raise Unsupported(f"{name}: the hypothesis has another form")
        self.hyp(name, lhs, rhs)

    def hyp(self, name, lhs, rhs, with_conj=True, forall=()):
        """rewriting rule: the array lhs (whose entries are one product, possibly summed) is replaced by rhs, for all indices"""
        it = self.it
        lhs, rhs = it.np.as_tensor(lhs), it.np.as_tensor(rhs)
        if lhs.ndim != rhs.ndim or any(not it.same(x, y) for x, y in zip(lhs.shape, rhs.shape)):
            raise Unsupported(f"{name}: shapes of a hypothesis")
        axes, (f, g) = tn.broadcast([lhs, rhs], it.same)
        idx = [a.fresh("?h") for a in axes]
        vs = {the_atom(x) for x in flat_syms(idx)}
        rng = tuple(a.range(i) for a, i in zip(axes, idx))
        if forall:  # also for all values of these integers
            vs |= {the_atom(P.of(x)) for x in forall}
            rng += tuple(z for z in self.it.pc if z.deep_atoms() & {the_atom(P.of(x)) for x in forall})
        ts = [u for t in S.of(f(*idx)).ts for u in it.prover.norm_term(t, tuple(it.pc) + rng)]
        if len(ts) != 1 or ts[0][1] or len(ts[0][0].d) != 1:
            raise Unsupported(f"{name}: not one product {ts}")
        (co,) = ts[0][0].d.values()
        lhs, rhs = S([(ts[0][0] * P.of(1 / co), (), ts[0][2])]), S.of(g(*idx)) * P.of(1 / co)
        r = Rule(name, lhs, rhs, with_conj=with_conj, vars=vs)
        own = vs | set(r.bound)
        for a in r.pat:  # an index v + offset becomes a variable of its own
            for x in a[3]:
                for v in x.deep_atoms() & vs:
                    off = x - P.atom(v)
                    if x != P.atom(v) and not off.deep_atoms() & own:
                        sub = {v: P.atom(v) - off}
                        lhs, rhs, rng = lhs.subst(sub), rhs.subst(sub), tuple(y.subst(sub) for y in rng)
                        r = Rule(name, lhs, rhs, with_conj=with_conj, vars=vs)
                        break
        seen = set()
        for a in r.pat:
            for x in a[3]:
                if x.deep_atoms() & own:
                    if len(x.d) != 1 or x != P.atom(the_atom(x)) or the_atom(x) not in own:
                        raise Unsupported(f"{name}: index {x}")
                    seen.add(the_atom(x))
        if not vs <= seen:
            raise Unsupported(f"{name}: an index does not occur on the left")
        r.where = c_and(*rng)
        self.rule(r)

    def drop(self, *names):
        """these rules are not used from here on"""
        self.it.prover.rules = [r for r in self.it.prover.rules if r.name.rstrip("*") not in names]

    def selections(self, at=None):
        """the boolean masks used as indices so far: [(mask, indicator)]; at: the item of the sequence they depend on"""
        out = [(m, u) for m, _, u in self.it.selections]
        if at is not None:
            for i, (m, u) in enumerate(out):
                ps = npmodel.mask_parameters(m, core.isym("?q"))
                if len(ps) != 1:
                    raise Unsupported("selections of several parameters")
                out[i] = tuple(vsubst(x, {ps[0]: P.of(at)}) for x in (m, u))
        return out

    def comparisons(self):
        """the calls of allclose (and the like) so far: [(difference, outcome)]"""
        return list(self.compared)

    def tolerances(self):
        """the tolerances (rtol, atol) of the calls of allclose (and the like) so far"""
        return list(self.tols)

    def entails(self, cond):
        """does the condition hold on this path"""
        return cond if isinstance(cond, bool) else self.it.entails(as_c(cond))

    def powers(self, A, X, H):
        """tensor powers of one arbitrary rep, by exponent: the trivial rep is the power 0 (contract of create_trivial), the
        product of the powers a and b is the power a + b (tensor_product_associative, tensor_product_unit)"""
        it = self.it

        def power(e):
            o = abstract_rep(it, AnyRep, A, X, H, methods=dict(create_trivial=lambda it_, s: power(P())))
            o.attrs["=power"] = P.of(e)
            return o

        def exponent(o):
            if not (isinstance(o, Obj) and "=power" in o.attrs):
                raise Unsupported("not a power")
            return o.attrs["=power"]

        return Spec(power=power, exponent=exponent, product=lambda a, b: power(exponent(a) + exponent(b)))

    def override_impl(self, dispatcher, types_, model):
        """use the contract `model` of one implementation of a dispatched function (in this contract only)"""
        g = unwrap(dispatcher.dispatch(*types_))
        q = f"{qual(g)}@{g.__code__.co_firstlineno}"
        self.it.overrides[q] = lambda it, *a, **k: it.call(model, list(a), k)
        self.local_overrides.append(q)

    def effective(self, Q, n):
        """a matrix equal to the change of basis Q (None: the identity); where the code has just found its matrix close to the
        identity and dropped it, that matrix"""
        if Q is not None:
            return Q
        for a, b in reversed(self.closed):
            if a.ndim == 2:
                return a
        return tn.eye(Atom(P.of(n)))

    def mul_tensor_product(self, A, m):
        """contract of tensor_product(MulIrrep, MulIrrep) (tensor_product_mulirreps) for families of MulIrreps: a ReducedRep
        T D T^-1 equal to the Kronecker construction; D is the block diagonal matrix of its irreps"""
        n = A.shape[0]
        it = self.it

        def parts(a, b):
            x, y = a.attrs["=index"], b.attrs["=index"]
            d = a.attrs["=dim"] * b.attrs["=dim"]
            return x, y, P.of(a.attrs["=dim"]), P.of(b.attrs["=dim"]), P.of(d)

        def T(a, b):
            x, y, d, e, w = parts(a, b)
            f = lambda i, j: S.of(P.atom(("arr", "T", False, (x, y, i[0], i[1], j))))
            return Tensor([Prod([Atom(d), Atom(e)]), Atom(w)], f, "complex")

        def V(a, b):
            x, y, d, e, w = parts(a, b)
            f = lambda j, i: S.of(P.atom(("arr", "V", False, (x, y, j, i[0], i[1]))))
            return Tensor([Atom(w), Prod([Atom(d), Atom(e)])], f, "complex")

        def D(a, b, h=False):
            x, y, d, e, w = parts(a, b)
            return self.vtensor("DH" if h else "DX", (x, y), (m if h else n, w, w))

        i, j, i2, j2, p, q, a_, u, x, y = (isym(f"?{s}") for s in ("i", "j", "i2", "j2", "p", "q", "a", "u", "x", "y"))
        one, two = self.mul_items["1"](x), self.mul_items["2"](y)
        _, _, d, e, w = parts(one, two)
        B = lambda v, hi: (the_atom(v), P(), P.of(hi))
        t, v = T(one, two).f, V(one, two).f
        X1, X2 = one.attrs["=continuous_generators"].f, two.attrs["=continuous_generators"].f
        H1, H2 = one.attrs["=discrete_generators"].f, two.attrs["=discrete_generators"].f
        self.rule(Rule("T V", (t((i, j), p) * v(p, (i2, j2))).sum([B(p, w)]), S.of(1).guard(c_eq(i, i2), c_eq(j, j2))))
        self.rule(Rule("V T", (v(p, (i, j)) * t((i, j), q)).sum([B(i, d), B(j, e)]), S.of(1).guard(c_eq(p, q))))
        self.rule(
            Rule(
                "T D = (X1 + X2) T",
                (t((i, j), p) * D(one, two).f(a_, p, q)).sum([B(p, w)]),
                (S.of(X1(a_, i, u)) * t((u, j), q)).sum([B(u, d)]) + (S.of(X2(a_, j, u)) * t((i, u), q)).sum([B(u, e)]),
            )
        )
        self.rule(
            Rule(
                "T D = H1 H2 T",
                (t((i, j), p) * D(one, two, True).f(a_, p, q)).sum([B(p, w)]),
                (S.of(H1(a_, i, u)) * H2(a_, j, i2) * t((u, i2), q)).sum([B(u, d), B(i2, e)]),
            )
        )

        def model(a, b):
            x, y, d, e, w = parts(a, b)
            L = self.family2("L", x, y)
            irreps = self.seq("w", L, lambda k: Obj(_Any, {"=index": (x, y, P.of(k))}))
            from lie_nn._src.reduced_rep import ReducedRep

            return Obj(ReducedRep, {"_A": A, "irreps": irreps, "Q": T(a, b), "=dim": w}, Model(dict(dim=lambda it, s: s.attrs["=dim"])))

        return Spec(tp=model, T=T, V=V, D=D, DH=lambda a, b: D(a, b, True))

    def family2(self, name, k, l, lo=0):
        core.FN_LO[name] = lo
        return core.fn(name, P.of(k), P.of(l))

    def recursion(self, f, result):
        """recursive calls of f inside its own body use the contract `result`"""
        q = qual(unwrap(f))
        g = unwrap(f)
        depth = [0]

        def model(it, *a, **k):
            if depth[0]:
                return it.call(result, list(a), k)
            depth[0] = 1
            try:
                return it.call_func(g, list(a), k)
            finally:
                depth[0] = 0

        self.it.overrides[q] = model
        self.local_overrides.append(q)

    def seq(self, name, n, item):
        """a sequence of arbitrary length n with the items item(k)"""
        k = fresh("e")
        pc = len(self.it.pc)
        self.it.assume(in_range(k, 0, P.of(n)))
        v = item(k) if isinstance(item, types.FunctionType) else self.it.call(item, [k])
        del self.it.pc[pc:]
        return Seq([(the_atom(k), P(), P.of(n))], [(TRUE, v)], kind="tuple")

    def text(self, *parts):
        """the concatenation of strings, integers >= 0 and other texts"""
        out = []
        for x in parts:
            if isinstance(x, (P, int)) and not isinstance(x, bool):
                if not self.it.entails(c_le(0, P.of(x))):
                    raise Unsupported("text of an integer that may be negative")
                x = str(x) if isinstance(x, int) else str(int(x.const())) if x.is_const() else strings.Num(x)
            out.append(x)
        return strings.text(out)

    def blanks(self, name):
        """any number of spaces"""
        return strings.text([strings.Blanks(name)])

    def join(self, sep, seq):
        """the texts of a sequence (of at least one) separated by sep"""
        return strings.Text([strings.Join(sep, seq)])

    def as_seq(self, x):
        if isinstance(x, StarSeq):
            x = x.seq
        if isinstance(x, (tuple, list)) and len(x) == 1 and isinstance(x[0], StarSeq):
            x = x[0].seq
        if isinstance(x, Cat) and len(x.parts) == 1:
            x = x.parts[0]
        return x

    def same_sequence(self, name, a, b):
        a, b = self.as_seq(a), self.as_seq(b)
        it = self.it
        try:
            if not isinstance(a, Seq) and not isinstance(b, Seq):
                a, b = it.concrete_items(a), it.concrete_items(b)
                if a is None or b is None:
                    raise Unsupported("comparison of sequences")
                self.ensure(name, len(a) == len(b))
                for x, y in zip(a, b):
                    self.same_value(name, x, y)
                return
            if not isinstance(a, Seq) or not isinstance(b, Seq):
                raise Unsupported("comparison of a list and a sequence")
            if not a.single() or not b.single() or len(a.space) != len(b.space):
                raise Unsupported("comparison of guarded sequences")
            b2 = freshen(b)
            s = {y[0]: P.atom(x[0]) for x, y in zip(a.space, b2.space)}
            conds, rng = [], []
            for x, y in zip(a.space, b2.space):
                conds.append(c_and(*[c_eq(u, v.subst(s)) for u, v in zip(x[1:], y[1:])]))
                rng.append(in_range(P.atom(x[0]), x[1], x[2]))
            self.ensure(name, c_and(*conds))
            n = len(it.pc)
            try:
                it.assume(*rng)
                if it.solver.check(tuple(it.pc)) != "unsat":
                    self.same_value(name, a.items[0][1], vsubst(b2.items[0][1], s))
            finally:
                del it.pc[n:]
        except Unsupported as e:
            self.res.add(name, "undecided", e)

    def same_value(self, name, x, y):
        if x is y:
            self.res.add(name, "proved")
        elif isinstance(x, Tensor) or isinstance(y, Tensor):
            self.equal(name, x, y)
        elif isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and set(x.attrs) == set(y.attrs) and (x.model is y.model or getattr(x.model, "same", lambda o: False)(y.model)):
            for k in x.attrs:
                self.same_value(f"{name}.{k}", x.attrs[k], y.attrs[k])
        elif isinstance(x, Obj) or isinstance(y, Obj):
            self.res.add(name, "undecided", "identity of objects")
        else:
            self.ensure(name, self.it.equal(x, y))

    def block_diag(self, seq, batch=0):
        """diag(seq[0], seq[1], ...) in the last two axes (specification)"""
        seq = self.as_seq(seq)
        if not isinstance(seq, Seq):
            raise Unsupported("block_diag of a list")
        seq = freshen(seq)
        if not seq.single():
            raise Unsupported("block_diag of a guarded sequence")
        el = self.it.np.as_tensor(seq.items[0][1])
        rows = self.it.np.cat_axis(seq.space, el.axes[-2])
        cols = self.it.np.cat_axis(seq.space, el.axes[-1])
        atoms = [a for a, _, _ in seq.space]
        f0 = el.f
        n = len(atoms)

        def split(axis, i):
            if isinstance(axis, Sig):
                return list(i[0]), i[1]
            k, x = list(i[:n]), i[n:]  # a product
            return k, (x[0] if len(x) == 1 else tuple(x))

        def f(*idx):
            k, x = split(rows, idx[-2])
            l, y = split(cols, idx[-1])
            v = self.it.np.subst_entry(f0, list(idx[:-2]) + [x, y], dict(zip(atoms, k)))
            return S.of(v).guard(*[c_eq(a, b) for a, b in zip(k, l)])

        return Tensor(el.axes[:-2] + [rows, cols], f, "complex")

    def block_diag_args(self, *args):
        """contract of util.direct_sum (proved by direct_sum_two and direct_sum_many)"""
        if len(args) == 1 and isinstance(args[0], StarSeq):
            seq = args[0].seq
            return self.block_diag(seq)
        out = args[-1]
        for a in args[-2::-1]:
            out = self.it.call_func(unwrap(_util().direct_sum), [a, out], {})
        return out

    def mulirreps(self, name, k, A, m):
        """k arbitrary MulIrreps (contract of the class): objects of class MulIrrep with arbitrary dim, X and H"""
        from lie_nn._src.reduced_rep import MulIrrep

        n = A.shape[0]

        def item(i):
            d = self.family("d" + name, i)
            X = self.vtensor("X" + name, (i,), (n, d, d))
            H = self.vtensor("H" + name, (i,), (m, d, d))
            o = abstract_rep(self.it, MulIrrep, A, X, H, dict(dim=d))
            o.attrs["=index"] = P.of(i)
            return o

        self.mul_items = getattr(self, "mul_items", {})
        self.mul_items[name] = item
        return self.seq(name, k, item)

    def realalgebra(self, name="A", n=None):
        n = self.int("n", 0) if n is None else P.of(n)
        return self.tensor(name, n, n, n, real=True)

    def family(self, name, k, lo=0):
        """an arbitrary integer depending on k (lo = None: of any sign)"""
        core.INT_FNS.add(name)
        core.FN_LO.pop(name, None)
        if lo is not None:
            core.FN_LO[name] = lo
        return core.fn(name, P.of(k))

    def assume(self, cond):
        c = as_c(cond)
        if self.it.solver.check(tuple(self.it.pc) + (c,)) == "unsat":
            raise PathDead()
        self.it.assume(c)

    # --- obligations --------------------------------------------------------------------------------
    def ensure(self, name, cond):
        it = self.it
        if isinstance(cond, Tensor) and cond.ndim == 0:
            cond = cond.at()
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.res.add(name, "proved")
            else:
                r, m = it.solver.check(tuple(it.pc), want_model=True)
                self.res.add(name, "refuted", f"false on the path {it.pc}")
                self.note_model(r, m)
            return
        c = as_c(cond)
        try:
            r = it.solver.check(tuple(it.pc) + (c_not(c),), want_model=True, timeout_ms=10000)
        except Unsupported as e:
            self.res.add(name, "undecided", e)
            return
        st, m = r
        if st == "unsat":
            self.res.add(name, "proved")
        elif st == "sat":
            self.res.add(name, "refuted", f"counterexample {m} on the path {it.pc}")
            self.note_model(st, m)
        else:
            self.res.add(name, "undecided", "solver: unknown")

    def lemma(self, name, cond):
        """an obligation that may be used afterwards"""
        self.ensure(name, cond)
        self.it.assume(as_c(cond))

    def valid(self, name, f, *args):
        """f holds for all integers (proved for arbitrary ones, without any hypothesis): it is used for the given ones"""
        xs = [isym(f"{name}·{n}") for n in range(len(args))]
        try:
            ok = self.it.solver.check((c_not(as_c(self.it.call(f, xs))),), timeout_ms=10000) == "unsat"
            self.res.add(name, "proved" if ok else "undecided", "" if ok else "not proved without hypotheses")
        except Unsupported as e:
            self.res.add(name, "undecided", e)
        self.it.assume(as_c(self.it.call(f, list(args))))

    def apply(self, name, hyp, concl, *args):
        """the lemma hyp => concl over arbitrary integers (proved without other hypotheses), used for args: its hypotheses (a list)
        are obligations here, its conclusion may be used afterwards"""
        xs = [isym(f"{name}·{n}") for n in range(len(args))]
        call = lambda f, a: [as_c(x) for x in self.it.call(f, list(a))]  # noqa: E731
        try:
            ok = self.it.solver.check(tuple(call(hyp, xs)) + (c_not(c_and(*call(concl, xs))),), timeout_ms=10000) == "unsat"
            self.res.add(name, "proved" if ok else "undecided", "" if ok else "not proved without other hypotheses")
        except Unsupported as e:
            self.res.add(name, "undecided", e)
        for n, h in enumerate(call(hyp, args)):
            self.ensure(f"{name}: hypothesis {n}", h)
        self.it.assume(*call(concl, args))

    def lane(self):
        """vectorised code seen from one lane: arrays have rank 0, and np.all / np.any take all the other lanes into account,
        whose values are arbitrary; a division of integers by 0 gives 0"""
        self.it.lane = True

    def note_model(self, st, m):
        if st == "sat" and m is not None and self.res.model is None:
            out = {}
            for d in m.decls():
                if d.arity() == 0:
                    v = m[d]
                    try:
                        out[d.name()] = v.as_long()
                    except Exception:
                        pass
            self.res.model = out

    def equal(self, name, a, b, tol=None):
        it = self.it
        try:
            a, b = it.np.as_tensor(a), it.np.as_tensor(b)
            if a.ndim != b.ndim:
                self.res.add(name, "refuted", f"ranks {a.ndim} and {b.ndim}")
                return
            for x, y in zip(a.shape, b.shape):
                if not it.same(x, y):
                    r, m = it.solver.check(tuple(it.pc) + (c_not(c_eq(x, y)),), want_model=True)
                    self.res.add(name, "refuted" if r == "sat" else "undecided", f"shapes {a.shape} and {b.shape}")
                    self.note_model(r, m)
                    return
            d = tn.elementwise(lambda x, y: x - y, a, b, same=it.same)
            if d.dtype == "bool":
                raise Unsupported("boolean arrays")
            for idx, rng in it.np.generic_indices(d.axes):
                prove_zero(it.prover, d.f(*idx), tuple(it.pc) + (rng,))
            self.res.add(name, "proved")
        except Fail as e:
            self.res.add(name, "refuted", f"{e} | case {e.leaf}")
            if e.leaf is not None:
                try:
                    r, m = it.solver.check(e.leaf, want_model=True)
                    self.note_model(r, m)
                except Unsupported:
                    pass
        except ShapeError as e:
            self.res.add(name, "refuted", f"shapes: {e}")
        except Unsupported as e:
            self.res.add(name, "undecided", e)

    def linear_factors(self, p):
        """(constant, {primitive factor: exponent}) of the square of a square root, or of a product or quotient"""
        p, k = P.of(p), Fraction(1)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "sqrt":
                p = m[0][0][1]
            else:
                p = p * p
        else:
            p = p * p
        out = {}
        for f, e in self.it.factors_of(p):
            g, c = primitive(f)
            k *= c**e
            if not g.is_const():
                out[g] = out.get(g, 0) + e
        return k, {g: e for g, e in out.items() if e}

    def same_products(self, name, xs, ys):
        """the products of two lists of nonnegative numbers are equal"""
        sides = []
        for z in (xs, ys):
            k, out = Fraction(1), {}
            for x in z:
                c, fs = self.linear_factors(x)
                k *= c
                for g, e in fs.items():
                    out[g] = out.get(g, 0) + e
            sides.append((k, {g: e for g, e in out.items() if e}))
        if sides[0] == sides[1]:
            self.res.add(name, "proved")
        else:
            self.ensure(name, core.c_eq(math.prod([P.of(x) for x in xs], start=P.of(1)), math.prod([P.of(y) for y in ys], start=P.of(1))))

    def rational_zero(self, name, x, zeros):
        """the rational function x is 0 on this path; zeros: linear forms of which some may be 0 on this path"""
        it, x = self.it, P.of(x)
        sub = {}
        for f in zeros:
            f = P.of(f).subst(sub)
            if not f.is_const() and it.entails(core.c_eq(f, 0)):
                a = next(((m[0][0], c) for m, c in sorted(f.d.items(), key=repr) if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == "i"), None)
                if a is None:
                    continue
                v = (P.atom(a[0]) - f / a[1])
                sub = {b: w.subst({a[0]: v}) for b, w in sub.items()}
                sub[a[0]] = v
        terms, common = [], {}
        for m, c in x.d.items():
            num, den = P.of(c), {}
            for a, e in m:
                if a[0] != "inv":
                    num = num * P.atom(a) ** e
                    continue
                for f, k in it.factors_of(a[1]):
                    g, r = primitive(f.subst(sub))
                    num = num / r ** (k * e)
                    den[g] = den.get(g, 0) + k * e
            terms.append((num.subst(sub), den))
            for g, e in den.items():
                common[g] = max(common.get(g, 0), e)
        groups = {}
        for num, den in terms:
            key = frozenset(den.items())
            groups[key] = groups.get(key, P()) + num
        total = P()
        for key, num in groups.items():
            den = dict(key)
            for g, e in common.items():
                if it.prover.deadline and time.time() > it.prover.deadline:
                    raise Unsupported("deadline")
                num = num * g ** (e - den.get(g, 0))
            total = total + num
        if total == P() and all(not g.is_zero() for g in common):
            self.res.add(name, "proved")
        else:
            self.ensure(name, core.c_eq(x, 0))

    def is_same(self, a, b):
        """are the arrays provably equal"""
        keep, model = dict(self.res.obl), self.res.model
        self.equal("?", a, b)
        ok = self.res.obl["?"]["status"] == "proved"
        self.res.obl.clear()
        self.res.obl.update(keep)
        self.res.model = model
        return ok

    def zero(self, name, a):
        a = self.it.np.as_tensor(a)
        self.equal(name, a, Tensor(a.axes, lambda *i: S(), a.dtype))

    def shape(self, name, a, *dims):
        a = self.it.np.as_tensor(a)
        if a.ndim != len(dims):
            self.res.add(name, "refuted", f"rank {a.ndim}, expected {len(dims)}")
            return
        self.ensure(name, c_and(*[c_eq(x, P.of(y)) for x, y in zip(a.shape, dims)]))

    # --- label sequences ------------------------------------------------------------------------------
    def parts_of(self, seq):
        seq = self.as_seq(seq)
        parts = seq.parts if isinstance(seq, Cat) else [seq]
        out = []
        for p in parts:
            if isinstance(p, (list, tuple)):
                p = Seq([], [(TRUE, x) for x in p])
            out.append(self.it.seq_of(p))
        return out

    def pairs(self, name, seq, ordered, body):
        """body(v, w) for two generic different positions of the sequence (v before w when ordered)"""
        it = self.it
        try:
            parts = self.parts_of(seq)
            for a, p in enumerate(parts):
                for b, q in enumerate(parts):
                    if b < a:
                        continue
                    p1, q1 = freshen(p), freshen(q)
                    for i, (g, v) in enumerate(p1.items):
                        for j, (h, w) in enumerate(q1.items):
                            conds = [g, h] + [in_range(P.atom(x), lo, hi) if hi is not None else c_le(lo, P.atom(x)) for sp in (p1.space, q1.space) for x, lo, hi in sp]
                            if a == b:
                                us = [P.atom(x) for x, _, _ in p1.space]
                                ws = [P.atom(x) for x, _, _ in q1.space]
                                less = FALSE
                                for k in reversed(range(len(us))):
                                    less = c_or(c_lt(us[k], ws[k]), c_and(c_eq(us[k], ws[k]), less))
                                if i < j:
                                    less = c_or(less, c_and(*[c_eq(x, y) for x, y in zip(us, ws)]))
                                if less.t[0] == "f":
                                    continue
                                conds.append(less)
                            n = len(it.pc)
                            try:
                                it.assume(*conds)
                                if it.solver.check(tuple(it.pc)) != "unsat":
                                    body(v, w)
                            finally:
                                del it.pc[n:]
            self.res.add(name, "proved")
        except Unsupported as e:
            self.res.add(name, "undecided", e)

    def distinct(self, name, seq):
        """no label occurs twice"""
        self.pairs(name, seq, False, lambda v, w: self.ensure(name, c_not(as_c(self.it.equal(v, w)))))

    def increasing(self, name, seq):
        """every item is less than the later ones, and has finitely many before it"""
        parts = self.parts_of(seq)
        for k, p in enumerate(parts):
            self.ensure(name + ": reached after finitely many steps", all(hi is not None or (k == len(parts) - 1 and i == 0) for i, (_, _, hi) in enumerate(p.space)))

        def body(v, w):
            self.ensure(name, self.it.compare(ast.Lt, v, w))
            self.ensure(name, c_not(as_c(self.it.compare(ast.Lt, w, v))))

        self.pairs(name, seq, True, body)

    def member(self, seq, x):
        """x occurs in the sequence (possibly infinite)"""
        return as_c(self.it.contains(self.as_seq(seq), x))

    def iff(self, a, b):
        return core.c_iff(as_c(a), as_c(b))

    def implies(self, a, b):
        return core.c_imp(as_c(a), as_c(b))

    def total(self, name, seq, f, expected):
        """the sum of f over the sequence"""
        it = self.it
        try:
            tot = P()
            for p in self.parts_of(seq):
                for g, v in p.items:
                    n = len(it.pc)
                    rng = [in_range(P.atom(x), lo, hi) for x, lo, hi in p.space]
                    it.assume(*rng)
                    back = {}
                    if isinstance(v, tuple) and all(isinstance(P.of(z), P) for z in v):
                        ys = [fresh("y") for _ in v]
                        it.assume(*[c_eq(a, P.of(z)) for a, z in zip(ys, v)])
                        back, v = {the_atom(a): P.of(z) for a, z in zip(ys, v)}, tuple(ys)
                    y = it.call(f, [v])
                    y = y.subst(back) if back and isinstance(y, (P, S)) else y
                    del it.pc[n:]
                    if g.t[0] != "t":
                        raise Unsupported("sum of guarded items")
                    y = y.scalar() if isinstance(y, S) else P.of(y)
                    for x, lo, hi in reversed(p.space):
                        if hi is None:
                            raise Unsupported("sum over an infinite sequence")
                        y = poly_sum(y, x, lo, hi)
                    tot = tot + y
            d = self.resolve(tot - P.of(expected))
            self.ensure(name, c_eq(d, 0))
        except Unsupported as e:
            self.res.add(name, "undecided", e)

    def resolve(self, p):
        """eliminates |x|, min, max by case distinction on the path"""
        it = self.it
        for _ in range(20):
            hit = None
            for a in sorted(p.deep_atoms(), key=core.akey):
                if a[0] == "abs":
                    hit = a, c_le(0, a[1]), a[1], -a[1]
                elif a[0] == "max":
                    hit = a, c_le(a[1], a[2]), a[2], a[1]
                elif a[0] == "min":
                    hit = a, c_le(a[1], a[2]), a[1], a[2]
                if hit:
                    break
            if hit is None:
                return p
            a, c, x, y = hit
            p = p.subst({a: x if it.branch(c) else y})
        raise Unsupported("nested absolute values")

    def raises(self, name, exc, f, *a, **k):
        try:
            self.it.call(f, list(a), k)
        except PyRaise as e:
            self.ensure(name, issubclass(e.cls, exc))
            return
        self.ensure(name, False)

    def note(self, *a):
        pass


def poly_sum(p, x, lo, hi):
    """sum of the polynomial p over lo <= x < hi (hi >= lo)"""
    t = {}
    for m, c in p.d.items():
        e = sum(k for a, k in m if a == x)
        if any(a != x and x in P.atom(a).deep_atoms() for a, _ in m):
            raise Unsupported("sum of a non-polynomial term")
        rest = P({tuple((a, k) for a, k in m if a != x): c})
        t[e] = t.get(e, P()) + rest

    def faul(e, n):  # sum_{0 <= k < n} k^e
        if e == 0:
            return n
        if e == 1:
            return n * (n - 1) / 2
        if e == 2:
            return (n - 1) * n * (2 * n - 1) / 6
        if e == 3:
            return n * n * (n - 1) * (n - 1) / 4
        # (n^(e+1) - sum_{j < e} binomial(e + 1, j) sum k^j) / (e + 1)
        return (n ** (e + 1) - sum((faul(j, n) * math.comb(e + 1, j) for j in range(e)), P())) / (e + 1)

    out = P()
    for e, c in t.items():
        if lo.is_zero():
            out = out + c * faul(e, hi)
        else:
            out = out + c * (faul(e, hi) - faul(e, lo))
    return out


def _util():
    from lie_nn import util
    from lie_nn._src import util as u

    return u


class Spec:
    """functions of a specification, callable from contracts"""

    vsym_ctx = True
    vsym = True

    def __init__(self, **fs):
        for k, f in fs.items():
            setattr(self, k, types.MethodType(lambda self, *a, f=f: f(*a), self))


class Model(dict):
    """contract of an abstract instance: methods by value (kept in the attributes, so that they follow substitutions)"""

    def __init__(self, d):
        super().__init__(d)

    def same(self, o):
        return isinstance(o, Model) and self.keys() == o.keys()


def abstract_rep(it, cls, A, X, H, values=None, methods=None):
    vals = dict(algebra=A, continuous_generators=X, discrete_generators=H, **(values or {}))
    model = {k: (lambda it, s, *a, k=k: s.attrs["=" + k]) for k in vals}
    model.update(methods or {})
    o = Obj(cls, {"=" + k: v for k, v in vals.items()}, Model(model))
    o.frozen = True
    return o


class _Any:
    pass


def _make_any():
    from lie_nn import Rep

    AnyRep = type("AnyRep", (Rep,), {"__module__": "vsym"})
    return AnyRep


AnyRep = AnyIrrep = None


def init_classes():
    global AnyRep, AnyIrrep
    if AnyRep is None:
        AnyRep = _make_any()
        from lie_nn import TabulatedIrrep

        AnyIrrep = type("AnyIrrep", (TabulatedIrrep,), {"__module__": "vsym"})


def module_state():
    """the mutable values of module variables, class attributes and defaults of the library"""
    import sys
    out, seen = [], set()

    def add(what, v):
        if isinstance(v, (list, dict, set, np.ndarray)) and id(v) not in seen:
            seen.add(id(v))
            out.append((what, v, v.copy()))

    def func(what, f):
        f = getattr(f, "__wrapped__", f)
        if isinstance(f, types.FunctionType):
            for v in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                add(what + " (default)", v)
            for k, v in f.__dict__.items():
                add(f"{what}.{k}", v)
            add(what + ".__dict__", f.__dict__)

    for m, mod in list(sys.modules.items()):
        if (m.split(".")[0] in ("lie_nn", "contracts")) and mod is not None:
            for k, v in list(vars(mod).items()):
                if k.startswith("__"):
                    continue
                add(f"{m}.{k}", v)
                func(f"{m}.{k}", v)
                if isinstance(v, type) and v.__module__.split(".")[0] == "lie_nn":
                    for a, x in list(vars(v).items()):
                        if not a.startswith("__") and a != "funcs":
                            add(f"{m}.{k}.{a}", x)
                        func(f"{m}.{k}.{a}", getattr(x, "fget", None) or getattr(x, "__func__", x))
    return out


def restore(held):
    bad = None
    for what, v, old in held:
        if isinstance(v, np.ndarray):
            same = v.shape == old.shape and np.array_equal(v, old)
            if not same:
                v[...] = old
        elif isinstance(v, dict):
            same = list(v.keys()) == list(old.keys()) and all(v[k] is old[k] for k in old)
            if not same:
                v.clear()
                v.update(old)
        elif isinstance(v, set):
            same = v == old
            if not same:
                v.clear()
                v.update(old)
        else:
            same = len(v) == len(old) and all(a is b for a, b in zip(v, old))
            if not same:
                v[:] = old
        if not same:
            bad = what
    if bad:
        raise Unsupported(f"the code changes {bad}")


def run_symbolic(con, deadline, max_paths=600):
    """execute the contract on all inputs; returns a Result"""
    init_classes()
    core._fresh[0] = 0
    core.REAL_ARRAYS.clear()
    core.NONZERO.clear()
    core.FN_LO.clear()
    res = Result()
    t0 = time.time()
    it = SymInterp(deadline=deadline)
    ctx = SymCtx(it, res)
    setup = getattr(con.fn, "setup", None)
    if setup:
        setup(it, ctx)

    def thunk():
        core._fresh[0] = 0
        ctx.reset()
        it.prover.rules = []
        it.inverses = []
        it.lane = False
        it.loop_atoms = set()
        it.element_length = None
        if time.time() > deadline:
            raise Unsupported("deadline")
        return it.call_func(con.fn, [ctx], {})

    held = module_state()
    try:
        paths = it.explore(thunk, max_paths=max_paths)
        restore(held)
        for pc, (st, r) in paths:
            if st == "raise":
                res.add("no exception", "refuted", f"{r} on the path {pc}")
                try:
                    m = it.solver.check(tuple(pc), want_model=True)
                    ctx.note_model(*m)
                except Unsupported:
                    pass
            res.paths += 1
        if res.paths == 0:
            res.aborted.append("no feasible path (vacuous)")
        else:
            res.add("no exception", "proved")
            res.add("the inputs are not modified", "proved")
    except Unsupported as e:
        res.aborted.append(f"unsupported: {e}")
    except Exception as e:
        if DEBUG:
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.aborted.append(f"engine: {type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.lineno}")
    try:
        restore(held)
    except Unsupported as e:
        res.aborted.append(f"unsupported: {e}")
    res.functions = {q: n for q, n in it.functions.items() if not q.startswith("contracts")}
    res.stats = dict(it.solver.stats)
    res.time = time.time() - t0
    if res.aborted:
        for o in res.obl.values():
            if o["status"] == "proved":
                o["status"], o["detail"] = "undecided", res.aborted[0]
        if not res.obl:
            res.obl["all"] = dict(status="undecided", paths=0, detail=res.aborted[0])
    return res


# ---------------------------------------------------------------------------------------------------
# concrete evaluation of the same contract on the real code


def snapshot(v, depth=0):
    """a copy of all arrays, lists and attributes reachable from a value"""
    if isinstance(v, np.ndarray):
        return np.array(v)
    if depth > 6:
        return None
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snapshot(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", [(repr(k), snapshot(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, (int, float, complex, str)):
        return v
    if type(v).__module__.startswith("lie_nn"):
        names = [n for n in (list(getattr(v, "__dict__", {})) or getattr(type(v), "__dataclass_fields__", {}))]
        return (type(v).__name__, [(n, snapshot(getattr(v, n, None), depth + 1)) for n in sorted(names) if n in getattr(type(v), "__dataclass_fields__", {}) or not cached_name(v, n)])
    return None


def cached_name(v, n):
    """an attribute that the class computes by itself"""
    import functools

    return isinstance(getattr(type(v), n, None), (functools.cached_property, property))


def unchanged(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or a != a)


class ConcCtx:
    vsym_ctx = True
    symbolic = False

    def __init__(self, rng, model=None):
        self.rng, self.model = rng, model or {}
        self.inputs = {}
        self.failures = []
        self.checked = 0
        self.closed = []
        self.compared = []
        self.tols = []

    def int(self, name, lo=None, hi=None, sample=None):
        if name in self.inputs:
            return self.inputs[name]
        if name in self.model:
            v = int(self.model[name])
        else:
            a, b = sample or ((lo if isinstance(lo, (int, np.integer)) else 0), None)
            if b is None:
                b = hi if isinstance(hi, (int, np.integer)) and hi > a and self.rng.random() < 0.6 else a + 4
            if self.model.get("__larger__") and b - a <= 6 and self.rng.random() < 0.35:
                b = a + int(self.model["__larger__"])
            if isinstance(hi, (int, np.integer)):
                b = min(b, hi)
            v = int(self.rng.integers(a, max(b, a + 1)))
        if lo is not None and v < lo:
            raise Skip()
        if hi is not None and v >= hi:
            raise Skip()
        if abs(v) > max(10**6, *(sample or (0,))):
            raise Skip()
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, sample=None):
        v = float(self.rng.normal())
        if lo is not None:
            v = lo + abs(v)
        self.inputs[name] = v
        return v

    def sign(self, name):
        b = self.model.get(name + "_bit")
        v = int(1 - 2 * (b if b in (0, 1) else self.rng.integers(0, 2)))
        self.inputs[name] = v
        return v

    def choose(self, name, options):
        o = options[int(self.rng.integers(0, len(options)))]
        self.inputs[name] = repr(o)[:80]
        return o

    def tensor(self, name, *dims, real=False):
        t = self.rng.normal(size=dims)
        if not real:
            t = t + 1j * self.rng.normal(size=dims)
        return t

    def vtensor(self, name, args, dims, real=False):
        key = (name, tuple(args))
        if key not in self.inputs:
            r = np.random.default_rng(abs(hash(key)) % 2**32)
            t = r.normal(size=dims)
            self.inputs[key] = t if real else t + 1j * r.normal(size=dims)
        return self.inputs[key]

    def rule(self, r):
        pass

    def invertible(self, name, n, real=False):
        q = np.linalg.qr(self.tensor(name, n, n, real=real))[0] @ np.diag(self.rng.uniform(0.7, 1.5, size=n)) if n else np.zeros((0, 0))
        q = q @ np.linalg.qr(self.tensor(name, n, n, real=real))[0] if n else q
        return q

    def has_inverse(self, name, q, v):
        self.equal(name + " Q V = 1", q @ v, np.eye(q.shape[0]))
        self.equal(name + " V Q = 1", v @ q, np.eye(q.shape[1]))

    def conj(self, A):
        return np.conj(A)

    def assume_checks(self, why):
        pass

    def assume_real(self, why):
        pass

    def generators_by_contract(self, cls, d, n, concrete=None):
        pass

    def unitary(self, name, n):
        return np.linalg.qr(self.tensor(name, n, n))[0] if n else np.zeros((0, 0), dtype=complex)

    def algebra(self, name="A", n=None):
        """structure constants of a simple algebra plus an abelian one"""
        import lie_nn as lie

        want = self.model.get("n") if n is None else n
        pool = [lie.irreps.SU2, lie.irreps.SO13]
        if want is None:
            k = int(self.rng.integers(0, 5))
            cls = [lie.irreps.SU2, lie.irreps.SO13, None, None, lie.irreps.SU2][k]
            ab = [0, 0, 0, 2, 1][k]
        else:
            if not 0 <= want <= 12:
                raise Skip()
            cls = None if want < 3 else lie.irreps.SU2 if want < 6 or self.rng.integers(0, 2) else lie.irreps.SO13
            ab = want - (0 if cls is None else cls.create_trivial().lie_dim)
        A0 = np.zeros((0, 0, 0)) if cls is None else np.asarray(cls.create_trivial().algebra()) * 1.0
        n0 = A0.shape[0]
        A = np.zeros((n0 + ab,) * 3, dtype=A0.dtype)
        A[:n0, :n0, :n0] = A0
        self.algs = getattr(self, "algs", [])
        self.algs.append((A, cls, ab))
        self.inputs["algebra " + name] = f"{cls.__name__ if cls else ''} + abelian({ab})"
        return A

    def rep(self, name, A, m=0, d=None, dlo=0):
        """a sum of irreps and characters in a random basis"""
        import lie_nn as lie

        (cls, ab), = [(c, k) for B, c, k in self.algs if B is A][:1]
        d = self.model.get("d" + name) if d is None else d
        if d is None:
            d = int(self.rng.integers(max(dlo, 0 if self.rng.integers(0, 6) == 0 else 1), 6))
        if not dlo <= d <= 40:
            raise Skip()
        irs = [] if cls is None else list(itertools.islice(cls.iterator(), 5))
        n0 = A.shape[0] - ab
        X = np.zeros((A.shape[0], d, d), dtype=complex)
        o, parts = 0, []
        while o < d:
            fit = [r for r in irs if r.dim <= d - o]
            if fit:
                r = fit[int(self.rng.integers(0, len(fit)))]
                X[:n0, o : o + r.dim, o : o + r.dim] = r.continuous_generators()
                parts.append(repr(r))
                w = r.dim
            else:
                w = 1
                parts.append("1")
            for a in range(n0, n0 + ab):
                X[a, o : o + w, o : o + w] = np.eye(w) * self.rng.normal()
            o += w
        q = self.invertible("q", d)
        X = q @ X @ np.linalg.inv(q) if d else X
        H = self.tensor("H", m, d, d)
        self.inputs["rep" + name] = " + ".join(parts) + f" in a random basis, H random of shape {H.shape}"
        return lie.GenericRep(A, X, H)

    def anyrep(self, name, A, m=0, hyp=True, dlo=0):
        import lie_nn as lie

        r = self.rep(name, A, m)

        class SomeRep(lie.Rep):
            def algebra(self):
                return r.A

            def continuous_generators(self):
                return r.X

            def discrete_generators(self):
                return r.H

        return SomeRep()

    def anyirrep(self, name, A, m=0):
        import lie_nn as lie

        fam = [lie.irreps.SU2, lie.irreps.SO3, lie.irreps.O3, lie.irreps.Z2, lie.irreps.SL2C, lie.irreps.SU2Real]
        irs = list(itertools.islice(fam[int(self.rng.integers(0, len(fam)))].iterator(), 4))
        r = irs[int(self.rng.integers(0, len(irs)))]
        self.inputs["irrep " + name] = repr(r)
        return r

    def irrep_product(self, t):
        r, self.inputs["irreps " + t] = self.irrep_pair(), self.inputs["irreps"]
        return r

    def irrep_triple(self, t):
        a, b = self.irrep_product(t)
        cs = list(a * b) + [a, b]
        c = cs[int(self.rng.integers(0, len(cs)))]
        self.inputs["output irrep " + t] = repr(c)
        return a, b, c

    def irrep_pair(self):
        import lie_nn as lie

        fam = [lie.irreps.SU2, lie.irreps.SO3, lie.irreps.O3, lie.irreps.Z2, lie.irreps.SL2C, lie.irreps.SO13, lie.irreps.SU2Real]
        cls = fam[int(self.rng.integers(0, len(fam)))]
        irs = list(itertools.islice(cls.iterator(), 4))
        if cls is lie.irreps.SU2Real:  # the half-integer ones are irreducible over the reals only: no complete CG basis
            irs = [x for x in irs if x.j % 1 == 0]
        r1, r2 = (irs[int(self.rng.integers(0, len(irs)))] for _ in range(2))
        self.inputs["irreps"] = f"{r1!r}, {r2!r}"
        return r1, r2

    def obj(self, cls, **attrs):
        self.inputs.setdefault("objects", []).append(f"{cls.__name__}({', '.join(f'{k}={v!r}' for k, v in attrs.items() if not isinstance(v, np.ndarray))})")
        try:
            return cls(**attrs)
        except TypeError:
            o = cls.__new__(cls)
            for k, v in attrs.items():
                object.__setattr__(o, k, v)
            return o

    def new(self, cls, *a, **k):
        return cls(*a, **k)

    def call(self, f, *a, **k):
        before = snapshot((a, k))
        try:
            return f(*a, **k)
        finally:
            self.checked += 1
            if not unchanged(before, snapshot((a, k))):
                self.failures.append(("the inputs are not modified", f"{getattr(f, '__name__', f)} changed its arguments"))

    def call_rest(self, f, *a):
        return self.call(f, *a[:-1], *a[-1])

    def permutation(self, name, n):
        p = tuple(int(k) for k in self.rng.permutation(n))
        self.inputs[name] = str(p)
        return p

    def same_products(self, name, xs, ys):
        self.equal(name, float(np.prod([float(x) for x in xs])), float(np.prod([float(y) for y in ys])))

    def rational_zero(self, name, x, zeros):
        self.ensure(name, abs(x) < 1e-8)

    def lemma(self, name, cond):
        self.ensure(name, cond)

    def valid(self, name, f, *args):
        pass

    def apply(self, name, hyp, concl, *args):
        pass

    def lane(self):
        pass

    def opaque(self, name, arg, shape, real=True):
        return None

    def opaque_scalar(self, name, *want, integer=True):
        return None

    def labels(self, name, r):
        return tuple(int(x) for x in self.rng.integers(0, 3, size=r))

    def product(self, name, v, factors):
        self.equal(name, v, np.prod(factors))

    def override(self, f, model):
        pass

    def override_impl(self, f, types, model):
        pass

    def recursion(self, f, result):
        pass

    def seq(self, name, n, item):
        return [item(k) for k in range(n)]

    def text(self, *parts):
        return "".join(str(x) for x in parts)

    def blanks(self, name):
        return " " * int(self.rng.integers(0, 3))

    def join(self, sep, seq):
        return sep.join(seq)

    def same_sequence(self, name, a, b):
        self.checked += 1
        a, b = list(a), list(b)
        if len(a) != len(b):
            self.failures.append((name, f"{len(a)} items instead of {len(b)}"))
            return
        for x, y in zip(a, b):
            if x is y:
                continue
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                self.equal(name, x, y)
            elif not (x == y):
                self.failures.append((name, f"{x!r} instead of {y!r}"))

    def block_diag(self, seq, batch=0):
        seq = [np.asarray(x) for x in seq]
        b = np.broadcast_shapes(*[x.shape[:-2] for x in seq])
        out = np.zeros(b + (sum(x.shape[-2] for x in seq), sum(x.shape[-1] for x in seq)), dtype=complex)
        i = j = 0
        for x in seq:
            p, q = x.shape[-2:]
            out[..., i : i + p, j : j + q] = x
            i, j = i + p, j + q
        return out

    def block_diag_args(self, *args):
        return self.block_diag(args)

    def mulirreps(self, name, k, A, m):
        from lie_nn._src.reduced_rep import MulIrrep

        out = []
        for i in range(k):
            r = self.rep(f"{name}{i}", A, m)
            out.append(MulIrrep(mul=int(self.rng.integers(0, 3)), rep=r))
        return out

    def matrix_powers(self, name, d):
        F = self.rng.normal(size=(int(d), int(d)))
        return lambda e: np.linalg.matrix_power(F, e)

    def nonzero(self, name, t):
        if np.any(np.abs(t) < 1e-9):
            raise Skip(name)

    def realalgebra(self, name="A", n=None):
        return self.algebra(name, n)

    def family(self, name, k, lo=0):
        key = (name, k)
        if key not in self.inputs:
            self.inputs[key] = lo + int(self.rng.integers(0, 3))
        return self.inputs[key]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def ensure(self, name, cond):
        self.checked += 1
        if not bool(cond):
            self.failures.append((name, "condition is false"))

    def equal(self, name, a, b, tol=1e-7):
        self.checked += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.failures.append((name, f"shapes {a.shape} and {b.shape}"))
            return
        if a.size == 0:
            return
        if a.dtype == object or b.dtype == object:
            if not np.all(a == b):
                self.failures.append((name, "different"))
            return
        err = np.max(np.abs(a - b)) if np.all(np.isfinite(a)) and np.all(np.isfinite(b)) else np.inf
        scale = 1 + max(np.max(np.abs(b)), 0)
        if not err <= (tol or 1e-7) * scale:
            self.failures.append((name, f"entries differ by {err}"))

    def zero(self, name, a):
        self.equal(name, a, np.zeros_like(np.asarray(a)))

    def shape(self, name, a, *dims):
        self.checked += 1
        if tuple(np.shape(a)) != tuple(int(d) for d in dims):
            self.failures.append((name, f"shape {np.shape(a)}, expected {dims}"))

    def raises(self, name, exc, f, *a, **k):
        self.checked += 1
        try:
            f(*a, **k)
        except exc:
            return
        self.failures.append((name, f"{exc.__name__} not raised"))

    def distinct(self, name, seq):
        self.checked += 1
        seq = list(itertools.islice(seq, 60))
        if any(x == y for i, x in enumerate(seq) for y in seq[:i]):
            self.failures.append((name, f"an item occurs twice in {seq}"))

    def increasing(self, name, seq):
        self.checked += 1
        seq = list(itertools.islice(seq, 60))
        bad = [(x, y) for i, y in enumerate(seq) for x in seq[:i] if not x < y or y < x]
        if bad:
            self.failures.append((name, f"{bad[0][0]!r} comes before {bad[0][1]!r} but is not smaller"))

    def table(self, name, n):
        return self.rng.integers(0, n, size=(n, n))

    def member(self, seq, x):
        return any(x == y for y in itertools.islice(seq, 20000))

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def total(self, name, seq, f, expected):
        self.checked += 1
        t = sum(f(x) for x in seq)
        if t != expected:
            self.failures.append((name, f"the sum is {t}, not {expected}"))

    def note(self, *a):
        pass


def run_concrete(con, seed, model=None, timeout=20):
    """one evaluation on the real code: None (skipped / fine) or a failure record"""
    from ..harness import time_limit

    rng = np.random.default_rng(seed)
    c = ConcCtx(rng, model)
    fn = con.fn
    st = np.random.get_state()
    np.random.seed(seed % 2**32)
    try:
        try:
            with time_limit(timeout):
                fn(c)
        except Skip:
            return None, 0
        except TimeoutError:
            return None, 0
        except Exception as e:  # the contract says the call returns
            tb = traceback.extract_tb(e.__traceback__)
            if not any("/lie_nn/" in f.filename for f in tb):
                if isinstance(e, (MemoryError,)):
                    return None, 0
                if isinstance(e, (AttributeError, ImportError)) and "module '" in str(e):
                    return None, 0  # a private helper named by the contract is gone: nothing to evaluate
                # the contract itself failed to evaluate the result (wrong structure)
                c.failures.append(("evaluation", f"{type(e).__name__}: {e} in {tb[-1].name}"))
            else:
                c.failures.append(("no exception", f"{type(e).__name__}: {e} in {tb[-1].name}"))
    finally:
        np.random.set_state(st)
    if c.failures:
        return dict(contract=con.name, seed=seed, model=model, inputs={str(k): str(v)[:300] for k, v in c.inputs.items() if not isinstance(v, np.ndarray)}, failures=c.failures[:5]), c.checked
    return None, c.checked
