"""AST interpreter for the source text of /repo over symbolic values.

Every function of lie_nn that is called is read from the file it was defined in (parsed on this run) and interpreted
statement by statement, unless the running contract replaces the call by the callee's own contract.
Anything without a rule raises Unsupported: the obligation is then undecided, never violated."""
from __future__ import annotations

import ast
import builtins
import functools
import inspect
import itertools
import os
import re
import types
from fractions import Fraction

import numpy as np

from .strings import Match, Num, Text, regex, text
from . import core
from .core import (
    FALSE, TRUE, C, IMAG, P, Solver, Unsupported, c_and, c_eq, c_le, c_lt, c_not, c_or, exists, fdiv, forall, fresh, in_range,
    inv, isym, pabs, pmax, pmin, pmod, sqrt, the_atom,
)
from .tensor import S, Alt, Atom, Axis, Prod, ShapeError, Sig, Tensor, sym_sum
from . import tensor as tn


class PyRaise(Exception):
    def __init__(self, cls, msg="", node=None):
        super().__init__(f"{cls.__name__}: {msg}")
        self.cls = cls
        self.msg = msg


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathDead(Exception):
    pass


class Obj:
    """instance of a class of the repository"""

    frozen = False  # it belongs to the caller

    def __init__(self, cls, attrs=None, model=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.model = model  # name -> function(interp, self, *args) (contract of an abstract class)

    def __repr__(self):
        return f"<{self.cls.__name__} {self.attrs}>"


class Bound:
    def __init__(self, func, self_, model=False):
        self.func, self.self_, self.model = func, self_, model


class Closure:
    def __init__(self, node, env, interp_globals, name="<lambda>", defaults=(), kwdefaults=None):
        self.node, self.env, self.globals, self.name = node, env, interp_globals, name
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}


class Seq:
    """a finite or infinite sequence: iteration space [(atom, lo, hi|None)] in lexicographic order; at every point the
    items [(guards, value)] whose guards hold, in order"""

    def __init__(self, space, items, kind="list"):
        self.space, self.items, self.kind = list(space), list(items), kind

    def single(self):
        return len(self.items) == 1 and self.items[0][0].t[0] == "t"

    def __repr__(self):
        return f"Seq({self.space}, {self.items})"


class Cat:
    """concatenation of parts (Seq or python list)"""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, Cat):
                self.parts += p.parts
            elif isinstance(p, (list, tuple)) and self.parts and isinstance(self.parts[-1], list):
                self.parts[-1] = self.parts[-1] + list(p)
            elif isinstance(p, (list, tuple)):
                if len(p):
                    self.parts.append(list(p))
            else:
                self.parts.append(p)


class SymSet:
    """a finite set of abstract elements (natural numbers): membership as a condition, and an unknown number of elements"""

    vsym = True

    def __init__(self, it, member, size=None, above=None, arity=None):
        self.arity = arity  # of pairs, ... of abstract elements
        self.member, self.size = member, size if size is not None else fresh("card")
        if size is None:
            it.assume(c_le(0, self.size))
        if above is not None:  # a superset of that one by construction: equal if it has no more elements
            it.assume(c_le(above.size, self.size))
            it.assume(c_or(c_lt(above.size, self.size), self.subset(above)))

    def element(self):
        return fresh("x") if self.arity is None else tuple(fresh("x") for _ in range(self.arity))

    def subset(self, o):
        x = self.element()
        if o.arity != self.arity:
            raise Unsupported("sets of different kinds")
        return forall([x] if self.arity is None else list(x), c_or(c_not(self.member(x)), o.member(x)))

    def seq(self):
        x = self.element()
        if self.arity is None:
            return Seq([(the_atom(x), P(), None)], [(self.member(x), x)], "set")
        return Seq([(the_atom(y), P.of(-1), None) for y in x], [(self.member(x), x)], "set")

    def method(self, it, name, args):
        if name in ("union", "__or__"):
            r = self
            for o in args:
                r = SymSet(it, lambda x, r=r, o=o: c_or(r.member(x), as_c(it.contains(o, x))), above=r, arity=self.arity)
            return r
        if name in ("intersection", "__and__") and len(args) == 1:
            return SymSet(it, lambda x: c_and(self.member(x), as_c(it.contains(args[0], x))), arity=self.arity)
        if name in ("difference", "__sub__") and len(args) == 1:
            return SymSet(it, lambda x: c_and(self.member(x), c_not(as_c(it.contains(args[0], x)))), arity=self.arity)
        if name == "copy" and not args:
            return self
        if name in ("issubset", "__le__") and len(args) == 1 and isinstance(args[0], SymSet):
            return self.subset(args[0])
        if name in ("issuperset", "__ge__") and len(args) == 1 and isinstance(args[0], SymSet):
            return args[0].subset(self)
        raise Unsupported(f"set.{name}")


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = P.of(lo), P.of(hi), step


class Opaque:
    """a value the property does not depend on (text of messages etc.)"""

    def __init__(self, what=""):
        self.what = what


class Poison:
    """the value of a variable that is not known here (set by the iterations of a symbolic loop)"""


class LoopList(list):
    """what the current iteration of a symbolic loop appends to a list; base: its length before the iteration"""

    def __init__(self, base):
        super().__init__()
        self.base, self.read = base, False

    def length(self):
        if self.base is None:
            raise Unsupported("length of a list that a symbolic loop builds")
        self.read = True
        return self.base + len(self)


SCAL = (int, float, complex, Fraction, np.generic)


def is_sym(v, seen=None):
    """contains symbolic parts"""
    if isinstance(v, (P, C, S, Tensor, Obj, Seq, Cat, SymRange, Closure, Bound, Opaque, LoopList)) or getattr(v, "vsym", False) is True:
        return True
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(is_sym(x) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x) for x in v.values()) or any(is_sym(x) for x in v)
    if isinstance(v, slice):
        return is_sym(v.start) or is_sym(v.stop) or is_sym(v.step)
    return False


_files = {}


def load_file(path):
    if path not in _files:
        with open(path) as f:
            tree = ast.parse(f.read())
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                idx.setdefault((getattr(n, "name", "<lambda>"), line), n)
        _files[path] = idx
    return _files[path]


def func_ast(f):
    code = f.__code__
    idx = load_file(code.co_filename)
    n = idx.get((code.co_name, code.co_firstlineno))
    if n is None:
        raise Unsupported(f"no source for {f.__qualname__}")
    return n


def qual(f):
    return f"{f.__module__}:{f.__qualname__}"


def unwrap(f):
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    return f


class Interp:
    def __init__(self, solver=None, repo=None, prover=None):
        self.factors = {}
        self.solver = solver or Solver()
        self.repo = repo
        self.pc = []
        self.dec = []
        self.depth = 0
        self.pos = 0
        self.overrides = {}  # qualified name -> function(interp, *args, **kwargs): callee contracts
        self.loop_atoms = set()
        self.element_length = None
        self.lib_overrides = {}  # the same for library functions that have a model
        self.invariants = {}  # (qualified name, loop ordinal) -> LoopSpec
        self.functions = {}  # interpreted functions -> number of calls
        self.obligations = []
        self.depth = 0
        self.yields = None
        self.prover = prover
        self.lane = False
        self.skip_stores = 0
        self.call_stack = []
        self.hyp_unitary = set()
        self.lazy = []  # values that the code may consume only once
        self.framed = []  # changes of what does not belong to the code under proof
        self.selections, self.select_fns = [], {}  # boolean masks used as indices
        from . import npmodel

        self.models = npmodel.build(self)
        self.np = npmodel

    # --- path exploration ---------------------------------------------------------------------
    def assume(self, *cs):
        for c in cs:
            if c.t[0] == "t":
                continue
            self.pc.append(c)

    def entails(self, c):
        return self.solver.entails(tuple(self.pc), c)

    def branch(self, c):
        if c.t[0] == "t":
            return True
        if c.t[0] == "f":
            return False
        if self.pos < len(self.dec):
            v, forced, cond = self.dec[self.pos]
            self.pos += 1
            if self.depth == 1 and cond != c:
                raise Unsupported(f"engine: replay diverged ({cond} / {c})")
            if not forced:
                self.pc.append(c if v else c_not(c))
            return v
        a = self.solver.check(tuple(self.pc) + (c,)) != "unsat"
        b = self.solver.check(tuple(self.pc) + (c_not(c),)) != "unsat"
        if not a and not b:
            raise PathDead()
        self.dec.append((a, not (a and b), c))
        self.pos += 1
        if a and b:
            self.pc.append(c)
        return a

    def choice(self):
        """unconstrained binary choice"""
        if self.pos < len(self.dec):
            v = self.dec[self.pos][0]
        else:
            v = True
            self.dec.append((v, False, None))
        self.pos += 1
        return v

    def explore(self, thunk, max_paths=400):
        saved = (self.pc, self.dec, self.pos)
        base = list(self.pc)
        out = []
        stack = [[]]
        ctx = getattr(self, "ctx", None)
        seen = list(ctx.compared) if ctx is not None else []
        self.depth += 1
        try:
            while stack:
                prefix = stack.pop()
                if ctx is not None:
                    ctx.compared = list(seen)
                self.pc, self.dec, self.pos = list(base), list(prefix), 0
                try:
                    r = ("ok", thunk())
                except PyRaise as e:
                    r = ("raise", e)
                except PathDead:
                    r = None
                for k in range(len(prefix), len(self.dec)):
                    if not self.dec[k][1]:
                        stack.append(self.dec[:k] + [(not self.dec[k][0], False, self.dec[k][2])])
                if r is not None and self.solver.check(tuple(self.pc)) == "unsat":
                    raise Unsupported("engine: contradictory path")
                if r is not None:
                    out.append((self.pc[len(base) :], r))
                if len(out) + len(stack) > max_paths:
                    raise Unsupported("too many paths")
        finally:
            self.depth -= 1
            self.pc, self.dec, self.pos = saved
            if ctx is not None:
                ctx.compared = seen
        return out

    def truth(self, v):
        if isinstance(v, C):
            return self.branch(v)
        if isinstance(v, P):
            return self.branch(c_not(c_eq(v, 0)))
        if isinstance(v, Tensor):
            if v.ndim == 0:
                e = v.at()
                if isinstance(e, C):
                    return self.branch(e)
                p = e.scalar()
                if p is not None:
                    return self.branch(c_not(c_eq(p, 0)))
            raise Unsupported("truth value of an array")
        if isinstance(v, Seq):
            raise Unsupported("truth value of a symbolic sequence")
        if isinstance(v, Text):
            if any(isinstance(p, (str, Num)) for p in v.parts):
                return True
            raise Unsupported("truth value of a text")
        if isinstance(v, (Obj, Closure, Bound, Opaque)):
            return True
        return bool(v)

    def prover_scalar(self, e):
        """a sum that the rules of the contract turn into a plain value"""
        if self.prover is None or not self.prover.rules:
            return None
        ctx = tuple(self.pc)
        self.prover._ctx = ctx
        r = P()
        for (gs, bs, m), co in self.prover.collect(list(e.ts), ctx, {}).items():
            if gs or bs:
                return None
            r = r + P({m: P.of(co).const()})
        return r

    def same(self, a, b):
        a, b = P.of(a), P.of(b)
        return a == b or ((a.is_int() and b.is_int()) and self.entails(c_eq(a, b)))

    # --- calls ----------------------------------------------------------------------------------
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Opaque):
            return Opaque()
        if isinstance(f, Bound):
            if f.model:
                return f.func(self, f.self_, *args, **kw)
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + args, {**f.keywords, **kw})
        if isinstance(f, types.MethodType) and getattr(f.__self__, "vsym_ctx", False):
            return f(*args, **kw)
        try:
            if f in self.lib_overrides and (is_sym(args) or is_sym(kw)):
                return self.lib_overrides[f](self, *args, **kw)
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None and (getattr(m, "always", False) or is_sym(args) or is_sym(kw)):
            return m(*args, **kw)
        if isinstance(f, types.MethodType) and getattr(f.__self__, "vsym_ctx", False):
            return f(*args, **kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kw)
        if type(f).__name__ == "Dispatcher" and hasattr(f, "dispatch"):
            key = "dispatch:" + f.name
            if key in self.overrides:
                return self.overrides[key](self, *args, **kw)
            target = self.dispatch(f, args)
            return self.call(target, args, kw)
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        g = unwrap(f)
        if isinstance(g, types.FunctionType):
            q = qual(g)
            if q in self.overrides:
                return self.overrides[q](self, *args, **kw)
            k = f"{q}@{g.__code__.co_firstlineno}"
            if k in self.overrides:
                return self.overrides[k](self, *args, **kw)
            if self.is_repo(g):
                if not is_sym(args) and not is_sym(kw) and not self.force_interp(q) and not g.__code__.co_flags & 0x20 and not getattr(getattr(self, 'ctx', None), 'local_overrides', ()):
                    try:
                        return f(*args, **kw)
                    except (Unsupported, PyRaise, ReturnEx, PathDead):
                        raise
                    except Exception as e:
                        raise PyRaise(type(e), str(e))
                return self.call_func(g, args, kw)
        if not is_sym(args) and not is_sym(kw):
            try:
                return f(*args, **kw)
            except (Unsupported, PyRaise, ReturnEx, PathDead):
                raise
            except Exception as e:
                raise PyRaise(type(e), str(e))
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, re.Pattern) and f.__name__ in ("match", "fullmatch") and len(args) == 1 and isinstance(args[0], Text):
            return regex(f.__name__, f.__self__, args[0])
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, str) and f.__name__ == "join" and len(args) == 1 and isinstance(args[0], (list, tuple)) and all(isinstance(x, (str, Text)) for x in args[0]):
            return text(sum([[x, f.__self__] for x in args[0]], [])[:-1])
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, str) and f.__name__ in ("join", "format"):
            return Opaque("text")
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, set) and f.__name__ == "add" and len(args) == 1 and isinstance(args[0], (P, int)):
            # the elements of the python set stay pairwise different on each path
            if all(isinstance(x, (P, int)) for x in f.__self__):
                if not any(self.branch(c_eq(P.of(x), P.of(args[0]))) for x in sorted(f.__self__, key=repr)):
                    f.__self__.add(P.of(args[0]))
                return None
        raise Unsupported(f"call of {getattr(f, '__name__', f)} on symbolic values")

    always_interp = ()

    def force_interp(self, q):
        return q in self.always_interp

    def is_repo(self, g):
        return (g.__module__ or "").split(".")[0] in ("lie_nn", "contracts") and not g.__code__.co_filename.startswith("<")

    def dispatch(self, d, args):
        ts = tuple(self.type_of(a) for a in args)
        r = d.dispatch(*ts)
        if r is None:
            raise PyRaise(NotImplementedError, f"no implementation of {d.name} for {ts}")
        return r

    def type_of(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Tensor):
            return np.ndarray
        if isinstance(v, P):
            return int if v.is_int() else float
        if isinstance(v, C):
            return bool
        if isinstance(v, Text):
            return str
        if isinstance(v, (Seq, Cat)):
            return tuple if getattr(v, "kind", "") == "tuple" else list
        return type(v)

    def instantiate(self, cls, args, kw):
        if cls in (int, float, bool, tuple, list, set, str, frozenset, dict, complex, range, zip, map, enumerate, reversed, Fraction):
            m = self.models.get(cls)
            if m is not None:
                return m(*args, **kw)
        if cls is dict and not args:
            return dict(kw)
        if not (cls.__module__ or "").startswith("lie_nn") and not cls.__module__.startswith("vsym"):
            if not is_sym(args) and not is_sym(kw):
                return cls(*args, **kw)
            raise Unsupported(f"instantiating {cls.__name__}")
        o = Obj(cls, {})
        init = cls.__init__
        import dataclasses

        if dataclasses.is_dataclass(cls) and getattr(init, "__code__", None) is not None and not os.path.exists(init.__code__.co_filename):
            fields = [f for f in dataclasses.fields(cls) if f.init]
            if len(args) > len(fields):
                raise PyRaise(TypeError, "too many arguments")
            vals = dict(zip([f.name for f in fields], args))
            for k, v in kw.items():
                if k in vals or k not in [f.name for f in fields]:
                    raise PyRaise(TypeError, f"argument {k}")
                vals[k] = v
            for f in fields:
                if f.name not in vals:
                    if f.default is not dataclasses.MISSING:
                        vals[f.name] = f.default
                    else:
                        raise PyRaise(TypeError, f"missing {f.name}")
            o.attrs.update(vals)
            if hasattr(cls, "__post_init__"):
                self.call(cls.__post_init__, [o])
            return o
        if issubclass(cls, tuple):  # NamedTuple
            fs = cls._fields
            vals = dict(zip(fs, args))
            vals.update(kw)
            o.attrs.update(vals)
            return o
        if init is object.__init__:
            return o
        self.call(init, [o] + list(args), kw)
        return o

    def bind(self, a, args, kw, defaults, kwdefaults, name):
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for k, n in enumerate(pos):
            if k < len(args):
                env[n] = args[k]
        if len(args) > len(pos):
            if not a.vararg:
                raise PyRaise(TypeError, f"{name}() takes {len(pos)} arguments")
            rest = args[len(pos) :]
            env[a.vararg.arg] = rest[0].seq if len(rest) == 1 and isinstance(rest[0], StarSeq) else tuple(rest)
            if any(isinstance(x, StarSeq) for x in args[: len(pos)]) or (len(rest) > 1 and any(isinstance(x, StarSeq) for x in rest)):
                raise Unsupported("a symbolic number of arguments")
        elif a.vararg:
            env[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise(TypeError, f"{name}() got multiple values for {k}")
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError, f"{name}() got an unexpected keyword argument {k}")
        if a.kwarg:
            env[a.kwarg.arg] = extra
        nd = len(defaults)
        for k, n in enumerate(pos):
            if n not in env:
                j = k - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(TypeError, f"{name}() missing argument {n}")
                env[n] = defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in kwdefaults:
                    env[x.arg] = kwdefaults[x.arg]
                else:
                    raise PyRaise(TypeError, f"{name}() missing keyword argument {x.arg}")
        return env

    def call_func(self, g, args, kw):
        node = func_ast(g)
        q = qual(g)
        self.functions[q] = self.functions.get(q, 0) + 1
        glob = g.__globals__
        closure = {}
        if g.__closure__:
            for n, c in zip(g.__code__.co_freevars, g.__closure__):
                try:
                    closure[n] = c.cell_contents
                except ValueError:
                    pass
        env0 = Env(closure, None, glob)
        loc = self.bind(node.args, args, kw, g.__defaults__ or (), g.__kwdefaults__ or {}, g.__name__)
        if self.lazy and isinstance(node, ast.FunctionDef) and str(glob.get("__name__")).startswith("lie_nn"):
            names = {n for n, v in loc.items() if self.is_lazy(v)}
            if names and read_again(node, names):
                raise Unsupported("an iterator that may be consumed twice")
        return self.run_body(node, Env(loc, env0, glob), q)

    def call_closure(self, f, args, kw):
        loc = self.bind(f.node.args, args, kw, f.defaults, f.kwdefaults, f.name)
        return self.run_body(f.node, Env(loc, f.env, f.globals), f.name)

    def run_body(self, node, env, q):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion depth")
        saved = self.yields
        self.call_stack.append([q, 0, node])
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if has_yield(node):
                return self.run_generator(node, env)
            try:
                self.exec_block(node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.yields = saved
            self.call_stack.pop()

    def run_generator(self, node, env):
        """the sequence of yielded values (the body must not have side effects)"""
        self.yields = []
        try:
            self.exec_block(node.body, env)
        except ReturnEx:
            pass
        y = as_seq(self.yields, "generator")
        self.lazy.append(y)
        return y

    # --- statements -------------------------------------------------------------------------------
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        try:
            return m(s, env)
        except ShapeError as e:
            raise PyRaise(ValueError, f"shapes: {e} (line {s.lineno})")

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.yields.append((TRUE, self.eval(s.value.value, env)))
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise ReturnEx(self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise BreakEx()

    def s_Continue(self, s, env):
        raise ContinueEx()

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError, ast.unparse(s.test)[:100])

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = s.exc
        cls = self.eval(e.func if isinstance(e, ast.Call) else e, env)
        raise PyRaise(cls if isinstance(cls, type) else type(cls), ast.unparse(e)[:100])

    def s_Import(self, s, env):
        for a in s.names:
            import importlib

            m = importlib.import_module(a.name)
            env.set(a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        import importlib

        pkg = env.globals.get("__package__")
        m = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for a in s.names:
            v = getattr(m, a.name, None)
            env.set(a.asname or a.name, v if v is not None else importlib.import_module((s.module or "") + "." + a.name))

    def s_FunctionDef(self, s, env):
        env.set(s.name, Closure(s, env, env.globals, s.name, [self.eval(d, env) for d in s.args.defaults],
                                {a.arg: self.eval(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}))

    def s_With(self, s, env):
        for i in s.items:
            src = ast.unparse(i.context_expr)
            if not src.startswith("np.errstate"):
                raise Unsupported("with " + src)
        self.exec_block(s.body, env)

    def s_Try(self, s, env):
        if s.finalbody or s.orelse:
            raise Unsupported("try/finally")
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                t = self.eval(h.type, env) if h.type else Exception
                if issubclass(e.cls, t):
                    if h.name:
                        env.set(h.name, Opaque("exception"))
                    self.exec_block(h.body, env)
                    return
            raise

    def s_Delete(self, s, env):
        raise Unsupported("del")

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_Assign(self, s, env):
        if isinstance(s.value, ast.GeneratorExp) and self.call_stack and len(self.call_stack[-1]) > 2:
            later = [x for x in self.call_stack[-1][2].body if getattr(x, "end_lineno", 0) > s.end_lineno]
            if {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & (assigned_names(later) | mutated_names(later)):
                raise Unsupported("a generator expression that is not consumed at once")
        lazy = isinstance(s.value, ast.GeneratorExp) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("zip", "map", "filter", "enumerate", "reversed", "iter")
        if lazy and self.call_stack and isinstance(self.call_stack[-1][2], ast.FunctionDef) and used_again(self.call_stack[-1][2], s):
            raise Unsupported("an iterator that may be consumed twice")
        v = self.eval(s.value, env)
        if not (isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("list", "tuple", "sorted")):
            if self.is_lazy(v) and self.call_stack and not str(env.globals.get("__name__")).startswith("contracts") and isinstance(self.call_stack[-1][2], ast.FunctionDef) and used_again(self.call_stack[-1][2], s):
                raise Unsupported("an iterator that may be consumed twice")
        for t in s.targets:
            self.assign(t, v, env)

    def is_lazy(self, v):
        return any(v is x for x in self.lazy)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if not isinstance(o, Obj):
                raise Unsupported("attribute assignment")
            if o.frozen:
                self.frame(f"attribute {t.attr} of an argument is assigned")
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            if isinstance(o, np.ndarray) and (is_sym(v) or is_sym(i)) and isinstance(t.value, ast.Name) and env.owner(t.value.id) is env:
                o = self.np.from_numpy(o)
                o.view = False
                env.set(t.value.id, o)
            self.setitem(o, i, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, t):
        if any(isinstance(x, ast.Starred) for x in t.elts):
            raise Unsupported("starred assignment")
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise(ValueError, "unpack")
            return v
        if isinstance(v, Tensor) and v.ndim >= 1:
            d = v.axes[0].dim()
            if d == P.of(n):
                return [self.getitem(v, k) for k in range(n)]
            if d.is_const():
                raise PyRaise(ValueError, "unpack")
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Obj) and issubclass(v.cls, tuple):
            return list(v.attrs.values())
        raise Unsupported("unpacking")

    def s_AugAssign(self, s, env):
        op = type(s.op)
        cur = self.eval(s.target, env)
        v = self.eval(s.value, env)
        if op is ast.Add and isinstance(cur, list):
            if isinstance(v, (list, tuple)):
                cur.extend(v)
                return
            r = Cat([cur, v])
            self.assign(s.target, r, env)
            return
        if isinstance(s.target, ast.Name) and isinstance(cur, Tensor):
            r = self.binop(op, cur, v)
            if r.key() != cur.key():
                raise PyRaise(ValueError, "in-place broadcasting")
            self.writes_to(cur, env)
            if getattr(cur, "loopvar", False):
                raise Unsupported("whole-array update in a symbolic loop")
            cur2 = Tensor(cur.axes, r.f, cur.dtype)
            if tn.ORDER[r.dtype] > tn.ORDER[cur.dtype]:
                raise PyRaise(TypeError, "in-place update cannot cast")
            cur.update(cur2.f)
            return
        self.assign(s.target, self.binop(op, cur, v), env)

    def frame(self, what):
        """the code modifies something it does not own"""
        self.framed.append(what)
        self.ctx.res.add("the inputs are not modified", "refuted", what)

    def writes_to(self, t, env):
        """in-place change of all entries of t: of an array of its own, or of a view of one that nothing else refers to"""
        r = t.root()
        if r.owner:
            self.frame("an array that belongs to the caller is modified in place")
            return
        if not t.view:
            return
        def refers(v, depth=0):
            if v is t:
                return False
            if isinstance(v, Tensor):
                return v.root() is r
            if depth > 4:
                return True
            if isinstance(v, (list, tuple)):
                return any(refers(x, depth + 1) for x in v)
            if isinstance(v, dict):
                return any(refers(x, depth + 1) for x in v.values())
            if isinstance(v, Obj):
                return any(refers(x, depth + 1) for x in v.attrs.values())
            if isinstance(v, Seq):
                return any(refers(x, depth + 1) for _, x in v.items)
            if isinstance(v, Cat):
                return any(refers(x, depth + 1) for x in v.parts)
            return False

        while env is not None:
            if any(refers(v) for v in env.vars.values()):
                raise Unsupported("in-place update of a view")
            env = env.parent

    def cast_store(self, dst, src):
        if dst.dtype == "real" and src.dtype == "complex":
            return Tensor(src.axes, lambda *i: real_part(src.f(*i)), "real")
        raise Unsupported(f"storing {src.dtype} into {dst.dtype}")

    # --- loops --------------------------------------------------------------------------------
    def loop_id(self, node):
        q = self.call_stack[-1]
        return q[0]

    def s_While(self, s, env):
        spec = self.find_spec(s)
        if spec is not None:
            return self.loop_with_invariant(s, env, spec, lambda: self.truth(self.eval(s.test, env)), None)
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 64:
                raise Unsupported("while loop without invariant")
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(s.orelse, env)

    def find_spec(self, s):
        q = self.call_stack[-1][0]
        for (name, key), spec in self.invariants.items():
            if name == q and spec.matches(s) and not getattr(spec, "active", False):
                return spec
        return None

    def loop_with_invariant(self, s, env, spec, test, advance):
        spec.enter(self, env)
        for n, c in spec.inv(self, env):
            self.oblige(f"{spec.name}: invariant '{n}' holds on entry", c)
        havocked = spec.havoc(self, env)
        tested = [ast.Expr(s.test)] if isinstance(s, ast.While) else []
        if havocked is not None:
            for n in sorted(assigned_names(s.body) | mutated_names(s.body)):
                if env.has(n) and n not in havocked:
                    if carried(tested + s.body, n):
                        raise Unsupported(f"{spec.name}: the loop changes {n}, the invariant does not mention it")
                    env.vars[n] = Poison()
        for n, c in spec.inv(self, env):
            if c.t[0] == "f":
                raise PathDead()  # a case in which the invariant does not hold
            self.assume(c)
        if self.solver.check(tuple(self.pc)) == "unsat":
            raise Unsupported(f"{spec.name}: the invariant is contradictory")
        if getattr(spec, "_facts", None):
            self.call(spec._facts, [dict(env.vars)])
        if test():
            v0, before = spec.variant(self, env), dict(env.vars)
            held = contents(env, havocked or env.names())
            try:
                self.exec_block(s.body, env)
                held_unchanged(held)
            except ContinueEx:
                held_unchanged(held)
            except BreakEx:
                spec.leave(self, env, "break")
                return
            if advance:
                advance()
            for n, c in spec.inv(self, env):
                self.oblige(f"{spec.name}: invariant '{n}' is preserved", c)
            if getattr(spec, "_step", None):
                for n, c in self.call(spec._step, [before, dict(env.vars)]):
                    self.oblige(f"{spec.name}: {n}", as_c(c))
            if v0 is not None:
                v1 = spec.variant(self, env)
                self.oblige(f"{spec.name}: the variant decreases", c_and(c_lt(v1, v0), c_le(0, v0)))
            raise PathDead()
        spec.leave(self, env, "exit")

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        spec = self.find_spec(s)
        if spec is not None and getattr(spec, "for_loop", None):
            return spec.for_loop(self, s, env, it)
        items = self.concrete_items(it)
        if items is not None:
            for x in items:
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(s.orelse, env)
            return
        if s.orelse and not leaves(s.body):
            raise Unsupported("for/else over a symbolic range")
        self.summarise_for(s, env, it)

    def concrete_items(self, it):
        """a python list of the items if the number of items is known"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, (range, dict, set, frozenset, str)):
            return list(it)
        if isinstance(it, SymRange):
            n = it.hi - it.lo
            if n.is_const() and it.step == 1:
                return [it.lo + k for k in range(max(0, int(n.const())))]
            return None
        if isinstance(it, Seq):
            if not it.space and all(g.t[0] == "t" for g, _ in it.items):
                return [v for _, v in it.items]
            return None
        if isinstance(it, Cat):
            out = []
            for p in it.parts:
                q = self.concrete_items(p)
                if q is None:
                    return None
                out += q
            return out
        if isinstance(it, Tensor):
            d = it.axes[0].dim()
            if d.is_const():
                return [self.getitem(it, k) for k in range(int(d.const()))]
            return None
        if isinstance(it, Obj) and issubclass(it.cls, tuple):
            return list(it.attrs.values())
        if isinstance(it, np.ndarray):
            return list(it)
        if isinstance(it, (P, Obj, Closure)):
            raise PyRaise(TypeError, "not iterable")
        if isinstance(it, (type({}.items()), type({}.keys()), type({}.values()))):
            return list(it)
        if hasattr(it, "__next__") or isinstance(it, (zip, map, enumerate, reversed)):
            if isinstance(it, itertools.count):
                return None
            return list(it)
        if isinstance(it, types.GeneratorType):
            return list(it)
        return None

    def seq_of(self, it):
        """a symbolic sequence: list of (space, [(guard, value)])"""
        if isinstance(it, SymRange):
            if it.step == 1:
                a = fresh("n")
                return Seq([(the_atom(a), it.lo, it.hi)], [(TRUE, a)])
            if isinstance(it.step, int) and it.step > 0:
                a = fresh("n")
                cnt = fdiv(it.hi - it.lo + (it.step - 1), it.step)
                return Seq([(the_atom(a), P(), pmax(cnt, 0) if not self.entails(c_le(0, cnt)) else cnt)], [(TRUE, it.lo + it.step * a)])
            if it.step == -1:
                a = fresh("n")
                return Seq([(the_atom(a), P(), it.lo - it.hi)], [(TRUE, it.lo - a)])
            raise Unsupported("range step")
        if isinstance(it, itertools.count):
            start, step = eval(repr(it).replace("count", "_c"), {"_c": lambda a, b=1: (a, b)})
            a = fresh("n")
            return Seq([(the_atom(a), P(), None)], [(TRUE, P.of(start) + step * a)])
        if isinstance(it, Seq):
            return it
        if isinstance(it, Cat) and len(it.parts) == 1 and isinstance(it.parts[0], Seq):
            return it.parts[0]
        if isinstance(it, SymSet):
            return it.seq()
        if isinstance(it, Tensor):
            ax = it.axes[0]
            if not isinstance(ax, Atom):
                raise Unsupported("iteration over a structured axis")
            a = fresh("n")
            return Seq([(the_atom(a), P(), ax.n)], [(TRUE, tn.sub_axis_index(it, 0, a))])
        items = self.concrete_items(it)
        if items is not None:
            return Seq([], [(TRUE, x) for x in items])
        raise Unsupported(f"iteration over {type(it).__name__}")

    def search_loop(self, s, env, seq):
        """a loop whose iterations only look for a reason to leave it (return, break, exception): either no item gives one,
        or some item does (for a range: the first such item)"""
        names = assigned_names(s.body) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if mutated_names(s.body) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Global, ast.Nonlocal)) for b in s.body for n in ast.walk(b)):
            raise Unsupported("break/return in a symbolic loop that has effects")
        if len(seq.items) != 1:
            raise Unsupported("break/return in a loop over several parts")
        no_iterators(env, {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)})
        held = contents(env)
        yields = self.yields

        def body(q, e, names=names):
            """execute the body for an arbitrary item: the way in which it leaves the loop, or None"""
            gone = {n: Poison() for n in names}
            e.vars.update(gone)
            self.loop_atoms |= {a for a, _, _ in q.space}
            self.assume(*[in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in q.space], q.items[0][0])
            self.assign(s.target, q.items[0][1], e)
            try:
                self.exec_block(s.body, e)
            except ContinueEx:
                pass
            except (ReturnEx, BreakEx, PyRaise) as ex:
                return ex
            finally:
                held_unchanged(held)
            changed.update(n for n in names if e.vars.get(n) is not gone[n])
            return None

        changed = set()
        kept = {n: env.vars[n] for n in names if n in env.vars}
        env.vars.update({n: Poison() for n in kept})
        mark = core._fresh[0]
        q = freshen(seq)
        out = []
        try:
            for pc, (st, r) in self.explore(lambda: body(q, Env({}, env, env.globals))):
                if st != "ok":
                    raise Unsupported(f"exception inside a symbolic loop: {r}")
                if r is not None:
                    out.append(c_and(*pc))
        finally:
            self.yields = yields
            env.vars.update(kept)
        why = c_or(*out)
        own = set()
        for a in why.deep_atoms():
            if a[0] == "r":
                raise Unsupported("a symbolic loop is left for a reason that involves unknown numbers")
            if a[0] == "i" and "!" in a[1] and int(a[1].rsplit("!", 1)[1]) > mark:
                if a not in self.loop_atoms:
                    raise Unsupported("a symbolic loop is left for a reason that involves unknown values")
                own.add(a)
        own = sorted(own)
        if not self.choice():
            self.assume(core.forall([P.atom(a) for a in own], c_not(why)) if own else c_not(why))
            for n in changed:
                env.vars[n] = Poison()
            if self.solver.check(tuple(self.pc)) == "unsat":
                raise PathDead()
            self.exec_block(s.orelse, env)
            return
        w = freshen(seq)
        if len(q.space) == 1 and own and seq.kind != "set":
            x, y = P.atom(q.space[0][0]), P.atom(w.space[0][0])
            self.assume(core.forall([P.atom(a) for a in own], c_or(c_le(y, x), c_not(why))))
        ex = body(w, env, changed)
        if ex is None or self.solver.check(tuple(self.pc)) == "unsat":
            raise PathDead()
        if isinstance(ex, BreakEx):
            return
        raise ex

    def summarise_for(self, s, env, it):
        seq = freshen(self.seq_of(it))
        if leaves(s.body):
            return self.search_loop(s, env, seq)
        if not seq.single():
            if len(seq.items) == 1 and not assigned_names(s.body) and not s.orelse:  # assertions on the items
                return self.search_loop(s, env, seq)
            raise Unsupported("loop over a guarded sequence")
        writes = assigned_names(s.body)
        base_yields = self.yields
        snapshot = {n: env.peek(n) for n in writes if env.has(n)}
        accs = {}  # name -> loop variable
        for n, v in snapshot.items():
            if isinstance(v, (P, int, Fraction)) and not isinstance(v, bool) and reads_before_write(s.body, n) and carried(s.body, n):
                accs[n] = (v, fresh("acc_" + n))
        mutated = mutated_names(s.body)
        lists = {n: env.peek(n) for n in mutated | writes if env.has(n) and isinstance(env.peek(n), (list, Cat)) and carried(s.body, n)}
        tens = {n: env.peek(n) for n in mutated if env.has(n) and isinstance(env.peek(n), (Tensor, np.ndarray))}
        for n in lists:
            if reads_list(s.body, n):
                raise Unsupported(f"list {n} is read and written in a symbolic loop")
        loads = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        for n in mutated & (set(lists) | set(tens)):
            mine = env.peek(n)
            if any(v is mine for _, v, _ in contents(env, {m for m in env.names() if m not in loads or m == n})):
                raise Unsupported(f"{n} is written in a symbolic loop and known by another name")
        held = contents(env)
        no_iterators(env, loads)
        for n, t in list(tens.items()):
            if isinstance(t, np.ndarray):
                tens[n] = self.np.from_numpy(t)

        for n in tens:
            if reads_array(s.body, n):
                raise Unsupported(f"array {n} is read and written in a symbolic loop")

        built = {}

        def before(old):
            """the number of items before this iteration, if each iteration adds one (checked below)"""
            if isinstance(old, LoopList) or len(seq.space) != 1 or seq.items[0][0] is not TRUE:
                return None
            return P.of(self.call(len, [old])) + P.atom(seq.space[0][0]) - seq.space[0][1]

        def one():
            loc = Env({}, env, env.globals)
            rec = {}
            for n, (v, a) in accs.items():
                loc.vars[n] = pre.get(n, a)
            for n in writes:
                if n not in accs and n not in tens:
                    loc.vars[n] = Poison()
            if late and self.skip_stores < 1 or mode[0] == "first":
                if mode[0] == "first":
                    self.assume(c_eq(P.atom(seq.space[0][0]), seq.space[0][1]))
                    initial = True
                else:
                    initial = self.branch(c_eq(P.atom(seq.space[0][0]), seq.space[0][1]))
                for n in late:
                    loc.vars[n] = env.peek(n) if initial else late[n]
            for n, old in lists.items():
                loc.vars[n] = LoopList(before(old))
                built[n] = built.get(n, []) + [loc.vars[n]]
            stores = {}
            for n, t in tens.items():
                w = Tensor(t.axes, t.f, t.dtype)
                w.loopvar = True
                w.log = []
                loc.vars[n] = w
                stores[n] = w
            self.yields = []
            self.assume(*[in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in seq.space])
            self.assume(*facts)
            val = seq.items[0][1]
            self.assign(s.target, val, loc)
            try:
                self.exec_block(s.body, loc)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx):
                raise Unsupported("break/return in a loop over a symbolic range")
            finally:
                held_unchanged(held)
            for n, w in stores.items():
                if loc.vars[n] is not w and not isinstance(loc.vars[n], Tensor):
                    raise Unsupported("array rebound in a symbolic loop")
            if mode[0] == "first":
                return {n: loc.vars[n] for n in late}
            for n, v in late.items():
                if not initial and not same_value(loc.vars[n], v):
                    raise Unsupported(f"{n} changes in a symbolic loop")
            upd = {n: loc.vars[n] for n in accs}
            lst = {n: list(loc.vars[n]) if isinstance(loc.vars[n], LoopList) else loc.vars[n] for n in lists}
            return upd, lst, {n: w.log for n, w in stores.items()}, self.yields

        facts = []
        pre = {}
        mode = ["any"]
        # variables that the first iteration sets and the later ones keep
        late = {n: None for n in writes if env.has(n) and not isinstance(env.peek(n), Poison) and n not in accs and n not in lists and n not in tens and carried(s.body, n)}
        if late and len(seq.space) == 1 and seq.items[0][0] is TRUE and not accs:
            mode[0] = "first"
            try:
                first = self.explore(one)
            finally:
                mode[0] = "any"
                self.yields = base_yields
            if any(r[0] != "ok" for _, r in first) or not first:
                raise Unsupported("exception in the first iteration of a symbolic loop")
            for n in late:
                vs = [vsubst(r[1][n], {seq.space[0][0]: seq.space[0][1]}) for _, r in first]
                if isinstance(vs[0], (list, dict, set, Tensor, np.ndarray)) and n in mutated or not all(same_value(v, vs[0]) for v in vs):
                    raise Unsupported(f"{n} changes in a symbolic loop")
                late[n] = vs[0]
        else:
            late = {}
        if accs and len(seq.space) == 1 and seq.space[0][2] is not None:
            # first pass without array stores: the increments of the accumulators, for their closed forms (prefix sums)
            self.skip_stores += 1
            try:
                first = self.explore(one)
            except Unsupported:
                first = []
            finally:
                self.skip_stores -= 1
                self.yields = base_yields
            first = [r[1] for _, r in first if r[0] == "ok"]
            # candidates, verified below
            if first and all(same_value(P.of(f[0][n]) - accs[n][1], P.of(first[0][0][n]) - accs[n][1]) for f in first for n in accs if isinstance(f[0][n], (P, int)) and isinstance(first[0][0][n], (P, int))):
                upd = first[0][0]
                mine = {the_atom(a) for v, a in accs.values()}
                a0, lo0, hi0 = seq.space[0]
                for n, (v, a) in accs.items():
                    if not isinstance(upd[n], (P, int)):
                        continue
                    d = P.of(upd[n]) - a
                    if d.deep_atoms() & mine or not d.is_int():
                        continue
                    here = P.of(v) + prefix_sum(seq.space, d)
                    pre[n] = here
                    if self.solver.entails(tuple(self.pc) + (in_range(P.atom(a0), lo0, hi0),), c_le(0, d)):
                        facts += [c_le(v, here), c_le(here + d, P.of(v) + sym_sum(seq.space, d))]
                if len(pre) < len(accs):
                    pre, facts = {}, []
        paths = self.explore(one)
        self.yields = base_yields
        res = []
        for pc, (st, r) in paths:
            if st == "raise":
                raise Unsupported(f"exception inside a symbolic loop: {r}")
            conds = c_and(*[c for c in pc if not is_range_of(c, seq) and c not in facts])
            res.append((conds, r))
        # scalar accumulators
        if accs:
            if len(res) != 1:
                raise Unsupported("conditional accumulator")
            upd = res[0][1][0]
            atoms = {the_atom(a): n for n, (v, a) in accs.items()}
            closed = {}
            for n, (v, a) in accs.items():
                if not isinstance(upd[n], (P, int, Fraction)):
                    raise Unsupported("accumulator type")
                d = P.of(upd[n]) - pre.get(n, a)
                if d.deep_atoms() & atoms.keys():
                    raise Unsupported(f"accumulator {n} is not a prefix sum")
                closed[n] = (v, d)
            # prefix sums at the current iteration, and totals
            sub = {}
            for n, (v, d) in closed.items():
                here = P.of(v) + prefix_sum(seq.space, d)
                if n in pre and pre[n] != here:
                    raise Unsupported(f"accumulator {n} is not a prefix sum")
                sub[the_atom(accs[n][1])] = here
            for n, (v, d) in closed.items():
                if any(hi is None for _, _, hi in seq.space):
                    raise Unsupported("infinite loop with accumulator")
                env.assign_up(n, P.of(v) + sym_sum(seq.space, d))
            res = [(c.subst(sub), vsubst(r, sub)) for c, r in res]
        # lists
        for n, old in lists.items():
            if any(b.read for b in built.get(n, [])) and not all(isinstance(r[1][n], list) and len(r[1][n]) == 1 for _, r in res):
                raise Unsupported(f"length of {n} in a symbolic loop")
            items = []
            sub_seq = None
            for c, r in res:
                for x in r[1][n] if isinstance(r[1][n], list) else [r[1][n]]:
                    if isinstance(r[1][n], (Cat, Seq)):
                        sub_seq = r[1][n]
                    else:
                        items.append((c, x))
            if sub_seq is not None:
                if items or len(res) != 1:
                    raise Unsupported("mixed list accumulation")
                parts = sub_seq.parts if isinstance(sub_seq, Cat) else [sub_seq]
                parts = [p for p in parts if not (isinstance(p, list) and not p)]
                if len(parts) != 1 or not isinstance(parts[0], Seq):
                    raise Unsupported("mixed list accumulation")
                q = parts[0]
                new = Seq(seq.space + q.space, q.items)
            elif not items:
                continue
            else:
                cols = list(zip(*[r[1][n] for _, r in res])) if len({len(r[1][n]) for _, r in res}) == 1 else []
                if len(res) > 1 and len(cols) == 1 and seq.items[0][0] is TRUE:
                    items = merge_items(items, self)
                if len(res) > 1 and cols and all(all(same_value(x, col[0]) for x in col) for col in cols):
                    items = [(TRUE, col[0]) for col in cols]  # the same items on each path
                new = Seq(seq.space, items)
            env.assign_up(n, Cat([old, new]) if (not isinstance(old, list) or old) else new)
        # yields
        if any(r[3] for _, r in res):
            ys = []
            nested = None
            for c, r in res:
                for g, y in r[3]:
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "__seq__":
                        nested = y[1]
                    else:
                        ys.append((c_and(c, g), y))
            if nested is not None:
                if ys or len(res) != 1:
                    raise Unsupported("mixed yields")
                self.yields.append((TRUE, ("__seq__", Seq(seq.space + nested.space, nested.items))))
            else:
                self.yields.append((TRUE, ("__seq__", Seq(seq.space, ys))))
        # array stores
        for n, t in tens.items():
            logs = [(c, r[2][n]) for c, r in res]
            if any(l for _, l in logs):
                self.apply_stores(env, n, t, seq, logs)
        # names assigned in the loop are unusable afterwards (last iteration's value unknown)
        for n in writes | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}:
            if n in late and self.entails(c_lt(seq.space[0][1], seq.space[0][2])):
                env.assign_up(n, late[n])
            elif n not in accs and n not in lists and n not in tens:
                env.assign_up(n, Poison())

    def apply_stores(self, env, name, t, seq, logs):
        """R[index(k)] = value(k) for all k of the iteration space: the entry at r is the value of the k with r in region(k)"""
        entries = []  # (space, cond, region, val)
        for c, l in logs:
            for sp, region, val, *cc in l:
                entries.append((list(seq.space) + list(sp), c_and(c, *cc), region, val))
        if getattr(t, "loopvar", False):
            # inside an outer symbolic loop: the outer loop decides
            for sp, c, region, val in entries:
                t.log.append((sp, region, val, c))
            return
        groups = {}
        axes = list(t.axes)
        locs = []
        for sp, c, region, val in entries:
            newaxes, locate = self.np.region_solver(self, [(c, region, val)], sp, axes)
            locs.append((sp, c, region, val, locate))
            axes = newaxes
        base = Tensor(t.axes, t.f, t.dtype)
        for k, ax in enumerate(axes):
            base = tn.re_axis(base, k, ax) if ax.key() != base.axes[k].key() else base
        f0 = base.f
        if len(locs) > 1:
            idx, rng = self.np.generic_index(axes)
            got = [(l[0], *l[4](l[2], idx)) for l in locs]
            for x in range(len(got)):
                for y in range(x):
                    (sp1, c1, s1, _), (sp2, c2, s2, _) = got[x], got[y]
                    n = min(len(sp1), len(sp2))
                    same = c_and(*[c_eq(s1[sp1[q][0]], s2[sp2[q][0]]) for q in range(n) if sp1[q][0] == sp2[q][0]])
                    if same.t[0] == "t" and sp1 != sp2 and self.solver.check(tuple(self.pc) + (rng, c1, c2)) != "unsat":
                        raise Unsupported("overlapping stores of different loops")
                    if not self.solver.entails(tuple(self.pc) + (rng, c1, c2, locs[x][1].subst(s1), locs[y][1].subst(s2)), same):
                        raise Unsupported("overlapping stores")

        def g(*idx):
            acc = S.of(f0(*idx))
            for sp, c, region, val, locate in locs:
                cond, k, sub = locate(region, idx)
                cc = c_and(c.subst(k), cond)
                if cc.t[0] == "f":
                    continue
                v = S.of(self.np.subst_entry(lambda *i: val(list(i)), sub, k))
                acc = acc.guard(c_not(cc)) + v.guard(cc)
            return acc

        env.assign_up(name, Tensor(axes, g, t.dtype))

    def oblige(self, name, c):
        """prove a condition on the current path"""
        raise NotImplementedError

    # --- expressions ------------------------------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return env.lookup(e.id)

    def e_Tuple(self, e, env):
        return tuple(self.eval_list(e.elts, env))

    def e_List(self, e, env):
        r = self.eval_list(e.elts, env)
        return r

    def e_Set(self, e, env):
        r = self.eval_list(e.elts, env)
        if is_sym(r):
            raise Unsupported("symbolic set")
        return set(r)

    def eval_list(self, elts, env):
        out = []
        cat = None
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported("starred symbolic sequence")
                out += items
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        return {self.eval(k, env): self.eval(v, env) for k, v in zip(e.keys, e.values)}

    def e_JoinedStr(self, e, env):
        vals = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                vals.append(v.value)
            else:
                x = self.eval(v.value, env)
                if isinstance(x, P) and x.is_const() and x.const().denominator == 1:
                    x = int(x.const())
                if is_sym(x) or v.format_spec is not None or isinstance(x, np.ndarray):
                    return Opaque("text")
                vals.append(repr(x) if v.conversion == 114 else str(x))
        return "".join(vals)

    def e_Lambda(self, e, env):
        return Closure(e, env, env.globals, "<lambda>", [self.eval(d, env) for d in e.args.defaults],
                       {a.arg: self.eval(d, env) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        # keep conditions symbolic when the operands are pure conditions
        is_and = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            v = self.eval(x, env)
            if isinstance(v, C):
                acc = v if acc is None else (c_and(acc, v) if is_and else c_or(acc, v))
                if acc.t[0] == ("f" if is_and else "t"):
                    return not is_and
                # evaluate the remaining operands under the assumption that they are evaluated at all
                if x is not e.values[-1]:
                    t = self.branch(acc)
                    if t != is_and:
                        return not is_and
                    acc = None
                continue
            t = self.truth(v)
            if t != is_and:
                return v if acc is None else (False if is_and else True)
            last = v
            if x is e.values[-1]:
                return v if acc is None else acc
        return acc if acc is not None else is_and

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, C):
                return c_not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, P):
                return -v
            if isinstance(v, Tensor):
                return self.np.unary(v, lambda x: -x)
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, C):
                return c_not(v)
            if isinstance(v, Tensor) and v.dtype == "bool":
                return self.np.unary(v, c_not)
            return ~v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(type(e.op), self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        # user-defined operators
        if isinstance(a, Obj):
            name = {ast.Add: "__add__", ast.Mult: "__mul__", ast.MatMult: "__matmul__", ast.Sub: "__sub__"}.get(op)
            if name and (getattr(a.cls, name, None) is not None or (a.model and name in a.model)):
                r = self.call(self.getattr(a, name), [b])
                if op is ast.Mult and a.model and name in a.model and isinstance(r, (Seq, Cat)):
                    self.lazy.append(r)  # the selection rule may be an iterator
                return r
            raise Unsupported("operator on an object")
        if isinstance(a, np.ndarray) and is_sym(b):
            a = self.np.from_numpy(a)
        if isinstance(b, np.ndarray) and is_sym(a):
            b = self.np.from_numpy(b)
        if not is_sym(a) and not is_sym(b):
            import operator as o

            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
                 ast.Pow: o.pow, ast.MatMult: o.matmul, ast.BitAnd: o.and_, ast.BitOr: o.or_, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitXor: o.xor}[op]
            try:
                return f(a, b)
            except Exception as ex:
                raise PyRaise(type(ex), str(ex))
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.tensor_op(op, a, b)
        if isinstance(a, SymSet) and op in (ast.BitOr, ast.BitAnd, ast.Sub):
            return a.method(self, {ast.BitOr: "union", ast.BitAnd: "intersection", ast.Sub: "difference"}[op], [b])
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op is ast.Add:
            return a + b
        if op is ast.Add and isinstance(a, (Seq, Cat, list, tuple)) and isinstance(b, (Seq, Cat, list, tuple)):
            return Cat([a, b])
        if op is ast.Mult and isinstance(a, (tuple, list)):
            if isinstance(b, P):
                if b.is_const():
                    return a * int(b.const())
                if len(a) == 1:
                    n = fresh("n")
                    return Seq([(the_atom(n), P(), b)], [(TRUE, a[0])], "tuple" if isinstance(a, tuple) else "list")
            raise Unsupported("sequence repetition")
        if isinstance(a, C) or isinstance(b, C):
            if op is ast.BitOr:
                return c_or(as_c(a), as_c(b))
            if op is ast.BitAnd:
                return c_and(as_c(a), as_c(b))
            raise Unsupported("arithmetic on conditions")
        if isinstance(a, Text) or isinstance(b, Text):
            if op is ast.Add and isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
                return text([a, b])
            raise Unsupported("operation on a text")
        if isinstance(a, str) or isinstance(b, str):
            return a + b if op is ast.Add and isinstance(a, str) and isinstance(b, str) else Opaque("text")
        return self.scalar_op(op, a, b)

    def factored(self, r, a, b, power=1):
        """remember that r is a product or quotient of the (not constant) a and b: its sign is that of the factors"""
        if not r.is_const():
            self.factors[r] = self.factors_of(a) + [(f, e * power) for f, e in self.factors_of(b)]
        return r

    def factors_of(self, p):
        """[(factor, exponent)]"""
        if p in self.factors:
            return self.factors[p]
        if -p in self.factors:
            return [(P.of(-1), 1)] + self.factors[-p]
        return [(p, 1)]

    def product_sign(self, p):
        """(-1, 0 or 1, is it strict) of a product of several factors, if the sign of each of them is known"""
        sign, fs = 1, self.factors_of(p)
        if len(fs) < 2:
            return None
        strict = True
        for f, _ in fs:
            if self.entails(c_lt(0, f)):
                pass
            elif self.entails(c_lt(f, 0)):
                sign = -sign
            elif self.entails(c_le(0, f)):
                strict = False
            elif self.entails(c_le(f, 0)):
                sign, strict = -sign, False
            else:
                return None
        return sign, strict

    def scalar_op(self, op, a, b):
        a, b = P.of(a), P.of(b)
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return self.factored(a * b, a, b)
        if op is ast.Div:
            if b.is_const() and b.const() == 0:
                raise PyRaise(ZeroDivisionError, "division by zero")
            if not b.is_const():
                if self.product_sign(b) not in ((1, True), (-1, True)) and not self.entails(c_not(c_eq(b, 0))):
                    if self.lane:
                        pass
                    elif self.branch(c_eq(b, 0)):
                        raise PyRaise(ZeroDivisionError, "division by zero")
            return self.factored(a / b, a, b, -1)
        if op in (ast.FloorDiv, ast.Mod):
            if not b.is_const() and not self.entails(c_not(c_eq(b, 0))):
                if self.branch(c_eq(b, 0)):
                    if self.lane:  # numpy: 0 for integers
                        return P()
                    raise PyRaise(ZeroDivisionError, "division by zero")
            return fdiv(a, b) if op is ast.FloorDiv else pmod(a, b)
        if op is ast.Pow:
            if a.is_const() and a.const() == -1 and b.is_int():
                return sign_power(b)
            if a == -IMAG and b.is_int():
                return i_power(-b, self)
            if a == IMAG and b.is_int():
                return i_power(b, self)
            return a**b
        if op is ast.RShift and b.is_const():
            return fdiv(a, 2 ** int(b.const()))
        if op is ast.LShift and b.is_const():
            return a * (2 ** int(b.const()))
        if op is ast.BitAnd and b.is_const() and b.const() == 1:
            return pmod(a, 2)
        raise Unsupported(f"operator {op.__name__}")

    def tensor_op(self, op, a, b):
        if op is ast.MatMult:
            a, b = tn.lift(a), tn.lift(b)
            r = tn.matmul(a, b, self.same)
            r.tag = ("prod", a, b)
            return r
        if op in (ast.Add, ast.Sub, ast.Mult):
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}[op]
            return tn.elementwise(f, tn.lift(a), tn.lift(b), same=self.same)
        if op is ast.Div:
            b = tn.lift(b)

            def div(x, y):
                p = y.scalar()
                if p is None:
                    p = self.prover_scalar(y)
                if p is None:
                    raise Unsupported("division by a sum")
                return x * S.of(inv(p))

            r = tn.elementwise(div, tn.lift(a), b, same=self.same)
            if r.dtype == "int":
                r.dtype = "real"
            return r
        if op is ast.Pow:
            n = P.of(b) if not isinstance(b, Tensor) else None
            if n is not None and n.is_const() and n.const().denominator == 1 and n.const() >= 0:
                k = int(n.const())

                def pw(x):
                    r = S.of(1)
                    for _ in range(k):
                        r = r * x
                    return r

                return tn.elementwise(pw, tn.lift(a), same=self.same)
            if isinstance(b, Tensor) and not isinstance(a, Tensor) and P.of(a) == P.of(-1) and b.dtype == "int":

                def sgn(x):
                    p = S.of(x).scalar()
                    if p is None or not p.is_int():
                        raise Unsupported("power of -1")
                    return S.of(1 - 2 * pmod(p, 2))

                return tn.elementwise(sgn, b, same=self.same)
        if op in (ast.BitAnd, ast.BitOr) and all(isinstance(x, C) or (isinstance(x, Tensor) and x.dtype == "bool") for x in (a, b)):
            return tn.elementwise(c_and if op is ast.BitAnd else c_or, tn.lift(a), tn.lift(b), same=self.same, dtype="bool")
        raise Unsupported(f"array operator {op.__name__}")

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op), left, right)
            if isinstance(c, Tensor):
                if len(e.ops) > 1:
                    raise Unsupported("chained array comparison")
                return c
            if isinstance(c, C):
                out = c if out is None else c_and(as_c(out), c)
            else:
                if not c:
                    return False
                out = c if out is None else (out if isinstance(out, C) else c)
            left = right
        if isinstance(out, C) and out.t[0] in ("t", "f"):
            return out.t[0] == "t"
        return out

    def compare(self, op, a, b):
        if op is ast.Is or op is ast.IsNot:
            r = self.is_(a, b)
            return r if op is ast.Is else not r
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else (c_not(r) if isinstance(r, C) else not r)
        if op in (ast.Eq, ast.NotEq):
            r = self.equal(a, b)
            if op is ast.Eq:
                return r
            if isinstance(r, Tensor):
                return self.np.unary(r, c_not)
            return c_not(r) if isinstance(r, C) else not r
        if isinstance(a, Obj) or isinstance(b, Obj):
            name = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[op]
            swap = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}[name]
            if isinstance(a, Obj) and (self.defines(a, name)):
                return self.call(self.getattr(a, name), [b])
            if isinstance(b, Obj) and self.defines(b, swap):
                return self.call(self.getattr(b, swap), [a])
            raise PyRaise(TypeError, "unorderable")
        if isinstance(a, SymSet) and isinstance(b, SymSet) and op in (ast.LtE, ast.GtE):
            return a.subset(b) if op is ast.LtE else b.subset(a)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return self.lex(op, list(a), list(b))
        if isinstance(a, self.np.AbsT):
            if op in (ast.Lt, ast.LtE) and isinstance(b, (int, float)) and b > 0:
                return self.np.Near0(a.t)
            raise Unsupported("comparison of a modulus")
        if isinstance(a, (Tensor, np.ndarray)) or isinstance(b, (Tensor, np.ndarray)):
            if not is_sym(a) and not is_sym(b):
                return {ast.Lt: np.less, ast.LtE: np.less_equal, ast.Gt: np.greater, ast.GtE: np.greater_equal}[op](a, b)
            a, b = self.np.as_tensor(a), self.np.as_tensor(b)

            def cmp(x, y):
                p, q = x.scalar(), y.scalar()
                if p is None or q is None:
                    raise Unsupported("comparison of sums")
                return self.cmp(op, p, q)

            return tn.elementwise(cmp, a, b, same=self.same, dtype="bool")
        if not is_sym(a) and not is_sym(b):
            import operator as o

            try:
                return {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[op](a, b)
            except Exception as ex:
                raise PyRaise(type(ex), str(ex))
        return self.cmp(op, P.of(a), P.of(b))

    def cmp(self, op, p, q):
        if isinstance(p, SymSet) or isinstance(q, SymSet):
            raise Unsupported("comparison of sets")
        if q == P() and (p in self.factors or -p in self.factors):
            s = self.product_sign(p)
            known = s and ({(1, True): TRUE, (-1, False): FALSE, (-1, True): FALSE}.get(s) if op is ast.Gt else
                           {(-1, True): TRUE, (1, False): FALSE, (1, True): FALSE}.get(s) if op is ast.Lt else
                           {(1, True): TRUE, (1, False): TRUE, (-1, True): FALSE}.get(s) if op is ast.GtE else
                           {(-1, True): TRUE, (-1, False): TRUE, (1, True): FALSE}.get(s))
            if known:
                return known
        return {ast.Lt: lambda: c_lt(p, q), ast.LtE: lambda: c_le(p, q), ast.Gt: lambda: c_lt(q, p), ast.GtE: lambda: c_le(q, p)}[op]()

    def defines(self, o, name):
        if o.model and name in o.model:
            return True
        return getattr(o.cls, name, None) is not getattr(object, name, None)

    def lex(self, op, a, b):
        strict = op in (ast.Lt, ast.Gt)
        if op in (ast.Gt, ast.GtE):
            a, b = b, a
        n = min(len(a), len(b))
        res = (TRUE if (len(a) < len(b) or (not strict and len(a) == len(b))) else FALSE)
        for x, y in reversed(list(zip(a, b))):
            lt = as_c(self.compare(ast.Lt, x, y))
            eq = as_c(self.equal(x, y))
            res = c_or(lt, c_and(eq, res))
        return res if res.t[0] not in ("t", "f") else res.t[0] == "t"

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return a is b

    def equal(self, a, b):
        if isinstance(a, Text) or isinstance(b, Text):
            return a.equals(b) if isinstance(a, Text) else b.equals(a)
        if isinstance(a, Obj) or isinstance(b, Obj):
            o, x = (a, b) if isinstance(a, Obj) else (b, a)
            if o.model and "__eq__" in o.model:
                return o.model["__eq__"](self, o, x)
            if not isinstance(x, Obj):
                return False
            eq = getattr(o.cls, "__eq__", None)
            import dataclasses

            fn_ = unwrap(eq) if eq else None
            if isinstance(fn_, types.FunctionType) and self.is_repo(fn_) and os.path.exists(fn_.__code__.co_filename):
                return self.call(Bound(eq, o), [x])
            if dataclasses.is_dataclass(o.cls):
                if o.cls is not x.cls:
                    return False
                return self.conj_list([self.equal(o.attrs[f.name], x.attrs[f.name]) for f in dataclasses.fields(o.cls) if f.compare])
            return o is x
        if isinstance(a, (Tensor, np.ndarray)) or isinstance(b, (Tensor, np.ndarray)):
            if not is_sym(a) and not is_sym(b):
                return a == b
            a, b = self.np.as_tensor(a), self.np.as_tensor(b)

            def eq(x, y):
                if isinstance(x, C):
                    return c_and(c_or(c_not(x), y), c_or(x, c_not(y)))
                p, q = x.scalar(), y.scalar()
                if p is None or q is None:
                    raise Unsupported("comparison of sums")
                return c_eq(p, q)

            return tn.elementwise(eq, a, b, same=self.same, dtype="bool")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.conj_list([self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, (Seq, Cat)) or isinstance(b, (Seq, Cat)):
            return self.seq_equal(a, b)
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(a, (P,) + SCAL) and isinstance(b, (P,) + SCAL):
                c = c_eq(a, b)
                return c if c.t[0] not in ("t", "f") else c.t[0] == "t"
            return False
        if isinstance(a, C) and isinstance(b, bool):
            return a if b else c_not(a)
        if isinstance(a, C) and isinstance(b, C):
            return c_and(c_or(c_not(a), b), c_or(a, c_not(b)))
        if isinstance(a, SymSet) and isinstance(b, SymSet):
            return c_and(a.subset(b), b.subset(a))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an opaque value")
        if (a is None and isinstance(b, (tuple, list, Seq))) or (b is None and isinstance(a, (tuple, list, Seq))):
            return False
        if is_sym(a) or is_sym(b):
            raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        return a == b

    def seq_equal(self, a, b):
        raise Unsupported("equality of symbolic sequences")

    def conj_list(self, xs):
        c = TRUE
        for x in xs:
            if x is False:
                return False
            if isinstance(x, C):
                c = c_and(c, x)
        return c if c.t[0] not in ("t", "f") else c.t[0] == "t"

    def contains(self, s, x):
        if isinstance(s, SymSet):
            if s.arity is not None:
                if not (isinstance(x, tuple) and len(x) == s.arity and all(isinstance(y, (P, int)) for y in x)):
                    raise Unsupported("membership in a set of tuples")
                return s.member(tuple(P.of(y) for y in x))
            return s.member(P.of(x))
        if isinstance(s, Cat):
            return c_or(*[as_c(self.contains(p, x)) for p in s.parts])
        if isinstance(s, SymRange):
            q = self.seq_of(s)
            return self.contains(q, x)
        if isinstance(s, range) and isinstance(x, P):
            return self.contains(SymRange(s.start, s.stop, s.step), x)
        if isinstance(s, Seq):
            s = freshen(s)
            out = FALSE
            vs = [P.atom(a) for a, _, _ in s.space]
            rng = c_and(*[in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in s.space])
            for g, v in s.items:
                eq = as_c(self.equal(v, x))
                body = c_and(rng, g, eq)
                out = c_or(out, exists(vs, body) if vs else body)
            return out
        if isinstance(s, (list, tuple, set, frozenset)):
            return self.disj([self.equal(v, x) for v in s])
        if isinstance(s, dict):
            if is_sym(x):
                return self.disj([self.equal(v, x) for v in s])
            return x in s
        if isinstance(s, Text):
            return s.contains(x)
        if isinstance(s, str) and isinstance(x, str):
            return x in s
        if isinstance(s, Opaque):
            raise Unsupported("membership")
        if not is_sym(s) and not is_sym(x):
            return x in s
        raise Unsupported(f"membership in {type(s).__name__}")

    def disj(self, xs):
        c = FALSE
        for x in xs:
            if x is True:
                return True
            if isinstance(x, C):
                c = c_or(c, x)
        return c if c.t[0] not in ("t", "f") else c.t[0] == "t"

    # --- attributes, subscripts, calls ----------------------------------------------------------
    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if o.model and name in o.model:
                m = o.model[name]
                if getattr(m, "is_property", False) or isinstance(inspect.getattr_static(o.cls, name, None), property):
                    return m(self, o)
                return Bound(m, o, model=True)
            if name in o.attrs:
                return o.attrs[name]
            d = inspect.getattr_static(o.cls, name, None)
            if d is None:
                raise PyRaise(AttributeError, name)
            if isinstance(d, property):
                return self.call(d.fget, [o])
            if isinstance(d, classmethod):
                return Bound(d.__func__, o.cls)
            if isinstance(d, staticmethod):
                return d.__func__
            if isinstance(d, (types.FunctionType, functools._lru_cache_wrapper)) or callable(d):
                return Bound(d, o)
            return d
        if isinstance(o, Tensor):
            return self.np.tensor_attr(self, o, name)
        if isinstance(o, P):
            if name == "real":
                return o if o.is_real() else (o + o.conj()) * Fraction(1, 2)
            if name in ("numerator",) and o.is_int():
                return o
            if name == "denominator" and o.integer_valued():
                return 1
            if name == "dtype":
                return np.dtype("int64" if o.is_int() else "float64")
            if name == "astype":
                return Bound(lambda it, s, t: self.np.cast_scalar(s, t), o, model=True)
            if name == "item":
                return Bound(lambda it, s: s, o, model=True)
            if name == "shape":
                return ()
            raise Unsupported(f"attribute {name} of a number")
        if isinstance(o, C):
            if name in ("all", "any"):
                return Bound(lambda it, s: s, o, model=True)
        if isinstance(o, (list, Cat)):
            if name == "append":
                if isinstance(o, list):
                    return Bound(lambda it, s, v: s.append(v), o, model=True)

                def add(it, s, v):
                    if s.parts and isinstance(s.parts[-1], list):
                        s.parts[-1] = s.parts[-1] + [v]
                    else:
                        s.parts.append([v])

                if getattr(o, "mutable", False):
                    return Bound(add, o, model=True)
            if name == "extend" and isinstance(o, list):
                def ext(it, s, v):
                    items = it.concrete_items(v)
                    if items is None:
                        raise Unsupported("extend by a symbolic sequence")
                    s.extend(items)
                return Bound(ext, o, model=True)
        if isinstance(o, (Text, Match)):
            return Bound(lambda it, s, *a, **k: s.method(it, name, a, k), o, model=True)
        if isinstance(o, Seq) and name == "index" and getattr(o, "index_fn", None):

            def index(it, s, x):
                if not it.entails(in_range(P.of(x), P(), s.space[0][2])):
                    if not it.branch(in_range(P.of(x), P(), s.space[0][2])):
                        raise PyRaise(ValueError, "not in the sequence")
                return s.index_fn(P.of(x))

            return Bound(index, o, model=True)
        if isinstance(o, SymSet):
            return Bound(lambda it, s, *a: s.method(it, name, a), o, model=True)
        if isinstance(o, Seq) and name == "__next__":
            return Bound(lambda it, s: it.first(s), o, model=True)
        if isinstance(o, (Seq, Cat, Opaque, Closure)):
            if isinstance(o, Opaque):
                return Opaque()
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        if isinstance(o, type) and (o.__module__ or "").startswith("lie_nn"):
            d = inspect.getattr_static(o, name, None)
            if isinstance(d, classmethod):
                return Bound(d.__func__, o)
        try:
            v = getattr(o, name)
        except AttributeError as ex:
            raise PyRaise(AttributeError, str(ex))
        if isinstance(o, np.ndarray) and callable(v) and name in ("reshape", "dot", "transpose", "copy", "astype"):
            arr = o

            def m(it, s, *a, **k):
                if is_sym(a) or is_sym(k):
                    return it.call(it.np.tensor_attr(it, it.np.from_numpy(arr), name), a, k)
                return getattr(arr, name)(*a, **k)

            return Bound(m, o, model=True)
        return v

    def first(self, s):
        if not s.items:
            raise PyRaise(StopIteration, "")
        sub = {}
        for a, lo, hi in s.space:
            lo2 = lo.subst(sub)
            if hi is not None and not self.entails(c_lt(lo2, hi.subst(sub))):
                raise Unsupported("first element of a possibly empty sequence")
            sub[a] = lo2
        g, v = s.items[0]
        g = g.subst(sub)
        if not self.entails(g):
            raise Unsupported("first element guarded")
        return vsubst(v, sub)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, e, env):
        return self.eval_index(e, env)

    def getitem(self, o, i):
        if isinstance(o, Tensor):
            return self.np.getitem(self, o, i)
        if isinstance(o, np.ndarray):
            if is_sym(i):
                return self.np.getitem(self, self.np.from_numpy(o), i)
            try:
                return o[i]
            except Exception as ex:
                raise PyRaise(type(ex), str(ex))
        if isinstance(o, (tuple, list)):
            if isinstance(i, P):
                if i.is_const():
                    i = int(i.const())
                else:
                    for k, v in enumerate(o):
                        if self.branch(c_or(c_eq(i, k), c_eq(i, k - len(o)))):
                            return v
                    raise PyRaise(IndexError, "list index")
            if isinstance(i, slice):
                i = slice(*[int(P.of(x).const()) if isinstance(x, P) and x.is_const() else x for x in (i.start, i.stop, i.step)])
                if is_sym(i):
                    raise Unsupported("symbolic slice of a list")
            try:
                return o[i]
            except IndexError as ex:
                raise PyRaise(IndexError, str(ex))
        if isinstance(o, Seq):
            if isinstance(i, (int, P)) and o.single() and len(o.space) == 1:
                a, lo, hi = o.space[0]
                i = P.of(i)
                k = lo + i
                if i.is_const() and i.const() < 0:
                    if hi is None:
                        raise PyRaise(TypeError, "index")
                    k = hi + i
                if not self.entails(in_range(k, lo, hi) if hi is not None else c_le(lo, k)):
                    raise Unsupported("sequence index not provably in range")
                return vsubst(o.items[0][1], {a: k})
            if isinstance(i, slice):
                return self.slice_seq(o, i)
            if isinstance(i, (int, P)):
                if P.of(i) == P.of(0):
                    return self.first(o)
        if isinstance(o, Cat) and isinstance(i, (int, P)):
            i = P.of(i)
            back = i.is_const() and i.const() < 0
            for p in reversed(o.parts) if back else o.parts:
                n = P.of(self.call(len, [p]))
                if self.branch(c_le(0, i + n) if back else c_lt(i, n)):
                    return self.getitem(p, i + n if back else i)
                i = i + n if back else i - n
            raise PyRaise(IndexError, "list index")
        if isinstance(o, dict):
            if is_sym(i):
                raise Unsupported("symbolic dict key")
            try:
                return o[i]
            except KeyError as ex:
                raise PyRaise(KeyError, str(ex))
        if isinstance(o, Obj):
            if issubclass(o.cls, tuple) and isinstance(i, int):
                return list(o.attrs.values())[i]
            return self.call(self.getattr(o, "__getitem__"), [i])
        if isinstance(o, (Text, Match)):
            return o.getitem(self, i)
        if isinstance(o, str):
            return o[i] if not is_sym(i) else Opaque("text")
        if isinstance(o, Opaque):
            return Opaque()
        if isinstance(o, type) or not is_sym(i):
            return o[i]
        raise Unsupported(f"subscript of {type(o).__name__}")

    def slice_seq(self, o, i):
        if not (o.single() and len(o.space) == 1 and i.step in (None, 1)):
            raise Unsupported("slice of a sequence")
        a, lo, hi = o.space[0]
        n = hi - lo
        st = P.of(i.start if i.start is not None else 0)
        en = n if i.stop is None else P.of(i.stop)
        if en.is_const() and en.const() < 0:
            en = n + en
        if st.is_const() and st.const() < 0:
            st = n + st
        if not self.entails(c_and(c_le(0, st), c_le(st, en), c_le(en, n))):
            raise Unsupported("slice bounds of a sequence")
        return freshen(Seq([(a, lo + st, lo + en)], o.items, o.kind))

    def setitem(self, o, i, v):
        if isinstance(o, list) and isinstance(i, (int, P, slice)):
            if isinstance(i, P):
                if not i.is_const():
                    raise Unsupported("symbolic list store")
                i = int(i.const())
            try:
                o[i] = v
            except IndexError as ex:
                raise PyRaise(IndexError, str(ex))
            return
        if isinstance(o, dict) and not is_sym(i):
            o[i] = v
            return
        if isinstance(o, Tensor):
            return self.np.setitem(self, o, i, v)
        if isinstance(o, np.ndarray):
            if is_sym(v) or is_sym(i):
                raise Unsupported("symbolic store into a concrete array")
            o[i] = v
            return
        raise Unsupported(f"store into {type(o).__name__}")

    def e_Call(self, e, env):
        # all(...)/any(...)/sum(...) over generators work on sequences
        f = self.eval(e.func, env)
        args = []
        sym_star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                items = self.concrete_items(v)
                if items is None:
                    sym_star = v
                    args.append(StarSeq(v))
                else:
                    args += items
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if sym_star is not None:
            return self.call_star(f, args, kw)
        if f is super or (isinstance(f, type) and f is super):
            return Opaque("super")
        return self.call(f, args, kw)

    def call_star(self, f, args, kw):
        g = unwrap(f) if not isinstance(f, (Closure, Bound)) else None
        q = qual(g) if isinstance(g, types.FunctionType) else None
        if q in self.overrides:
            return self.overrides[q](self, *args, **kw)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None and getattr(m, "star", False):
            return m(*args, **kw)
        if isinstance(g, types.FunctionType) and self.is_repo(g):
            return self.call_func(g, args, kw)
        if f is zip and len(args) == 1 and not kw and isinstance(args[0], StarSeq):
            q = self.seq_of(args[0].seq)
            if q.single() and isinstance(q.items[0][1], tuple) and len(q.space) == 1:
                # the components of a nonempty sequence of tuples of one length
                _, lo, hi = q.space[0]
                if hi is not None and self.entails(c_lt(lo, hi)):
                    return [Seq(q.space, [(TRUE, x)]) for x in q.items[0][1]]
        raise Unsupported(f"call of {getattr(f, '__name__', f)} with a symbolic number of arguments")

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    # --- comprehensions ---------------------------------------------------------------------------
    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "generator")

    def e_SetComp(self, e, env):
        r = self.comp(e, env, "set")
        if isinstance(r, list) and not is_sym(r):
            return set(r)
        return r

    def e_DictComp(self, e, env):
        out = {}
        gens = e.generators
        if len(gens) != 1:
            raise Unsupported("dict comprehension")
        for x in self.concrete_items(self.eval(gens[0].iter, env)) or self._no("dict comprehension"):
            loc = Env({}, env, env.globals)
            self.assign(gens[0].target, x, loc)
            if all(self.truth(self.eval(c, loc)) for c in gens[0].ifs):
                out[self.eval(e.key, loc)] = self.eval(e.value, loc)
        return out

    def _no(self, what):
        raise Unsupported(what)

    def comp(self, e, env, kind):
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)):
            raise Unsupported("assignment expression in a comprehension")
        chunks = self.comp_rec(e.elt, e.generators, Env({}, env, env.globals))
        return chunks_to_value(chunks, kind)

    def comp_rec(self, elt, gens, env):
        """list of chunks: ('item', value) | ('seq', Seq)"""
        if not gens:
            return [("item", self.eval(elt, env))]
        g = gens[0]
        it = self.eval(g.iter, env)
        items = self.concrete_items(it)
        out = []
        if items is not None:
            for x in items:
                loc = Env({}, env, env.globals)
                self.assign(g.target, x, loc)
                if all(self.truth(self.eval(c, loc)) for c in g.ifs):
                    out += self.comp_rec(elt, gens[1:], loc)
            return out
        seq = freshen(self.seq_of(it))
        if len(seq.items) != 1:
            raise Unsupported("comprehension over a multi-item sequence")

        rng = [in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a)) for a, lo, hi in seq.space]
        if self.solver.check(tuple(self.pc) + tuple(rng) + (seq.items[0][0],)) == "unsat":
            return []  # no elements

        held = contents(env)
        no_iterators(env, {x.id for b in [elt] + [c for h in gens for c in h.ifs] + [h.iter for h in gens[1:]] for x in ast.walk(b) if isinstance(x, ast.Name)})

        def one():
            self.assume(*rng)
            self.assume(seq.items[0][0])
            loc = Env({}, env, env.globals)
            self.assign(g.target, seq.items[0][1], loc)
            try:
                for c in g.ifs:
                    if not self.truth(self.eval(c, loc)):
                        return []
                return self.comp_rec(elt, gens[1:], loc)
            finally:
                held_unchanged(held)

        res = []
        for pc, (st, r) in self.explore(one):
            if st == "raise":
                # the comprehension raises for some element: re-raise if it always does, else undecided
                raise Unsupported(f"exception inside a symbolic comprehension: {r}")
            conds = c_and(*[c for c in pc if not is_range_of(c, seq) and c != seq.items[0][0]])
            res.append((conds, r))
        merged = []
        for conds, chunks in res:
            for ch in chunks:
                merged.append((conds, ch))
        g0 = seq.items[0][0]
        counts = {len(chunks) for _, chunks in res}
        if max(counts, default=0) > 1 and all(ch[0] == "item" for _, ch in merged):
            # several items per iteration: one more index
            if len(counts) != 1:
                raise Unsupported("comprehension whose iterations give different numbers of items")
            k = fresh("u")
            items = [(c_and(g0, c, c_eq(k, n)), ch[1]) for c, chunks in res for n, ch in enumerate(chunks)]
            space = seq.space + [(the_atom(k), P(), P.of(counts.pop()))]
            items = merge_items(items, self, rng + [in_range(k, 0, len(res[0][1]))])
            return [("seq", Seq(space, items))]
        if all(ch[0] == "item" for _, ch in merged):
            items = [(c_and(g0, c), ch[1]) for c, ch in merged]
            # merge scalar alternatives covering all cases into one guarded sum
            items = merge_items(items, self)
            return [("seq", Seq(seq.space, items))]
        if len(merged) == 1 and merged[0][1][0] == "seq":
            q = merged[0][1][1]
            return [("seq", Seq(seq.space + q.space, [(c_and(g0, merged[0][0], c), v) for c, v in q.items]))]
        raise Unsupported("comprehension structure")


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class Env:
    def __init__(self, vars_, parent, globals_):
        self.vars, self.parent, self.globals = vars_, parent, globals_

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                if isinstance(e.vars[n], Poison):
                    raise Unsupported(f"the value of {n} depends on the iterations of a symbolic loop")
                return e.vars[n]
            e = e.parent
        if n in self.globals:
            return self.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise(NameError, n)

    def peek(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent

    def names(self):
        e, out = self, {}
        while e is not None:
            for n, v in e.vars.items():
                out.setdefault(n, v)
            e = e.parent
        return out

    def has(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return True
            e = e.parent
        return False

    def owner(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None

    def has_local(self, n):
        return self.has(n)

    def get(self, n):
        return self.lookup(n)

    def set(self, n, v):
        self.vars[n] = v

    def assign_up(self, n, v):
        self.vars[n] = v


# ---------------------------------------------------------------------------------------------------
# helpers


def as_c(x):
    if isinstance(x, C):
        return x
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    raise Unsupported(f"condition expected, got {type(x).__name__}")


def real_part(s):
    return (s + s.conj()) * S.of(Fraction(1, 2))


def sign_power(b):
    """(-1)^b, symbolic integer b"""
    m = pmod(b, 2)
    if m.is_const():
        return P.of(1 - 2 * int(m.const()))
    return 1 - 2 * m


def i_power(b, it):
    """I^b for a symbolic integer b, by cases on b mod 4"""
    m = pmod(b, 4)
    if m.is_const():
        return IMAG ** int(m.const())
    if it.branch(c_eq(pmod(b, 2), 0)):
        return P.of(1) if it.branch(c_eq(m, 0)) else P.of(-1)
    return IMAG if it.branch(c_eq(m, 1)) else -IMAG


def has_yield(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    """nodes of a function body without nested functions"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def assigned_names(stmts):
    out = set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)

    for s in stmts:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)):
                target(n.target)
            elif isinstance(n, ast.NamedExpr):
                target(n.target)
    return out


def mutated_names(stmts):
    out = set()
    for s in stmts:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    b = t
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                        if isinstance(b, ast.Name):
                            out.add(b.id)
                    if isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                        out.add(t.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                if n.func.attr in ("append", "extend", "insert", "add", "update", "sort", "pop"):
                    out.add(n.func.value.id)
    return out


def carried(body, name):
    """may the body read the value that the name had before it"""
    for s in body:
        reads = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for n in ast.walk(s)) or any(
            isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name for n in ast.walk(s))
        if reads:
            return True
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return False
    return name in assigned_names(body) or name in mutated_names(body)


def no_iterators(env, loads):
    """a native iterator has a hidden state"""
    for n in loads:
        v = env.peek(n)
        if hasattr(v, "__next__") and not isinstance(v, (Seq, Cat, Obj)):
            raise Unsupported(f"{n} is consumed by the iterations of a symbolic loop")


def used_again(fn, s):
    """may the value that the assignment s binds be read more than once"""
    if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)):
        return False  # unpacked, hence consumed, at once
    if not all(isinstance(t, ast.Name) for t in s.targets):
        return True
    return read_again(fn, {t.id for t in s.targets}, s)


def read_again(fn, names, s=None):
    reads = 0
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
            reads += 1
    if reads <= 1:
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and n is not fn:
                if isinstance(n, ast.For):
                    parts = n.body
                elif isinstance(n, (ast.While, ast.FunctionDef, ast.Lambda)):
                    parts = [n]
                else:
                    parts = [n] if not isinstance(n, ast.DictComp) and reads and any(isinstance(x, ast.Name) and x.id in names for y in [n.elt] + [h.iter for h in n.generators[1:]] + [c for h in n.generators for c in h.ifs] for x in ast.walk(y)) else [n] if isinstance(n, ast.DictComp) else []
                if not any(s is x for p in parts for x in ast.walk(p)) and any(isinstance(x, ast.Name) and x.id in names for p in parts for x in ast.walk(p)):
                    return True
    return reads > 1


def leaves(stmts):
    """a return, or a break of this loop"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Break)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            sub = getattr(s, f, None) or []
            if isinstance(s, (ast.For, ast.While)) and f == "body":
                if any(isinstance(n, ast.Return) for x in sub for n in [x] + list(walk_own(x))):
                    return True
                continue
            if leaves(sub):
                return True
        if any(leaves(h.body) for h in getattr(s, "handlers", [])):
            return True
    return False


def same_value(x, y):
    if x is y:
        return True
    if isinstance(x, (P, int, str, bool, C)) and type(x) is type(y):
        return x == y
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        return x.dtype == y.dtype and np.array_equal(x, y)
    if isinstance(x, Tensor) and isinstance(y, Tensor):
        return x.f is y.f and len(x.axes) == len(y.axes) and all(a is b for a, b in zip(x.axes, y.axes))
    if isinstance(x, Obj) and isinstance(y, Obj) and x.cls is y.cls and x.model is None and y.model is None:
        return x.attrs.keys() == y.attrs.keys() and all(same_value(v, y.attrs[k]) for k, v in x.attrs.items())
    return False


def reads_list(stmts, name):
    """the list is used other than to append to it or to take its length"""
    ok = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend"):
                ok.add(id(n.func.value))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and len(n.args) == 1:
                ok.add(id(n.args[0]))
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                ok.add(id(n.value.left))
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in ok for s in stmts for n in ast.walk(s))


def contents(env, skip=()):
    """[(name, mutable object, content)] of the objects reachable from the variables"""
    out, seen = [], set()

    def walk(n, v, depth):
        if id(v) in seen or depth > 6:
            return
        if isinstance(v, (list, dict, set)):
            seen.add(id(v))
            out.append((n, v, list(v.items()) if isinstance(v, dict) else list(v)))
            for x in v.values() if isinstance(v, dict) else v:
                walk(n, x, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                walk(n, x, depth + 1)
        elif isinstance(v, Cat):
            seen.add(id(v))
            out.append((n, v, list(v.parts)))
        elif isinstance(v, Tensor):
            seen.add(id(v))
            out.append((n, v, [v.f]))
        elif isinstance(v, np.ndarray):
            seen.add(id(v))
            out.append((n, v, v.copy()))
        elif isinstance(v, Obj):
            seen.add(id(v))
            out.append((n, v, list(v.attrs.items())))
            for x in v.attrs.values():
                walk(n, x, depth + 1)

    for n, v in env.names().items():
        if n not in skip:
            walk(n, v, 0)
    return out


def held_unchanged(held):
    for n, v, old in held:
        if isinstance(v, np.ndarray):
            if not np.array_equal(v, old):
                raise Unsupported(f"a symbolic loop changes {n}")
            continue
        new = list(v.items()) if isinstance(v, dict) else v.parts if isinstance(v, Cat) else [v.f] if isinstance(v, Tensor) else \
            list(v.attrs.items()) if isinstance(v, Obj) else list(v)
        flat = lambda xs: [y for x in xs for y in (x if isinstance(x, tuple) else (x,))]  # noqa: E731
        a, b = flat(new), flat(old)
        if len(a) != len(b) or any(x is not y and not (isinstance(x, (str, int)) and x == y) for x, y in zip(a, b)):
            raise Unsupported(f"a symbolic loop changes {n}")


def reads_array(stmts, name):
    """the array is used other than as the target of an element store or through .shape/.dtype/.ndim"""
    ok = set()
    uses = []
    for s in stmts:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                ok.add(id(n.value))
            if isinstance(n, ast.Attribute) and n.attr in ("shape", "dtype", "ndim") and isinstance(n.value, ast.Name):
                ok.add(id(n.value))
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
                uses.append(n.target.value)
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                uses.append(n)
    return any(isinstance(u, ast.Name) and u.id == name and (id(u) not in ok) for u in uses) or any(
        isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and n.target.value.id == name
        for s in stmts for n in [s] + list(walk_own(s)))


def reads_before_write(stmts, name):
    """the name is read (or augmented) somewhere in the body, or assigned conditionally"""
    for s in stmts:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
    return False


def is_range_of(c, seq):
    vs = {a for a, _, _ in seq.space}
    for a, lo, hi in seq.space:
        full = in_range(P.atom(a), lo, hi) if hi is not None else c_le(lo, P.atom(a))
        if c == full:
            return True
        if full.t[0] == "and" and c in full.t[1]:
            return True
    return False


def freshen(seq):
    s, sp = {}, []
    for a, lo, hi in seq.space:
        f = fresh("n")
        sp.append((the_atom(f), lo.subst(s), hi.subst(s) if hi is not None else None))
        s[a] = f
    if not s:
        return seq
    return Seq(sp, [(g.subst(s), vsubst(v, s)) for g, v in seq.items], seq.kind)


def vsubst(v, s):
    if isinstance(v, (P, C, S)):
        return v.subst(s)
    if isinstance(v, (Text, Match)):
        return v.resubst(s)
    if isinstance(v, Tensor):
        return tensor_subst(v, s)
    if isinstance(v, Obj):
        if v.model is not None and hasattr(v, "resubst"):
            return v.resubst(s)
        o = Obj(v.cls, {k: vsubst(x, s) for k, x in v.attrs.items()}, v.model)
        return o
    if isinstance(v, LoopList):
        return [vsubst(x, s) for x in v]
    if isinstance(v, (list, tuple)):
        return type(v)(vsubst(x, s) for x in v) if not hasattr(v, "_fields") else v
    if isinstance(v, Seq):
        # bound atoms are globally fresh: no capture
        return Seq([(a, lo.subst(s), hi.subst(s) if hi is not None else None) for a, lo, hi in v.space], [(g.subst(s), vsubst(x, s)) for g, x in v.items], v.kind)
    if isinstance(v, Cat):
        return Cat([vsubst(p, s) for p in v.parts])
    if isinstance(v, dict):
        return {k: vsubst(x, s) for k, x in v.items()}
    if isinstance(v, SymRange):
        return SymRange(v.lo.subst(s), v.hi.subst(s), v.step)
    if callable(v) and hasattr(v, "resubst"):
        return v.resubst(s)
    return v


def ax_subst(a, s):
    if isinstance(a, Atom):
        return Atom(a.n.subst(s))
    if isinstance(a, Prod):
        return Prod([ax_subst(x, s) for x in a.parts])
    if isinstance(a, Alt):
        return Alt([ax_subst(x, s) for x in a.parts])
    return Sig([(x, lo.subst(s), hi.subst(s)) for x, lo, hi in a.space], lambda ks: ax_subst(a.inner(ks), s))


def idx_subst(i, s):
    if isinstance(i, P):
        return i.subst(s)
    if isinstance(i, tn.AltIdx):
        return tn.AltIdx((i[0], idx_subst(i[1], s)))
    return tuple(idx_subst(x, s) for x in i)


def idx_place(i, back):
    if isinstance(i, P):
        f = fresh("h")
        back[the_atom(f)] = i
        return f
    if isinstance(i, tn.AltIdx):
        return tn.AltIdx((i[0], idx_place(i[1], back)))
    return tuple(idx_place(x, back) for x in i)


def tensor_subst(t, s):
    def f(*idx):
        back = {}
        hold = [idx_place(i, back) for i in idx]
        r = t.f(*hold).subst(s)
        return r.subst(back)

    out = Tensor([ax_subst(a, s) for a in t.axes], f, t.dtype, t.view)
    out.parent = t.parent
    if t.owner:
        out.owner = t.owner
    return out


def prefix_sum(space, d):
    """sum of d over the iterations strictly before the current one (lexicographically)"""
    if len(space) != 1:
        raise Unsupported("prefix sum over a nested space")
    a, lo, hi = space[0]
    f = fresh("q")
    return sym_sum([(the_atom(f), lo, P.atom(a))], d.subst({a: f}))


def as_seq(ys, kind):
    """yields collected by the interpreter -> python list or Seq"""
    if not any(isinstance(y, tuple) and len(y) == 2 and y[0] == "__seq__" for _, y in ys):
        if all(g.t[0] == "t" for g, _ in ys):
            return [y for _, y in ys]
        return Seq([], ys, kind)
    if len(ys) == 1:
        return ys[0][1][1]
    parts = []
    for g, y in ys:
        parts.append(y[1] if isinstance(y, tuple) and len(y) == 2 and y[0] == "__seq__" else [y])
    return Cat(parts)


def chunks_to_value(chunks, kind):
    if all(c[0] == "item" for c in chunks):
        return [c[1] for c in chunks]
    if len(chunks) == 1:
        s = chunks[0][1]
        s.kind = kind
        return s
    return Cat([[c[1]] if c[0] == "item" else c[1] for c in chunks])


def merge_items(items, it, ctx=()):
    """alternatives for one element -> one guarded value when they are scalars"""
    if len(items) <= 1:
        return items
    if all(isinstance(v, (P, S, int, float, complex, Fraction)) and not isinstance(v, bool) for _, v in items):
        cover = c_or(*[g for g, _ in items])
        s = S()
        for g, v in items:
            s = s + S.of(v).guard(g)
        return [(cover if not it.solver.entails(tuple(it.pc) + tuple(ctx), cover) else TRUE, s)]
    if all(isinstance(v, Tensor) and v.ndim > 0 and v.dtype != "bool" for _, v in items):
        axes = items[0][1].axes
        if any([a.key() for a in v.axes] != [a.key() for a in axes] for _, v in items):
            return items
        cover = c_or(*[g for g, _ in items])
        pick = [(g, v.f) for g, v in items]

        def f(*idx):
            out = S()
            for g, h in pick:
                out = out + S.of(h(*idx)).guard(g)
            return out

        return [(cover if not it.solver.entails(tuple(it.pc) + tuple(ctx), cover) else TRUE, Tensor(axes, f, tn.join_dtype(*[v for _, v in items])))]
    return items
