"""Bounded contract evaluation: the contracts of a property evaluated by CPython on the real code.

This layer replays counterexamples and stands in (labelled *bounded*, never counted as proved) for
functions outside the verifier's reach.  A *group* is a function f(K, rng, **params) that calls the
real library and checks its contract with K.check; a case is a group with concrete params and a seed,
so that every violation is reproducible from its replay file.
"""
import hashlib
import io
import contextlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings
import multiprocessing as mp

GROUPS = {}  # property -> list of (name, fn, paramgen)
CASE_LIMIT = 240  # seconds: a single case normally takes far less than 20 s


class Violation(Exception):
    pass


class Skip(Exception):
    """The function under contract is not there under that name any more (internal helper)."""


class CaseTimeout(Exception):
    pass


def group(prop, params=None, thorough=None):
    """Register a case group. params: list of dicts (quick); thorough: additional dicts."""

    def deco(f):
        GROUPS.setdefault(prop, []).append((f.__name__, f, params or [{}], thorough or []))
        return f

    return deco


class Kit:
    """Checks available to a case."""

    def __init__(self):
        self.n = 0

    def check(self, cond, msg="", *detail):
        self.n += 1
        if not bool(cond):
            raise Violation(msg + ((" " + " ".join(str(d)[:300] for d in detail)) if detail else ""))

    def close(self, a, b, msg="", tol=1e-7):
        import numpy as np

        a = np.asarray(a)
        b = np.asarray(b)
        self.n += 1
        if a.shape != b.shape:
            raise Violation(f"{msg}: shape {a.shape} instead of {b.shape}")
        if a.size == 0:
            return
        scale = 1.0 + float(np.max(np.abs(b))) if np.all(np.isfinite(b)) else 1.0
        d = np.max(np.abs(a - b))
        if not (d <= tol * scale):
            raise Violation(f"{msg}: max deviation {float(d):.3g} (scale {scale:.3g})")

    def raises(self, exc, f, msg=""):
        self.n += 1
        try:
            f()
        except exc:
            return
        except Skip:
            raise
        except Exception as e:  # noqa
            raise Violation(f"{msg}: raised {type(e).__name__} instead of {exc}")
        raise Violation(f"{msg}: no exception, expected {exc}")


def get(mod, name):
    """An internal helper of the library; its absence is not a violation."""
    try:
        obj = mod
        for part in name.split("."):
            obj = getattr(obj, part)
        return obj
    except AttributeError:
        raise Skip(f"{getattr(mod, '__name__', mod)}.{name} not found")


def _alarm(signum, frame):
    raise CaseTimeout()


@contextlib.contextmanager
def time_limit(seconds):
    """raise TimeoutError after that many seconds (main thread of a process only)"""

    def stop(signum, frame):
        raise TimeoutError()

    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def case_seed(seed, prop, name, params):
    h = hashlib.sha256(json.dumps([seed, prop, name, params], sort_keys=True).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_case(args):
    prop, name, params, seed = args
    import numpy as np

    fn = next(f for (n, f, _, _) in GROUPS[prop] if n == name)
    K = Kit()
    s = case_seed(seed, prop, name, params)
    rng = np.random.default_rng(s)
    np.random.seed(s % (2**32))
    import random

    random.seed(s)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    status, msg = "ok", ""
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            fn(K, rng, **params)
    except Violation as e:
        status, msg = "violation", str(e)
    except Skip as e:
        status, msg = "skip", str(e)
    except CaseTimeout:
        status, msg = "violation", f"no termination within {CASE_LIMIT} s"
    except MemoryError:
        status, msg = "error", "MemoryError"
    except RecursionError as e:
        status, msg = "violation", "RecursionError " + _where(e)
    except Exception as e:  # the code under test raised although the precondition holds
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = any("/lie_nn/" in fr.filename for fr in tb)
        sig = isinstance(e, TypeError) and not in_repo and re.search(
            r"positional argument|unexpected keyword|required .*argument|not callable", str(e)
        )
        # an internal helper whose signature changed is not a violation; anything else is: the
        # harness code itself is exercised, without error, on the unchanged tree
        status = "skip" if sig else "violation"
        msg = f"{type(e).__name__}: {str(e)[:300]} {_where(e)}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(prop=prop, name=name, params=params, seed=seed, status=status, msg=msg, checks=K.n, t=time.time() - t0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/lie_nn/" in f.filename] or list(tb)
    f = fr[-1]
    return f"at {os.path.basename(f.filename)}:{f.lineno} in {f.name}"


def load_groups():
    import importlib

    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bounded")
    for f in sorted(os.listdir(here)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("bounded." + f[:-3])


def run_bounded(prop, tier, seed, jobs=None, deadline=None):
    load_groups()
    cases = []
    for name, fn, params, extra in GROUPS.get(prop, []):
        for p in list(params) + (list(extra) if tier == "thorough" else []):
            cases.append((prop, name, p, seed))
            if tier == "thorough":
                for k in (1, 2):
                    cases.append((prop, name, p, seed + 1000 * k))
    jobs = jobs or min(8, os.cpu_count() or 1)
    results = []
    if not cases:
        return results
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs, maxtasksperchild=50) as pool:
        it = pool.imap_unordered(run_case, cases, chunksize=1)
        for _ in range(len(cases)):
            left = None if deadline is None else max(1.0, deadline - time.time())
            try:
                results.append(it.next(timeout=left))
            except mp.TimeoutError:
                pool.terminate()
                break
    return results
