#!/opt/venv/bin/python
"""the engine must not accept these programs (each differs from the contract), and must accept their correct versions"""
import os, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import vlib
import numpy as np
sys.path.insert(0, os.environ.get("LIE_NN_REPO", "/repo"))
from vlib.sym import contract as K

GOOD, BAD = [], []


def good(f):
    GOOD.append(f)
    return f


def bad(f):
    BAD.append(f)
    return f


# each program: stack of 2 x_i over the items of X
@good
def map_append(X):
    out = []
    for x in X:
        out.append(2 * x)
    return np.stack(out)


@bad
def len_of_list(X):
    out = []
    for x in X:
        out.append(2 * x if len(out) < 3 else x)
    return np.stack(out)


@bad
def emptiness(X):
    out = []
    for x in X:
        if out:
            out.append(x)
        else:
            out.append(2 * x)
    return np.stack(out)


@bad
def last_item(X):
    out = []
    for x in X:
        if len(out) > 5:
            out.append(out[-1])
        else:
            out.append(2 * x)
    return np.stack(out)


@bad
def flag(X):
    out, first = [], True
    for x in X:
        out.append(2 * x if first else x)
        first = False
    return np.stack(out)


@bad
def flag_none(X):
    out, prev = [], None
    for x in X:
        out.append(2 * x if prev is None else prev)
        prev = x
    return np.stack(out)


@bad
def flag_late(X):
    out, s = [], None
    for x in X:
        if s is None:
            s = 2
        out.append(s * x)
        s = 3
    return np.stack(out)


@good
def flag_once(X):
    out, s = [], None
    for x in X:
        if s is None:
            s = 2
        out.append(s * x)
    return np.stack(out)


@bad
def alias(X):
    out = []
    seen = out
    for x in X:
        out.append(2 * x if len(seen) == 0 else x)
    return np.stack(out)


def helper(L, x):
    L.append(x)


@bad
def by_helper(X):
    out, seen = [], []
    for x in X:
        helper(seen, x)
        out.append(2 * x if len(seen) < 3 else x)
    return np.stack(out)


@bad
def by_dict(X):
    out, d = [], {}
    for x in X:
        out.append(2 * x if "k" not in d else x)
        d["k"] = 1
    return np.stack(out)


@bad
def by_cell(X):
    out, d = [], [0]
    for x in X:
        out.append(2 * x if d[0] < 2 else x)
        d[0] = d[0] + 1
    return np.stack(out)


@bad
def by_array(X):
    out, d = [], np.zeros(1)
    for x in X:
        out.append(2 * x + d[0] * x)
        d[0] = 1
    return np.stack(out)


@bad
def by_set(X):
    out, d = [], set()
    for x in X:
        out.append(2 * x if len(d) < 2 else x)
        d.add(len(out))
    return np.stack(out)


@bad
def after(X):
    out, k = [], 0
    for i, x in enumerate(X):
        k = i
        out.append(2 * x)
    return np.stack(out) * (2 if k == 3 else 1)


@bad
def target_after(X):
    i, out = 0, []
    for i in range(len(X)):
        out.append(2 * X[i])
    return np.stack(out) * (2 if i == 3 else 1)


@good
def counter(X):
    out, k = [], 0
    for x in X:
        out.append(2 * X[k])
        k += 1
    return np.stack(out)


@bad
def counter_used(X):
    out, k = [], 0
    for x in X:
        out.append(2 * x if k != 4 else x)
        k += 1
    return np.stack(out)


@good
def stores(X):
    Y = np.zeros_like(X)
    for i in range(len(X)):
        Y[i] = 2 * X[i]
    return Y


@bad
def stores_skip(X):
    Y = np.zeros_like(X)
    for i in range(len(X)):
        if i != 7:
            Y[i] = 2 * X[i]
    return Y


@bad
def stores_overlap(X):
    Y = 2 * X
    for i in range(len(X)):
        Y[max(i - 1, 0)] = X[i]
    return Y


@bad
def stores_alias(X):
    Y = 2 * X
    Z = Y
    for i in range(1, len(X)):
        Y[i] = Z[i - 1] * 0 + 2 * X[i] if i < 3 else Z[i - 1]
    return Y


@bad
def stores_view(X):
    Y = 2 * X
    Z = Y[:]
    for i in range(1, len(X)):
        Y[i] = Z[i - 1]
    return Y


@bad
def view_after(X):
    Y = 2 * X
    Z = Y[0]
    Z[0] = 5
    return Y


@good
def copy_after(X):
    Y = 2 * X
    Z = Y[0].copy()
    Z[0] = 5
    return Y


@bad
def break_out(X):
    out = []
    for i, x in enumerate(X):
        if i == 9:
            break
        out.append(2 * x)
    return np.stack(out)


@bad
def skip(X):
    out = []
    for i, x in enumerate(X):
        if i == 9:
            continue
        out.append(2 * x)
    return np.stack(out)


@bad
def early(X):
    for i in range(len(X)):
        if i == 9:
            return X
    return 2 * X


@bad
def while_flag(X):
    k = 0
    while k < len(X):
        k += 1
    return 2 * X if k < 50 else X


@bad
def mutable_default(X, acc=[]):
    acc.append(1)
    return 2 * X if len(acc) < 3 else X


@bad
def comprehension_side_effect(X):
    d = []
    out = [2 * x if (d.append(1) or len(d) < 3) else x for x in X]
    return np.stack(out)


@bad
def generator_state(X):
    def gen():
        k = 0
        for x in X:
            k += 1
            yield 2 * x if k < 3 else x
    return np.stack(list(gen()))


@bad
def nonlocal_state(X):
    k = 0

    def f(x):
        nonlocal k
        k += 1
        return 2 * x if k < 3 else x
    return np.stack([f(x) for x in X])


@bad
def iterator_state(X):
    it = iter(range(10))
    out = []
    for x in X:
        out.append(2 * x if next(it, 9) < 3 else x)
    return np.stack(out)


@bad
def reversed_order(X):
    return np.stack([2 * x for x in reversed(list(X))])


@bad
def zip_short(X):
    return np.stack([2 * x for x, _ in zip(X, range(5))])


@bad
def tried(X):
    try:
        y = X[3]
    except IndexError:
        y = 0
    return 2 * X + 0 * np.sum(y) if len(X) < 4 else X


@bad
def dtype_dependent(X):
    return 2 * X if X.dtype == np.float64 else X


@bad
def inplace_input(X):
    X *= 2
    return X


@bad
def inplace_view(X):
    Y = X.reshape(-1)
    Y *= 2
    return 2 * X / 2


@bad
def inplace_transposed(X):
    Y = np.moveaxis(X, 0, 1)
    Y += Y
    return X


@bad
def inplace_out(X):
    np.multiply(X, 2, out=X)
    return X


@bad
def isclose(X):
    return np.where(np.abs(X) < 1e-9, 0, 2 * X)


@bad
def rounding(X):
    return np.round(2 * X, 8)


@bad
def clipped(X):
    return 2 * np.clip(X, -100, 100)


@bad
def int_cast(X):
    return (2 * X).astype(np.float32)


@bad
def real_only(X):
    return 2 * X.real


@bad
def negative_index(X):
    out = []
    for i in range(len(X)):
        out.append(2 * X[i - 1])
    return np.stack(out)


@bad
def reshape_order(X):
    n, d, e = X.shape
    return 2 * X.reshape(n, e, d).reshape(n, d, e).swapaxes(1, 2).reshape(n, d, e)


CACHE = {}
SEEN = []


@bad
def global_cache(X):
    if "k" not in CACHE:
        CACHE["k"] = 1
        return 2 * X
    return X


@bad
def global_list(X):
    SEEN.append(1)
    return 2 * X if len(SEEN) < 2 else X


@bad
def function_attribute(X):
    function_attribute.n = getattr(function_attribute, "n", 0) + 1
    return 2 * X if function_attribute.n < 2 else X


@bad
def walrus(X):
    k = 0
    out = [2 * x if (k := k + 1) < 3 else x for x in X]
    return np.stack(out)


@bad
def lazy(X):
    k = 2
    g = (k * x for x in X)
    k = 3
    return np.stack(list(g))


@bad
def lambda_late(X):
    k = 2
    f = lambda x: k * x  # noqa: E731
    k = 3
    return f(X)


@bad
def dict_order(X):
    d = {i: X[0] for i in range(2)}
    d[0] = 2 * X[0]
    return np.stack([d[0] if i == 0 else 2 * x + d[1] * 0 + (x if i == 11 else 0 * x) for i, x in enumerate(X)])


@bad
def sum_not_stack(X):
    r = 0
    for x in X:
        r = r + x
    return 2 * X + 0 * r + (r - np.sum(X, axis=1))


@good
def sum_total(X):
    r = np.sum(X, axis=0)
    return 2 * X + (r - np.einsum("ijk->jk", X))


@bad
def string_key(X):
    return 2 * X if str(X.shape[0]) != "7" else X


@bad
def size(X):
    return 2 * X if X.size < 1000 else X


@bad
def finfo(X):
    return 2 * X if X.shape[0] * 1.0 < 1e3 else X


@bad
def division(X):
    return (2 * X) / (X.shape[1] - 3) * (X.shape[1] - 3)


@bad
def float_power(X):
    return 2 * X * X.shape[0] ** 0.5 / np.sqrt(X.shape[0] + 0.0) * (1 if X.shape[0] % 5 else -1)


@bad
def floor(X):
    return 2 * X * (X.shape[0] // 2 * 2 + 1) / X.shape[0]


@bad
def swap(X):
    a, b = 2 * X, X
    a, b = b, a
    return a


@bad
def chain_compare(X):
    return 2 * X if not 3 < X.shape[0] < 5 else X


@bad
def ternary_or(X):
    n = X.shape[0] % 4 or 1
    return 2 * X * n / n if n != 3 else X


@bad
def bool_index(X):
    return 2 * X[np.arange(X.shape[0]) != 3]


@bad
def array_slice(X):
    return np.concatenate([2 * X[:10], X[10:]])


@bad
def array_slice_gap(X):
    return np.concatenate([2 * X[:10], 2 * X[11:]])


@bad
def transposed(X):
    return np.swapaxes(2 * X, 1, 2) if X.shape[1] == X.shape[2] else 2 * X


@bad
def kept_by_where(X):
    return np.where(X == 0, 1, 2 * X)


@bad
def trace_free(X):
    return 2 * X - np.einsum("ijj->i", X)[:, None, None] if X.shape[1] == X.shape[2] else 2 * X


@bad
def conj_back(X):
    return X + np.conj(X)


@bad
def eye_offset(X):
    return 2 * X @ np.eye(X.shape[2], k=0) if X.shape[2] != 6 else 2 * X @ np.eye(X.shape[2], k=1)


@bad
def assertion(X):
    assert X.shape[0] < 100
    return 2 * X


@bad
def assert_sum(X):
    assert np.sum(X) != 0.5
    return 2 * X


@bad
def try_except(X):
    try:
        assert X.shape[0] < 100
    except AssertionError:
        return X
    return 2 * X


@bad
def default_dim(X):
    return 2 * X.reshape(-1, X.shape[1], X.shape[2])[: max(X.shape[0] - 1, 1)]


@bad
def same_shape_broadcast(X):
    return X + X[0] if X.shape[0] > 1 else 2 * X


@bad
def sorted_items(X):
    idx = sorted(range(X.shape[0]), key=lambda i: -i)
    return np.stack([2 * X[i] for i in idx])


@bad
def modulo_range(X):
    return np.stack([2 * X[i] for i in range(0, X.shape[0], 2)])


@bad
def kron_order(X):
    return 2 * np.einsum("aij->aji", X).reshape(X.shape)


@bad
def inverse_twice(X):
    return 2 * X @ (np.linalg.inv(np.eye(X.shape[2]) + np.ones((X.shape[2], X.shape[2]))))


@good
def empty_or_not(X):
    return 2 * X if X.shape[0] else X + X


@bad
def recursion(X):
    return np.concatenate([X[:1] * 2, recursion(X[1:])]) if X.shape[0] > 1 else X


@good
def search_return(X):
    for i in range(X.shape[0]):
        if i * i == 9:
            return X + X
    return 2 * X


@bad
def search_return_wrong(X):
    for i in range(X.shape[0]):
        if i * i == 9:
            return X
    return 2 * X


@good
def search_first(X):
    k = 0
    for i in range(X.shape[0]):
        if i >= 1:
            k = i
            break
    return X * (2 if k <= 1 else 3)


@bad
def search_first_wrong(X):
    k = 0
    for i in range(X.shape[0]):
        if i >= 1:
            k = i
            break
    return X * (2 if k == 1 else 3)


@good
def search_no_reason(X):
    for i in range(X.shape[0]):
        if i >= X.shape[0]:
            return X
    return 2 * X


@good
def search_nested(X):
    for i in range(X.shape[0]):
        for j in range(i):
            if i + j < j:
                return X
    return 2 * X


@bad
def search_nested_wrong(X):
    for i in range(X.shape[0]):
        for j in range(i):
            if i + j == 7:
                return X
    return 2 * X


@good
def search_else(X):
    for i in range(X.shape[0]):
        if i == 4:
            Y = X
            break
    else:
        Y = 2 * X
    return Y if X.shape[0] <= 4 else 2 * Y


@bad
def search_else_wrong(X):
    for i in range(X.shape[0]):
        if i == 4:
            Y = X
            break
    else:
        Y = 2 * X
    return Y if X.shape[0] < 4 else 2 * Y


@bad
def search_carried(X):
    seen = False
    for i in range(X.shape[0]):
        if seen and i == 2:
            return X
        seen = True
    return 2 * X


@bad
def search_last_value(X):
    k = 0
    for i in range(X.shape[0]):
        k = i
        if i == 5:
            break
    return X * (2 if k == 0 else 3)


@bad
def search_closure(X):
    k = 0
    f = lambda: k
    for i in range(X.shape[0]):
        k = i
        if f() == 5:
            return X
    return 2 * X


@bad
def search_effect(X):
    a = []
    for i in range(X.shape[0]):
        if i == 5:
            break
        a.append(i)
    return 2 * X if len(a) == X.shape[0] else X


@bad
def search_raise(X):
    for i in range(X.shape[0]):
        if i == 5:
            raise ValueError
        if i == 6:
            return X
    return 2 * X


@good
def search_raise_caught(X):
    def find():
        for i in range(X.shape[0]):
            if i == 5:
                raise ValueError
            if i == 6:
                return 3
        return 2
    try:
        return find() * X
    except ValueError:
        return 2 * X


@bad
def search_values(X):
    for i in range(X.shape[0]):
        if X[i, 0, 0] == 0:
            return X
    return 2 * X


@good
def search_values_kept(X):
    for i in range(X.shape[0]):
        if X[i, 0, 0] == 0:
            return X + X
    return 2 * X


@good
def search_continue(X):
    for i in range(X.shape[0]):
        if i < 3:
            continue
        if i == 2:
            return X
    return 2 * X


@bad
def consumed_twice(X):
    g = (i for i in range(X.shape[0]))
    a = list(g)
    b = list(g)
    return 2 * X if len(a) == len(b) else X


@bad
def next_twice(X):
    g = iter([2, 3])
    next(g)
    return next(g) * X / 1.5 if next(g) == 2 else next(g) * X


@bad
def zip_in_loop(X):
    g = zip(range(3), range(3))
    k = 0
    for i in range(2):
        k = len(list(g))
    return 2 * X if k == 3 else X


@good
def consumed_once(X):
    g = (2 * x for x in X)
    return np.stack([y for y in g])


def make(f):
    def prog(c):
        n, d, e = c.int("n", 1), c.int("d", 1), c.int("e", 1)
        X = c.tensor("X", n, d, e, real=c.choose("real", [True, False]))
        want = 2 * X
        r = c.call(f, X)
        c.equal("2 X", r, want)
    return K.Contract(prog, ["C00"], f.__name__, [], None, "quick", [], 4)


for _f in GOOD + BAD + [helper]:
    _f.__module__ = "contracts.engine_tests"
sys.modules["contracts.engine_tests"] = sys.modules["__main__"]
only = sys.argv[1:]
wrong = 0
for kind, fs in (("good", GOOD), ("bad", BAD)):
    for f in fs:
        if only and f.__name__ not in only:
            continue
        con = make(f)
        r = K.run_symbolic(con, time.time() + 60)
        st = {k: o["status"] for k, o in r.obl.items()}
        ok = bool(st) and all(v == "proved" for v in st.values()) and not r.aborted
        msg = "; ".join(r.aborted)[:90] or ", ".join(f"{k}: {v}" for k, v in st.items() if v != "proved")[:90]
        if ok != (kind == "good"):
            wrong += 1
        print(f"{'WRONG ' if ok != (kind == 'good') else ''}{kind} {f.__name__}: {'accepted' if ok else msg}")
sys.exit(bool(wrong))
