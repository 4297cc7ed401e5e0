"""C21: the JAX helpers compute what the NumPy ones do.

jax.lax.cond, jax.lax.scan, jax.vmap and the jax.numpy functions are used through their documented semantics (cond: a branch; scan:
a loop, here by induction over its steps; vmap: stacking over the leading axis); jax.jit through its wrapped function."""
import jax
import jax.numpy as jnp
import numpy as np
import scipy.linalg

from lie_nn._src import jax_utils
from vlib.sym.contract import contract

J = "lie_nn._src.jax_utils."
STEPS, LIMIT = 32, 2**31 - 1


@contract("C21", targets=[J + "matrix_power"], assumes=["jax.jit, lax.cond, lax.scan, vmap and jax.numpy follow their documented semantics; int32 exponents"])
def matrix_power(c):
    """matrix_power(F, n) = F^n for every square F and every 0 <= n < 2^31.  The loop state (m, z, r) satisfies
    z = F^e, r = F^a with a + e m = n while m > 0, and r = F^n once m = 0; m <= (2^31 - 1) // 2^t after t steps."""
    d = c.int("d", 1)
    n = c.int("n", 0, sample=(0, 12))
    Fp = c.matrix_powers("F", d)
    if not c.symbolic:
        F = Fp(1)
        for x in (F, F + 1j * F.T, np.array(np.rint(F), int)):
            # (exponents of any size: F of finite order)
            T, k = np.roll(np.eye(3), 1, axis=0), c.int("k", 0, sample=(0, LIMIT))
            for k in (k, n + LIMIT - 20):
                c.equal("large power", c.call(jax_utils.matrix_power, T, k), np.linalg.matrix_power(T, k % 3), tol=1e-3)
            c.equal(f"power {x.dtype}", c.call(jax_utils.matrix_power, x, n), np.linalg.matrix_power(x, n), tol=1e-3)
        return
    c.assume(n <= LIMIT)

    def cond(p, f, g, *x):
        if p:
            return f(*x)
        return g(*x)

    def divmod_(a, b):
        return a // b, a % b

    def scan(body, init, xs, length):
        c.ensure("number of steps", length == STEPS)
        m, z, r = init
        c.ensure("initial exponent", m == n)
        c.equal("initial base", z, Fp(1))
        c.equal("initial result", r, Fp(0))
        # one arbitrary step; b bounds the exponent left
        b, m, e, a = c.int("b", 0), c.int("m", 0), c.int("e", 0), c.int("a", 0)
        c.assume(m <= b)
        if m > 0:
            c.assume(a + e * m == n)
            (m2, z2, r2), y = body((m, Fp(e), Fp(a)), None)
            a2 = a if m % 2 == 0 else a + e
            c.equal("result of a step", r2, Fp(a2))
            if m2 > 0:
                c.equal("base of a step", z2, Fp(e + e))
                c.ensure("exponents of a step", a2 + (e + e) * m2 == n)
            else:
                c.ensure("exponents of the last step", a2 == n)
        else:
            R, Z = c.tensor("R", d, d), c.tensor("Z", d, d)
            (m2, z2, r2), y = body((m, Z, R), None)
            c.equal("result kept", r2, R)
        c.ensure("exponent left", (m2 >= 0) & (m2 <= b // 2))
        # the bound reaches 0 within the steps, so the result is F^n
        k = LIMIT
        for _ in range(STEPS):
            k = k // 2
        c.ensure("enough steps", k == 0)
        return (0, None, Fp(n)), None

    c.override(jax.lax.cond, cond)
    c.override(jax.lax.scan, scan)
    c.override(jnp.divmod, divmod_)
    c.override(jnp.eye, np.eye)
    c.override(jnp.empty, np.empty)
    c.equal("power", c.call(jax_utils.matrix_power.__wrapped__, Fp(1), n), Fp(n))


@contract("C21", targets=[J + "exp_map"], assumes=["jax.scipy.linalg.expm is the matrix exponential"])
def exp_map(c):
    """exp_map(rep, t, n) = H_0^n_0 ... H_(m-1)^n_(m-1) expm(sum_a t_a X_a), as rep.exp_map(t, n) (contract of C08)"""
    A = c.algebra()
    m = c.int("m", 0)
    r = c.anyrep("1", A, m)
    d = r.X.shape[1]
    t = c.tensor("t", A.shape[0], real=True)
    n = c.seq("n", m, lambda i: c.family("n", i, 0))
    if not c.symbolic:
        want = scipy.linalg.expm(sum((a * x for a, x in zip(t, r.X)), np.zeros((d, d))))
        for k, h in list(zip(n, r.H))[::-1]:
            for _ in range(k):
                want = h @ want
        return c.equal("product", c.call(jax_utils.exp_map, r, t, np.array(list(n), int)), want, tol=1e-3)
    E = c.tensor("E", d, d)
    W = lambda i: c.vtensor("W", (i,), (d, d))  # noqa: E731 (the power n_i of H_i)

    def expm(x):
        c.equal("argument of expm", x, np.einsum("a,aij->ij", t, r.X))
        return E

    def matrix_power(h, k):
        i = c.index_of(k)
        c.equal("base of the power", h, r.H[i])
        return W(i)

    def vmap(f):
        return lambda H, k: [f(h, e) for h, e in zip(H, k)]

    c.override(jax.vmap, vmap)
    c.override(jax.scipy.linalg.expm, expm)
    c.override(jnp.einsum, np.einsum)
    c.override(jax_utils.matrix_power, matrix_power)
    V = c.fold(jax_utils.exp_map, "product over the discrete generators", E, lambda k, v: W(m - 1 - k) @ v, d, d)
    c.equal("product", c.call(jax_utils.exp_map, r, t, n), V.at(m))


@contract("C21", targets=[J + "static_jax_pytree"])
def static_pytree(c):
    """the registered functions give no leaves and give the object back"""
    seen = {}

    def register(cls, flatten, unflatten):
        seen["f"], seen["g"] = flatten, unflatten

    if not c.symbolic:

        class Label:
            j: int = 3

        Label = c.call(jax_utils.static_jax_pytree, Label)
        x = Label()
        leaves, tree = jax.tree_util.tree_flatten(x)
        return c.ensure("no leaves and the object back", leaves == [] and jax.tree_util.tree_unflatten(tree, []) is x)
    x = c.tensor("x", c.int("k", 0))
    c.override(jax.tree_util.register_pytree_node, register)
    c.call(jax_utils.static_jax_pytree, type('Label', (), {}))
    leaves, aux = seen["f"](x)
    c.ensure("no leaves", len(leaves) == 0)
    c.equal("the object back", seen["g"](aux, leaves), x)
